"""C26: what is printed states the values that it describes.

States are objects (circuits, harmonic balance runs after every number of
iterations, response functions, numbers) and what is printed about them; every
printed number is parsed and compared with the object, in the stated unit.
"""

import contextlib
import io
import itertools
import re

import numpy as np
import scipy.constants as sc

from mc import lib

MODEL = 'printed label -> value in the printed unit, to the printed digits'
BOUNDS = {'quick': 'circuits of 1-4 tones x 1-3 harmonics x junction known or not x every subset of up to 6 set signals; '
                   'harmonic balance reports of 9 circuits after 0..6 iterations x 3 targets; 9 response functions; '
                   'all combinations of 25 numbers x units x comments x 4 colours; all progress bars up to 24 steps',
          'thorough': 'every subset of up to 8 set signals, 12 iterations, progress bars up to 60 steps'}

COLOURS = {'CYAN': 36, 'MAGENTA': 35, 'PINK': 95, 'BLUE': 94, 'GREEN': 92, 'YELLOW': 93, 'RED': 91, 'BOLD': 1, 'UNDERLINE': 4}
FREQS = [.3, .34, .03, .41]
JUNCTION = dict(vgap=2.8e-3, rn=14., fgap=sc.e * 2.8e-3 / sc.h)


def cases(tier):
    for nf, num_p in itertools.product((1, 2, 3, 4), (1, 2, 3)):
        for known in (True, False):
            yield {'kind': 'circuit', 'nf': nf, 'num_p': num_p, 'known': known}
    from mc.checks import c06
    for name in c06.CIRC:
        if len(c06.CIRC[name][0]) < 3:
            yield {'kind': 'hb', 'circuit': name}
    for name in ('poly 50', 'poly 50 7', 'poly 10', 'exp', 'exp smear', 'perfect', 'perfect smear', 'data', 'pre'):
        yield {'kind': 'resp', 'name': name}
    for kind in ('numbers', 'titles', 'bar', 'current'):
        yield {'kind': kind}


def weight(case):
    return {'circuit': 3, 'hb': 2}.get(case['kind'], 1)


def prepare(tier):
    lib.resp('poly:50')


def capture(fn, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = fn(*args, **kw)
    return buf.getvalue(), out


def plain(s):
    return re.sub(r'\x1b\[[0-9;]*m', '', s)


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf|INF|NAN)'


def cnum(s):
    """The real or complex number at the beginning of the text."""
    s = s.strip()
    m = re.match(r'\(?\s*({0})\s*([-+])\s*({0})j\)?'.format(NUM), s)
    if m:
        return complex(float(m.group(1)), float(m.group(2) + m.group(3)))
    m = re.match(r'\(?\s*({0})j\)?'.format(NUM), s)
    if m:
        return 1j * float(m.group(1))
    return complex(float(re.match(NUM, s).group(0)))


# -- circuits ------------------------------------------------------------------

def circuit(case, ctx):
    from qmix.circuit import EmbeddingCircuit
    nf, num_p = case['nf'], case['num_p']
    sig = list(itertools.product(range(1, nf + 1), range(1, num_p + 1)))
    names = ['LO', '', 'RF : x', 'f=9, p=9', '1.5 GHz']
    n = min(len(sig), 6 if ctx.tier == 'quick' else 8)
    for subset in itertools.product((0, 1), repeat=n):
        name = names[sum(subset) % len(names)]
        kw = dict(JUNCTION) if case['known'] else {}
        cct = EmbeddingCircuit(nf, num_p, name=name, vb_npts=11, **kw)
        # every second subset is written from the last signal to the first
        comments = {}
        order = sig if sum(subset) % 2 else sig[::-1]
        for f in range(1, nf + 1):
            cct.freq[f] = FREQS[f - 1]
        for k, (f, p) in enumerate(order):
            if k < n and subset[k]:
                cct.vt[f, p] = (.5137 + .1 * f - .21 * p) * (1j if (k + sum(subset)) % 5 == 3 else 1) + (.031j if (f + p) % 3 == 2 else 0)
                if sum(subset) % 3 == 2:
                    cct.vt[f, p] *= 10. ** -(k + 1)     # weak signals
                cct.zt[f, p] = (.3 + .1 * f - (.27 - .05 * p) * 1j) * 10 ** (p - 2)
                comments[f, p] = 'signal {}{}'.format('abcde'[f], 'xyzw'[p])
                cct.comment[f][p] = comments[f, p]
        before = lib.circuit_state(cct)
        what = 'circuit {} x {} {} {}'.format(nf, num_p, subset, case['known'])
        out, _ = capture(cct.print_info)
        out2, _ = capture(cct.print_info)
        ctx.true(out == out2, '{}: printed twice with different results', what)
        lib.same_circuit(ctx, cct, before, what)
        out = plain(out)
        for s in (str(cct), repr(cct), out.splitlines()[0]):
            ctx.true(name in s and [int(x) for x in re.findall(r'(?:Tones|Harmonics):\s*(\d+)', s)] == [nf, num_p], '{}: description {!r}', what, s)
        # blocks
        blocks, cur = {}, None
        seen = []
        for l in out.splitlines()[1:]:
            m = re.match(r'\s*f=(\d+), p=(\d+)\s+(.*)', l)
            if m:
                cur = (int(m.group(1)), int(m.group(2)))
                ctx.true(cur not in blocks, '{}: signal {} printed twice', what, cur)
                blocks[cur] = {'head': m.group(3)}
                seen.append(cur)
                last = None
            elif l.strip():
                m = re.match(r'\s*([A-Za-z. ]+):\s*(.*)', l)
                if m:
                    last = m.group(1).strip()
                val = m.group(2) if m else l.strip()
                unit = re.search(r'(Vgap|Vph|Rn|dBm|W)\s*$', val).group(1)
                blocks[cur][last, unit] = cnum(val)
        ctx.true(seen == sig, '{}: signals {} printed', what, seen)
        for (f, p), b in blocks.items():
            tag = '{} signal {}'.format(what, (f, p))
            head = b['head']
            ctx.true(comments.get((f, p), '') in head and not any(c in head for k, c in comments.items() if k != (f, p)), '{}: comment {!r}', tag, head)
            x = float(re.search(NUM, head).group(0)) * int(re.search(r'x (\d+)', head).group(1))
            vt, zt = cct.vt[f, p], cct.zt[f, p]
            if case['known']:
                ctx.true('GHz' in head, '{}: unit of the frequency {!r}', tag, head)
                ctx.close(x, cct.freq[f] * p * cct.fgap / 1e9, atol=.0501 * p, what=tag + ' frequency')
                ctx.close(b['Thev. voltage', 'Vph'], vt / (cct.freq[f] * p), atol=8e-5, what=tag + ' voltage / Vph')
                power = abs(vt * cct.vgap) ** 2 / 8 / (zt.real * cct.rn) if vt else 0.
                ctx.close(b['Avail. power', 'W'].real, power, atol=1e-30, rtol=5.01e-3, what=tag + ' available power')
                if power:
                    ctx.close(b['Avail. power', 'dBm'].real, 10 * np.log10(power * 1e3), atol=5.01e-4, what=tag + ' available power in dBm')
                else:
                    ctx.true(not b['Avail. power', 'dBm'].real > -250, '{}: power {} dBm', tag, b['Avail. power', 'dBm'])
            else:
                ctx.close(x, cct.freq[f] * p, atol=5.01e-5 * p, what=tag + ' frequency')
                ctx.true(set(b) == {'head', ('Thev. voltage', 'Vgap'), ('Thev. impedance', 'Rn')}, '{}: printed {}', tag, sorted(map(str, b)))
            ctx.close(b['Thev. voltage', 'Vgap'], vt, atol=8e-5, what=tag + ' voltage')
            ctx.close(b['Thev. impedance', 'Rn'], zt, atol=8e-3, what=tag + ' impedance')
            ctx.edge()
        ctx.state(nf, num_p, subset, case['known'])
    ctx.obs(out)
    ctx.trace()


# -- harmonic balance ----------------------------------------------------------

def hb(case, ctx):
    from mc.checks import c06
    from qmix.harmonic_balance import harmonic_balance
    cct, num_b = c06.build(case['circuit'], [.45137, .82291, .97, 1.17293, 1.31])
    rs = lib.resp('poly:50')
    n = 7 if ctx.tier == 'quick' else 13
    err, slack = [], []
    for it in range(n):
        vj, k, conv = harmonic_balance(cct, rs, num_b, max_it=it, stop_rerror=1e-30, mode='x', verbose=False)
        res = c06.ref_residual(cct, rs, vj)
        mag = np.abs(vj[1:, 1:])
        err.append(res / mag)
        slack.append(2e-9 / mag.min(axis=-1))
    nf, num_p = cct.num_f, cct.num_p
    for stop, max_it in itertools.product((.1, 1e-2, 1e-3), range(n)):
        out, r = capture(harmonic_balance, cct, rs, num_b, max_it=max_it, stop_rerror=stop, mode='x', verbose=True)
        out = plain(out)
        what = '{} target {} up to {} iterations'.format(case['circuit'], stop, max_it)
        quiet, r2 = capture(harmonic_balance, cct, rs, num_b, max_it=max_it, stop_rerror=stop, mode='x', verbose=False)
        ctx.close(r[0], r2[0], atol=1e-13, what=what + ' printed or not')
        ctx.true(r[1:] == r2[1:], '{}: printed {} or not {}', what, r[1:], r2[1:])
        # the failure must be announced, success must not
        for s in (out, quiet):
            ctx.true(('DID NOT ACHIEVE' in s) == (not r[2]), '{}: converged {}, printed {!r}', what, r[2], s[-200:])
        ctx.true(('Done' in out) == bool(r[2]), '{}: converged {}, printed {!r}', what, r[2], out[-200:])
        if r[2]:
            ctx.true(quiet.strip() == '', '{}: printed {!r} although verbose is False', what, quiet[:100])
        m = re.search(r'(\d+) tone\(s\) and (\d+) harmonic\(s\)', out)
        ctx.true(m and (int(m.group(1)), int(m.group(2))) == (nf, num_p), '{}: number of tones and harmonics', what)
        m = re.search(r'max. iterations: (\d+)', out)
        ctx.true(m and int(m.group(1)) == max_it, '{}: number of iterations', what)
        parts = re.split(r'Error after (\d+) iteration\(s\):', out)
        its = [int(x) for x in parts[1::2]]
        ctx.true(its == list(range(r[1] + 1)), '{}: printed iterations {} instead of 0..{}', what, its, r[1])
        for it, part in zip(its, parts[2::2]):
            rows = re.findall(r'f:(\d+), p:(\d+),\s+med. rel. error:\s*({0}),\s+max. rel. error:\s*({0}),\s*({0}) % complete'.format(NUM), part)
            ctx.true([(int(a), int(b)) for a, b, _, _, _ in rows] == list(itertools.product(range(1, nf + 1), range(1, num_p + 1))), '{}: signals {}', what, rows)
            for a, b, med, mx, done in rows:
                e = err[it][int(a) - 1, int(b) - 1]
                tag = '{} iteration {} signal {}'.format(what, it, (a, b))
                for x, y, lbl in ((med, np.median(e), 'median'), (mx, e.max(), 'maximum')):
                    y = min(y, 99999.999)
                    ctx.close(float(x), y, atol=5.1e-4 + 1e-5 * y + slack[it][int(a) - 1, int(b) - 1], rtol=1e-6, what='{} {} relative error'.format(tag, lbl))
                near = np.abs(e / stop - 1) < 1e-3 + slack[it][int(a) - 1, int(b) - 1] / stop
                lo, hi = np.sum((e < stop) & ~near), np.sum((e < stop) | near)
                ctx.true(lo / e.size * 100 - .051 <= float(done) <= hi / e.size * 100 + .051, '{}: {} % complete, the errors are {}', tag, done, e)
            ctx.edge()
        if r[1]:
            m = re.search(r'(\d+) iterations required', out)
            ctx.true(m is not None and int(m.group(1)) == r[1], '{}: iterations required', what)
        ctx.state(case['circuit'], stop, max_it)
        ctx.obs(r[1:])
    ctx.trace()


def current(case, ctx):
    """Progress report of the tunneling currents."""
    from qmix.qtcurrent import qtcurrent
    rs = lib.resp('poly:50')
    for nf, num_p in itertools.product((1, 2, 3), (1, 2)):
        cct = lib.circuit(FREQS[:nf], num_p, [.5, .9])
        vj = cct.initialize_vj()
        vj[1, 1] = .3
        out, a = capture(qtcurrent, vj, cct, rs, [0., .3], num_b=4, verbose=True)
        quiet, b = capture(qtcurrent, vj, cct, rs, [0., .3], num_b=4, verbose=False)
        ctx.true([int(x) for x in re.findall(r'(\d+) (?:tone|harmonic)\(s\)', out)] == [nf, num_p], 'printed {!r}', out)
        ctx.true(quiet == '', 'printed {!r} although verbose is False', quiet)
        ctx.same(a, b, 'currents, printed or not')
        ctx.state(nf, num_p)
        ctx.edge()
    ctx.obs(a)
    ctx.trace()


# -- response functions --------------------------------------------------------

def respfn(case, ctx):
    from qmix import respfn as rf
    name = case['name'].split()
    kw = {}
    if name[-1] == '7':
        kw.update(max_npts_dc=41, max_npts_kk=61)
    if name[-1] == 'smear':
        kw.update(v_smear=.0312)
    v = np.linspace(0, 35, 7001)

    def build(**more):
        k = dict(kw, **more)
        if name[0] == 'poly':
            return rf.RespFnPolynomial(int(name[1]), **k)
        if name[0] == 'exp':
            return rf.RespFnExponential(**k)
        if name[0] == 'perfect':
            return rf.RespFnPerfect(**k)
        x = np.linspace(0, 8, 1601)
        y = x ** 31 / (1 + x ** 30)
        if name[0] == 'data':
            return rf.RespFnFromIVData(x, y, **k)
        return rf.RespFn(v, v * (1 - np.exp(-(v / 1.2) ** 24)), **k)

    for npts, order, smear in itertools.product((None, 31, 201), (1, 3), (None, .05)):
        more = {} if npts is None else {'max_npts_dc': npts, 'max_npts_kk': npts + 20}
        more['spline_order'] = order
        if smear and name[0] in ('poly', 'pre'):
            more['v_smear'] = smear
        out, r = capture(build, verbose=True, **more)
        quiet, q = capture(build, verbose=False, **more)
        tag = '{} {}'.format(case['name'], more)
        ctx.true(quiet == '', '{}: printed {!r} although verbose is False', tag, quiet[:100])
        at = np.linspace(-3, 3, 401)
        ctx.same(r(at), q(at), tag + ' printed or not')
        ctx.true('esponse function' in out, '{}: printed {!r}', tag, out[:100])
        sm = more.get('v_smear', kw.get('v_smear'))
        m = re.search(r'[Ss]mear:\s*({})'.format(NUM), out)
        if name[0] != 'perfect':
            ctx.true((m is not None) == (sm is not None), '{}: smearing printed {}', tag, m)
        if m:
            ctx.close(float(m.group(1)), sm, atol=5.1e-5, what=tag + ' voltage smear')
        if name[0] == 'perfect' and sm is None:
            ctx.state(tag)
            ctx.edge()
            continue
        sec = re.split(r'- (DC I-V|KK) curve:', out)
        ctx.true(sec[1::2] == ['DC I-V', 'KK'], '{}: sections {}', tag, sec[1::2])
        for sname, s, volt, cur, fn in zip(sec[1::2], sec[2::2], (r.voltage, r.voltage_kk), (r.current, r.current_kk), (r.idc, r.ikk)):
            n = int(re.search(r'npts for [A-Z -]+:\s*(\d+)', s).group(1))
            avg = float(re.search(r'avg. error:\s*({})'.format(NUM), s).group(1))
            mx, where = (float(x) for x in re.search(r'max. error:\s*({0}) at v=({0})'.format(NUM), s).groups())
            sel = np.abs(volt) < 34
            e = np.abs(cur - spline(r, sname, volt))[sel]
            ctx.close(avg, e.mean(), atol=1e-12, rtol=6e-5, what='{} {} average error'.format(tag, sname))
            ctx.close(abs(mx), e.max(), atol=5.1e-5, what='{} {} maximum error'.format(tag, sname))
            ctx.true(np.abs(cur - spline(r, sname, volt))[sel & (np.abs(volt - where) < .00501)].max() > e.max() - 1e-9, '{} {}: the error at {} is not the maximum', tag, sname, where)
            ctx.true(5 < n <= volt.size, '{} {}: {} points', tag, sname, n)
            ctx.edge()
        ctx.state(tag)
    ctx.obs(out)
    ctx.trace()


def spline(r, name, v):
    return r.idc(v) if name[0] == 'D' else r.ikk(v)


# -- numbers -------------------------------------------------------------------

VALUES = [0, 1, -1, 3, 1.5, -2.25, .001, -.0004, 123.456, -123.456, 1e4, 12345.678, 1e-12, -1e-12, 6.6e-34, 1 + 2j, 1 - 2j, -1 + .5j, -1 - .5j, 2j, -3j, complex(3, 0),
          123.4 - 56.7j, -.0001 - .0001j, complex(-.25, 12.5)]


def numbers(case, ctx):
    from qmix.misc import terminal as t
    for val, kind in itertools.product(VALUES, ('python', 'numpy')):
        x = val if kind == 'python' else (np.complex128(val) if isinstance(val, complex) else np.float64(val))
        s = t.printc(x)
        m = re.match(r'\s*({0})\s*([-+])\s*j\s*(\d+\.\d+)\s*$'.format(NUM), s)
        ctx.true(m is not None, 'printc({!r}) is {!r}', x, s)
        got = complex(float(m.group(1)), float(m.group(2) + m.group(3)))
        ctx.close(got, complex(val), atol=7.2e-3, what='printc({!r}) = {!r}'.format(x, s))
        for fn, units, comment, colour in itertools.product((t.pvalf, t.pvale), ('', 'mV', 'K/W'), ('', 'a note'), (None, 'RED', 'green', 'nocolour')):
            raw, _ = capture(fn, 'name_x', x, units, comment, colour)
            what = '{}({!r}, {!r}, {!r}, {!r}) printed {!r}'.format(fn.__name__, x, units, comment, colour, raw)
            line = [l for l in plain(raw).splitlines() if 'name_x' in l]
            ctx.true(len(line) == 1, '{}', what)
            if colour in ('RED', 'green'):
                ctx.true(('\x1b[%dm' % COLOURS[colour.upper()]) in raw and raw.rstrip('\n').endswith('\x1b[0m'), '{}: colour', what)
            elif colour is None:
                ctx.true('\x1b' not in raw, '{}: colour', what)
            m = re.match(r'\s*name_x\s*=\s*(.*)$', line[0])
            body = m.group(1)
            mm = re.match(r'({0})\s*([-+])\s*j\s*({0})'.format(NUM), body)
            got = complex(float(mm.group(1)), float(mm.group(2) + mm.group(3))) if mm else cnum(body)
            if fn is t.pvalf:
                ctx.close(got, complex(val), atol=7.2e-4, what=what)
            else:
                ctx.close(got.real, complex(val).real, atol=0, rtol=.0501, what=what)
                ctx.close(got.imag, complex(val).imag, atol=0, rtol=.0501, what=what)
            ctx.true((units == '') == ('[' not in body) and (units == '' or '[' + units + ']' in body), '{}: units', what)
            ctx.true((comment == '') == ('#' not in body) and comment in body, '{}: comment', what)
            ctx.edge()
        ctx.state(repr(x))
    ctx.obs(s)
    ctx.trace()


def titles(case, ctx):
    from qmix.misc import terminal as t
    for n, colour, total in itertools.product(range(1, 40), (None, 'blue'), (None, 40, 41, 60, 75)):
        text = ('Harmonic balance of the SIS mixer with all tones'[:n]).strip() + 'x'
        raw, _ = capture(t.title, text, colour, *([] if total is None else [total]))
        line = plain(raw).splitlines()[0]
        total = 60 if total is None else total
        m = re.match(r'(\**) (.*) (\**)$', line)
        ctx.true(m is not None and m.group(2) == text, 'title {!r} is {!r}', text, line)
        ctx.true(len(line) == max(total, len(text) + 2), 'title {!r}: {} characters instead of {}', text, len(line), total)
        ctx.true(abs(len(m.group(1)) - len(m.group(3))) <= 1, 'title {!r} is not centred: {!r}', text, line)
        raw, _ = capture(t.header, text, colour)
        ctx.true(text in plain(raw).splitlines()[0] and plain(raw).splitlines()[1].strip().strip('-') == '', 'header {!r}: {!r}', text, raw)
        ctx.state(n, colour, total)
        ctx.edge(2)
    for colour, code in COLOURS.items():
        for c in (colour, colour.lower(), colour.title()):
            raw, _ = capture(t.cprint, 'some text', c)
            ctx.true(raw == '\x1b[%dm' % code + 'some text\x1b[0m\n', 'colour {}: {!r}', c, raw)
            ctx.edge()
    raw, _ = capture(t.cprint, 'some text', None)
    ctx.true(raw == 'some text\n', 'no colour: {!r}', raw)
    ctx.obs(raw)
    ctx.trace()


def bar(case, ctx):
    from qmix.misc.progbar import progress_bar
    n = 24 if ctx.tier == 'quick' else 60
    for total, length, dec in itertools.product(range(1, n + 1), (10, 20, 33), (0, 2)):
        last = -1
        for k in range(total + 1):
            raw, _ = capture(progress_bar, k, total, 'P', 'S', dec, length)
            m = re.match(r'\rP \|(-*)( *)\| ({0})\s*% S(\n?)$'.format(NUM), raw)
            what = 'step {} of {}: {!r}'.format(k, total, raw)
            ctx.true(m is not None, '{}', what)
            ctx.true(len(m.group(1)) + len(m.group(2)) == length, '{}: length', what)
            ctx.true(abs(len(m.group(1)) - length * k / total) <= .5 + 1e-9, '{}: filled length', what)
            ctx.close(float(m.group(3)), 100. * k / total, atol=.5 * 10 ** -dec + 1e-9, what=what)
            ctx.true((m.group(4) == '\n') == (k == total), '{}: end of line', what)
            ctx.true(len(m.group(1)) >= last, '{}: goes back', what)
            last = len(m.group(1))
            ctx.edge()
        ctx.state(total, length, dec)
    raw, _ = capture(progress_bar, 3, 12)
    ctx.true(re.match(r'\rProgress: \|-{5} {15}\| 25.0\s*% Complete$', raw) is not None, 'default bar {!r}', raw)
    ctx.obs(raw)
    ctx.trace()


KINDS = {'circuit': circuit, 'hb': hb, 'resp': respfn, 'numbers': numbers, 'titles': titles, 'bar': bar, 'current': current}


def check(case, ctx):
    KINDS[case['kind']](case, ctx)
