"""Shared builders (only public qmix API)."""

import copy
import itertools

import numpy as np

_RESP = {}


def resp(name):
    """Response functions used by the checks (built once, before forking)."""
    if name not in _RESP:
        from qmix import respfn
        kind, _, arg = name.partition(':')
        if kind == 'poly':
            r = respfn.RespFnPolynomial(int(arg or 50), verbose=False)
        elif kind == 'exp':
            r = respfn.RespFnExponential(verbose=False)
        elif kind == 'perfect':
            r = respfn.RespFnPerfect(verbose=False)
        elif kind == 'smear':
            r = respfn.RespFnPolynomial(int(arg or 50), v_smear=0.05, verbose=False)
        else:
            raise KeyError(name)
        _RESP[name] = r
    return _RESP[name]


def circuit(freqs, num_p, vb, **kw):
    from qmix.circuit import EmbeddingCircuit
    vb = np.asarray(vb, dtype=float)
    cct = EmbeddingCircuit(len(freqs), num_p, vb_min=0, vb_max=1, vb_npts=len(vb), **kw)
    cct.vb[:] = vb
    for i, f in enumerate(freqs, start=1):
        cct.freq[i] = f
    return cct


def volt_array(cct, volts):
    """volts[f][p] (scalars or arrays over bias) -> vj."""
    vj = cct.initialize_vj()
    for f, vs in enumerate(volts, start=1):
        for p, v in enumerate(vs, start=1):
            vj[f, p, :] = v
    return vj


def snap(obj):
    """Deep snapshot of arguments (bit-exact comparison with same_snap)."""
    return copy.deepcopy(obj)


def circuit_state(cct):
    return dict(freq=cct.freq.copy(), vt=cct.vt.copy(), zt=cct.zt.copy(), vb=cct.vb.copy(),
                num_f=cct.num_f, num_p=cct.num_p, num_n=cct.num_n, vb_npts=cct.vb_npts,
                fgap=cct.fgap, vgap=cct.vgap, igap=cct.igap, rn=cct.rn,
                name=cct.name, comment=copy.deepcopy(cct.comment))


def same_circuit(ctx, cct, before, what):
    now = circuit_state(cct)
    for k in before:
        if isinstance(before[k], np.ndarray):
            ctx.same(now[k], before[k], '{}: circuit.{}'.format(what, k))
        else:
            ctx.true(now[k] == before[k], '{}: circuit.{} changed from {!r} to {!r}', what, k, before[k], now[k])


def mixing_freqs(freqs, num_p, limit=None):
    """All distinct positive product frequencies plus dc."""
    out = {0.}
    for a in itertools.product(range(-num_p, num_p + 1), repeat=len(freqs)):
        f = round(float(sum(x * y for x, y in zip(a, freqs))), 6)
        if f > 1e-3:
            out.add(f)
    out = sorted(out)
    return out[:limit] if limit else out
