"""Reference model of the quasiparticle tunneling current.

Independent of qmix: no Bessel functions, no coefficient convolution, no index
bookkeeping.  For each tone the phase factor exp(-j phi(theta)) is sampled over
one period and Fourier transformed; the junction current is then built on the
torus of all tone phases and Fourier transformed:

    v(t)   = vb + sum_{f,p} Re(V[f,p] exp(j p theta_f)),   theta_f = 2 pi f t
    phi_f  = sum_p |V[f,p]|/(p freq_f) sin(p theta_f + arg V[f,p])
    exp(-j phi_f) = sum_k C_f[k] exp(-j k theta_f)
    i(t)   = Im{ exp(+j phi) sum_k prod C_f[k_f] exp(-j k.theta) R(vb + k.freq) }

where R = i_kk + j i_dc is the response function.  (With angular frequencies
normalized to the gap, the photon energy is the normalized frequency.)
"""

import itertools

import numpy as np


def phase_coefficients(freq, volts, npts):
    """C[k] for one tone, k in FFT order, for one value of V[p] (p=1..P)."""
    th = 2 * np.pi * np.arange(npts) / npts
    phi = np.zeros(npts)
    for p, v in enumerate(volts, start=1):
        phi = phi + abs(v) / (p * freq) * np.sin(p * th + np.angle(v))
    w = np.fft.fft(np.exp(-1j * phi)) / npts      # exp(-j phi) = sum w[n] e^{+j n th}
    return np.roll(w[::-1], 1), phi               # C[k] = w[-k]


def spectrum(freqs, volts, vb, resp, npts, cut=1e-15):
    """All components F[a1, a2, ..] of the current at one bias voltage.

    freqs: tone frequencies; volts[f][p-1]: complex voltages; npts: samples per
    tone.  i(theta) = sum_a F[a] exp(j a.theta).
    """
    nf = len(freqs)
    coeff, phis = [], []
    for f in range(nf):
        c, phi = phase_coefficients(freqs[f], volts[f], npts[f])
        coeff.append(c)
        phis.append(phi)
    ks = [np.fft.fftfreq(n, 1. / n).round().astype(int) for n in npts]
    prod = np.ones((1,) * nf, dtype=complex)
    phase = np.zeros((1,) * nf)
    volt = np.full((1,) * nf, float(vb))
    for f in range(nf):
        shape = [1] * nf
        shape[f] = npts[f]
        prod = prod * coeff[f].reshape(shape)
        phase = phase + phis[f].reshape(shape)
        volt = volt + (ks[f] * freqs[f]).reshape(shape)
    keep = np.abs(prod) > cut
    term = np.zeros(prod.shape, dtype=complex)
    term[keep] = prod[keep] * resp(volt[keep])
    # sum_k term[k] exp(-j k.theta) = fftn
    cur = (np.exp(1j * phase) * np.fft.fftn(term)).imag
    return np.fft.fftn(cur) / cur.size


def products(freqs, num_p, f_out, decimals=4):
    """All mixing products of order <= num_p (per tone) found at f_out."""
    out = []
    target = np.round(np.float64(f_out), decimals)
    for a in itertools.product(range(-num_p, num_p + 1), repeat=len(freqs)):
        f = sum(ai * fi for ai, fi in zip(a, freqs))
        if np.round(np.float64(f), decimals) == target:
            out.append(a)
    return out


def current(freqs, volts, vb, resp, num_p, f_out, npts):
    """Current at each requested frequency for each bias voltage.

    volts[f][p-1] may be a scalar or an array over the bias points.
    Returns [len(f_out), len(vb)] (complex).
    """
    nf = len(freqs)
    res = np.zeros((len(f_out), len(vb)), dtype=complex)
    prods = [products(freqs, num_p, f) for f in f_out]
    for i, v in enumerate(vb):
        vi = [[np.broadcast_to(volts[f][p], (len(vb),))[i] for p in range(len(volts[f]))] for f in range(nf)]
        spec = spectrum(freqs, vi, v, resp, npts)
        for j, f in enumerate(f_out):
            dc = np.round(np.float64(f), 4) == 0
            for a in prods[j]:
                res[j, i] += spec[a].real if dc else 2 * spec[a]
    return res


def samples_needed(freqs, volts, num_p, tol=1e-13):
    """Samples per tone so that the model is free of aliasing."""
    out = []
    for f, vs in zip(freqs, volts):
        n = 16
        while True:
            worst = 0
            for i in range(max(np.size(v) for v in vs)):
                vi = [np.ravel(v)[i % np.size(v)] for v in vs]
                c, _ = phase_coefficients(f, vi, 256)
                k = np.fft.fftfreq(256, 1. / 256).round().astype(int)
                big = np.abs(k)[np.abs(c) > tol]
                worst = max(worst, big.max() if big.size else 0)
            break
        # products of two series reaching up to `worst` must not alias on |a| <= num_p
        need = 2 * worst + num_p + 1
        while n < need:
            n *= 2
        out.append(n)
    return out


def orders_needed(freq, vs, tol=1e-11):
    """Summation limit for which the truncated phase factor is accurate."""
    worst = 0
    for i in range(max(np.size(v) for v in vs)):
        vi = [np.ravel(v)[i % np.size(v)] for v in vs]
        c, _ = phase_coefficients(freq, vi, 256)
        k = np.fft.fftfreq(256, 1. / 256).round().astype(int)
        big = np.abs(k)[np.abs(c) > tol]
        worst = max(worst, int(big.max()) if big.size else 0)
    return worst


def time_domain(tones, vb, f0, resp, npts=4096):
    """Brute-force model: one physical time axis, all tones multiples of f0.

    tones: list of (multiple of f0, complex voltage).  Returns the FFT
    components I[n] at n*f0 of the current (2x for n > 0).
    """
    th = 2 * np.pi * np.arange(npts) / npts
    ph = np.zeros(npts)
    for n, v in tones:
        ph = ph + abs(v) / (n * f0) * np.sin(n * th + np.angle(v))
    w = np.fft.fft(np.exp(-1j * ph)) / npts
    n = np.fft.fftfreq(npts, 1. / npts).round().astype(int)
    keep = np.abs(w) > 1e-14
    t = np.zeros(npts, dtype=complex)
    t[keep] = w[keep] * resp(vb - n[keep] * f0)
    cur = (np.exp(1j * ph) * np.fft.ifft(t) * npts).imag
    out = 2 * np.fft.fft(cur) / npts
    out[0] /= 2
    return out
