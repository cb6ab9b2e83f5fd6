"""Fourier series helpers."""

from .common import H, total

BOUNDS = "signals with 1, 2, 3, 4, 6, 8 or 12 samples (the angles have exact sines and cosines) and spectra with up to 6 coefficients, arbitrary values"
ASSUMPTIONS = ["exact arithmetic in place of floating point", "the DC coefficient of a spectrum is real"]


def spectrum(ctx, name, k):
    return [ctx.real(name+"0")+0*ctx.j]+[ctx.cplx("%s%d" % (name, i)) for i in range(1, k)]


def angle(ctx, k, i, n):
    return ctx.frac(2*((k*i) % n), n)*ctx.pi


def cosines(ctx, v, n):
    """Sum of the harmonics: Re(v_k exp(j 2 pi k t/T)) at the samples."""
    out = []
    for i in range(n):
        r = ctx.re(v[0])
        for k in range(1, len(v)):
            a = angle(ctx, k, i, n)
            r = r+ctx.re(v[k])*ctx.np.cos(a)-ctx.im(v[k])*ctx.np.sin(a)
        out.append(r)
    return out


def h_signal(ctx, n, n_freq):
    """The transform of a signal is the peak spectrum."""
    f = ctx.load("pypeec.utils.fourier")
    x = [ctx.real("x%d" % i) for i in range(n)]
    arr = ctx.arr(x, "f")
    res = f.get_fft(arr) if n_freq is None else f.get_fft(arr, n_freq)
    again = f.get_fft(arr, n_freq=n_freq)
    ctx.eq("signal unchanged", arr, ctx.arr(x, "f"))
    ctx.eq("repeated call", again, res)
    res = ctx.lst(res)
    ctx.check("number of coefficients", len(res) == (n//2+1 if n_freq is None else n_freq))
    for (k, v) in enumerate(res):
        if k > n//2:
            ctx.eq("padding", v, 0)
        elif 2*k != n:
            sc = ctx.frac(1 if k == 0 else 2, n)
            ang = [angle(ctx, k, i, n) for i in range(n)]
            ctx.eq("real part", ctx.re(v), sc*total([x[i]*ctx.np.cos(ang[i]) for i in range(n)]))
            ctx.eq("imaginary part", ctx.im(v), -sc*total([x[i]*ctx.np.sin(ang[i]) for i in range(n)]))


def h_back(ctx, n):
    """A signal is recovered from its spectrum."""
    f = ctx.load("pypeec.utils.fourier")
    x = [ctx.real("x%d" % i) for i in range(n)]
    arr = ctx.arr(x, "f")
    v = f.get_fft(arr)
    keep = ctx.lst(v)
    r = f.get_ifft(v, n)
    ctx.eq("recovered signal", r, arr)
    ctx.eq("spectrum unchanged", v, ctx.arr(keep, "c"))
    ctx.eq("repeated call", f.get_ifft(v, n_time=n), r)
    if n % 2 == 0:
        ctx.eq("default number of samples", f.get_ifft(v), arr)


def h_spectrum(ctx, k, n):
    """A spectrum is recovered from its signal, which is the sum of the cosines."""
    f = ctx.load("pypeec.utils.fourier")
    v = spectrum(ctx, "v", k)
    arr = ctx.arr(v, "c")
    x = f.get_ifft(arr, n)
    ctx.eq("sum of cosines", x, cosines(ctx, v, n))
    ctx.eq("spectrum unchanged", arr, ctx.arr(v, "c"))
    ctx.eq("repeated call", f.get_ifft(arr, n), x)
    ctx.eq("recovered spectrum", f.get_fft(x, k), arr)
    full = ctx.lst(f.get_fft(x))
    ctx.eq("no other harmonic", full, ctx.arr(v+[0*ctx.j]*(len(full)-k), "c"))


def h_axes(ctx, n):
    f = ctx.load("pypeec.utils.fourier")
    f0 = ctx.real("f0", pos=True)
    ctx.eq("times", f.get_time(f0, n), [ctx.frac(i, f0*n) for i in range(n)])
    ctx.eq("frequencies", f.get_freq(f0, n), [f0*i for i in range(n)])


HARNESSES = []
for n in (1, 2, 3, 4, 6, 8, 12):
    HARNESSES.append(H("back/%d" % n, h_back, n=n))
    for k in dict.fromkeys((None, 1, n//2, n//2+1, n//2+3)):
        if k != 0:
            HARNESSES.append(H("fft/%d/%s" % (n, k), h_signal, n=n, n_freq=k))
    HARNESSES.append(H("axes/%d" % n, h_axes, n=n))
    for k in range(1, (n+1)//2+1):
        HARNESSES.append(H("spectrum/%d/%d" % (n, k), h_spectrum, k=k, n=n))
