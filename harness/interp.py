"""Reference image interpolation, as an envelope over the coordinate precision (1/32 pixel) of the sampler."""
import numpy as np


def _kernel(name, f):
    """Taps and weights (n, taps) for fractional positions f in [0, 1)."""
    f = np.asarray(f, 'float64')
    if name in ('bilinear', 'average'):
        return [0, 1], np.stack([1 - f, f], axis=-1)
    if name == 'cubic':
        A = -0.75
        w0 = ((A * (f + 1) - 5 * A) * (f + 1) + 8 * A) * (f + 1) - 4 * A
        w1 = ((A + 2) * f - (A + 3)) * f * f + 1
        w2 = ((A + 2) * (1 - f) - (A + 3)) * (1 - f) * (1 - f) + 1
        return [-1, 0, 1, 2], np.stack([w0, w1, w2, 1 - w0 - w1 - w2], axis=-1)
    if name == 'lanczos':
        k = np.arange(-3, 5)
        x = f[..., None] - k
        w = np.sinc(x) * np.sinc(x / 4)
        w /= w.sum(axis=-1, keepdims=True)
        return list(k), w
    raise ValueError(name)


def sample(im, j, i, name):
    """Interpolate the 2D im at (j, i) (all within the margin of the method)."""
    if name == 'nearest':
        return im[np.clip(np.rint(i).astype(int), 0, im.shape[0] - 1), np.clip(np.rint(j).astype(int), 0, im.shape[1] - 1)].astype('float64')
    j0, i0 = np.floor(j).astype(int), np.floor(i).astype(int)
    tj, wj = _kernel(name, j - j0)
    ti, wi = _kernel(name, i - i0)
    out = np.zeros(np.shape(j))
    im = im.astype('float64')
    for a, da in enumerate(ti):
        r = np.clip(i0 + da, 0, im.shape[0] - 1)
        for b, db in enumerate(tj):
            out += wi[..., a] * wj[..., b] * im[r, np.clip(j0 + db, 0, im.shape[1] - 1)]
    return out


def envelope(im, j, i, name, q=1 / 32.0):
    """(lo, hi) of the interpolated value over coordinates within q of (j, i)."""
    lo = hi = None
    for dj in (-q, -q / 2, 0, q / 2, q):
        for di in (-q, -q / 2, 0, q / 2, q):
            v = sample(im, j + dj, i + di, name)
            lo = v if lo is None else np.minimum(lo, v)
            hi = v if hi is None else np.maximum(hi, v)
    return lo, hi


def support_max(bad, j, i, name):
    """Whether any pixel in the support (+1) of the sample is bad; outside the image is bad."""
    r = dict(nearest=1, bilinear=2, average=2, cubic=3, lanczos=5)[name]
    h, w = bad.shape
    p = np.ones((h + 2, w + 2), bool)
    p[1:-1, 1:-1] = bad
    j0, i0 = np.floor(j).astype(int), np.floor(i).astype(int)
    out = np.zeros(np.shape(j), bool)
    for dj in range(-r + 1, r + 1):
        for di in range(-r + 1, r + 1):
            out |= p[np.clip(i0 + di + 1, 0, h + 1), np.clip(j0 + dj + 1, 0, w + 1)]
    return out
