"""Synthetic images for cases."""
import numpy as np
import rasterio as rio
from rasterio.transform import from_origin
import warnings


def write_tif(path, array, **kw):
    if array.ndim == 2:
        array = array[None]
    kw.setdefault('driver', 'GTiff')
    if kw['driver'] == 'GTiff' and array.shape[0] in (2, 4, 5):
        # avoid an automatic alpha band
        kw.setdefault('photometric', 'minisblack')
        kw.setdefault('alpha', 'unspecified')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', width=array.shape[2], height=array.shape[1], count=array.shape[0], dtype=array.dtype, **kw) as im:
            im.write(array)
    return path


def smooth(size, bands, dtype, seed, lo=None, hi=None):
    """Smooth random image (bands, h, w) away from nodata values."""
    w, h = size
    rng = np.random.default_rng(seed)
    j, i = np.meshgrid(np.arange(w), np.arange(h))
    out = []
    info = dict(uint8=(20, 230), uint16=(100, 60000), int16=(-30000, 30000), float32=(-100, 100), float64=(-1e4, 1e4))[dtype]
    lo = info[0] if lo is None else lo
    hi = info[1] if hi is None else hi
    for _ in range(bands):
        a = np.zeros((h, w))
        for _ in range(3):
            fj, fi = rng.uniform(-0.25, 0.25, 2)
            a += np.sin(2 * np.pi * (fj * j + fi * i) / 4 + rng.uniform(0, 6.28))
        a = (a + 3) / 6
        out.append(lo + a * (hi - lo))
    return np.array(out).astype(dtype)


def noise(size, bands, dtype, seed):
    w, h = size
    rng = np.random.default_rng(seed)
    info = dict(uint8=(1, 255), uint16=(1, 65535), int16=(-32767, 32767), float32=(-100, 100), float64=(-1e4, 1e4))[dtype]
    a = rng.uniform(info[0], info[1], (bands, h, w))
    return a.astype(dtype)


def via(path, how, fn):
    """Call fn() with an image file given as a path, string, open dataset or fsspec file."""
    import fsspec
    import rasterio as rio
    if how == 'ds':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.open(path) as ds:
                return fn(ds)
    return fn(fsspec.open(str(path), 'rb') if how == 'ofile' else str(path) if how == 'str' else path)
