"""C26: block windows, window expansion, UTM CRSs and data type conversion."""
import math
import warnings
import numpy as np
import rasterio as rio
from rasterio.windows import Window
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from orthority import common

DT = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'float32', 'float64']


@st.composite
def case_blocks(draw):
    n = st.one_of(st.integers(1, 40), st.integers(1, 700))
    size = [draw(n), draw(n)]
    shape = draw(st.one_of(st.none(), st.lists(st.one_of(st.integers(1, 40), st.integers(1, 900), st.sampled_from(size)), min_size=2, max_size=2)))
    if shape and size[0] * size[1] / (shape[0] * shape[1]) > 3000:
        shape = [s * 25 for s in shape]
    fmt = draw(st.sampled_from(['tiled', 'strip', 'png', 'write', 'cog']))
    return dict(size=size, shape=shape, fmt=fmt, block=[draw(st.sampled_from([16, 32, 64, 128, 256])), draw(st.sampled_from([16, 32, 64, 512]))], strip=draw(st.integers(1, 64)), count=draw(st.integers(1, 3)), tup=draw(st.booleans()))


def check_blocks(c, ctx):
    d = ctx.tmp()
    w, h = c['size']
    kw = dict(width=w, height=h, count=c['count'], dtype='uint8')
    f = c['fmt']
    if f in ('tiled', 'write'):
        kw.update(driver='GTiff', tiled=True, blockxsize=c['block'][0], blockysize=c['block'][1])
    elif f == 'strip':
        kw.update(driver='GTiff', blockysize=c['strip'])
    elif f == 'png':
        kw.update(driver='PNG')
    else:
        kw.update(driver='COG', blocksize=max(c['block'][0], 128))
    shape = c['shape'] and (tuple(c['shape']) if c['tup'] else list(c['shape']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(d / 'x.tif', 'w', **kw) as ds:
            if f in ('write', 'cog'):
                wins = list(common.block_windows(ds, shape) if shape else common.block_windows(ds))
            ds.write(np.ones((c['count'], h, w), 'uint8'))
        if f not in ('write', 'cog'):
            with rio.open(d / 'x.tif') as ds:
                wins = list(common.block_windows(ds, block_shape=shape) if shape else common.block_windows(ds))
                block = ds.block_shapes[0]
                if not shape:
                    require(all(x.height <= block[0] and x.width <= block[1] for x in wins), 'windows larger than blocks', block=block)
    n = np.zeros((h, w), int)
    for x in wins:
        require(all(float(v).is_integer() for v in (x.col_off, x.row_off, x.width, x.height)), 'window is not on the pixel grid', win=str(x))
        require(x.width > 0 and x.height > 0 and x.col_off >= 0 and x.row_off >= 0 and x.col_off + x.width <= w and x.row_off + x.height <= h, 'window outside image', win=str(x), size=(w, h))
        n[int(x.row_off):int(x.row_off + x.height), int(x.col_off):int(x.col_off + x.width)] += 1
        if shape:
            require(x.height <= shape[0] and x.width <= shape[1], 'window larger than block shape', win=str(x), shape=shape)
    require(n.min() == 1 == n.max(), 'pixels not covered exactly once', min=int(n.min()), max=int(n.max()), size=(w, h), shape=shape)
    return [f, 'shape' if shape else 'default', 'many' if len(wins) > 1 else 'one']


@st.composite
def case_expand(draw):
    v = lambda lo, hi: st.one_of(st.integers(lo, hi), fl(lo, hi, 2), fl(lo, hi), st.tuples(st.integers(lo, hi), st.sampled_from([1e-9, -1e-9, 1e-13, -1e-13, 0.5, -0.5, 1e-4, -1e-4])).map(lambda t: t[0] + t[1]))
    return dict(off=[draw(v(-50, 10000)), draw(v(-50, 10000))], size=[abs(draw(v(1, 5000))), abs(draw(v(1, 5000)))], exp=draw(st.one_of(st.none(), st.lists(st.integers(0, 20), min_size=2, max_size=2))))


def check_expand(c, ctx):
    win = Window(*c['off'], *c['size'])
    out = common.expand_window_to_grid(win, tuple(c['exp'])) if c['exp'] else common.expand_window_to_grid(win)
    ex = c['exp'] or [0, 0]
    eps = 1e-9
    for off, size, o, s, e in ((win.col_off, win.width, out.col_off, out.width, ex[1]), (win.row_off, win.height, out.row_off, out.height, ex[0])):
        require(float(o).is_integer() and float(s).is_integer(), 'not whole pixels', out=str(out))
        lo, hi = off - e, off + size + e
        require(o <= lo + eps and o + s >= hi - eps, 'expanded window does not contain the window', win=str(win), out=str(out), expand=ex)
        require(o > lo - 1 - eps and o + s < hi + 1 + eps, 'expanded window is larger than needed', win=str(win), out=str(out), expand=ex)
    frac = any(v != int(v) for v in c['off'] + c['size'])
    return ['fraction' if frac else 'whole', 'expand' if c['exp'] else 'no_expand']


@st.composite
def case_utm(draw):
    edge = st.tuples(st.integers(-30, 29), st.sampled_from([0., 1e-9, -1e-9, 1e-5, -1e-5, 3.])).map(lambda t: t[0] * 6 + t[1])
    lon = draw(st.one_of(fl(-180, 179.999999), edge))
    lon = max(-180., min(lon, 179.9999999))
    # (mean positions of images on both sides of the antimeridian can be outside of +-180)
    lon = round(lon + draw(st.sampled_from([0., 0., 0., 360., -360.])), 10)
    return dict(lat=draw(st.one_of(fl(-80, 84), st.sampled_from([0., 1e-9, -1e-9, 84., -80.]))), lon=lon)


def check_utm(c, ctx):
    crs = common.utm_crs_from_latlon(c['lat'], c['lon'])
    epsg = crs.to_epsg()
    zone = int((c['lon'] + 180) // 6) % 60 + 1
    exp = (32600 if c['lat'] >= 0 else 32700) + zone
    near = abs((c['lon'] / 6) - round(c['lon'] / 6)) < 1e-6
    require(epsg == exp or near and 0 < epsg % 100 <= 60 and epsg // 100 == exp // 100, 'UTM zone', lat=c['lat'], lon=c['lon'], got=epsg, exp=exp)
    (x,), (y,) = transform('EPSG:4326', crs, [(c['lon'] + 180) % 360 - 180], [c['lat']])
    require(160000 <= x <= 840000 and -1 <= y <= 10000001, 'position is outside its UTM zone', x=x, y=y, epsg=epsg)
    return ['north' if c['lat'] >= 0 else 'south', 'edge' if near else 'inside']


@st.composite
def case_convert(draw):
    a, b = draw(st.sampled_from(DT)), draw(st.sampled_from(DT))
    info = [np.iinfo(t) if t[0] != 'f' else None for t in (a, b)]
    lims = [float(v) for i in info if i for v in (i.min, i.max)] + [0.]
    n = draw(st.integers(1, 12))
    near = st.tuples(st.sampled_from(lims), st.sampled_from([0, 0.4, 0.5, 0.6, -0.4, -0.5, -0.6, 1, -1, 2, 100, -100, 0.25])).map(lambda t: t[0] + t[1])
    vals = draw(st.lists(st.one_of(near, fl(-300, 300, 2), fl(-1e5, 1e5, 1), st.integers(-70000, 70000).map(float), st.sampled_from([1e12, -1e12, 1e30, -1e30, 1e300])), min_size=n, max_size=n))
    return dict(a=a, b=b, vals=vals, shape=draw(st.sampled_from(['1d', '3d', 'view'])))


def check_convert(c, ctx):
    v = np.array(c['vals'], 'float64')
    a, b = c['a'], c['b']
    if a[0] != 'f':
        i = np.iinfo(a)
        src = np.clip(np.floor(v), i.min, i.max).astype(a)
    else:
        with np.errstate(over='ignore'):
            src = v.astype(a)
        src = src[np.isfinite(src)]
    if not src.size:
        return None
    if c['shape'] == '3d':
        src = np.stack([src, src[::-1]])[:, None]
    elif c['shape'] == 'view':
        src = np.stack([src, src], axis=1)[:, 0]
    exact = src.astype('float64')  # (exact for all of these types)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = common.convert_array_dtype(src.copy() if c['shape'] != 'view' else src, b)
    require(out.dtype == b and out.shape == exact.shape, 'type or shape', got=(str(out.dtype), out.shape))
    if b[0] == 'f':
        with np.errstate(over='ignore'):
            require(np.array_equal(out, exact.astype(b)), 'converted values', vals=exact.ravel()[:12].tolist(), out=out.ravel()[:12].tolist())
        return [f'{a[0]}->{b[0]}']
    i = np.iinfo(b)
    o = out.astype('float64')
    hi, lo = exact >= i.max, exact <= i.min
    require(np.all(o[hi] == i.max) and np.all(o[lo] == i.min), 'values outside the range are not saturated', vals=exact.ravel().tolist(), out=out.ravel().tolist(), dtypes=(a, b))
    mid = ~hi & ~lo
    require(np.all(np.abs(o[mid] - exact[mid]) <= 0.5), 'values are not rounded to the nearest', vals=exact.ravel().tolist(), out=out.ravel().tolist(), dtypes=(a, b))
    return [f'{a[0]}->{b[0]}', 'saturate' if (hi | lo).any() else 'range', 'round' if (exact != np.floor(exact)).any() else 'whole']


SUBS = [
    Sub('blocks', case_blocks, check_blocks, 1200, 20000, 'random image formats, sizes and block shapes; windows are counted for each pixel; non-trivial = windows found'),
    Sub('expand', case_expand, check_expand, 6000, 100000, 'random windows; the expanded window contains the window and margin, and exceeds it by less than a pixel; non-trivial = all'),
    Sub('utm', case_utm, check_utm, 3000, 40000, 'random positions, and those at the edges of zones; non-trivial = all'),
    Sub('convert', case_convert, check_convert, 8000, 150000, 'random values, and those at limits of types; non-trivial = conversion compared'),
]
ASSUMPTIONS = ['integer types of up to 32 bits (as for output images)', 'UTM zones without the exceptions for Norway and Svalbard']
