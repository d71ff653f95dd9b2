"""C24: pan-sharpened image extents, validity, rejections and layout."""
import warnings
import numpy as np
import rasterio as rio
import rasterio.warp
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import pansh
from props.c23 import sharpen
from props.c09 import as_input
from orthority.pan_sharp import PanSharpen
from orthority.errors import OrthorityError

CRSS = ['EPSG:4326', 'EPSG:3857', 'EPSG:32734', 'EPSG:2048']
RADIUS = dict(nearest=0.5, bilinear=1, cubic=2, average=0.5, lanczos=3)


@st.composite
def case_grid(draw):
    crs = draw(st.sampled_from([None, None, *CRSS]))
    c = draw(pansh.scenario(geo=('both',) if crs else ('both', 'both', 'none', 'ms_none', 'pan_none')))
    c['ms_crs'] = crs
    c['org'] = [draw(fl(4e5, 6e5, 3)), draw(fl(5.9e6, 6.4e6, 3))] if draw(st.booleans()) else None
    c['off'] = [draw(fl(-0.8, 0.8, 3)), draw(fl(-0.8, 0.8, 3))]
    c['cover'] = [draw(fl(0.3, 2, 3)), draw(fl(0.3, 2, 3))]
    c['scale'] = draw(st.sampled_from([1.0, 0.3, 3.0, 0.07123]))
    c['layout'] = draw(st.sampled_from(['strip', 'tile', 'cog', 'mask', 'ovw']))
    c['inp'] = [draw(st.sampled_from(['str', 'path', 'ds', 'ofile'])) for _ in range(2)]
    return c



def check_grid(case, ctx):
    from contextlib import ExitStack
    s = pansh.build(case, ctx.tmp())
    pwin, mwin, close = pansh.window(s)
    out = s.d / 'out.tif'
    ph, pw = s.pan.shape[1:]
    h, w = s.ms.shape[1:]
    crs = case.get('ms_crs')
    if min(pwin[2:]) <= 1 or min(mwin[2:]) <= 1:
        return None  # (touching or near touching bounds)
    if case['geo'] == 'both':
        # resolution in pan CRS units, away from the limit when CRSs differ
        if crs and min(case['ratio'], case['ratio_y'] or 9) < 1.5:
            return None
    a = pansh.reference(s, pwin, mwin, case['weights'], case['interp'])
    if a is None or isinstance(a, str) or a.n < 4:
        return None  # (no statistics)
    try:
        got, tf = sharpen(s, out)
    except OrthorityError as ex:
        if 'weights could not be estimated' in str(ex) and case['weights'] is None:
            return None
        raise
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(out) as im:
            require(im.crs == s.out_crs, 'output CRS', got=str(im.crs), exp=str(s.out_crs))
    # grid & extents
    ptf = s.pan_tf if case['geo'] != 'none' else rio.Affine.identity()
    c0, r0 = ~ptf * (tf.c, tf.f)
    require(abs(tf.a - ptf.a) < 1e-9 * abs(ptf.a) and abs(tf.e - ptf.e) < 1e-9 * abs(ptf.e) and tf.b == tf.d == 0, 'output pixel size', got=list(tf), exp=list(ptf))
    require(abs(c0 - round(c0)) < 1e-4 and abs(r0 - round(r0)) < 1e-4, 'output is not on the pan grid', c0=c0, r0=r0)
    gwin = (round(c0), round(r0), got.shape[2], got.shape[1])
    lim = lambda x: (x[0], x[1], x[0] + x[2], x[1] + x[3])
    d = np.abs(np.subtract(lim(gwin), lim(pwin)))
    require(d.max() <= (1 if close else 0), 'extents are not the intersection of pan and MS bounds', got=gwin, exp=pwin)
    require(gwin[0] >= 0 and gwin[1] >= 0 and gwin[0] + gwin[2] <= pw and gwin[1] + gwin[3] <= ph, 'extents outside of the pan image', got=gwin)
    # validity
    valid = np.isfinite(got).all(0)
    require((np.isfinite(got).any(0) == valid).all(), 'valid pixels differ between bands')
    if not np.isfinite(got).any():
        # legitimate only when there is nothing valid in common
        pass
    x, y = s.pan_tf * np.meshgrid(np.arange(gwin[2]) + gwin[0] + 0.5, np.arange(gwin[3]) + gwin[1] + 0.5)
    if crs:
        x, y = (np.array(v).reshape(valid.shape) for v in rio.warp.transform(pansh.UTM, crs, x.ravel(), y.ravel()))
    j, i = ~s.ms_tf2 * (x, y)
    pv = s.pan_valid[gwin[1]:gwin[1] + gwin[3], gwin[0]:gwin[0] + gwin[2]]
    rad = RADIUS[case['interp'] or 'cubic'] + (0.6 if crs else 0.1)
    # all / any MS valid within the interpolation radius (+ a pixel)
    pad = 6
    V = np.pad(s.ms_valid, pad)
    jj, ii = np.floor(j).astype(int).clip(-pad + 5, w + pad - 6), np.floor(i).astype(int).clip(-pad + 5, h + pad - 6)
    k = int(np.ceil(rad))
    nb = np.array([V[ii + pad + a, jj + pad + b] for a in range(-k, k + 1) for b in range(-k, k + 1)])
    eps = 0.2 if crs else 1e-6
    inside = (j > eps) & (i > eps) & (j < w - eps) & (i < h - eps)
    o = eps + (0.75 if case['interp'] == 'average' else 0)  # (any overlap is valid)
    outside = (j < -o) | (i < -o) | (j > w + o) | (i > h + o)
    must = pv & nb.all(0) & inside
    mustnot = ~pv | ~nb.any(0) | outside
    require(not (must & ~valid).any(), 'pixels valid in both images are invalid', n=int((must & ~valid).sum()))
    require(not (mustnot & valid).any(), 'pixels invalid in either image are valid', n=int((mustnot & valid).sum()))
    # with no nodata in the MS, all pixels with centres inside are valid
    if s.ms_valid.all() and not crs:
        m = pv & inside
        require(not (m & ~valid).any(), 'pixels inside both images are invalid', n=int((m & ~valid).sum()))
    labels = [crs or 'same-crs', case['geo'], case['layout']]
    if close:
        labels.append('close')
    # values, with differing CRSs
    if crs and case['interp'] not in ('nearest', 'average') and gwin == pwin:
        b = pansh.reference(s, pwin, mwin, case['weights'], case['interp'], tolerance=0.02)
        if b is not None and not isinstance(b, str) and not a.amb and a.how == b.how and a.valid.any() and a.n >= 40:
            rng = max(np.nanmax(a.out) - np.nanmin(a.out), 1)
            dif = np.nanmax(np.abs(a.out - b.out), initial=0)
            e = np.where(must & a.valid & (a.slack < 0.01 * rng), np.abs(got - a.out) - a.slack, 0).max()
            require(e <= 0.1 * rng + 4 * dif, 'values with differing CRSs', err=e, tol=0.1 * rng + 4 * dif)
            labels.append('crs-values')
    # layout options and input kinds do not change values
    kw = dict(strip=dict(creation_options=dict(tiled=False, compress='lzw')), tile=dict(creation_options=dict(tiled=True, blockxsize=256, blockysize=512, compress='deflate')),
              cog=dict(driver='cog'), mask=dict(write_mask=True), ovw=dict(build_ovw=True, compress='lzw'))[case['layout']]
    with ExitStack() as stack, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pan = as_input(case['inp'][0], s.pan_file, stack, s.d, 'pan')
        ms = as_input(case['inp'][1], s.ms_file, stack, s.d, 'ms')
        PanSharpen(pan, ms).process(s.d / 'o2.tif', **{**pansh.kwargs(case), 'dtype': 'float64', **kw})
        with rio.open(s.d / 'o2.tif') as im:
            a2 = np.where(im.dataset_mask() > 0, im.read(), np.nan)
            require(im.transform.almost_equals(tf, 1e-9) and a2.shape == got.shape, 'layout changes the extents')
    if case['layout'] == 'strip':  # (GDAL warping depends slightly on the block read, particularly at edges)
        require(not (must & ~np.isfinite(a2)).any() and not (mustnot & np.isfinite(a2)).any(), 'layout changes valid pixels')
        e = np.where(must, np.abs(a2 - got), 0).max()
        tol = 0.08 * max(np.nanmax(got) - np.nanmin(got), 1) if must.any() else 0
    else:
        require((np.isfinite(a2) == np.isfinite(got)).all(), 'layout or input kind changes valid pixels')
        e = np.nanmax(np.abs(a2 - got), initial=0)
        tol = 1e-9 * max(np.nanmax(np.abs(got), initial=1), 1)
    require(e <= tol, 'layout or input kind changes values', err=e)
    return labels if valid.any() else None


@st.composite
def case_reject(draw):
    c = draw(pansh.scenario(geo=('both', 'both', 'none', 'ms_none', 'pan_none')))
    n = len(c['ms_indexes'] or range(c['bands']))
    kind = draw(st.sampled_from(['apart', 'coarse', 'index', 'pan_index', 'n_weights', 'neg', 'zero']))
    c['kind'] = kind
    c['cover'], c['off'] = [1.0, 1.0], [0.0, 0.0]
    c['ms_crs'] = None
    c['exists'] = draw(st.booleans())
    if kind in ('apart', 'coarse'):
        c['geo'] = 'both' if kind == 'apart' else c['geo']
        if c['geo'] == 'both':
            c['ms_crs'] = draw(st.sampled_from([None, None, *CRSS]))
    if kind == 'apart':
        k = draw(st.integers(0, 1))
        c['off'][k] = draw(st.sampled_from([-1, 1])) * draw(fl(1.3, 5, 2))
        c['off'][1 - k] = draw(fl(-2, 2, 2))
    elif kind == 'coarse':
        c['ratio'] = draw(st.sampled_from([0.25, 0.5, 0.8]))
        c['axis'] = draw(st.sampled_from(['both', 'x', 'y'])) if c['geo'] == 'both' and not c['ms_crs'] else 'both'
    elif kind == 'index':
        idx = list(c['ms_indexes'] or range(1, c['bands'] + 1))
        idx[draw(st.integers(0, n - 1))] = draw(st.sampled_from([0, -1, c['bands'] + 1, c['bands'] + 7]))
        c['ms_indexes'] = idx
    elif kind == 'pan_index':
        c['pan_index'] = draw(st.sampled_from([0, -1, c['pan_bands'] + 1]))
    elif kind == 'n_weights':
        m = draw(st.integers(1, 7).filter(lambda x: x != n))
        c['weights'] = [1.0] * m
    elif kind == 'neg':
        wt = [1.0] * n
        wt[draw(st.integers(0, n - 1))] = draw(fl(-3, -0.01, 2))
        c['weights'] = wt
    elif kind == 'zero':
        c['weights'] = [0.0] * n
    return c


def check_reject(case, ctx):
    kw = pansh.kwargs(case)
    b = dict(case)
    b['pan_index'] = min(max(case['pan_index'], 1), case['pan_bands'])
    b['ms_indexes'] = None
    s = pansh.build(b, ctx.tmp())
    if case['kind'] == 'coarse' and case.get('axis', 'both') != 'both':
        # coarser on one axis only
        r = case['ratio']
        tf = s.ms_tf * (rio.Affine.scale(1 / r, 0.5) if case['axis'] == 'x' else rio.Affine.scale(0.5, 1 / r))
        with rio.open(s.pan_file, 'r+') as im:
            im.transform = tf
    out = s.d / 'o' / 'out.tif'
    out.parent.mkdir()
    if case['exists']:
        out.write_bytes(b'something')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            PanSharpen(s.pan_file, s.ms_file).process(out, overwrite=case['exists'], **kw)
    except OrthorityError:
        require([f.name for f in out.parent.iterdir()] == (['out.tif'] if case['exists'] else []), 'rejected inputs left files')
        require(not case['exists'] or out.read_bytes() == b'something', 'rejected inputs modified the existing file')
        return [case['kind'], case['geo'], case['ms_crs'] or 'same-crs']
    raise Violation(f'invalid inputs were not rejected: {case["kind"]}')


SUBS = [
    Sub('grid', case_grid, check_grid, 900, 20000, 'random partially overlapping pan & MS pairs in the same or differing CRSs, or not georeferenced; non-trivial = output with valid pixels compared with the expected extents, validity and layout variants'),
    Sub('reject', case_reject, check_reject, 250, 4000, 'separated images, coarse pan, invalid indexes and weights, with and without an existing output; non-trivial = rejected without changing files'),
]
ASSUMPTIONS = ['images whose bounds touch or overlap by at most a pixel, and pairs in differing CRSs with near equal resolutions, are skipped', 'GDAL warping is trusted']
