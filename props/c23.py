"""C23: pan-sharpened values."""
import logging
import warnings
import numpy as np
import rasterio as rio
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import pansh
from orthority.pan_sharp import PanSharpen
from orthority.errors import OrthorityError


def sharpen(s, out, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kw = {**pansh.kwargs(s.case), 'dtype': 'float64', 'overwrite': True, **kw}
        PanSharpen(s.pan_file, s.ms_file).process(out, **kw)
        with rio.open(out) as im:
            return im.read(), im.transform


def same(a, b, msg, tol, ref):
    require(a.shape == b.shape, msg + ': shape', got=a.shape, exp=b.shape)
    bad = (np.isfinite(a) != np.isfinite(b)) & ref.sure
    require(not bad.any(), msg + ': valid pixels', n=int(bad.sum()))
    ok = np.isfinite(a) & np.isfinite(b)
    e = np.where(ok, np.abs(a - b) - ref.slack, 0)
    require(e.max(initial=0) <= tol, msg, err=e.max(), tol=tol)


@st.composite
def case_values(draw):
    c = draw(pansh.scenario())
    if c['ms_dtype'] in ('float32', 'float64') and draw(st.booleans()):
        c['nd'] = 'part'
    c['alpha'] = draw(st.integers(0, 5)) == 5
    if c['alpha']:
        c.update(ms_dtype='uint8', nd=draw(st.sampled_from([None, 'pan'])))
    c['org'] = [draw(fl(4e5, 6e5, 3)), draw(fl(5.9e6, 6.4e6, 3))] if draw(st.booleans()) else None
    n = len(c['ms_indexes'] or range(c['bands']))
    if c['weights'] and draw(st.booleans()):  # zero weights for some bands
        k = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        c['weights'] = [0.0 if z and i else w for i, (w, z) in enumerate(zip(c['weights'], k))]
    c['dup'] = draw(st.booleans()) and draw(st.booleans()) and c['weights'] is not None
    if c['dup']:
        idx = list(c['ms_indexes'] or range(1, c['bands'] + 1))
        c['ms_indexes'], c['weights'] = idx + idx[:1], c['weights'] + [draw(fl(0.1, 2, 2))]
        n += 1
    c['wscale'] = draw(st.sampled_from([0.01, 7.0, 1000.0]))
    c['perm'] = draw(st.permutations(list(range(n))))
    c['affine'] = [draw(fl(0.2, 4, 2)), draw(fl(-50, 50, 1))]
    return c


def check_values(case, ctx):
    s = pansh.build(case, ctx.tmp())
    pwin, mwin, close = pansh.window(s)
    ref = pansh.reference(s, pwin, mwin, case['weights'], case['interp'])
    out = s.d / 'out.tif'
    if ref is None:
        return None
    if isinstance(ref, str):
        try:
            sharpen(s, out)
        except OrthorityError:
            return 'rejected'
        raise Violation('pan-sharpening without positive weights was not rejected')
    if ref.amb:
        return None
    got, tf = sharpen(s, out)
    if got.shape[1:] != ref.valid.shape or not (s.pan_tf * rio.Affine.translation(*pwin[:2])).almost_equals(tf, 1e-6):
        if close:  # (bounds that coincide with pixel edges to within rounding)
            return None
    if case['geo'] == 'none' or s.out_crs is None:
        pass
    rng = max(np.ptp(ref.out[:, ref.valid]) if ref.valid.any() else 1, 1)
    same(got, ref.out, 'pan-sharpened values', 1e-7 * rng, ref)
    if not ref.valid.any():
        return None
    labels = [ref.how, case['geo'], case['interp'] or 'default', f'bands{len(got)}'] + (['nodata'] if case['nd'] else []) + (['dup'] if case['dup'] else []) + (['alpha'] if case['alpha'] else []) + (['partial'] if case['nd'] == 'part' else []) + (['exact'] if ref.slack.max() == 0 else [])
    # relations
    idx = list(case['ms_indexes'] or range(1, case['bands'] + 1))
    perm = case['perm']
    kw = dict(ms_indexes=[idx[i] for i in perm])
    if case['weights']:
        kw['weights'] = [case['weights'][i] * case['wscale'] for i in perm]
    same(sharpen(s, out, **kw)[0], got[perm], 'reordered bands and scaled weights', 1e-6 * rng, ref)
    if case['pan_dtype'] == 'float32':  # a linear transform of the pan has no effect
        with rio.open(s.pan_file, 'r+') as im:
            im.write((s.pan.astype('float64') * case['affine'][0] + case['affine'][1]).astype('float32'))
        same(sharpen(s, out)[0], got, 'linearly transformed pan', 1e-4 * rng, ref)
        labels.append('affine')
    return labels


@st.composite
def case_tiles(draw):
    """Images of more than one statistics tile, in a strip."""
    c = draw(pansh.scenario(geo=('both', 'none')))
    long, short = draw(st.integers(1025, 2400)), draw(st.integers(4, 9))
    c['ms_size'] = [long, short] if draw(st.booleans()) else [short, long]
    c['ratio'] = draw(st.sampled_from([1, 2]))
    c['bands'] = min(c['bands'], 3)
    c['ms_indexes'] = None
    if c['weights']:
        c['weights'] = (c['weights'] * 3)[: c['bands']]
    if c['geo'] == 'both':
        c['off'] = [draw(fl(-0.1, 0.1, 2)), draw(fl(-0.1, 0.1, 2))]
        c['cover'] = [1.0, 1.0]
    c['void'] = draw(st.sampled_from([0, 1, 2]))  # void first or second tile
    c['trend'] = draw(st.sampled_from([0.0, 1.0, 5.0]))  # drift between tiles
    if c['void']:
        c['nd'] = 'ms'
    return c


def check_tiles(case, ctx):
    s = pansh.build(case, ctx.tmp())
    # nodata of a whole tile, and tiles of different statistics
    h, w = s.ms.shape[1:]
    ax = 2 if w > h else 1
    nd = pansh.NODATA[case['ms_dtype']]
    n = s.ms.shape[ax]
    ramp = np.linspace(0, 1, n).reshape((1, 1, -1) if ax == 2 else (1, -1, 1)) * case['trend'] * 20
    lim = 250 if case['ms_dtype'] == 'uint8' else 30000
    s.ms = np.where(s.ms_valid, np.clip(s.ms + ramp, -30000, lim), s.ms).astype(case['ms_dtype'])
    if case['void']:
        sl = slice(0, 1024) if case['void'] == 1 else slice(1024, 2048)
        v = np.zeros((h, w), bool)
        v[(slice(None), sl) if ax == 2 else (sl, slice(None))] = True
        s.ms[:, v] = nd
        s.ms_valid &= ~v
    with rio.open(s.ms_file, 'r+') as im:
        im.write(s.ms)
    pwin, mwin, close = pansh.window(s)
    ref = pansh.reference(s, pwin, mwin, case['weights'], case['interp'])
    if ref is None or isinstance(ref, str) or ref.amb or close or not ref.valid.any():
        return None
    opts = dict(tiled=False, compress='deflate') if case['seed'] % 2 else None
    got, tf = sharpen(s, s.d / 'out.tif', creation_options=opts)
    rng = max(np.ptp(ref.out[:, ref.valid]), 1)
    same(got, ref.out, 'pan-sharpened values of multiple tiles', 1e-6 * rng, ref)
    return [f'void{case["void"]}', f'trend{case["trend"]}', ref.how, 'wide' if w > h else 'tall']


SUBS = [
    Sub('values', case_values, check_values, 900, 20000, 'random pan & MS pairs, nodata, band selections, weights and interpolation compared with an independent Gram-Schmidt reference, reordered & rescaled weights and a linearly transformed pan; non-trivial = valid pixels compared (or non-positive weights rejected)'),
    Sub('tiles', case_tiles, check_tiles, 80, 1500, 'strips of 2-3 statistics tiles with trends and fully invalid tiles, compared with statistics of the whole image; non-trivial = valid pixels compared'),
]
ASSUMPTIONS = ['GDAL warping (average and interpolation resampling) is trusted', 'pairs with ill-conditioned covariance or weights too close to zero to call are skipped']
