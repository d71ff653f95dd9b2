"""Random pan and multispectral image pairs."""
import warnings
from types import SimpleNamespace
import numpy as np
from rasterio.enums import ColorInterp
import rasterio as rio
import rasterio.warp
import rasterio.vrt
from hypothesis import strategies as st
from harness import imgs
from harness.gen import fl, seeds

UTM = 'EPSG:32735'
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))


@st.composite
def scenario(draw, geo=('both', 'both', 'both', 'none', 'ms_none', 'pan_none'), same=False, big=False):
    """Sizes in MS pixels; offsets of the pan relative to the MS in MS pixels."""
    bands = draw(st.integers(1, 5))
    r = draw(st.sampled_from([1, 2, 2, 3, 4, 2.5]))
    w, h = draw(st.integers(6, 30)), draw(st.integers(6, 30))
    g = draw(st.sampled_from(geo))
    c = dict(bands=bands, ratio=r, ms_size=[w, h], geo=g, ms_dtype=draw(st.sampled_from(['uint8', 'uint16', 'int16', 'float32', 'float64'])),
             pan_dtype=draw(st.sampled_from(['uint8', 'uint16', 'float32'])), pan_bands=draw(st.integers(1, 2)), seed=draw(seeds()),
             nd=draw(st.sampled_from([None, None, 'ms', 'pan', 'both', 'mask'])), scale=draw(st.sampled_from([1.0, 0.3, 3.0])),
             off=[draw(fl(-0.4, 0.4, 2)), draw(fl(-0.4, 0.4, 2))], cover=[draw(fl(0.6, 1.3, 2)), draw(fl(0.6, 1.3, 2))], aligned=draw(st.booleans()),
             interp=draw(st.sampled_from([None, 'nearest', 'bilinear', 'cubic', 'average', 'lanczos'])), corr=draw(st.sampled_from(['pos', 'pos', 'neg', 'rand'])))
    c['pan_index'] = draw(st.integers(1, c['pan_bands']))
    c['ratio_y'] = draw(st.sampled_from([None, None, 1, 2, 3, 4]))
    idx = draw(st.one_of(st.none(), st.lists(st.integers(1, bands), min_size=1, max_size=bands, unique=True)))
    c['ms_indexes'] = idx
    n = len(idx) if idx else bands
    c['weights'] = draw(st.one_of(st.none(), st.lists(fl(0.05, 3, 2), min_size=n, max_size=n)))
    return c


def kwargs(case):
    kw = dict(pan_index=case['pan_index'])
    for k in ('ms_indexes', 'weights', 'interp'):
        if case[k] is not None:
            kw[k] = case[k]
    return kw


def field(x, y, rng, n):
    """n smooth fields of ground coordinates (in MS pixels)."""
    out = []
    for _ in range(n):
        f = rng.uniform(-0.12, 0.12, (4, 2))
        p = rng.uniform(0, 6.28, 4)
        a = sum(np.sin(2 * np.pi * (k[0] * x + k[1] * y) + q) for k, q in zip(f, p))
        out.append((a + 4) / 8)
    return np.array(out)


def build(case, d, pan_crs=UTM, ms_crs=UTM):
    s = SimpleNamespace(case=case, d=d)
    rng = np.random.default_rng(case['seed'])
    w, h = case['ms_size']
    r = case['ratio']
    ry = case.get('ratio_y') or r
    res = 10.0 * case['scale']
    x0, y0 = case.get('org') or (5e5, 6.2e6)
    s.ms_tf = rio.Affine(res, 0, x0, 0, -res, y0)
    if case['geo'] == 'both':
        ox, oy = case['off'][0] * w, case['off'][1] * h
        cw, ch = case['cover'][0] * w, case['cover'][1] * h
        if case['aligned']:
            ox, oy, cw, ch = round(ox), round(oy), max(round(cw), 3), max(round(ch), 3)
    else:
        ox = oy = 0
        cw, ch = w, h
    pw, ph = max(int(round(cw * r)), 4), max(int(round(ch * ry)), 4)
    if case['geo'] == 'both':
        s.pan_tf = rio.Affine(res / r, 0, x0 + ox * res, 0, -res / ry, y0 - oy * res)
    else:
        s.pan_tf = s.ms_tf * rio.Affine.scale(w / pw, h / ph)
    s.ms_crs = ms_crs = case.get('ms_crs') or ms_crs
    if ms_crs != pan_crs:
        assert case['geo'] == 'both'
        cx, cy = s.ms_tf * (w / 2, h / 2)
        (mx,), (my,) = rio.warp.transform(pan_crs, ms_crs, [cx], [cy])
        (ex,), (ey,) = rio.warp.transform(pan_crs, ms_crs, [cx + res], [cy])
        (nx,), (ny,) = rio.warp.transform(pan_crs, ms_crs, [cx], [cy + res])
        rx, ry = np.hypot(ex - mx, nx - mx), np.hypot(ey - my, ny - my)
        s.ms_tf2 = rio.Affine(rx, 0, mx - w / 2 * rx, 0, -ry, my + h / 2 * ry)
    else:
        s.ms_tf2 = s.ms_tf
    # ground fields
    J, I = np.meshgrid(np.arange(w) + 0.5, np.arange(h) + 0.5)
    base = field(J, I, np.random.default_rng(case['seed']), case['bands'])
    px, py = s.pan_tf * np.meshgrid(np.arange(pw) + 0.5, np.arange(ph) + 0.5)
    fine = field((px - x0) / res, (y0 - py) / res, np.random.default_rng(case['seed']), case['bands'])
    wts = dict(pos=rng.uniform(0.2, 1, case['bands']), neg=rng.uniform(-1, 1, case['bands']), rand=np.zeros(case['bands']))[case['corr']]
    pan = np.tensordot(wts, fine, 1) + rng.uniform(0.05, 0.2) * rng.standard_normal((ph, pw))
    pan = (pan - pan.min()) / max(np.ptp(pan), 1e-9)
    ms = np.clip(base + 0.03 * rng.standard_normal(base.shape), 0, 1)
    rg = dict(uint8=(5, 250), uint16=(100, 4000), int16=(-2000, 3000), float32=(-50, 300), float64=(-50, 300))
    lo, hi = rg[case['ms_dtype']]
    s.ms = (lo + ms * (hi - lo) * rng.uniform(0.3, 1, (case['bands'], 1, 1))).astype(case['ms_dtype'])
    lo, hi = rg[case['pan_dtype']]
    s.pan = np.array([lo + pan * (hi - lo), lo + rng.random(pan.shape) * (hi - lo)][:: 1 if case['pan_index'] == 1 else -1][: case['pan_bands']]).astype(case['pan_dtype'])
    # nodata areas
    s.ms_valid, s.pan_valid = np.ones((h, w), bool), np.ones((ph, pw), bool)
    mk, pk = {}, {}
    if case['nd'] in ('ms', 'both'):
        s.ms_valid = ~((I < h * 0.3) & (J < w * 0.4))
        mk['nodata'] = NODATA[case['ms_dtype']]
        s.ms[:, ~s.ms_valid] = mk['nodata']
    if case['nd'] == 'part':  # NaN in one band only
        s.ms_valid = np.ones(s.ms.shape, bool)
        s.ms_valid[case['seed'] % case['bands']] = ~((I < h * 0.3) & (J < w * 0.4))
        mk['nodata'] = float('nan')
        s.ms[~s.ms_valid] = np.nan
    if case['nd'] in ('pan', 'both'):
        jj, ii = np.meshgrid(np.arange(pw), np.arange(ph))
        s.pan_valid = ~((ii > ph * 0.7) & (jj > pw * 0.5))
        pk['nodata'] = NODATA[case['pan_dtype']]
        s.pan[:, ~s.pan_valid] = pk['nodata']
    if case['geo'] in ('both', 'ms_none'):
        pk.update(crs=pan_crs, transform=s.pan_tf)
    if case['geo'] in ('both', 'pan_none'):
        mk.update(crs=ms_crs, transform=s.ms_tf2)
    s.pan_file = imgs.write_tif(d / 'pan.tif', s.pan, **pk)
    ms = s.ms
    if case.get('alpha'):
        ms = np.concatenate([ms, np.full_like(ms[:1], 255)])
        mk.update(photometric='minisblack', alpha='unspecified')
    s.ms_file = imgs.write_tif(d / 'ms.tif', ms, **mk)
    if case.get('alpha'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.open(s.ms_file, 'r+') as im:
                im.colorinterp = [*im.colorinterp[:-1], ColorInterp.alpha]
            with rio.open(s.ms_file) as im:
                assert im.colorinterp[-1] == ColorInterp.alpha, im.colorinterp
    if case['nd'] == 'mask':
        s.ms_valid = ~((I < h * 0.3) & (J < w * 0.4))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.Env(GDAL_TIFF_INTERNAL_MASK=True), rio.open(s.ms_file, 'r+') as im:
                im.write_mask(s.ms_valid)
    s.out_crs = rio.CRS.from_string(pan_crs) if case['geo'] in ('both', 'ms_none') else None
    return s


def window(s):
    """Pan window (col, row, width, height) of the expected output, the MS window of the statistics, in their own
    grids; and whether any bound is too close to call (as the reference is itself floating point)."""
    case = s.case
    ph, pw = s.pan.shape[1:]
    h, w = s.ms.shape[1:]
    if case['geo'] != 'both':
        return (0, 0, pw, ph), (0, 0, w, h), False
    close = False

    def win(tf, size, other_tf, other_size, from_crs, to_crs):
        nonlocal close
        x0, y0 = other_tf * (0, 0)
        x1, y1 = other_tf * other_size
        b = x0, y1, x1, y0
        if from_crs != to_crs:
            b = rio.warp.transform_bounds(from_crs, to_crs, *b)
        c0, r0 = ~tf * (b[0], b[3])
        c1, r1 = ~tf * (b[2], b[1])
        lim = [max(c0, 0), max(r0, 0), min(c1, size[0]), min(r1, size[1])]
        own = [0, 0, size[0], size[1]]
        out = []
        for k, (v, o) in enumerate(zip(lim, own)):
            n = round(v)
            if v != o and abs(v - n) < 1e-6:
                close = close or True
                v = n
            out.append(int(np.floor(v)) if k < 2 else int(np.ceil(v)))
        return out[0], out[1], out[2] - out[0], out[3] - out[1]

    pwin = win(s.pan_tf, (pw, ph), s.ms_tf2, (w, h), s.ms_crs, UTM)
    mwin = win(s.ms_tf2, (w, h), s.pan_tf, (pw, ph), UTM, s.ms_crs)
    return pwin, mwin, close


def reference(s, pwin, mwin, weights, interp, tolerance=0.125):
    """Float64 pan-sharpened bands and validity on the given pan window, by the documented method, and the weights."""
    from rasterio.warp import reproject, Resampling
    case = s.case
    idx = case['ms_indexes'] or list(range(1, case['bands'] + 1))

    def warp(a, valid, tf, crs, dst_tf, dst_crs, shape, resampling):
        a = np.where(valid, a, np.nan).astype('float64')
        out = np.full((len(a), *shape), np.nan)
        reproject(a, out, src_transform=tf, src_crs=crs, dst_transform=dst_tf, dst_crs=dst_crs, src_nodata=np.nan, dst_nodata=np.nan,
                  resampling=resampling, tolerance=tolerance)
        return out

    ptf = s.pan_tf * rio.Affine.translation(*pwin[:2])
    mtf = s.ms_tf2 * rio.Affine.translation(*mwin[:2])
    pan = s.pan[case['pan_index'] - 1][None].astype('float64')
    ms = s.ms.astype('float64')  # (all bands, as GDAL's masking is of the whole image)
    sel = np.array(idx) - 1
    pan_lo = warp(pan, s.pan_valid, s.pan_tf, UTM, mtf, s.ms_crs, mwin[3:1:-1], Resampling.average)
    ms_lo = np.where(s.ms_valid, ms, np.nan)[sel, mwin[1]:mwin[1] + mwin[3], mwin[0]:mwin[0] + mwin[2]]
    amb = False
    for dx, dy in ((-1, -1), (-1, 1), (1, -1), (1, 1)):  # (slivers of valid pan pixels)
        alt = warp(pan, s.pan_valid, s.pan_tf, UTM, mtf * rio.Affine.translation(dx * 1e-6, dy * 1e-6), s.ms_crs, mwin[3:1:-1], Resampling.average)
        amb |= bool(np.any(np.isfinite(alt) != np.isfinite(pan_lo)))
    ok = np.isfinite(pan_lo[0]) & np.isfinite(ms_lo).all(0)
    X = np.vstack([pan_lo[0][ok], ms_lo[:, ok]])
    n = X.shape[1]
    if n < 3:
        return None
    mean = X.mean(1)
    cov = (X - mean[:, None]) @ (X - mean[:, None]).T / (n - 1)
    how = 'given'
    if weights is None:
        how = 'fit'
        wt = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:], rcond=None)[0]
        amb |= np.any(np.abs(wt) < 1e-7 * np.abs(wt).max()) or np.linalg.cond(cov[1:, 1:]) > 1e7
        if np.any(wt < 0):
            how = 'refit'
            keep = wt > 0
            if keep.any():
                w2 = np.linalg.lstsq(cov[1:, 1:][np.ix_(keep, keep)], cov[0, 1:][keep], rcond=None)[0]
                amb |= np.any(np.abs(w2) < 1e-7 * np.abs(w2).max())
                if np.all(w2 >= 0):
                    wt = wt.clip(0, None)
                    wt[keep] = w2
                else:
                    how = 'clip'
            wt = wt.clip(0, None)
    else:
        wt = np.array(weights, float)
    if not np.any(wt > 0):
        return 'reject'
    wt = wt / wt.sum()
    var_i = wt @ cov[1:, 1:] @ wt
    if var_i < 1e-9 or cov[0, 0] < 1e-9:
        return None
    g = cov[1:, 1:] @ wt / var_i
    pan_hi = warp(pan, s.pan_valid, s.pan_tf, UTM, ptf, UTM, pwin[3:1:-1], Resampling.nearest)[0]
    ms_hi = warp(ms, s.ms_valid, s.ms_tf2, s.ms_crs, ptf, UTM, pwin[3:1:-1], getattr(Resampling, interp or 'cubic'))[sel]
    # GDAL's VRT warper can scale its kernel differently: allow for the effect of that
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(s.ms_file) as im:
            src = dict(src_crs=UTM) if im.crs is None else {}
            with rasterio.vrt.WarpedVRT(im, crs=UTM, **src, src_transform=s.ms_tf2, transform=ptf, width=pwin[2], height=pwin[3], dtype='float64', nodata=np.nan,
                                        resampling=getattr(Resampling, interp or 'cubic')) as v:
                vrt = v.read(idx)
    # rounding of coordinates matters for ties, and where GDAL switches kernel near invalid pixels
    dv = [np.zeros_like(ms_hi)]
    same = np.ones(ms_hi.shape[1:], bool)
    for dx, dy in ((-1, -1), (-1, 1), (1, -1), (1, 1)):
        alt = warp(ms, s.ms_valid, s.ms_tf2, s.ms_crs, ptf * rio.Affine.translation(dx * 1e-6, dy * 1e-6), UTM, pwin[3:1:-1], getattr(Resampling, interp or 'cubic'))[sel]
        same &= (np.isfinite(alt) == np.isfinite(ms_hi)).all(0)
        dv.append(np.nan_to_num(np.abs(alt - ms_hi)))
    dv = np.max(dv, axis=0).max(0)
    same &= (np.isfinite(vrt) == np.isfinite(ms_hi)).all(0)
    calm = np.isfinite(vrt).all(0) & np.isfinite(ms_hi).all(0) & (dv < 1e-3 * np.nanmax(np.abs(ms), initial=1))
    slack = 2 * dv + (np.abs(vrt - ms_hi)[:, calm].max() if calm.any() else 0.0)
    slack[slack < 1e-4] = 0
    valid = np.isfinite(pan_hi) & np.isfinite(ms_hi).all(0)
    inten = np.tensordot(wt, ms_hi, 1)
    gain = np.sqrt(var_i / cov[0, 0])
    p = (pan_hi - mean[0]) * gain + wt @ mean[1:]
    out = ms_hi + g[:, None, None] * (p - inten)
    return SimpleNamespace(out=np.where(valid, out, np.nan), valid=valid, weights=wt, how=how, amb=bool(amb), n=n, slack=slack * (1 + np.abs(g).max()), sure=same)
