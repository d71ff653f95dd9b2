"""C10: orthos use the DEM correctly in any CRS, extent, units and datum."""
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import gen, imgs, orthoc, ref
from harness.engine import Sub, Violation, require
from harness.gen import fl
from props.c08 import verify

# DEM CRSs per ortho CRS: without, and with vertical component
PLAIN = ['same', 'geo', 'merc', 'EPSG:32736', '+proj=laea +lat_0=-30 +lon_0=27 +datum=WGS84 +units=m +no_defs']
VERT = ['same', 'EPSG:4326+5773', 'EPSG:4979', 'EPSG:32735+5773', 'EPSG:32735+4326', 'EPSG:4326+8050']


def run(s, case, dem=None, **kw):
    """Orthorectify, returning (array, valid, transform), coverage warning."""
    from orthority.errors import OrthorityWarning
    from orthority.ortho import Ortho
    out = s.d / f'ortho{len(list(s.d.iterdir()))}.tif'
    cam = orthoc.camera(s)
    init = {k: kw.pop(k) for k in ('dem_band',) if k in kw}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        o = Ortho(s.src, s.dem if dem is None else dem, cam, crs=s.crs, **init)
        r = (case['res'] * s.gsd,) * 2 if case['res'] else None
        if case.get('dem_as_res') and case['dem_crs'] not in ('geo',) and '43' not in case['dem_crs'] and '49' not in case['dem_crs']:
            r = (s.dem_profile['transform'].a, -s.dem_profile['transform'].e)  # DEM resolution
        if case.get('dem_interp'):
            kw['dem_interp'] = case['dem_interp']
        o.process(out, resolution=r, interp=case['interp'], compress='deflate', build_ovw=False, **kw)
    arr, valid, tf, _ = orthoc.read(out)
    warn = any(issubclass(w.category, OrthorityWarning) and 'cover' in str(w.message).lower() for w in ws)
    return arr, valid, tf, warn, cam


@st.composite
def case_dem(draw, vert=None):
    v = draw(st.booleans()) if vert is None else vert
    crss = sorted(orthoc.VCRSS) if v else ['utm35s', 'utm35s', 'lo19']
    c = draw(orthoc.scenario(cams=('frame',), lo=24, hi=80, crss=crss, deep=True, distort=(True,), dem_crs=VERT if v else PLAIN, strength=0.3, oblique=(False, False, True)))
    if v and c['dem_crs'] == 'EPSG:4326+8050':
        c['crs'] = 'utm35s_egm96'  # (MSL ft is only related to other heights by its unit)
    c.update(res=draw(st.sampled_from([None, 1, 1.7])), interp=draw(st.sampled_from(['bilinear', 'cubic'])), dem_interp=draw(st.sampled_from([None, 'bilinear', 'cubic'])),
             vert=v, dem_dtype=draw(st.sampled_from(['float32', 'float32', 'float64', 'int16'])), nbands=draw(st.integers(1, 3)),
             band=draw(st.integers(1, 3)), tiled=draw(st.sampled_from([None, 16, 'strip'])), far=draw(st.sampled_from([None, 'high', 'low'])),
             src=draw(st.sampled_from(['path', 'ds'])), nd=draw(st.sampled_from(['nan', 'num', 'none'])), as_default=draw(st.booleans()))
    c['dem_as_res'] = draw(st.sampled_from([False, False, True]))
    if draw(st.sampled_from([False, False, False, True])):
        c['ter']['z0'] = draw(fl(9000, 27000, 0)) if c['crs'] == 'utmft' else draw(fl(3000, 8300, 0))  # (up to Everest)
    c['band'] = min(c['band'], c['nbands'])
    if c['far']:
        c['dem_cover'] = 3.0
    return c


def mountain(s, case):
    """Terrain far away from the footprint and the camera (boolean array of DEM pixels)."""
    X, Y = s.dem_xy
    xs = np.append(s.foot[0], s.ep['xyz'][0])
    ys = np.append(s.foot[1], s.ep['xyz'][1])
    m = 0.15 * max(np.ptp(xs), np.ptp(ys)) + 5 * s.dem_res
    return (X < xs.min() - m) | (X > xs.max() + m) | (Y < ys.min() - m) | (Y > ys.max() + m)


def check_dem(case, ctx):
    import rasterio as rio
    s = orthoc.build(case, ctx.tmp())
    if s is None:
        return None
    Z = s.dem_array.astype('float64')
    if not np.isfinite(Z).all():
        return None
    labels = ['dem-' + case['dem_crs'], case['crs'], case['dem_dtype']]
    if case['ter']['z0'] < -110:
        labels.append('deep')
    if case['far']:
        f = mountain(s, case)
        if f.any():
            rng = np.random.default_rng(case['seed'])
            amp = 2.5 * s.agl if case['far'] == 'high' else -0.3 * min(s.agl, 300)
            lim = Z.max() + amp
            Z[f] = (Z + amp * rng.uniform(0.3, 1, Z.shape))[f]
            labels.append('far-' + case['far'])
    unit = 0.305 if case['crs'] == 'utmft' else 1.0  # ortho CRS height unit in m
    hz = 0.0
    if case['dem_dtype'] == 'int16':
        Z = np.round(Z)
        hz = 0.75 / unit * (0.305 if '8050' in case['dem_crs'] else 1.0)
        if Z.max() > 32000:
            return None
    bands = []
    for b in range(1, case['nbands'] + 1):
        bands.append(Z if b == case['band'] else np.full_like(Z, Z.mean() + 37 * b))
    A = np.array(bands).astype(case['dem_dtype'])
    prof = dict(s.dem_profile)
    prof['nodata'] = dict(nan=float('nan') if case['dem_dtype'] != 'int16' else -32768, num=-32768 if case['dem_dtype'] == 'int16' else -9999.0, none=None)[case['nd']]
    if case['tiled'] == 16:
        prof.update(tiled=True, blockxsize=16, blockysize=16)
    elif case['tiled']:
        prof.update(blockysize=3)
    dem = imgs.write_tif(s.d / 'dem2.tif', A, **prof)
    before = dem.read_bytes()
    kw = {} if case['band'] == 1 and case['as_default'] else dict(dem_band=case['band'])
    if case['src'] == 'ds':
        with rio.open(dem) as ds:
            arr, valid, tf, warn, cam = run(s, case, dem=ds, **kw)
    else:
        arr, valid, tf, warn, cam = run(s, case, dem=dem, **kw)
    require(dem.read_bytes() == before, 'DEM file was modified')
    require(not warn, 'DEM which covers the image footprint gives a coverage warning')
    # vertical datum / horizontal conversion: interpolated by GDAL over the DEM
    if case['dem_crs'] != 'same':
        hz += 0.03 / unit + 2e-5 * s.agl + slope_err(s, case)
    if verify(case, s, cam, arr, valid, tf, hz=hz) is None:
        return None
    return labels


def slope_err(s, case):
    sl = np.abs(case['ter'].get('slope', [0, 0])).sum()
    return 0.03 * sl * s.dem_res


@st.composite
def case_hole(draw):
    c = draw(case_dem(vert=False))
    c.update(far=None, nbands=1, band=1, dem_crs=draw(st.sampled_from(['same', 'same', 'geo', 'EPSG:32736'])), dem_n=draw(st.integers(25, 45)),
             hole=[draw(fl(-0.9, 0.9, 2)), draw(fl(-0.9, 0.9, 2)), draw(fl(0.1, 0.6, 2)), draw(fl(0.1, 0.6, 2))],
             ndkind=draw(st.sampled_from(['nan', 'num', 'int', 'mask'])), kind=draw(st.sampled_from(['hole', 'hole', 'clip', 'clip', 'outside', 'alln', 'none'])),
             side=draw(st.integers(0, 3)), frac=draw(fl(0.15, 0.85, 2)))
    c['dem_dtype'] = 'int16' if c['ndkind'] == 'int' else 'float32'
    if c['kind'] == 'alln':
        c['ter'] = dict(kind='flat', z0=c['ter']['z0'])  # (the footprint on an unknown slope could extend beyond the hole)
    return c


def check_hole(case, ctx):
    """DEM nodata, partial and no coverage."""
    import rasterio as rio
    from orthority.errors import OrthorityError
    s = orthoc.build(case, ctx.tmp())
    if s is None:
        return None
    Z = s.dem_array.astype('float64')
    X, Y = s.dem_xy
    fx, fy = s.foot[0], s.foot[1]
    kind = case['kind']
    bad = np.zeros(Z.shape, bool)
    cx, cy, wx, wy = case['hole']
    if kind == 'hole':
        bx, by = fx.mean() + cx * np.ptp(fx) / 2, fy.mean() + cy * np.ptp(fy) / 2
        bad = (np.abs(X - bx) < wx * np.ptp(fx) / 2 + s.dem_res) & (np.abs(Y - by) < wy * np.ptp(fy) / 2 + s.dem_res)
    elif kind == 'alln':
        m = 0.1 * s.half + 2 * s.dem_res
        bad = (X > fx.min() - m) & (X < fx.max() + m) & (Y > fy.min() - m) & (Y < fy.max() + m)
    if bad.all():
        return None
    nk = case['ndkind']
    prof = dict(s.dem_profile)
    hz = 0.0
    if nk == 'nan':
        prof['nodata'] = float('nan')
        Z[bad] = np.nan
    elif nk == 'num':
        prof['nodata'] = -9999.0
        Z[bad] = -9999
    elif nk == 'int':
        prof['nodata'] = -32768
        Z = np.round(Z)
        Z[bad] = -32768
        hz = 0.75
    else:
        prof['nodata'] = None
    A = Z.astype(case['dem_dtype'])
    tf0 = prof['transform']
    if kind in ('clip', 'outside'):
        # clip the DEM to part of the footprint, or move it away
        fjs, fis = ~tf0 * project_xy(s, case, fx, fy)
        n0, n1 = (fjs.min(), fjs.max()) if case['side'] % 2 == 0 else (fis.min(), fis.max())
        f = case['frac']
        cut = n0 + f * (n1 - n0)
        N = A.shape[1] if case['side'] % 2 == 0 else A.shape[0]
        if kind == 'clip':
            lo, hi = (0, int(cut)) if case['side'] < 2 else (int(cut), N)
        else:
            # outside the footprints at all heights
            shift = 40 * (s.half + s.agl + 10000)
            k = shift / (s.dem_res * (A.shape[1]))
            tf0 = tf0 * rio.Affine.translation(A.shape[1] * 3, 0) if False else rio.Affine(tf0.a, 0, tf0.c + (5.0 if case['dem_crs'] == 'geo' else 5e5), 0, tf0.e, tf0.f)
            lo, hi = 0, N
        if hi - lo < 4:
            return None
        if case['side'] % 2 == 0:
            A, tf0 = A[:, lo:hi], tf0 * rio.Affine.translation(lo, 0)
            X, Y, bad = X[:, lo:hi], Y[:, lo:hi], bad[:, lo:hi]
        else:
            A, tf0 = A[lo:hi], tf0 * rio.Affine.translation(0, lo)
            X, Y, bad = X[lo:hi], Y[lo:hi], bad[lo:hi]
    prof['transform'] = tf0
    dem = imgs.write_tif(s.d / 'dem2.tif', A, **prof)
    if nk == 'mask':
        with rio.Env(GDAL_TIFF_INTERNAL_MASK=True), rio.open(dem, 'r+') as ds:
            ds.write_mask(~bad)
    try:
        arr, valid, tf, warn, cam = run(s, case, dem=dem)
    except OrthorityError as ex:
        require(kind in ('outside', 'alln') or (kind == 'hole' and min(wx, wy) > 0.4) or (kind == 'clip'), 'ortho covered by the DEM was rejected', ex=str(ex))
        if kind == 'clip':
            # DEM may only be a sliver
            require(case['frac'] < 0.3 or case['frac'] > 0.7, 'ortho partly covered by the DEM was rejected', ex=str(ex))
        return ['rejected-' + kind]
    require(kind not in ('outside', 'alln'), 'ortho which is not covered by the DEM was not rejected')
    # ground positions of the ortho pixels in terms of DEM pixels
    H, W = valid.shape
    J, I = np.meshgrid(np.arange(W), np.arange(H))
    ox, oy = tf * (J + 0.5, I + 0.5)
    dx, dy = project_xy(s, case, ox.ravel(), oy.ravel())
    dj, di = ~tf0 * (dx, dy)
    dj, di = (dj - 0.5).reshape(H, W), (di - 0.5).reshape(H, W)
    N, M = A.shape
    mo = 1.5 * max(abs(tf.a), abs(tf.e)) / s.dem_res
    b1 = np.pad(bad, 1, constant_values=True)

    def around(r, fn):
        """fn (any/all) of bad over the DEM pixels within r of each ortho pixel."""
        out = None
        for a in np.linspace(-r, r, 5):
            for b in np.linspace(-r, r, 5):
                v = b1[np.clip(np.rint(di + b).astype(int) + 1, 0, N + 1), np.clip(np.rint(dj + a).astype(int) + 1, 0, M + 1)]
                out = v if out is None else (fn(out, v))
        return out
    r = 2.2 + mo
    sure_bad = around(r, np.logical_and)
    any_bad = around(r, np.logical_or)
    require(not np.any(valid & sure_bad), 'ortho pixel without DEM height is valid', n=int((valid & sure_bad).sum()))
    it = case['interp']
    # pixels with dem, inside the image
    xyz = np.array([ox.ravel(), oy.ravel(), s.zfun(ox, oy).ravel()])
    p = s.project(xyz).reshape(2, H, W)
    w, h = s.size
    op = max(abs(tf.a), abs(tf.e)) / s.gsd * 2
    if kind in ('none', 'hole'):
        mg = 5 + 4 * op
        inside = (p[0] > mg) & (p[1] > mg) & (p[0] < w - 1 - mg) & (p[1] < h - 1 - mg) & ~any_bad
        require(np.all(valid[inside]), 'ortho pixel with DEM height is nodata', n=int((~valid[inside]).sum()))
    # content where valid and well inside the DEM
    if case['dem_crs'] != 'same':
        hz += 0.03 + 2e-5 * s.agl + slope_err(s, case)
    ez = hz + 1e-3 + 3e-7 * np.abs(xyz[2]).max() + 0.6 * s.curv * s.dem_res**2
    dz = np.abs(s.project(xyz + np.array([[0], [0], [1.0]])).reshape(2, H, W) - p).max(axis=0)
    m = 3.0 + dz * ez
    vin = valid & ~any_bad & (p[0] > m) & (p[1] > m) & (p[0] < w - 1 - m) & (p[1] < h - 1 - m)
    for b, e in enumerate([p[0], p[1]][: arr.shape[0]]):
        err = np.abs((arr[b].astype('float64') - s.off) / s.sc - e)
        bd = vin & ~(err <= 0.1 + 0.01 + dz * ez)
        require(not bd.any(), 'ortho content is displaced', band=b + 1, n=int(bd.sum()), err=float(np.nanmax(err[bd])) if bd.any() else None)
    # coverage of the image interior
    t = np.linspace(0, 1, 15)
    gj, gi = np.meshgrid(t * (w - 1), t * (h - 1))
    g = orthoc.ground(s, np.array([gj.ravel(), gi.ravel()]))
    gx, gy = project_xy(s, case, g[0], g[1])
    qj, qi = ~tf0 * (gx, gy)
    qj, qi = qj - 0.5, qi - 0.5
    ri, rj = np.rint(qi).astype(int), np.rint(qj).astype(int)
    gb = b1[np.clip(ri + 1, 0, N + 1), np.clip(rj + 1, 0, M + 1)]
    # a point well inside a nodata area (all DEM pixels around it are bad)
    allb = gb.copy()
    for a in (-2, 0, 2):
        for b in (-2, 0, 2):
            allb &= b1[np.clip(ri + b + 1, 0, N + 1), np.clip(rj + a + 1, 0, M + 1)]
    inner = ((gj > 3 + 2 * op) & (gj < w - 4 - 2 * op) & (gi > 3 + 2 * op) & (gi < h - 4 - 2 * op)).ravel()
    if np.any(allb & inner):
        require(warn, 'no warning that the ortho is not fully covered by the DEM')
        return [kind, nk, 'uncovered']
    if kind == 'none':
        require(not warn, 'coverage warning for a DEM that covers the ortho')
    return [kind, nk] if vin.any() else None


def project_xy(s, case, x, y):
    """Ortho CRS to DEM CRS."""
    from rasterio.warp import transform as warp
    dst = s.dem_profile['crs']
    if dst == s.crs:
        return np.asarray(x), np.asarray(y)
    r = warp(s.crs, dst, np.ravel(x), np.ravel(y))
    return np.array(r[0]), np.array(r[1])


@st.composite
def case_band(draw):
    c = draw(case_dem(vert=False))
    c['bad'] = draw(st.sampled_from([0, -1, 4, 10]))
    return c


def check_band(case, ctx):
    """Invalid DEM bands are rejected."""
    from orthority.errors import OrthorityError
    from orthority.ortho import Ortho
    s = orthoc.build(case, ctx.tmp())
    if s is None:
        return None
    try:
        Ortho(s.src, s.dem, orthoc.camera(s), crs=s.crs, dem_band=case['bad'])
    except OrthorityError:
        return 'rejected'
    raise Violation('invalid DEM band was accepted')


@st.composite
def case_interp(draw):
    c = draw(orthoc.scenario(cams=('frame',), lo=30, hi=70, distort=(True,), dem_crs=('same',), kinds=('flat',), strength=0.3))
    c.update(res=None, rx=draw(fl(0.8, 1.6, 2)), ry=draw(fl(0.8, 1.6, 2)), interp=draw(st.sampled_from(['bilinear', 'cubic'])),
             dem_interp=draw(st.sampled_from(['nearest', 'bilinear', 'cubic', None])), dem_n=draw(st.integers(8, 16)), amp=draw(fl(0.02, 0.08, 3)))
    return c


def kernel(kind, d):
    d = np.abs(d)
    if kind == 'bilinear':
        return np.clip(1 - d, 0, None)
    a = -0.5  # (GDAL)
    return np.where(d <= 1, (a + 2) * d**3 - (a + 3) * d**2 + 1, np.where(d < 2, a * d**3 - 5 * a * d**2 + 8 * a * d - 4 * a, 0))


def check_interp(case, ctx):
    """Ground heights between the DEM pixels are those of the requested interpolation."""
    s = orthoc.build(case, ctx.tmp())
    if s is None:
        return None
    rng = np.random.default_rng(case['seed'])
    amp = case['amp'] * s.agl
    Z = (s.dem_array + rng.uniform(-amp, amp, s.dem_array.shape)).astype('float32')
    dem = imgs.write_tif(s.d / 'dem2.tif', Z, **s.dem_profile)
    t0 = s.dem_profile['transform']
    res = (case['rx'] * s.gsd, case['ry'] * s.gsd)
    if res[0] > 0.8 * t0.a or res[1] > -0.8 * t0.e:
        return None
    from orthority.ortho import Ortho
    cam = orthoc.camera(s)
    out = s.d / 'out.tif'
    kw = {} if case['dem_interp'] is None else dict(dem_interp=case['dem_interp'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        Ortho(s.src, dem, cam, crs=s.crs).process(out, resolution=res, interp=case['interp'], compress='deflate', build_ovw=False, **kw)
    arr, valid, tf, _ = orthoc.read(out)
    require(abs(tf.a - res[0]) < 1e-6 * res[0] and abs(tf.e + res[1]) < 1e-6 * res[1], 'ortho resolution', got=[tf.a, tf.e], exp=list(res))
    H, W = valid.shape
    J, I = np.meshgrid(np.arange(W), np.arange(H))
    X, Y = tf * (J + 0.5, I + 0.5)
    dj, di = ~t0 * (X, Y)
    dj, di = dj - 0.5, di - 0.5
    N, M = Z.shape
    ok = (dj > 2) & (di > 2) & (dj < M - 3) & (di < N - 3)
    if case['dem_interp'] == 'nearest':
        z = Z[np.clip(np.rint(di), 0, N - 1).astype(int), np.clip(np.rint(dj), 0, M - 1).astype(int)].astype(float)
        ok &= (np.abs(np.abs(di - np.floor(di)) - 0.5) > 0.03) & (np.abs(np.abs(dj - np.floor(dj)) - 0.5) > 0.03)
    else:
        k = case['dem_interp'] or 'cubic'
        z = np.zeros(X.shape)
        fi, fj = np.floor(di).astype(int), np.floor(dj).astype(int)
        for a in range(-1, 3):
            for b in range(-1, 3):
                z += kernel(k, di - fi - a) * kernel(k, dj - fj - b) * Z[np.clip(fi + a, 0, N - 1), np.clip(fj + b, 0, M - 1)]
    xyz = np.array([X.ravel(), Y.ravel(), z.ravel()])
    p = s.project(xyz).reshape(2, H, W)
    dz = np.abs(s.project(xyz + np.array([[0], [0], [1.0]])).reshape(2, H, W) - p).max(axis=0)
    ez = 2e-3 + 2e-6 * np.abs(z).max() + 0.01 * amp
    w, h = s.size
    m = 3.5 + dz * ez
    vin = valid & ok & (p[0] > m) & (p[1] > m) & (p[0] < w - 1 - m) & (p[1] < h - 1 - m)
    for b, e in enumerate([p[0], p[1]]):
        err = np.abs((arr[b].astype('float64') - s.off) / s.sc - e)
        bad = vin & ~(err <= 0.1 + dz * ez)
        require(not bad.any(), 'ortho content is not at the interpolated ground height', band=b + 1, n=int(bad.sum()), of=int(vin.sum()), err=float(np.nanmax(err[bad])) if bad.any() else None)
    # by how much the content depends on the interpolation
    return [str(case['dem_interp'])] if vin.sum() > 10 and (dz[vin].max() * amp > 0.3) else None


SUBS = [
    Sub('dem', case_dem, check_dem, 900, 20000,
        'random scenario, DEM CRS (same, geographic, other projections; with/without vertical datum and ft units), type, band, tiling, far away terrain; all ortho pixels compared with the reference projection of the analytic terrain; non-trivial = ortho produced and compared'),
    Sub('coverage', case_hole, check_hole, 700, 15000, 'DEM nodata holes (NaN, number, integer, internal mask), clipped, disjoint or all-nodata DEMs; non-trivial = validity/content compared or the ortho rejected'),
    Sub('dem_interp', case_interp, check_interp, 240, 5000, 'rough DEM coarser than the ortho, DEM interpolation; content compared with own nearest, bilinear and bicubic interpolation of the DEM; non-trivial = > 10 interior pixels, which the relief moves by > 0.3 pixels'),
    Sub('bad_band', case_band, check_band, 40, 200, 'invalid band index; non-trivial = the constructor is called'),
]
ASSUMPTIONS = ['PROJ point transforms (rasterio.warp.transform) are the reference for horizontal and vertical conversion of DEM heights']
