"""C08: each ortho pixel shows the image content of its ground position."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, orthoc, ref
from harness.engine import Sub, require
from harness.gen import fl

ITOL = dict(nearest=0.55, bilinear=0.05, average=0.05, cubic=0.09, lanczos=0.16)
IMARG = dict(nearest=1, bilinear=1.5, average=1.5, cubic=2.5, lanczos=4.5)


@st.composite
def case_ortho(draw):
    c = draw(orthoc.scenario(lo=24, hi=110, oblique=(False, False, True)))
    c.update(res=draw(st.sampled_from([None, [1, 1], [1.5, 1.5], [0.8, 1.3], [2.5, 1.2], 'dem', 'demx', 'demy'])),
             interp=draw(st.sampled_from(['cubic', 'bilinear', 'nearest', 'lanczos', 'average', None])),
             dem_interp=draw(st.sampled_from(['cubic', 'bilinear', None])), per_band=draw(st.booleans()),
             layout=draw(st.sampled_from([None, [16, 32], [64, 16], [32, 32], 'strip'])), istr=draw(st.booleans()), out_dtype=draw(st.sampled_from([None, None, 'float64'])))
    return c


def check_ortho(case, ctx):
    from orthority.ortho import Ortho
    d = ctx.tmp()
    s = orthoc.build(case, d)
    if s is None:
        return None
    cam = orthoc.camera(s)
    o = Ortho(s.src, s.dem, cam, crs=s.crs)
    kw = {}
    if str(case['res']).startswith('dem'):
        # DEM resolution in x, y or both
        t = s.dem_profile['transform']
        r = (t.a, -t.e) if case['dem_crs'] == 'same' else (s.dem_res, s.dem_res)
        kw['resolution'] = dict(dem=r, demx=(r[0], 0.8 * r[1]), demy=(0.8 * r[0], r[1]))[case['res']]
    elif case['res']:
        kw['resolution'] = (case['res'][0] * s.gsd, case['res'][1] * s.gsd)
    for k in ('interp', 'dem_interp'):
        if case[k]:
            kw[k] = case[k]
    if case['out_dtype']:
        kw['dtype'] = case['out_dtype']
    out = d / 'ortho.tif'
    if case['layout'] == 'strip':
        kw['creation_options'] = dict(blockysize=7)
    elif case['layout']:
        kw['creation_options'] = dict(tiled=True, blockxsize=case['layout'][0], blockysize=case['layout'][1], compress='deflate')
    else:
        kw['compress'] = 'deflate'
    o.process(out, per_band=case['per_band'], build_ovw=False, **kw)
    arr, valid, tf, prof = orthoc.read(out)
    if 'resolution' in kw:
        require(np.allclose((tf.a, -tf.e), kw['resolution'], rtol=1e-6) and tf.b == tf.d == 0, 'ortho does not have the requested resolution', got=[tf.a, tf.e], exp=kw['resolution'])
    else:
        require(abs(tf.a + tf.e) < 1e-6 * tf.a and 0.75 < tf.a / s.gsd < 1.33, 'default ortho resolution is not about the ground sampling distance', got=[tf.a, tf.e], exp=s.gsd)
    # (the inverse of distortion is iterative, and less exact for 'fold' cameras)
    if not verify(case, s, cam, arr, valid, tf, extra_px=0.5 if 'horizon' in case else 0.0):
        return None
    return [case['cam'] if case['cam'] == 'rpc' else s.ip['cam_type'] + ('' if case['distort'] else '-undist'), 'dem-' + case['dem_crs'], 'interp-' + str(case['interp'])]


def fold_det(ip, u, v):
    j = ref.jac(ip, u, v)
    return j[0, 0] * j[1, 1] - j[0, 1] * j[1, 0]


@st.composite
def case_fold(draw):
    """Barrel distortion that folds points outside the field of view back into the image."""
    c = draw(orthoc.scenario(cams=('frame',), types=('brown', 'opencv', 'brown'), lo=40, hi=90, kinds=('flat',), dem_crs=('same',), tilt=0.6, distort=(True,)))
    w, h = c['ip']['im_size']
    # image corner at x of the turning radius r of the distortion
    x = draw(fl(0.74, 0.82, 2))
    fn = draw(fl(1.1, 2.2, 2))
    r = 0.5 * np.hypot(w, h) / max(w, h) / fn / (x - x**3 / 3)
    ip = dict(cam_type=c['ip']['cam_type'], im_size=[w, h], focal_len=fn, k1=round(float(-1 / (3 * r * r)), 6))
    a, t = draw(fl(-3.1, 3.1, 2)), draw(fl(0.6, 1.1, 2))
    opk = [t * np.cos(a), t * np.sin(a), draw(fl(-3, 3, 2))]
    ep = dict(xyz=c['ep']['xyz'], opk=[round(float(v), 4) for v in opk])
    while t > 0.1 and not gen.below_horizon(ip, ep, 0.2):
        t *= 0.92
        ep['opk'][:2] = [round(float(t * np.cos(a)), 4), round(float(t * np.sin(a)), 4)]
    c.update(ip=ip, ep=ep, horizon=0.2, res=draw(st.sampled_from([None, [1, 1], [1.5, 1.5]])), interp=draw(st.sampled_from(['cubic', 'nearest', None])), dem_interp=None, per_band=False, layout=None, istr=False, out_dtype=None)
    return c


def check_fold(case, ctx):
    r = check_ortho(case, ctx)
    if r is None:
        return None
    # whether folding affects the ortho: outside points with a projection inside the image
    return r + ['fold' if FOLD[0] else 'no-fold']


FOLD = [False]


def verify(case, s, cam, arr, valid, tf, hz=0.0, extra_px=0.0):
    """Compare ortho arr, valid & tf with the reference; hz is an extra height tolerance."""
    w, h = s.size
    it = case.get('interp') or 'cubic'
    nb, H, W = arr.shape
    require(nb == case['bands'], 'band count', got=nb)
    J, I = np.meshgrid(np.arange(W), np.arange(H))
    X, Y = tf * (J + 0.5, I + 0.5)
    Z = s.zfun(X, Y)
    xyz = np.array([X.ravel(), Y.ravel(), Z.ravel()])
    p = s.project(xyz).reshape(2, H, W)
    # sensitivity to height and to ground position
    p_dz = s.project(xyz + np.array([[0], [0], [1.0]])).reshape(2, H, W)
    dz_px = np.abs(p_dz - p).max(axis=0)
    st_ = max(abs(tf.a), abs(tf.e))
    p_dx = s.project(xyz + np.array([[abs(tf.a)], [0], [0]])).reshape(2, H, W)
    p_dy = s.project(xyz + np.array([[0], [abs(tf.e)], [0]])).reshape(2, H, W)
    op_px = np.abs(p_dx - p).max(axis=0) + np.abs(p_dy - p).max(axis=0)  # source pixels per ortho pixel
    # height error: dem interpolation
    ez = hz + 1e-3 + 3e-7 * np.abs(Z).max() + 0.6 * s.curv * s.dem_res**2
    und = not case['distort'] and case['cam'] == 'frame' and s.ip['cam_type'] != 'pinhole'
    tol = ITOL[it] * (3 if und else 1) + dz_px * ez + extra_px
    if case['cam'] == 'rpc':
        tol = tol + 0.02
    if und:
        pu = cam.world_to_pixel(xyz).reshape(2, H, W)
    else:
        pu = None
    # margins (in source pixels) within which validity is undefined
    mg = IMARG[it] * (2 if und else 1) + 3.0 * op_px + dz_px * ez + extra_px
    if und:
        mg = mg + 5.5 + 2.0 * op_px
    inside = (p[0] >= mg) & (p[1] >= mg) & (p[0] <= w - 1 - mg) & (p[1] <= h - 1 - mg)
    outside = (p[0] < -mg) | (p[1] < -mg) | (p[0] > w - 1 + mg) | (p[1] > h - 1 + mg)
    if case['cam'] == 'frame':
        c = ref.world_to_cam(s.ep, xyz)
        bx = ref.fov_valid(s.ip)[1]
        u, v = c[0] / c[2], c[1] / c[2]
        mu, mv = 0.3 * (bx[2] - bx[0]), 0.3 * (bx[3] - bx[1])
        front = (c[2] > 0) & (u > bx[0] - mu) & (u < bx[2] + mu) & (v > bx[1] - mv) & (v < bx[3] + mv)
        # (not folded back into the image by the distortion model)
        with np.errstate(all='ignore'):
            for t in np.linspace(0.1, 1, 10):
                front[front] &= fold_det(s.ip, t * u[front], t * v[front]) > 0
        front = front.reshape(H, W)
        FOLD[0] = bool((~front & (p[0] > 0) & (p[1] > 0) & (p[0] < w - 1) & (p[1] < h - 1)).any())
        outside = outside | ~front
        inside = inside & front
    if und:
        iu = (pu[0] >= mg) & (pu[1] >= mg) & (pu[0] <= w - 1 - mg) & (pu[1] <= h - 1 - mg)
        inside = inside & iu
    require(np.all(valid[inside]), 'ortho pixel inside the image footprint is nodata', n=int((~valid[inside]).sum()), of=int(inside.sum()))
    require(not np.any(valid[outside]), 'ortho pixel outside the image footprint is valid', n=int(valid[outside].sum()), of=int(outside.sum()))
    # content
    mc = IMARG[it] * (2 if und else 1) + 0.5 + dz_px * ez + extra_px
    vin = valid & (p[0] >= mc) & (p[1] >= mc) & (p[0] <= w - 1 - mc) & (p[1] <= h - 1 - mc)
    if case['cam'] == 'frame':
        vin &= front
    if und:
        mu = IMARG[it] + 0.5
        vin &= (pu[0] >= mu) & (pu[1] >= mu) & (pu[0] <= w - 1 - mu) & (pu[1] <= h - 1 - mu)
    exps = [p[0], p[1], (p[0] + p[1]) / 2, (p[0] - p[1]) / 2][:nb]
    gain = [1, 1, 1, 1][:nb]
    for b in range(nb):
        a = arr[b].astype('float64')
        err = np.abs((a - s.off) / s.sc - exps[b])
        bad = vin & ~(err <= tol * gain[b] + (0.01 if s.sc != 1 else 1e-3) + 1e-6 * s.off)
        require(not bad.any(), 'ortho content is displaced', band=b + 1, n=int(bad.sum()), of=int(vin.sum()), max_err_px=float(np.nanmax(err[bad])) if bad.any() else None, tol=float(tol[bad].min()) if bad.any() else None)
    # completeness: the interior of the image is in the ortho
    t = np.linspace(0.03, 0.97, 9)
    gj, gi = np.meshgrid(t * (w - 1), t * (h - 1))
    ji = np.array([gj.ravel(), gi.ravel()])
    g = orthoc.ground(s, ji)
    fj, fi = ~tf * (g[0], g[1])
    mgs = float(np.nanmax(mg[vin])) if vin.any() else 1e9
    ins = (ji[0] > mgs) & (ji[1] > mgs) & (ji[0] < w - 1 - mgs) & (ji[1] < h - 1 - mgs)
    if und:
        q = cam.world_to_pixel(g)
        ins &= (q[0] > mgs) & (q[1] > mgs) & (q[0] < w - 1 - mgs) & (q[1] < h - 1 - mgs)
    inr = (fj >= 0) & (fi >= 0) & (fj < W) & (fi < H)
    require(np.all(inr[ins]), 'part of the image footprint is outside the ortho bounds', n=int((~inr[ins]).sum()))
    if case['ter']['kind'] == 'flat' and not und and not hz and not extra_px:
        # the boundary on flat terrain is exact
        fj, fi = ~tf * (s.foot[0], s.foot[1])
        m = max(-fj.min(), -fi.min(), fj.max() - W, fi.max() - H)
        require(m <= 0.2, 'edge of the image footprint is outside the ortho bounds', ortho_px=float(m))
    return int(vin.sum())


@st.composite
def case_noise(draw):
    c = draw(orthoc.scenario(lo=24, hi=60, kinds=('flat', 'plane'), dem_crs=('same',), strength=0.3, dtypes=('uint8', 'uint16', 'float32', 'int16')))
    c.update(res=draw(fl(0.6, 1.6, 2)), interp=draw(st.sampled_from(['cubic', 'bilinear', 'nearest', None])), per_band=draw(st.booleans()), istr=draw(st.booleans()))
    return c


def kernel(kind, d):
    d = np.abs(d)
    if kind == 'bilinear':
        return np.clip(1 - d, 0, None)
    a = -0.75  # (OpenCV)
    return np.where(d <= 1, (a + 2) * d**3 - (a + 3) * d**2 + 1, np.where(d < 2, a * d**3 - 5 * a * d**2 + 8 * a * d - 4 * a, 0))


def check_noise(case, ctx):
    """The requested interpolation, with noise images."""
    import warnings
    from harness import imgs
    from orthority.ortho import Ortho
    s = orthoc.build(case, ctx.tmp(), enc=False)
    if s is None:
        return None
    w, h = s.size
    rng = np.random.default_rng(case['seed'])
    off, amp = dict(uint8=(60, 120), uint16=(3000, 30000), int16=(-9000, 18000), float32=(-0.4, 1.5))[case['dtype']]
    A = (off + amp * rng.uniform(0, 1, (case['bands'], h, w))).astype(case['dtype'])
    imgs.write_tif(s.src, A)
    cam = orthoc.camera(s)
    out = s.d / 'ortho.tif'
    kw = {}
    if case['interp']:
        from orthority.enums import Interp
        kw['interp'] = case['interp'] if case['istr'] else Interp[case['interp']]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        Ortho(s.src, s.dem, cam, crs=s.crs).process(out, resolution=(case['res'] * s.gsd,) * 2, per_band=case['per_band'], compress='deflate', build_ovw=False, **kw)
    arr, valid, tf, _ = orthoc.read(out)
    it = case['interp'] or 'cubic'
    und = not case['distort'] and case['cam'] == 'frame' and s.ip['cam_type'] != 'pinhole'
    lab = [it + ('-undist' if und else ''), case['dtype']]
    if it == 'nearest':
        for b in range(A.shape[0]):
            require(np.isin(arr[b][valid], A[b]).all(), 'nearest interpolation gives values which are not in the image', band=b + 1)
        if und:
            return lab if valid.any() else None
    elif und:
        return None
    H, W = valid.shape
    J, I = np.meshgrid(np.arange(W), np.arange(H))
    X, Y = tf * (J + 0.5, I + 0.5)
    xyz = np.array([X.ravel(), Y.ravel(), s.zfun(X, Y).ravel()])
    p = s.project(xyz).reshape(2, H, W)
    vin = valid & (p[0] > 4) & (p[1] > 4) & (p[0] < w - 5) & (p[1] < h - 5)
    pj, pi = p[0][vin], p[1][vin]
    if pj.size < 10:
        return None
    fj, fi = np.floor(pj).astype(int), np.floor(pi).astype(int)
    if it == 'nearest':
        t = 0.1
        ok = (np.abs(pj - fj - 0.5) > t) & (np.abs(pi - fi - 0.5) > t)
        for b in range(A.shape[0]):
            e = A[b][np.rint(pi).astype(int), np.rint(pj).astype(int)]
            bad = ok & (arr[b][vin] != e)
            require(not bad.any(), 'ortho pixel is not the nearest image pixel', band=b + 1, n=int(bad.sum()), of=int(ok.sum()))
        return lab if ok.any() else None
    for b in range(A.shape[0]):
        e = np.zeros(pj.shape)
        sl = np.zeros(pj.shape)
        for a in range(-1, 3):
            for c in range(-1, 3):
                v = A[b][fi + a, fj + c].astype('float64')
                e += kernel(it, pi - fi - a) * kernel(it, pj - fj - c) * v
        # local range of values x a bound on the position error (fixed point interpolation of 1/32 pixel)
        nb = np.array([A[b][fi + a, fj + c].astype('float64') for a in range(-1, 3) for c in range(-1, 3)])
        tol = 0.12 * (np.ptp(nb, axis=0)) + 1.5 * (case['dtype'] != 'float32')
        # integers: saturation
        if case['dtype'] != 'float32':
            ii = np.iinfo(case['dtype'])
            e = np.clip(e, ii.min, ii.max)
        bad = ~(np.abs(arr[b][vin] - e) <= tol)
        require(not bad.any(), 'ortho pixel is not the interpolated image', band=b + 1, n=int(bad.sum()), of=int(bad.size), interp=it)
    return lab


SUBS = [
    Sub('ortho', case_ortho, check_ortho, 1600, 20000,
        'random frame/RPC camera, terrain, DEM grid/CRS, resolution, interpolation, dtype; source bands encode pixel coordinates; every ortho pixel compared with the reference projection of its ground point; non-trivial = footprint below horizon and terrain below camera'),
    Sub('fold', case_fold, check_fold, 150, 2500,
        'as ortho, with tilted wide angle cameras whose distortion model maps ground points outside the field of view into the image; non-trivial = as ortho (label fold: such points are in the ortho bounds, and required to be nodata)'),
    Sub('interp', case_noise, check_noise, 300, 6000,
        'noise image of random type, camera, resolution and interpolation; interior ortho pixels compared with own nearest, bilinear or bicubic interpolation at the reference position; non-trivial = > 10 pixels compared'),
]
ASSUMPTIONS = ['terrain is gentle enough (slope <= 0.12 + waves, rays > 20 degrees above the ground) that no ground is occluded', 'validity is not asserted within a few source/ortho pixels of the footprint edge']
