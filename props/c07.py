"""C07: remapping samples the source image where each world point projects."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, interp, ref
from harness.engine import Sub, Violation, require
from harness.gen import fl

INTERPS = ['nearest', 'bilinear', 'cubic', 'lanczos', 'average']
DTYPES = ['uint8', 'uint16', 'int16', 'float32', 'float64']
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
MARGIN = dict(nearest=0.6, bilinear=1.1, average=1.1, cubic=2.1, lanczos=4.1)


@st.composite
def case_remap(draw):
    kind = draw(st.sampled_from(['frame', 'frame', 'frame', 'rpc']))
    c = dict(kind=kind)
    size = draw(st.tuples(st.integers(10, 60), st.integers(10, 60)))
    if kind == 'frame':
        ip = draw(gen.interior(sizes=st.just(size), strength=0.8))
        c.update(ip=ip, ep=gen.level(ip, draw(gen.exterior(max_tilt=0.5, xy=draw(st.sampled_from([10.0, 5e6])), alt=(50, 1000)))),
                 distort=draw(st.sampled_from([True, True, False])), alpha=draw(st.sampled_from([0.0, 0.5, 1.0])))
    else:
        c.update(rpc=draw(gen.rpc(size=size)), crs=draw(st.sampled_from([None, 'utm'])))
    c.update(dtype=draw(st.sampled_from(DTYPES)), bands=draw(st.integers(1, 6)), interp=draw(st.sampled_from(INTERPS + [None])),
             istr=draw(st.booleans()), shape=[draw(st.integers(1, 40)), draw(st.integers(1, 40))], rot=draw(fl(-3.1, 3.1, 2)),
             cover=draw(st.sampled_from([0.4, 1.0, 1.5])), zdtype=draw(st.sampled_from(['float64', 'float32'])),
             relief=draw(st.sampled_from([0.0, 0.1])), seed=draw(gen.seeds()), nan=draw(st.sampled_from([None, 'x', 'y', 'z', 'all'])),
             nodata=draw(st.sampled_from([None, None, 'def', 'other'])), hole=draw(st.sampled_from([None, 'all', 'one'])),
             kernel=draw(st.sampled_from([None, None, [3, 3], [5, 3], [1, 7], [4, 4]])),
             resize=draw(st.sampled_from([None, None, None, [5, -3], [-4, 6]])))
    return c


def check_remap(case, ctx):
    from orthority.camera import RpcCamera, create_camera
    from orthority.enums import Interp
    rng = np.random.default_rng(case['seed'])
    m, n = case['shape']
    tj, ti = np.meshgrid(np.linspace(-1, 1, n) if n > 1 else [0.0], np.linspace(-1, 1, m) if m > 1 else [0.0])
    tj = tj + rng.uniform(-0.01, 0.01, tj.shape)
    ti = ti + rng.uniform(-0.01, 0.01, ti.shape)
    r, s = case['rot'], case['cover']
    gx, gy = s * (tj * np.cos(r) - ti * np.sin(r)), s * (tj * np.sin(r) + ti * np.cos(r))
    dilates = False
    labels = [case['kind'], case['dtype']]
    if case['kind'] == 'frame':
        ip, ep = case['ip'], case['ep']
        if not ref.fov_valid(ip)[0] or not gen.below_horizon(ip, ep, 0.12):
            return None
        w, h = ip['im_size']
        e = np.array([[0, w - 1, w - 1, 0], [0, 0, h - 1, h - 1]], float)
        g = ref.px_to_world(ip, ep, e, 0.0)[0]
        cx, cy = g[0].mean(), g[1].mean()
        x = cx + gx * np.ptp(g[0]) / 2
        y = cy + gy * np.ptp(g[1]) / 2
        H = ep['xyz'][2]
        z = case['relief'] * H * np.sin(3 * gx) * np.cos(2 * gy)
        cam = create_camera(**gen.camera_kwargs(ip, ep), distort=case['distort'], alpha=case['alpha'])
        labels[0] = ip['cam_type'] + ('' if case['distort'] else '-undist')
    else:
        rp = case['rpc']['rpc']
        w, h = case['rpc']['im_size']
        gsc = 0.8
        lon, lat = rp['long_off'] + gsc * gx * rp['long_scale'], rp['lat_off'] + gsc * gy * rp['lat_scale']
        z = rp['height_off'] + case['relief'] * rp['height_scale'] * np.sin(3 * gx)
        if case['crs']:
            from rasterio.warp import transform as warp
            crs = f"EPSG:{gen.utm_epsg(rp['lat_off'], rp['long_off'])}"
            x, y, z2 = [np.array(a).reshape(lon.shape) for a in warp('EPSG:4979', crs, lon.ravel(), lat.ravel(), z.ravel())]
            cam = RpcCamera((w, h), rp, crs=crs)
            labels[0] = 'rpc-crs'
        else:
            x, y = lon, lat
            cam = RpcCamera((w, h), rp)
    x, y, z = x.copy(), y.copy(), z.astype(case['zdtype'])
    nanm = np.zeros(x.shape, bool)
    if case['nan']:
        nm = rng.uniform(size=x.shape) < 0.15
        for k, a in dict(x=x, y=y, z=z).items():
            if case['nan'] in (k, 'all'):
                a[nm] = np.nan
                nanm |= nm
        labels.append('nan')
    # source image
    dt = case['dtype']
    sw, sh = w, h
    if case['resize']:
        sw, sh = max(6, w + case['resize'][0]), max(6, h + case['resize'][1])
        labels.append('resized')
    # (range which interpolation cannot overshoot to a nodata value)
    lo_v, hi_v = dict(uint8=(90, 165), uint16=(20000, 40000), int16=(10000, 20000), float32=(50, 100), float64=(5e3, 1e4))[dt]
    im = rng.uniform(lo_v, hi_v, (case['bands'], sh, sw)).astype(dt)
    nd = NODATA[dt]
    kw = {}
    if case['nodata'] == 'def':
        kw['nodata'] = nd
    elif case['nodata'] == 'other':
        kw['nodata'] = nd = 7
    isn = (lambda a: np.isnan(a)) if nd != nd else (lambda a: a == nd)
    if case['hole']:
        sl = np.s_[sh // 3: sh // 3 + 4, sw // 2: sw // 2 + 4]
        for b in range(case['bands'] if case['hole'] == 'all' else 1):
            im[b][sl] = nd
        labels.append('hole-' + case['hole'])
    it = case['interp'] or 'cubic'
    if case['interp']:
        kw['interp'] = it if case['istr'] else Interp(it)
    kern = case['kernel'] or [3, 3]
    frame = case['kind'] == 'frame'
    if frame and case['kernel']:
        kw['kernel_size'] = tuple(kern)
    ins = [a.copy() for a in (im, x, y, z)]
    out, mask = cam.remap(im, x, y, z, **kw)
    require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(ins, (im, x, y, z))), 'remap modified its inputs')
    require(out.shape == (case['bands'], m, n) and out.dtype == im.dtype, 'remapped array shape or type', shape=out.shape, dtype=out.dtype)
    require(mask.shape == (m, n) and mask.dtype == bool, 'mask shape or type', shape=mask.shape, dtype=mask.dtype)
    # where the points project
    if frame:
        xyz = np.array([x.ravel(), y.ravel(), z.ravel()], float)
        ji = ref.project(ip, ep, xyz) if case['distort'] else cam.world_to_pixel(xyz)
    elif case['crs']:
        from rasterio.warp import transform as warp
        zf = z.ravel().astype(float)
        okk = ~(np.isnan(x.ravel()) | np.isnan(y.ravel()) | np.isnan(zf))
        g = np.full((3, x.size), np.nan)
        if okk.any():
            g[:, okk] = np.array(warp(crs, 'EPSG:4979', x.ravel()[okk], y.ravel()[okk], zf[okk]))
        ji = ref.rpc_project(rp, g)
    else:
        ji = ref.rpc_project(rp, np.array([x.ravel(), y.ravel(), z.ravel()], float))
    j, i = ji.reshape(2, m, n)
    # points behind a frame camera, or in the folded part of its distortion are undefined
    dom = np.ones(x.shape, bool)
    if frame:
        c = ref.world_to_cam(ep, np.array([x.ravel(), y.ravel(), z.ravel()], float))
        cu, cv = c[0] / c[2], c[1] / c[2]
        dom = (c[2] > 0)
        if case['distort']:
            bx = ref.fov_valid(ip)[1]
            dom &= (cu >= bx[0] - 0.02) & (cu <= bx[2] + 0.02) & (cv >= bx[1] - 0.02) & (cv <= bx[3] + 0.02)
        dom = dom.reshape(m, n)
    dom |= nanm
    jf, if_ = np.where(np.isnan(j), -100, j), np.where(np.isnan(i), -100, i)
    out_px = nanm | (jf < -1.1) | (if_ < -1.1) | (jf > sw + 0.1) | (if_ > sh + 0.1)
    mg = MARGIN[it]
    inside = ~nanm & (jf >= mg) & (if_ >= mg) & (jf <= sw - 1 - mg) & (if_ <= sh - 1 - mg)
    edge_in = ~nanm & (jf >= 0.6) & (if_ >= 0.6) & (jf <= sw - 1.6) & (if_ <= sh - 1.6)  # inside, but perhaps in the edge of the kernel
    out_px &= dom
    inside &= dom
    edge_in &= dom
    ond = isn(out)
    sup_all = np.array([interp.support_max(isn(b), jf, if_, it) for b in im])  # support includes nodata or outside
    ndil = frame and not case['distort'] and it != 'nearest' and nd == nd and ip['cam_type'] != 'pinhole'
    require(np.all(ond[:, out_px]), 'pixel of a NaN or out-of-image point is not nodata', n=int((~ond[:, out_px]).sum()))
    require(np.all(mask[out_px]), 'out-of-image pixel is not masked')
    require(np.array_equal(mask, ond.all(axis=0)), 'mask is not the pixels where all bands equal nodata',
            n=int((mask != ond.all(axis=0)).sum()))
    info = None if dt.startswith('float') else np.iinfo(dt)
    rng_v = float(np.nanmax(im.astype(float)) - np.nanmin(im.astype(float)))
    nval = 0
    if ndil:
        # pixels which are masked must be within the kernel of a pixel whose support is not fully valid
        notsure = sup_all.any(axis=0) | ~dom | ~edge_in
        pw, ph = kern[0], kern[1]
        rad = lambda k: (k // 2 + (1 if k % 2 == 0 else 0))

        def dil(a, rx, ry):
            o = np.zeros_like(a)
            for dy in range(-ry, ry + 1):
                for dx in range(-rx, rx + 1):
                    ys, yd = slice(max(0, dy), m + min(0, dy)), slice(max(0, -dy), m + min(0, -dy))
                    xs, xd = slice(max(0, dx), n + min(0, dx)), slice(max(0, -dx), n + min(0, -dx))
                    if ys.stop > ys.start and xs.stop > xs.start:
                        o[yd, xd] |= a[ys, xs]
            return o
        require(not np.any(mask & ~dil(notsure, rad(pw), rad(ph))), 'mask is dilated further than the kernel')
        sure_nd = out_px
        need = dil(sure_nd, (pw - 1) // 2, (ph - 1) // 2)
        require(np.all(mask[need]), 'mask is not dilated by the kernel around nodata', n=int((~mask[need]).sum()))
        labels.append('dilated')
    for b in range(case['bands']):
        sel = inside & ~sup_all[b] & ~mask
        if not ndil and sel.size:
            bad = ond[b][inside & ~sup_all[b]]
            require(not bad.any(), 'in-image pixel is nodata', n=int(bad.sum()))
        if sel.any():
            nval += int(sel.sum())
            lo, hi = interp.envelope(im[b], jf[sel], if_[sel], it, q=1 / 24)
            if it == 'nearest':
                tol = 0.0
            else:
                tol = 0.015 * rng_v
            v = out[b][sel].astype(float)
            if info is not None:
                lo, hi = np.clip(lo, info.min, info.max), np.clip(hi, info.min, info.max)
                tol += 1.0 if it != 'nearest' else 0.0
            else:
                tol += 1e-5 * rng_v if it != 'nearest' else 0
            bad = (v < lo - tol) | (v > hi + tol)
            require(not bad.any(), 'remapped value is not the interpolated source value', n=int(bad.sum()), of=int(sel.sum()), band=b,
                    first=dict(got=v[bad][:1], lo=lo[bad][:1], hi=hi[bad][:1], j=jf[sel][bad][:1], i=if_[sel][bad][:1]), interp=it)
    # in-image points just inside the edge get a value
    if not ndil and not case['hole']:
        require(not np.any(mask & edge_in), 'in-image pixel near the image edge is nodata', n=int((mask & edge_in).sum()))
    if not nval and not (case['nan'] and nanm.any()):
        return None
    labels.append('interp-' + it)
    return labels


@st.composite
def case_bad(draw):
    c = draw(case_remap())
    c['kind2'] = draw(st.sampled_from(['imdtype', 'im2d', 'shape', '1d', 'xdtype', 'zint']))
    return c


def check_bad(case, ctx):
    """Invalid arguments raise ValueError."""
    from orthority.camera import RpcCamera, create_camera
    if case['kind'] == 'frame':
        cam = create_camera(**gen.camera_kwargs(case['ip'], case['ep']))
        w, h = case['ip']['im_size']
    else:
        w, h = case['rpc']['im_size']
        cam = RpcCamera((w, h), case['rpc']['rpc'])
    im = np.ones((1, h, w), 'uint8')
    x, y, z = np.zeros((3, 4, 5))
    k = case['kind2']
    if k == 'imdtype':
        im = im.astype('int32')
    elif k == 'im2d':
        im = im[0]
    elif k == 'shape':
        z = np.zeros((5, 4))
    elif k == '1d':
        x, y, z = np.zeros((3, 20))
    elif k == 'xdtype':
        x = x.astype('float32')
    elif k == 'zint':
        z = z.astype('int32')
    try:
        cam.remap(im, x, y, z)
    except ValueError:
        return k
    raise Violation(f'remap accepted invalid input: {k}')


SUBS = [
    Sub('remap', case_remap, check_remap, 5000, 100000,
        'random frame/RPC camera, noise image, world grid, interpolation, nodata, NaN/nodata holes; every remapped pixel is compared with an envelope of the reference interpolation at the reference projection; non-trivial = at least one interior value or NaN pixel compared'),
    Sub('invalid', case_bad, check_bad, 150, 1000, 'invalid arrays; non-trivial = the call is made'),
]
ASSUMPTIONS = ['sampling positions are accurate to 1/24 pixel (cv2.remap fixed-point coordinates)', 'points behind a frame camera or outside the invertible part of its distortion are excluded']
