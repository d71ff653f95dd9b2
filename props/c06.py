"""C06: image boundaries are on the image edge and on the requested surface."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, ref
from harness.engine import Sub, Violation, require
from harness.gen import fl


def edge_pts(w, h, n=None):
    w, h = w - 1.0, h - 1.0
    return np.array([[0, 0], [w / 2, 0], [w, 0], [w, h / 2], [w, h], [w / 2, h], [0, h], [0, h / 2]]).T


def check_polygon(ji, w, h, num):
    """ji is an ordered traversal of the rectangle edge, once around, including the corners."""
    W, H = w - 1.0, h - 1.0
    e = 1e-6 * max(w, h)
    on = (np.minimum(np.abs(ji[0]), np.abs(ji[0] - W)) <= e) | (np.minimum(np.abs(ji[1]), np.abs(ji[1] - H)) <= e)
    inside = (ji[0] >= -e) & (ji[0] <= W + e) & (ji[1] >= -e) & (ji[1] <= H + e)
    require(np.all(on & inside), 'boundary point is not on the image edge', got=ji.tolist(), size=[w, h])
    for c in [(0, 0), (W, 0), (W, H), (0, H)]:
        require(np.any(np.abs(ji - np.array(c).reshape(2, 1)).max(axis=0) <= e), 'boundary misses a corner', corner=c, got=ji.tolist())
    d = np.roll(ji, -1, axis=1) - ji
    seg = np.abs(d).sum(axis=0)
    perim = 2 * (W + H)
    require(abs(seg.sum() - perim) <= 1e-6 * perim + e, 'boundary is not one ordered traversal of the edge', length=seg.sum(), perim=perim)
    n = num or 8
    require(abs(ji.shape[1] - n) <= 2, 'number of boundary points', got=ji.shape[1], requested=n)
    if num:
        require(seg.max() <= 2.01 * perim / n, 'boundary spacing is not even', max_gap=seg.max(), mean=perim / n)
    area = 0.5 * abs(np.dot(ji[0], np.roll(ji[1], -1)) - np.dot(np.roll(ji[0], -1), ji[1]))
    require(abs(area - W * H) <= 1e-6 * W * H + e, 'boundary polygon area', got=area, exp=W * H)


# offset of all heights, so that they are not always relative to ground at zero (or the camera above zero)
SHIFT = st.sampled_from([0.0, 0.0, -6000.0, -300.0, 1500.0])


def shifted(case):
    dz = case.get('shift', 0.0)
    ep = dict(case['ep'])
    ep['xyz'] = [*ep['xyz'][:2], ep['xyz'][2] + dz]
    return case['ip'], ep, dz


@st.composite
def case_pix(draw):
    ip = draw(gen.interior(sizes=st.one_of(st.tuples(st.integers(4, 60), st.integers(4, 60)), st.tuples(st.integers(60, 6000), st.integers(60, 6000)))))
    ep = gen.level(ip, draw(gen.exterior(max_tilt=0.6, xy=1e5)), 0.12)
    return dict(ip=ip, ep=ep, num=draw(st.one_of(st.none(), st.integers(8, 60), st.sampled_from([100, 400]))),
                z=draw(fl(-200, 6000, 1)), clip=draw(st.sampled_from([None, True, False])), distort=draw(st.sampled_from([True, True, False])),
                alpha=draw(st.sampled_from([0.0, 0.6, 1.0])), ztype=draw(st.sampled_from(['float', 'int', 'np32', 'np64'])), shift=draw(SHIFT))


def check_pix(case, ctx):
    from orthority.camera import create_camera
    ip, ep, dz = shifted(case)
    if not ref.fov_valid(ip)[0] or not gen.below_horizon(ip, ep, 0.1):
        return None
    w, h = ip['im_size']
    kw = gen.camera_kwargs(ip, ep)
    cam = create_camera(**kw)
    full = cam.pixel_boundary(num_pts=case['num'])
    check_polygon(full, w, h, case['num'])
    if case['num'] is None:
        require(np.allclose(full, edge_pts(w, h)), 'default boundary is not the corners and side mid-points', got=full.tolist())
    labels = [ip['cam_type']]
    ji = full
    fp = ref.fp_undistort_err(ip, full)
    if not case['distort']:
        cam = create_camera(**kw, distort=False, alpha=case['alpha'])
        ji = cam.pixel_boundary(num_pts=case['num'])
        require(ji.shape == full.shape, 'undistorted boundary has a different number of points')
        g = ref.px_to_world(ip, ep, full, dz)[0]
        exp = cam.world_to_pixel(g)
        exp = np.clip(exp, 0, np.array([[w - 1], [h - 1]]))
        err = np.abs(ji - exp).max(axis=0)
        tol = 0.02 + 1e-6 * max(w, h) + 20 * fp
        require(np.all(err <= tol), 'undistorted boundary does not follow the valid image area', err=err.max())
        labels.append('undistorted')
    # world boundary at a height
    z = case['z'] + dz
    zz = dict(float=float(z), int=int(z), np32=np.float32(z), np64=np.float64(z))[case['ztype']]
    zv = float(zz)
    clip = case['clip']
    xyz = cam.world_boundary(zz, num_pts=case['num'], **({} if clip is None else dict(clip=clip)))
    require(xyz.shape == (3, ji.shape[1]), 'world boundary shape', shape=xyz.shape)
    ez = zv if clip is False else min(zv, ep['xyz'][2])
    tolz = 1e-9 * (1 + np.abs(ep['xyz']).max() + abs(ez))
    require(np.all(np.abs(xyz[2] - ez) <= tolz), 'world boundary is not at the requested (clipped) height', z=ez, got=xyz[2].tolist()[:8])
    exp = cam.pixel_to_world_z(ji, ez)
    require(np.allclose(xyz, exp, rtol=1e-9, atol=1e-6), 'world boundary is not the projection of the pixel boundary')
    if case['distort'] and ez < ep['xyz'][2] - 1:
        err = np.abs(ref.project(ip, ep, xyz) - ji).max(axis=0)
        tol = 1e-3 + 1e-8 * max(w, h) + 3 * fp
        require(np.all(err <= tol), 'world boundary does not project back to the image edge', err=err.max())
    labels.append('clipped' if zv > ep['xyz'][2] and clip is not False else 'z')
    return labels


@st.composite
def case_horizon(draw):
    ip = draw(gen.interior(sizes=st.tuples(st.integers(10, 2000), st.integers(10, 2000))))
    ep = draw(gen.exterior(any_angle=True, xy=1e4))
    c = dict(ip=ip, ep=ep, distort=draw(st.booleans()), surf=draw(st.booleans()), shift=draw(SHIFT))
    if draw(st.booleans()):
        # tilt towards an edge or corner of the image, until the highest ray is just above or below the horizon
        side = draw(st.sampled_from([0.0, 0.5, 1.0, 1.5, 0.25, 1.8])) * np.pi
        c['graze'] = draw(st.sampled_from([-0.04, -0.015, -0.007, 0.007, 0.015, 0.04]))
        lo, hi = 0.0, np.pi / 2
        for _ in range(25):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if highest(ip, [mid, 0.0, side]) < c['graze'] else (lo, mid)
        c['ep']['opk'] = [float(lo), 0.0, float(side)]
    return c


def highest(ip, opk):
    """Sine of the elevation of the highest ray."""
    u, v, _ = ref.px_to_cam(ip, edge_pts(*ip['im_size']))
    d = ref.cv_R(opk) @ np.array([u, v, np.ones_like(u)])
    return (d[2] / np.linalg.norm(d, axis=0)).max()


def check_horizon(case, ctx):
    from orthority.camera import create_camera
    from orthority.errors import OrthorityError
    import rasterio as rio
    ip, ep, dz = shifted(case)
    if not ref.fov_valid(ip)[0]:
        return None
    e = edge_pts(*ip['im_size'])
    if ref.fp_undistort_err(ip, e).max() > 0.02 * min(ip['im_size']):
        return None
    up = highest(ip, ep['opk'])
    # (allowing for the accuracy of undistortion)
    fp = ref.fp_undistort_err(ip, e).max() / min(ref.focal_px(ip))
    if abs(up) < 0.005 + 5 * fp:
        return None
    graze = ['graze'] if 'graze' in case else []
    cam = create_camera(**gen.camera_kwargs(ip, ep), distort=case['distort'])
    try:
        if case['surf']:
            x, y = ep['xyz'][:2]
            cam.world_boundary(np.full((10, 10), dz, 'float32'), transform=rio.Affine(10, 0, x - 50, 0, -10, y + 50))
        else:
            cam.world_boundary(dz)
    except OrthorityError:
        require(up > 0, 'camera with its field of view below the horizon was rejected', up=up)
        return ['above', *graze]
    require(up < 0, 'field of view which includes the horizon was accepted', up=up)
    return ['below', *graze]


@st.composite
def case_surf(draw):
    ip = draw(gen.interior(sizes=st.tuples(st.integers(8, 3000), st.integers(8, 3000)), f_lo=0.7, strength=0.5))
    ep = gen.level(ip, draw(gen.exterior(max_tilt=0.5, xy=1e5, alt=(200, 3000))), 0.45)
    return dict(ip=ip, ep=ep, n=draw(st.integers(12, 50)), aspect=draw(fl(0.5, 2, 2)), cover=draw(st.sampled_from([1.6, 1.6, 0.7])),
                kind=draw(st.sampled_from(['plane', 'plane', 'flat', 'bump'])), slope=[draw(fl(-0.25, 0.25, 3)), draw(fl(-0.25, 0.25, 3))],
                z0=draw(fl(-0.1, 0.3, 2)), interp=draw(st.sampled_from(['bilinear', 'cubic', 'nearest', 'lanczos', None])),
                istr=draw(st.booleans()), dtype=draw(st.sampled_from(['float32', 'float64'])), num=draw(st.sampled_from([None, 12, 30])),
                seed=draw(gen.seeds()), clip=draw(st.sampled_from([None, True, False])), nan=draw(st.booleans()), up=draw(st.booleans()),
                distort=draw(st.sampled_from([True, True, False])), tower=draw(st.sampled_from([None, None, 1.5, 1.02, 3.0])), shift=draw(SHIFT))


def bilin(z, j, i):
    j0, i0 = np.floor(j).astype(int), np.floor(i).astype(int)
    ok = (j >= 0) & (i >= 0) & (j <= z.shape[1] - 1) & (i <= z.shape[0] - 1)
    j0c, i0c = np.clip(j0, 0, z.shape[1] - 2), np.clip(i0, 0, z.shape[0] - 2)
    fj, fi = j - j0c, i - i0c
    v = (z[i0c, j0c] * (1 - fj) + z[i0c, j0c + 1] * fj) * (1 - fi) + (z[i0c + 1, j0c] * (1 - fj) + z[i0c + 1, j0c + 1] * fj) * fi
    return np.where(ok, v, np.nan)


def check_surf(case, ctx):
    import rasterio as rio
    from orthority.camera import create_camera
    from orthority.enums import Interp
    ip, ep = case['ip'], case['ep']
    if not ref.fov_valid(ip)[0] or not gen.below_horizon(ip, ep, 0.35):
        return None
    w, h = ip['im_size']
    H = ep['xyz'][2]
    e8 = edge_pts(w, h)
    g0 = ref.px_to_world(ip, ep, e8, 0.0)[0]
    cx, cy = g0[0].mean(), g0[1].mean()
    half = case['cover'] * max(np.ptp(g0[0]), np.ptp(g0[1])) / 2 + 1e-3
    if case.get('tower'):
        half *= 1.8
    n = case['n']
    rx, ry = 2 * half / n, 2 * half / n * case['aspect']
    ny = max(6, int(np.ceil(2 * half / ry)))
    # south-up or north-up grids
    tf = rio.Affine(rx, 0, cx - half, 0, -ry, cy + half) if not case['up'] else rio.Affine(rx, 0, cx - half, 0, ry, cy - half)
    jj, ii = np.meshgrid(np.arange(n), np.arange(ny))
    X, Y = tf * (jj + 0.5, ii + 0.5)
    sx, sy = case['slope']
    a0 = case['z0'] * H
    if case['kind'] == 'flat':
        sx = sy = 0.0
    Z = a0 + sx * (X - cx) + sy * (Y - cy)
    # keep the surface below the camera
    over = Z.max() - 0.6 * H
    if over > 0:
        a0 -= over
        Z = Z - over
    if case['kind'] == 'bump':
        rng = np.random.default_rng(case['seed'])
        ph = rng.uniform(0, 6.28, 2)
        Z = Z + 0.03 * half * np.sin(2 * np.pi * (X - cx) / half / 1.5 + ph[0]) * np.cos(2 * np.pi * (Y - cy) / half / 1.5 + ph[1])
        if Z.max() > 0.8 * H:
            return None
    Z = Z.astype(case['dtype'])
    Zt = Z.astype('float64')
    # interpolation error of the surface between its samples
    gz = np.nanmax(np.abs(np.diff(Zt, axis=0))) + np.nanmax(np.abs(np.diff(Zt, axis=1)))
    curv = np.nanmax(np.abs(np.diff(Zt, 2, axis=0))) + np.nanmax(np.abs(np.diff(Zt, 2, axis=1)))
    tower = False
    if case.get('tower'):
        # terrain higher than the camera, away from its rays
        gl = ref.px_to_world(ip, ep, e8, float(Zt.min()))[0]
        bx = [min(gl[0].min(), g0[0].min(), ep['xyz'][0]), max(gl[0].max(), g0[0].max(), ep['xyz'][0])]
        by = [min(gl[1].min(), g0[1].min(), ep['xyz'][1]), max(gl[1].max(), g0[1].max(), ep['xyz'][1])]
        far = (X < bx[0] - 6 * rx) | (X > bx[1] + 6 * rx) | (Y < by[0] - 6 * ry) | (Y > by[1] + 6 * ry)
        tower = bool(far.any())
        Zt[far] = case['tower'] * H
        Z = Zt.astype(case['dtype'])
    if case['nan']:
        Zt = Zt.copy()
        Zt[: max(1, ny // 8)] = np.nan
        Z = Zt.astype(case['dtype'])
    if case.get('shift'):
        ip, ep, dz0 = shifted(case)
        H = ep['xyz'][2]
        Z = (Zt + dz0).astype(case['dtype'])
        Zt = Z.astype('float64')
    cam = create_camera(**gen.camera_kwargs(ip, ep), distort=case['distort'])
    kw = {}
    if case['interp']:
        kw['interp'] = case['interp'] if case['istr'] else Interp(case['interp'])
    if case['clip'] is not None and not tower:
        kw['clip'] = case['clip']
    Zin = Z.copy()
    xyz = cam.world_boundary(Z, num_pts=case['num'], transform=tf, **kw)
    require(np.array_equal(Z, Zin, equal_nan=True), 'world_boundary modified the surface')
    ji = cam.pixel_boundary(num_pts=case['num'])
    require(xyz.shape == (3, ji.shape[1]), 'shape')
    zmin, zmax = np.nanmin(Zt), min(np.nanmax(Zt), H)
    ez = 1e-4 * (1 + abs(zmin) + abs(zmax))
    require(np.all((xyz[2] >= zmin - ez) & (xyz[2] <= zmax + ez)), 'boundary height outside the surface range', got=[xyz[2].min(), xyz[2].max()], rng=[zmin, zmax])
    # each point is on its pixel's ray
    exp = cam.pixel_to_world_z(ji, xyz[2].copy())
    require(np.allclose(exp, xyz, rtol=1e-9, atol=1e-5), 'boundary point is not on the ray of its pixel')
    # ray in terms of surface pixels
    lo, hi = cam.pixel_to_world_z(ji, float(zmin)), cam.pixel_to_world_z(ji, float(zmax))
    inv = ~(tf * rio.Affine.translation(0.5, 0.5))
    nhit = 0
    step_xy = np.maximum(np.abs(lo[0] - hi[0]) / rx, np.abs(lo[1] - hi[1]) / ry)
    steps = np.maximum(np.ceil(step_xy), 1)
    dz = (zmax - zmin) / steps  # largest height step allowed by a sampling at the surface resolution
    tz = ez + curv * 1.5 + 0.05 * gz + (gz if case['interp'] == 'nearest' else 0.0) + (0.06 * gz if case['interp'] in ('cubic', None) else 0) + (0.15 * gz if case['interp'] == 'lanczos' else 0)
    for k in range(ji.shape[1]):
        t = np.linspace(0, 1, 200)
        r = hi[:, [k]] + (lo[:, [k]] - hi[:, [k]]) * t
        sj, si = inv * (r[0], r[1])
        s = bilin(Zt, sj, si)
        P = xyz[:, k]
        pj, pi = inv * (P[0], P[1])
        sP = bilin(Zt, np.array([pj]), np.array([pi]))[0]
        margin = 4
        allin = np.all((sj >= margin) & (sj <= n - 1 - margin) & (si >= margin) & (si <= ny - 1 - margin)) and not np.isnan(s).any()
        allout = np.all((sj < -1) | (sj > n) | (si < -1) | (si > ny))
        if case['nan'] and allin:
            i_ok = ny // 8 + 5
            allin = np.all(si > i_ok)
        if allout:
            require(abs(P[2] - zmin) <= ez, 'ray outside the surface is not given at the surface minimum', got=P[2], zmin=zmin)
        elif allin:
            nhit += 1
            # at or below the surface at the returned point
            require(P[2] <= sP + tz, 'returned point is above the surface', z=P[2], surf=sP, tol=tz)
            # above the surface everywhere before it (by more than one sampling step)
            before = r[2] > P[2] + dz[k] * 1.01 + ez
            require(np.all(r[2][before] >= s[before] - tz), 'an earlier intersection with the surface was missed',
                    by=(s[before] - r[2][before]).max() if before.any() else None, tol=tz, dz=dz[k])
            if case['kind'] in ('plane', 'flat'):
                # exact intersection
                d0, d1 = r[2][0] - s[0], r[2][-1] - s[-1]
                if d0 > 0 > d1:
                    zi = r[2][0] + (r[2][-1] - r[2][0]) * d0 / (d0 - d1)
                    require(zi + tz + ez >= P[2] >= zi - dz[k] * 1.01 - 3 * tz - ez, 'intersection with the plane is inaccurate', z=P[2], exact=zi, dz=dz[k], tz=tz)
    if not nhit:
        return None
    return [case['kind'], 'interp-' + str(case['interp'])] + (['partial'] if case['cover'] < 1 else []) + (['tower'] if tower else [])


@st.composite
def case_err(draw):
    c = draw(case_surf())
    c['what'] = draw(st.sampled_from(['high', 'notransform', 'ndim', 'rpc']))
    c['r'] = draw(gen.rpc())
    c['zr'] = draw(fl(-0.5, 0.5, 2))
    return c


def check_err(case, ctx):
    """Documented errors; RPC camera boundaries at a height."""
    import rasterio as rio
    from orthority.camera import RpcCamera, create_camera
    ip, ep, dz = shifted(case)
    if case['what'] == 'rpc':
        r = case['r']
        w, h = r['im_size']
        if max(w, h) > 4 * min(w, h):
            return None  # a short side may be given no points of its own
        cam = RpcCamera(tuple(r['im_size']), r['rpc'])
        ji = cam.pixel_boundary(num_pts=case['num'])
        check_polygon(ji, *r['im_size'], case['num'])
        z = r['rpc']['height_off'] + case['zr'] * r['rpc']['height_scale']
        xyz = cam.world_boundary(z, num_pts=case['num'])
        require(np.allclose(xyz[2], z, atol=1e-6), 'RPC boundary height')
        err = np.abs(ref.rpc_project(r['rpc'], xyz) - ji).max()
        require(err < 0.25, 'RPC world boundary does not project back to the image edge', err=err)
        return 'rpc'
    if not ref.fov_valid(ip)[0] or not gen.below_horizon(ip, ep, 0.3):
        return None
    cam = create_camera(**gen.camera_kwargs(ip, ep))
    x, y, H = ep['xyz']
    tf = rio.Affine(10, 0, x - 100, 0, -10, y + 100)
    Z = np.full((20, 20), H + 10 if case['what'] == 'high' else dz, dtype='float32')
    try:
        if case['what'] == 'notransform':
            cam.world_boundary(Z)
        elif case['what'] == 'ndim':
            cam.world_boundary(Z[None], transform=tf)
        else:
            cam.world_boundary(Z, transform=tf)
    except ValueError:
        return case['what']
    raise Violation(f"world_boundary accepted invalid input: {case['what']}")


SUBS = [
    Sub('pixel_and_z', case_pix, check_pix, 3000, 60000, 'random camera, number of points, height, clip, distortion mode; non-trivial = field of view is below the horizon (then polygon, height and projection predicates are all evaluated)'),
    Sub('surface', case_surf, check_surf, 1600, 40000, 'random camera, plane/flat/bumpy surface, north/south-up grid, partial coverage, NaN strip; non-trivial = at least one boundary ray is inside the surface over its height range and its intersection is checked'),
    Sub('horizon', case_horizon, check_horizon, 1200, 20000, 'random orientation; non-trivial = the steepest boundary ray is at least 0.005 (cosine) away from the horizon'),
    Sub('errors_rpc', case_err, check_err, 600, 10000, 'invalid surfaces, and RPC boundaries; non-trivial = the call is made'),
]
