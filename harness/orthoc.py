"""Ortho scenarios: source image whose bands encode pixel position, camera, analytic terrain and DEM."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import gen, imgs, ref
from harness.gen import fl

CRSS = {
    'utm35s': ('EPSG:32735', [(5e5, 6.2e6), (2.5e5, 7.9e6)]),
    'utm33n': ('EPSG:32633', [(5e5, 5.2e6), (7e5, 1e5)]),
    'lo19': ('+proj=tmerc +lat_0=0 +lon_0=19 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +no_defs', [(-5e4, -3.7e6), (2e4, -3.2e6)]),
    'laea': ('EPSG:3035', [(4.3e6, 3.2e6)]),
}
# CRSs with a vertical component (both m and ft)
VCRSS = {
    'utm35s_egm96': ('EPSG:32735+5773', [(5e5, 6.2e6)]),
    'utm35s_ell': ('EPSG:32735+4326', [(5e5, 6.2e6), (2.5e5, 7.9e6)]),
    'utm33n_egm96': ('EPSG:32633+5773', [(5e5, 5.2e6)]),
    'utmft': ('+proj=utm +zone=35 +south +datum=WGS84 +units=ft +vunits=ft +no_defs', [(1.64e6, 2.034e7)]),
}
ALLCRSS = dict(CRSS, **VCRSS)


@st.composite
def terrain(draw, kinds=('flat', 'plane', 'waves'), slope=0.12, deep=False):
    k = draw(st.sampled_from(kinds))
    t = dict(kind=k, z0=draw(st.one_of(fl(-90, 300, 1), fl(300, 3000, 0)) if deep is False else st.one_of(fl(-430, 300, 1), fl(300, 3000, 0))))
    if k != 'flat':
        t['slope'] = [draw(fl(-slope, slope, 3)), draw(fl(-slope, slope, 3))]
    if k == 'waves':
        t['amp'] = draw(fl(0.0, 0.012, 4))
        t['ph'] = [draw(fl(0, 6.2, 2)), draw(fl(0, 6.2, 2))]
    return t


@st.composite
def scenario(draw, cams=('frame', 'frame', 'frame', 'rpc'), lo=24, hi=80, tilt=0.35, kinds=('flat', 'plane', 'waves'), dem_crs=('same', 'same', 'geo'),
             strength=0.6, types=gen.TYPES, distort=(True, True, False), bands=None, dtypes=('float32', 'uint16'), crss=None, deep=False, oblique=(False,)):
    cam = draw(st.sampled_from(cams))
    size = draw(st.tuples(st.integers(lo, hi), st.integers(lo, hi)))
    obl = cam == 'frame' and draw(st.sampled_from(oblique))
    c = dict(cam=cam, ter=draw(terrain(kinds=('plane',) if obl else kinds, slope=0.25 if obl else 0.12, deep=deep)))
    if cam == 'frame':
        di = draw(st.sampled_from(distort))
        if not di:
            size = (size[0] + 40, size[1] + 40)
        ip = draw(gen.interior(types=types, sizes=st.just(size), strength=strength, f_lo=1.6 if obl else 0.8, f_hi=3.0 if obl else 2.2))
        key = draw(st.sampled_from(crss or sorted(CRSS)))
        xy = draw(st.sampled_from(ALLCRSS[key][1]))
        ep = draw(gen.exterior(max_tilt=tilt, xy=1e3, alt=(80, 2000)))
        if obl:
            # oblique view with the camera nadir outside the image, and steeper terrain
            k = draw(st.sampled_from([0, 1]))
            ep['opk'][k] = draw(fl(0.45, 0.85, 3)) * draw(st.sampled_from([-1, 1]))
            ep['opk'][1 - k] = draw(fl(-0.1, 0.1, 3))
        ep['xyz'] = [xy[0] + ep['xyz'][0], xy[1] + ep['xyz'][1], ep['xyz'][2]]
        c.update(ip=ip, ep=gen.level(ip, ep, 0.45), crs=key, distort=di, alpha=draw(st.sampled_from([0.0, 0.5, 1.0])))
    else:
        c.update(rpc=tame_rpc(draw(gen.rpc(size=size))), distort=True, alpha=1.0)
    c.update(
        dem_n=draw(st.integers(50, 110) if obl else st.integers(8, 40)), dem_asp=draw(st.sampled_from([1.0, 1.0, 0.7, 1.4])), dem_cover=draw(st.sampled_from([1.3, 1.6, 3.0])),
        dem_off=[draw(fl(0, 1, 2)), draw(fl(0, 1, 2))], dem_crs=draw(st.sampled_from(dem_crs)),
        dtype=draw(st.sampled_from(dtypes)), bands=bands or draw(st.integers(2, 4)), seed=draw(gen.seeds()),
    )
    return c


def tame_rpc(r):
    """RPC which stays well behaved for heights far outside its range."""
    rp = dict(r['rpc'])
    for k in ('line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff'):
        c = list(rp[k])
        for n in range(1 if 'den' in k else 4, 20):
            c[n] = round(c[n] * (0.2 if n in (1, 2, 4, 7, 8) else 1e-4), 12)
        if 'num' in k:
            c[3] = round(c[3] * 0.5, 9)
        rp[k] = c
    rp['long_off'] = max(min(rp['long_off'], 170), -170)
    rp['lat_off'] = max(min(rp['lat_off'], 60), -60)
    return dict(im_size=r['im_size'], rpc=rp)


class Scene:
    pass


def build(case, d, enc=True):
    """Create files for case in directory d.  Returns a Scene."""
    import rasterio as rio
    from rasterio.warp import transform as warp, transform_bounds
    s = Scene()
    s.case = case
    ter = case['ter']
    if case['cam'] == 'frame':
        ip, ep = case['ip'], {k: list(v) for k, v in case['ep'].items()}
        if not ref.fov_valid(ip)[0] or not gen.below_horizon(ip, ep, case.get('horizon', 0.35) - 1e-6):
            return None
        ep['xyz'][2] += ter['z0']  # camera height is above the terrain
        s.ip, s.ep = ip, ep
        s.crs = ALLCRSS[case['crs']][0]
        w, h = ip['im_size']
        s.agl = case['ep']['xyz'][2]

        def unproject(ji, z):
            return ref.px_to_world(ip, ep, ji, z)[0]
        s.project = lambda xyz: ref.project(ip, ep, xyz)
    else:
        rp = case['rpc']['rpc']
        w, h = case['rpc']['im_size']
        s.rp = rp
        s.crs = f"EPSG:{gen.utm_epsg(rp['lat_off'], rp['long_off'])}"

        def proj(xyz):
            g = np.array(warp(s.crs, 'EPSG:4979', *np.asarray(xyz, float)))
            return ref.rpc_project(rp, g)
        s.project = proj
        from orthority.camera import RpcCamera
        cam = RpcCamera((w, h), rp, crs=s.crs)

        def unproject(ji, z):
            ji = np.asarray(ji, float)
            return cam.pixel_to_world_z(ji, np.broadcast_to(np.asarray(z, float), (ji.shape[1],)).copy())
    s.size = (w, h)
    s.unproject = unproject
    e = np.array([[0, w - 1, w - 1, 0], [0, 0, h - 1, h - 1]], float)
    g = unproject(e, ter['z0'])
    x0, y0 = g[0].mean(), g[1].mean()
    s.half = max(np.ptp(g[0]), np.ptp(g[1])) / 2
    s.gsd = math.sqrt(abs(0.5 * (np.dot(g[0] - x0, np.roll(g[1] - y0, -1)) - np.dot(np.roll(g[0] - x0, -1), g[1] - y0))) / ((w - 1) * (h - 1)))
    sx, sy = ter.get('slope', [0, 0])
    amp = ter.get('amp', 0) * s.half
    ph = ter.get('ph', [0, 0])
    wl = s.half * 1.2

    def zfun(x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        # (limit the extent of slopes, so that heights stay in the range of the footprint)
        fx, fy = np.clip(x - x0, -3 * s.half, 3 * s.half), np.clip(y - y0, -3 * s.half, 3 * s.half)
        z = ter['z0'] + sx * fx + sy * fy
        if amp:
            z = z + amp * (np.sin(2 * np.pi * fx / wl + ph[0]) + np.sin(2 * np.pi * fy / wl + ph[1]))
        return z
    s.zfun, s.x0, s.y0 = zfun, x0, y0
    s.curv = amp * (2 * np.pi / wl) ** 2
    # relief must be below the camera
    if case['cam'] == 'frame':
        q = np.linspace(-3 * s.half, 3 * s.half, 25)
        xx, yy = np.meshgrid(x0 + q, y0 + q)
        if zfun(xx, yy).max() > ep['xyz'][2] - 0.4 * s.agl:
            return None
    # footprint on the terrain
    t = np.linspace(0, 1, 17)
    ed = np.concatenate([np.array([t * (w - 1), 0 * t]), np.array([t * (w - 1), 0 * t + h - 1]), np.array([0 * t, t * (h - 1)]), np.array([0 * t + w - 1, t * (h - 1)])], axis=1)
    s.foot = ground(s, ed)
    s.d = d
    # source image
    s.src = d / 'src.tif'
    s.sc, s.off = (1.0, 200.0) if case['dtype'].startswith('float') else (200.0, 17000.0)
    jj, ii = np.meshgrid(np.arange(w), np.arange(h))
    b = [jj, ii, (jj + ii) / 2, (jj - ii) / 2][: case['bands']]
    if enc:
        s.src_array = np.array([k * s.sc + s.off for k in b]).astype(case['dtype'])
        imgs.write_tif(s.src, s.src_array)
    # DEM
    s.dem = d / 'dem.tif'
    s.dem_profile, s.dem_array = make_dem(s, case)
    imgs.write_tif(s.dem, s.dem_array, **s.dem_profile)
    return s


def make_dem(s, case, crs=None, cover=None, n=None, grid_off=None):
    """DEM of the terrain of s: (profile, array)."""
    import rasterio as rio
    from rasterio.warp import transform as warp, transform_bounds
    kind = crs or case['dem_crs']
    cover = cover or case['dem_cover']
    n = n or case['dem_n']
    xs, ys = s.foot[0], s.foot[1]
    ext = 1.0 * max(np.ptp(xs), np.ptp(ys))
    res = ext * 1.3 / n
    rx, ry = res, res * case['dem_asp']
    # margin beyond the footprint of at least 4 DEM pixels, and for the difference in footprints of extreme heights
    m = (cover - 1) * ext / 2 + 6 * max(rx, ry)
    b = [xs.min() - m, ys.min() - m, xs.max() + m, ys.max() + m]
    dst = dict(same=s.crs, geo='EPSG:4326', merc='EPSG:3857').get(kind, kind)
    if dst != s.crs:
        b2 = transform_bounds(s.crs, dst, *b, densify_pts=21)
        kx, ky = (b2[2] - b2[0]) / (b[2] - b[0]), (b2[3] - b2[1]) / (b[3] - b[1])
        rx, ry = rx * kx, ry * ky
        b = b2
    o = grid_off or case['dem_off']
    left = math.floor(b[0] / rx) * rx - o[0] * rx
    top = math.ceil(b[3] / ry) * ry + o[1] * ry
    nx, ny = int(math.ceil((b[2] - left) / rx)) + 1, int(math.ceil((top - b[1]) / ry)) + 1
    tf = rio.Affine(rx, 0, left, 0, -ry, top)
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    X, Y = tf * (jj + 0.5, ii + 0.5)
    if dst != s.crs:
        # ortho CRS positions of the DEM pixels, and the DEM CRS heights of the terrain there
        X, Y = [np.array(a).reshape(jj.shape) for a in warp(dst, s.crs, X.ravel(), Y.ravel())]
        Z = np.array(warp(s.crs, dst, X.ravel(), Y.ravel(), s.zfun(X, Y).ravel())[2]).reshape(jj.shape)
    else:
        Z = s.zfun(X, Y)
    s.dem_xy = X, Y
    Z = Z.astype('float32')
    s.dem_res = res * max(1, case['dem_asp'])
    return dict(crs=dst, transform=tf, nodata=float('nan')), Z


def ground(s, ji):
    """Ground points (3, N) of pixels ji on the terrain."""
    ji = np.asarray(ji, float)
    z = np.full(ji.shape[1], float(s.case['ter']['z0']))
    for _ in range(40):
        g = s.unproject(ji, z)
        z = s.zfun(g[0], g[1])
    return np.array([g[0], g[1], z])


def camera(s, distort=None, alpha=None):
    from orthority.camera import RpcCamera, create_camera
    c = s.case
    if c['cam'] == 'rpc':
        return RpcCamera(tuple(c['rpc']['im_size']), s.rp, crs=s.crs)
    return create_camera(**gen.camera_kwargs(s.ip, s.ep), distort=c['distort'] if distort is None else distort, alpha=c['alpha'] if alpha is None else alpha)


def read(path, nodata_from_mask=False):
    import rasterio as rio
    with rio.open(path) as im:
        return im.read(), im.dataset_mask() > 0, im.transform, im.profile
