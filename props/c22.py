"""C22: fitting of frame camera exterior parameters to GCPs."""
import math
import warnings
from copy import deepcopy
import cv2
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import below_horizon, exterior, fl, interior, seeds
from harness import pio, ref
from orthority.fit import fit_frame_exterior

CRSS = {'EPSG:32735': (5e5, 6.3e6), 'EPSG:2193': (1.6e6, 5.4e6), 'EPSG:3857': (2.6e6, -3.9e6), 'EPSG:32735+5773': (5e5, 6.3e6), '+proj=tmerc +lat_0=-33 +lon_0=25 +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=m': (0., 0.)}


@st.composite
def case_fit(draw):
    ip = draw(interior(sizes=st.tuples(st.integers(200, 6000), st.integers(200, 6000)), f_lo=0.5))
    crs = draw(st.sampled_from([None, None, *CRSS]))
    ims = {}
    for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
        for _ in range(8):
            ep = draw(exterior(max_tilt=draw(st.sampled_from([0.05, 0.4, 0.7])), alt=(200, 3000), xy=800))
            if below_horizon(ip, ep, 0.25):
                break
        else:
            ep['opk'][:2] = [0., 0.]
            ip['focal_len'] = [3 * f for f in ip['focal_len']] if isinstance(ip['focal_len'], list) else 3 * ip['focal_len']
        ims[f'im{k}.tif'] = dict(ep=ep, n=draw(st.sampled_from([3, 4, 5, 6, 8, 8, 12, 30])))
    return dict(ip=ip, ims=ims, crs=crs, seed=draw(seeds()), relief=draw(st.sampled_from([0., 0.05, 0.2])), cams=draw(st.sampled_from([1, 1, 2])), order=draw(st.booleans()), obj=draw(st.booleans()))


def gcps_of(case, name, rng):
    """GCPs spread over the image."""
    ip, im = case['ip'], case['ims'][name]
    ep = im['ep']
    w, h = ip['im_size']
    n = im['n']
    s = math.ceil(math.sqrt(n))
    cells = np.array([(a, b) for a in range(s) for b in range(s)])
    # (corners first)
    cells = cells[np.argsort(-np.abs(cells - (s - 1) / 2).sum(axis=1), kind='stable')][:n]
    ji = (0.05 + 0.9 * (cells + rng.uniform(0.1, 0.9, cells.shape)) / s) * (w - 1, h - 1)
    alt = ep['xyz'][2]
    z = rng.uniform(-1, 1, n) * case['relief'] * alt
    u, v, ok = ref.px_to_cam(ip, ji.T)
    if not np.all(ok):
        return None
    d = ref.cv_R(ep['opk']) @ np.array([u, v, np.ones(n)])
    t = (z - alt) / d[2]
    if np.any(d[2] > -1e-3):
        return None
    xyz = np.array(ep['xyz'])[:, None] + d * t
    return ji, xyz


def check_fit(case, ctx):
    ip = case['ip']
    rng = np.random.default_rng(case['seed'])
    gcps, true = {}, {}
    off = np.array([*CRSS[case['crs']], 100.]) if case['crs'] else np.array([3e5, 6e6, 50.])
    for name, im in case['ims'].items():
        g = gcps_of(case, name, rng)
        if g is None:
            return None
        ji, xyz = g
        xyz = xyz + off[:, None]
        pos = np.array(im['ep']['xyz']) + off
        if case['crs']:
            lla = np.array(transform(case['crs'], 'EPSG:4979', *xyz))
            if not np.all(np.isfinite(lla)):
                return None
        gcps[name] = [dict(ji=tuple(a), xyz=tuple(b), id=str(k), info=None) for k, (a, b) in enumerate(zip(ji.tolist(), (lla if case['crs'] else xyz).T.tolist()))]
        true[name] = (pos, xyz, ji)
    ints = {'cam x': pio.to_int(ip)}
    if case['cams'] == 2:
        ints['other'] = dict(cam_type='pinhole', im_size=(10, 10), focal_len=1.)
    before = deepcopy((ints, gcps))
    crs = rio.CRS.from_string(case['crs']) if case['crs'] and case['obj'] else case['crs']
    perm = {k: [g[i] for i in rng.permutation(len(g))] for k, g in (reversed(gcps.items()) if case['order'] else gcps.items())}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = fit_frame_exterior(ints, gcps, crs=crs)
            out2 = fit_frame_exterior(ints, perm, crs=crs)
    except cv2.error:
        # (OpenCV need not find a solution for less than 6 GCPs)
        if any(im['n'] < 6 for im in case['ims'].values()):
            return None
        raise
    require((ints, gcps) == before, "the caller's parameters were changed")
    require(set(out) == set(gcps), 'images', got=list(out))
    labels = {ip['cam_type'], 'crs' if case['crs'] else 'world', f'images{len(gcps)}'}
    for name, (pos, xyz, ji) in true.items():
        e, im = out[name], case['ims'][name]
        require(e['camera'] == 'cam x', 'camera ID', got=e['camera'])
        # world coordinates about the position, for accuracy
        ep = dict(xyz=list(np.array(e['xyz']) - off), opk=list(e['opk']))
        px = ref.project(ip, ep, xyz - off[:, None])
        err = np.hypot(*(px - ji.T)).max()
        f = max(ref.focal_px(ip))
        size = max(ip['im_size'])
        dist = np.linalg.norm(xyz - pos[:, None], axis=0)
        # pixels and (offset) world coordinates are fitted with 32 bit accuracy
        span = max(np.abs(xyz - np.mean(np.hstack([t[1] for t in true.values()]), axis=1)[:, None]).max(), 1.)
        ptol = 20 * (size * 6e-8 + f * span * 6e-8 / dist.min()) + (0.5 if len(gcps) > 1 or im['n'] < 8 else 0.05) + 4 * ref.fp_undistort_err(ip, ji.T).max()
        require(im['n'] < 6 or err < ptol, 'GCPs do not project to their pixels with the fitted exterior', err=err, tol=ptol, n=im['n'], image=name, got=e, true=(pos, im['ep']['opk']))
        if im['n'] >= 6:
            rel = np.linalg.norm(np.array(e['xyz']) - pos) / dist.max()
            R, T = ref.opk_to_R(e['opk']), ref.opk_to_R(im['ep']['opk'])
            fov = np.ptp(ji, axis=0).min() / f
            tol = 50 * ptol / f / min(fov, 1) ** 2 + 1e-5
            if tol < 0.05:
                require(rel < tol, 'position', rel=rel, tol=tol, got=e['xyz'], exp=pos, image=name)
                require(np.abs(R - T).max() < tol, 'orientation', err=np.abs(R - T).max(), tol=tol, got=e['opk'], exp=im['ep']['opk'], image=name)
                labels.add('pose')
            o = out2[name]
            require(np.linalg.norm(np.array(o['xyz']) - e['xyz']) / dist.max() < max(tol, 1e-4), 'result depends on the order of GCPs', a=o['xyz'], b=e['xyz'])
        labels.add(f'n{im["n"]}')
    # too few GCPs
    for n in (0, 2):
        bad = dict(gcps)
        bad[name] = gcps[name][:n]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fit_frame_exterior(ints, bad, crs=crs)
        except ValueError:
            continue
        require(False, 'too few GCPs were accepted', n=n)
    return sorted(labels)


SUBS = [
    Sub('exterior', case_fit, check_fit, 2000, 40000, 'random cameras, poses and exact GCPs over the image; the fitted exterior must project the GCPs to their pixels, and equal the true pose (6 or more GCPs); non-trivial = fit compared'),
]
ASSUMPTIONS = ['GCPs are spread over the image', 'GCPs are fitted with 32 bit pixel and offset world coordinates']
