"""C05: undistorted images and undistorted projections agree."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, imgs, ref
from harness.engine import Sub, require
from harness.gen import fl

MARGIN = dict(nearest=0.5, bilinear=1, average=1, cubic=2, lanczos=4)
TOL = dict(nearest=0.56, bilinear=0.03, average=0.03, cubic=0.08, lanczos=0.15)


@st.composite
def case_und(draw):
    ip = draw(gen.interior(types=['brown', 'opencv', 'fisheye', 'brown', 'opencv', 'fisheye', 'pinhole'], strength=0.8,
                           sizes=st.tuples(st.integers(12, 70), st.integers(12, 70))))
    ep = gen.level(ip, draw(gen.exterior(max_tilt=0.5, xy=1e4, alt=(50, 1000))))
    return dict(ip=ip, ep=ep, alpha=draw(st.one_of(st.sampled_from([0.0, 1.0]), fl(0, 1, 2))),
                interp=draw(st.sampled_from(['bilinear', 'cubic', 'nearest', 'lanczos', 'average'])),
                dtype=draw(st.sampled_from(['float32', 'float64', 'uint16', 'int16'])), set_after=draw(st.booleans()),
                nodata=draw(st.sampled_from([None, 'other', 0, -5])), idx=draw(st.sampled_from([None, [1], [2, 1], 2])),
                rdtype=draw(st.sampled_from([None, None, 'float32', 'float64', 'uint16'])), how=draw(st.sampled_from(['path', 'str', 'ds', 'ofile'])))


def check_und(case, ctx):
    from orthority.camera import create_camera
    ip, ep = case['ip'], case['ep']
    ok, _ = ref.fov_valid(ip)
    if not ok:
        return None
    w, h = ip['im_size']
    jj, ii = np.meshgrid(np.arange(w), np.arange(h))
    sc, off = (1.0, 1000.0) if case['dtype'].startswith('float') else (100.0, 1000.0)
    src = np.array([jj * sc + off, ii * sc + off]).astype(case['dtype'])
    f = imgs.write_tif(ctx.tmp() / 'im.tif', src)
    kw = gen.camera_kwargs(ip, ep)
    if case['set_after']:
        cam = create_camera(**kw)
        cam.distort = False
        cam.alpha = case['alpha']
    else:
        cam = create_camera(**kw, distort=False, alpha=case['alpha'])
    rd = case['rdtype'] or case['dtype']
    nd_def = dict(uint16=0, int16=-32768, float32=np.nan, float64=np.nan)[rd]
    nd = nd_def if case['nodata'] is None else case['nodata'] if case['nodata'] == 0 or (case['nodata'] == -5 and rd != 'uint16') else 7
    rkw = {} if case['nodata'] is None else dict(nodata=nd)
    idx = case['idx']
    if case['rdtype']:
        rkw['dtype'] = case['rdtype']
    if idx is not None:
        rkw['indexes'] = idx
    und = imgs.via(f, case['how'], lambda im: cam.read(im, interp=case['interp'], **rkw))
    bands = [1, 2] if idx is None else ([idx] if np.isscalar(idx) else idx)
    require(und.shape == (len(bands), h, w) and str(und.dtype) == rd, 'undistorted image shape or type', shape=und.shape, dtype=und.dtype)
    full = create_camera(**kw, distort=True)
    rkw.pop('nodata', None)
    got = imgs.via(f, case['how'], lambda im: full.read(im, **rkw))
    require(str(got.dtype) == rd and np.array_equal(got, src[[b - 1 for b in bands]].astype(rd)), 'read with distortion included does not give the requested bands and type', dtype=got.dtype)
    require(np.array_equal(full.read(f), src), 'read with distortion included changed the image')
    if ip['cam_type'] == 'pinhole':
        require(np.array_equal(und, src[[b - 1 for b in bands]]), 'pinhole read is affected by distort=False')
        g = ref.px_to_world(ip, ep, np.array([[0.0, w - 1, 3], [0.0, h - 1, 2]]), 0.0)[0]
        require(np.allclose(cam.world_to_pixel(g), full.world_to_pixel(g), atol=1e-9), 'pinhole projection is affected by distort=False')
        return 'pinhole'
    # camera rays of the undistorted pixels, from the undistorted projection of world points
    ji = np.array([jj.ravel(), ii.ravel()], dtype='float64')
    xyz = cam.pixel_to_world_z(ji, 0.0)
    c = ref.world_to_cam(ep, xyz)
    u, v = c[0] / c[2], c[1] / c[2]
    back = cam.world_to_pixel(xyz)
    require(np.abs(back - ji).max() < 1e-4, 'undistorted projection round trip', err=np.abs(back - ji).max())
    # rays outside the domain where the model is invertible can fold back into the image
    _, box = ref.fov_valid(ip)
    rmax = 1.05 * max(abs(b) for b in box) * np.sqrt(2)
    pu = np.array(ref.cam_to_px(ip, u, v))
    uu, vv, inv_ok = ref.px_to_cam(ip, pu)
    dom = inv_ok & (np.hypot(uu - u, vv - v) < 1e-6) & (u >= box[0] - 0.5) & (u <= box[2] + 0.5) & (v >= box[1] - 0.5) & (v <= box[3] + 0.5) & (c[2] > 0)
    pu = pu.reshape(2, h, w)
    dom = dom.reshape(h, w)
    m = MARGIN[case['interp']]
    size = np.array([w, h]).reshape(2, 1, 1)
    inside = np.all((pu >= m) & (pu <= size - 1 - m), axis=0) & dom
    outside = np.any((pu < -1) | (pu > size), axis=0) & dom
    isnd = np.isnan(und) if (isinstance(nd, float) and np.isnan(nd)) else (und == nd)
    require(not (isnd[:, inside]).any(), 'undistorted pixel with source content is nodata', n=int(isnd[:, inside].sum()))
    require(isnd[:, outside].all(), 'undistorted pixel without source content is not nodata', n=int((~isnd[:, outside]).sum()))
    tol = TOL[case['interp']] * sc + (1.0 if rd.endswith('int16') else 0)
    for k, b in enumerate(bands):
        got = und[k].astype('float64')
        err = np.abs(got - (pu[b - 1] * sc + off))[inside]
        if err.size:
            require(err.max() <= tol + 1e-4 * abs(off), 'undistorted image content is displaced', err_px=err.max() / sc, band=b, tol_px=tol / sc)
    # alpha
    labels = [ip['cam_type'], case['interp']]
    if case['alpha'] in (0.0, 1.0):
        # axis aligned inner / outer rectangle (in normalised coords) of the undistorted source edges
        t = np.linspace(0, 1, 65)
        sides = [np.array([0 * t, t * (h - 1)]), np.array([t * (w - 1), 0 * t]), np.array([0 * t + w - 1, t * (h - 1)]), np.array([t * (w - 1), 0 * t + h - 1])]
        uv = [np.array(ref.px_to_cam(ip, e)[:2]) for e in sides]
        def rect(k):
            if case['alpha'] == 1.0:
                al = np.concatenate([a[:, ::k] for a in uv], axis=1)
                return al.min(axis=1), al.max(axis=1)
            return np.array([uv[0][0][::k].max(), uv[1][1][::k].max()]), np.array([uv[2][0][::k].min(), uv[3][1][::k].min()])
        ul, br = rect(1)
        # (the edges are sampled at 9 points)
        dev = max(float(np.max(np.abs(a - b) / (br - ul))) for a, b in zip(rect(8), (ul, br)))
        fp = max(ref.fp_undistort_err(ip, e).max() for e in sides)
        if fp < 0.01 * min(w, h) and np.all(br - ul > 0.25 * (np.array(box[2:]) - box[:2])):
            R, T = ref.cv_R(ep['opk']), np.array(ep['xyz']).reshape(3, 1)
            pj = cam.world_to_pixel(R @ (np.array([[ul[0], br[0]], [ul[1], br[1]], [1, 1]]) * 50) + T)
            exp = np.array([[0, w - 1], [0, h - 1]])
            e = np.abs(pj - exp) / np.array([[w - 1], [h - 1]])
            require(e.max() < min(1.1 * dev + 3 * fp / (min(w, h) - 1) + 0.004, 0.06), f"alpha={case['alpha']} does not fit the {'outer' if case['alpha'] else 'inner'} rectangle of the source", got=pj.tolist(), exp=exp.tolist())
            labels.append('alpha%d' % case['alpha'])
            if case['alpha'] == 0.0:
                # where the inner rectangle really is inside the source, all pixels are valid
                fu, fv = np.meshgrid(np.linspace(ul[0], br[0], 33), np.linspace(ul[1], br[1], 33))
                q = ref.cam_to_px(ip, fu.ravel(), fv.ravel())
                if q.min() > -0.1 and (q[0].max() < w - 0.9) and (q[1].max() < h - 0.9):
                    bad = np.any((pu < -0.06 * size - 0.5) | (pu > size - 1 + 0.06 * size + 0.5), axis=0) & dom
                    require(not bad.any(), 'alpha=0 includes invalid pixels', n=int(bad.sum()))
                    labels.append('alpha0-valid')
            else:
                require(np.all([(cam.world_to_pixel(R @ (np.vstack([e_, np.ones(65)]) * 50) + T) > -0.06 * size[:, :, 0] - 0.5).all() for e_ in uv]), 'alpha=1 cuts source pixels off')
    else:
        labels.append('alpha-mid')
    if inside.any():
        return labels
    return None


@st.composite
def case_alpha(draw):
    c = draw(case_und())
    c['a'] = sorted([draw(fl(0, 1, 2)), draw(fl(0, 1, 2))])
    return c


def check_alpha(case, ctx):
    """alpha interpolates linearly (in the intrinsics) between its extremes: scale is monotone."""
    from orthority.camera import create_camera
    ip, ep = case['ip'], case['ep']
    if not ref.fov_valid(ip)[0] or ip['cam_type'] == 'pinhole':
        return None
    kw = gen.camera_kwargs(ip, ep)
    w, h = ip['im_size']
    R, T = ref.cv_R(ep['opk']), np.array(ep['xyz']).reshape(3, 1)
    pts = R @ (np.array([[0, 0.1, 0], [0, 0, 0.1], [1, 1, 1.0]]) * 100) + T

    def intrin(a):
        p = create_camera(**kw, distort=False, alpha=a).world_to_pixel(pts)
        return np.array([p[0, 0], p[1, 0], (p[0, 1] - p[0, 0]) * 10, (p[1, 2] - p[1, 0]) * 10])
    k0, k1 = intrin(0.0), intrin(1.0)
    for a in case['a']:
        k = intrin(a)
        exp = k0 * (1 - a) + k1 * a
        require(np.allclose(k, exp, rtol=1e-6, atol=1e-4), 'alpha does not scale between its extremes', got=k.tolist(), exp=exp.tolist(), alpha=a)
    require(np.all(k1[2:] <= k0[2:] * (1 + 1e-6)), 'alpha=1 has a larger scale than alpha=0', k0=k0.tolist(), k1=k1.tolist())
    return ip['cam_type']


SUBS = [
    Sub('undistort', case_und, check_und, 5000, 60000,
        'random distorting camera, alpha, interpolation, dtype; source bands encode their own pixel coordinates; every undistorted pixel is compared with the reference projection of its ray; non-trivial = at least one interior pixel compared'),
    Sub('alpha_scale', case_alpha, check_alpha, 800, 10000, 'random camera and alphas; non-trivial = camera has a distortion model'),
]
