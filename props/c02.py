"""C02: frame camera pixel and world projections are mutual inverses."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, ref
from harness.engine import Sub, require
from harness.gen import fl


@st.composite
def case_inv(draw):
    ip = draw(gen.interior())
    any_angle = draw(st.booleans())
    ep = draw(gen.exterior(any_angle=any_angle, max_tilt=1.0, xy=draw(st.sampled_from([10.0, 1e4, 5e6]))))
    if not any_angle:
        ep = gen.level(ip, ep, 0.1)
    n = draw(st.integers(1, 6))
    pts = draw(st.lists(st.tuples(fl(0, 1, 4), fl(0, 1, 4)), min_size=n, max_size=n))
    zs = draw(st.lists(fl(-500, 4000, 2), min_size=n, max_size=n))
    return dict(ip=ip, ep=ep, pts=pts, zs=zs, mode=draw(st.sampled_from(['NN', 'N1', 'Ns', '1N', '11'])),
                distort=draw(st.sampled_from([True, True, False])), alpha=draw(st.sampled_from([0.0, 0.5, 1.0])),
                dtype=draw(st.sampled_from(['float64', 'float64', 'float32', 'int'])),
                nan=draw(st.sampled_from([None, None, 'j', 'i', 'z'])), order=draw(st.sampled_from(['C', 'F', 'view'])))


def check_inv(case, ctx):
    from orthority.camera import create_camera
    ip, ep = case['ip'], case['ep']
    ok, box = ref.fov_valid(ip)
    if not ok:
        return None
    w, h = ip['im_size']
    ji = np.array(case['pts']).T * [[w - 1], [h - 1]]
    z = np.array(case['zs'])
    mode = case['mode']
    if mode in ('1N', '11'):
        ji = ji[:, :1]
    if mode in ('N1', '11'):
        z = z[:1]
    if mode == 'Ns':
        z = float(z[0])
    dt = case['dtype']
    if dt == 'int':
        ji = np.round(ji).astype('int64')
    else:
        ji = ji.astype(dt)
    nan = case['nan']
    if nan in ('j', 'i') and dt != 'int':
        ji[0 if nan == 'j' else 1, -1] = np.nan
    elif nan == 'z' and not np.isscalar(z):
        z[-1] = np.nan
    if case['order'] == 'F':
        ji = np.asfortranarray(ji)
    elif case['order'] == 'view':
        ji = np.ascontiguousarray(np.repeat(ji, 2, axis=1))[:, ::2]
    cam = create_camera(**gen.camera_kwargs(ip, ep), distort=case['distort'], alpha=case['alpha'])
    ji_in, z_in = ji.copy(), (z if np.isscalar(z) else z.copy())
    xyz = cam.pixel_to_world_z(ji, z)
    require(np.array_equal(ji, ji_in, equal_nan=dt != 'int') and (np.isscalar(z) or np.array_equal(z, z_in, equal_nan=True)),
            'pixel_to_world_z modified its inputs')
    n = max(ji.shape[1], 1 if np.isscalar(z) else len(z))
    require(xyz.shape == (3, n), 'wrong output shape', shape=xyz.shape, n=n)
    jib = np.broadcast_to(ji.astype('float64'), (2, n))
    zb = np.broadcast_to(np.asarray(z, float), (n,))
    bad = np.isnan(jib).any(axis=0) | np.isnan(zb)
    g = ~bad
    if not g.any():
        return None
    # rays which are (nearly) parallel to the ground plane or reach too far are numerically ill-conditioned
    if case['distort']:
        u, v, _ = ref.px_to_cam(ip, jib[:, g])
        d = ref.cv_R(ep['opk']) @ np.array([u, v, np.ones_like(u)])
        sc = (zb[g] - ep['xyz'][2]) / d[2]
    else:
        d = None
        c = ref.world_to_cam(ep, xyz[:, g])
        sc = c[2]
    good = np.isfinite(sc) & (np.abs(sc) > 0.1) & (np.abs(sc) < 1e6)
    if not good.any():
        return None
    idx = np.nonzero(g)[0][good]
    X, J, Z, sc = xyz[:, idx], jib[:, idx], zb[idx], sc[good]
    Tm = np.abs(ep['xyz']).max()
    mag = np.maximum(np.abs(X).max(axis=0), Tm)
    require(np.all(np.abs(X[2] - Z) <= 1e-9 + 1e-13 * (mag + np.abs(sc)) * 100), 'world point is not at the requested height',
            got=X[2].tolist(), z=Z.tolist())
    fx = max(ref.focal_px(ip))
    cond = 1e-6 + fx * 1e-9 + fx * mag * 1e-14 / np.abs(sc)
    ji2 = cam.world_to_pixel(X.copy())
    if case['distort']:
        tol = cond + 3 * ref.fp_undistort_err(ip, J)
        err = np.abs(ref.project(ip, ep, X) - J).max(axis=0)
        require(np.all(err <= tol), 'world point is not on the ray of its pixel (reference model)', err=err.tolist(), tol=tol.tolist())
    else:
        tol = cond
    err = np.abs(ji2 - J).max(axis=0)
    require(np.all(err <= tol), 'pixel -> world -> pixel round trip', err=err.tolist(), tol=tol.tolist())
    # single call differential
    for k in idx:
        one = cam.pixel_to_world_z(jib[:, [k]].copy(), float(zb[k]))
        require(np.allclose(one[:, 0], xyz[:, k], rtol=1e-9, atol=1e-9 + 1e-9 * abs(zb[k] - ep['xyz'][2])), 'broadcast call differs from the single call',
                got=xyz[:, k].tolist(), single=one[:, 0].tolist(), mode=mode)
    labels = [ip['cam_type'] + ('' if case['distort'] else '-undist'), 'mode-' + mode]
    if bad.any():
        labels.append('nan')
    return labels


SUBS = [
    Sub('inverse', case_inv, check_inv, 8000, 150000,
        'random camera, in-image pixels (float64/float32/int, C/F/strided), heights and broadcast shape, with/without distortion and NaN; non-trivial = at least one well-conditioned finite pair is compared'),
]
ASSUMPTIONS = ['undistortion of brown/opencv models is as accurate as 5 fixed-point iterations (cv2.undistortPoints): tolerance is 3x that error computed per point']

# valid (monotone) fisheye camera, for which cv2.fisheye.undistortPoints() does not converge at the image corners
FINDINGS = {'fisheye-newton': dict(cam_type='fisheye', im_size=(15, 15), focal_len=0.4531, k1=0.125, k2=0.04688, k4=-0.01562)}


def known_findings(base):
    from harness import known
    from orthority.camera import create_camera
    for k, text in known.listed('C02').items():
        ip, ep = FINDINGS[k], dict(xyz=(0.0, 0.0, 100.0), opk=(0.0, 0.0, 0.0))
        cam = create_camera(**gen.camera_kwargs(ip, ep))
        ji = np.array([[0.0], [0.0]])
        with np.errstate(all='ignore'):
            bad = not np.all(np.abs(cam.world_to_pixel(cam.pixel_to_world_z(ji, 0.0)) - ji) < 0.1)
        if bad:
            yield f'KNOWN-FINDING: property=C02 {text}'
