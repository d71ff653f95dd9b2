"""C01: frame cameras project world points exactly as their documented models."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, ref
from harness.engine import Sub, require
from harness.gen import fl


@st.composite
def case_proj(draw):
    ip = draw(gen.interior())
    ep = draw(gen.exterior(any_angle=True, xy=draw(st.sampled_from([10.0, 1e4, 5e6]))))
    pts = draw(st.lists(st.tuples(fl(0, 1, 4), fl(0, 1, 4), fl(0.5, 5000, 2)), min_size=1, max_size=8))
    return dict(ip=ip, ep=ep, pts=pts, how=draw(st.sampled_from(['init', 'update', 'class', 'enum'])),
                axis=draw(st.booleans()), nan=draw(st.sampled_from([None, None, 0, 1, 2])))


def make(case):
    import orthority.camera as oc
    from orthority.enums import CameraType
    ip, ep = case['ip'], case['ep']
    kw = gen.camera_kwargs(ip)
    t = kw.pop('cam_type')
    how = case['how']
    if how == 'init':
        return oc.create_camera(t, **kw, xyz=tuple(ep['xyz']), opk=tuple(ep['opk']))
    if how == 'enum':
        return oc.create_camera(CameraType(t), **kw, xyz=list(ep['xyz']), opk=np.array(ep['opk']))
    cls = dict(pinhole=oc.PinholeCamera, brown=oc.BrownCamera, opencv=oc.OpenCVCamera, fisheye=oc.FisheyeCamera)[t]
    if how == 'class':
        return cls(**kw, xyz=tuple(ep['xyz']), opk=tuple(ep['opk']))
    cam = cls(**kw)
    cam.update(tuple(ep['xyz']), tuple(ep['opk']))
    return cam


def check_proj(case, ctx):
    ip, ep = case['ip'], case['ep']
    ok, box = ref.fov_valid(ip)
    if not ok:
        return None
    p = np.array(case['pts'], dtype='float64').T
    u = box[0] + p[0] * (box[2] - box[0])
    v = box[1] + p[1] * (box[3] - box[1])
    d = p[2]
    if case['axis']:
        # a point at the nadir-free optical axis itself
        u, v, d = np.append(u, 0.0), np.append(v, 0.0), np.append(d, 7.0)
    R = ref.cv_R(ep['opk'])
    T = np.array(ep['xyz']).reshape(3, 1)
    xyz = R @ (np.array([u, v, np.ones_like(u)]) * d) + T
    n_fin = xyz.shape[1]
    if case['nan'] is not None:
        extra = xyz[:, :1].copy()
        extra[case['nan']] = np.nan
        xyz = np.concatenate([xyz, extra], axis=1)
    cam = make(case)
    require(tuple(cam.im_size) == tuple(ip['im_size']), 'im_size differs', got=cam.im_size)
    require(cam.pos is not None and np.allclose(cam.pos, ep['xyz'], rtol=0, atol=1e-9), 'pos differs', got=cam.pos)
    arg = xyz.copy()
    ji = cam.world_to_pixel(arg)
    require(np.array_equal(arg, xyz, equal_nan=True), 'world_to_pixel modified its input')
    require(ji.shape == (2, xyz.shape[1]), 'wrong shape', shape=ji.shape)
    exp = ref.project(ip, ep, xyz[:, :n_fin])
    f = max(ref.focal_px(ip))
    tol = 1e-6 + 1e-9 * f + f * (np.abs(xyz[:, :n_fin]).max(axis=0) + np.abs(T).max()) * 4e-15 / d
    err = np.abs(ji[:, :n_fin] - exp).max(axis=0)
    require(np.all(err <= tol), 'projection differs from reference model', err=err.tolist(), tol=tol.tolist(),
            got=ji[:, :n_fin].tolist(), exp=exp.tolist())
    if case['nan'] is not None:
        require(np.all(np.isnan(ji[:, n_fin:])), 'NaN world point did not give NaN pixel', got=ji[:, n_fin:].tolist())
    if case['axis']:
        c = ref.principal_px(ip)
        if not any(ip.get(k) for k in ('tx', 'ty')):
            require(np.allclose(ji[:, n_fin - 1], c, rtol=0, atol=tol[-1]), 'optical axis does not project to principal point',
                    got=ji[:, n_fin - 1].tolist(), exp=c)
    if case['how'] != 'update':
        pass
    labels = [ip['cam_type']]
    if 'sensor_size' not in ip:
        labels.append('normalised-' + ('portrait' if ip['im_size'][1] > ip['im_size'][0] else 'landscape'))
    if any(ip.get(k) for k in ref.DIST_NAMES[ip['cam_type']]):
        labels.append(ip['cam_type'] + '-distorted')
    if case['axis']:
        labels.append('axis')
    return labels


@st.composite
def case_metamorphic(draw):
    ip = draw(gen.interior())
    ep = draw(gen.exterior(any_angle=True, xy=1000.0))
    pts = draw(st.lists(st.tuples(fl(0, 1, 4), fl(0, 1, 4), fl(0.5, 2000, 2)), min_size=1, max_size=5))
    return dict(ip=ip, ep=ep, pts=pts, how='init', shift=[draw(fl(-1e5, 1e5, 1)) for _ in range(3)],
                scale=draw(fl(0.1, 10, 2)), rz=draw(fl(-3.14, 3.14, 3)))


def check_metamorphic(case, ctx):
    """Moving camera and scene rigidly, or scaling depth along the rays, leaves pixels unchanged."""
    ip, ep = case['ip'], case['ep']
    ok, box = ref.fov_valid(ip)
    if not ok:
        return None
    p = np.array(case['pts']).T
    u = box[0] + p[0] * (box[2] - box[0])
    v = box[1] + p[1] * (box[3] - box[1])
    R = ref.cv_R(ep['opk'])
    T = np.array(ep['xyz']).reshape(3, 1)
    ray = R @ (np.array([u, v, np.ones_like(u)]) * p[2])
    cam = make(case)
    ji = cam.world_to_pixel(ray + T)
    ji2 = cam.world_to_pixel(ray * case['scale'] + T)
    Rz = ref.rot_z(case['rz'])
    T3 = Rz @ T + np.array(case['shift']).reshape(3, 1)
    opk3 = ref.R_to_opk(Rz @ ref.opk_to_R(ep['opk']))
    cam.update(tuple(T3.ravel()), tuple(opk3))
    ji3 = cam.world_to_pixel(Rz @ ray + T3)
    f = max(ref.focal_px(ip))
    tol = 1e-6 + f * 1e-9 + f * 4e-10 / p[2].min() / min(case['scale'], 1)
    require(np.abs(ji - ji2).max() <= tol, 'pixel changes along the ray', err=np.abs(ji - ji2).max(), tol=tol)
    require(np.abs(ji - ji3).max() <= tol + 1e-6 * f * (abs(abs(ep['opk'][1]) - np.pi / 2) < 1e-4), 'pixel changes with a rigid motion of camera and scene', err=np.abs(ji - ji3).max(), tol=tol)
    return ip['cam_type']


SUBS = [
    Sub('projection', case_proj, check_proj, 6000, 200000,
        'random camera type, interior and exterior parameters, world points in front of the camera inside its field of view; non-trivial = reference model invertible over the image (then at least one finite point is compared)'),
    Sub('rigid', case_metamorphic, check_metamorphic, 1500, 40000,
        'random camera and points; rigid motion / depth scaling; non-trivial = model invertible over the image'),
]
ASSUMPTIONS = ['distortion is invertible over the image (generator reduces coefficients until it is)', 'points are in front of the camera']
