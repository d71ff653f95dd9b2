"""Independent reference models (numpy only, written from the documentation, not from orthority)."""
import numpy as np

DIST_NAMES = dict(
    pinhole=[],
    brown=['k1', 'k2', 'p1', 'p2', 'k3'],
    opencv=['k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'],
    fisheye=['k1', 'k2', 'k3', 'k4'],
)


def rot_x(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def rot_y(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rot_z(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def opk_to_R(opk):
    """Camera (PATB: x right, y up, z backwards) to world rotation."""
    return rot_x(opk[0]) @ rot_y(opk[1]) @ rot_z(opk[2])


def R_to_opk(R):
    o = np.arctan2(-R[1, 2], R[2, 2])
    p = np.arcsin(np.clip(R[0, 2], -1, 1))
    k = np.arctan2(-R[0, 1], R[0, 0])
    return [float(o), float(p), float(k)]


def cv_R(opk):
    """Camera (CV: x right, y down, z forwards) to world rotation."""
    return opk_to_R(opk) @ np.diag([1.0, -1.0, -1.0])


def focal_px(ip):
    w, h = ip['im_size']
    f = np.atleast_1d(np.array(ip['focal_len'], dtype='float64'))
    fx, fy = (f[0], f[0]) if f.size == 1 else (f[0], f[1])
    ss = ip.get('sensor_size')
    if ss is None:
        m = max(w, h)
        return fx * m, fy * m
    return fx * w / ss[0], fy * h / ss[1]


def principal_px(ip):
    w, h = ip['im_size']
    m = max(w, h)
    return (w - 1) / 2 + m * ip.get('cx', 0.0), (h - 1) / 2 + m * ip.get('cy', 0.0)


def distort(ip, u, v):
    """Apply lens distortion to normalised (z=1) camera coordinates."""
    t = ip['cam_type']
    g = lambda k: ip.get(k, 0.0)
    if t == 'pinhole':
        return u, v
    r2 = u * u + v * v
    if t == 'fisheye':
        r = np.sqrt(r2)
        th = np.arctan(r)
        thd = th + g('k1') * th**3 + g('k2') * th**5 + g('k3') * th**7 + g('k4') * th**9
        with np.errstate(all='ignore'):
            s = np.where(r > 1e-12, thd / np.where(r == 0, 1, r), 1.0)
        return u * s, v * s
    num = 1 + g('k1') * r2 + g('k2') * r2**2 + g('k3') * r2**3
    den = 1.0
    if t == 'opencv':
        den = 1 + g('k4') * r2 + g('k5') * r2**2 + g('k6') * r2**3
    rad = num / den
    ud = u * rad + 2 * g('p1') * u * v + g('p2') * (r2 + 2 * u * u)
    vd = v * rad + g('p1') * (r2 + 2 * v * v) + 2 * g('p2') * u * v
    if t == 'opencv':
        ud = ud + g('s1') * r2 + g('s2') * r2**2
        vd = vd + g('s3') * r2 + g('s4') * r2**2
        tx, ty = g('tx'), g('ty')
        if tx or ty:
            # https://docs.opencv.org/4.x/d9/d0c/group__calib3d.html
            R = np.array([
                [np.cos(ty), np.sin(ty) * np.sin(tx), -np.sin(ty) * np.cos(tx)],
                [0, np.cos(tx), np.sin(tx)],
                [np.sin(ty), -np.cos(ty) * np.sin(tx), np.cos(ty) * np.cos(tx)],
            ])
            P = np.array([[R[2, 2], 0, -R[0, 2]], [0, R[2, 2], -R[1, 2]], [0, 0, 1]])
            s = P @ R @ np.array([ud, vd, np.ones_like(ud)])
            ud, vd = s[0] / s[2], s[1] / s[2]
    return ud, vd


def cam_to_px(ip, u, v):
    """Normalised camera to pixel coordinates, with distortion."""
    ud, vd = distort(ip, np.asarray(u, dtype='float64'), np.asarray(v, dtype='float64'))
    fx, fy = focal_px(ip)
    cx, cy = principal_px(ip)
    return np.array([fx * ud + cx, fy * vd + cy])


def world_to_cam(ep, xyz):
    R = cv_R(ep['opk'])
    return R.T @ (np.asarray(xyz, dtype='float64') - np.array(ep['xyz'], dtype='float64').reshape(3, 1))


def project(ip, ep, xyz):
    """World to pixel coordinates: reference model."""
    c = world_to_cam(ep, xyz)
    return cam_to_px(ip, c[0] / c[2], c[1] / c[2])


def jac(ip, u, v, eps=1e-6):
    a = np.array(distort(ip, u + eps, v)) - np.array(distort(ip, u - eps, v))
    b = np.array(distort(ip, u, v + eps)) - np.array(distort(ip, u, v - eps))
    return np.stack([a, b], axis=1) / (2 * eps)  # [out, in, N]


def px_to_cam(ip, ji, iters=60):
    """Invert the model by damped Newton.  Returns (u, v, ok)."""
    fx, fy = focal_px(ip)
    cx, cy = principal_px(ip)
    tgt = np.array([(np.asarray(ji[0], float) - cx) / fx, (np.asarray(ji[1], float) - cy) / fy])
    x = tgt.copy()
    if ip['cam_type'] == 'fisheye':
        # radial: solve theta
        rd = np.hypot(*tgt)
        th = np.minimum(rd, 1.4)
        g = lambda k: ip.get(k, 0.0)
        for _ in range(iters):
            f = th + g('k1') * th**3 + g('k2') * th**5 + g('k3') * th**7 + g('k4') * th**9 - rd
            d = 1 + 3 * g('k1') * th**2 + 5 * g('k2') * th**4 + 7 * g('k3') * th**6 + 9 * g('k4') * th**8
            th_ = np.clip(th - f / d, 0, 1.56)
            done = not np.any(np.abs(th_ - th) > 1e-15)
            th = th_
            if done:
                break
        r = np.tan(th)
        s = np.where(rd > 1e-12, r / np.where(rd == 0, 1, rd), 1.0)
        x = tgt * s
        e = np.array(distort(ip, *x)) - tgt
        return x[0], x[1], np.hypot(*e) < 1e-9
    if ip['cam_type'] == 'pinhole':
        return x[0], x[1], np.ones(x[0].shape, bool)
    for _ in range(iters):
        e = np.array(distort(ip, *x)) - tgt
        if not np.any(np.abs(e) > 1e-14):
            break
        J = jac(ip, *x)
        det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
        det = np.where(np.abs(det) < 1e-9, 1e-9, det)
        dx = np.array([J[1, 1] * e[0] - J[0, 1] * e[1], -J[1, 0] * e[0] + J[0, 0] * e[1]]) / det
        n = np.hypot(*dx)
        dx = dx * np.where(n > 0.5, 0.5 / np.where(n == 0, 1, n), 1)
        x = x - dx
    e = np.array(distort(ip, *x)) - tgt
    return x[0], x[1], np.hypot(*e) < 1e-9


def px_to_world(ip, ep, ji, z):
    u, v, ok = px_to_cam(ip, ji)
    d = cv_R(ep['opk']) @ np.array([u, v, np.ones_like(u)])
    s = (np.asarray(z, float) - ep['xyz'][2]) / d[2]
    xyz = d * s + np.array(ep['xyz'], float).reshape(3, 1)
    return xyz, ok, s


def fisheye_converges(ip, thd, iters=8):
    """
    Whether the textbook Newton iteration for the fisheye angle, started at the distorted angle, converges
    in ``iters`` steps (cv2.fisheye.undistortPoints allows 10 and gives up with -1e6 coordinates after that).
    """
    g = [ip.get(f'k{i}', 0.0) for i in range(1, 5)]
    thd = np.minimum(np.asarray(thd, float), np.pi / 2)
    th = thd.copy()
    ok = thd < 1e-8
    with np.errstate(all='ignore'):
        for _ in range(iters):
            num = th + sum(k * th ** (2 * i + 3) for i, k in enumerate(g)) - thd
            den = 1 + sum((2 * i + 3) * k * th ** (2 * i + 2) for i, k in enumerate(g))
            fix = np.where(ok, 0, num / den)
            th = th - fix
            ok = ok | (np.abs(fix) < 1e-9)
        return ok & (th >= 0) & (th < np.pi / 2)


def fp_undistort_err(ip, ji, iters=5):
    """
    Camera-coordinate error (per point, in pixels when re-distorted) of a plain fixed-point
    undistortion with ``iters`` iterations: the documented accuracy of cv2.undistortPoints.
    """
    if ip['cam_type'] == 'pinhole':
        return np.zeros(np.shape(ji)[1])
    fx, fy = focal_px(ip)
    cx, cy = principal_px(ip)
    if ip['cam_type'] == 'fisheye':
        # cv2.fisheye.undistortPoints limits the distorted angle to pi/2
        th = np.hypot((np.asarray(ji[0], float) - cx) / fx, (np.asarray(ji[1], float) - cy) / fy)
        return np.where(fisheye_converges(ip, th), np.maximum(th - np.pi / 2, 0) * max(fx, fy), np.inf)
    tgt = np.array([(np.asarray(ji[0], float) - cx) / fx, (np.asarray(ji[1], float) - cy) / fy])
    g = lambda k: ip.get(k, 0.0)
    x = tgt.copy()
    t0 = tgt.copy()
    if g('tx') or g('ty'):
        # remove tilt exactly first
        ip0 = dict(ip)
        tx, ty = g('tx'), g('ty')
        R = np.array([
            [np.cos(ty), np.sin(ty) * np.sin(tx), -np.sin(ty) * np.cos(tx)],
            [0, np.cos(tx), np.sin(tx)],
            [np.sin(ty), -np.cos(ty) * np.sin(tx), np.cos(ty) * np.cos(tx)],
        ])
        P = np.array([[R[2, 2], 0, -R[0, 2]], [0, R[2, 2], -R[1, 2]], [0, 0, 1]])
        s = np.linalg.inv(P @ R) @ np.array([t0[0], t0[1], np.ones_like(t0[0])])
        t0 = s[:2] / s[2]
        x = t0.copy()
    for _ in range(iters):
        u, v = x
        r2 = u * u + v * v
        icd = (1 + g('k4') * r2 + g('k5') * r2**2 + g('k6') * r2**3) / (1 + g('k1') * r2 + g('k2') * r2**2 + g('k3') * r2**3)
        du = 2 * g('p1') * u * v + g('p2') * (r2 + 2 * u * u) + g('s1') * r2 + g('s2') * r2**2
        dv = g('p1') * (r2 + 2 * v * v) + 2 * g('p2') * u * v + g('s3') * r2 + g('s4') * r2**2
        x = np.array([(t0[0] - du) * icd, (t0[1] - dv) * icd])
    e = np.array(distort(ip, *x)) - tgt
    return np.hypot(e[0] * fx, e[1] * fy)


_fov_cache = {}


def fov_valid(ip):
    key = repr(sorted(ip.items()))
    if key not in _fov_cache:
        if len(_fov_cache) > 200:
            _fov_cache.clear()
        with np.errstate(all='ignore'):
            _fov_cache[key] = _fov_valid(ip)
    return _fov_cache[key]


def _fov_valid(ip, rmax_scale=1.05, n=9):
    """
    Whether the distortion model is well-behaved (monotone/invertible with margin) over the image,
    and how far in undistorted normalised coordinates the image reaches.  Returns (ok, u_box).
    """
    w, h = ip['im_size']
    t = np.linspace(0, 1, n)
    edge = np.concatenate([
        np.array([t * (w - 1), 0 * t]), np.array([t * (w - 1), 0 * t + h - 1]),
        np.array([0 * t, t * (h - 1)]), np.array([0 * t + w - 1, t * (h - 1)]),
    ], axis=1)
    jj, ii = np.meshgrid(t * (w - 1), t * (h - 1))
    ji = np.concatenate([edge, np.array([jj.ravel(), ii.ravel()])], axis=1)
    u, v, ok = px_to_cam(ip, ji, iters=25)
    if not np.all(ok) or not np.all(np.isfinite(u)):
        return False, None
    r = np.hypot(u, v).max() * rmax_scale + 1e-3
    if ip['cam_type'] == 'fisheye':
        # OpenCV's iteration for the inverse has to converge up to the image corners
        fx, fy = focal_px(ip)
        cx, cy = principal_px(ip)
        rd = np.hypot((ji[0] - cx) / fx, (ji[1] - cy) / fy).max() * rmax_scale
        if not np.all(fisheye_converges(ip, np.linspace(0, rd, 60))):
            return False, None
    if ip['cam_type'] == 'fisheye' and np.arctan(r) > 1.25:
        return False, None
    # jacobian positive with margin over the disc of radius r
    a = np.linspace(0, 2 * np.pi, 12, endpoint=False)
    rr = np.linspace(0.05, 1, 10) * r
    aa, rr = np.meshgrid(a, rr)
    uu, vv = (rr * np.cos(aa)).ravel(), (rr * np.sin(aa)).ravel()
    J = jac(ip, uu, vv)
    det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
    lo = 0.02 if ip['cam_type'] == 'fisheye' else 0.2
    if det.min() < lo or det.max() > 6 or J[0, 0].min() < 0.05 or J[1, 1].min() < 0.05:
        return False, None
    box = [float(u.min()), float(v.min()), float(u.max()), float(v.max())]
    return True, box


RPC_TERMS = [
    lambda L, P, H: 1 + 0 * L, lambda L, P, H: L, lambda L, P, H: P, lambda L, P, H: H, lambda L, P, H: L * P,
    lambda L, P, H: L * H, lambda L, P, H: P * H, lambda L, P, H: L * L, lambda L, P, H: P * P, lambda L, P, H: H * H,
    lambda L, P, H: P * L * H, lambda L, P, H: L**3, lambda L, P, H: L * P * P, lambda L, P, H: L * H * H,
    lambda L, P, H: L * L * P, lambda L, P, H: P**3, lambda L, P, H: P * H * H, lambda L, P, H: L * L * H,
    lambda L, P, H: P * P * H, lambda L, P, H: H**3,
]


def rpc_project(r, llh):
    """(lon, lat, height) to pixel (j, i): RPC00B model."""
    L = (llh[0] - r['long_off']) / r['long_scale']
    P = (llh[1] - r['lat_off']) / r['lat_scale']
    H = (llh[2] - r['height_off']) / r['height_scale']
    def poly(c):
        return sum(c[k] * RPC_TERMS[k](L, P, H) for k in range(20))
    i = poly(r['line_num_coeff']) / poly(r['line_den_coeff']) * r['line_scale'] + r['line_off']
    j = poly(r['samp_num_coeff']) / poly(r['samp_den_coeff']) * r['samp_scale'] + r['samp_off']
    return np.array([j, i])


def _axis_R(axis, ang):
    """Rotation matrix about a unit axis (Rodrigues)."""
    x, y, z = axis
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K


def rpy_axes(rpy):
    """Camera (right, up, back) axes, as columns of a matrix in (N, E, D) coordinates, of a downward looking camera with (roll, pitch, yaw) (radians)."""
    r, p, y = rpy
    front, right, down = np.eye(3)
    # intrinsic rotations: yaw about down, then pitch about the new right, then roll about the new front
    M = _axis_R(down, y)
    front, right, down = M @ front, M @ right, M @ down
    M = _axis_R(right, p)
    front, down = M @ front, M @ down
    M = _axis_R(front, r)
    right, down = M @ right, M @ down
    return np.column_stack([right, front, -down]), np.column_stack([front, right, down])


def north(lat, lon, alt, crs, lla_crs):
    """Unit horizontal vector of north in a projected CRS."""
    from rasterio.warp import transform
    d = 1e-5
    (x0, x1), (y0, y1) = transform(lla_crs, crs, [lon, lon], [lat - d, lat + d], [alt, alt])[:2]
    n = np.array([x1 - x0, y1 - y0])
    return n / np.hypot(*n)


def rpy_to_R(rpy, lla, crs, lla_crs, C_bB=None):
    """Camera (PATB) to world rotation of a (roll, pitch, yaw) pose."""
    cam, body = rpy_axes(rpy)
    if C_bB is not None:
        cam = body @ np.array(C_bB, float)
    n = north(*lla, crs, lla_crs)
    ned = np.array([[n[0], n[1], 0], [n[1], -n[0], 0], [0, 0, -1]]).T  # N, E, D in world axes
    return ned @ cam
