"""Hypothesis strategies for JSON cases."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import ref

TYPES = ['pinhole', 'brown', 'opencv', 'fisheye']


def fl(lo, hi, nd=None):
    """Finite float in [lo, hi], optionally rounded to nd decimals (simpler shrinks)."""
    s = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)
    if nd is not None:
        s = s.map(lambda x: round(x, nd))
    return s


def seeds():
    return st.integers(0, 2**32 - 1)


_DIST_MAG = dict(
    brown=dict(k1=0.3, k2=0.2, p1=0.02, p2=0.02, k3=0.1),
    opencv=dict(k1=0.3, k2=0.2, p1=0.02, p2=0.02, k3=0.1, k4=0.2, k5=0.1, k6=0.05, s1=0.02, s2=0.01, s3=0.02, s4=0.01, tx=0.05, ty=0.05),
    fisheye=dict(k1=0.2, k2=0.1, k3=0.05, k4=0.03),
)


def tame(ip):
    """Reduce the distortion of ip until the model is invertible over the image (by construction)."""
    ip = dict(ip)
    for _ in range(12):
        ok, box = ref.fov_valid(ip)
        if ok:
            return ip
        for k in ref.DIST_NAMES[ip['cam_type']]:
            if k in ip:
                ip[k] = ip[k] * 0.5
    for k in ref.DIST_NAMES[ip['cam_type']]:
        ip.pop(k, None)
    ok, _ = ref.fov_valid(ip)
    if not ok:
        f = ip['focal_len']
        ip['focal_len'] = [x * 3 for x in f] if isinstance(f, list) else f * 3
    return ip


@st.composite
def interior(draw, types=TYPES, sizes=None, strength=1.0, f_lo=0.45, f_hi=2.5, keep_shape=False):
    """Interior parameters (valid over the whole image)."""
    t = draw(st.sampled_from(types))
    if sizes is None:
        size = draw(st.one_of(
            st.tuples(st.integers(2, 64), st.integers(2, 64)),
            st.tuples(st.integers(64, 1200), st.integers(64, 1200)),
            st.tuples(st.integers(1000, 12000), st.integers(1000, 12000)),
        ))
    else:
        size = draw(sizes)
    w, h = size
    # keep image aspect within reason, so that the field of view is bounded
    if max(w, h) > 4 * min(w, h):
        if w > h:
            w = 4 * h
        else:
            h = 4 * w
    fn = draw(fl(f_lo, f_hi, 4))
    ip = dict(cam_type=t, im_size=[w, h])
    m = max(w, h)
    two = draw(st.booleans())
    sens = draw(st.booleans())
    fy = fn * draw(fl(0.9, 1.1, 3)) if two else fn
    if sens:
        pitch = draw(st.sampled_from([1.0, 0.0024, 0.006, 1e-6, 12.5]))
        ss = [w * pitch, h * pitch]
        if draw(st.booleans()):
            ss[1] *= draw(fl(0.9, 1.1, 3))  # non-square pixels
        ip['sensor_size'] = ss
        unit = m * pitch
    else:
        unit = 1.0
    ip['focal_len'] = [fn * unit, fy * unit] if two else fn * unit
    if draw(st.booleans()):
        ip['cx'] = draw(fl(-0.08, 0.08, 4))
    if draw(st.booleans()):
        ip['cy'] = draw(fl(-0.08, 0.08, 4))
    names = ref.DIST_NAMES[t]
    if names:
        if t == 'opencv':
            # coefficient prefixes, as truncated by OpenCV, and sparse sets
            mode = draw(st.sampled_from(['prefix', 'sparse', 'full']))
            if mode == 'prefix':
                names = names[: draw(st.sampled_from([0, 1, 2, 4, 5, 8, 12, 14]))]
            elif mode == 'sparse':
                names = draw(st.lists(st.sampled_from(names), unique=True, max_size=4))
        else:
            mode = draw(st.sampled_from(['full', 'sparse']))
            if mode == 'sparse':
                names = draw(st.lists(st.sampled_from(names), unique=True, max_size=3))
        for n in names:
            mag = _DIST_MAG[t][n] * strength
            ip[n] = draw(fl(-mag, mag, 5))
    return tame(ip)


@st.composite
def exterior(draw, max_tilt=None, any_angle=False, alt=(20, 5000), xy=1e6):
    """Exterior parameters.  Height of the camera above z=0 within alt."""
    x = draw(fl(-xy, xy, 3))
    y = draw(fl(-xy, xy, 3))
    z = draw(fl(alt[0], alt[1], 3))
    if any_angle:
        opk = [draw(fl(-math.pi, math.pi, 5)), draw(fl(-math.pi / 2, math.pi / 2, 5)), draw(fl(-math.pi, math.pi, 5))]
    else:
        mt = max_tilt
        opk = [draw(fl(-mt, mt, 5)), draw(fl(-mt, mt, 5)), draw(fl(-math.pi, math.pi, 5))]
    return dict(xyz=[x, y, z], opk=opk)


def below_horizon(ip, ep, margin=0.15):
    """Whether all image rays look downwards by at least ``margin`` (cosine)."""
    w, h = ip['im_size']
    t = np.linspace(0, 1, 9)
    edge = np.concatenate([
        np.array([t * (w - 1), 0 * t]), np.array([t * (w - 1), 0 * t + h - 1]),
        np.array([0 * t, t * (h - 1)]), np.array([0 * t + w - 1, t * (h - 1)]),
    ], axis=1)
    u, v, ok = ref.px_to_cam(ip, edge)
    d = ref.cv_R(ep['opk']) @ np.array([u, v, np.ones_like(u)])
    return bool(np.all(-d[2] / np.linalg.norm(d, axis=0) > margin))


def level(ip, ep, margin=0.15):
    """Reduce the tilt of ep until the field of view is below the horizon (by construction)."""
    ep = dict(xyz=list(ep['xyz']), opk=list(ep['opk']))
    for _ in range(8):
        if below_horizon(ip, ep, margin):
            return ep
        ep['opk'][0] *= 0.5
        ep['opk'][1] *= 0.5
    ep['opk'][0] = ep['opk'][1] = 0.0
    return ep


def camera_kwargs(ip, ep=None):
    """Keyword arguments for create_camera from JSON parameters."""
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in ip.items()}
    if ep is not None:
        kw.update(xyz=tuple(ep['xyz']), opk=tuple(ep['opk']))
    return kw


@st.composite
def rpc(draw, size=None):
    """
    Realistic RPC (normalised image and ground coordinates within ~[-1, 1], mostly affine, with
    small higher order and denominator terms).  Returns dict(im_size, rpc).
    """
    w, h = size or draw(st.tuples(st.integers(500, 20000), st.integers(500, 20000)))
    lon, lat = draw(fl(-175, 175, 4)), draw(fl(-70, 70, 4))
    gsd = draw(st.sampled_from([0.3, 1.0, 5.0]))
    lat_sc = max(h, w) * gsd / 2 / 111e3 * 1.1
    lon_sc = lat_sc / max(math.cos(math.radians(lat)), 0.2)
    h_sc = draw(fl(200, 1000, 1))
    h_off = round(h_sc * draw(fl(-0.1, 1.5, 2)), 1)
    th = draw(fl(-3.14, 3.14, 3))
    hi = draw(fl(0, 0.01, 4))
    cs = draw(st.lists(fl(-1, 1, 3), min_size=72, max_size=72))
    it = iter(cs)
    m = max(w, h)

    def num(axis):
        c = [0.0] * 20
        sx, sy = (math.cos(th), math.sin(th)) if axis == 0 else (math.sin(th), -math.cos(th))
        sc = m / w if axis == 0 else m / h
        c[0] = 0.05 * next(it)
        c[1], c[2] = sx * sc, sy * sc
        c[3] = 0.1 * next(it)
        for k in range(4, 20):
            c[k] = hi * next(it)
        return [round(v, 9) for v in c]

    def den():
        return [1.0] + [round(hi * next(it) * (0.5 if k > 3 else 1), 9) for k in range(1, 20)][:19]

    sn, ln = num(0), num(1)
    it = iter(cs[::-1])
    sd, ld = den(), den()
    return dict(
        im_size=[w, h],
        rpc=dict(
            height_off=h_off, height_scale=h_sc, lat_off=lat, lat_scale=lat_sc, long_off=lon, long_scale=lon_sc,
            line_off=(h - 1) / 2, line_scale=h / 2, samp_off=(w - 1) / 2, samp_scale=w / 2,
            line_num_coeff=ln, line_den_coeff=ld, samp_num_coeff=sn, samp_den_coeff=sd, err_bias=None, err_rand=None,
        ),
    )


def utm_epsg(lat, lon):
    zone = min(int((lon + 180) // 6) + 1, 60)
    return (32600 if lat >= 0 else 32700) + zone
