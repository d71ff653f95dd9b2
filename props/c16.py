"""C16: OpenSfM / OpenDroneMap parameters."""
import json
import math
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import ref
from orthority.errors import ParamError
from orthority.factory import FrameCameras
from orthority.camera import create_camera
from orthority.param_io import OsfmReader, read_osfm_int_param

MODELS = dict(perspective=['k1', 'k2'], simple_radial=['k1'], radial=['k1', 'k2'], brown=['k1', 'k2', 'k3', 'p1', 'p2'], fisheye=['k1', 'k2'])
LIM = dict(k1=0.15, k2=0.08, k3=0.04, p1=0.004, p2=0.004)
UNSUPPORTED = ['fisheye_opencv', 'fisheye62', 'fisheye624', 'spherical', 'equirectangular', 'dual', 'rpc', 'perspectiv', '']
H = math.pi / 2
SQ = math.pi / math.sqrt(3) * 2 / 3
SPECIAL = [[0, 0, 0], [math.pi, 0, 0], [0, math.pi, 0], [H, 0, 0], [-H, 0, 0], [0, H, 0], [0, -H, 0], [0, 0, H], [SQ, SQ, SQ], [SQ, -SQ, SQ], [-SQ, SQ, SQ], [SQ, SQ, -SQ],
           [math.pi / math.sqrt(2), math.pi / math.sqrt(2), 0], [math.pi / math.sqrt(2), 0, math.pi / math.sqrt(2)], [math.pi / math.sqrt(2), 0, -math.pi / math.sqrt(2)],
           [H * math.sqrt(0.5), 0, H * math.sqrt(0.5)]]


@st.composite
def camera(draw):
    model = draw(st.sampled_from(list(MODELS)))
    w, h = draw(st.integers(16, 8000)), draw(st.integers(16, 8000))
    c = dict(projection_type=draw(st.sampled_from([model, model, model.upper(), model.title()])), width=w, height=h)
    if model in ('perspective', 'fisheye'):
        c['focal'] = draw(fl(0.3, 2.5))
    else:
        c['focal_x'] = draw(fl(0.3, 2.5))
        c['focal_y'] = draw(st.one_of(st.just(c['focal_x']), fl(0.3, 2.5)))
        c['c_x'], c['c_y'] = draw(fl(-0.1, 0.1)), draw(fl(-0.1, 0.1))
    for k in MODELS[model]:
        c[k] = draw(st.one_of(fl(-LIM[k], LIM[k]), st.just(0.0)))
    return c


LLA_CRSS = ['+proj=longlat +ellps=intl +towgs84=-120,80,-200 +no_defs', '+proj=longlat +ellps=bessel +towgs84=500,150,450,1,-2,3,5 +no_defs']  # other datums


@st.composite
def case_rec(draw):
    n = draw(st.integers(1, 3))
    ids = draw(st.lists(st.sampled_from(['cam', 'dji fc6310r 5472 3648 brown 0.6666', 'v2', 'unknown unknown 800 600 perspective 0', 'é', 'v1 a', 'x v2 y']), min_size=n, max_size=n, unique=True))
    cams = {i: draw(camera()) for i in ids}
    m = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(['a.jpg', 'b.JPG', '100_0005_0142', 'a', 'd e.tif', 'c.d.tif', 'é.jpg']), min_size=m, max_size=m, unique=True))
    names = [x for i, x in enumerate(names) if x.split('.')[0] not in [y.split('.')[0] for y in names[:i]]]
    shots = {}
    for x in names:
        rot = draw(st.one_of(st.tuples(fl(-3, 3), fl(-3, 3), fl(-3, 3)).map(list), st.tuples(fl(2.6, 3.1), fl(-.3, .3), fl(-.3, .3)).map(list), st.sampled_from(SPECIAL)))
        shots[x] = dict(rot=[float(r) for r in rot], pos=[draw(fl(-500, 500)), draw(fl(-500, 500)), draw(fl(-100, 2000))], cam=draw(st.sampled_from(ids)))
    return dict(cams=cams, shots=shots, lla=[draw(fl(-75, 80)), draw(fl(-179.9, 179.9)), draw(fl(-100, 4000))], crs=draw(st.sampled_from([None, None, 'utm', '3857', 'ortho', 'utm_egm'])), lla_crs=draw(st.sampled_from([None, None, 'EPSG:4979', 'EPSG:4326', 'EPSG:4326+5773', *LLA_CRSS])),
                v2=draw(st.sampled_from(['none', 'both'])), seed=draw(seeds()), kind=draw(st.sampled_from(['reader', 'factory', 'split'])), extra=draw(st.booleans()))


def osfm_project(c, xyz):
    """OpenSfM camera coordinates to pixels (opensfm.org/docs/geometry.html), and incidence angles."""
    x, y, z = xyz
    model = c['projection_type'].lower()
    fx, fy = (c['focal'],) * 2 if 'focal' in c else (c['focal_x'], c['focal_y'])
    k1, k2, k3, p1, p2 = (c.get(k, 0.) for k in ('k1', 'k2', 'k3', 'p1', 'p2'))
    if model == 'fisheye':
        r = np.hypot(x, y)
        th = np.arctan2(r, z)
        d = th * (1 + th ** 2 * (k1 + th ** 2 * k2))
        u, v = d * x / r, d * y / r
    else:
        u, v = x / z, y / z
        r2 = u ** 2 + v ** 2
        d = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
        u, v = u * d + 2 * p1 * u * v + p2 * (r2 + 2 * u ** 2), v * d + p1 * (r2 + 2 * v ** 2) + 2 * p2 * u * v
    u, v = fx * u + c.get('c_x', 0.), fy * v + c.get('c_y', 0.)
    s = max(c['width'], c['height'])
    # normalised coordinates are relative to the image centre, with pixel centres at whole numbers
    return np.array([u * s + c['width'] / 2 - 0.5, v * s + c['height'] / 2 - 0.5])


def rodrigues(r):
    a = np.linalg.norm(r)
    return np.eye(3) if a == 0 else ref._axis_R(np.array(r) / a, a)


def write(case, d):
    lat, lon, alt = case['lla']
    pre = {'none': '', 'both': 'v2 '}[case['v2']]
    shots = {}
    for name, s in case['shots'].items():
        R = rodrigues(s['rot'])
        shots[name] = dict(rotation=s['rot'], translation=[float(v) for v in -R @ s['pos']], camera=pre + s['cam'])
        if case['extra']:
            shots[name].update(orientation=1, capture_time=0.0, gps_position=[0.0, 1.0, 2.0], vertices=[], scale=1.0)
    rec = dict(cameras={pre + k: v for k, v in case['cams'].items()}, shots=shots, reference_lla=dict(latitude=lat, longitude=lon, altitude=alt))
    if case['extra']:
        rec.update(points={'1': dict(color=[1., 2., 3.], coordinates=[1., 2., 3.])}, rig_cameras={})
    (d / 'reconstruction.json').write_text(json.dumps([rec]))
    (d / 'cameras.json').write_text(json.dumps(rec['cameras']))
    return d / 'reconstruction.json', d / 'cameras.json'


def check_rec(case, ctx):
    d = ctx.tmp()
    lat, lon, alt = case['lla']
    rec, camf = write(case, d)
    utm = (32600 if lat >= 0 else 32700) + int((lon + 180) // 6) + 1
    crs = {None: None, 'utm': f'EPSG:{utm}', '3857': 'EPSG:3857', 'ortho': f'+proj=ortho +lat_0={lat:.2f} +lon_0={lon:.2f} +datum=WGS84',
           'utm_egm': f'EPSG:{utm}+5773'}[case['crs']]
    kw = {} if not crs else dict(crs=crs)
    if case['lla_crs']:
        kw['lla_crs'] = case['lla_crs']
    rdr = OsfmReader(rec, **kw)
    exp_crs = rio.CRS.from_string(crs or f'EPSG:{utm}')
    require(rdr.crs == exp_crs, 'world CRS', got=str(rdr.crs), exp=str(exp_crs))
    ip, ep = rdr.read_int_param(), rdr.read_ext_param()
    require(list(ip) == list(case['cams']), 'camera IDs', got=list(ip))
    require(list(ep) == list(case['shots']), 'image names', got=list(ep))
    require(read_osfm_int_param(str(camf)) == ip and read_osfm_int_param(str(rec)) == ip, 'cameras.json and reconstruction.json interior parameters differ')
    if case['kind'] != 'reader':
        # (the factory passes the same file as interior and exterior parameters)
        fac = FrameCameras(str(camf if case['kind'] == 'split' else rec), str(rec), io_kwargs=kw)
        require(fac.crs == exp_crs, 'factory CRS', got=str(fac.crs))
    ref_xyz = np.array([v[0] for v in transform(case['lla_crs'] or 'EPSG:4326', exp_crs, [lon], [lat], [alt])])
    rng = np.random.default_rng(case['seed'])
    labels = set()
    for name, s in case['shots'].items():
        c = case['cams'][s['cam']]
        require(ep[name]['camera'] == s['cam'], 'camera ID of image', got=ep[name]['camera'], exp=s['cam'])
        require(ip[s['cam']]['im_size'] == (c['width'], c['height']), 'image size', got=ip[s['cam']]['im_size'])
        if case['kind'] != 'reader':
            cam = fac.get(name)
        else:
            cam = create_camera(**ip[s['cam']], xyz=ep[name]['xyz'], opk=ep[name]['opk'])
        # points in front of the camera
        n = 12
        th, az, dist = rng.uniform(0.01, 0.8 if 'k3' in c or abs(c.get('k1', 0)) > 0 else 1.1, n), rng.uniform(0, 2 * math.pi, n), rng.uniform(20, 2000, n)
        pc = dist * np.array([np.sin(th) * np.cos(az), np.sin(th) * np.sin(az), np.cos(th)])
        local = rodrigues(s['rot']).T @ pc + np.array(s['pos'])[:, None]
        exp = osfm_project(c, pc)
        got = cam.world_to_pixel(local + ref_xyz[:, None])
        err = np.abs(got - exp).max()
        require(err < 1e-3, 'pixels of world points', err=err, got=got[:, 0], exp=exp[:, 0], image=name, opk=ep[name]['opk'])
        labels |= {c['projection_type'].lower(), case['kind'], 'portrait' if c['height'] > c['width'] else 'landscape', 'south' if lat < 0 else 'north', 'crs' if crs else 'auto', 'special' if s['rot'] in [[float(v) for v in r] for r in SPECIAL] else 'random'}
    return sorted(labels)


@st.composite
def case_bad(draw):
    return dict(rec=draw(case_rec()), bad=draw(st.sampled_from(UNSUPPORTED)), which=draw(st.integers(0, 2)))


def check_bad(case, ctx):
    d = ctx.tmp()
    cams = case['rec']['cams']
    k = list(cams)[case['which'] % len(cams)]
    cams[k]['projection_type'] = case['bad']
    rec, camf = write(case['rec'], d)
    for fn in (lambda: OsfmReader(str(rec)), lambda: read_osfm_int_param(str(rec)), lambda: read_osfm_int_param(camf), lambda: FrameCameras(str(rec), str(rec))):
        try:
            fn()
        except ParamError:
            continue
        require(False, 'unsupported projection type accepted', type=case['bad'])
    return [case['bad'] or 'empty']


SUBS = [
    Sub('reconstruction', case_rec, check_rec, 3000, 60000, 'random reconstructions (cameras, poses, reference), with pixels of points in front of each shot compared with the OpenSfM camera models; non-trivial = every shot compared'),
    Sub('unsupported', case_bad, check_bad, 400, 4000, 'a reconstruction with one unsupported projection type must be rejected; non-trivial = all'),
]
ASSUMPTIONS = ['the world CRS has units of metres, and is taken as cartesian about the reference position, as Orthority documents', 'PROJ coordinate transforms are trusted']
