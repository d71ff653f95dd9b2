"""C18: roll, pitch, yaw and latitude, longitude, altitude poses."""
import csv
import inspect
import io
import math
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import ref
from orthority import param_io
from orthority.param_io import CsvReader
from orthority.factory import FrameCameras

H = math.pi / 2
A, F = 6378137.0, 1 / 298.257223563


class Dialect(csv.excel):
    skipinitialspace = True


def utm(lat, lon, dz=0):
    return f'EPSG:{(32600 if lat >= 0 else 32700) + (int((lon + 180) // 6) + dz) % 60 + 1}'


def ecef(lla):
    lat, lon, h = np.radians(lla[0]), np.radians(lla[1]), lla[2]
    e2 = F * (2 - F)
    n = A / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.array([(n + h) * np.cos(lat) * np.cos(lon), (n + h) * np.cos(lat) * np.sin(lon), (n * (1 - e2) + h) * np.sin(lat)])


def ned(lla):
    """North, east and down unit vectors (rows) in ECEF axes."""
    la, lo = np.radians(lla[:2])
    return np.array([[-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], [-np.sin(lo), np.cos(lo), 0], [-np.cos(la) * np.cos(lo), -np.cos(la) * np.sin(lo), -np.sin(la)]])


ANG = st.one_of(fl(-math.pi, math.pi), fl(-0.3, 0.3), st.sampled_from([0., H, -H, math.pi, -math.pi, H / 2, 2 * math.pi, -3 * H]))
PITCH = st.one_of(fl(-0.3, 0.3), fl(-H, H), st.sampled_from([0., H, -H, H / 2]))
MOUNT = [None, [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[0, -1, 0], [-1, 0, 0], [0, 0, -1]], [[0, 0, -1], [1, 0, 0], [0, -1, 0]], [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]]

# (not a public function)
MOUNTED = hasattr(param_io, '_rpy_to_opk') and list(inspect.signature(param_io._rpy_to_opk).parameters) == ['rpy', 'lla', 'crs', 'lla_crs', 'C_bB']
PARIS = '+proj=longlat +ellps=WGS84 +pm=paris +no_defs'


@st.composite
def case_pose(draw):
    span = draw(st.sampled_from([0.01, 0.2, 1.0]))
    lat0, lon0 = draw(st.one_of(st.tuples(fl(-79, 79, 6), fl(-180, 180, 6)), st.tuples(fl(-79, 79, 6), st.sampled_from([180., -180., 179.999, -179.999, 0., 6., -6., 3.])), st.tuples(st.sampled_from([0., 0.001, -0.001]), fl(-180, 180, 6)),
                                st.tuples(fl(79, 89.5, 6), fl(-180, 180, 6)), st.tuples(fl(-89.5, -79, 6), fl(-180, 180, 6))))
    rows = []
    for i in range(draw(st.integers(1, 5))):
        lat, lon = lat0 + draw(fl(-span, span, 7)), lon0 + draw(fl(-span, span, 7))
        lat = min(max(lat, -89.6), 89.6)
        lon = (lon + 180) % 360 - 180
        rows.append(dict(lla=[round(lat, 8), round(lon, 8), draw(fl(-100, 5000, 3))], rpy=[draw(ANG), draw(PITCH), draw(ANG)]))
    polar = abs(lat0) > 79
    crs = draw(st.sampled_from(['auto', 'auto', 'utm', 'next', '3857', 'lcc', 'tmerc', 'utm+egm'] if not polar else ['stere', 'stere', 'aeqd']))
    return dict(rows=rows, crs=crs, lla_crs=draw(st.sampled_from([None, None, 'EPSG:4979', 'EPSG:4326', 'EPSG:4258'] + ([PARIS] if crs != 'auto' else []))), pos=draw(st.sampled_from(['lla', 'lla', 'xyz'])) if crs != 'auto' else 'lla',
                radians=draw(st.booleans()), via=draw(st.sampled_from(['reader', 'factory', 'direct'])), mount=draw(st.sampled_from(MOUNT)))


def check_pose(case, ctx):
    rows = case['rows']
    lat0, lon0, _ = rows[0]['lla']
    lla_crs = case['lla_crs'] or 'EPSG:4979'
    crs = dict(auto=None, utm=utm(lat0, lon0), next=utm(lat0, lon0, 1), lcc=f'+proj=lcc +lat_1={lat0 + 1 if abs(lat0) > 2 else 3} +lat_2={lat0 + 2 if abs(lat0) > 2 else 5} +lat_0={lat0} +lon_0={lon0} +datum=WGS84 +units=m',
               tmerc=f'+proj=tmerc +lat_0={lat0} +lon_0={lon0 + 1} +k=1 +x_0=100 +y_0=-200 +datum=WGS84 +units=m', stere=f'+proj=stere +lat_0={90 if lat0 > 0 else -90} +lon_0={lon0 - 50} +k=0.994 +datum=WGS84 +units=m',
               aeqd=f'+proj=aeqd +lat_0={lat0} +lon_0={lon0} +datum=WGS84 +units=m', **{'3857': 'EPSG:3857', 'utm+egm': utm(lat0, lon0) + '+5773'})[case['crs']]
    d = ctx.tmp()
    path = d / 'pose.csv'
    pos = case['pos'] if crs else 'lla'
    names = ['filename', *(['latitude', 'longitude', 'altitude'] if pos == 'lla' else ['x', 'y', 'z']), 'roll', 'pitch', 'yaw']
    f = io.StringIO()
    w = csv.writer(f)
    w.writerow(names)
    true = {}
    for i, r in enumerate(rows):
        lla = list(r['lla'])
        xyz = None
        if pos == 'xyz':
            xyz = [v[0] for v in transform(lla_crs, crs, [lla[1]], [lla[0]], [lla[2]])]
            if not np.all(np.isfinite(xyz)):
                return None
            lon, lat, alt = [v[0] for v in transform(crs, lla_crs, *[[v] for v in xyz])]
            lla = [lat, lon, alt]
        ang = list(r['rpy']) if case['radians'] else [math.degrees(a) for a in r['rpy']]
        w.writerow([f'im{i}.tif', *map(repr, lla if pos == 'lla' else xyz), *map(repr, ang)])
        true[f'im{i}.tif'] = (lla, xyz, r['rpy'])
    path.write_text(f.getvalue())
    kw = dict(dialect=Dialect, radians=case['radians'], fieldnames=names)
    if crs:
        kw['crs'] = crs
    if case['lla_crs']:
        kw['lla_crs'] = case['lla_crs']
    # (fieldnames as well as a header, so that there is no dependency on header detection of names)
    rdr = CsvReader(path, **kw)
    if not crs:
        # the automatic CRS is a UTM zone that covers the mean position
        crs = rdr.crs.to_string()
        require(crs.startswith('EPSG:32'), 'automatic CRS is UTM', got=crs)
        code = int(crs[5:])
        lons = np.array([t[0][1] for t in true.values()])
        lats = np.array([t[0][0] for t in true.values()])
        require(32600 < code <= 32660 or 32700 < code <= 32760, 'automatic CRS is UTM', got=crs)
        cm = ((code % 100) - 1) * 6 - 177
        off = (lons - cm + 180) % 360 - 180
        require(abs(off.mean()) <= 3 + 1e-6, 'automatic UTM zone does not cover the mean position', crs=crs, lons=lons)
        require((lats.mean() >= -1e-9) if code < 32700 else (lats.mean() <= 1e-9), 'hemisphere of the automatic UTM zone', crs=crs, lats=lats)
    if case['via'] == 'factory':
        ip = dict(cam=dict(cam_type='pinhole', im_size=(100, 80), focal_len=1.))
        fac = FrameCameras(ip, str(path), io_kwargs=kw)
        require(fac.crs == rio.CRS.from_string(crs), 'factory CRS', got=str(fac.crs), exp=crs)
        ep = rdr.read_ext_param()
        got = {name: (None, fac, ep[name]['opk']) for name in true}
    else:
        ep = rdr.read_ext_param()
        got = {name: (np.array(e['xyz']), None, e['opk']) for name, e in ep.items()}
    require(list(got) == list(true), 'image names')
    labels = {case['crs'], pos, case['via'], 'radians' if case['radians'] else 'degrees'}
    for name, (lla, xyz, rpy) in true.items():
        g, cam, opk = got[name]
        if cam is not None:
            cam = cam.get(name)
            g = np.array(cam.pos, float)
        exp = np.array(xyz or [v[0] for v in transform(lla_crs, crs, [lla[1]], [lla[0]], [lla[2]])])
        require(np.abs(g - exp).max() < 1e-4, 'position', got=g, exp=exp, image=name)
        R = ref.opk_to_R(opk)
        E = ref.rpy_to_R(rpy, lla, crs, lla_crs)
        # (sloping geoid, and the numeric resolution of the north direction)
        tol = 1e-3 if '+5773' in crs else 3e-5
        require(np.abs(R - E).max() < tol, 'orientation', err=np.abs(R - E).max(), opk=opk, R=R, E=E, image=name)
        if cam is not None:
            # a point along each expected camera axis images in the expected place
            for u, v in ((0, 0), (0.2, 0.1), (-0.1, 0.25)):
                p = g + 100 * E @ np.array([u, v, -1.])
                ji = cam.world_to_pixel(p[:, None])[:, 0]
                require(np.abs(ji - (49.5 + 100 * u, 39.5 - 100 * v)).max() < 0.01 + 300 * tol, 'pixel of a point on a known ray', got=ji, exp=(49.5 + 100 * u, 39.5 - 100 * v), image=name)
        if case['crs'] in ('auto', 'utm', 'tmerc', 'stere') and lla_crs in ('EPSG:4979', 'EPSG:4326'):
            # physical directions: of the camera axes in local north-east-down axes, through earth-centred coordinates
            step = 20.
            ends = [g + step * R[:, k] for k in range(3)]
            lon, lat, h = transform(crs, 'EPSG:4979', *np.array([g, *ends]).T.tolist())
            P = [ecef((a, b, c)) for a, b, c in zip(lat, lon, h)]
            N = ned(lla)
            axes = np.column_stack([N @ (p - P[0]) / step for p in P[1:]])
            X = ref.rpy_axes(rpy)[0]
            k = 5e-3 if case['crs'] != 'stere' else 1.5e-2
            require(np.abs(axes - X).max() < k, 'physical camera directions', err=np.abs(axes - X).max(), axes=axes, exp=X, image=name)
            labels.add('physical')
        if case['via'] == 'direct' and MOUNTED:
            C = rio.CRS.from_string(crs)
            opk = param_io._rpy_to_opk(tuple(rpy), tuple(lla), C, rio.CRS.from_string(lla_crs), C_bB=case['mount'])
            M = ref.opk_to_R(opk)
            E = ref.rpy_to_R(rpy, lla, crs, lla_crs, C_bB=case['mount'])
            require(np.abs(M - E).max() < tol, 'orientation with a camera to body alignment', err=np.abs(M - E).max(), mount=case['mount'])
            labels.add('mount')
        if abs(abs(rpy[1]) - H) < 1e-9 or abs(abs(rpy[0]) - H) < 1e-9:
            labels.add('horizontal')
    lons = [t[0][1] for t in true.values()]
    labels |= {'south' if lat0 < 0 else 'north', 'antimeridian' if max(lons) - min(lons) > 180 else 'west' if lons[0] < 0 else 'east', 'polar' if abs(lat0) > 79 else 'mid'}
    return sorted(labels)


SUBS = [
    Sub('pose', case_pose, check_pose, 3200, 60000, 'random poses over the globe, with the resulting position and camera axes compared with PROJ, an axis by axis roll-pitch-yaw reference, and physical directions in earth-centred coordinates; non-trivial = all poses compared'),
]
ASSUMPTIONS = ['PROJ coordinate transforms are trusted', 'roll, pitch and yaw are those of the Pix4D definition that Orthority documents']
