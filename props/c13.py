"""C13: frame camera parameter round trips."""
import json
import warnings
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds, interior
from harness import pio
from orthority import param_io
from orthority.camera import create_camera
from orthority.factory import FrameCameras


@st.composite
def case_files(draw):
    ids = draw(st.lists(pio.names(), min_size=1, max_size=4, unique=True))
    crs = draw(st.sampled_from(pio.CRSS))
    ints = {i: draw(pio.any_interior()) for i in ids}
    files = draw(st.lists(st.one_of(pio.filenames(), pio.filenames(), st.sampled_from(['a/b.tif', 'c/b.tif', 'x/y z/b', './b.tif', 's3://bucket/b.tif'])), min_size=1, max_size=5, unique=True))
    exts = {}
    for f in files:
        cam = draw(st.sampled_from(ids + ([None] if len(ids) == 1 else [])))
        exts[f] = dict(xyz=[draw(pio.value(-1e6, 1e6)) for _ in range(3)], opk=[draw(pio.value(-7, 7)) for _ in range(3)], camera=cam)
    return dict(ints=ints, exts=exts, crs=crs, crs_obj=draw(st.booleans()), kind=draw(st.sampled_from(pio.KINDS)), kind2=draw(st.sampled_from(pio.KINDS)))


def crs_same(a, b, pts=((3e5, 6e6, 100.0), (5e5, -1e6, 0.0), (1e6, 1e6, 2000.0))):
    """Whether CRSs are equivalent, by the coordinates they give."""
    if a == b:
        return True
    for p in pts:
        x = transform(a, b, *[[v] for v in p])
        if not np.allclose(np.ravel(x), p, rtol=0, atol=1e-4):
            return False
        g = [np.ravel(transform(c, 'EPSG:4979', *[[v] for v in p])) for c in (a, b)]
        if not np.allclose(*g, rtol=0, atol=[1e-9, 1e-9, 1e-4], equal_nan=True):
            return False
    return True


def check_files(case, ctx):
    d = ctx.tmp()
    ints = {k: pio.to_int(v) for k, v in case['ints'].items()}
    exts = {k: dict(xyz=tuple(v['xyz']), opk=tuple(v['opk']), camera=v['camera']) for k, v in case['exts'].items()}
    crs = rio.CRS.from_string(case['crs']) if case['crs_obj'] else case['crs']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = pio.write_read(case['kind'], d, 'int.yaml', lambda f: param_io.write_int_param(f, ints), param_io.read_oty_int_param)
    require(list(got) == list(ints), 'camera IDs', got=list(got), exp=list(ints))
    for k in ints:
        require(pio.exact({n: got[k][n] for n in sorted(got[k])}, {n: ints[k][n] for n in sorted(ints[k])}), 'interior parameters', got=got[k], exp=ints[k])
        require(got[k]['cam_type'] is ints[k]['cam_type'], 'camera type')
    reader = pio.write_read(case['kind2'], d, 'ext.geojson', lambda f: param_io.write_ext_param(f, exts, crs), param_io.OtyReader)
    ext = reader.read_ext_param()
    require(list(ext) == list(exts), 'image names', got=list(ext), exp=list(exts))
    for k in exts:
        require(pio.exact({n: ext[k][n] for n in sorted(ext[k])}, {n: exts[k][n] for n in sorted(exts[k])}), 'exterior parameters', got=ext[k], exp=exts[k])
    require(crs_same(rio.CRS.from_string(case['crs']), reader.crs), 'world CRS', got=str(reader.crs), exp=case['crs'])
    # GeoJSON geometry is the geographic position
    path = d / 'ext.geojson'
    if path.exists():
        for f in json.loads(path.read_text())['features']:
            e = exts[f['properties']['filename']]
            lla = [v[0] for v in transform(rio.CRS.from_string(case['crs']), rio.CRS.from_epsg(4979), *[[v] for v in e['xyz']])]
            c = f['geometry']['coordinates']
            require(np.allclose(c, lla, rtol=1e-12, atol=1e-9, equal_nan=True) or not np.all(np.isfinite(lla)), 'geometry', got=c, exp=lla)
    # and once more: written parameters of a read file are the same file
    if path.exists():
        param_io.write_ext_param(d / 'ext2.geojson', ext, reader.crs)
        r2 = param_io.OtyReader(d / 'ext2.geojson')
        require(r2.read_ext_param() == ext and r2.crs == reader.crs, 'second round trip')
    return [case['kind'], case['kind2'], f'cams{len(ints)}', f'images{len(exts)}', 'epsg' if case['crs'].startswith('EPSG') else 'proj4'] + sorted({v['cam_type'] for v in case['ints'].values()})


@st.composite
def case_factory(draw):
    n = draw(st.integers(1, 3))
    ids = draw(st.lists(pio.names(), min_size=n, max_size=n, unique=True))
    ints = {i: draw(interior()) for i in ids}
    files = draw(st.lists(pio.filenames(), min_size=1, max_size=4, unique=True))
    exts = {f: dict(xyz=[draw(fl(1e5, 9e5)), draw(fl(-2e6, 2e6)), draw(fl(100, 5000))], opk=[draw(fl(-0.5, 0.5)), draw(fl(-0.5, 0.5)), draw(fl(-3.14, 3.14))],
                    camera=draw(st.sampled_from(ids + ([None] if n == 1 else [])))) for f in files}
    return dict(ints=ints, exts=exts, crs=draw(st.sampled_from(pio.CRSS)), seed=draw(seeds()), ofile=draw(st.booleans()), distort=draw(st.booleans()), alpha=draw(st.sampled_from([0.0, 0.5, 1.0])))


def check_factory(case, ctx):
    import fsspec
    d = ctx.tmp()
    ints = {k: pio.to_int(v) for k, v in case['ints'].items()}
    exts = {k: dict(xyz=tuple(v['xyz']), opk=tuple(v['opk']), camera=v['camera']) for k, v in case['exts'].items()}
    kw = dict(distort=case['distort'], alpha=case['alpha'])
    src = FrameCameras(ints, exts, io_kwargs=dict(crs=case['crs']), cam_kwargs=kw)
    src.write_param(fsspec.open(str(d), 'wt') if case['ofile'] else d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dst = FrameCameras(d / 'int_param.yaml', d / 'ext_param.geojson', cam_kwargs=kw)
    require(dst.filenames == set(exts), 'image names')
    require(crs_same(rio.CRS.from_string(case['crs']), dst.crs), 'world CRS', got=str(dst.crs))
    rng = np.random.default_rng(case['seed'])
    for f, e in exts.items():
        if '.' in f and f.split('.')[0] == '' or f in ('..', '.'):
            continue
        a, b = src.get(f), None
        w, h = a.im_size
        ji = rng.uniform(0, 1, (2, 20)) * [[w - 1], [h - 1]]
        xyz_a = a.pixel_to_world_z(ji, e['xyz'][2] - 50)
        b = dst.get(f)
        require(b.im_size == a.im_size and type(a) is type(b), 'camera type or size')
        xyz_b = b.pixel_to_world_z(ji, e['xyz'][2] - 50)
        require(np.array_equal(xyz_a, xyz_b, equal_nan=True), 'pixel to world of the re-imported camera differs')
        ip = ints[e['camera'] or list(ints)[0]]
        c = create_camera(**ip, xyz=e['xyz'], opk=e['opk'], **kw)
        pts = np.array(e['xyz'])[:, None] + rng.uniform(-1, 1, (3, 20)) * [[30], [30], [5]] - [[0], [0], [100]]
        pb, pc = b.world_to_pixel(pts), c.world_to_pixel(pts)
        require(np.array_equal(pb, pc, equal_nan=True), 'world to pixel of the re-imported camera differs', err=np.nanmax(np.abs(pb - pc)))
    return [f'cams{len(ints)}', f'images{len(exts)}']


SUBS = [
    Sub('files', case_files, check_files, 1200, 30000, 'random cameras (IDs that are special in YAML, unicode), parameters of any magnitude, images and world CRSs, via each kind of file argument; non-trivial = values compared'),
    Sub('factory', case_factory, check_factory, 500, 8000, 'camera factories exported and re-imported, with projections compared with originals and directly constructed cameras; non-trivial = all compared'),
]
