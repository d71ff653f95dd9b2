"""C27: processing failures are reported, and a repeat run recovers."""
import warnings
import numpy as np
import rasterio as rio
from hypothesis import strategies as st
from harness import clic, imgs, orthoc, pansh
from harness.engine import Sub, Violation, require
from harness.gen import fl

ERRORS = ['ValueError', 'MemoryError', 'RuntimeError', 'OSError', 'IndexError', 'KeyError']
LAYOUTS = [dict(tiled=True, blockxsize=16, blockysize=16), dict(tiled=True, blockxsize=32, blockysize=16), dict(blockysize=5), {}]


class Injected(Exception):
    pass


class Fault:
    """Raise on the n-th call of fn, or from the n-th call on."""

    def __init__(self, fn, n, name, on=False):
        import builtins, threading
        self.fn, self.n, self.count, self.on = fn, n, 0, on
        self.type = getattr(builtins, name)
        self.lock = threading.Lock()
        self.hit = False

    def __call__(self, *a, **k):
        with self.lock:
            self.count += 1
            if self.count == self.n or (self.on and self.count > self.n):
                self.hit = True
                raise self.type('injected')
        return self.fn(*a, **k)


def rewrite(path, bs=16):
    """Rewrite an image in small compressed blocks."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as im:
            a, p = im.read(), dict(im.profile)
    for k in ('blockxsize', 'blockysize', 'interleave', 'compress', 'tiled', 'width', 'height', 'count', 'dtype', 'driver'):
        p.pop(k, None)
    if p.get('crs') is None:
        p.pop('transform', None)
    imgs.write_tif(path, a, tiled=True, blockxsize=bs, blockysize=bs, compress='deflate', **p)


def corrupt(path, pick, inner=None):
    """Destroy the compressed data of blocks of an image: pick is a fraction to choose a block, or None for all."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as im:
            offs = []
            for (i, j), _ in im.block_windows(1):
                o = im.get_tag_item(f'BLOCK_OFFSET_{j}_{i}', 'TIFF', bidx=1)
                if o:
                    offs.append(int(o))
    assert offs
    b = bytearray(path.read_bytes())
    sel = offs if pick is None else [offs[min(int(pick * len(offs)), len(offs) - 1)]]
    for o in sel:
        b[o : o + 2] = b'\xff\xff'
    path.write_bytes(bytes(b))


def same(a, b):
    return a[0].shape == b[0].shape and np.array_equal(a[0], b[0], equal_nan=a[0].dtype.kind == 'f') and np.array_equal(a[1], b[1])


@st.composite
def case_ortho(draw):
    c = draw(orthoc.scenario(lo=24, hi=70, kinds=('flat', 'plane'), dem_crs=('same', 'same', 'geo')))
    c.update(kind=draw(st.sampled_from(['remap', 'remap', 'read', 'src', 'src', 'dem'])), pick=draw(st.one_of(st.none(), fl(0, 1, 2))), at=draw(fl(0, 1, 3)), on=draw(st.booleans()),
             err=draw(st.sampled_from(ERRORS)), layout=draw(st.integers(0, len(LAYOUTS) - 1)), per_band=draw(st.booleans()), driver=draw(st.sampled_from(['gtiff', 'gtiff', 'gtiff', 'cog'])),
             reuse=draw(st.booleans()), src_as=draw(st.sampled_from(['path', 'path', 'ds'])))
    return c


def check_ortho(case, ctx):
    from orthority.ortho import Ortho
    d = ctx.tmp()
    s = orthoc.build(case, d)
    if s is None:
        return None
    rewrite(s.src)
    rewrite(s.dem)
    good = {p: p.read_bytes() for p in (s.src, s.dem)}
    kw = dict(per_band=case['per_band'], interp='bilinear', build_ovw=False)
    if case['driver'] == 'cog':
        kw.update(driver='cog', compress='deflate')
    else:
        kw['creation_options'] = dict(LAYOUTS[case['layout']], compress='deflate')
    cam = orthoc.camera(s)
    counts = {k: Fault(getattr(cam, k), -1, 'ValueError') for k in ('remap', 'read')}
    for k, f in counts.items():
        setattr(cam, k, f)
    ref = d / 'ref.tif'
    Ortho(s.src, s.dem, cam, crs=s.crs).process(ref, **kw)
    R = orthoc.read(ref)
    for k in counts:
        delattr(cam, k)
    kind = case['kind']
    out = d / 'out.tif'
    o = fault = None
    if kind in counts:
        n = counts[kind].count
        if not n:  # (not processed through this method)
            return None
        fault = Fault(getattr(cam, kind), 1 + min(int(case['at'] * n), n - 1), case['err'], case['on'])
        setattr(cam, kind, fault)
    else:
        corrupt(getattr(s, kind), case['pick'] if kind == 'src' else None)
    bad = {p: p.read_bytes() for p in (s.src, s.dem)}
    raised = False
    try:
        if kind == 'src' and case['src_as'] == 'ds':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with rio.open(s.src) as ds:
                    Ortho(ds, s.dem, cam, crs=s.crs).process(out, **kw)
        else:
            o = Ortho(s.src, s.dem, cam, crs=s.crs)
            o.process(out, **kw)
    except Exception:
        raised = True
    if fault and not fault.hit:
        return None
    require(raised, 'processing succeeded though part of it failed', fault=kind, pick=case['pick'])
    for p in bad:
        require(p.read_bytes() == bad[p], 'input was modified', file=p.name)
    # remove the cause, and repeat
    if fault:
        delattr(cam, kind)
    for p in good:
        p.write_bytes(good[p])
    if not (case['reuse'] and o):
        o = Ortho(s.src, s.dem, cam, crs=s.crs)
    o.process(out, overwrite=True, **kw)
    require(same(orthoc.read(out), R), 'run after a failure differs from one which never failed', fault=kind)
    return [kind, case['driver']]


@st.composite
def case_pan(draw):
    c = draw(pansh.scenario(geo=('both', 'none')))
    c.update(kind=draw(st.sampled_from(['pan', 'ms'])), pick=draw(st.one_of(st.none(), fl(0, 1, 2))), reuse=draw(st.booleans()), layout=draw(st.integers(0, len(LAYOUTS) - 1)),
             off=[0.0, 0.0], cover=[1.0, 1.0], nd=None, weights=draw(st.booleans()), progress=False, cli=draw(st.sampled_from([False, False, True])), ms_size=[draw(st.integers(17, 40)), draw(st.integers(17, 40))])
    c['weights'] = [1.0] * (len(c['ms_indexes']) if c['ms_indexes'] else c['bands']) if c['weights'] else None
    return c


def check_pan(case, ctx):
    from orthority.pan_sharp import PanSharpen
    d = ctx.tmp()
    s = pansh.build(case, d)
    files = dict(pan=s.pan_file, ms=s.ms_file)
    for f in files.values():
        rewrite(f)
    good = {p: p.read_bytes() for p in files.values()}
    kw = dict(pansh.kwargs(case), build_ovw=False, creation_options=dict(LAYOUTS[case['layout']], compress='deflate'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ps = PanSharpen(s.pan_file, s.ms_file)
        try:
            ps.process(d / 'ref.tif', **kw)
        except Exception:
            return None
        R = orthoc.read(d / 'ref.tif')
        bad_file = files[case['kind']]
        corrupt(bad_file, case['pick'])
        bad = bad_file.read_bytes()
        out = d / 'out.tif'
        if case['cli']:
            args = ['sharpen', '-p', s.pan_file, '-m', s.ms_file, '-of', out, '-pi', case['pan_index'], '-nbo']
            r = clic.invoke(args)
            require(r.exit_code != 0, 'command line succeeded though part of an image could not be read', fault=case['kind'], pick=case['pick'])
        else:
            raised = False
            try:
                (ps if case['reuse'] else PanSharpen(s.pan_file, s.ms_file)).process(out, **kw)
            except Exception:
                raised = True
            require(raised, 'pan-sharpening succeeded though part of an image could not be read', fault=case['kind'], pick=case['pick'])
        require(bad_file.read_bytes() == bad, 'input was modified')
        for p in good:
            p.write_bytes(good[p])
        (ps if case['reuse'] else PanSharpen(s.pan_file, s.ms_file)).process(out, overwrite=True, **kw)
        require(same(orthoc.read(out), R), 'run after a failure differs from one which never failed', fault=case['kind'])
    return [case['kind'], 'cli' if case['cli'] else 'api', 'all' if case['pick'] is None else 'block']


@st.composite
def case_cli(draw):
    c = draw(orthoc.scenario(cams=('frame',), lo=24, hi=50, kinds=('flat',), dem_crs=('same',), crss=['utm35s', 'utm33n', 'lo19']))
    c.update(pick=draw(st.one_of(st.none(), fl(0, 1, 2))), n=draw(st.integers(1, 3)), bad=draw(st.integers(0, 2)), kind=draw(st.sampled_from(['src', 'src', 'dem'])), layout=draw(st.sampled_from([[], ['-co', 'tiled=yes', '-co', 'blockxsize=16', '-co', 'blockysize=16']])))
    c['bad'] %= c['n']
    return c


def check_cli(case, ctx):
    """A batch with an unreadable image or DEM."""
    import shutil
    from orthority import param_io
    from harness import gen
    d = ctx.tmp()
    s = orthoc.build(case, d)
    if s is None:
        return None
    rewrite(s.src)
    rewrite(s.dem)
    srcs = []
    for k in range(case['n']):
        srcs.append(d / f'im{k}.tif')
        shutil.copyfile(s.src, srcs[-1])
    kw = gen.camera_kwargs(s.ip, s.ep)
    ep = {p.name: dict(xyz=tuple(s.ep['xyz']), opk=tuple(s.ep['opk']), camera='cam') for p in srcs}
    from orthority.enums import CameraType
    ip = {k: v for k, v in kw.items() if k not in ('xyz', 'opk')}
    ip['cam_type'] = CameraType(ip['cam_type'])
    param_io.write_int_param(d / 'int.yaml', {'cam': ip})
    param_io.write_ext_param(d / 'ext.geojson', ep, crs=s.crs)
    args = ['frame', '-ip', d / 'int.yaml', '-ep', d / 'ext.geojson', '-d', s.dem, '-od', d, '-o', '-nbo', *case['layout']]
    r = clic.invoke([*args, *srcs])
    require(r.exit_code == 0, 'command line fails with readable images', **clic.text(r))
    R = [orthoc.read(d / f'{p.stem}_ORTHO.tif') for p in srcs]
    f = srcs[case['bad']] if case['kind'] == 'src' else s.dem
    g = f.read_bytes()
    corrupt(f, case['pick'] if case['kind'] == 'src' else None)
    r = clic.invoke([*args, *srcs])
    require(r.exit_code != 0, 'command line succeeded though an image could not be read', fault=case['kind'], pick=case['pick'])
    f.write_bytes(g)
    r = clic.invoke([*args, *srcs])
    require(r.exit_code == 0, 'command line fails after the cause of a failure is removed', **clic.text(r))
    for p, e in zip(srcs, R):
        require(same(orthoc.read(d / f'{p.stem}_ORTHO.tif'), e), 'run after a failure differs from one which never failed', image=p.name)
    return [case['kind'], str(case['n'])]


@st.composite
def case_tags(draw):
    n = draw(st.integers(1, 5))
    return dict(what=draw(st.sampled_from(['rpc', 'gcps', 'exif'])), n=n, bad=draw(st.integers(0, n - 1)), how=draw(st.sampled_from(['text', 'empty', 'missing', 'header', 'dir'])),
                rpc=draw(gen_rpc()), factory=draw(st.booleans()), z=draw(fl(10, 900, 1)))


def gen_rpc():
    from harness import gen
    return gen.rpc(size=(12, 9))


def check_tags(case, ctx):
    """Reading the tags of images, one of which can't be read."""
    from rasterio.control import GroundControlPoint
    from rasterio.rpc import RPC
    from harness import exifw
    from orthority import param_io
    from orthority.factory import FrameCameras, RpcCameras
    d = ctx.tmp()
    w, h = case['rpc']['im_size']
    files = []
    for k in range(case['n']):
        f = d / f'im{k}.{"jpg" if case["what"] == "exif" else "tif"}'
        if case['what'] == 'exif':
            ns = 'http://www.dji.com/drone-dji/1.0/'
            x = f'<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:drone-dji="{ns}" ' \
                f'drone-dji:GpsLatitude="-33.{k}1" drone-dji:GpsLongtitude="24.{k}2" drone-dji:AbsoluteAltitude="{case["z"]}" ' \
                'drone-dji:GimbalRollDegree="0.5" drone-dji:GimbalPitchDegree="-89.0" drone-dji:GimbalYawDegree="12.5"/></rdf:RDF></x:xmpmeta>'
            exifw.write_jpeg(f, (w, h), dict(FocalLengthIn35mmFilm=28, Make='DJI', Model='M'), x)
        else:
            kw = dict(rpcs=RPC(**case['rpc']['rpc'])) if case['what'] == 'rpc' else dict(crs='EPSG:4979', gcps=[GroundControlPoint(row=1.5 + i, col=2 * i, x=24 + 0.01 * i, y=-33 + 0.02 * i * i, z=case['z']) for i in range(4)])
            imgs.write_tif(f, np.zeros((1, h, w), 'uint8'), **kw)
        files.append(f)

    def read():
        if case['what'] == 'gcps':
            return param_io.read_im_gcps(files)
        if case['what'] == 'rpc':
            return RpcCameras.from_images(files).filenames if case['factory'] else param_io.read_im_rpc_param(files)
        if case['factory']:
            return FrameCameras.from_images(files).filenames
        r = param_io.ExifReader(files)
        r.read_int_param()
        return r.read_ext_param()

    names = {f.name for f in files}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        require(set(read()) == names, 'image names')
        f = files[case['bad']]
        g = f.read_bytes()
        f.unlink()
        if case['how'] == 'dir':
            f.mkdir()
        elif case['how'] != 'missing':
            f.write_bytes(dict(text=b'this is not an image', empty=b'', header=g[:6])[case['how']])
        try:
            r = read()
        except Exception:
            r = None
        require(r is None, 'an image that can not be read is ignored', got=list(r or ()), image=f.name, how=case['how'])
        if case['how'] == 'dir':
            f.rmdir()
        f.write_bytes(g)
        require(set(read()) == names, 'image names after a failure')
    return [case['what'], case['how']]


SUBS = [
    Sub('ortho', case_ortho, check_ortho, 400, 8000, 'orthorectification with a fault: exception in the n-th tile or band read, corrupted block(s) of the source or the DEM; then a repeat without it; non-trivial = the fault was reached'),
    Sub('sharpen', case_pan, check_pan, 240, 5000, 'pan-sharpening (API and command line) with corrupted block(s) of the pan or MS image; then a repeat; non-trivial = the images pan-sharpen without the fault'),
    Sub('cli', case_cli, check_cli, 60, 1500, 'oty frame batch with corrupted block(s) of one image or of the DEM; then a repeat; non-trivial = all'),
    Sub('tags', case_tags, check_tags, 160, 3000, 'RPC, GCP or EXIF / XMP tags of 1 to 5 images, one of which is missing, empty, truncated or not an image; then a repeat; non-trivial = all'),
]
ASSUMPTIONS = ['faults are failing reads and exceptions in tile processing; errors while GDAL flushes cached blocks to a full disk are not reported by rasterio, and not covered']
