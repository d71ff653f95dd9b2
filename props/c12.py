"""C12: existing files are not overwritten unless asked, and inputs are never modified."""
import copy
import os
import warnings
from pathlib import Path
import fsspec
import numpy as np
import rasterio as rio
from rasterio.rpc import RPC
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, rpc, seeds
from harness import clic, imgs
from harness.clic import invoke, text
from orthority import param_io
from orthority.camera import create_camera
from orthority.enums import CameraType, RpcRefine
from orthority.factory import FrameCameras, RpcCameras
from orthority.ortho import Ortho
from orthority.pan_sharp import PanSharpen

CRS = 'EPSG:32735'
XY = (5e5, 6.2e6)
SIZE = (36, 28)
GSD = 2.0
ALT = 700.0
INT = {'cam a': dict(cam_type=CameraType.brown, im_size=SIZE, focal_len=30.0, k1=0.01), 'b': dict(cam_type=CameraType.pinhole, im_size=SIZE, focal_len=(30.0, 31.0), sensor_size=(36.0, 28.0))}
NAMES = ['s1.tif', 's2.tif']
EXT = {n: dict(xyz=(XY[0] + 10.5 * i, XY[1] - 7.25, ALT), opk=(0.02, -0.01 * i, 0.3 + i), camera=c) for i, (n, c) in enumerate(zip(NAMES, INT))}
LONLAT = [v[0] for v in transform(CRS, 'EPSG:4326', [XY[0]], [XY[1]])]


def rpc_dict():
    """RPC of an image around XY."""
    lin = lambda j: [float(i == j) for i in range(20)]
    r = dict(height_off=0.0, height_scale=500.0, lat_off=LONLAT[1], lat_scale=0.001, long_off=LONLAT[0], long_scale=0.001, line_off=SIZE[1] / 2, line_scale=SIZE[1] / 2, samp_off=SIZE[0] / 2, samp_scale=SIZE[0] / 2,
             line_num_coeff=[0.0, 0.0, -1.0, 0.05] + [0.0] * 16, line_den_coeff=lin(0), samp_num_coeff=[0.0, 1.0, 0.0, 0.03] + [0.0] * 16, samp_den_coeff=lin(0), err_bias=None, err_rand=None)
    return r


def gcps():
    out = []
    for i, (u, v) in enumerate([(-0.5, 0.4), (0.3, 0.6), (0.7, -0.5), (-0.2, -0.6)]):
        out.append(dict(ji=(SIZE[0] / 2 * (1 + u) + 1.5, SIZE[1] / 2 * (1 - v) - 0.5), xyz=(LONLAT[0] + 0.001 * u, LONLAT[1] + 0.001 * v, 0.0), id=str(i), info='x'))
    return out


def make_inputs(d, seed):
    """Source images, DEM, pan and MS images, and parameter files."""
    d.mkdir()
    rng = np.random.default_rng(seed)
    for n in NAMES:
        imgs.write_tif(d / n, rng.integers(1, 255, (3, SIZE[1], SIZE[0]), 'uint8'))
    rp = RPC(**rpc_dict())
    for n in ('r1.tif', 'r2.tif'):
        with rio.open(d / n, 'w', driver='GTiff', width=SIZE[0], height=SIZE[1], count=1, dtype='uint16') as ds:
            ds.rpcs = rp
            ds.write(rng.integers(1, 999, (1, SIZE[1], SIZE[0]), 'uint16'))
    res = 30.0
    imgs.write_tif(d / 'dem.tif', rng.uniform(0, 20, (1, 120, 120)).astype('float32'), crs=CRS, transform=rio.Affine(res, 0, XY[0] - 60 * res, 0, -res, XY[1] + 60 * res))
    pan = rng.integers(10, 200, (1, 40, 48), 'uint8')
    imgs.write_tif(d / 'pan.tif', pan, crs=CRS, transform=rio.Affine(1, 0, XY[0], 0, -1, XY[1]))
    ms = np.stack([pan[0, ::2, ::2] // k + rng.integers(0, 20, (20, 24)) for k in (1, 2, 3)]).astype('uint8')
    imgs.write_tif(d / 'ms.tif', ms, crs=CRS, transform=rio.Affine(2, 0, XY[0], 0, -2, XY[1]))
    param_io.write_int_param(d / 'int.yaml', copy.deepcopy(INT))
    param_io.write_ext_param(d / 'ext.geojson', copy.deepcopy(EXT), CRS)
    param_io.write_rpc_param(d / 'rpc.yaml', {n: dict(cam_type=CameraType.rpc, im_size=SIZE, rpc=rpc_dict()) for n in ('r1.tif', 'r2.tif')})
    param_io.write_gcps(d / 'gcps.geojson', {n: gcps() for n in ('r1.tif', 'r2.tif')})
    return d


def snap(d):
    """Contents of a directory."""
    return {str(p.relative_to(d)): p.read_bytes() for p in d.rglob('*') if p.is_file()} if d.exists() else {}


def changed(a, b):
    return sorted(k for k in {*a, *b} if a.get(k) != b.get(k))


def aux(names):
    return {n for n in names if not n.endswith('.aux.xml')}


def inputs_same(before, after):
    ch = [k for k in before if before[k] != after.get(k)]
    require(not ch, 'input files were modified', files=ch)


VALID = {}


def content(kind, size, d):
    """Bytes of a file that exists already."""
    if kind == 'empty':
        return b''
    if kind == 'text':
        return b'some notes\n' * (size + 1)
    if kind == 'bytes':
        return np.random.default_rng(size).bytes(50 + size * 40)
    p = d / 'tmp.tif'
    kw = dict(driver='GTiff', crs='EPSG:4326', transform=rio.Affine(1e-5, 0, 20, 0, -1e-5, -30), nodata=7)
    if kind in ('cog', 'partial'):
        kw = dict(driver='COG', blocksize=128)
    if kind == 'png':
        kw = dict(driver='PNG')
    n = 20 + size * 10
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(p, 'w', width=n, height=n, count=4 if kind == 'png' else 5, dtype='uint8', **kw) as ds:
            ds.write(np.full((ds.count, n, n), 99, 'uint8'))
            ds.update_tags(OLD='yes')
    b = p.read_bytes()
    for q in d.glob('tmp.tif*'):
        q.unlink()
    if kind in ('partial', 'header'):
        b = b[: {'partial': len(b) // 2, 'header': 60 + size}[kind]]
    return b


CONTENTS = ['empty', 'text', 'bytes', 'tif', 'tif', 'cog', 'png', 'partial', 'header']


def as_target(kind, path, mode):
    if kind == 'str':
        return str(path)
    if kind == 'uri':
        return f'file://{path}'
    if kind == 'ofile':
        return fsspec.open(str(path), mode)
    return path


def frame_camera(n):
    return create_camera(**INT[EXT[n]['camera']], xyz=EXT[n]['xyz'], opk=EXT[n]['opk'])


def writers(inp, c):
    """Name of operation -> (files it writes, function of the directory, file argument kind and overwrite argument)."""
    iv = c['variant']
    ints = dict(list(copy.deepcopy(INT).items())[: 1 + iv % 2])
    exts = {n: e for n, e in copy.deepcopy(EXT).items() if e['camera'] in ints}
    rpcs = {n: dict(cam_type=CameraType.rpc, im_size=SIZE, rpc=rpc_dict()) for n in ['r1.tif', 'r2.tif'][: 1 + iv % 2]}
    gc = {n: gcps()[: 3 + iv] for n in rpcs}
    data = dict(int=ints, ext=exts, rpc=rpcs, gcp=gc)

    def ortho(d, kind, ow):
        kw = dict(driver=c['driver'], build_ovw=c['ovw'], resolution=(GSD * (8 + iv), GSD * (8 + iv)), **ow)
        Ortho(inp / 's1.tif', inp / 'dem.tif', frame_camera('s1.tif'), CRS).process(as_target(kind, d / 'o.tif', 'wb'), **{k: v for k, v in kw.items() if v is not None})

    def pan(d, kind, ow):
        kw = dict(driver=c['driver'], build_ovw=c['ovw'], ms_indexes=[1, 2, 3][: 1 + iv], **ow)
        PanSharpen(inp / 'pan.tif', inp / 'ms.tif').process(as_target(kind, d / 'o.tif', 'wb'), **{k: v for k, v in kw.items() if v is not None})

    def frame(d, kind, ow):
        FrameCameras(ints, exts, io_kwargs=dict(crs=CRS)).write_param(as_target(kind, d, 'wt'), **ow)

    def rpc_(d, kind, ow):
        f = RpcCameras(rpcs)
        if iv:
            f.refine(gc, **({} if iv == 1 else dict(fit_kwargs=dict(method=RpcRefine.shift_drift))))
        f.write_param(as_target(kind, d, 'wt'), **ow)

    w = dict(
        ortho=(['o.tif'], ortho), pan=(['o.tif'], pan),
        int=(['p.yaml'], lambda d, k, ow: param_io.write_int_param(as_target(k, d / 'p.yaml', 'wt'), ints, **ow)),
        ext=(['p.geojson'], lambda d, k, ow: param_io.write_ext_param(as_target(k, d / 'p.geojson', 'wt'), exts, CRS, **ow)),
        rpc=(['p.yaml'], lambda d, k, ow: param_io.write_rpc_param(as_target(k, d / 'p.yaml', 'wt'), rpcs, **ow)),
        gcp=(['p.geojson'], lambda d, k, ow: param_io.write_gcps(as_target(k, d / 'p.geojson', 'wt'), gc, **ow)),
        frame_factory=(['int_param.yaml', 'ext_param.geojson'], frame), rpc_factory=(['rpc_param.yaml'] + (['gcps.geojson'] if iv else []), rpc_),
    )
    return *w[c['op']], data


OPS = ['ortho', 'ortho', 'pan', 'pan', 'int', 'ext', 'rpc', 'gcp', 'frame_factory', 'rpc_factory']


@st.composite
def step(draw):
    return dict(op=draw(st.sampled_from(OPS)), variant=draw(st.integers(0, 2)), driver=draw(st.sampled_from([None, None, 'gtiff', 'cog'])), ovw=draw(st.sampled_from([None, True, False])), overwrite=draw(st.sampled_from([True, True, False, None])), kind=draw(st.sampled_from(['path', 'str', 'ofile', 'uri'])),
                put=draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 1), st.sampled_from(CONTENTS), st.integers(0, 40)).map(list))))


@st.composite
def case_api(draw):
    return dict(seed=draw(seeds()), steps=draw(st.lists(step(), min_size=1, max_size=4)))


def same_outputs(files, d, exp, before, op):
    """Outputs in d are those written to an empty directory."""
    got = snap(d)
    for f in files:
        require(f in got, 'output was not written', file=f)
        if f.endswith('.tif'):
            a, b = clic.image(d / f), clic.image(exp / f)
            require(a[2] == b[2], 'format of overwritten image differs from that of a new image', diff={k: (a[2].get(k), b[2].get(k)) for k in b[2] if a[2].get(k) != b[2].get(k)})
            require(np.array_equal(a[0], b[0], equal_nan=a[0].dtype.kind == 'f') and np.array_equal(a[1], b[1]), 'overwritten image differs from a new image')
            with rio.open(d / f) as x, rio.open(exp / f) as y:
                require(x.tags() == y.tags() and [Path(v).name for v in x.files] == [Path(v).name for v in y.files], 'metadata of the old image remains', got=(x.tags(), x.files))
        else:
            require(got[f] == (exp / f).read_bytes(), 'overwritten file differs from a new file', file=f, got=got[f][:200], exp=(exp / f).read_bytes()[:200])
    other = [k for k in {*aux(got), *aux(before)} if got.get(k) != before.get(k) and k not in files]
    require(not other, 'other files changed', files=other)


def check_api(c, ctx):
    root = ctx.tmp()
    inp = make_inputs(root / 'in', c['seed'])
    before_in = snap(inp)
    d = root / 'out'
    d.mkdir()
    labels = set()
    for i, s in enumerate(c['steps']):
        files, fn, data = writers(inp, s)
        if s['put']:
            f = files[s['put'][0] % len(files)]
            (d / f).write_bytes(content(s['put'][1], s['put'][2], root))
        exist = [f for f in files if (d / f).exists()]
        before = snap(d)
        keep = copy.deepcopy(data)
        if s['op'].endswith('factory') and s['kind'] == 'uri':
            s = dict(s, kind='str')
        err = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                fn(d, s['kind'], {} if s['overwrite'] is None else dict(overwrite=s['overwrite']))
            except FileExistsError as ex:
                err = ex
        after = snap(d)
        inputs_same(before_in, snap(inp))
        require(repr(data) == repr(keep), 'parameters to write were modified', op=s['op'])
        if exist and not s['overwrite']:
            require(err is not None, 'no error for an existing file', op=s['op'], existing=exist)
            ch = [f for f in before if before[f] != after.get(f)]
            require(not ch, 'existing file was changed', op=s['op'], files=ch)
            require(len(files) > 1 or set(before) == set(after), 'files were written', new=sorted(set(after) - set(before)))
            labels |= {'exists', s['op']}
            continue
        require(err is None, 'FileExistsError for a new or overwritten file', op=s['op'], existing=exist, overwrite=s['overwrite'], err=str(err))
        exp = root / f'exp{i}'
        exp.mkdir()
        files, fn, _ = writers(inp, s)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(exp, 'path', {})
        same_outputs(files, d, exp, before, s['op'])
        labels |= {'overwrite' if exist else 'new', s['op']}
        if exist and s['put']:
            labels.add('over ' + s['put'][1])
    return sorted(labels)


# --- command line
@st.composite
def case_cli(draw):
    cmd = draw(st.sampled_from(['frame', 'frame', 'rpc', 'sharpen', 'frame-export', 'rpc-refine-export', 'legacy']))
    n = draw(st.integers(1, 2))
    return dict(cmd=cmd, n=n, seed=draw(seeds()), put=draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(CONTENTS), st.integers(0, 40)).map(list), max_size=2)), runs=draw(st.lists(st.booleans(), min_size=1, max_size=3)), short=draw(st.booleans()))


def command(c, inp, out):
    """(arguments, files written)."""
    n = c['n']
    src = [inp / f for f in (NAMES if c['cmd'] in ('frame', 'frame-export', 'legacy') else ['r1.tif', 'r2.tif'])[:n]]
    res = ['-r', '20', '-d', inp / 'dem.tif']
    orthos = [f'{p.stem}_ORTHO.tif' for p in src]
    if c['cmd'] == 'frame':
        return ['frame', '-ip', inp / 'int.yaml', '-ep', inp / 'ext.geojson', *res, '-od', out, *src], orthos
    if c['cmd'] == 'frame-export':
        return ['frame', '-ip', inp / 'int.yaml', '-ep', inp / 'ext.geojson', '--export-params', '-od', out, *src], ['int_param.yaml', 'ext_param.geojson']
    if c['cmd'] == 'rpc':
        return ['rpc', '-rp', inp / 'rpc.yaml', '-c', CRS, *res, '-od', out, *src], orthos
    if c['cmd'] == 'rpc-refine-export':
        return ['rpc', '-rp', inp / 'rpc.yaml', '-gr', inp / 'gcps.geojson', '--export-params', '-od', out, *src], ['rpc_param.yaml', 'gcps.geojson']
    if c['cmd'] == 'sharpen':
        return ['sharpen', '-p', inp / 'pan.tif', '-ms', inp / 'ms.tif', '-of', out / 'ps.tif'], ['ps.tif']
    raise ValueError


def check_cli(c, ctx):
    if c['cmd'] == 'legacy':
        c = dict(c, cmd='frame')
    root = ctx.tmp()
    inp = make_inputs(root / 'in', c['seed'])
    before_in = snap(inp)
    d, exp = root / 'out', root / 'exp'
    d.mkdir()
    exp.mkdir()
    args, files = command(c, inp, d)
    for j, k, size in c['put']:
        (d / files[j % len(files)]).write_bytes(content(k, size, root))
    labels = {c['cmd']}
    fresh = False
    for ow in c['runs']:
        before = snap(d)
        exist = [f for f in files if f in before]
        r = invoke(args + (['-o' if c['short'] else '--overwrite'] if ow else []))
        after = snap(d)
        inputs_same(before_in, snap(inp))
        if exist and not ow:
            require(r.exit_code != 0, 'command overwrites without the option', files=exist, **text(r))
            require(isinstance(r.exception, (FileExistsError, SystemExit)), 'error of the command', **text(r))
            ch = [f for f in before if before[f] != after.get(f)]
            require(not ch, 'existing file was changed', cmd=c['cmd'], files=ch)
            labels.add('exists')
            continue
        require(r.exit_code == 0, 'command failed', existing=exist, overwrite=ow, **text(r))
        if not fresh:
            fresh = True
            r = invoke(command(c, inp, exp)[0])
            require(r.exit_code == 0, 'command failed with an empty output directory', **text(r))
        same_outputs(files, d, exp, before, c['cmd'])
        labels.add('overwrite' if exist else 'new')
    return sorted(labels)


SUBS = [
    Sub('api', case_api, check_api, 400, 6000, 'random sequences of writes of images and parameters, with and without overwriting, over files with random contents: existing files and inputs are compared byte for byte, overwritten with new outputs; non-trivial = all'),
    Sub('cli', case_cli, check_cli, 160, 2400, 'repeated commands, with and without --overwrite, over files with random contents; non-trivial = all'),
]
ASSUMPTIONS = ['GDAL .aux.xml sidecars of outputs are not considered', 'output paths are not those of inputs']
