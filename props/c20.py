"""C20: camera factories."""
import json
import warnings
from contextlib import ExitStack
from copy import deepcopy
from pathlib import Path
import numpy as np
import rasterio as rio
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, interior, rpc, seeds
from harness import imgs, pio
from orthority.camera import create_camera
from orthority.errors import ParamError
from orthority.factory import FrameCameras, RpcCameras
from orthority.fit import refine_rpc
from orthority.param_io import OtyReader, read_oty_gcps, read_oty_int_param, read_oty_rpc_param, write_ext_param, write_gcps, write_int_param, write_rpc_param

NAMES = ['a.tif', 'a', 'b.tif', 'b', 'c', 'c.d', 'c.d.tif', 'e f.jpg', '3324c_2015', 'a.TIF', 'a.jpg']
HOWS = ['name', 'path', 'Path', 'uri', 'ofile', 'ds']


def request(how, name, d):
    """File argument of a factory's get() (and clean up)."""
    import fsspec
    if how == 'name':
        return name, None
    if how == 'path':
        return f'/x/y/{name}', None
    if how == 'Path':
        return Path('some dir') / name, None
    if how == 'uri':
        return f'https://host/dir/{name}', None
    if how == 'ofile':
        return fsspec.open(str(d / name), 'rb'), None
    p = d / 'ims' / name
    p.parent.mkdir(exist_ok=True)
    if not p.exists():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.open(p, 'w', driver='GTiff', width=4, height=3, count=1, dtype='uint8') as ds:
                ds.write(np.ones((1, 3, 4), 'uint8'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ds = rio.open(p)
    return ds, ds.close


def key_of(name, keys):
    """Key for an image name: its full name, otherwise its name without extension."""
    return name if name in keys else Path(name).stem if Path(name).stem in keys else None


def other(name, i):
    """Names an image might have."""
    return [name, name, f'{name}.tif', f'{Path(name).stem}', f'{Path(name).stem}.png'][i]


OPS = st.lists(st.tuples(st.sampled_from(['get'] * 7 + ['write', 'refine', 'refine', 'unknown', 'filenames']), st.integers(0, 4), st.integers(0, 4), st.sampled_from(HOWS), seeds()).map(list), min_size=2, max_size=12)


@st.composite
def case_frame(draw):
    ids = draw(st.lists(st.sampled_from(['cam', 'x y', '1', 'z']), min_size=1, max_size=3, unique=True))
    ints = {}
    for i in ids:
        p = draw(interior())
        p['im_size'] = [max(2, v % 60 + 4) for v in p['im_size']]
        ints[i] = p
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    exts = {}
    for n in names:
        exts[n] = dict(xyz=[draw(fl(-1000, 1000)), draw(fl(-1000, 1000)), draw(fl(100, 3000))], opk=[draw(fl(-.6, .6)), draw(fl(-.6, .6)), draw(fl(-3.1, 3.1))], camera=draw(st.sampled_from([*ids, *ids, *ids, None, 'unknown'])))
        if exts[n]['camera'] is None and draw(st.booleans()):
            del exts[n]['camera']
    return dict(ints=ints, exts=exts, src=draw(st.sampled_from(['dict', 'dict', 'file'])), cam=draw(st.sampled_from([{}, {}, dict(distort=False), dict(distort=False, alpha=1.0)])), ops=draw(OPS), crs=draw(st.sampled_from(['EPSG:32735', '+proj=utm +zone=35 +south +datum=WGS84', 'obj'])),
                keep=draw(st.booleans()))


PTS = np.array([[0, 10, -30, 25, 40.], [0, -20, 15, 35, -40.], [-100, -120, -150, -90, -200.]])


def same_frame(cam, exp, msg, **kw):
    """Require cameras equal."""
    require(type(cam) == type(exp), msg + ': camera type', got=type(cam).__name__, exp=type(exp).__name__, **kw)
    require(tuple(cam.im_size) == tuple(exp.im_size), msg + ': image size', got=cam.im_size, exp=exp.im_size, **kw)
    require(np.array_equal(np.array(cam.pos), np.array(exp.pos)), msg + ': position', got=cam.pos, exp=exp.pos, **kw)
    xyz = np.array(exp.pos).reshape(3, 1) + PTS
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, b = cam.world_to_pixel(xyz), exp.world_to_pixel(xyz)
    require(np.array_equal(a, b, equal_nan=True), msg + ': pixels', got=a[:, 0], exp=b[:, 0], **kw)
    ji = np.array([[0., 3, 2.5], [0, 1, 4.]])
    a, b = cam.pixel_to_world_z(ji, 0.), exp.pixel_to_world_z(ji, 0.)
    require(np.array_equal(a, b, equal_nan=True), msg + ': world coordinates', got=a[:, 0], exp=b[:, 0], **kw)


def check_frame(case, ctx):
    d = ctx.tmp()
    # validate the case's cameras
    ints = {k: pio.to_int(p) for k, p in case['ints'].items()}
    exts = {k: {a: tuple(b) if isinstance(b, list) else b for a, b in e.items()} for k, e in case['exts'].items()}
    crs = rio.CRS.from_epsg(32735) if case['crs'] == 'obj' else case['crs']
    src = (ints, exts)
    io_kwargs = dict(crs=crs)
    if case['src'] == 'file':
        write_int_param(d / 'i.yaml', ints)
        write_ext_param(d / 'e.geojson', {k: dict(camera=None) | e for k, e in exts.items()}, crs=crs)
        src = (str(d / 'i.yaml'), d / 'e.geojson')
        fac = FrameCameras(*src, cam_kwargs=case['cam'])
    else:
        before = (deepcopy(ints), deepcopy(exts), dict(case['cam']))
        fac = FrameCameras(*src, io_kwargs=io_kwargs, cam_kwargs=case['cam'])
    require(fac.crs == rio.CRS.from_user_input(crs), 'CRS', got=str(fac.crs))
    got = []
    labels = {case['src']}
    n = 0
    for k, (op, i, v, how, seed) in enumerate(case['ops']):
        name = list(exts)[i % len(exts)]
        name = other(name, v) if op != 'unknown' else f'unknown{i}.tif'
        if op in ('get', 'refine', 'unknown'):
            f, clean = request(how, name, d)
            try:
                key = key_of(name, exts)
                e = exts.get(key)
                cid = e and e.get('camera')
                bad = not e or (cid and cid not in ints) or (not cid and len(ints) > 1)
                try:
                    cam = fac.get(f)
                except ParamError:
                    require(bad, 'get() of a known image raised an error', image=name)
                    labels.add('unknown' if not e else 'unknown-camera' if cid else 'no-camera')
                    continue
                require(not bad, 'get() of an unknown image, or with an unknown or missing camera ID', image=name, camera=cid)
            finally:
                if clean:
                    clean()
            ip = ints[cid] if cid else list(ints.values())[0]
            exp = create_camera(**ip, **case['cam'], xyz=e['xyz'], opk=e['opk'])
            same_frame(cam, exp, f'operation {k} get({name!r})')
            got.append((cam, exp, k, name))
            n += 1
            labels.add(how)
        elif op == 'filenames':
            require(fac.filenames == set(exts), 'filenames', got=fac.filenames)
        elif op == 'write':
            out = d / f'w{k}'
            out.mkdir()
            fac.write_param(out)
            require(read_oty_int_param(out / 'int_param.yaml') == ints, 'written interior parameters')
            rdr = OtyReader(out / 'ext_param.geojson')
            w = rdr.read_ext_param()
            require(w == {a: dict(camera=None) | b for a, b in exts.items()} and rdr.crs == fac.crs, 'written exterior parameters', got=w)
            labels.add('write')
        # cameras that were returned earlier do not change
        for cam, exp, k_, name_ in got if case['keep'] else []:
            same_frame(cam, exp, f'camera of operation {k_} get({name_!r}), after operation {k}')
    if case['src'] == 'dict':
        require((ints, exts, case['cam']) == before and io_kwargs == dict(crs=crs), "the caller's parameters were changed")
    return sorted(labels) if n else None


@st.composite
def case_rpc(draw):
    size = [draw(st.integers(100, 2000)), draw(st.integers(100, 2000))]
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    return dict(size=size, rpcs={n: draw(rpc(size))['rpc'] for n in names}, ops=draw(OPS), method=draw(st.sampled_from(['shift', 'shift-drift'])), src=draw(st.sampled_from(['dict', 'dict', 'file'])), cam=draw(st.sampled_from([{}, {}, 'crs'])))


def same_rpc(cam, exp, pts, msg, tol=0., **kw):
    require(tuple(cam.im_size) == tuple(exp.im_size), msg + ': image size', got=cam.im_size)
    require(cam.crs == exp.crs, msg + ': CRS', got=str(cam.crs), exp=str(exp.crs))
    a, b = cam.world_to_pixel(pts), exp.world_to_pixel(pts)
    require(np.allclose(a, b, rtol=0, atol=tol + 1e-9), msg + ': pixels', got=a[:, 0], exp=b[:, 0], **kw)


def check_rpc(case, ctx):
    d = ctx.tmp()
    rpcs = {n: dict(cam_type='rpc', im_size=tuple(case['size']), rpc=deepcopy(r)) for n, r in case['rpcs'].items()}
    r0 = list(case['rpcs'].values())[0]
    cam_kw = dict(crs='EPSG:3857') if case['cam'] else {}
    if case['src'] == 'file':
        write_rpc_param(d / 'r.yaml', rpcs)
        fac = RpcCameras(d / 'r.yaml', cam_kwargs=cam_kw)
    else:
        before = deepcopy(rpcs)
        fac = RpcCameras(rpcs, cam_kwargs=cam_kw)
    model = deepcopy(rpcs)
    gcps_model = None
    labels = {case['src']}
    n, refined = 0, False

    def points(key, k, rng):
        r = case['rpcs'][key]
        u = rng.uniform(-0.8, 0.8, (3, k))
        return np.array([r['long_off'] + u[0] * r['long_scale'], r['lat_off'] + u[1] * r['lat_scale'], r['height_off'] + u[2] * r['height_scale']])

    for k, (op, i, v, how, seed) in enumerate(case['ops']):
        rng = np.random.default_rng(seed)
        name = list(rpcs)[i % len(rpcs)]
        name = other(name, v) if op != 'unknown' else f'unknown{i}.tif'
        if op in ('get', 'unknown'):
            f, clean = request(how, name, d)
            try:
                key = key_of(name, rpcs)
                try:
                    cam = fac.get(f)
                except ParamError:
                    require(key is None, 'get() of a known image raised an error', image=name)
                    labels.add('unknown')
                    continue
                require(key is not None, 'get() of an unknown image', image=name)
            finally:
                if clean:
                    clean()
            exp = create_camera(**model[key], **cam_kw)
            pts = points(key, 6, np.random.default_rng(1))
            if cam_kw:
                pts = np.array(rio.warp.transform('EPSG:4979', 'EPSG:3857', *pts))
            same_rpc(cam, exp, pts, f'operation {k} get({name!r})', tol=1e-5 if refined else 0)
            n += 1
            labels |= {how, 'after-refine' if refined else 'original'}
        elif op == 'refine':
            # GCPs for some of the images (by name with or without extension)
            g = {}
            for j, key in enumerate(rpcs):
                if j == 0 or rng.random() < 0.6:
                    xyz = points(key, 5, rng)
                    ji = create_camera('rpc', tuple(case['size']), rpc=case['rpcs'][key]).world_to_pixel(xyz)
                    ji = ji + rng.uniform(-20, 20, (2, 1)) + rng.normal(0, 0.5, ji.shape)
                    gname = key if rng.random() < 0.6 or Path(key).stem in rpcs else Path(key).stem
                    g[gname] = [dict(ji=tuple(a), xyz=tuple(b), id=str(m), info=None) for m, (a, b) in enumerate(zip(ji.T.tolist(), xyz.T.tolist()))]
            g['not an image'] = [dict(ji=(1., 2.), xyz=(0., 0., 0.), id='q', info=None)]
            gcopy = deepcopy(g)
            kw = dict(fit_kwargs=dict(method=case['method']))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if seed % 2:
                    write_gcps(d / f'g{k}.geojson', g)
                    fac.refine(d / f'g{k}.geojson', **kw)
                else:
                    fac.refine(g, **kw)
            require(g == gcopy, "the caller's GCPs were changed")
            for key in rpcs:
                gs = g.get(key) or g.get(Path(key).stem)
                if gs:
                    model[key] = dict(model[key], rpc=refine_rpc(model[key]['rpc'], gs, method=case['method']))
            gcps_model = g
            refined = True
        elif op == 'filenames':
            require(fac.filenames == set(rpcs), 'filenames', got=fac.filenames)
        elif op == 'write':
            out = d / f'w{k}'
            out.mkdir()
            fac.write_param(out)
            w = read_oty_rpc_param(out / 'rpc_param.yaml')
            require(list(w) == list(rpcs), 'written images', got=list(w))
            for key in rpcs:
                same_rpc(create_camera(**w[key]), create_camera(**model[key]), points(key, 6, rng), f'RPC written for {key!r}', tol=1e-5 if refined else 0)
            gf = out / 'gcps.geojson'
            require(gf.exists() == refined, 'GCP file written if refined', exists=gf.exists())
            if refined:
                require(read_oty_gcps(gf) == gcps_model, 'written GCPs')
            labels.add('write-refined' if refined else 'write')
    if case['src'] == 'dict':
        require(rpcs == before, "the caller's RPC parameters were changed")
    return sorted(labels) if n else None


SUBS = [
    Sub('frame', case_frame, check_frame, 1200, 24000, 'histories of get (by any kind of name), write and filenames on a frame camera factory, with each camera compared to a directly constructed one; non-trivial = a camera was compared'),
    Sub('rpc', case_rpc, check_rpc, 1200, 24000, 'histories of get, refine, write and filenames on an RPC camera factory, against a model of the (refined) RPCs; non-trivial = a camera was compared'),
]
ASSUMPTIONS = ['create_camera() and refine_rpc() are decided by C01-C03 and C21', 'all refinements of a history use the same method']
