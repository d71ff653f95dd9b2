"""C14: RPC and GCP round trips."""
import warnings
import numpy as np
import rasterio as rio
from contextlib import ExitStack
from rasterio.control import GroundControlPoint
from rasterio.transform import RPC
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import gen, pio
from props.c09 import as_input
from orthority import param_io
from orthority.enums import CameraType
from orthority.errors import ParamError

ROOT = ['height_off', 'height_scale', 'lat_off', 'lat_scale', 'long_off', 'long_scale', 'line_off', 'line_scale', 'samp_off', 'samp_scale']
COEF = ['line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff']


@st.composite
def any_rpc(draw):
    c = pio.value(-10, 10)
    r = {k: draw(pio.value(-1e4, 1e4)) for k in ROOT}
    for k in ('line_off', 'samp_off', 'line_scale', 'samp_scale'):
        if draw(st.booleans()):
            r[k] = draw(st.integers(0, 20000))
    r.update({k: draw(st.lists(c, min_size=20, max_size=20)) for k in COEF})
    if draw(st.booleans()):
        r.update(err_bias=draw(st.one_of(st.none(), pio.value(0, 10))), err_rand=draw(st.one_of(st.none(), pio.value(0, 10))))
    return r


@st.composite
def case_rpc(draw):
    files = draw(pio.filesets())
    return dict(p={f: dict(im_size=[draw(st.integers(1, 40000)), draw(st.integers(1, 40000))], rpc=draw(st.one_of(any_rpc(), gen.rpc().map(lambda x: x['rpc'])))) for f in files}, kind=draw(st.sampled_from(pio.KINDS)))


def check_rpc(case, ctx):
    p = {k: dict(cam_type=CameraType.rpc, im_size=tuple(v['im_size']), rpc=v['rpc']) for k, v in case['p'].items()}
    got = pio.write_read(case['kind'], ctx.tmp(), 'rpc_param.yaml', lambda f: param_io.write_rpc_param(f, p), param_io.read_oty_rpc_param)
    require(list(got) == list(p), 'image names', got=list(got), exp=list(p))
    for k in p:
        require(got[k] == p[k], 'RPC parameters', image=k, diff=[n for n in p[k]['rpc'] if got[k]['rpc'].get(n) != p[k]['rpc'][n]])
    return [case['kind'], f'images{len(p)}']


@st.composite
def case_gcps(draw):
    files = draw(pio.filesets())
    txt = st.one_of(st.none(), pio.names(), st.just(''))
    num = lambda lo, hi: st.one_of(pio.value(lo, hi), st.integers(int(lo), int(hi)))
    gcp = st.fixed_dictionaries(dict(ji=st.lists(num(-1e4, 1e5), min_size=2, max_size=2), xyz=st.tuples(num(-180, 180), num(-90, 90), num(-500, 9000)).map(list), id=txt, info=txt))
    return dict(g={f: draw(st.lists(gcp, min_size=1, max_size=6)) for f in files}, kind=draw(st.sampled_from(pio.KINDS)), drop=draw(st.sampled_from([None, None, 'id', 'info', 'both'])), mix=draw(st.booleans()))


def check_gcps(case, ctx):
    import json
    d = ctx.tmp()
    g = {k: [dict(ji=tuple(x['ji']), xyz=tuple(x['xyz']), id=x['id'], info=x['info']) for x in v] for k, v in case['g'].items()}
    got = pio.write_read(case['kind'], d, 'gcps.geojson', lambda f: param_io.write_gcps(f, g), param_io.read_oty_gcps)
    require(list(got) == list(g), 'image names', got=list(got), exp=list(g))
    for k in g:
        require(got[k] == g[k], 'GCPs', image=k, got=got[k], exp=g[k])
    labels = [case['kind'], f'images{len(g)}']
    path = d / 'gcps.geojson'
    if path.exists():
        js = json.loads(path.read_text())
        if case['drop']:  # optional properties
            for f in js['features']:
                for k in ('id', 'info'):
                    if case['drop'] in (k, 'both'):
                        f['properties'].pop(k)
            g = {n: [{**x, **{k: None for k in ('id', 'info') if case['drop'] in (k, 'both')}} for x in v] for n, v in g.items()}
            labels.append('optional')
        if case['mix']:  # features of images interleaved
            by = [[f for f in js['features'] if f['properties']['filename'] == n] for n in g]
            js['features'] = [f for i in range(6) for b in by for f in b[i:i + 1]]
            labels.append('mixed')
        path.write_text(json.dumps(js))
        got = param_io.read_oty_gcps(path)
        require(set(got) == set(g) and all(got[k] == g[k] for k in g), 'GCPs of a file with reordered features or without optional properties', got=got, exp=g)
    return labels


@st.composite
def case_image(draw):
    n = draw(st.integers(1, 4))
    ims = []
    for i in range(n):
        im = dict(rpc=draw(gen.rpc(size=(draw(st.integers(1, 60)), draw(st.integers(1, 60))))), crs=draw(st.sampled_from(['EPSG:4979', 'EPSG:4326', 'EPSG:32735', 'EPSG:3857', 'EPSG:32735+5773', 'EPSG:2048', 'EPSG:4326+5773'])),
                  kind=draw(st.sampled_from(['str', 'path', 'ds', 'ofile', 'mem'])), ext=draw(st.sampled_from(['.tif', '.tiff', '.TIF'])))
        g = draw(st.lists(st.tuples(fl(-10, 2e4, 4), fl(-10, 2e4, 4), fl(-1, 1, 6), fl(-1, 1, 6), fl(-100, 4000, 3)).map(list), min_size=1, max_size=8))
        im['gcps'] = g
        ims.append(im)
    return dict(ims=ims, what=draw(st.sampled_from(['rpc', 'gcps'])), bare=draw(st.sampled_from([None, None, None, 0, 1, 2])), perm=draw(st.permutations(range(n))))


def check_image(case, ctx):
    d = ctx.tmp()
    exp, files = {}, []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with ExitStack() as stack:
            for i, im in enumerate(case['ims']):
                w, h = im['rpc']['im_size']
                path = d / f'im {i}{im["ext"]}'
                prof = dict(driver='GTiff', width=w, height=h, count=1, dtype='uint8')
                if case['bare'] == i:
                    exp[path.name] = None
                elif case['what'] == 'rpc':
                    r = im['rpc']['rpc']
                    prof['rpcs'] = RPC(**r)
                    exp[path.name] = (w, h), r
                else:
                    crs = rio.CRS.from_string(im['crs'])
                    base = (27.0, -33.0) if crs.is_geographic else [v[0] for v in transform('EPSG:4326', crs, [27.0], [-33.0])]
                    sc = 0.5 if crs.is_geographic else 5e4
                    xyz = [(base[0] + g[2] * sc, base[1] + g[3] * sc, g[4]) for g in im['gcps']]
                    prof.update(crs=crs, gcps=[GroundControlPoint(row=g[1], col=g[0], x=p[0], y=p[1], z=p[2]) for g, p in zip(im['gcps'], xyz)])
                    lla = np.array(transform(crs, 'EPSG:4979', *np.array(xyz).T)).T
                    exp[path.name] = [g[:2] for g in im['gcps']], lla
                with rio.open(path, 'w', **prof) as ds:
                    ds.write(np.zeros((1, h, w), 'uint8'))
                files.append(path)
            args = [as_input('str' if case['ims'][k]['kind'] == 'mem' else case['ims'][k]['kind'], files[k], stack, d, str(k)) for k in case['perm']]
            try:
                got = param_io.read_im_rpc_param(args) if case['what'] == 'rpc' else param_io.read_im_gcps(args)
            except ParamError:
                require(None in exp.values(), 'parameter error for images with tags')
                return ['bare-' + case['what']]
            require(None not in exp.values(), 'images without tags', got=str(got)[:200])
    require(list(got) == [files[k].name for k in case['perm']], 'image names', got=list(got))
    for name, e in exp.items():
        if case['what'] == 'rpc':
            require(got[name]['im_size'] == e[0] and got[name]['cam_type'] is CameraType.rpc, 'image size')
            for k in ROOT + COEF:
                require(np.allclose(got[name]['rpc'][k], e[1][k], rtol=1e-13, atol=1e-15), f'RPC {k}', got=got[name]['rpc'][k], exp=e[1][k])
        else:
            require(len(got[name]) == len(e[0]), 'number of GCPs')
            for gcp, ji, lla in zip(got[name], *e):
                require(np.allclose(gcp['ji'], ji, rtol=0, atol=1e-8), 'GCP pixel coordinates', got=gcp['ji'], exp=ji)
                require(np.allclose(gcp['xyz'][:2], lla[:2], rtol=0, atol=1e-9) and abs(gcp['xyz'][2] - lla[2]) < 1e-5, 'GCP world coordinates', got=gcp['xyz'], exp=lla.tolist())
    # and through the native file
    if case['what'] == 'rpc':
        param_io.write_rpc_param(d / 'r.yaml', got)
        require(param_io.read_oty_rpc_param(d / 'r.yaml') == got, 'image RPCs are not equal after export')
    else:
        param_io.write_gcps(d / 'g.geojson', got)
        require(param_io.read_oty_gcps(d / 'g.geojson') == got, 'image GCPs are not equal after export')
    return [case['what'], f'images{len(exp)}'] + ([im['crs'] for im in case['ims']] if case['what'] == 'gcps' else [])


SUBS = [
    Sub('rpc', case_rpc, check_rpc, 400, 8000, 'random RPC parameters and image names, via each kind of file argument; non-trivial = all values compared'),
    Sub('gcps', case_gcps, check_gcps, 700, 15000, 'random GCPs of several images, with IDs & info of any text, optional properties and interleaved features; non-trivial = all values compared'),
    Sub('image', case_image, check_image, 400, 8000, 'GeoTIFFs with random RPC or GCP tags (GCPs in various CRSs); non-trivial = all values compared'),
]
ASSUMPTIONS = ['PROJ coordinate transforms are trusted', 'GDAL stores GCP & RPC tags to double precision']
