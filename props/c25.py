"""C25: the command line gives the same results as the API."""
import json
import math
import os
import subprocess
import sys
import warnings
from pathlib import Path
import numpy as np
import rasterio as rio
import yaml
from rasterio.rpc import RPC
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import clic, exifw, gen, imgs, orthoc, pansh, pio, ref
from harness.clic import api_kwargs, image, invoke, opt_args, text
from orthority.camera import create_camera
from orthority.errors import OrthorityError
from orthority.factory import FrameCameras, RpcCameras
from orthority.ortho import Ortho
from orthority.pan_sharp import PanSharpen
from orthority import param_io
from props.c13 import crs_same


def same(got, exp, what):
    """Two images are identical."""
    a, b = image(got), image(exp)
    require(a[2] == b[2], f'{what}: format differs from API', diff={k: (a[2].get(k), b[2].get(k)) for k in b[2] if a[2].get(k) != b[2].get(k)})
    require(np.array_equal(a[1], b[1]), f'{what}: mask differs from API')
    require(np.array_equal(a[0], b[0], equal_nan=a[0].dtype.kind == 'f'), f'{what}: values differ from API')
    return a


def files(d):
    """Files (other than GDAL's sidecars, which the COG driver may create)."""
    return sorted(str(p.relative_to(d)) for p in d.rglob('*') if p.is_file() and not p.name.endswith('.aux.xml'))


def api_ortho(src, dem, camera, crs, out, o, gsd):
    _, ok, kw = api_kwargs(o, gsd)
    out.parent.mkdir(exist_ok=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        Ortho(src, dem, camera, crs, **ok).process(out, **kw)


def run_ok(args):
    r = invoke(args)
    require(r.exit_code == 0, 'command failed', **text(r), args=[str(a) for a in args])
    return r


def crs_arg(how, crs, d):
    """CRS as an argument of the command line."""
    c = rio.CRS.from_string(crs)
    if how == 'str':
        return crs
    if how == 'wkt':
        return c.to_wkt()
    if how == 'proj4':
        return c.to_proj4()
    p = d / ('crs.txt' if how == 'txt' else 'crs.prj' if how == 'prj' else 'crs.tif')
    if how == 'tif':
        imgs.write_tif(p, np.ones((1, 2, 2), 'uint8'), crs=c, transform=rio.Affine(1, 0, 0, 0, -1, 0))
    else:
        p.write_text((c.to_wkt() if how == 'prj' else crs) + ('\n' if how == 'txt' else ''))
    return str(p)


LLA = [None, None, 'EPSG:4326', 'EPSG:4222', 'EPSG:4326+5773', '+proj=longlat +ellps=WGS84 +towgs84=0,0,0 +no_defs']
CRS_HOW = ['str', 'str', 'wkt', 'txt', 'prj', 'tif']


# --- frame
@st.composite
def case_frame(draw):
    c = draw(clic.frame_images())
    c['ext'] = draw(st.sampled_from(['csv', 'csv', 'csv_lla', 'geojson']))
    c['crs'] = draw(st.sampled_from(sorted(clic.CRSS))) if c['ext'] == 'csv_lla' or draw(st.booleans()) else None
    c['how'] = draw(st.sampled_from(CRS_HOW))
    # CRSs of images are the world CRS if it isn't specified otherwise
    if c['ext'] == 'geojson':
        c['crs'] = None
        c['gcrs'] = draw(st.sampled_from(sorted(clic.CRSS)))
    c['lla'] = draw(st.sampled_from(LLA)) if c['ext'] == 'csv_lla' else None
    c['lla_how'] = draw(st.sampled_from(CRS_HOW))
    c['tagged'] = c['ext'] == 'csv' and not c['crs'] or draw(st.booleans())
    c.update(radians=draw(st.booleans()), opts=draw(clic.options(dtype=c['dtype'])), glob=draw(st.booleans()), long=draw(st.booleans()), rev=draw(st.booleans()), export=draw(st.booleans()), nocam=len(c['cams']) == 1 and draw(st.booleans()))
    return c


def lla_args(c, d):
    """Arguments of the CRS of geographic positions."""
    if not c['lla']:
        return []
    p = d / 'lla'
    p.mkdir()
    return ['--lla-crs' if c['long'] else '-lc', crs_arg(c['lla_how'], c['lla'], p)]


def lla_kwargs(c):
    return dict(lla_crs=c['lla']) if c['lla'] else {}


def world_crs(c, name):
    key = c['crs'] or c.get('gcrs') or c['ims'][name]['crs']
    return clic.CRSS[key]


def write_frame(c, d):
    src = d / 'src'
    src.mkdir()
    for n, im in c['ims'].items():
        clic.write_source(src / n, im, c['cams'][im['cam']]['im_size'], c['bands'], c['dtype'], crs=clic.CRSS[im['crs']] if c['tagged'] else None)
    ip, ep = d / 'int.yaml', d / ('ext.geojson' if c['ext'] == 'geojson' else 'ext.csv')
    param_io.write_int_param(ip, {k: pio.to_int(v) for k, v in c['cams'].items()})
    ext = {n: dict(xyz=tuple(clic.position(im, world_crs(c, n))), opk=tuple(im['ep']['opk']), camera=im['cam']) for n, im in c['ims'].items()}
    if c['ext'] == 'geojson':
        param_io.write_ext_param(ep, ext, crs=clic.CRSS[c['gcrs']])
    else:
        lla = c['ext'] == 'csv_lla'
        rows = [['filename', *(['latitude', 'longitude', 'altitude'] if lla else ['x', 'y', 'z']), 'omega', 'phi', 'kappa'] + ([] if c['nocam'] else ['camera'])]
        for n, e in ext.items():
            xyz = e['xyz']
            if lla:
                lon, lat, z = (v[0] for v in transform(world_crs(c, n), 'EPSG:4979', *[[v] for v in xyz]))
                xyz = lat, lon, z
            rows.append([n, *map(repr, map(float, xyz)), *(repr(float(v if c['radians'] else math.degrees(v))) for v in e['opk'])] + ([] if c['nocam'] else [e['camera']]))
        ep.write_text('\n'.join(','.join(r) for r in rows) + '\n')
    return src, ip, ep, clic.write_dem(d / 'dem.tif')


def gsd_of(c):
    """Approximate ground sampling distance, for choosing resolutions."""
    n = next(iter(c['ims']))
    im = c['ims'][n]
    return float(im['ep']['xyz'][2] / min(ref.focal_px(c['cams'][im['cam']])))


def check_frame(c, ctx):
    d = ctx.tmp()
    for im in c['ims'].values():
        if not gen.below_horizon(c['cams'][im['cam']], im['ep'], 0.5) or not ref.fov_valid(c['cams'][im['cam']])[0]:
            return None
    src, ip, ep, dem = write_frame(c, d)
    gsd = gsd_of(c)
    out, exp = d / 'out', d / 'exp'
    out.mkdir()
    long = c['long']
    common = ['--int-param' if long else '-ip', ip, '--ext-param' if long else '-ep', ep]
    if c['crs']:
        common += ['--crs' if long else '-c', crs_arg(c['how'], clic.CRSS[c['crs']], d)]
    if c['radians'] and c['ext'] != 'geojson':
        common += ['--radians' if long else '-rd']
    common += lla_args(c, d)
    order = sorted(c['ims'], reverse=c['rev'])
    srcs = [src / '*'] if c['glob'] else [src / n for n in order]
    args = ['frame', '--dem' if long else '-d', dem, *common, *opt_args(long, c['opts'], gsd), '--out-dir' if long else '-od', out, *srcs]
    run_ok(args)
    require(files(out) == sorted(f'{Path(n).stem}_ORTHO.tif' for n in c['ims']), 'output files', got=files(out))
    # API
    cam_kw = api_kwargs(c['opts'])[0]
    opt = rio.CRS.from_string(clic.CRSS[c['crs']]) if c['crs'] else None
    valid = 0
    for n in c['ims']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            cams = FrameCameras(ip, ep, io_kwargs=dict(crs=opt, radians=c['radians'], **lla_kwargs(c)), cam_kwargs=cam_kw)
        name = f'{Path(n).stem}_ORTHO.tif'
        api_ortho(src / n, dem, cams.get(src / n), world_crs(c, n), exp / name, c['opts'], gsd)
        a = same(out / name, exp / name, n)
        require(rio.CRS.from_wkt(a[2]['crs']) == rio.CRS.from_string(world_crs(c, n)), 'CRS of ortho', image=n, got=a[2]['crs'])
        valid += int((a[1] > 0).sum())
    labels = {c['ext'], f'images{len(c["ims"])}', 'crs' if c['crs'] else 'nocrs', *c['opts']}
    if not valid:
        return None
    if len({world_crs(c, n) for n in c['ims']}) > 1:
        labels.add('mixed_crs')
    if c['lla']:
        labels.add('lla_crs')
    if c['export'] and (c['crs'] or c['ext'] == 'geojson' or len({im['crs'] for im in c['ims'].values()}) == 1):
        check_export(c, d, common, src, dem, out, opt, ip, ep)
        labels.add('export')
    return sorted(labels)


def check_export(c, d, common, src, dem, orthos, opt, ip, ep):
    """Exported parameters are those of the API, and give the same orthos."""
    e1, e2, o2 = d / 'e1', d / 'e2', d / 'o2'
    for p in (e1, e2, o2):
        p.mkdir()
    args = ['frame', *common, '--export-params', '-od', e1, *([src / n for n in c['ims']] if c['rev'] else [])]
    if opt is None and c['ext'] != 'geojson':  # (a CRS is needed for exporting)
        r = invoke(args)
        require(r.exit_code == 2, 'export of parameters without a CRS', **text(r))
        return
    run_ok(args)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        FrameCameras(ip, ep, io_kwargs=dict(crs=opt, radians=c['radians'], **lla_kwargs(c))).write_param(e2)
    require(files(e1) == files(e2) == ['ext_param.geojson', 'int_param.yaml'], 'exported files', got=files(e1))
    require((e1 / 'int_param.yaml').read_bytes() == (e2 / 'int_param.yaml').read_bytes(), 'exported interior parameters differ from API')
    a, b = (param_io.OtyReader(e / 'ext_param.geojson') for e in (e1, e2))
    require(a.read_ext_param() == b.read_ext_param() and crs_same(a.crs, b.crs), 'exported exterior parameters differ from API')
    gsd = gsd_of(c)
    run_ok(['frame', '-d', dem, '-ip', e1 / 'int_param.yaml', '-ep', e1 / 'ext_param.geojson', *opt_args(False, c['opts'], gsd), '-od', o2, src / '*'])
    for n in c['ims']:
        name = f'{Path(n).stem}_ORTHO.tif'
        same(o2 / name, orthos / name, f'{n} with exported parameters')


# --- RPC
RPC_CRSS = dict(clic.CRSS, cape='EPSG:4222', wgs='EPSG:4326')


@st.composite
def case_rpc(draw):
    ims = {}
    for n in draw(clic.names_of(clic.NAMES)):
        size = draw(st.tuples(st.integers(24, 50), st.integers(24, 50)))
        r = orthoc.tame_rpc(draw(gen.rpc(size=size)))
        rp = r['rpc']
        k = 4 * 50 / 2 / 111e3
        rp.update(lat_off=clic.LAT + draw(fl(-0.003, 0.003, 5)), long_off=clic.LON + draw(fl(-0.003, 0.003, 5)), lat_scale=k, long_scale=k * 1.2, height_off=120., height_scale=300.)
        ims[n] = dict(rpc=r['rpc'], size=list(size), seed=draw(seeds()), shift=[draw(fl(-6, 6, 2)), draw(fl(-6, 6, 2))], n=draw(st.integers(2, 6)))
    c = dict(ims=ims, bands=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(['uint8', 'uint16'])))
    clic.mix(draw, c)
    return dict(c, crs=draw(st.sampled_from([None, None, *sorted(RPC_CRSS)])), how=draw(st.sampled_from(CRS_HOW)), param=draw(st.booleans()),
                refine=draw(st.sampled_from([None, None, 'tags', 'file', 'TAGS'])), method=draw(st.sampled_from([None, 'shift', 'shift-drift'])), opts=draw(clic.options(frame=False, dtype=c['dtype'])), glob=draw(st.booleans()), long=draw(st.booleans()), export=draw(st.booleans()))


def rpc_gcps(im):
    rng = np.random.default_rng(im['seed'])
    r = im['rpc']
    u = rng.uniform(-0.8, 0.8, (3, im['n']))
    llh = np.array([r['long_off'] + u[0] * r['long_scale'], r['lat_off'] + u[1] * r['lat_scale'], r['height_off'] + u[2] * 0.1 * r['height_scale']])
    ji = ref.rpc_project(r, llh) + np.array(im['shift'])[:, None] + rng.normal(size=(2, im['n'])) * 0.3
    return [dict(ji=tuple(a), xyz=tuple(b), id=str(k), info=None) for k, (a, b) in enumerate(zip(ji.T.tolist(), llh.T.tolist()))]


def check_rpc(c, ctx):
    from rasterio.control import GroundControlPoint
    d = ctx.tmp()
    src, out, exp = d / 'src', d / 'out', d / 'exp'
    src.mkdir()
    out.mkdir()
    gcps = {n: rpc_gcps(im) for n, im in c['ims'].items()}
    for n, im in c['ims'].items():
        rpc = RPC(**im['rpc'])
        kw = dict(rpcs=rpc)
        clic.write_source(src / n, im, im['size'], c['bands'], c['dtype'], **kw)
        if c['refine'] and c['refine'].lower() == 'tags':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with rio.open(src / n, 'r+') as ds:
                    ds.gcps = ([GroundControlPoint(row=g['ji'][1], col=g['ji'][0], x=g['xyz'][0], y=g['xyz'][1], z=g['xyz'][2], id=g['id']) for g in gcps[n]], rio.CRS.from_epsg(4979))
    dem = clic.write_dem(d / 'dem.tif')
    long = c['long']
    common = []
    crs = RPC_CRSS[c['crs']] if c['crs'] else None
    if crs:
        common += ['--crs' if long else '-c', crs_arg(c['how'], crs, d)]
    pf, gf = d / 'rpc.yaml', d / 'gcps.geojson'
    if c['param']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            param_io.write_rpc_param(pf, param_io.read_im_rpc_param([src / n for n in c['ims']]))
        common += ['--rpc-param' if long else '-rp', pf]
    if c['refine'] == 'file':
        param_io.write_gcps(gf, gcps)
        common += ['--gcp-refine' if long else '-gr', gf]
    elif c['refine']:
        common += ['--gcp-refine' if long else '-gr', c['refine']]
    if c['method']:
        common += ['--refine-method' if long else '-rm', c['method']]
    gsd = 2. if crs and c['crs'] in clic.CRSS else 2e-5
    srcs = [src / '*.[tT][iI][fF]'] if c['glob'] else [src / n for n in c['ims']]
    run_ok(['rpc', '--dem' if long else '-d', dem, *common, *opt_args(long, c['opts'], gsd), '-od', out, *srcs])
    require(files(out) == sorted(f'{Path(n).stem}_ORTHO.tif' for n in c['ims']), 'output files', got=files(out))
    cam_kw = dict(crs=crs) if crs else {}
    fit = dict(method=c['method']) if c['method'] else {}

    def factory(names):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            cams = RpcCameras(pf, cam_kwargs=cam_kw) if c['param'] else RpcCameras.from_images([src / n for n in names], cam_kwargs=cam_kw)
            if c['refine'] == 'file':
                cams.refine(gf, fit_kwargs=fit)
            elif c['refine']:
                cams.refine([src / n for n in names], fit_kwargs=fit)
        return cams
    valid = 0
    for n in c['ims']:
        name = f'{Path(n).stem}_ORTHO.tif'
        api_ortho(src / n, dem, factory([n]).get(src / n), crs or 'EPSG:4979', exp / name, c['opts'], gsd)
        a = same(out / name, exp / name, n)
        valid += int((a[1] > 0).sum())
    labels = {f'images{len(c["ims"])}', 'crs' if crs else 'nocrs', 'param' if c['param'] else 'tags', f'refine_{str(c["refine"]).lower()}', *c['opts']}
    if not valid:
        return None
    if c['export']:
        e1, e2 = d / 'e1', d / 'e2'
        e1.mkdir(), e2.mkdir()
        run_ok(['rpc', *common, '-e', '-od', e1, *srcs])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            factory(sorted(c['ims']) if c['glob'] else list(c['ims'])).write_param(e2)
        require(files(e1) == files(e2) == sorted(['rpc_param.yaml'] + (['gcps.geojson'] if c['refine'] else [])), 'exported files', got=files(e1), exp=files(e2))
        a, b = (param_io.read_oty_rpc_param(e / 'rpc_param.yaml') for e in (e1, e2))
        require(a == b, 'exported RPC parameters')
        if c['refine']:
            a, b = (param_io.read_oty_gcps(e / 'gcps.geojson') for e in (e1, e2))
            require(a == b, 'exported GCPs')
        labels.add('export')
    return sorted(labels)


# --- EXIF, ODM and legacy
@st.composite
def case_exif(draw):
    ims = {}
    for n in draw(st.lists(st.sampled_from(['a.jpg', 'b.jpg', 'c d.JPG', 'DJI_1.jpeg']), min_size=1, max_size=3, unique=True)):
        ims[n] = dict(size=[draw(st.integers(24, 50)), draw(st.integers(24, 50))], off=[draw(fl(-0.003, 0.003, 6)), draw(fl(-0.003, 0.003, 6))], alt=draw(fl(400, 900, 1)), f35=draw(st.integers(30, 70)), rpy=[draw(fl(-5, 5, 1)), draw(fl(-90, -75, 1)), draw(fl(-180, 180, 1))], seed=draw(seeds()), k1=draw(st.one_of(st.none(), fl(-0.15, 0.15, 3))))
    return dict(ims=ims, lla=draw(st.sampled_from(LLA)), lla_how=draw(st.sampled_from(CRS_HOW)), crs=draw(st.sampled_from([None, None, *sorted(clic.CRSS)])), how=draw(st.sampled_from(CRS_HOW)), opts=draw(clic.options(dtype='uint8')), glob=draw(st.booleans()), long=draw(st.booleans()), export=draw(st.booleans()))


def check_exif(c, ctx):
    d = ctx.tmp()
    src, out, exp = d / 'src', d / 'out', d / 'exp'
    src.mkdir(), out.mkdir()
    dji = 'http://www.dji.com/drone-dji/1.0/'
    for n, im in c['ims'].items():
        x = {(dji, 'GpsLatitude'): f'{clic.LAT + im["off"][0]:+.7f}', (dji, 'GpsLongtitude'): f'{clic.LON + im["off"][1]:+.7f}', (dji, 'AbsoluteAltitude'): f'{im["alt"]:+.2f}',
             (dji, 'GimbalRollDegree'): f'{im["rpy"][0]:+.1f}', (dji, 'GimbalPitchDegree'): f'{im["rpy"][1]:+.1f}', (dji, 'GimbalYawDegree'): f'{im["rpy"][2]:+.1f}'}
        t = dict(FocalLengthIn35mmFilm=im['f35'], Make='x', Model=n)
        if im['k1'] is not None:
            f = im['f35'] / 36 * max(im['size'])
            x[(dji, 'DewarpData')] = f'2020-01-01;{f:.6f},{f:.6f},0.5,-0.7,{im["k1"]},0.01,0.001,-0.001,0.0'
            t.update(PixelXDimension=im['size'][0], PixelYDimension=im['size'][1])
        exifw.write_jpeg(src / n, im['size'], t, exifw.xmp(x, {}))
    dem = clic.write_dem(d / 'dem.tif')
    crs = clic.CRSS[c['crs']] if c['crs'] else None
    common = (['--crs' if c['long'] else '-c', crs_arg(c['how'], crs, d)] if crs else []) + lla_args(c, d)
    gsd = 3.
    srcs = [src / '*'] if c['glob'] else [src / n for n in c['ims']]
    run_ok(['exif', '-d', dem, *common, *opt_args(c['long'], c['opts'], gsd), '-od', out, *srcs])
    require(files(out) == sorted(f'{Path(n).stem}_ORTHO.tif' for n in c['ims']), 'output files', got=files(out))
    valid = 0
    for n in c['ims']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            cams = FrameCameras.from_images([src / n], io_kwargs=dict(dict(crs=crs) if crs else {}, **lla_kwargs(c)), cam_kwargs=api_kwargs(c['opts'])[0])
        name = f'{Path(n).stem}_ORTHO.tif'
        api_ortho(src / n, dem, cams.get(src / n), crs or 'EPSG:32735', exp / name, c['opts'], gsd)
        valid += int((same(out / name, exp / name, n)[1] > 0).sum())
    labels = {f'images{len(c["ims"])}', 'crs' if crs else 'nocrs', *c['opts']}
    if not valid:
        return None
    if c['export']:
        e1, o2 = d / 'e1', d / 'o2'
        e1.mkdir(), o2.mkdir()
        run_ok(['exif', *common, '--export-params', '-od', e1, *srcs])
        require(files(e1) == ['ext_param.geojson', 'int_param.yaml'], 'exported files', got=files(e1))
        run_ok(['frame', '-d', dem, '-ip', e1 / 'int_param.yaml', '-ep', e1 / 'ext_param.geojson', *opt_args(False, c['opts'], gsd), '-od', o2, *srcs])
        for n in c['ims']:
            name = f'{Path(n).stem}_ORTHO.tif'
            same(o2 / name, out / name, f'{n} with exported parameters')
        labels.add('export')
    labels |= {k for k, v in dict(lla_crs=c['lla'], dewarp=any(im['k1'] is not None for im in c['ims'].values())).items() if v}
    return sorted(labels)


@st.composite
def case_odm(draw):
    c = draw(clic.frame_images(names=['a.jpg', 'b.JPG', 'sub/c d.tif', 'd.tiff', 'sub/e.jpeg'], crss=('utm35',), types=('pinhole', 'brown')))
    c.update(crs=draw(st.sampled_from([None, None, 'utm35', 'lo25', 'merc'])), how=draw(st.sampled_from(CRS_HOW)), opts=draw(clic.options(dtype='uint8')), long=draw(st.booleans()), out=draw(st.sampled_from([None, None, 'dir'])), export=draw(st.booleans()), slash=draw(st.booleans()))
    c['opts'].pop('dem_band', None)
    return c


def check_odm(c, ctx):
    d = ctx.tmp()
    ds = d / 'my data'
    for p in ('images/sub', 'odm_dem', 'opensfm'):
        (ds / p).mkdir(parents=True)
    cams, shots = {}, {}
    for k, p in c['cams'].items():
        f = min(ref.focal_px(p)) / max(p['im_size'])
        cams[k] = dict(projection_type='brown', width=p['im_size'][0], height=p['im_size'][1], focal_x=f, focal_y=f, c_x=0.001, c_y=-0.002, k1=0.01, k2=0.0, p1=0.0, p2=0.001, k3=0.0)
    for n, im in c['ims'].items():
        p = ds / 'images' / n
        rng = np.random.default_rng(im['seed'])
        w, h = c['cams'][im['cam']]['im_size']
        a = rng.integers(1, 250, (3, h, w)).astype('uint8')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            drv = 'JPEG' if 'jp' in p.suffix.lower() else 'GTiff'
            with rio.open(p, 'w', driver=drv, width=w, height=h, count=3, dtype='uint8') as f:
                f.write(a)
        e = im['ep']
        # nadir with random heading: camera axes x right, y down, z forward (world = ENU about the reference)
        k = e['opk'][2]
        R = np.diag([1., -1., -1.]) @ ref._axis_R(np.array([0., 0., 1.]), -k)
        import cv2
        rot = [float(v) for v in cv2.Rodrigues(R)[0].ravel()]
        shots[Path(n).name] = dict(rotation=rot, translation=[float(v) for v in -cv2.Rodrigues(np.array(rot))[0] @ np.array([e['xyz'][0], e['xyz'][1], e['xyz'][2]])], camera=im['cam'])
    (ds / 'images' / 'notes.txt').write_text('x')
    (ds / 'opensfm' / 'reconstruction.json').write_text(json.dumps([dict(cameras=cams, shots=shots, reference_lla=dict(latitude=clic.LAT, longitude=clic.LON, altitude=clic.Z0))]))
    # DSM in UTM
    x, y = clic.origin('EPSG:32735')
    z = clic.Z0 + 20 * np.random.default_rng(5).uniform(size=(60, 60))
    dem = ds / 'odm_dem' / 'dsm.tif'
    imgs.write_tif(dem, z[None].astype('float32'), crs='EPSG:32735', transform=rio.Affine(50, 0, x - 1500, 0, -50, y + 1500), nodata=-9999.)
    crs = clic.CRSS[c['crs']] if c['crs'] else None
    common = ['--crs' if c['long'] else '-c', crs_arg(c['how'], crs, d)] if crs else []
    out = ds / 'orthority'
    if c['out']:
        out = d / 'out dir'
        out.mkdir()
        common += ['--out-dir' if c['long'] else '-od', str(out) + ('/' if c['slash'] else '')]
    gsd = 2.
    run_ok(['odm', '--dataset-dir' if c['long'] else '-dd', str(ds) + ('/' if c['slash'] else ''), *common, *opt_args(c['long'], c['opts'], gsd)])
    require(files(out) == sorted(f'{Path(n).stem}_ORTHO.tif' for n in c['ims']), 'output files', got=files(out))
    require((ds / 'orthority').exists() == (not c['out']), 'output directory')
    rec = ds / 'opensfm' / 'reconstruction.json'
    valid = 0
    exp = d / 'exp'
    for n in c['ims']:
        src = ds / 'images' / n
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            cs = FrameCameras(rec, rec, io_kwargs=dict(crs=crs or 'EPSG:32735'), cam_kwargs=api_kwargs(c['opts'])[0])
        name = f'{Path(n).stem}_ORTHO.tif'
        api_ortho(src, dem, cs.get(src), crs or 'EPSG:32735', exp / name, c['opts'], gsd)
        valid += int((same(out / name, exp / name, n)[1] > 0).sum())
    if not valid:
        return None
    labels = {f'images{len(c["ims"])}', 'crs' if crs else 'nocrs', 'out' if c['out'] else 'default', *c['opts']}
    if c['export']:
        e1 = d / 'e1'
        e1.mkdir()
        run_ok(['odm', '-dd', ds, *(common[:2] if crs else []), '-e', '-od', e1])
        require(files(e1) == ['ext_param.geojson', 'int_param.yaml'], 'exported files', got=files(e1))
        a = FrameCameras(e1 / 'int_param.yaml', e1 / 'ext_param.geojson')
        require(a.crs == rio.CRS.from_string(crs or 'EPSG:32735') and a.filenames == {Path(n).name for n in c['ims']}, 'exported parameters')
        labels.add('export')
    return sorted(labels)


@st.composite
def case_legacy(draw):
    c = draw(clic.frame_images(names=['a.tif', 'b.tif', 'p/c.tif', 'p/d.tif', 'q/e.tif'], crss=('utm35', 'lo25'), types=('pinhole', 'brown')))
    c['cams'] = {'cam': c['cams']['cam']}
    for im in c['ims'].values():
        im['cam'] = 'cam'
    c.update(out=draw(st.sampled_from([None, 'dir', 'new'])), glob=draw(st.booleans()), crs=draw(st.sampled_from(['utm35', 'lo25'])), tagged=draw(st.booleans()), remap=draw(st.sampled_from([None, True, False])),
             conf=draw(st.sampled_from([{}, dict(interp='cubic_spline'), dict(interp='bilinear', dem_interp='cubic_spline', per_band=True), dict(driver='GTiff', tile_size=[256, 256], nodata=0, interleave='pixel', photometric=None, resolution=[3., 3.], write_mask=True)])))
    return c


def check_legacy(c, ctx):
    from orthority.cli import simple_ortho
    import logging
    d = ctx.tmp()
    ip = c['cams']['cam']
    if any(not gen.below_horizon(ip, im['ep'], 0.5) for im in c['ims'].values()) or not ref.fov_valid(ip)[0]:
        return None
    src = d / 'src'
    crs = clic.CRSS[c['crs']]
    pos = []
    for n, im in c['ims'].items():
        (src / n).parent.mkdir(exist_ok=True, parents=True)
        clic.write_source(src / n, im, ip['im_size'], c['bands'], c['dtype'], crs=crs if c['tagged'] else None)
        pos.append(' '.join([Path(n).stem, *map(repr, clic.position(im, crs)), *(repr(math.degrees(v)) for v in im['ep']['opk'])]))
    (d / 'pos.txt').write_text('\n'.join(pos) + '\n')
    dem = clic.write_dem(d / 'dem.tif')
    o = dict(c['conf'])
    if not c['tagged']:
        o['crs'] = crs
    if c['remap'] is not None:
        o['full_remap'] = c['remap']
    cam = {k: v for k, v in ip.items() if k != 'cam_type'}
    conf = dict(camera=dict(cam, type=ip['cam_type'], name='x'), ortho=o)
    (d / 'conf.yaml').write_text(yaml.dump(conf))
    args = sorted({str((src / n).parent / '*.tif') for n in c['ims']}) if c['glob'] else [str(src / n) for n in c['ims']]
    args += [str(dem), str(d / 'pos.txt'), '-rc', str(d / 'conf.yaml')]
    if c['out']:
        if c['out'] == 'dir':
            (d / 'out').mkdir()
        args += ['-od', str(d / 'out')]
    log = logging.getLogger('orthority')
    state = list(log.handlers), log.level, warnings.showwarning, sys.stderr
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sys.stderr = open(os.devnull, 'w')
            simple_ortho(args)
    finally:
        log.handlers[:], warnings.showwarning, sys.stderr = state[0], state[2], state[3]
        log.setLevel(state[1])
    exp = d / 'exp'
    exp.mkdir()
    kw = {k: ('cubic' if v == 'cubic_spline' else v) for k, v in c['conf'].items() if k in ('interp', 'dem_interp', 'per_band', 'resolution', 'write_mask')}
    valid = 0
    for n, im in c['ims'].items():
        k = math.degrees
        camera = create_camera(**pio.to_int(ip), xyz=clic.position(im, crs), opk=np.radians([math.degrees(v) for v in im['ep']['opk']]), distort=True if c['remap'] is None else c['remap'])
        e = exp / f'{Path(n).stem}_ORTHO.tif'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            Ortho(src / n, dem, camera, crs).process(e, **kw)
        got = (d / 'out' if c['out'] else (src / n).parent) / e.name
        require(got.exists(), 'ortho was not created in the right place', image=n, files=files(d))
        valid += int((same(got, e, n)[1] > 0).sum())
    require(len([f for f in files(d) if '_ORTHO' in f and not f.startswith('exp')]) == len(c['ims']), 'output files', files=files(d))
    dirs = {str(Path(n).parent) for n in c['ims']}
    return [f'images{len(c["ims"])}', f'dirs{len(dirs)}', str(c['out'])] if valid else None


# --- pan-sharpen
@st.composite
def case_sharpen(draw):
    c = draw(pansh.scenario())
    c.update(opts={k: v for k, v in draw(clic.options(dtype=c['ms_dtype'])).items() if k in ('write_mask', 'dtype', 'compress', 'build_ovw', 'driver', 'co')}, long=draw(st.booleans()), over=draw(st.booleans()))
    if c['opts'].get('compress') == 'jpeg' and c['opts'].get('dtype', c['ms_dtype']) != 'uint8':
        c['opts'].pop('compress')
    return c


def check_sharpen(c, ctx):
    d = ctx.tmp()
    s = pansh.build(c, d)
    if s is None:
        return None
    long = c['long']
    out, exp = d / 'out ps.tif', d / 'exp.tif'
    kw = {**pansh.kwargs(c), **api_kwargs(c['opts'])[2]}
    err = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            PanSharpen(s.pan_file, s.ms_file).process(exp, **kw)
        except (OrthorityError, np.linalg.LinAlgError) as ex:
            err = ex
    a = ['sharpen', '--pan' if long else '-p', s.pan_file, '--multispectral' if long else '-ms', s.ms_file, '--out-file' if long else '-of', out, '--pan-index' if long else '-pi', c['pan_index'], *opt_args(long, c['opts'])]
    for k in c['ms_indexes'] or []:
        a += ['--ms-index' if long else '-mi', k]
    for w in c['weights'] or []:
        a += ['--weight' if long else '-w', repr(w)]
    if c['interp']:
        a += ['--interp' if long else '-i', c['interp']]
    if c['over']:
        a += ['--overwrite']
    r = invoke(a)
    if err is not None:
        require(r.exit_code != 0, 'command succeeded but the API did not', err=repr(err))
        if isinstance(err, OrthorityError):
            require(r.exit_code == 2, 'exit status', **text(r))
        return 'error'
    require(r.exit_code == 0, 'command failed', **text(r), args=[str(x) for x in a])
    same(out, exp, 'pan-sharpened')
    return sorted({c['geo'], 'weights' if c['weights'] else 'auto', 'indexes' if c['ms_indexes'] else 'all', *c['opts']})


# --- errors
ERRORS = ['no_src', 'no_match', 'no_dem', 'dem_missing', 'dem_band', 'int_missing', 'ext_missing', 'bad_crs', 'no_crs', 'bad_lla_crs', 'three_res', 'bad_choice', 'exists', 'unknown_image', 'bad_int', 'bad_ext', 'bad_co', 'out_dir', 'no_overlap', 'jpeg_float', 'alpha', 'unknown_cam']


@st.composite
def case_errors(draw):
    c = draw(clic.frame_images())
    c.update(kind=draw(st.sampled_from(ERRORS)), ext='csv', crs='utm35', how='str', tagged=False, radians=False, nocam=False, v=draw(st.integers(0, 3)), cut=draw(fl(0, 1, 3)))
    return c


def check_errors(c, ctx):
    d = ctx.tmp()
    for im in c['ims'].values():
        if not gen.below_horizon(c['cams'][im['cam']], im['ep'], 0.5) or not ref.fov_valid(c['cams'][im['cam']])[0]:
            return None
    src, ip, ep, dem = write_frame(c, d)
    out = d / 'out'
    out.mkdir()
    k, v = c['kind'], c['v']
    o = dict(dem=['-d', dem], int=['-ip', ip], ext=['-ep', ep], crs=['-c', 'EPSG:32735'], out=['-od', out], x=[], src=[src / n for n in c['ims']])
    if k == 'no_src':
        o['src'] = [src / 'none.tif', *o['src']]
    elif k == 'no_match':
        o['src'] = [src / 'none*.tif']
    elif k == 'no_dem':
        o['dem'] = []
    elif k == 'dem_missing':
        o['dem'] = ['-d', d / 'none.tif']
    elif k == 'dem_band':
        o['x'] = ['-db', [0, 3, -1, 100][v]]
    elif k == 'int_missing':
        o['int'] = [['-ip', d / 'none.yaml'], []][v % 2]
    elif k == 'ext_missing':
        o['ext'] = [['-ep', d / 'none.csv'], []][v % 2]
    elif k == 'bad_crs':
        o['crs'] = ['-c', ['EPSG:99999999', 'some text', '+proj=unknown', str(d / 'none.tif')][v]]
    elif k == 'no_crs':
        o['crs'] = []
    elif k == 'bad_lla_crs':
        o['x'] = ['-lc', ['EPSG:32735', 'abc', 'EPSG:3857', 'EPSG:99999999'][v]]
    elif k == 'three_res':
        o['x'] = ['-r', 1, '-r', 2, '-r', 3]
    elif k == 'bad_choice':
        o['x'] = [['-i', 'xyz'], ['-dt', 'uint7'], ['-cm', 'rle'], ['-dv', 'png']][v]
    elif k == 'exists':
        p = out / f'{Path(sorted(c["ims"])[0]).stem}_ORTHO.tif'
        p.write_bytes(b'something' * (v + 1))
    elif k == 'unknown_image':
        n = sorted(c['ims'])[0]
        zz = src / 'zz not in file.tif'
        if v % 2:  # along with images that are in the file
            zz.write_bytes((src / n).read_bytes())
            if c['cut'] < 0.7:  # (one image in the file)
                ep.write_text(''.join(ln for k, ln in enumerate(ep.read_text().splitlines(True)) if k < 2))
                o['src'] = [src / ep.read_text().splitlines()[1].split(',')[0]]
            o['src'].insert(len(o['src']) * (v // 2), zz)
        else:
            (src / n).rename(zz)
            o['src'] = [zz]
    elif k == 'unknown_cam':
        ep.write_text(ep.read_text().replace(',cam\n', ',xyz\n').replace(',other one\n', ',xyz\n'))
    elif k == 'bad_int':
        ip.write_text(['cam:\n  type: pinhole\n', 'cam:\n  type: xyz\n  im_size: [10, 10]\n  focal_len: 1.\n', 'a: [', 'cam:\n  type: brown\n  im_size: [1]\n  focal_len: 1.\n'][v])
    elif k == 'bad_ext':
        ep.write_text(['filename,x,y\na.tif,1,2\n', 'name,x,y,z,omega,phi,kappa\na,1,2,3,4,5,6\n', 'filename,x,y,z,roll,pitch\na,1,2,3,4,5\n', 'filename,x,y,z,omega,phi,kappa,phi\na,1,2,3,4,5\n'][v])
        if v == 3:
            return None
    elif k == 'bad_co':
        o['x'] = ['-co', 'tiled']
    elif k == 'out_dir':
        o['out'] = ['-od', d / 'none']
    elif k == 'no_overlap':
        o['crs'] = ['-c', 'EPSG:32733']
    elif k == 'jpeg_float':
        o['x'] = ['-dt', 'float32', '-cm', 'jpeg']
    elif k == 'alpha':
        o['x'] = ['-a', [-0.1, 1.1, 2, 'x'][v]]
    before = {f: (d / f).read_bytes() for f in files(d)}
    args = ['frame', *(x for k2 in ('dem', 'int', 'ext', 'crs', 'out', 'x', 'src') for x in o[k2])]
    r = invoke(args)
    require(r.exit_code == 2 and isinstance(r.exception, SystemExit), 'not a usage error', kind=k, **text(r))
    require('Error' in r.output and 'Traceback' not in r.output, 'no usage error message', out=r.output[-300:])
    after = {f: (d / f).read_bytes() for f in files(d)}
    for f in before:
        require(after.get(f) == before[f], 'a file was changed', file=f)
    new = set(after) - set(before)
    require(k in ('exists', 'no_src', 'no_crs', 'unknown_image') or not new, 'files were created', new=sorted(new), kind=k)
    return k


# --- separate processes
@st.composite
def case_process(draw):
    c = draw(case_frame())
    c.update(export=False, glob=False)
    return c


def check_process(c, ctx):
    """As a separate process with the default output directory, and relative paths."""
    d = ctx.tmp()
    for im in c['ims'].values():
        if not gen.below_horizon(c['cams'][im['cam']], im['ep'], 0.5) or not ref.fov_valid(c['cams'][im['cam']])[0]:
            return None
    src, ip, ep, dem = write_frame(c, d)
    cwd = d / 'work dir'
    cwd.mkdir()
    gsd = gsd_of(c)
    args = ['frame', '-d', '../dem.tif', '-ip', '../int.yaml', '-ep', f'../{ep.name}', *(['-rd'] if c['radians'] and c['ext'] != 'geojson' else []), *opt_args(False, c['opts'], gsd)]
    if c['crs']:
        args += ['-c', crs_arg(c['how'], clic.CRSS[c['crs']], d)]
    args += [f'../src/{n}' for n in c['ims']]
    root = str(Path(sys.modules['orthority'].__file__).parents[1])
    r = subprocess.run([sys.executable, '-c', f'import sys; sys.path.insert(0, {root!r}); from orthority.cli import cli; cli(prog_name="oty")', *map(str, args)], cwd=cwd, capture_output=True, text=True, timeout=300)
    require(r.returncode == 0, 'command failed', err=r.stderr[-400:])
    require(files(cwd) == sorted(f'{Path(n).stem}_ORTHO.tif' for n in c['ims']), 'output files', got=files(cwd))
    opt = rio.CRS.from_string(clic.CRSS[c['crs']]) if c['crs'] else None
    for n in c['ims']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            cams = FrameCameras(ip, ep, io_kwargs=dict(crs=opt, radians=c['radians'], **lla_kwargs(c)), cam_kwargs=api_kwargs(c['opts'])[0])
        name = f'{Path(n).stem}_ORTHO.tif'
        api_ortho(src / n, dem, cams.get(src / n), world_crs(c, n), d / 'exp' / name, c['opts'], gsd)
        same(cwd / name, d / 'exp' / name, n)
    return [c['ext'], f'images{len(c["ims"])}']


SUBS = [
    Sub('frame', case_frame, check_frame, 140, 3000, 'random batches of images, parameter files and options; each ortho of the command is identical to that of the API for that image alone; exported parameters are those of the API and reproduce the orthos; non-trivial = orthos with valid pixels compared'),
    Sub('rpc', case_rpc, check_rpc, 100, 2000, 'random batches of RPC images, refinement and options; as above; non-trivial = orthos with valid pixels compared'),
    Sub('exif', case_exif, check_exif, 70, 1200, 'random batches of images with tags and options; as above; non-trivial = orthos with valid pixels compared'),
    Sub('odm', case_odm, check_odm, 70, 1200, 'random ODM datasets and options; as above; non-trivial = orthos with valid pixels compared'),
    Sub('legacy', case_legacy, check_legacy, 60, 1000, 'random simple-ortho batches, source directories and configurations; non-trivial = orthos with valid pixels compared'),
    Sub('sharpen', case_sharpen, check_sharpen, 120, 2000, 'random pan-sharpening images and options; output is identical to that of the API; non-trivial = outputs or errors compared'),
    Sub('errors', case_errors, check_errors, 400, 2500, 'invalid options and missing inputs give a usage error with exit status 2, and change no files; non-trivial = command run'),
    Sub('process', case_process, check_process, 12, 120, 'as for frame, with the command in its own process, relative paths and the default output directory; non-trivial = orthos compared'),
]
ASSUMPTIONS = ['commands are run in process (except for sub-check process)', 'expected orthos come from the API with one image at a time: their values are the subject of other properties']
