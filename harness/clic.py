"""Batches of images, a DEM and camera parameters for the command line; and in-process invocation of the command line."""
import json
import logging
import math
import warnings
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness import gen, imgs, orthoc
from harness.gen import fl, seeds

LON, LAT, Z0 = 24.4, -33.7, 120.
CRSS = {'utm35': 'EPSG:32735', 'utm34': 'EPSG:32734', 'lo25': '+proj=tmerc +lat_0=0 +lon_0=25 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +no_defs', 'merc': 'EPSG:3857'}
NAMES = ['a.tif', 'b.tif', 'c d.tif', 'im.2.tif', 'E.TIF', '3324c_01.tif', 'x_ORTHO.tif']
COS = [[], [], [], [['TILED', 'yes'], ['blockxsize', '64'], ['BLOCKYSIZE', '32'], ['compress', 'LZW']], [['compress', 'deflate'], ['zlevel', '1'], ['predictor', '2']], [['COMPRESS', 'packbits'], ['interleave', 'band']], [['compress', 'none']], [['tiled', 'NO'], ['blockysize', '16'], ['compress', 'lzw']]]


def zfun(lon, lat):
    return Z0 + 20 * np.sin((lon - LON) * 400) + 30 * np.cos((lat - LAT) * 300)


def write_dem(path, bands=2):
    n, half = 64, 0.02
    r = 2 * half / n
    jj, ii = np.meshgrid(np.arange(n) + 0.5, np.arange(n) + 0.5)
    z = zfun(LON - half + jj * r, LAT + half - ii * r)
    imgs.write_tif(path, np.array([z, z + 40., z - 30.])[:bands].astype('float32'), crs='EPSG:4326', transform=rio.Affine(r, 0, LON - half, 0, -r, LAT + half), nodata=float('nan'))
    return path


@st.composite
def options(draw, frame=True, dtype='uint8'):
    """Random options (only those which are given)."""
    o = {}
    on = lambda: draw(st.integers(0, 2)) == 0
    if on():
        o['res'] = draw(st.sampled_from([[1.3], [0.8, 1.7], [2.2]]))
    if on():
        o['dem_band'] = draw(st.integers(1, 2))
    if on():
        o['interp'] = draw(st.sampled_from(['nearest', 'bilinear', 'cubic', 'lanczos', 'average']))
    if on():
        o['dem_interp'] = draw(st.sampled_from(['nearest', 'bilinear', 'cubic', 'average']))
    for k in ('per_band', 'write_mask', 'build_ovw') + (('full_remap',) if frame else ()):
        if on():
            o[k] = draw(st.booleans())
    if frame and on():
        o['alpha'] = draw(st.sampled_from([0., 0.4, 1.]))
    if on():
        o['dtype'] = draw(st.sampled_from(['uint8', 'uint16', 'int16', 'float32']))
    if on():
        o['compress'] = draw(st.sampled_from(['deflate', 'lzw', 'jpeg'] if o.get('dtype', dtype) == 'uint8' else ['deflate', 'lzw']))
    o['driver'] = draw(st.sampled_from(['gtiff', 'gtiff', 'cog']))
    if o['driver'] == 'gtiff':
        del o['driver']
        o['co'] = draw(st.sampled_from(COS))
        if not o['co']:
            del o['co']
    if 'alpha' in o and draw(st.booleans()):  # (has no effect otherwise)
        o['full_remap'] = False
    return o


def opt_args(draw_long, o, gsd=1.):
    """Command line arguments of options."""
    L = draw_long
    a = []
    for r in o.get('res', []):
        a += ['--res' if L else '-r', repr(round(r * gsd, 9))]
    for k, (lng, sh) in dict(dem_band=('--dem-band', '-db'), interp=('--interp', '-i'), dem_interp=('--dem-interp', '-di'), alpha=('--alpha', '-a'), dtype=('--dtype', '-dt'), compress=('--compress', '-cm'), driver=('--driver', '-dv')).items():
        if k in o:
            a += [lng if L else sh, str(o[k])]
    for k, (lng, sh) in dict(per_band=('per-band', 'pb'), write_mask=('write-mask', 'wm'), build_ovw=('build-ovw', 'bo'), full_remap=('full-remap', 'fr')).items():
        if k in o:
            a += [('--' if o[k] else '--no-') + lng if L else ('-' if o[k] else '-n') + sh]
    for k, v in o.get('co', []):
        a += ['--creation-option' if L else '-co', f'{k}={v}']
    return a


def co_dict(co):
    """Creation options as the API's dictionary."""
    def val(v):
        v = v.lower()
        return dict(yes=True, no=False, none=None).get(v, int(v) if v.isdigit() else v)
    return {k.lower(): val(v) for k, v in co}


def api_kwargs(o, gsd=1.):
    """(camera, ortho, process) keyword arguments of options."""
    cam = {}
    if 'full_remap' in o:
        cam['distort'] = o['full_remap']
    if 'alpha' in o:
        cam['alpha'] = o['alpha']
    kw = {k: o[k] for k in ('interp', 'dem_interp', 'per_band', 'write_mask', 'dtype', 'compress', 'build_ovw', 'driver') if k in o}
    if 'res' in o:
        r = tuple(round(v * gsd, 9) for v in o['res'])
        kw['resolution'] = r * 2 if len(r) == 1 else r
    if 'co' in o:
        kw['creation_options'] = co_dict(o['co'])
    return cam, {k: o[k] for k in ('dem_band',) if k in o}, kw


@st.composite
def names_of(draw, names):
    n = draw(st.sampled_from([2, 1, 2, 3]))
    return draw(st.lists(st.sampled_from(names), min_size=n, max_size=n, unique=True))


@st.composite
def frame_images(draw, names=NAMES, crss=tuple(CRSS), types=gen.TYPES, lo=20, hi=48):
    """Cameras and images of a batch."""
    cams = {}
    for k in draw(st.sampled_from([['cam'], ['cam'], ['cam', 'other one']])):
        size = draw(st.tuples(st.integers(lo, hi), st.integers(lo, hi)))
        cams[k] = draw(gen.interior(types=types, sizes=st.just(size), strength=0.3, f_lo=0.9, f_hi=2.))
    ims = {}
    for n in draw(names_of(names)):
        cam = draw(st.sampled_from(sorted(cams)))
        ep = draw(gen.exterior(max_tilt=0.2, alt=(200, 700), xy=400))
        ep = gen.level(cams[cam], ep, 0.6)
        ims[n] = dict(cam=cam, ep=ep, crs=draw(st.sampled_from(crss)), seed=draw(seeds()))
    c = dict(cams=cams, ims=ims, bands=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(DTYPES)))
    mix(draw, c)
    return c


DTYPES = ['uint8', 'uint8', 'uint16', 'float32']


def mix(draw, c):
    """Images of one batch may differ in data type and number of bands."""
    if len(c['ims']) > 1 and draw(st.booleans()):
        for im in c['ims'].values():
            im.update(dtype=draw(st.sampled_from(DTYPES)), bands=draw(st.integers(1, 3)))
        c['dtype'] = next((im['dtype'] for im in c['ims'].values() if im['dtype'] != 'uint8'), 'uint8')


def origin(crs):
    (x,), (y,) = transform('EPSG:4326', crs, [LON], [LAT])
    return round(x, 3), round(y, 3)


def position(im, crs):
    x, y = origin(crs)
    e = im['ep']['xyz']
    return [x + e[0], y + e[1], Z0 + e[2]]


def write_source(path, im, size, bands, dtype, crs=None, **kw):
    """Source image."""
    rng = np.random.default_rng(im['seed'])
    w, h = size
    bands, dtype = im.get('bands') or bands, im.get('dtype') or dtype
    a = rng.uniform(1, 250, (bands, h, w)).astype(dtype)
    if crs:
        kw.update(crs=crs, transform=rio.Affine(2, 0, im['seed'] % 1000, 0, -2, 77))
    imgs.write_tif(path, a, **kw)


def invoke(args):
    """Run the command line in this process: click Result."""
    from click.testing import CliRunner
    from orthority.cli import cli
    log = logging.getLogger('orthority')
    state = list(log.handlers), log.level, warnings.showwarning
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return CliRunner().invoke(cli, [str(a) for a in args])
    finally:
        log.handlers[:], warnings.showwarning = state[0], state[2]
        log.setLevel(state[1])


def text(res):
    """Summary of a result."""
    e = res.exception
    return dict(exit=res.exit_code, exc=None if e is None or isinstance(e, SystemExit) else repr(e)[:300], out=res.output[-400:])


def image(path):
    """Contents and format of an image."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as im:
            p = dict(im.profile)
            p['nodata'] = repr(p.get('nodata'))
            p.update(crs=im.crs.to_wkt() if im.crs else None, ci=[c.name for c in im.colorinterp], ovw=im.overviews(1), tags=im.tags(ns='IMAGE_STRUCTURE'), btags=[im.tags(b) for b in im.indexes], desc=im.descriptions)
            return im.read(), im.dataset_mask(), p
