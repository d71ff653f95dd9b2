"""C17: EXIF / XMP tags."""
import math
import warnings
from contextlib import ExitStack
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl
from harness import ref, exifw
from orthority.exif import Exif
from orthority.errors import ParamError
from orthority.factory import FrameCameras
from orthority.param_io import ExifReader, read_exif_int_param
from props.c09 import as_input

DJI, SENSEFLY, PIX4D = 'http://www.dji.com/drone-dji/1.0/', 'http://ns.sensefly.com/Camera/1.0/', 'http://pix4d.com/camera/1.0/'
MM = {2: 25.4, 3: 10., 4: 1., 5: 0.001}


def rat(draw, lo, hi):
    """Rational within range, in a variety of forms."""
    den = draw(st.sampled_from([1, 10, 100, 1000, 3, 7, 65536, 100000]))
    num = draw(st.integers(math.ceil(lo * den), math.floor(hi * den)))
    return [num, den]


@st.composite
def dms(draw, lim):
    form = draw(st.sampled_from(['dms', 'dms', 'dm', 'd']))
    deg = draw(st.integers(0, lim - 1))
    if form == 'dms':
        return [[deg, 1], [draw(st.integers(0, 59)), 1], rat(draw, 0, 59)]
    if form == 'dm':
        return [[deg, 1], [draw(st.integers(0, 59999)), 1000], [0, 1]]
    return [[draw(st.integers(0, lim * 1000)), 1000], [0, 1], [0, 1]]


def num(draw, lo, hi):
    """Number as an XMP string."""
    v = draw(fl(lo, hi, 5))
    return draw(st.sampled_from([f'{v:+.2f}', f'{v:.4f}', repr(v), f'{v:+.6f}', f'{v:.1f}', str(int(v))]))


def some(draw, p=4):
    return draw(st.integers(0, p - 1)) > 0


@st.composite
def image(draw, complete=False):
    """Tags of an image."""
    t = {}
    on = (lambda p=4: True) if complete else (lambda p=4: some(draw, p))
    if on(6):
        t['Make'] = draw(st.sampled_from(['DJI', 'senseFly', 'SONY ', 'Parrot']))
    if on(6):
        t['Model'] = draw(st.sampled_from(['FC6310R', 'DSC-RX1RM2', 'a']))
    if some(draw):
        t['BodySerialNumber'] = draw(st.sampled_from(['53cfc6d37d1b4f4a', '0001', 'S/N 9']))
    if some(draw):
        t['Orientation'] = draw(st.integers(1, 8))
    kind = draw(st.sampled_from(['dewarp', 'plane', '35', 'plane35', 'none', 'focal'] if not complete else ['dewarp', 'plane', '35', 'plane35']))
    size = [draw(st.integers(8, 60)), draw(st.integers(8, 60))]
    if some(draw, 5) or (kind == 'dewarp' and complete):
        f = draw(st.sampled_from([1, 1, 2, 10]))
        t['PixelXDimension'], t['PixelYDimension'] = size[0] * f, size[1] * f
    if kind in ('plane', 'focal') or some(draw):
        t['FocalLength'] = rat(draw, 2, 300)
    if kind in ('plane', 'plane35'):
        t['FocalPlaneXResolution'] = rat(draw, 20, 4000)
        t['FocalPlaneYResolution'] = draw(st.sampled_from([t['FocalPlaneXResolution'], None])) or rat(draw, 20, 4000)
        t['FocalPlaneResolutionUnit'] = draw(st.sampled_from([2, 3, 4, 5]))
        if kind == 'plane35' and draw(st.booleans()):
            t.pop('FocalLength', None)
    if kind in ('35', 'plane35') or some(draw):
        t['FocalLengthIn35mmFilm'] = draw(st.integers(10, 400))
    x = {}
    if kind == 'dewarp':
        n = draw(st.sampled_from([9, 9, 9, 9, 8])) if not complete else 9
        d = [draw(fl(20, 5000, 2)), draw(fl(20, 5000, 2)), draw(fl(-20, 20, 2)), draw(fl(-20, 20, 2)), *[draw(fl(-0.2, 0.2, 12)) for _ in range(5)]][:n]
        if not complete and not some(draw, 8):
            d = [0.] * n
        x['dewarp'] = [DJI, draw(st.sampled_from(['2018-09-04;', '', '2020-01-01;'])) + ','.join(f'{v:.12f}' for v in d)]
    pos = draw(st.sampled_from(['exif', 'xmp', 'both', 'part', 'none'] if not complete else ['exif', 'xmp', 'both', 'part']))
    if pos in ('exif', 'both', 'part'):
        t['GPSLatitudeRef'], t['GPSLongitudeRef'] = draw(st.sampled_from('NS')), draw(st.sampled_from('EW'))
        t['GPSLatitude'], t['GPSLongitude'] = draw(dms(79)), draw(dms(180))
        if on(6):
            t['GPSAltitude'] = rat(draw, 0, 6000)
        if some(draw):
            t['GPSAltitudeRef'] = draw(st.integers(0, 1))
    if pos in ('xmp', 'both'):
        x['lla'] = [DJI, num(draw, -79, 79), num(draw, -180, 180), num(draw, -100, 6000)]
    elif pos == 'part':
        x['lla'] = [DJI, num(draw, -79, 79), None, num(draw, -100, 6000)]
    if not complete and not some(draw, 10):
        t.pop('GPSLongitudeRef', None)
    rpy = draw(st.lists(st.sampled_from([DJI, SENSEFLY, PIX4D]), max_size=3, unique=True, min_size=1 if complete else 0))
    x['rpy'] = [[ns, num(draw, -180, 180), num(draw, -90, 30), num(draw, -180, 180)] for ns in rpy]
    if x['rpy'] and not complete and not some(draw, 8):
        x['rpy'][0][2] = None
    if some(draw):
        t['ExposureTime'] = [1, 500]
    if draw(st.booleans()):
        t['Software'] = 'v1.0'
    form = draw(st.sampled_from(['jpg', 'jpg', 'tif', 'gdal']))
    return dict(tags=t, xmp=x, size=size, form=form, endian=draw(st.sampled_from('<>')), el=draw(st.integers(0, 2)), packet=draw(st.booleans()), input=draw(st.sampled_from(['str', 'path', 'ds', 'ofile'])))


def flat_xmp(im):
    x, out = im['xmp'], {}
    if 'dewarp' in x:
        out[(DJI, 'DewarpData')] = x['dewarp'][1]
    if 'lla' in x:
        out.update({(DJI, k): v for k, v in zip(['GpsLatitude', 'GpsLongtitude', 'AbsoluteAltitude'], x['lla'][1:])})
    for ns, *v in x['rpy']:
        out.update({(ns, k): a for k, a in zip(['GimbalRollDegree', 'GimbalPitchDegree', 'GimbalYawDegree'] if ns == DJI else ['Roll', 'Pitch', 'Yaw'], v)})
    return {k: v for k, v in out.items() if v is not None}


def write(im, path):
    x = flat_xmp(im)
    s = None
    if x:
        items = list(x.items())
        a, e = (dict(items), {}) if im['el'] == 0 else ({}, dict(items)) if im['el'] == 1 else (dict(items[::2]), dict(items[1::2]))
        s = exifw.xmp(a, e, packet=im['packet'])
    if im['form'] == 'gdal':  # as converted to GeoTIFF by GDAL
        tmp = path.with_suffix('.src.jpg')
        exifw.write_jpeg(tmp, im['size'], im['tags'], s, im['endian'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.open(tmp) as src:
                with rio.open(path, 'w', driver='GTiff', width=src.width, height=src.height, count=1, dtype='uint8') as dst:
                    dst.write(src.read([1]))
                    dst.update_tags(**src.tags())
                    for ns in ('xml:XMP',):
                        if src.tags(ns=ns):
                            dst.update_tags(ns=ns, **src.tags(ns=ns))
        tmp.unlink()
    elif im['form'] == 'tif':
        exifw.write_tiff(path, im['size'], im['tags'], s, im['endian'])
    else:
        exifw.write_jpeg(path, im['size'], im['tags'], s, im['endian'])


def name(im, i):
    return f'im{i}.' + ('jpg' if im['form'] == 'jpg' else 'tif')


def expected(im):
    """Values encoded by the tags."""
    t, x, tif = im['tags'], im['xmp'], im['form'] == 'tif'
    r = lambda k: None if k not in t else t[k][0] / t[k][1]
    e = dict(im_size=tuple(im['size']), tag_im_size=(t['PixelXDimension'], t['PixelYDimension']) if 'PixelXDimension' in t else None, focal_len=r('FocalLength'), focal_len_35=t.get('FocalLengthIn35mmFilm'),
             serial=t.get('BodySerialNumber'))
    if not tif:  # (GDAL does not provide these TIFF tags)
        e.update(make=t['Make'].lower().strip() if 'Make' in t else None, model=t['Model'].lower().strip() if 'Model' in t else None, orientation=t.get('Orientation'))
    e['ppmm'] = (r('FocalPlaneXResolution') / MM[t['FocalPlaneResolutionUnit']], r('FocalPlaneYResolution') / MM[t['FocalPlaneResolutionUnit']]) if 'FocalPlaneXResolution' in t else None
    full = e['im_size']  # (tagged focal plane resolutions are taken as those of the actual image)
    e['sensor_size'] = (full[0] / e['ppmm'][0], full[1] / e['ppmm'][1]) if e['ppmm'] else None
    lla = None
    if 'lla' in x and None not in x['lla']:
        lla = tuple(float(v) for v in x['lla'][1:])
    elif 'GPSLatitude' in t and 'GPSLongitudeRef' in t:
        deg = lambda v: sum(a / b / 60 ** k for k, (a, b) in enumerate(v))
        lla = (deg(t['GPSLatitude']) * (-1 if t['GPSLatitudeRef'] == 'S' else 1), deg(t['GPSLongitude']) * (-1 if t['GPSLongitudeRef'] == 'W' else 1), (r('GPSAltitude') or 0.) * (-1 if t.get('GPSAltitudeRef') == 1 else 1))
        # (GDAL gives 6 significant digits of each component)
        e['lla_tol'] = np.array([1e-9 + sum(6e-6 * a / b / 60 ** k * (a % b > 0) for k, (a, b) in enumerate(t[n])) for n in ('GPSLatitude', 'GPSLongitude')])
    e['lla'] = lla
    e['rpy'] = None
    for ns in (DJI, SENSEFLY, PIX4D):
        for s, *v in x['rpy']:
            if s == ns and None not in v and e['rpy'] is None:
                e['rpy'] = [float(a) for a in v]
                if ns == DJI:  # (DJI gimbal pitch is -90 degrees when the camera looks down)
                    e['rpy'][1] += 90
    e['dewarp'] = [float(v) for v in x['dewarp'][1].split(';')[-1].split(',')] if 'dewarp' in x else None
    return e


def close(a, b, rtol=2e-5, atol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=atol)


def exp_interior(e):
    """Expected (fx, fy, cx, cy, dist) in pixels, or None."""
    w, h = e['im_size']
    d = e['dewarp']
    if d and len(d) == 9 and any(d) and e['tag_im_size']:
        s = w / e['tag_im_size'][0]
        return d[0] * s, d[1] * h / e['tag_im_size'][1], (w - 1) / 2 + d[2] * s, (h - 1) / 2 + d[3] * s, dict(zip(['k1', 'k2', 'p1', 'p2', 'k3'], d[4:]))
    c = ((w - 1) / 2, (h - 1) / 2)
    if e['ppmm'] and (e['focal_len'] or e['focal_len_35']):
        # pixels per mm on the focal plane
        f = e['focal_len'] or max(e['sensor_size']) * e['focal_len_35'] / 36
        return f * e['ppmm'][0], f * e['ppmm'][1], *c, {}
    if e['focal_len_35']:
        f = e['focal_len_35'] / 36 * max(w, h)
        return f, f, *c, {}
    return None


def check_interior(cam, e, msg):
    """Check a camera looking down from the origin."""
    fx, fy, cx, cy, dist = exp_interior(e)
    for u, v in ((0, 0), (0.1, -0.05), (-0.3, 0.2), (0.15, 0.3)):
        r2 = u * u + v * v
        k = 1 + r2 * (dist.get('k1', 0) + r2 * (dist.get('k2', 0) + r2 * dist.get('k3', 0)))
        p1, p2 = dist.get('p1', 0), dist.get('p2', 0)
        ud, vd = u * k + 2 * p1 * u * v + p2 * (r2 + 2 * u * u), v * k + p1 * (r2 + 2 * v * v) + 2 * p2 * u * v
        exp = np.array([cx + fx * ud, cy + fy * vd])
        got = cam(u, v)
        require(np.abs(got - exp).max() < 1e-3 + 5e-5 * max(fx, fy), msg, got=got, exp=exp)


def check_image(case, ctx):
    from orthority.camera import create_camera
    d = ctx.tmp()
    path = d / name(case, 0)
    write(case, path)
    e = expected(case)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        warnings.simplefilter('ignore', rio.errors.NotGeoreferencedWarning)
        with ExitStack() as stack:
            x = Exif(as_input(case['input'], path, stack, d, 'im'))
    require(x.filename == path.name, 'filename', got=x.filename)
    for k in ('make', 'model', 'serial', 'orientation', 'im_size', 'tag_im_size'):
        if k in e:
            got = getattr(x, k)
            got = got.strip() if k in ('make', 'model') and got else got
            require(got == e[k], k, got=got, exp=e[k])
    for k in ('focal_len', 'focal_len_35', 'sensor_size', 'dewarp'):
        require(close(getattr(x, k), e[k]), k, got=getattr(x, k), exp=e[k])
    require(close(x.rpy, e['rpy'], 0, 1e-9), 'roll, pitch, yaw', got=x.rpy, exp=e['rpy'])
    # (GDAL provides EXIF numbers to 6 significant digits)
    require((x.lla is None) == (e['lla'] is None) and (e['lla'] is None or (np.all(np.abs(np.subtract(x.lla[:2], e['lla'][:2])) <= e.get('lla_tol', 1e-9)) and close(x.lla[2], e['lla'][2]))),
            'latitude, longitude, altitude', got=x.lla, exp=e['lla'])
    td = x.to_dict()
    require(td['lla'] == x.lla and td['rpy'] == x.rpy and td['focal_len'] == x.focal_len and td['im_size'] == x.im_size, 'to_dict()')
    # interior parameters
    labels = [case['form'], 'xmp' if flat_xmp(case) else 'no-xmp']
    if exp_interior(e):
        (cam_id, ip), = read_exif_int_param(str(path)).items()
        cam = create_camera(**ip, xyz=(0., 0., 0.), opk=(0., 0., 0.))
        check_interior(lambda u, v: cam.world_to_pixel(np.array([[u], [-v], [-1.]]))[:, 0], e, 'interior parameters')
        labels.append(ip['cam_type'].value if hasattr(ip['cam_type'], 'value') else ip['cam_type'])
    else:
        try:
            read_exif_int_param(str(path))
        except ParamError:
            labels.append('no-interior')
        else:
            raise Violation('interior parameters from an image without the required tags')
    labels += ['lla' if e['lla'] else 'no-lla', 'rpy' if e['rpy'] else 'no-rpy', 'resized' if e['tag_im_size'] not in (None, e['im_size']) else 'full']
    return labels


@st.composite
def case_set(draw):
    n = draw(st.integers(1, 4))
    ims = [draw(image(complete=True)) for _ in range(n)]
    lat, lon = draw(fl(-70, 70, 5)), draw(fl(-180, 180, 5))
    for im in ims:  # bring images together
        la, lo = lat + draw(fl(-0.05, 0.05, 6)), lon + draw(fl(-0.05, 0.05, 6))
        lo = (lo + 180) % 360 - 180
        im['xmp']['lla'] = [DJI, repr(round(la, 7)), repr(round(lo, 7)), repr(draw(fl(0, 3000, 3)))]
    same = draw(st.sampled_from(['any', 'make', 'none', 'same']))
    for im in ims:
        if same == 'make':
            im['tags'].update(Make='DJI', Model='M')
            im['tags'].pop('BodySerialNumber', None)
        elif same == 'none':
            for k in ('Make', 'Model', 'BodySerialNumber'):
                im['tags'].pop(k, None)
        elif same == 'same':
            keep = {k: v for k, v in ims[0]['tags'].items() if not k.startswith('GPS')}
            im['tags'] = {**{k: v for k, v in im['tags'].items() if k.startswith('GPS')}, **keep}
            im['size'], im['form'] = list(ims[0]['size']), ims[0]['form']
            dw = ims[0]['xmp'].get('dewarp')
            im['xmp'].pop('dewarp', None)
            if dw:
                im['xmp']['dewarp'] = dw
    return dict(ims=ims, crs=draw(st.sampled_from([None, None, '3857', 'utm'])), missing=draw(st.sampled_from([None, None, None, 'lla', 'rpy', 'interior'])), which=draw(st.integers(0, 3)), via=draw(st.sampled_from(['reader', 'factory', 'factory'])), order=draw(st.booleans()))


def check_set(case, ctx):
    d = ctx.tmp()
    ims = case['ims']
    miss, k = case['missing'], case['which'] % len(ims)
    t, x = ims[k]['tags'], ims[k]['xmp']
    if miss == 'lla':
        x.pop('lla')
        t.pop('GPSLatitude', None)
    elif miss == 'rpy':
        x['rpy'] = []
    elif miss == 'interior':
        x.pop('dewarp', None)
        t.pop('FocalLengthIn35mmFilm', None)
        t.pop('FocalLength', None)
    paths = []
    for i, im in enumerate(ims):
        paths.append(d / name(im, i))
        write(im, paths[-1])
    es = [expected(im) for im in ims]
    lat, lon = (es[0]['lla'] or (0, 0))[:2]
    crs = {None: None, '3857': 'EPSG:3857', 'utm': f'EPSG:{(32600 if lat >= 0 else 32700) + int((lon + 180) // 6) % 60 + 1}'}[case['crs']]
    io_kwargs = dict(crs=crs) if crs else {}
    kw = dict(io_kwargs)
    with ExitStack() as stack:
        files = [as_input(im['input'], p, stack, d, f'i{i}') for i, (im, p) in enumerate(zip(ims, paths))]
        try:
            if case['via'] == 'factory':
                fac = FrameCameras.from_images(files, io_kwargs=io_kwargs)
                rdr = ExifReader(files, **kw)
                ip, ep = rdr.read_int_param(), rdr.read_ext_param()
            else:
                rdr = ExifReader(files, **kw)
                ip, ep = rdr.read_int_param(), rdr.read_ext_param()
                fac = FrameCameras(ip, ep, io_kwargs=dict(crs=rdr.crs))
        except ParamError:
            require(miss, 'parameter error for images with all required tags')
            return ['missing-' + miss]
    require(not miss, 'images without required tags', missing=miss)
    require({k: repr(v) for k, v in io_kwargs.items()} == {k: repr(v) for k, v in kw.items()}, "the caller's io_kwargs was changed", got=str(io_kwargs), exp=str(kw))
    require(list(ep) == [p.name for p in paths], 'image names', got=list(ep))
    require(fac.filenames == {p.name for p in paths}, 'factory image names', got=fac.filenames)
    crs = crs or rdr.crs.to_string()
    require(fac.crs == rio.CRS.from_string(crs) == rdr.crs, 'CRS', got=str(fac.crs))
    for p, e, im in [*zip(paths, es, ims)][::-1 if case['order'] else 1]:
        require(ep[p.name]['camera'] in ip, 'camera ID is not among the cameras', got=ep[p.name]['camera'])
        exp = np.array([v[0] for v in transform('EPSG:4979', crs, [e['lla'][1]], [e['lla'][0]], [e['lla'][2]])])
        require(np.allclose(ep[p.name]['xyz'], exp, rtol=0, atol=1e-4), 'position', got=ep[p.name]['xyz'], exp=exp, image=p.name)
        R = ref.rpy_to_R([math.radians(v) for v in e['rpy']], e['lla'], crs, 'EPSG:4979')
        G = ref.opk_to_R(ep[p.name]['opk'])
        require(np.abs(R - G).max() < 3e-5, 'orientation', err=np.abs(R - G).max(), image=p.name)
        cam = fac.get(p.name)
        require(tuple(cam.im_size) == e['im_size'], 'image size', got=cam.im_size, exp=e['im_size'])
        pos = np.array(ep[p.name]['xyz'])
        check_interior(lambda u, v: cam.world_to_pixel((pos + 100 * G @ np.array([u, -v, -1.]))[:, None])[:, 0], e, f'camera for {p.name}')
    return [f'images{len(ims)}', f'cams{len(ip)}', case['via'], 'auto' if not case['crs'] else 'crs']


SUBS = [
    Sub('image', image, check_image, 1600, 30000, 'JPEG and TIFF images with tags encoded by an independent EXIF / XMP writer; non-trivial = all values compared'),
    Sub('set', case_set, check_set, 800, 16000, 'sets of such images, with the cameras for each compared with its tags, or a required tag missing; non-trivial = all images compared, or the missing tag rejected'),
]
ASSUMPTIONS = ['EXIF and XMP are read through GDAL, which formats EXIF numbers to 6 significant digits', 'PROJ coordinate transforms are trusted']
