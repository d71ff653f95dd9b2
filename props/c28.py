"""C28: invalid arguments are rejected before any output is touched."""
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import clic, gen, imgs, orthoc, pansh
from harness.engine import Sub, Violation, require
from harness.gen import fl

BAD_STR = ['bad', '', 'Cubic spline', 'none', 'png']
OPTS = dict(
    interp=[*BAD_STR, 7], dem_interp=[*BAD_STR, 7], compress=['zip', 'bad', 5], driver=['png', 'tif', 'bad'], dtype=['uint32', 'int8', 'int32', 'complex64', 'foo', 'int64'],
    resolution=[[0., 0.], [-1., 1.], [1., -1.], [-2., -2.], [float('nan'), 1.], [1., float('nan')], [1., 0.], [1e9, 1e9]],
)


@st.composite
def case_ortho(draw):
    c = draw(orthoc.scenario(lo=24, hi=50, kinds=('flat', 'plane'), dem_crs=('same', 'same', 'geo')))
    kind = draw(st.sampled_from(['opt', 'opt', 'opt', 'opt', 'jpeg', 'no_camera', 'no_ext', 'no_crs', 'bad_crs', 'dem_band', 'dem_far', 'dem_nodata', 'dem_no_crs', 'src_missing', 'dem_missing', 'src_not_image', 'dem_not_image']))
    c['kind'] = kind
    if kind == 'opt':
        c['key'] = draw(st.sampled_from(sorted(OPTS)))
        c['val'] = draw(st.sampled_from(OPTS[c['key']]))
        # with random other valid options
        c['more'] = draw(st.fixed_dictionaries({}, optional=dict(per_band=st.booleans(), write_mask=st.booleans(), build_ovw=st.booleans(), interp=st.sampled_from(['nearest', 'bilinear']), driver=st.sampled_from(['gtiff', 'cog']))))
    elif kind == 'jpeg':
        c['dtype'] = draw(st.sampled_from(['int16', 'float32', 'float64']))
    elif kind == 'dem_band':
        c['val'] = draw(st.sampled_from([0, -1, 2, 3, 100]))
    elif kind == 'bad_crs':
        c['val'] = draw(st.sampled_from(['foo', 'EPSG:-1', 'EPSG:99999999', '+proj=foo']))
    elif kind == 'dem_far':
        c['val'] = [draw(st.sampled_from([-1, 1])) * draw(fl(30, 200, 0)), draw(st.sampled_from([-1, 0, 1])) * draw(fl(30, 200, 0))]
    if kind == 'no_ext' and c['cam'] != 'frame':
        c['kind'] = 'no_camera'
    c['exists'] = draw(st.sampled_from([None, 'keep', 'overwrite', 'overwrite']))
    return c


def attempt(fn, out, exists):
    """Call fn, which should fail, returning its exception; and check that it does not touch any file in the output directory."""
    old = {}
    if exists:
        out.write_bytes(b'something else')
        (out.parent / (out.name + '.aux.xml')).write_bytes(b'<PAMDataset/>')
        old = {p.name: p.read_bytes() for p in out.parent.iterdir()}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            fn()
        except Exception as ex:
            new = {p.name: p.read_bytes() for p in out.parent.iterdir()}
            require(new.keys() == old.keys(), 'files were created or removed though the arguments were rejected', got=sorted(new), exp=sorted(old), error=repr(ex)[:200])
            require(new == old, 'existing files were modified though the arguments were rejected', error=repr(ex)[:200])
            return ex
    raise Violation('invalid arguments were not rejected')


def check_ortho(case, ctx):
    import rasterio as rio
    from orthority.camera import create_camera
    from orthority.errors import CameraInitError, CrsMissingError, OrthorityError
    from orthority.ortho import Ortho
    d = ctx.tmp()
    s = orthoc.build(case, d)
    if s is None:
        return None
    kind = case['kind']
    src, dem, crs, kw, ikw = s.src, s.dem, s.crs, {}, {}
    cam = orthoc.camera(s)
    exp = Exception
    if kind == 'opt':
        kw = dict(case['more'])
        v = case['val']
        kw[case['key']] = tuple(v) if isinstance(v, list) else v
        if case['key'] == 'dtype' or (case['key'] == 'resolution' and max(v) > 1e6):
            exp = OrthorityError
    elif kind == 'jpeg':
        kw = dict(compress='jpeg')
        exp = OrthorityError
    elif kind == 'no_camera':
        cam = None
    elif kind == 'no_ext':
        cam = create_camera(**{k: v for k, v in gen.camera_kwargs(s.ip, s.ep).items() if k not in ('xyz', 'opk')})
        exp = CameraInitError
    elif kind == 'no_crs':
        crs, exp = None, CrsMissingError
    elif kind == 'bad_crs':
        crs = case['val']
    elif kind == 'dem_band':
        ikw, exp = dict(dem_band=case['val']), OrthorityError
    elif kind in ('dem_far', 'dem_nodata', 'dem_no_crs'):
        p = dict(s.dem_profile)
        a = s.dem_array
        if kind == 'dem_far':
            if case['dem_crs'] != 'same':
                return None
            p['transform'] = rio.Affine.translation(case['val'][0] * s.half, case['val'][1] * s.half) * p['transform']
            exp = OrthorityError
        elif kind == 'dem_nodata':
            a = np.full_like(a, np.nan)
            exp = OrthorityError
        else:
            p.pop('crs')
        dem = imgs.write_tif(d / 'dem2.tif', a, **p)
    elif kind == 'src_missing':
        src, exp = d / 'missing.tif', FileNotFoundError
    elif kind == 'dem_missing':
        dem, exp = d / 'missing.tif', FileNotFoundError
    elif kind in ('src_not_image', 'dem_not_image'):
        f = d / 'text.tif'
        f.write_text('not an image')
        src, dem = (f, dem) if kind == 'src_not_image' else (src, f)
    ins = {p: p.read_bytes() for p in d.iterdir()}
    out = d / 'o' / 'out.tif'
    out.parent.mkdir()
    # (existing files are only reached by valid arguments without the overwrite option)
    ex = attempt(lambda: Ortho(src, dem, cam, crs=crs, **ikw).process(out, overwrite=case['exists'] == 'overwrite', **kw), out, case['exists'])
    if case['exists'] != 'keep':
        require(isinstance(ex, exp), 'type of error', got=repr(ex)[:200], exp=exp.__name__)
    for p in ins:
        require(p.read_bytes() == ins[p], 'input was modified', file=p.name)
    return [kind if kind != 'opt' else case['key'], case['exists'] or 'new']


POPTS = {k: OPTS[k] for k in ('interp', 'compress', 'driver', 'dtype')}


@st.composite
def case_pan(draw):
    c = draw(pansh.scenario(geo=('both', 'none')))
    c.update(off=[0.0, 0.0], cover=[1.0, 1.0], nd=None)
    c['kind'] = draw(st.sampled_from(['opt', 'opt', 'jpeg', 'pan_missing', 'ms_missing', 'pan_not_image', 'ms_not_image']))
    if c['kind'] == 'opt':
        c['key'] = draw(st.sampled_from(sorted(POPTS)))
        c['val'] = draw(st.sampled_from(POPTS[c['key']]))
    elif c['kind'] == 'jpeg':
        c['ms_dtype'] = draw(st.sampled_from(['int16', 'float32', 'float64']))
    c['exists'] = draw(st.sampled_from([None, 'overwrite']))
    return c


def check_pan(case, ctx):
    from orthority.errors import OrthorityError
    from orthority.pan_sharp import PanSharpen
    d = ctx.tmp()
    s = pansh.build(case, d)
    kw = pansh.kwargs(case)
    kind = case['kind']
    pan, ms = s.pan_file, s.ms_file
    exp = Exception
    if kind == 'opt':
        kw[case['key']] = case['val']
        exp = OrthorityError if case['key'] == 'dtype' else Exception
    elif kind == 'jpeg':
        kw['compress'] = 'jpeg'
        exp = OrthorityError
    else:
        f = d / 'other.tif'
        if kind.endswith('missing'):
            exp = FileNotFoundError
        else:
            f.write_text('not an image')
        pan, ms = (f, ms) if kind.startswith('pan') else (pan, f)
    ins = {p: p.read_bytes() for p in d.iterdir()}
    out = d / 'o' / 'out.tif'
    out.parent.mkdir()
    ex = attempt(lambda: PanSharpen(pan, ms).process(out, overwrite=case['exists'] == 'overwrite', **kw), out, case['exists'])
    require(isinstance(ex, exp), 'type of error', got=repr(ex)[:200], exp=exp.__name__)
    for p in ins:
        require(p.read_bytes() == ins[p], 'input was modified', file=p.name)
    return [kind if kind != 'opt' else case['key'], case['exists'] or 'new']


@st.composite
def case_param(draw):
    ip = draw(gen.interior())
    ep = draw(gen.exterior(any_angle=True))
    return dict(ip=ip, ep=ep, kind=draw(st.sampled_from(['factory', 'geographic', 'invalid', 'read', 'read'])), reader=draw(st.sampled_from(['csv', 'osfm', 'csv-factory', 'osfm-factory'])), arg=draw(st.sampled_from(['crs', 'crs', 'lla_crs'])), wrong=draw(st.booleans()), obj=draw(st.booleans()), crs=draw(st.sampled_from(['EPSG:4326', 'EPSG:4979', 'OGC:CRS84'])), bad=draw(st.sampled_from(['foo', 'EPSG:-1', '+proj=foo'])),
                exists=draw(st.sampled_from([None, 'overwrite'])), camera=draw(st.sampled_from(['cam', None])))


def check_param(case, ctx):
    from orthority import param_io
    from orthority.enums import CameraType
    from orthority.errors import CrsError, CrsMissingError
    from orthority.factory import FrameCameras
    kw = gen.camera_kwargs(case['ip'], case['ep'])
    ip = {k: v for k, v in kw.items() if k not in ('xyz', 'opk')}
    ip['cam_type'] = CameraType(ip['cam_type'])
    ep = {'a.tif': dict(xyz=kw['xyz'], opk=kw['opk'], camera=case['camera'])}
    d = ctx.tmp()
    over = case['exists'] == 'overwrite'
    if case['kind'] == 'read':
        # (the kind of CRS that the argument does not accept, or that is not a CRS)
        c = case['bad'] if case['wrong'] else case['crs'] if case['arg'] == 'crs' else 'EPSG:32735'
        if case['obj'] and not case['wrong']:
            import rasterio as rio
            c = rio.CRS.from_string(c)
        return check_read(case, d, ip, {case['arg']: c}, CrsError)
    if case['kind'] == 'factory':
        out = d / 'int_param.yaml'
        ex = attempt(lambda: FrameCameras({'cam': ip}, ep).write_param(d, overwrite=over), out, case['exists'])
        require(isinstance(ex, CrsMissingError), 'type of error', got=repr(ex)[:200])
    else:
        out = d / 'ext.geojson'
        ex = attempt(lambda: param_io.write_ext_param(out, ep, crs=case['crs'] if case['kind'] == 'geographic' else case['bad'], overwrite=over), out, case['exists'])
        require(isinstance(ex, CrsError), 'type of error', got=repr(ex)[:200])
    return [case['kind'], case['exists'] or 'new']


def check_read(case, d, ip, kw, err):
    """Reading exterior parameters with an invalid CRS argument."""
    import json
    from orthority.factory import FrameCameras
    from orthority.param_io import CsvReader, OsfmReader
    if case['reader'].startswith('csv'):
        f = d / 'ext.csv'
        lla = case['arg'] == 'lla_crs'
        pos = '-30.5,24.1,300.2' if lla else '500000.5,6200000.5,300.2'
        f.write_text(('filename,latitude,longitude,altitude,roll,pitch,yaw\n' if lla else 'filename,x,y,z,omega,phi,kappa\n') + ''.join(f'im{i}.tif,{pos},0.1,0.2,0.3\n' for i in range(3)))
    else:
        f = d / 'rec.json'
        cam = {'cam': dict(projection_type='perspective', width=40, height=30, focal=0.9, k1=0.01, k2=0.0)}
        f.write_text(json.dumps([dict(cameras=cam, shots={'a.tif': dict(rotation=[3.1, 0.1, 0.0], translation=[1.0, 2.0, 3.0], camera='cam')}, reference_lla=dict(latitude=-30.5, longitude=24.1, altitude=10.0))]))
    fn = dict(csv=lambda **k: CsvReader(f, **k).read_ext_param(), osfm=lambda **k: OsfmReader(f, **k).read_ext_param()).get(case['reader'])
    if fn is None:
        fn = lambda **k: FrameCameras({'cam': ip} if case['reader'].startswith('csv') else f, f, io_kwargs=k)
    fn()  # (is valid without the argument)
    try:
        fn(**kw)
    except err:
        return ['read', case['reader'], case['arg']]
    raise Violation('invalid CRS was not rejected', **{k: str(v) for k, v in kw.items()})


SUBS = [
    Sub('ortho', case_ortho, check_ortho, 700, 12000, 'orthorectification with one invalid argument (option, camera, CRS, DEM, missing or unreadable file), with and without an existing output and the overwrite option; non-trivial = rejected with no file touched'),
    Sub('sharpen', case_pan, check_pan, 250, 4000, 'pan-sharpening with one invalid option or missing / unreadable image (indexes, weights and extents: see C24), with and without an existing output; non-trivial = rejected with no file touched'),
    Sub('param', case_param, check_param, 320, 3000, 'export, or reading from CSV and OpenSfM files, of frame camera parameters with a missing, geographic (for lla: projected) or invalid CRS; non-trivial = rejected with no file touched'),
]
ASSUMPTIONS = ['options are invalid one at a time']
