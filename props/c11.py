"""C11: output images have the documented format for every configuration."""
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import gen, imgs, orthoc, pansh
from harness.engine import Sub, Violation, require
from harness.gen import fl

DT = ['uint8', 'uint16', 'int16', 'float32', 'float64']
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
CI = dict(gray=None, rgb=['red', 'green', 'blue'], rgba=['red', 'green', 'blue', 'alpha'], bgr=['blue', 'green', 'red'], gray_alpha=['gray', 'alpha'])


@st.composite
def out_config(draw):
    c = dict(
        driver=draw(st.sampled_from([None, 'gtiff', 'cog'])), compress=draw(st.sampled_from([None, None, 'jpeg', 'deflate', 'lzw'])),
        write_mask=draw(st.sampled_from([None, True, False])), build_ovw=draw(st.sampled_from([None, True, False])),
        out_dtype=draw(st.sampled_from([None, None, *DT])), opts=None,
    )
    if draw(st.integers(0, 3)) == 0:
        if c['driver'] == 'cog':
            c['opts'] = draw(st.sampled_from([dict(compress='lzw', blocksize=128), dict(compress='zstd', blocksize=256, overviews='none'), dict(compress='deflate', level=9, predictor='yes', blocksize=512)]))
        else:
            c['opts'] = draw(st.sampled_from([
                dict(compress='lzw', tiled=True, blockxsize=64, blockysize=32), dict(compress='deflate', blockysize=7), dict(compress='packbits', interleave='band'),
                dict(compress='zstd', tiled=True, blockxsize=128, blockysize=128, interleave='band'), dict(compress=None, interleave='pixel')]))
        c['write_mask'] = draw(st.booleans())
    return c


def to_kwargs(c):
    kw = {k: c[k] for k in ('driver', 'compress', 'write_mask', 'build_ovw') if c[k] is not None}
    if c['out_dtype']:
        kw['dtype'] = c['out_dtype']
    if c['opts']:
        kw['creation_options'] = dict(c['opts'])
    return kw


def expected_error(c, src_dtype):
    dt = c['out_dtype'] or src_dtype
    return c['opts'] is None and c['compress'] == 'jpeg' and dt not in ('uint8', 'uint16')


def check_format(path, c, src_dtype, src_ci, count, crs, labels):
    """Check the format of an output image.  Returns its valid mask."""
    import rasterio as rio
    from rasterio.enums import MaskFlags
    dt = c['out_dtype'] or src_dtype
    cog = c['driver'] == 'cog'
    with rio.open(path) as im:
        tags = im.tags(ns='IMAGE_STRUCTURE')
        require(im.driver == 'GTiff' and (tags.get('LAYOUT') == 'COG') == cog, 'driver', tags=tags)
        require(set(im.dtypes) == {dt}, 'data type', got=im.dtypes, exp=dt)
        opts = c['opts']
        comp = (opts['compress'] if opts else c['compress'] or ('jpeg' if dt == 'uint8' else 'deflate'))
        got = tags.get('COMPRESSION', 'none').lower()
        require(got.split()[-1] == (comp or 'none'), 'compression', got=got, exp=comp)
        jpeg = comp == 'jpeg'
        if jpeg and dt == 'uint16':
            require(im.tags(1, ns='IMAGE_STRUCTURE').get('NBITS') == '12', '12 bit JPEG')
        require(im.count == count, 'band count', got=im.count, exp=count)
        names = [x.name for x in im.colorinterp]
        if jpeg and count == 3:
            if not cog:
                require(im.photometric is not None and im.photometric.name == 'ycbcr', 'photometric interpretation of JPEG')
        elif src_ci[0] == 'gray' or 'gray' not in src_ci:  # (GDAL does not keep gray after undefined bands)
            norm = lambda x: ['gray' if n == 'undefined' else n for n in x]  # (GDAL does not distinguish these consistently)
            require(norm(names) == norm(src_ci), 'colour interpretation', got=names, exp=src_ci)
        require(im.crs == crs if crs is not None else im.crs is None, 'CRS', got=str(im.crs), exp=str(crs))
        wm = c['write_mask'] if c['write_mask'] is not None else jpeg
        if wm:
            require(im.nodata is None, 'nodata value of masked image', got=im.nodata)
            require(all(MaskFlags.per_dataset in f and MaskFlags.nodata not in f for f in im.mask_flag_enums), 'no dataset mask', got=str(im.mask_flag_enums))
            require(not [f for f in im.files if f.endswith('.msk')], 'mask is not internal', files=im.files)
            labels.add('mask')
        else:
            nd = NODATA[dt]
            require(im.nodata is not None and (im.nodata == nd or (im.nodata != im.nodata and nd != nd)), 'nodata value', got=im.nodata, exp=nd)
            require(not any(MaskFlags.per_dataset in f and MaskFlags.alpha not in f for f in im.mask_flag_enums), 'unrequested mask', got=str(im.mask_flag_enums))
            labels.add('nodata')
        # tiling and overviews
        if not opts:
            require(all(b == (512, 512) for b in im.block_shapes), 'block shape', got=im.block_shapes)
        else:
            if 'blockxsize' in opts:
                require(all(b == (opts['blockysize'], opts['blockxsize']) for b in im.block_shapes), 'block shape', got=im.block_shapes)
            elif 'blockysize' in opts:
                require(all(b == (min(opts['blockysize'], im.height), im.width) for b in im.block_shapes), 'block shape', got=im.block_shapes)
            elif 'blocksize' in opts:
                require(all(b == (opts['blocksize'],) * 2 for b in im.block_shapes), 'block shape', got=im.block_shapes)
            if 'interleave' in opts and im.count > 1:
                require(tags['INTERLEAVE'].lower() == opts['interleave'], 'interleaving')
            labels.add('options')
        ovw = c['build_ovw'] is None or c['build_ovw']
        n = max(min(8, int(np.floor(np.log2(min(im.shape)) + 1e-12)) - 8), 0) if ovw else 0
        if not (cog and opts):  # (up to the COG driver's overviews option)
            require(all(im.overviews(b) == [2**k for k in range(1, n + 1)] for b in im.indexes), 'overviews', got=im.overviews(1), n=n, shape=im.shape)
            if n:
                labels.add('overviews')
                if not jpeg:
                    check_overview(path, im, wm)
        if opts is None:
            labels.add(got.split()[-1])
        labels |= {dt, 'cog' if cog else 'gtiff'}
        mask = im.dataset_mask() > 0 if wm else None
        return mask


def check_overview(path, im, wm):
    """Overview pixels are the average of the corresponding full resolution pixels (where those are all valid)."""
    import rasterio as rio
    a = im.read(1).astype('float64')
    m = im.read_masks(1) > 0
    with rio.open(path, overview_level=0) as o:
        b = o.read(1).astype('float64')
    H, W = a.shape[0] // 2, a.shape[1] // 2
    q = lambda x: x[: 2 * H, : 2 * W].reshape(H, 2, W, 2)
    full = q(m).all(axis=(1, 3))
    e = q(a).mean(axis=(1, 3))
    err = np.abs(b[:H, :W] - e)[full]
    # (odd sizes are resampled with fractional overlaps: only check even ones)
    if a.shape[0] % 2 == 0 and a.shape[1] % 2 == 0 and err.size:
        tol = 1.0 if im.dtypes[0] in ('uint8', 'uint16', 'int16') else 1e-5 * np.nanmax(np.abs(a[m]))
        require(err.max() <= tol, 'overview values', err=err.max())


@st.composite
def case_ortho(draw):
    big = draw(st.integers(0, 7)) == 0
    bands = draw(st.integers(1, 5))
    dt = draw(st.sampled_from(DT))
    c = draw(orthoc.scenario(lo=16, hi=48, dtypes=[dt], bands=bands, strength=0.2, tilt=0.2, kinds=('flat', 'plane')))
    c.update(draw(out_config()))
    ci = draw(st.sampled_from(['gray'] + [k for k, v in CI.items() if v and len(v) == bands]))
    c.update(ci=ci, big=big, res=[draw(fl(0.6, 2, 2)), draw(fl(0.6, 2, 2))] if not big and draw(st.booleans()) else None, interp=draw(st.sampled_from(['nearest', 'bilinear', 'cubic'])),
             crs_from=draw(st.sampled_from(['arg', 'arg', 'crs', 'src'])))
    return c


def source(s, c, d):
    """Source image with values over the range of its type."""
    import rasterio as rio
    from rasterio.enums import ColorInterp
    dt = c['dtype']
    rng = np.random.default_rng(c['seed'])
    lo, hi = dict(uint8=(1, 255), uint16=(1, 4095), int16=(-3000, 3000), float32=(-400, 900), float64=(-400, 900))[dt]
    w, h = s.size
    a = rng.uniform(lo, hi, (c['bands'], h, w))
    if dt.startswith('f'):
        a = np.where(np.abs(a - np.floor(a) - 0.5) < 0.05, a + 0.2, a)
    a = a.astype(dt)
    ci = CI[c['ci']]
    kw = {}
    if ci:
        kw = dict(photometric='rgb') if c['ci'] in ('rgb', 'rgba') else dict(photometric='minisblack')
        kw['alpha'] = 'yes' if ci[-1] == 'alpha' else 'unspecified'
        if ci[-1] != 'alpha' or len(ci) == 3:
            kw.pop('alpha')
    if c.get('crs_from') == 'src':
        kw['crs'] = s.crs
        kw['transform'] = rio.Affine(1, 0, 0, 0, -1, 0)
    p = imgs.write_tif(d / 'source.tif', a, **kw)
    if ci:
        with rio.open(p, 'r+') as im:
            if [x.name for x in im.colorinterp] != ci:
                im.colorinterp = [ColorInterp[x] for x in ci]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(p) as im:
            names = [x.name for x in im.colorinterp]
    return p, a, names


def convert(a, dt):
    """Round and clip to data type."""
    if dt.startswith('f'):
        return a.astype(dt)
    info = np.iinfo(dt)
    a = np.floor(a.astype('float64') + 0.5) if a.dtype.kind == 'f' else a.astype('float64')
    return np.clip(a, info.min, info.max).astype(dt)


def check_ortho(case, ctx):
    import rasterio as rio
    from orthority.errors import OrthorityError
    from orthority.ortho import Ortho
    d = ctx.tmp()
    s = orthoc.build(case, d, enc=False)
    if s is None:
        return None
    src, a, names = source(s, case, d)
    if case['driver'] == 'cog' and 'alpha' in names:
        return None  # (GDAL's COG driver may convert alpha bands to masks)
    kw = to_kwargs(case)
    crs = rio.CRS.from_string(s.crs)
    arg = dict(arg=s.crs, crs=crs, src=None)[case['crs_from']]
    cam = orthoc.camera(s)
    o = Ortho(src, s.dem, cam, crs=arg)
    out = d / 'out' / 'ortho.tif'
    out.parent.mkdir()
    res = None
    if case['big']:
        k = 560 / max(np.ptp(s.foot[0]), np.ptp(s.foot[1]))
        res = (1 / k, 1 / k)
    elif case['res']:
        res = tuple(r * s.gsd for r in case['res'])
    if res:
        kw['resolution'] = res
    if expected_error(case, case['dtype']):
        try:
            o.process(out, interp=case['interp'], **kw)
        except OrthorityError:
            require(not list(out.parent.iterdir()), 'rejected configuration left files', files=[str(f) for f in out.parent.iterdir()])
            return 'rejected'
        raise Violation('JPEG compression of unsupported data type was not rejected')
    o.process(out, interp=case['interp'], **kw)
    labels = {case['ci']}
    mask = check_format(out, case, case['dtype'], names, case['bands'], crs, labels)
    with rio.open(out) as im:
        tf = im.transform
        require(tf.a > 0 and tf.e < 0 and tf.b == tf.d == 0, 'ortho is not north up')
        if res:
            require(np.allclose(im.res, res, rtol=1e-9, atol=0), 'resolution', got=im.res, exp=res)
        else:
            require(abs(im.res[0] / im.res[1] - 1) < 1e-9, 'automatic resolution is not square', got=im.res)
            require(0.8 < im.res[0] / s.gsd < 1.25 or not case.get('distort', True) or case['cam'] != 'frame', 'automatic resolution is not the ground sampling distance', got=im.res, gsd=s.gsd)
        got = im.read()
    odt = case['out_dtype'] or case['dtype']
    jpeg = case['opts'] is None and (case['compress'] == 'jpeg' or (case['compress'] is None and odt == 'uint8'))
    # values converted to the ortho type: same as the ortho of a converted source
    if odt != case['dtype'] and not jpeg:
        e = imgs.write_tif(d / 'conv.tif', convert(a, odt))
        k2 = {k: v for k, v in kw.items() if k not in ('dtype',)}
        Ortho(e, s.dem, orthoc.camera(s), crs=s.crs).process(d / 'conv_ortho.tif', interp=case['interp'], **k2)
        with rio.open(d / 'conv_ortho.tif') as im:
            exp = im.read()
        require(np.array_equal(got, exp, equal_nan=odt.startswith('f')), 'conversion to the ortho data type', n=int(np.sum(got != exp)))
        labels.add('converted')
    return sorted(labels)


@st.composite
def case_pan(draw):
    c = draw(pansh.scenario())
    c.update(draw(out_config()))
    c['ci'] = draw(st.sampled_from(['gray'] + [k for k, v in CI.items() if v and len(v) == c['bands']]))
    return c


def check_pan(case, ctx):
    import rasterio as rio
    from rasterio.enums import ColorInterp
    from orthority.errors import OrthorityError
    from orthority.pan_sharp import PanSharpen
    d = ctx.tmp()
    s = pansh.build(case, d)
    ci = CI[case['ci']]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if ci:
            with rio.open(s.ms_file, 'r+') as im:
                im.colorinterp = [ColorInterp[x] for x in ci]
        with rio.open(s.ms_file) as im:
            names = [x.name for x in im.colorinterp]
    idx = case['ms_indexes'] or [i + 1 for i in range(case['bands']) if names[i] != 'alpha']
    names = [names[i - 1] for i in idx]
    if 'alpha' in names or not idx:
        return None
    out = d / 'out' / 'sharp.tif'
    out.parent.mkdir()
    kw = to_kwargs(case)
    p = PanSharpen(s.pan_file, s.ms_file)
    base = pansh.kwargs(case)
    if case['ci'] != 'gray' and base.get('weights') is not None and len(base['weights']) != len(idx):
        base.pop('weights')
    if expected_error(case, case['ms_dtype']):
        try:
            p.process(out, **base, **kw)
        except OrthorityError:
            require(not list(out.parent.iterdir()), 'rejected configuration left files', files=[str(f) for f in out.parent.iterdir()])
            return 'rejected'
        raise Violation('JPEG compression of unsupported data type was not rejected')
    try:
        p.process(out, **base, **kw)
    except OrthorityError:
        if base.get('weights') is None:
            return None  # (pan is not positively correlated with any band)
        raise
    labels = {case['ci']}
    check_format(out, case, case['ms_dtype'], names, len(idx), s.out_crs, labels)
    # conversion of values: rounded and clipped version of the float64 result
    odt = case['out_dtype'] or case['ms_dtype']
    jpeg = case['opts'] is None and (case['compress'] == 'jpeg' or (case['compress'] is None and odt == 'uint8'))
    if not jpeg:
        p.process(d / 'f.tif', **base, dtype='float64', compress='deflate', write_mask=False, build_ovw=False)
        with rio.open(d / 'f.tif') as im:
            f = im.read()
        with rio.open(out) as im:
            g = im.read()
            wm = im.nodata is None
            gm = im.dataset_mask() > 0
        v = ~np.isnan(f).any(axis=0)
        if wm:
            require(np.array_equal(v, gm), 'mask differs from nodata area', n=int((v != gm).sum()))
        if odt.startswith('f'):
            ok = np.allclose(g[:, v], f[:, v].astype(odt), rtol=1e-6 if odt == 'float32' else 1e-11, atol=1e-9 * max(1, np.abs(f[:, v]).max(initial=0)))
        else:
            info = np.iinfo(odt)
            # (away from rounding ties, which the order of sums could affect)
            fr = np.abs(f - np.floor(f) - 0.5) > 1e-6
            e = np.clip(np.rint(f), info.min, info.max)
            sel = v[None] & fr
            ok = np.array_equal(g[sel], e[sel].astype(odt))
            if (f[:, v] < info.min).any() or (f[:, v] > info.max).any():
                labels.add('clipped')
            else:
                labels.add('unclipped')
        require(ok, 'values converted to the output type')
        if not wm:
            nd = NODATA[odt]
            x = g[:, ~v]
            require(np.all(x == nd) if nd == nd else np.all(np.isnan(x)), 'nodata area is not nodata')
    return sorted(labels)


@st.composite
def case_pan_big(draw):
    c = draw(out_config())
    c.update(shape=[draw(st.integers(255, 540)), draw(st.integers(255, 540))], ratio=draw(st.sampled_from([2, 3, 4])), bands=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(['uint8', 'uint16', 'float32'])), seed=draw(gen.seeds()), threads=draw(st.sampled_from([None, 1, 4])))
    return c


def check_pan_big(case, ctx):
    """Pan-sharpened image that is large enough to have overviews and more than one tile."""
    import rasterio as rio
    from orthority.errors import OrthorityError
    from orthority.pan_sharp import PanSharpen
    d = ctx.tmp()
    rng = np.random.default_rng(case['seed'])
    (mh, mw), r, dt = case['shape'], case['ratio'], case['dtype']
    mh, mw = max(1, mh * 2 // r), max(1, mw * 2 // r)
    ph, pw = mh * r, mw * r
    crs = 'EPSG:32735'
    pan = rng.integers(20, 200, (1, ph, pw)).astype(dt)
    low = pan[0].reshape(mh, r, mw, r).mean(axis=(1, 3))
    ms = np.stack([low * (0.5 + 0.1 * k) + rng.uniform(0, 30, low.shape) for k in range(case['bands'])]).astype(dt)
    imgs.write_tif(d / 'pan.tif', pan, crs=crs, transform=rio.Affine(1, 0, 5e5, 0, -1, 6e6))
    imgs.write_tif(d / 'ms.tif', ms, crs=crs, transform=rio.Affine(r, 0, 5e5, 0, -r, 6e6))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(d / 'ms.tif') as im:
            names = [x.name for x in im.colorinterp]
    kw = to_kwargs(case)
    out = d / 'out' / 'sharp.tif'
    out.parent.mkdir()
    try:
        PanSharpen(d / 'pan.tif', d / 'ms.tif').process(out, **kw)
    except OrthorityError:
        require(expected_error(case, dt), 'configuration was rejected')
        require(not list(out.parent.iterdir()), 'rejected configuration left files')
        return 'rejected'
    require(not expected_error(case, dt), 'JPEG compression of unsupported data type was not rejected')
    labels = {'big'}
    check_format(out, case, dt, names, case['bands'], rio.CRS.from_string(crs), labels)
    with rio.open(out) as im:
        require(im.shape == (ph, pw) and im.transform == rio.Affine(1, 0, 5e5, 0, -1, 6e6), 'grid of the pan-sharpened image is not that of the pan image', shape=im.shape, transform=im.transform)
    return sorted(labels)


@st.composite
def case_bad(draw):
    c = draw(orthoc.scenario(cams=('frame',), lo=16, hi=32, kinds=('flat',), distort=(True,)))
    c.update(bad=draw(st.sampled_from(['int32', 'uint32', 'int64', 'uint64', 'int8', 'complex64'])), how=draw(st.sampled_from(['arg', 'src'])), exists=draw(st.booleans()),
             tool=draw(st.sampled_from(['ortho', 'pan'])))
    return c


def check_bad(case, ctx):
    import rasterio as rio
    from orthority.errors import OrthorityError
    from orthority.ortho import Ortho
    from orthority.pan_sharp import PanSharpen
    d = ctx.tmp()
    s = orthoc.build(case, d)
    if s is None:
        return None
    kw = {}
    src = s.src
    w, h = s.size
    if case['how'] == 'arg' or case['bad'] == 'complex64':
        kw['dtype'] = case['bad']
    else:
        src = imgs.write_tif(d / 'bad.tif', np.random.default_rng(1).integers(1, 99, (2, h, w)).astype(case['bad']))
    out = d / 'out' / 'o.tif'
    out.parent.mkdir()
    if case['exists']:
        out.write_bytes(b'something')
        kw['overwrite'] = True
    try:
        if case['tool'] == 'ortho':
            Ortho(src, s.dem, orthoc.camera(s), crs=s.crs).process(out, **kw)
        else:
            pan = imgs.write_tif(d / 'pan.tif', np.random.default_rng(1).uniform(1, 99, (1, 2 * h, 2 * w)).astype('float32'))
            PanSharpen(pan, src).process(out, **kw)
    except OrthorityError:
        require([f.name for f in out.parent.iterdir()] == (['o.tif'] if case['exists'] else []), 'rejected data type left files')
        require(not case['exists'] or out.read_bytes() == b'something', 'rejected data type modified the existing file')
        return [case['bad'], case['how'], case['tool']]
    raise Violation('unsupported data type was not rejected', )


SUBS = [
    Sub('ortho', case_ortho, check_ortho, 700, 15000, 'random source type, bands, colour interpretation and output configuration (driver, type, compression, mask, overviews, creation options, resolution); non-trivial = ortho file compared with the documented format, or rejected'),
    Sub('pansharp', case_pan, check_pan, 450, 8000, 'as ortho, for pan-sharpened images, with values compared with the rounded and clipped float64 result; non-trivial = file compared or rejected'),
    Sub('pansharp_large', case_pan_big, check_pan_big, 48, 600, 'pan-sharpened images large enough for overviews and several tiles, with random output configuration; non-trivial = file compared with the documented format, or rejected'),
    Sub('unsupported', case_bad, check_bad, 120, 1000, 'unsupported data types, as argument or of the source, with and without an existing file; non-trivial = rejected'),
]
ASSUMPTIONS = ["JPEG compression of 3 band images forces an RGB colour interpretation, and the COG driver converts alpha bands: and GDAL does not store a gray band that follows others: these combinations' colour interpretation is not checked"]
