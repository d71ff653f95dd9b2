"""C09: ortho content does not depend on how processing is organised."""
import io, os, random, sys, time
import numpy as np
from hypothesis import strategies as st
from harness import gen, imgs, orthoc, ref
from harness.engine import Sub, require
from harness.gen import fl

DT = ['uint8', 'uint16', 'int16', 'float32', 'float64']


@st.composite
def variant(draw):
    return dict(
        per_band=draw(st.booleans()), driver=draw(st.sampled_from(['gtiff', 'gtiff', 'cog'])),
        layout=draw(st.sampled_from([None, [16, 16], [32, 16], [16, 64], 'strip', 'strip1', 'pixel'])),
        compress=draw(st.sampled_from(['deflate', 'lzw'])), write_mask=draw(st.sampled_from([None, True, False])), build_ovw=draw(st.booleans()),
        src=draw(st.sampled_from(['str', 'path', 'ds', 'ofile', 'mem'])), dem=draw(st.sampled_from(['str', 'path', 'ds', 'ofile', 'mem'])),
        out=draw(st.sampled_from(['str', 'path', 'ofile', 'over'])), reuse=draw(st.booleans()), cpus=draw(st.sampled_from([None, 1, 2, 16])),
        jitter=draw(st.sampled_from([0, 0, 2])), progress=draw(st.booleans()), src_layout=draw(st.sampled_from(['same', 'tiled', 'strip', 'pixel'])),
    )


@st.composite
def case_org(draw):
    c = draw(orthoc.scenario(lo=20, hi=70, dtypes=DT, bands=draw(st.integers(1, 5))))
    c.update(res=draw(st.sampled_from([1, 1, 0.6, 1.4])), interp=draw(st.sampled_from(['cubic', 'bilinear', 'nearest', 'lanczos'])),
             out_dtype=draw(st.sampled_from([None, None, None, 'float32', 'uint16'])), dark=draw(st.sampled_from([None, None, 'one', 'all'])),
             variants=draw(st.lists(variant(), min_size=2, max_size=4)))
    return c


def as_input(kind, path, stack, d, tag):
    import fsspec, rasterio as rio
    if kind == 'str':
        return str(path)
    if kind == 'path':
        return path
    if kind == 'ds':
        ds = rio.open(path)
        (getattr(stack, "callback", None) or stack.append)(ds.close)
        return ds
    if kind == 'ofile':
        return fsspec.open(str(path), 'rb')
    if kind == 'mem':
        m = fsspec.filesystem('memory')
        name = f'/{os.getpid()}_{tag}_{path.name}'
        m.pipe(name, path.read_bytes())
        (getattr(stack, "callback", None) or stack.append)(lambda: m.rm(name))
        return fsspec.open('memory:/' + name, 'rb')
    raise ValueError(kind)


class Jitter:
    """Delay calls of a camera's remap to perturb the order in which tiles are completed."""

    def __init__(self, fn, ms, seed):
        self.fn, self.ms, self.rng = fn, ms, random.Random(seed)

    def __call__(self, *a, **k):
        time.sleep(self.rng.random() * self.ms / 1000)
        r = self.fn(*a, **k)
        time.sleep(self.rng.random() * self.ms / 1000)
        return r


def run(v, case, s, d, tag, prev=None):
    """Process with variant v.  Returns (array, valid, transform, crs), Ortho."""
    import fsspec
    from unittest import mock
    from orthority.ortho import Ortho
    stack = []
    cpu = os.cpu_count
    swi = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-5 if v['jitter'] else swi)
        if v['reuse'] and prev is not None:
            o = prev
        else:
            cam = orthoc.camera(s)
            if v['jitter']:
                cam.remap = Jitter(cam.remap, v['jitter'], case['seed'])
            src = s.srcs[v['src_layout']]
            dem = as_input(v['dem'], s.dem, stack, d, tag + 'd')
            o = Ortho(as_input(v['src'], src, stack, d, tag), dem, cam, crs=s.crs)
        kw = dict(per_band=v['per_band'], driver=v['driver'], write_mask=v['write_mask'], build_ovw=v['build_ovw'], interp=case['interp'],
                  resolution=(case['res'] * s.gsd, case['res'] * s.gsd))
        if case['out_dtype']:
            kw['dtype'] = case['out_dtype']
        if v['driver'] == 'gtiff' and v['layout']:
            kw['creation_options'] = dict(
                strip=dict(blockysize=5), strip1=dict(compress='lzw', blockysize=1),
                pixel=dict(interleave='pixel', tiled=True, blockxsize=16, blockysize=16)
            ).get(v['layout']) if isinstance(v['layout'], str) else dict(tiled=True, blockxsize=v['layout'][0], blockysize=v['layout'][1], compress=v['compress'])
        else:
            kw['compress'] = v['compress']
        if v['progress']:
            kw['progress'] = dict(file=io.StringIO(), leave=False)
        out = d / f'{tag}.tif'
        of = out
        if v['out'] == 'ofile':
            of = fsspec.open(str(out), 'wb')
        elif v['out'] == 'str':
            of = str(out)
        elif v['out'] == 'over':
            imgs.write_tif(out, np.ones((1, 9, 9), 'uint8'))
            kw['overwrite'] = True
        if v['cpus']:
            with mock.patch('os.cpu_count', lambda: v['cpus']):
                o.process(of, **kw)
        else:
            o.process(of, **kw)
        arr, valid, tf, prof = orthoc.read(out)
        return (arr, valid, tf, str(prof['crs'])), (o if v['src'] != 'ds' and v['src'] != 'mem' else None)
    finally:
        sys.setswitchinterval(swi)
        for f in stack:
            f()


BASE = dict(per_band=False, driver='gtiff', layout=None, compress='deflate', write_mask=False, build_ovw=False, src='path', dem='path', out='path',
            reuse=False, cpus=None, jitter=0, progress=False, src_layout='same')


def prepare(case, d):
    s = orthoc.build(case, d, enc=False)
    if s is None:
        return None
    rng = np.random.default_rng(case['seed'])
    w, h = s.size
    dt = case['dtype']
    lo, hi = dict(uint8=(60, 190), uint16=(20000, 40000), int16=(10000, 20000), float32=(50, 100), float64=(5e3, 1e4))[dt]
    a = rng.uniform(lo, hi, (case['bands'], h, w)).astype(dt)
    und_int = case['cam'] == 'frame' and not case['distort'] and s.ip['cam_type'] != 'pinhole'
    dark = case['dark']
    if dark == 'one' and und_int and not case.get('finding'):
        dark = 'all'  # (see known findings)
    if dark:
        # source pixels with the output nodata value, in one or all bands
        odt = case['out_dtype'] or dt
        nd = dict(uint8=0, uint16=0, int16=-32768).get(odt)
        if nd is not None and not (nd < 0 and dt.startswith('u')):
            for b in (range(case['bands']) if dark == 'all' else [rng.integers(0, case['bands'])]):
                a[b, h // 4: h // 2, w // 4: w // 2] = nd
    s.srcs = {}
    for k, kw in dict(same={}, tiled=dict(tiled=True, blockxsize=16, blockysize=16, compress='lzw'), strip=dict(blockysize=3, interleave='band'),
                      pixel=dict(interleave='pixel', compress='deflate')).items():
        s.srcs[k] = imgs.write_tif(d / f'src_{k}.tif', a, **kw)
    return s


def dilate(a, k):
    import cv2
    return cv2.dilate(a.astype('uint8'), np.ones((2 * k + 1, 2 * k + 1), 'uint8')) > 0


def blocks(v):
    """Block (width, height) of a variant, or None when it is not known."""
    if v['driver'] == 'cog' or not v['layout']:
        return (512, 512)
    if isinstance(v['layout'], list):
        return tuple(v['layout'])
    return dict(strip=(10**6, 5), strip1=(10**6, 1), pixel=(16, 16))[v['layout']]


def diff(base, got, case, s, v, strict=False):
    """Return a description of the difference of two results, or None."""
    (a0, m0, t0, c0), (a1, m1, t1, c1) = base, got
    if t0 != t1 or c0 != c1 or a0.shape != a1.shape:
        return f'grid {t0} {c0} {a0.shape} != {t1} {c1} {a1.shape}'
    bw, bh = blocks(v)
    H, W = m0.shape
    same = bw >= W and bh >= H
    und_int = not strict and case['cam'] == 'frame' and not case['distort'] and s.ip['cam_type'] != 'pinhole' and a0.dtype.kind != 'f' and case['interp'] != 'nearest'
    k = int(max(np.ceil(5 * 1.3 / case['res']), 3)) + 1
    if und_int and v['per_band']:
        # known finding: nodata mask dilation is done separately for each band
        nd = dict(uint8=0, uint16=0, int16=-32768)[str(a0.dtype)]
        keep = ~dilate((a0 == nd).any(axis=0) | (a1 == nd).any(axis=0) | ~m0 | ~m1, k)
        m0, m1 = m0 & keep, m1 & keep
    if same:
        # same tiles: exactly equal
        if not np.array_equal(m0, m1):
            return f'valid area differs at {int((m0 != m1).sum())} of {m0.size} pixels'
        x, y = a0[:, m0], a1[:, m0]
        if not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            return f'values differ at {int((x != y).sum())} of {x.size}'
        return None
    # other tiles: equal to within rounding of coordinates
    md = m0 != m1
    if und_int:
        # known finding: mask dilation does not cross tile edges
        J, I = np.meshgrid(np.arange(W), np.arange(H))
        near = (J % bw < k) | (J % bw >= bw - k) | (I % bh < k) | (I % bh >= bh - k)
        md &= ~near
    if md.sum() > 0.02 * m0.size:
        return f'valid area differs at {int(md.sum())} of {m0.size} pixels'
    # differences in valid area only along its edge
    nb = np.zeros_like(m0)
    p0 = np.pad(m0, 1)
    for dy in (0, 1, 2):
        for dx in (0, 1, 2):
            nb |= p0[dy: dy + H, dx: dx + W] != m0
    if np.any(md & ~nb):
        return f'valid area differs at {int((md & ~nb).sum())} pixels away from its edge'
    both = m0 & m1
    x, y = a0[:, both].astype(float), a1[:, both].astype(float)
    if not x.size:
        return None
    rg = np.nanmax(x) - np.nanmin(x)
    bad = (np.abs(x - y) > 0.06 * rg + 1) | (np.isnan(x) != np.isnan(y))
    if case['interp'] == 'nearest':
        # ties
        fr = bad.mean()
        if fr > 0.25:
            return f'values differ at {int(bad.sum())} of {x.size}'
    elif bad.any():
        return f'values differ by up to {np.nanmax(np.abs(x - y))} (range {rg}) at {int(bad.sum())} of {x.size}'
    return None


def check_org(case, ctx):
    d = ctx.tmp()
    s = prepare(case, d)
    if s is None:
        return None
    base, o = run(BASE, case, s, d, 'base')
    if not base[1].any():
        return None
    labels = [case['cam'] + ('' if case['distort'] else '-undist'), case['dtype']] + (['dark-' + case['dark']] if case['dark'] else [])
    for k, v in enumerate(case['variants']):
        got, o2 = run(v, case, s, d, f'v{k}', prev=o)
        o = o2 or o
        df = diff(base, got, case, s, v)
        require(df is None, 'ortho depends on how it is processed: ' + str(df), variant=v)
        labels.append(v['driver'])
        labels += ['per_band'] if v['per_band'] else []
        labels += ['mask'] if v['write_mask'] else []
        labels += ['src-' + v['src'], 'reuse' if v['reuse'] else 'new']
    return labels


@st.composite
def case_repeat(draw):
    c = draw(orthoc.scenario(lo=20, hi=60, dtypes=DT, bands=draw(st.integers(1, 3)), dem_crs=('same', 'same', 'same', 'geo')))
    call = st.fixed_dictionaries(dict(res=st.sampled_from(['dem', 'dem', None, 0.7, 1.5]), interp=st.sampled_from(['cubic', 'nearest', 'bilinear']), dem_interp=st.sampled_from(['cubic', 'bilinear', 'nearest']),
                                      per_band=st.booleans(), write_mask=st.sampled_from([None, True]), dtype=st.sampled_from([None, None, 'float32']), fail=st.sampled_from([False, False, False, True])))
    c.update(calls=draw(st.lists(call, min_size=2, max_size=4)), dark=None, out_dtype=None)
    return c


def check_repeat(case, ctx):
    """Calls with different arguments on one object, compared with new objects."""
    import warnings
    from orthority.ortho import Ortho
    d = ctx.tmp()
    s = prepare(case, d)
    if s is None:
        return None
    new = lambda: Ortho(s.srcs['same'], s.dem, orthoc.camera(s), crs=s.crs)
    t = s.dem_profile['transform']
    labels, o = set(), new()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, c in enumerate(case['calls']):
            kw = dict(interp=c['interp'], dem_interp=c['dem_interp'], per_band=c['per_band'], write_mask=c['write_mask'], compress='deflate', build_ovw=False)
            if c['dtype']:
                kw['dtype'] = c['dtype']
            if c['res']:
                kw['resolution'] = ((t.a, -t.e) if case['dem_crs'] == 'same' else (s.dem_res,) * 2) if c['res'] == 'dem' else (c['res'] * s.gsd,) * 2
            if c['fail']:
                # a rejected call in between
                try:
                    o.process(d / 'fail.tif', compress='jpeg', dtype='int16', resolution=kw.get('resolution'))
                except Exception:
                    labels.add('failed call')
            o.process(d / f'a{i}.tif', **kw)
            new().process(d / f'b{i}.tif', **kw)
            a, b = orthoc.read(d / f'a{i}.tif'), orthoc.read(d / f'b{i}.tif')
            require(a[2] == b[2] and a[0].shape == b[0].shape, 'grid of ortho depends on previous calls', call=c, got=[a[2], a[0].shape], exp=[b[2], b[0].shape])
            require(np.array_equal(a[1], b[1]), 'valid area of ortho depends on previous calls', call=c, n=int((a[1] != b[1]).sum()))
            require(np.array_equal(a[0], b[0], equal_nan=a[0].dtype.kind == 'f'), 'ortho depends on previous calls', call=c)
            labels.add('dem-res' if c['res'] == 'dem' else 'res')
    return sorted(labels)


SUBS = [
    Sub('repeat', case_repeat, check_repeat, 160, 3000,
        'random scenario and 2-4 process calls with different arguments (including the DEM resolution, and rejected ones) on one object, each compared with a new object; non-trivial = all compared'),
    Sub('organisation', case_org, check_org, 700, 15000,
        'random scenario processed once plainly and then by 2-4 random configurations (band organisation, driver, tiling, lossless compression, mask, overviews, input/output kind, CPU count, thread delays, object re-use); non-trivial = base ortho has valid pixels and all variants were compared with it'),
]


# known findings (see known_findings.txt): cases which violate the property, and are not reported as violations
_F = dict(cam='frame', ter=dict(kind='flat', z0=0.0), crs='utm35s', distort=False, alpha=1.0, dem_n=20, dem_asp=1.0, dem_cover=1.3, dem_off=[0.0, 0.0],
          dem_crs='same', dtype='uint8', bands=3, seed=1, res=1, interp='cubic', out_dtype=None, dark=None,
          ip=dict(cam_type='brown', im_size=[96, 72], focal_len=1.0, k1=-0.25), ep=dict(xyz=[5e5, 6.2e6, 100.0], opk=[0.0, 0.0, 0.3]))
FINDINGS = {
    'tile-dilation': (_F, dict(BASE, layout=[16, 16])),
    'band-dilation': (dict(_F, dark='one', finding=True), dict(BASE, per_band=True)),
}


def known_findings(base):
    from harness.engine import Ctx
    from harness import known
    ctx = Ctx(base)
    for k, text in known.listed('C09').items():
        case, v = FINDINGS[k]
        d = ctx.tmp()
        s = prepare(case, d)
        b = run(BASE, case, s, d, 'b')[0]
        g = run(v, case, s, d, 'g')[0]
        if diff(b, g, case, s, v, strict=True):
            yield f'KNOWN-FINDING: property=C09 {text}'
