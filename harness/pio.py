"""Strategies and helpers for parameter file checks."""
import io
import os
from hypothesis import strategies as st
from harness.gen import fl, interior, rpc, seeds

TRICKY = ['camera', 'name', 'type', 'yes', 'no', 'null', '~', 'true', '1', '1.5', '1e3', '-', '- a', 'a: b', '#c', "it's", 'a "b"', '[x]', '{y}', 'é ü', '相机', '2020-01-01',
          'v2 unknown', 'a\tb', ' lead', 'trail ', '0x1f', '<<', '*a', '&b', '!t', '|', '>', '%', '@', '`', 'x' * 150, 'IMG_0001.JPG', 'a.b.c', '1_000', '12:30:45', '=', '😀']


def names(extra=()):
    return st.one_of(st.sampled_from([*TRICKY, *extra]), st.text(st.characters(codec='utf-8', exclude_categories=('Cs', 'Cc', 'Zl', 'Zp', 'Cn', 'Co')), min_size=1, max_size=12),
                     st.from_regex(r'[A-Za-z0-9_]{1,8}( [A-Za-z0-9_]{1,8})?', fullmatch=True))


FILES = ['a.tif', 'a', 'a.jpg', 'b.TIF', 'IMG 1.jpg', 'c.d.tif', 'é.tif', '相.png', '1.5', '007', 'yes', 'null', '1e5', '-x.tif', "o'b.tif", '#1.tif', '~', 'x: y', '12:30:45', '2020-01-01']


def filenames():
    return st.one_of(st.sampled_from(FILES), st.from_regex(r'[A-Za-z0-9_]{1,10}(\.[a-z]{3})?', fullmatch=True))


@st.composite
def filesets(draw):
    """Names of a set of images (some of which may differ in extension or case only)."""
    files = draw(st.lists(st.one_of(filenames(), names()), min_size=1, max_size=3, unique=True))
    if draw(st.booleans()):
        f = files[0]
        stem = f[:f.rfind('.')] if f.rfind('.') > 0 else f
        files = list(dict.fromkeys(files + [draw(st.sampled_from([stem + '.tif', stem + '.jpg', stem, f.upper(), f.lower(), stem + '.b.tif']))]))
    return files


def value(lo=-1e4, hi=1e4):
    """Float of any magnitude, or integer."""
    return st.one_of(fl(lo, hi), fl(lo, hi, 3), st.sampled_from([x for x in (0.0, -0.0, 1e-5, 1.5e-17, 1e-300, 1e16, 123456789.123456, 0.1, -1 / 3, 5e-324) if lo <= x <= hi]))


IDS = ['pinhole', 'brown', 'opencv', 'fisheye']
DIST = dict(pinhole=[], brown=['k1', 'k2', 'p1', 'p2', 'k3'], opencv=['k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'], fisheye=['k1', 'k2', 'k3', 'k4'])


@st.composite
def any_interior(draw):
    """Interior parameters of any value."""
    t = draw(st.sampled_from(IDS))
    pos = st.one_of(fl(1e-6, 1e5), st.integers(1, 10000), fl(0.1, 100, 2))
    p = dict(cam_type=t, im_size=[draw(st.integers(1, 20000)), draw(st.integers(1, 20000))], focal_len=draw(st.one_of(pos, st.lists(pos, min_size=2, max_size=2))))
    if draw(st.booleans()):
        p['sensor_size'] = draw(st.lists(pos, min_size=2, max_size=2))
    for k in ['cx', 'cy', *DIST[t]]:
        if draw(st.booleans()):
            p[k] = draw(st.one_of(value(-1, 1), st.integers(-1, 1)))
    return p


def to_int(p):
    """Case interior parameters as the API's dictionary."""
    from orthority.enums import CameraType
    return {k: CameraType(v) if k == 'cam_type' else tuple(v) if isinstance(v, list) else v for k, v in p.items()}


CRSS = ['EPSG:32735', 'EPSG:32601', 'EPSG:3857', 'EPSG:2048', 'EPSG:32735+5773', 'EPSG:3395', 'EPSG:2193',
        '+proj=tmerc +lat_0=0 +lon_0=23.5 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +no_defs', '+proj=utm +zone=33 +south +datum=WGS84 +units=m',
        '+proj=tmerc +lat_0=0 +lon_0=25 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +no_defs', '+proj=utm +zone=33 +ellps=intl +units=m', '+proj=tmerc +lat_0=0 +lon_0=9 +k=1 +x_0=3500000 +y_0=0 +ellps=bessel +units=m',
        '+proj=lcc +lat_1=33 +lat_2=45 +lat_0=39 +lon_0=-96 +x_0=0 +y_0=0 +datum=WGS84 +units=us-ft', '+proj=ortho +lat_0=-33.5 +lon_0=24.25',
        '+proj=tmerc +lat_0=0 +lon_0=23 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +geoidgrids=egm96_15.gtx +vunits=m']


def target(kind, d, name):
    """A file to write and read (list of the write target, read target, clean up and local path)."""
    import fsspec
    path = d / name
    if kind == 'str':
        return str(path), str(path), None
    if kind == 'path':
        return path, path, None
    if kind == 'ofile':
        return fsspec.open(str(path), 'wt'), fsspec.open(str(path), 'rt'), None
    if kind == 'mem':
        uri = f'memory://{os.getpid()}_{d.name}_{name}'
        fs = fsspec.filesystem('memory')
        return fsspec.open(uri, 'wt'), fsspec.open(uri, 'rt'), lambda: fs.rm(f'/{os.getpid()}_{d.name}_{name}')
    raise ValueError(kind)


KINDS = ['str', 'path', 'ofile', 'mem', 'obj']


def write_read(kind, d, name, write, read):
    """Write and read back with each kind of file argument."""
    if kind == 'obj':
        path = d / name
        with open(path, 'wt') as f:
            write(f)
        with open(path, 'rt') as f:
            return read(f)
    w, r, clean = target(kind, d, name)
    try:
        write(w)
        return read(r)
    finally:
        if clean:
            clean()


def exact(a, b):
    """Equality including types of numbers (to float or integer), recursively."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b and (type(a) == type(b) or isinstance(a, (int, float)))
