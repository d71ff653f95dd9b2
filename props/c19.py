"""C19: malformed parameter files."""
import copy
import io
import json
import math
import string
import warnings
from numbers import Real
import yaml
import rasterio as rio
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, rpc, seeds
from harness import pio
from orthority import param_io
from orthority.enums import CameraType
from orthority.errors import OrthorityError
from orthority.factory import FrameCameras, RpcCameras

INT = dict(cam=dict(cam_type=CameraType.pinhole, im_size=(10, 10), focal_len=1.0))
COEF = ['line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff']
ROOT = ['height_off', 'height_scale', 'lat_off', 'lat_scale', 'long_off', 'long_scale', 'line_off', 'line_scale', 'samp_off', 'samp_scale']


# --- valid documents
def flat_num(x):
    return float(x)


@st.composite
def int_doc(draw):
    d = {}
    for k in draw(st.lists(pio.names(), min_size=1, max_size=3, unique=True)):
        p = draw(pio.any_interior())
        p['type'] = p.pop('cam_type')
        d[k] = p
    if draw(st.integers(0, 4)) == 0:  # flat
        p = next(iter(d.values()))
        d = dict(name='x', **p) if draw(st.booleans()) else p
        if draw(st.booleans()):
            d = dict(camera=d, ortho=dict(crs=None))
    return d


@st.composite
def osfm_cam(draw):
    t = draw(st.sampled_from(['perspective', 'brown', 'fisheye', 'simple_radial', 'radial']))
    c = dict(projection_type=t, width=draw(st.integers(1, 9000)), height=draw(st.integers(1, 9000)))
    keys = dict(perspective=['k1', 'k2'], brown=['k1', 'k2', 'p1', 'p2', 'k3', 'c_x', 'c_y'], fisheye=['k1', 'k2'], simple_radial=['k1', 'c_x', 'c_y'], radial=['k1', 'k2', 'c_x', 'c_y'])[t]
    f = ['focal'] if t in ('perspective', 'fisheye') else ['focal_x', 'focal_y']
    for k in f:
        c[k] = draw(fl(0.2, 3, 4))
    for k in keys:
        c[k] = draw(fl(-0.2, 0.2, 5))
    return c


@st.composite
def rec_doc(draw):
    cams = {k: draw(osfm_cam()) for k in draw(st.lists(pio.names(), min_size=1, max_size=2, unique=True))}
    v = lambda: [draw(fl(-3, 3)), draw(fl(-3, 3)), draw(fl(-3, 3))]
    shots = {n: dict(rotation=v(), translation=v(), camera=draw(st.sampled_from(sorted(cams)))) for n in draw(st.lists(pio.filenames(), min_size=1, max_size=2, unique=True))}
    return [dict(cameras=cams, shots=shots, reference_lla=dict(latitude=draw(fl(-79, 79, 4)), longitude=draw(fl(-179, 179, 4)), altitude=draw(fl(0, 100, 1))))]


@st.composite
def cams_doc(draw):
    return {k: draw(osfm_cam()) for k in draw(st.lists(pio.names(), min_size=1, max_size=2, unique=True))}


@st.composite
def rpc_doc(draw):
    d = {}
    for n in draw(st.lists(pio.filenames(), min_size=1, max_size=2, unique=True)):
        r = draw(rpc())
        p = {k: v for k, v in r['rpc'].items() if not k.startswith('err')}
        if draw(st.booleans()):
            p.update(err_bias=None, err_rand=1.0)
        d[n] = dict(im_size=r['im_size'], rpc={k: [float(x) for x in v] if isinstance(v, list) else v if v is None else float(v) for k, v in p.items()})
    return d


@st.composite
def gcp_doc(draw):
    f = [dict(type='Feature', properties=dict(filename=draw(pio.filenames()), ji=[draw(fl(0, 1e4, 2)), draw(fl(0, 1e4, 2))], id='1', info=None), geometry=dict(type='Point', coordinates=[draw(fl(-180, 180, 5)), draw(fl(-90, 90, 5)), draw(fl(0, 1000, 1))])) for _ in range(draw(st.integers(1, 4)))]
    return dict(type='FeatureCollection', features=f)


@st.composite
def ext_doc(draw):
    f = [dict(type='Feature', properties=dict(filename=n, camera=draw(st.sampled_from(['cam', None])), xyz=[draw(fl(-1e6, 1e6, 2)), draw(fl(-1e6, 1e6, 2)), draw(fl(0, 5e3, 2))], opk=[draw(fl(-1, 1)), draw(fl(-1, 1)), draw(fl(-3, 3))]), geometry=dict(type='Point', coordinates=[1.0, 2.0, 3.0])) for n in draw(st.lists(pio.filenames(), min_size=1, max_size=3, unique=True))]
    return dict(type='FeatureCollection', world_crs=draw(st.sampled_from(['EPSG:32735', '+proj=utm +zone=33 +datum=WGS84'])), features=f)


DOCS = dict(int=(int_doc, 'yaml'), cams=(cams_doc, 'json'), rec=(rec_doc, 'json'), rpc=(rpc_doc, 'yaml'), gcp=(gcp_doc, 'json'), ext=(ext_doc, 'json'))


# --- what a valid value of a (mandatory or optional) field is, by the path to it
def is_num(v):
    return isinstance(v, Real)


def pair(v):
    return isinstance(v, (list, tuple)) and len(v) == 2 and all(map(is_num, v))


def nums(n, typ=Real):
    return lambda v: isinstance(v, (list, tuple)) and len(v) == n and all(isinstance(x, typ) for x in v)


def rules(kind, doc):
    """List of (path, mandatory, is valid) of the fields of a document."""
    out = []
    if kind == 'int':
        base = ()
        p = doc
        if 'camera' in doc and isinstance(doc['camera'], dict) and not (all('type' in v for v in doc.values() if isinstance(v, dict))):
            p, base = doc['camera'], ('camera',)
        cams = [base] if 'type' in p and not isinstance(p['type'], dict) else [base + (k,) for k in p]
        for b in cams:
            q = get(doc, b)
            out += [(b + ('type',), True, lambda v: isinstance(v, str) and v.lower() in ('pinhole', 'brown', 'opencv', 'fisheye')), (b + ('im_size',), True, pair), (b + ('focal_len',), True, lambda v: is_num(v) or pair(v))]
            out += [(b + (k,), False, pair if k == 'sensor_size' else is_num) for k in q if k not in ('type', 'im_size', 'focal_len', 'name')]
    elif kind in ('cams', 'rec'):
        cs = doc if kind == 'cams' else doc[0]['cameras']
        base = () if kind == 'cams' else (0, 'cameras')
        for k, c in cs.items():
            b = base + (k,)
            out.append((b, False, lambda v: isinstance(v, dict)))
            out += [(b + ('projection_type',), True, lambda v: isinstance(v, str) and v.lower() in TYPES), (b + ('width',), True, is_num), (b + ('height',), True, is_num)]
            out += [(b + (f,), True, is_num) for f in c if f.startswith('focal')]
            out += [(b + (f,), False, is_num) for f in c if f[0] in 'kpc' and f != 'projection_type']
        if kind == 'rec':
            out += [((0, k), True, None) for k in doc[0]]
            out += [((0, 'reference_lla', k), True, lambda v: isinstance(v, float)) for k in ('latitude', 'longitude', 'altitude')]
            for n in doc[0]['shots']:
                b = (0, 'shots', n)
                out += [(b + ('rotation',), True, nums(3, float)), (b + ('translation',), True, nums(3, float)), (b + ('camera',), True, lambda v: isinstance(v, str))]
    elif kind == 'rpc':
        for n in doc:
            out += [((n, 'im_size'), True, pair), ((n, 'rpc'), True, lambda v: isinstance(v, dict) and False)]
            out += [((n, 'rpc', k), True, is_num) for k in ROOT] + [((n, 'rpc', k), True, nums(20)) for k in COEF]
    else:
        out += [(('type',), True, lambda v: v == 'FeatureCollection'), (('features',), True, None)]
        if kind == 'ext':
            out.append((('world_crs',), True, lambda v: isinstance(v, str) and False))
        for i, _ in enumerate(doc['features']):
            b = ('features', i)
            out += [(b + ('type',), True, lambda v: v == 'Feature'), (b + ('properties',), True, None), (b + ('geometry',), True, None), (b + ('properties', 'filename'), True, lambda v: isinstance(v, str))]
            if kind == 'gcp':
                out += [(b + ('properties', 'ji'), True, nums(2)), (b + ('geometry', 'coordinates'), True, nums(3)), (b + ('geometry', 'type'), True, lambda v: v == 'Point')]
            else:
                out += [(b + ('properties', 'xyz'), True, nums(3)), (b + ('properties', 'opk'), True, nums(3))]
    return out


TYPES = ['perspective', 'brown', 'fisheye', 'simple_radial', 'radial']


def get(doc, path):
    for k in path:
        doc = doc[k]
    return doc


JUNK = st.one_of(
    st.sampled_from([95.0, -400.0, 1e30, -1e300, 'NAN', 'INF']), st.sampled_from([95.0, -400.0, 'NAN']), st.none(), st.sampled_from(['', 'abc', 'pinhole', '1.0', '[1, 2]', 'x y', 'EPSG:1', '+proj=xyz', 'Feature']), fl(-10, 10, 2), st.integers(-5, 5), st.just([]), st.just({}), st.lists(fl(-5, 5, 1), min_size=1, max_size=4), st.lists(st.sampled_from(['a', 'b', None, 1.0]), min_size=2, max_size=3),
    st.dictionaries(st.sampled_from(['a', 'b', 'x']), fl(0, 1, 1), min_size=1, max_size=2), st.just([[1.0, 2.0], [3.0, 4.0]]), st.lists(fl(0, 1, 2), min_size=19, max_size=19),
)


def dump(fmt, doc):
    return yaml.safe_dump(doc, sort_keys=False, allow_unicode=True) if fmt == 'yaml' else json.dumps(doc)


def well_formed(kind, out):
    """Contents of what a reader returned."""
    require(isinstance(out, dict), 'parameters are not a dictionary', got=type(out).__name__)
    for k, v in out.items():
        require(isinstance(k, str), 'key is not a string', key=repr(k))
        if kind == 'int':
            require(isinstance(v['cam_type'], CameraType) and v['cam_type'] is not CameraType.rpc, 'camera type', got=v['cam_type'])
            require(pair(v['im_size']) and isinstance(v['im_size'], tuple), 'image size', got=v['im_size'])
            require(is_num(v['focal_len']) or pair(v['focal_len']), 'focal length', got=v['focal_len'])
            require(v.get('sensor_size') is None and 'sensor_size' not in v or pair(v['sensor_size']), 'sensor size', got=v.get('sensor_size'))
            for n, x in v.items():
                require(n in ('cam_type', 'im_size', 'focal_len', 'sensor_size') or is_num(x), 'distortion parameter', name=n, got=x)
        elif kind == 'ext':
            require(nums(3)(v['xyz']) and nums(3)(v['opk']) and 'camera' in v, 'exterior parameters', got=v)
        elif kind == 'rpc':
            require(v['cam_type'] is CameraType.rpc and pair(v['im_size']), 'RPC camera', got=v['im_size'])
            require(all(is_num(v['rpc'][n]) for n in ROOT) and all(nums(20)(v['rpc'][n]) for n in COEF), 'RPC', got=v['rpc'])
        else:
            require(isinstance(v, list) and len(v) > 0, 'GCPs', got=v)
            for g in v:
                require(nums(2)(g['ji']) and nums(3)(g['xyz']), 'GCP', got=g)


def read(kind, fmt, data, ctx, how='file'):
    """Read data (text or bytes) in all of the ways its file can be: list of (outcome, parameters kind, parameters)."""
    d = ctx.tmp()
    name = dict(int='int.yaml', cams='cameras.json', rec='reconstruction.json', rpc='rpc.yaml', gcp='gcps.geojson', ext='ext.geojson', csv='ext.csv')[kind]
    p = d / name
    p.write_bytes(data if isinstance(data, bytes) else data.encode())

    def f():
        if how == 'obj' and not isinstance(data, bytes):
            return io.StringIO(data)
        return p

    def ext(r):
        return lambda: ('ext', r().read_ext_param())
    reads = dict(
        int=[lambda: ('int', param_io.read_oty_int_param(f()))], cams=[lambda: ('int', param_io.read_osfm_int_param(f()))],
        rec=[lambda: ('int', param_io.read_osfm_int_param(f())), ext(lambda: param_io.OsfmReader(f())), lambda: ('int', param_io.OsfmReader(f()).read_int_param())],
        rpc=[lambda: ('rpc', param_io.read_oty_rpc_param(f()))], gcp=[lambda: ('gcp', param_io.read_oty_gcps(f()))], ext=[ext(lambda: param_io.OtyReader(f()))],
        csv=[ext(lambda: param_io.CsvReader(f())), ext(lambda: param_io.CsvReader(f(), crs='EPSG:32735', radians=True))],
    )[kind]
    reads.append(dict(int=lambda: FrameCameras(p, {}), cams=lambda: FrameCameras(p, {}), rec=lambda: FrameCameras(p, p), rpc=lambda: RpcCameras(p), gcp=None, ext=lambda: FrameCameras(INT, p), csv=lambda: FrameCameras(INT, p))[kind])
    if kind in ('int', 'cams'):
        (d / 'e.csv').write_text('filename,x,y,z,omega,phi,kappa\na.tif,1.5,2.5,3.5,4.5,5.5,6.5\nb.tif,1.5,2.5,3.5,4.5,5.5,6.5\n')
        (d / 'e.geojson').write_text(json.dumps(dict(type='FeatureCollection', world_crs='EPSG:32735', features=[dict(type='Feature', properties=dict(filename='a.tif', camera=None, xyz=[1.5, 2.5, 3.5], opk=[0.1, 0.2, 0.3]), geometry=dict(type='Point', coordinates=[1.0, 2.0, 3.0]))])))
        reads += [lambda: FrameCameras(p, d / 'e.csv'), lambda: FrameCameras(p, d / 'e.geojson')]
    out = []
    for r in reads:
        if r is None:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                res = r()
            except OrthorityError as ex:
                out.append((False, None, str(ex)))
                continue
        if isinstance(res, tuple):
            well_formed(*res)
        out.append((True, *(res if isinstance(res, tuple) else (None, None))))
    return out


# --- mutation of fields
@st.composite
def case_field(draw):
    kind = draw(st.sampled_from(sorted(DOCS)))
    mk, fmt = DOCS[kind]
    return dict(kind=kind, doc=draw(mk()), i=draw(st.integers(0, 10**6)), op=draw(st.sampled_from(['drop', 'set', 'set', 'set'])), junk=draw(JUNK), how=draw(st.sampled_from(['file', 'file', 'obj'])))


def check_field(c, ctx):
    kind = c['kind']
    fmt = DOCS[kind][1]
    # unchanged documents are read
    for ok, k, p in read(kind, fmt, dump(fmt, c['doc']), ctx, c['how']):
        require(ok, 'valid file was rejected', err=p)
    doc = copy.deepcopy(c['doc'])
    rs = rules(kind, doc)
    if c['op'] == 'drop':
        rs = [r for r in rs if r[1]]
    path, mand, valid = rs[c['i'] % len(rs)]
    parent = get(doc, path[:-1])
    if c['op'] == 'drop':
        if path == ('type',) and kind == 'int' and len(doc) == 1:
            return None
        if kind == 'int' and 'camera' in doc and len(path) == 2 and path[-1] == 'type':
            return None  # (then also the legacy format, of the camera with the 'camera' ID)
        del parent[path[-1]]
        bad = True
    else:
        j = dict(NAN=math.nan, INF=math.inf).get(c['junk'], c['junk']) if isinstance(c['junk'], str) else c['junk']
        if kind == 'int' and isinstance(j, dict):
            return None  # (may change the file format)
        parent[path[-1]] = j
        bad = not valid(j) if valid else not isinstance(j, type(get(c['doc'], path)))
        if kind == 'rpc' and path[-1] == 'rpc':
            bad = True
        if path[-1] == 'world_crs':
            bad = True
            if isinstance(j, str) and j == '[1, 2]':
                bad = True
        if kind in ('rec', 'cams') and path[-1].__class__ is str and len(path) >= 2 and path[-2] == 'cameras':
            bad = True
    res = read(kind, fmt, dump(fmt, doc), ctx, c['how'])
    # (the OSfM interior parameters can be read without the other sections)
    if kind == 'rec' and 'cameras' not in path:
        res = res[1:]
    if bad:
        require(not any(r[0] for r in res), 'file with a missing or mistyped field was accepted', kind=kind, path=str(path), op=c['op'], junk=c['junk'])
    return [kind, c['op'], 'bad' if bad else 'ok', str(path[-1]) if isinstance(path[-1], str) and path[-1] in ('type', 'im_size', 'focal_len', 'sensor_size', 'projection_type', 'rotation', 'world_crs', 'ji', 'coordinates', 'xyz', 'opk', 'features', 'rpc') else 'other']


# --- mutation of text
@st.composite
def case_text(draw):
    kind = draw(st.sampled_from([*sorted(DOCS), 'csv', 'csv']))
    if kind == 'csv':
        text = csv_text(draw(csv_doc()))
    else:
        mk, fmt = DOCS[kind]
        text = dump(fmt, draw(mk()))
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        ops.append([draw(st.sampled_from(['cut', 'head', 'del', 'ins', 'ins', 'dup', 'swap', 'byte', 'line', 'dupline'])), draw(fl(0, 1, 5)), draw(fl(0, 1, 5)), draw(st.one_of(st.sampled_from(list('[]{}:,"\'#&*!|>%@-?\n\t \x00\x85') + ['\n\n', 'null', 'nan', '.inf', '1e400', '1e5', '- ', '---\n', '...\n', '<<: *a', '&a ', '*a', '!!python/object:os.system ', 'true', '\ufeff', '2001-01-01', '0x1F', '"']), st.text(max_size=4)))])
    return dict(kind=kind, text=text, ops=ops, how=draw(st.sampled_from(['file', 'file', 'obj'])))


def mutate(text, ops):
    raw = None
    for op, a, b, s in ops:
        n = len(text)
        i, j = sorted((int(a * n), int(b * n)))
        if op == 'cut':
            text = text[:i]
        elif op == 'head':
            text = text[i:]
        elif op == 'del':
            text = text[:i] + text[min(j, i + 1 + int(b * 20)):]
        elif op == 'ins':
            text = text[:i] + s + text[i:]
        elif op == 'dup':
            text = text[:j] + text[i:j][:200] + text[j:]
        elif op == 'swap':
            text = text[:i] + text[i + 1:i + 2] + text[i:i + 1] + text[i + 2:]
        elif op in ('line', 'dupline'):
            ls = text.split('\n')
            k = min(int(a * len(ls)), len(ls) - 1)
            if op == 'line':
                del ls[k]
            else:
                ls.insert(k, ls[k])
            text = '\n'.join(ls)
        elif op == 'byte':
            raw = (i, int(b * 255))
    if raw:
        data = bytearray(text.encode('utf-8', 'surrogatepass'))
        if data:
            data[min(raw[0], len(data) - 1)] = raw[1]
        return bytes(data)
    return text


def check_text(c, ctx):
    kind = c['kind']
    t = mutate(c['text'], c['ops'])
    if isinstance(t, str):
        t.encode('utf-8')
    res = read(kind, None, t, ctx, c['how'])
    if not c['ops']:
        if kind != 'csv':
            require(all(r[0] for r in res), 'valid file was rejected', err=[r[2] for r in res if not r[0]])
    return [kind, 'rejected' if not all(r[0] for r in res) else 'accepted'] if c['ops'] else None


@st.composite
def case_any(draw):
    """Arbitrary text and documents."""
    kind = draw(st.sampled_from([*sorted(DOCS), 'csv', 'csv']))
    scalar = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), fl(-5, 5, 2), st.sampled_from(['type', 'pinhole', 'camera', 'cameras', 'a']), st.text(max_size=5))
    keys = st.sampled_from(['camera', 'cameras', 'type', 'name', 'im_size', 'focal_len', 'features', 'shots', 'reference_lla', 'rpc', 'a', 'projection_type', 'width', 'height', 'focal'])
    doc = st.recursive(scalar, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(keys, x, max_size=4)), max_leaves=12)
    v = draw(st.one_of(doc, doc, st.text(max_size=60), st.text(alphabet='filename,xyzomegaphikp \t;:\n"0123456789.-', max_size=80)))
    b = draw(st.one_of(st.none(), st.none(), st.binary(max_size=40)))
    return dict(kind=kind, text=v if isinstance(v, str) else None, doc=None if isinstance(v, str) else v, raw=b.hex() if b is not None else None, how=draw(st.sampled_from(['file', 'obj'])))


def check_any(c, ctx):
    kind = c['kind']
    if c['raw'] is not None:
        t = bytes.fromhex(c['raw'])
    elif c['text'] is not None:
        t = c['text']
    else:
        t = dump('yaml' if kind in ('int', 'rpc') else 'json', c['doc'])
    try:
        if isinstance(t, str):
            t.encode()
    except UnicodeEncodeError:
        return None
    res = read(kind, None, t, ctx, c['how'])
    return [kind, 'bytes' if c['raw'] is not None else 'text' if c['text'] is not None else 'doc', 'rejected' if not all(r[0] for r in res) else 'accepted']


# --- CSV
ODD = ['nan', 'inf', '-95.0', '400.0', '1e30', '1e400', '-1e300']


@st.composite
def csv_doc(draw):
    pos = draw(st.sampled_from([['x', 'y', 'z'], ['latitude', 'longitude', 'altitude']]))
    ori = draw(st.sampled_from([['omega', 'phi', 'kappa'], ['roll', 'pitch', 'yaw']]))
    cam = ['camera'] if draw(st.booleans()) else []
    names = draw(st.lists(pio.filenames().filter(lambda s: not set(s) & set(',;"\'\n\r\t: ')), min_size=2, max_size=5, unique=True))
    rows = []
    for n in names:
        p = [draw(fl(1e5, 9e5, 3)), draw(fl(5e6, 7e6, 3)), draw(fl(100, 999, 2))] if pos[0] == 'x' else [draw(fl(-40, -30, 5)), draw(fl(20, 30, 5)), draw(fl(100, 999, 2))]
        rows.append([n, *map(repr, p), *(repr(draw(fl(-30, 30, 3))) for _ in range(3))] + (['cam1'] if cam else []))
    return dict(fields=['filename', *pos, *ori, *cam], rows=rows, delim=draw(st.sampled_from([',', ',', ';', '\t'])), header=True)


def csv_text(d):
    return '\n'.join(d['delim'].join(r) for r in [d['fields'], *d['rows']]) + '\n'


@st.composite
def case_csv(draw):
    return dict(doc=draw(csv_doc()), op=draw(st.sampled_from(['column', 'rename', 'value', 'value', 'short', 'trunc', 'no_rows'])), i=draw(st.integers(0, 1000)), j=draw(st.integers(0, 1000)), v=draw(st.sampled_from(['', 'abc', '1.2.3', '--', '12a', 'x y', '1e', '0x10', *ODD])), how=draw(st.sampled_from(['file', 'obj'])))


def check_csv(c, ctx):
    d = copy.deepcopy(c['doc'])
    for ok, k, p in [read('csv', None, csv_text(d), ctx, c['how'])[1]]:
        require(ok, 'valid file was rejected', err=p)
        require(set(p) == {r[0] for r in d['rows']}, 'images', got=list(p))
    fields = d['fields'][:7]
    col = c['i'] % len(fields)
    row = c['j'] % len(d['rows'])
    if c['op'] == 'column':
        for r in [d['fields'], *d['rows']]:
            del r[col]
    elif c['op'] == 'rename':
        d['fields'][col] = 'other'
    elif c['op'] == 'value':
        d['rows'][row][max(col, 1)] = c['v']
    elif c['op'] in ('short', 'trunc'):
        d['rows'][row] = d['rows'][row][: max(col, 1)]
        if c['op'] == 'trunc':
            d['rows'] = d['rows'][: row + 1]
    else:
        d['rows'] = []
    res = read('csv', None, csv_text(d), ctx, c['how'])
    if c['op'] == 'no_rows':
        require(all(not r[0] or r[2] in (None, {}) for r in res), 'images of a file without any', got=str(res))
    elif not (c['op'] == 'value' and c['v'] in ODD):
        require(not any(r[0] for r in res), 'file with a missing or mistyped field was accepted', op=c['op'], text=csv_text(d)[:300])
    return [c['op'], 'latlon' if 'latitude' in c['doc']['fields'] else 'xyz', fields[col] if c['op'] == 'column' else 'any']


SUBS = [
    Sub('field', case_field, check_field, 2400, 40000, 'valid files with a mandatory field removed, or any field replaced with another value: removed mandatory fields and values of the wrong type or length must be rejected with an Orthority error, by each reader and factory; non-trivial = changed file read'),
    Sub('csv', case_csv, check_csv, 800, 12000, 'valid CSV files with a mandatory column removed or renamed, or a value missing or not a number: must be rejected; non-trivial = changed file read'),
    Sub('text', case_text, check_text, 3000, 60000, 'valid files with random edits to their text or bytes: an Orthority error, or well formed parameters; non-trivial = edited'),
    Sub('any', case_any, check_any, 3000, 60000, 'arbitrary text, bytes and documents: an Orthority error, or well formed parameters; non-trivial = read'),
]
ASSUMPTIONS = ['booleans are not distinguished from numbers']
