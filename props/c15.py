"""C15: CSV exterior parameters."""
import csv
import io
import math
import warnings
import numpy as np
import rasterio as rio
from rasterio.warp import transform
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, seeds
from harness import ref
from orthority.param_io import CsvReader
from orthority.errors import CrsMissingError, CrsError, ParamError

WORLD = ['EPSG:32735', 'EPSG:2048', 'EPSG:3857', 'EPSG:32735+5773', '+proj=tmerc +lat_0=0 +lon_0=27 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +no_defs']
PARIS = '+proj=longlat +ellps=WGS84 +pm=paris +no_defs'
LLA = [None, None, 'EPSG:4326', 'EPSG:4979', 'EPSG:4148', 'EPSG:4326+5773', PARIS]
DELIMS = [',', ';', ':', ' ', '\t']
POS = dict(xyz=['x', 'y', 'z'], lla=['latitude', 'longitude', 'altitude'])
ORI = dict(opk=['omega', 'phi', 'kappa'], rpy=['roll', 'pitch', 'yaw'])


@st.composite
def layout(draw, multi, fmt_crs):
    """How the file is laid out."""
    pos, ori = draw(st.sampled_from(['xyz', 'lla'])), draw(st.sampled_from(['opk', 'rpy']))
    extra = draw(st.lists(st.sampled_from(['time', 'accuracy', 'comment', 'heading', 'w']), max_size=3, unique=True))
    cols = ['filename', *POS[pos], *ORI[ori]]
    if multi or draw(st.booleans()):
        cols.append('camera')
    both_pos = draw(st.booleans()) and draw(st.booleans())
    cols = draw(st.permutations(cols + extra))
    how = draw(st.sampled_from(['header', 'header', 'header', 'fieldnames', 'both', 'legacy']))
    if how == 'legacy':
        pos, ori = 'xyz', 'opk'
        cols = ['filename', *POS['xyz'], *ORI['opk']]
        if multi:
            how, cols = 'header', cols + ['camera']
    crs_opts = ['arg', 'arg', 'obj']
    if pos == 'xyz':
        crs_opts += ['prj', 'prj']
    if (pos, ori) == ('lla', 'rpy'):
        crs_opts += ['auto', 'auto']
    if (pos, ori) == ('xyz', 'opk'):
        crs_opts += ['none']
    return dict(pos=pos, ori=ori, cols=list(cols), how=how, crs=draw(st.sampled_from(crs_opts)), delim=draw(st.sampled_from(DELIMS)), quote=draw(st.sampled_from(['minimal', 'minimal', 'nonnumeric', 'single', 'all'])),
                eol=draw(st.sampled_from(['\n', '\r\n'])), radians=draw(st.booleans()), case=draw(st.sampled_from(['lower', 'upper', 'title', 'space'])), dialect=draw(st.booleans()),
                kind=draw(st.sampled_from(['str', 'path', 'ofile', 'obj'])), nd=draw(st.sampled_from([None, 3, 6])), shuffle=draw(seeds()), dirs=draw(st.booleans()) and draw(st.booleans()), end=draw(st.booleans()), lead=draw(st.sampled_from([None, None, 'all', 'rows'])))


@st.composite
def case_csv(draw):
    n = draw(st.integers(2, 9))
    multi = draw(st.booleans())
    crs = draw(st.sampled_from(WORLD))
    style = draw(st.sampled_from(['seq', 'rand', 'noext', 'num', 'space']))
    rows = []
    for i in range(n):
        name = dict(seq=f'IMG_{i:04d}.jpg', rand=f'{"abcdefghi"[:1 + i]}_{i}.tif', noext=f'3324c_2015_1004_05_{180 + i:04d}_RGB', num=f'{1000 + 7 * i}', space=f'my image {i}.tif')[style]
        rows.append(dict(name=name, lat=draw(fl(-34, -30, 6)), lon=draw(fl(25, 29, 6)), alt=draw(fl(50, 3000, 3)), ang=[draw(fl(-0.6, 0.6, 5)), draw(fl(-0.6, 0.6, 5)), draw(fl(-3.1, 3.1, 5))],
                         cam=draw(st.sampled_from(['cam A', 'B', 'DJI FC6310 8.8'])) if multi else 'cam A'))
    if draw(st.booleans()) and draw(st.booleans()):
        dlat, dlon = draw(st.sampled_from([65, 20])), draw(st.sampled_from([-150, 100, 0]))
        for r in rows:
            r['lat'], r['lon'] = round(r['lat'] + dlat, 6), round(r['lon'] + dlon, 6)
        crs = 'EPSG:3857'
    lays = [draw(layout(multi, crs)) for _ in range(2)]
    lla_crs = draw(st.sampled_from(LLA))
    if lla_crs == PARIS and any(lay['crs'] == 'auto' for lay in lays):  # (automatic CRSs are for longitudes from Greenwich)
        lla_crs = None
    return dict(rows=rows, crs=crs, lla_crs=lla_crs, stem=draw(st.sampled_from(['pos', 'pos', 'pos.v1.', 'my pos.x'])), layouts=lays)


def fmt(v, nd):
    return repr(float(v)) if nd is None else f'{v:.{nd + 3}f}'


def lead(lay):
    """Whether there is a space after each delimiter."""
    return bool(lay.get('lead')) and lay['delim'] in ',;'


def write(case, lay, d, tag):
    """Write the file, and return its path, and true row values as written."""
    lla_crs = case['lla_crs'] or 'EPSG:4979'
    rng = np.random.default_rng(lay['shuffle'])
    order = rng.permutation(len(case['rows']))
    out, true = [], {}
    for k in order:
        r = case['rows'][k]
        v = dict(filename=('sub dir/' if lay['dirs'] else '') + r['name'], camera=r['cam'], time=f'2020-01-0{1 + k % 9}T10-00-00', accuracy=f'{0.1 * (k + 1):.2f}', comment=f'note{k}', heading=str(10 * k), w='1')
        t = dict(camera=r['cam'] if 'camera' in lay['cols'] else None)
        if lay['pos'] == 'lla':
            s = [fmt(x, lay['nd'] and 6) for x in (r['lat'], r['lon'], r['alt'])]
        else:
            xyz = [x[0] for x in transform(lla_crs, case['crs'], [r['lon']], [r['lat']], [r['alt']])]
            s = [fmt(x, lay['nd']) for x in xyz]
        v.update(zip(POS[lay['pos']], s))
        t['pos'] = [float(x) for x in s]
        ang = r['ang'] if lay['radians'] else [math.degrees(a) for a in r['ang']]
        s = [fmt(x, lay['nd'] and 6) for x in ang]
        v.update(zip(ORI[lay['ori']], s))
        t['ang'] = [float(x) if lay['radians'] else math.radians(float(x)) for x in s]
        out.append([v[c] for c in lay['cols']])
        true[r['name']] = t
    names = [dict(lower=c, upper=c.upper(), title=c.title(), space=f' {c} ')[lay['case']] for c in lay['cols']]
    if lay['case'] == 'space' and (lay['delim'] == ' ' or lay['quote'] == 'all'):
        names = lay['cols']
    auto = lay['delim'] in (':', ' ') and any(' ' in x for row in out for x in row)  # (ambiguous when not quoted)
    quote = 'nonnumeric' if auto and lay['quote'] in ('minimal', 'single') else lay['quote']
    f = io.StringIO()
    qk = dict(minimal=(csv.QUOTE_MINIMAL, '"'), nonnumeric=(csv.QUOTE_MINIMAL, '"'), single=(csv.QUOTE_MINIMAL, "'"), all=(csv.QUOTE_ALL, '"'))[quote]
    w = csv.writer(f, delimiter=lay['delim'], quoting=qk[0], quotechar=qk[1], lineterminator=lay['eol'])
    if lay['how'] in ('header', 'both'):
        w.writerow(names)
    if quote == 'nonnumeric':  # text fields quoted
        for row in out:
            f.write(lay['delim'].join(f'"{x}"' if c in ('filename', 'camera', 'time', 'comment') else x for c, x in zip(lay['cols'], row)) + lay['eol'])
    else:
        w.writerows(out)
    s = f.getvalue()
    if lead(lay):
        # (not where detection of the header by csv.Sniffer is ambiguous)
        k = s.index(lay['eol']) if lay['lead'] == 'rows' and lay['how'] in ('header', 'both') and quote == 'minimal' else 0
        s = s[:k] + s[k:].replace(lay['delim'], lay['delim'] + ' ')
    if not lay['end']:
        s = s[: -len(lay['eol'])]
    path = d / f'{case["stem"]}{tag}.csv'
    path.write_bytes(s.encode())
    if lay['crs'] == 'prj':
        c = rio.CRS.from_string(case['crs'])
        (d / f'{case["stem"]}{tag}.prj').write_text([c.to_wkt(), case['crs']][lay['shuffle'] % 2])
    return path, true, names, qk[1]


def read(case, lay, path, names, quotechar, **over):
    import fsspec
    kw = dict(radians=lay['radians'])
    if lay['how'] in ('fieldnames', 'both'):
        kw['fieldnames'] = names
    if lay['crs'] == 'arg':
        kw['crs'] = case['crs']
    elif lay['crs'] == 'obj':
        kw['crs'] = rio.CRS.from_string(case['crs'])
    if case['lla_crs']:
        kw['lla_crs'] = case['lla_crs']
    if lay['dialect']:
        class D(csv.excel):
            delimiter, skipinitialspace = lay['delim'], True
        D.quotechar = quotechar
        kw['dialect'] = D
    kw.update(over)
    kind = lay['kind'] if not (lay['crs'] == 'prj' and lay['kind'] == 'obj') else 'str'
    if kind == 'obj':
        with open(path, 'rt') as f:
            return CsvReader(f, **kw)
    return CsvReader(dict(str=str(path), path=path, ofile=None)[kind] or fsspec.open(str(path), 'rt'), **kw)


def check_csv(case, ctx):
    d = ctx.tmp()
    lla_crs = case['lla_crs'] or 'EPSG:4979'
    labels = []
    results = []
    for i, lay in enumerate(case['layouts']):
        path, true, names, q = write(case, lay, d, i)
        rdr = read(case, lay, path, names, q)
        # CRS
        crs = case['crs']
        if lay['crs'] == 'none':
            require(rdr.crs is None, 'CRS of a file without one', got=str(rdr.crs))
        elif lay['crs'] == 'auto':
            lat, lon = np.mean([t['pos'][:2] for t in true.values()], axis=0)
            z = int((lon + 180) // 6) % 60 + 1
            if abs((lon + 180) / 6 - round((lon + 180) / 6)) < 1e-6 or abs(lat) < 1e-6:
                continue
            crs = f'EPSG:{(32600 if lat >= 0 else 32700) + z}'
            require(rdr.crs == rio.CRS.from_string(crs), 'automatic CRS', got=str(rdr.crs), exp=crs)
        else:
            require(rdr.crs == rio.CRS.from_string(crs), 'CRS', got=str(rdr.crs), exp=crs)
        got = rdr.read_ext_param()
        require(sorted(got) == sorted(true), 'image names', got=sorted(got), exp=sorted(true))
        for name, t in true.items():
            g = got[name]
            require(g['camera'] == t['camera'], 'camera ID', got=g['camera'], exp=t['camera'])
            if lay['pos'] == 'xyz':
                require(list(g['xyz']) == t['pos'], 'position', got=g['xyz'], exp=t['pos'])
                lla = transform(crs, lla_crs, *[[v] for v in t['pos']]) if lay['ori'] == 'rpy' else None
                lla = lla and (lla[1][0], lla[0][0], lla[2][0])
            else:
                lla = t['pos']
                xyz = [v[0] for v in transform(lla_crs, crs, [lla[1]], [lla[0]], [lla[2]])]
                require(np.allclose(g['xyz'], xyz, rtol=0, atol=1e-5), 'position', got=g['xyz'], exp=xyz)
            if lay['ori'] == 'opk':
                require(np.allclose(g['opk'], t['ang'], rtol=1e-12, atol=1e-14), 'orientation', got=g['opk'], exp=t['ang'])
            else:
                R = ref.opk_to_R(g['opk'])
                E = ref.rpy_to_R(t['ang'], lla, crs, lla_crs)
                require(np.abs(R - E).max() < (1e-3 if '+57' in crs or '+57' in lla_crs else 2e-5), 'orientation', err=np.abs(R - E).max(), opk=g['opk'])
        require(rdr.read_ext_param() == got, 'second read of the same reader')
        results.append((lay, got))
        labels += [lay['pos'] + '_' + lay['ori'], lay['how'], 'crs-' + lay['crs'], dict(zip(DELIMS, ['comma', 'semi', 'colon', 'space', 'tab']))[lay['delim']], lay['quote'], lay['kind']]
    # missing CRS
    for lay in case['layouts']:
        if (lay['pos'] == 'xyz') != (lay['ori'] == 'opk') and lay['crs'] in ('arg', 'obj'):
            path, true, names, q = write(case, lay, d, 9)
            try:
                read(case, lay, path, names, q, crs=None)
            except CrsMissingError:
                labels.append('crs-missing')
            else:
                raise Violation('missing CRS was not reported')
    return labels


SUBS = [
    Sub('csv', case_csv, check_csv, 1600, 30000, 'random positions and orientations, each written in two random layouts, compared with the values written, converted by PROJ and an independent roll-pitch-yaw reference; non-trivial = all values compared'),
]
ASSUMPTIONS = ['files have at least two rows, as dialect and header detection (csv.Sniffer) is by sample', 'PROJ coordinate transforms are trusted']
