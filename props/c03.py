"""C03: RPC cameras evaluate the RPC model and its inverse in any world CRS."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, ref
from harness.engine import Sub, require, Violation
from harness.gen import fl

KEYS = ['height_off', 'height_scale', 'lat_off', 'lat_scale', 'long_off', 'long_scale', 'line_off', 'line_scale', 'samp_off', 'samp_scale']


@st.composite
def case_rpc(draw):
    r = draw(gen.rpc())
    n = draw(st.integers(1, 6))
    pts = draw(st.lists(st.tuples(fl(-0.8, 0.8, 4), fl(-0.8, 0.8, 4), fl(-0.8, 0.8, 4)), min_size=n, max_size=n))
    return dict(r=r, pts=pts, crs=draw(st.sampled_from([None, None, 'utm', 'utm', '3857', '4326', '4979', 'tmerc', 'ft'])),
                crs_type=draw(st.sampled_from(['str', 'obj'])), as_obj=draw(st.booleans()),
                mode=draw(st.sampled_from(['NN', 'N1', 'Ns', '1N', '11'])), nan=draw(st.sampled_from([None, None, 0, 1, 2])),
                tight=draw(st.booleans()), via=draw(st.sampled_from(['class', 'create'])), order=draw(st.sampled_from(['C', 'F'])))


def crs_str(case):
    r = case['r']['rpc']
    lat, lon = r['lat_off'], r['long_off']
    return {
        None: None, 'utm': f'EPSG:{gen.utm_epsg(lat, lon)}', '3857': 'EPSG:3857', '4326': 'EPSG:4326', '4979': 'EPSG:4979',
        'tmerc': f'+proj=tmerc +lat_0={lat} +lon_0={lon} +k=1 +x_0=1000 +y_0=-2000 +datum=WGS84 +units=m +no_defs',
        # horizontal feet, ellipsoidal height in metres
        'ft': f'+proj=tmerc +lat_0=0 +lon_0={lon} +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=us-ft +vunits=m +no_defs',
    }[case['crs']]


def check_rpc(case, ctx):
    import orthority.camera as oc
    from rasterio.crs import CRS
    from rasterio.rpc import RPC
    from rasterio.warp import transform
    r = case['r']['rpc']
    cs = crs_str(case)
    crs = CRS.from_string(cs) if cs and case['crs_type'] == 'obj' else cs
    opts = dict(rpc_pixel_error_threshold=1e-5, rpc_max_iterations=50) if case['tight'] else None
    rpc_arg = RPC(**r) if case['as_obj'] else {k: (list(v) if isinstance(v, list) else v) for k, v in r.items()}
    kw = dict(rpc_options=opts, crs=crs)
    size = tuple(case['r']['im_size'])
    cam = oc.create_camera('rpc', size, rpc_arg, **kw) if case['via'] == 'create' else oc.RpcCamera(size, rpc_arg, **kw)
    require(tuple(cam.im_size) == size, 'im_size')
    p = np.array(case['pts']).T
    llh = np.array([r['long_off'] + p[0] * r['long_scale'], r['lat_off'] + p[1] * r['lat_scale'], r['height_off'] + p[2] * r['height_scale']])
    wgs = CRS.from_epsg(4979)
    if cs:
        c = CRS.from_string(cs)
        xyz = np.array(transform(wgs, c, *llh))
        llh = np.array(transform(c, wgs, *xyz))  # so that the forward check is exact
    else:
        xyz = llh.copy()
    n = xyz.shape[1]
    if case['nan'] is not None:
        ex = xyz[:, :1].copy()
        ex[case['nan']] = np.nan
        xyz = np.concatenate([xyz, ex], axis=1)
    if case['order'] == 'F':
        xyz = np.asfortranarray(xyz)
    x0 = xyz.copy()
    ji = cam.world_to_pixel(xyz)
    require(np.array_equal(xyz, x0, equal_nan=True), 'world_to_pixel modified its input')
    require(ji.shape == (2, xyz.shape[1]), 'shape', shape=ji.shape)
    exp = ref.rpc_project(r, llh)
    tol = 1e-5 + 1e-9 * max(size)
    err = np.abs(ji[:, :n] - exp).max(axis=0)
    require(np.all(err <= tol), 'RPC projection differs from the standard model', err=err.tolist(), tol=tol, got=ji.tolist(), exp=exp.tolist())
    if case['nan'] is not None:
        require(np.isnan(ji[:, n:]).all(), 'NaN world point gave non-NaN pixel')

    # inverse
    J = exp.copy()
    z = llh[2].copy()
    mode = case['mode']
    if mode in ('1N', '11'):
        J = J[:, :1]
    if mode in ('N1', '11'):
        z = z[:1]
    if mode == 'Ns':
        z = float(z[0])
    if case['nan'] is not None and not np.isscalar(z):
        if case['nan'] == 2:
            z[-1] = np.nan
        else:
            J[case['nan'], -1] = np.nan
    J0, z0 = J.copy(), (z if np.isscalar(z) else z.copy())
    w = cam.pixel_to_world_z(J, z)
    require(np.array_equal(J, J0, equal_nan=True) and (np.isscalar(z) or np.array_equal(z, z0, equal_nan=True)), 'pixel_to_world_z modified its inputs')
    N = max(J.shape[1], 1 if np.isscalar(z) else len(z))
    require(w.shape == (3, N), 'pixel_to_world_z shape', shape=w.shape)
    Jb, zb = np.broadcast_to(J, (2, N)), np.broadcast_to(np.asarray(z, float), (N,))
    bad = np.isnan(Jb).any(axis=0) | np.isnan(zb)
    require(np.isnan(w[:, bad]).all(), 'NaN pixel/height gave a non-NaN world point', got=w.tolist())
    g = ~bad
    if g.any():
        W = w[:, g]
        require(np.all(np.isfinite(W)), 'non-finite world point', got=W.tolist())
        require(np.allclose(W[2], zb[g], rtol=0, atol=1e-6), 'height changed', got=W[2].tolist(), z=zb[g].tolist())
        G = np.array(transform(CRS.from_string(cs), wgs, *W)) if cs else W
        back = ref.rpc_project(r, G)
        tol = 0.02 if case['tight'] else 0.25
        err = np.abs(back - Jb[:, g]).max(axis=0)
        require(np.all(err <= tol), 'pixel -> world -> pixel round trip (reference model)', err=err.tolist(), tol=tol)
        for k in np.nonzero(g)[0][:3]:
            one = cam.pixel_to_world_z(Jb[:, [k]].copy(), np.array([zb[k]]))
            require(np.allclose(one[:, 0], w[:, k], rtol=1e-12, atol=1e-9), 'broadcast call differs from single call', mode=mode)
    if cs:
        require(cam.crs == CRS.from_string(cs), 'crs attribute')
    else:
        require(cam.crs == wgs, 'default crs attribute is not 3D WGS84')
    return [f'crs-{case["crs"]}', f'mode-{mode}'] + (['nan'] if bad.any() else []) + (['tight'] if case['tight'] else [])


@st.composite
def case_reject(draw):
    r = draw(gen.rpc())
    return dict(r=r, kind=draw(st.sampled_from(['egm96', 'egm96utm', 'ftv'])), crs_type=draw(st.sampled_from(['str', 'obj'])))


def check_reject(case, ctx):
    """A world CRS with a vertical datum other than ellipsoidal metres is rejected."""
    import orthority.camera as oc
    from orthority.errors import OrthorityError
    from rasterio.crs import CRS
    from rasterio.warp import transform
    r = case['r']['rpc']
    lat, lon = r['lat_off'], r['long_off']
    cs = dict(egm96='EPSG:4326+5773', egm96utm=f'EPSG:{gen.utm_epsg(lat, lon)}+5773',
              ftv=f'+proj=utm +zone={gen.utm_epsg(lat, lon) % 100} +datum=WGS84 +units=m +vunits=us-ft +no_defs')[case['kind']]
    # is the height change visible to PROJ here (the geoid grid covers the position)?
    hz = [transform(CRS.from_epsg(4979), CRS.from_string(cs), [lon], [lat], [z])[2][0] for z in (0.0, 1.0)]
    if not (np.isfinite(hz).all() and (abs(hz[0]) > 0.01 or abs(hz[1] - 1) > 0.01)):
        return None
    try:
        oc.RpcCamera(tuple(case['r']['im_size']), r, crs=CRS.from_string(cs) if case['crs_type'] == 'obj' else cs)
    except OrthorityError:
        return case['kind']
    raise Violation(f"non-ellipsoidal height CRS {cs} was accepted")


SUBS = [
    Sub('rpc', case_rpc, check_rpc, 6000, 60000,
        'random RPC coefficients, world CRS (none, UTM, Mercator, geographic, local TM, feet), points/heights/broadcast shapes, NaN; every case compares at least one point with the reference and is non-trivial'),
    Sub('reject_vertical', case_reject, check_reject, 150, 3000,
        'random RPC position, CRS with geoid or feet heights; non-trivial = PROJ really changes heights there'),
]
ASSUMPTIONS = ['inverse accuracy is that of GDAL (0.1 pixel by default, the requested threshold otherwise)']
