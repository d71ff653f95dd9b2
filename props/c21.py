"""C21: RPC refinement."""
import itertools
from copy import deepcopy
import numpy as np
from hypothesis import strategies as st
from harness.engine import Sub, Violation, require
from harness.gen import fl, rpc, seeds
from harness import ref
from rasterio.rpc import RPC
from orthority.enums import RpcRefine
from orthority.fit import refine_rpc


@st.composite
def case_refine(draw):
    r = draw(rpc())
    n = draw(st.one_of(st.integers(1, 4), st.integers(5, 30)))
    drift = draw(st.booleans())
    return dict(rpc=r['rpc'], n=n, method=draw(st.sampled_from(['shift', 'shift-drift', None])), enum=draw(st.booleans()), obj=draw(st.booleans()), seed=draw(seeds()), noise=draw(st.sampled_from([0., 0., 1., 20.])),
                shift=[draw(fl(-200, 200, 2)), draw(fl(-200, 200, 2))], drift=[draw(fl(0.98, 1.02, 5)), draw(fl(0.98, 1.02, 5))] if drift else [1., 1.], flat=draw(st.booleans()), dup=draw(st.booleans()) and draw(st.booleans()))


def gcps_of(case):
    r = case['rpc']
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    u = rng.uniform(-0.9, 0.9, (3, n))
    if case['flat']:
        u[2] = u[2, 0]
    llh = np.array([r['long_off'] + u[0] * r['long_scale'], r['lat_off'] + u[1] * r['lat_scale'], r['height_off'] + u[2] * r['height_scale']])
    ji = ref.rpc_project(r, llh)
    # shift and drift about the RPC's own pixel offset
    off = np.array([[r['samp_off']], [r['line_off']]])
    obs = (ji - off) * np.array(case['drift'])[:, None] + off + np.array(case['shift'])[:, None] + case['noise'] * rng.normal(size=ji.shape)
    g = [dict(ji=tuple(a), xyz=tuple(b), id=str(k), info=None) for k, (a, b) in enumerate(zip(obs.T.tolist(), llh.T.tolist()))]
    if case['dup']:
        g = g + g[:1]
    return g


def best(ji, obs, method):
    """Least squares per axis scale and shift."""
    out = []
    for x, y in zip(ji, obs):
        if method == 'shift':
            out.append((1., float(np.mean(y - x))))
        else:
            xm, ym = x.mean(), y.mean()
            m = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
            out.append((float(m), float(ym - m * xm)))
    return np.array(out)


def check_refine(case, ctx):
    r = case['rpc']
    gcps = gcps_of(case)
    method = case['method'] or 'shift'
    kw = {} if case['method'] is None else dict(method=RpcRefine(method) if case['enum'] else method)
    arg = RPC(**r) if case['obj'] else deepcopy(r)
    before = deepcopy(arg), deepcopy(gcps)
    min_gcps = 1 if method == 'shift' else 2
    for n in range(min_gcps):
        try:
            refine_rpc(arg, gcps[:n], **kw)
        except ValueError:
            continue
        require(False, 'too few GCPs were accepted', n=n)
    if len(gcps) < min_gcps:
        return None
    xyz = np.array([g['xyz'] for g in gcps]).T
    obs = np.array([g['ji'] for g in gcps]).T
    ji = ref.rpc_project(r, xyz)
    if method == 'shift-drift':
        # well posed GCPs only
        spread = np.ptp(ji, axis=1) / (r['samp_scale'], r['line_scale'])
        if np.any(spread < 0.05):
            return None
    out = refine_rpc(arg, gcps, **kw)
    require(isinstance(out, dict) and set(out) >= set(r) - {'err_bias', 'err_rand'}, 'result keys', got=sorted(out))
    if case['obj']:
        require(arg.to_dict() == before[0].to_dict(), 'the RPC was changed')
    else:
        require(arg == before[0], 'the RPC was changed')
    require(gcps == before[1], 'the GCPs were changed')
    ms = best(ji, obs, method)
    fit = ji * ms[:, :1] + ms[:, 1:]
    scale = max(r['samp_scale'], r['line_scale'])
    tol = 1e-6 * scale  # (GDAL pixel accuracy)
    got = ref.rpc_project(out, xyz)
    require(np.abs(got - fit).max() < tol, 'refined GCP pixels differ from the least squares fit', err=np.abs(got - fit).max(), got=got[:, 0], exp=fit[:, 0])
    # the same scale and shift applies everywhere
    rng = np.random.default_rng(case['seed'] + 1)
    u = rng.uniform(-1, 1, (3, 20))
    p = np.array([r['long_off'] + u[0] * r['long_scale'], r['lat_off'] + u[1] * r['lat_scale'], r['height_off'] + u[2] * r['height_scale']])
    a, b = ref.rpc_project(out, p), ref.rpc_project(r, p) * ms[:, :1] + ms[:, 1:]
    gain = 1 if method == 'shift' else 2 / min(np.ptp(ji, axis=1) / (2 * scale))
    require(np.abs(a - b).max() < tol * max(1, gain), 'refined pixels differ from a scale and shift of the original', err=np.abs(a - b).max(), got=a[:, 0], exp=b[:, 0])
    # residuals
    def rms(x):
        return np.sqrt(np.mean((x - obs) ** 2, axis=1))
    require(np.all(rms(got) <= rms(ji) + tol), 'refined residuals are larger than the original', got=rms(got), orig=rms(ji))
    if case['noise'] == 0 and (method == 'shift-drift' or case['drift'] == [1., 1.]):
        require(np.abs(got - obs).max() < 2 * tol, 'exact refinement not recovered', err=np.abs(got - obs).max())
    # order
    perm = rng.permutation(len(gcps))
    out2 = refine_rpc(arg, [gcps[k] for k in perm], **kw)
    require(np.abs(ref.rpc_project(out2, p) - a).max() < tol * max(1, gain) * 1e-2, 'result depends on the order of GCPs')
    # object and dictionary give the same
    out3 = refine_rpc(deepcopy(r) if case['obj'] else RPC(**r), gcps, **kw)
    require(np.abs(ref.rpc_project(out3, p) - a).max() < 1e-9 * scale, 'RPC object and dictionary results differ')
    # refining again changes nothing
    out4 = refine_rpc(out, gcps, **kw)
    require(np.abs(ref.rpc_project(out4, p) - a).max() < 2 * tol * max(1, gain), 'second refinement with the same GCPs changes the result', err=np.abs(ref.rpc_project(out4, p) - a).max())
    return [method, 'noise' if case['noise'] else 'exact', 'obj' if case['obj'] else 'dict', f'n{min(len(gcps), 3)}' + ('+' if len(gcps) > 3 else '')]


SUBS = [
    Sub('refine', case_refine, check_refine, 4000, 80000, 'random RPCs, GCPs (with shifts, drifts and noise) and methods against a closed form least squares fit in pixels; non-trivial = fit compared (well posed GCPs)'),
]
ASSUMPTIONS = ["the image (pixel) axes are fitted separately, as documented for the 'shift' and 'shift-drift' methods", 'shift-drift is compared only when GCPs span over 2.5% of the image on both axes']
