"""C04: a camera's behaviour depends only on its current parameters, not on its history."""
import numpy as np
from hypothesis import strategies as st
from harness import gen, imgs, ref
from harness.engine import Sub, Violation, require
from harness.gen import fl

INTERPS = ['nearest', 'bilinear', 'cubic', 'lanczos', 'average']
DTYPES = ['uint8', 'uint16', 'int16', 'float32', 'float64']


@st.composite
def case_hist(draw):
    ip = draw(gen.interior(types=['brown', 'opencv', 'fisheye', 'pinhole', 'brown', 'opencv', 'fisheye'],
                           sizes=st.tuples(st.integers(6, 40), st.integers(6, 40))))
    eps = [gen.level(ip, draw(gen.exterior(max_tilt=0.5, xy=1e4, alt=(50, 1000)))) for _ in range(3)]
    op = st.one_of(
        st.tuples(st.just('update'), st.integers(0, 2)),
        st.tuples(st.sampled_from(['update_pos', 'update_opk', 'update_z']), st.integers(0, 2)),
        st.tuples(st.just('distort'), st.booleans()),
        st.tuples(st.just('dalpha'), st.sampled_from([1e-3, -1e-3, 0.015, -0.015, 0.004])),
        st.tuples(st.just('alpha'), st.sampled_from([0.0, 0.3, 1.0, 0.5, 2.0, -1.0])),
        st.tuples(st.just('w2p'), st.just(0)),
        st.tuples(st.just('p2w'), st.just(0)),
        st.tuples(st.just('pb'), st.sampled_from([None, 8, 20])),
        st.tuples(st.just('wb'), st.sampled_from([0, 1])),
        st.tuples(st.just('read'), st.sampled_from(INTERPS)),
        st.tuples(st.just('remap'), st.sampled_from(INTERPS)),
    )
    init = draw(st.sampled_from(['none', 'ext', 'ext']))
    return dict(ip=ip, eps=eps, init=init, distort=draw(st.booleans()), alpha=draw(st.sampled_from([0.0, 0.4, 1.0])),
                warm=draw(st.booleans()), ops=draw(st.lists(op, min_size=1, max_size=14)), dtype=draw(st.sampled_from(DTYPES)),
                bands=draw(st.integers(1, 3)), seed=draw(gen.seeds()), nodata=draw(st.sampled_from([None, None, 7])))


def observe(cam, case, op, arg, im_file, ground):
    """Return the observable result of one query on a camera."""
    nd = case['nodata']
    if op == 'w2p':
        return cam.world_to_pixel(ground.copy())
    if op == 'p2w':
        w, h = case['ip']['im_size']
        ji = np.array([[0, (w - 1) / 2, w - 1, 1.3], [0, (h - 1) / 3, h - 1, 0.7]])
        return cam.pixel_to_world_z(ji, np.array([0.0, 5.0, -3.0, 10.0]))
    if op == 'pb':
        return cam.pixel_boundary(num_pts=arg)
    if op == 'wb':
        if arg == 0:
            return cam.world_boundary(3.0)
        import rasterio as rio
        g = ground
        x0, x1, y0, y1 = g[0].min() - 50, g[0].max() + 50, g[1].min() - 50, g[1].max() + 50
        tf = rio.Affine((x1 - x0) / 24, 0, x0, 0, -(y1 - y0) / 24, y1)
        zz = np.fromfunction(lambda i, j: 3 + 2 * np.sin(j / 3.0) + np.cos(i / 4.0), (24, 24)).astype('float32')
        return cam.world_boundary(zz, transform=tf, num_pts=12)
    if op == 'read':
        kw = {} if nd is None else dict(nodata=nd)
        return cam.read(im_file, interp=arg, **kw)
    if op == 'remap':
        kw = {} if nd is None else dict(nodata=nd)
        im = cam.read(im_file, interp=arg, **kw)
        g = ground
        xs = np.linspace(g[0].min(), g[0].max(), 9)
        ys = np.linspace(g[1].max(), g[1].min(), 7)
        x, y = np.meshgrid(xs, ys)
        z = np.full(x.shape, 2.0)
        z[2, 3] = np.nan
        return cam.remap(im, x, y, z, interp=arg, **kw)
    raise AssertionError(op)


def same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a.astype('float64'), b.astype('float64'), rtol=1e-9, atol=1e-9, equal_nan=True)


def check_hist(case, ctx):
    from orthority.camera import create_camera
    from orthority.errors import CameraInitError
    ip = case['ip']
    if not ref.fov_valid(ip)[0]:
        return None
    d = ctx.tmp()
    im_file = imgs.write_tif(d / 'im.tif', imgs.noise(ip['im_size'], case['bands'], case['dtype'], case['seed']))
    cur = dict(ep=case['eps'][0] if case['init'] == 'ext' else None, distort=case['distort'], alpha=case['alpha'])
    cam = create_camera(**gen.camera_kwargs(ip, cur['ep']), distort=cur['distort'], alpha=cur['alpha'])
    labels = set()
    nset = nobs = 0
    # query everything with & without distortion after, and optionally before, the sequence
    queries = [('w2p', 0), ('p2w', 0), ('pb', None), ('read', 'bilinear'), ('remap', 'bilinear')]
    warm = [('distort', False), ('read', 'bilinear'), ('w2p', 0), ('distort', True), ('read', 'bilinear'), ('w2p', 0), ('distort', case['distort'])] if case['warm'] else []
    ops = [*warm, *case['ops'], *queries, ('distort', 'toggle'), *queries]
    pending = False
    for op, arg in ops:
        if op == 'update':
            cur['ep'] = case['eps'][arg]
            cam.update(tuple(cur['ep']['xyz']), tuple(cur['ep']['opk']))
        elif op.startswith('update_'):
            # change the position, or orientation, only
            old, new = cur['ep'] or case['eps'][0], case['eps'][arg]
            x = old['xyz']
            cur['ep'] = dict(xyz=new['xyz'], opk=old['opk']) if op == 'update_pos' else dict(xyz=[*x[:2], x[2] + 0.5 * (arg + 1)], opk=old['opk']) if op == 'update_z' else dict(xyz=x, opk=new['opk'])
            cam.update(tuple(cur['ep']['xyz']), tuple(cur['ep']['opk']))
        elif op == 'distort':
            cur['distort'] = (not cur['distort']) if arg == 'toggle' else arg
            cam.distort = cur['distort']
        elif op == 'alpha':
            cur['alpha'] = arg
            cam.alpha = arg
        elif op == 'dalpha':
            cur['alpha'] = cam.alpha = cur['alpha'] + arg
        else:
            if cur['ep'] is None and op in ('w2p', 'p2w', 'wb', 'remap'):
                # exterior not initialised
                try:
                    observe(cam, case, op, arg, im_file, np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 0.0]]))
                except CameraInitError:
                    labels.add('init-error')
                    continue
                raise Violation(f'{op} without exterior parameters did not raise CameraInitError')
            ground = ref.px_to_world(ip, cur['ep'] or case['eps'][0], np.array([[0, ip['im_size'][0] - 1.0, 2.0, 0.0], [0, ip['im_size'][1] - 1.0, 1.0, ip['im_size'][1] - 1.0]]), 2.0)[0]
            new = create_camera(**gen.camera_kwargs(ip, cur['ep']), distort=cur['distort'], alpha=cur['alpha'])
            a = observe(cam, case, op, arg, im_file, ground)
            b = observe(new, case, op, arg, im_file, ground)
            require(same(a, b), f'{op}({arg}) on a used camera differs from a new camera', history=case['ops'], cur=cur)
            require(cam.distort == new.distort and cam.alpha == new.alpha and cam.pos == new.pos, 'attributes differ')
            nobs += 1
            if pending:
                labels.add(op + '-after-change')
            if op in ('read', 'remap'):
                labels.add('undistorted-' + op if not cur['distort'] and ip['cam_type'] != 'pinhole' else op)
            continue
        pending = nobs > 0
        nset += 1
    return sorted(labels) if nset else None


SUBS = [
    Sub('history', case_hist, check_hist, 3000, 60000,
        'random camera and sequence of update/distort/alpha/query operations; after each query the result is compared with that of a new camera with the current parameters; non-trivial = the sequence changes at least one parameter'),
]
