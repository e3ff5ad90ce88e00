"""P30: what the benchmark functions state about themselves."""
import random

TAG = 'P30'
FORK = False
NAMES = ['Ackley', 'Alpine01', 'Alpine02', 'Deceptive', 'Easom', 'ExpLeastSquaresCost', 'Griewank', 'Langermann', 'LennardJones', 'Levy',
         'Michalewicz', 'Qing', 'Rana', 'Rastrigin', 'Rosenbrock', 'Schwefel', 'Shekel', 'Shubert', 'Stochastic', 'StyblinskiTang',
         'Trigonometric', 'Vincent', 'ZeroSum']
SHIFTS = ['Deceptive', 'Easom', 'Langermann', 'Schwefel', 'Shekel', 'Shubert']
BIG = 2 * 10 ** 9


def gen(seed):
    r = random.Random(f'bench{seed}')
    name = NAMES[seed % len(NAMES)]
    dims = 2 if name in ('Easom', 'Langermann') else r.choice([1, 2, 2, 3, 4]) if name == 'Shekel' else r.choice([1, 2, 2, 3, 4, 5, 5, 10])
    kw = {}
    if name == 'Shekel':
        kw['m'] = r.choice([5, 7, 10])
    if name == 'LennardJones':
        kw.update(eps=r.choice([1, 1, .5, 3]), sigma=r.choice([1, 1, .6, 1.7]))
    if name == 'Shubert':
        kw['style'] = r.choice([1, 3, 4])
    atoms = r.randint(2, 5) if name == 'LennardJones' else 0
    pts = []
    for _ in range(r.randint(5, 40)):
        z = r.random()
        if z < .35:
            pts.append(['near', r.choice([-6, -5, -4, -3, -2, -1]), [r.choice([0, 1, r.uniform(-1, 1)]) for _ in range(dims * max(1, atoms))]])
        elif z < .5:
            pts.append(['edge', 0, [r.choice([0, 1, r.random()]) for _ in range(dims * max(1, atoms))]])
        else:
            pts.append(['any', 0, [r.random() for _ in range(dims * max(1, atoms))]])
    return dict(name=name, dims=dims, atoms=atoms, kw=kw, shift=int(name in SHIFTS and r.random() < .7), pts=pts, npseed=seed % 9973,
                delay=r.choice([0, 0, 0, 0, 6]), known=0)


def num(v):
    """ Thousandths. """
    v = float(v)
    return BIG + 1 if v != v else int(max(-BIG, min(BIG, round(v * 1000))))


def stated(f, what):
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = getattr(f, what)
    return v, int(bool(w))


def run(case, scratch, ev):
    import time
    import warnings
    import numpy as np
    import glompo.benchmark_fncs as mod
    warnings.simplefilter('ignore')
    cls = getattr(mod, case['name'])
    args = ([case['atoms']] if case['atoms'] else []) + [case['dims']]

    def make(**kw):
        np.random.seed(case['npseed'])
        return cls(*args, **case['kw'], **kw)
    f = make()
    g = make(shift_positive=True) if case['shift'] else None
    b = [[float(v) for v in z] for z in f.bounds]
    mx, wx = stated(f, 'min_x')
    mf, wf = stated(f, 'min_fx')
    gf = stated(g, 'min_fx')[0] if g else None
    nofx = int(mf is None or not np.isfinite(mf))
    n = case['dims'] * max(1, case['atoms'])
    at = None
    inb = 0
    if mx is not None and not wx:
        mx = [float(v) for v in mx]
        inb = int(len(mx) == n and len(b) == n and all(lo <= v <= hi for v, (lo, hi) in zip(mx, b)))
        at = f(mx)
    ev('states', dims=int(f.dims), n=n, nb=len(b), order=int(all(lo < hi for lo, hi in b)), wx=wx if mx is not None else 1, inb=inb, at=num(at) if at is not None else 0,
       wf=wf, nofx=nofx, mf=0 if nofx else num(mf), gf=num(gf) if gf is not None else 0, gno=int(gf is None))
    mid = mx if mx is not None and not wx and len(mx) == n else [(lo + hi) / 2 for lo, hi in b]
    for kind, p, u in case['pts']:
        x = [lo + z * (hi - lo) for z, (lo, hi) in zip(u, b)] if kind != 'near' else \
            [min(hi, max(lo, m + z * 10. ** p * (hi - lo))) for z, m, (lo, hi) in zip(u, mid, b)]
        a = np.array(x)
        k = a.copy()
        np.random.seed(case['npseed'] + 1)
        v = f(a)
        np.random.seed(case['npseed'] + 1)
        w = f(list(x))
        np.random.seed(case['npseed'] + 1)
        s = g(x) if g else None
        ev('value', v=num(v), w=num(w), one=int(np.ndim(v) == 0), kept=int(bool(np.all(a == k))), s=num(s) if g else 0)
    for _, _, u in case['pts'] if hasattr(f, 'jacobian') else []:  # Steps of a millionth along each axis
        x = np.array([lo + z * (hi - lo) for z, (lo, hi) in zip(u, b)])
        h = 1e-6 * case['kw'].get('sigma', 1)
        steps = np.eye(n) * h
        num_grad = np.array([(f(x + q) - f(x - q)) / (2 * h) for q in steps])
        grad = np.array(f.jacobian(x))
        r = x.reshape(case['atoms'], case['dims'])
        near = min(np.linalg.norm(r[i] - r[j]) for i in range(len(r)) for j in range(i))
        if near > .3 * case['kw'].get('sigma', 1):
            scale = np.abs(num_grad).max() + 1e-3
            ev('gradient', n=int(grad.size), off=num(np.abs(grad - num_grad).max() / scale) if grad.shape == num_grad.shape else BIG)
    if case['delay']:
        d = make(delay=case['delay'] / 1000)
        t = time.monotonic()
        d(mid)
        ev('slept', ms=int((time.monotonic() - t) * 1000 + .5), want=case['delay'], delay=int(d.delay * 1000 + .5))
