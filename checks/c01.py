"""C01: built-in functions against 60 digit reference values, in double and extended precision."""
from hypothesis import strategies as st
from harness import Suite, need, Violation
import dsx, math, meshgen
from dsx import ds
import mathref as R
from mathref import mp, M

PROPERTY = 'C01'
RULE = ('A case is one function, one precision, one evaluation form (node values or parameters) and 4..24 argument tuples drawn from the '
        'function domain (log-uniform magnitudes of both signs, uniform ranges, switch-over and special points). Every value is compared '
        'with a 60 digit reference; out-of-domain cases must raise. Non-trivial: at least 3 points compared, or an out-of-domain argument.')
ASSUMPTIONS = ['Fermi and Gauss-Fermi functions are specified by their published closed-form approximations (Joyce-Dixon with Sommerfeld tail, '
               'Paasch-Scheinert); a loose comparison with the true integrals is made too',
               'values whose reference is outside 1e-290..1e300 are only checked for magnitude']


def f64(x):
    return float(x)


def logmag(lo, hi, neg=True):
    """log-uniform magnitudes, built from integers so that shrinking gives simple numbers"""
    s = st.integers(int(lo * 1000), int(hi * 1000)).map(lambda k: float('%.6g' % 10 ** (k / 1000.0)))
    s = st.tuples(s, st.integers(0, 999)).map(lambda t: t[0] * (1 + t[1] * 1e-6))
    return st.tuples(s, st.booleans()).map(lambda t: -t[0] if t[1] else t[0]) if neg else s


def uni(lo, hi):
    return st.integers(0, 10**9).map(lambda k: lo + (hi - lo) * (k / 1e9))


def sp(*v):
    return st.sampled_from([float(x) for x in v])


def near(*v):
    return st.tuples(st.sampled_from(v), logmag(-16, -1)).map(lambda t: t[0] * (1 + t[1]) if t[0] else t[1])


real = st.one_of(logmag(-30, 30), uni(-10, 10), sp(0, 1, -1, 2, -2, 0.5))
expdom = st.one_of(logmag(-20, 2.84), uni(-40, 40), sp(0, 1, -1, 700, -700), near(36.04, -36.04, 37.4, -37.4, 77.0, -77.0, 0.01, -0.01))
anyfin = st.one_of(real, logmag(-300, 300), sp(0, 1e308, -1e308, 5e-324))
one_minus = st.one_of(logmag(-15, -0.0005, False).map(lambda d: 1 - d), logmag(-20, -0.001, False), sp(0.5, 0.25, 0))
signed1 = st.tuples(one_minus, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])
fermieta = st.one_of(uni(-40, 60), logmag(-5, 2.8), logmag(-3, 60, False), near(4.847, 2.0), sp(0, -600, 30, 31, 32, 33, 100))
fermir = st.one_of(logmag(-280, 60, False), uni(0.01, 30), near(8.46296036621705))
sval = st.one_of(uni(0.3, 10), sp(1, 2, 4, 8, 0.5))


def ifelse(c, a, b):
    return a if c != 0 else b


def tf(x):
    return M(1) if x else M(0)


# name -> (arity, reference, argument strategies, relative tolerance in eps(double), conditioning(args, ref) in eps)
def F(ref, *dom, k=8, cond=None, exact=False):
    return dict(ref=ref, dom=dom, k=k, cond=cond, exact=exact)


nz = real.filter(lambda x: x != 0)
FN = {
    'exp': F(mp.exp, expdom), 'log': F(mp.log, st.one_of(logmag(-300, 300, False), near(1.0), sp(1, 5e-324, 1e308)), k=4),
    'abs': F(abs, anyfin, exact=True), 'B': F(R.bern, expdom), 'dBdx': F(R.dbern, expdom, k=800),
    'step': F(lambda x: tf(x >= 0), anyfin, exact=True), 'sgn': F(lambda x: M(1) if x >= 0 else M(-1), anyfin, exact=True),
    'acosh': F(mp.acosh, st.one_of(logmag(-15, 100, False).map(lambda d: 1 + d), sp(1, 2))),
    'asinh': F(mp.asinh, st.one_of(logmag(-30, 100), uni(-10, 10), sp(0))),
    'atanh': F(mp.atanh, signed1), 'cosh': F(mp.cosh, expdom), 'sinh': F(mp.sinh, expdom), 'tanh': F(mp.tanh, expdom),
    'erf': F(mp.erf, st.one_of(logmag(-30, 1.5), uni(-6, 6), sp(0, 0.5, 1, 2))),
    'erfc': F(mp.erfc, st.one_of(logmag(-30, 1.4), uni(-6, 25), sp(0, 0.5, 1, 2))),
    'erf_inv': F(R.erf_inv, signed1), 'erfc_inv': F(R.erfc_inv, st.one_of(logmag(-200, 0.3, False), near(1.0), sp(1, 0.5, 1.5)).filter(lambda x: 0 < x < 2)),
    'derfdx': F(lambda x: R.TSP * mp.exp(-x * x), st.one_of(logmag(-10, 1.4), uni(-6, 6)), cond=lambda a, r: 4 * a[0] ** 2),
    'derfcdx': F(lambda x: -R.TSP * mp.exp(-x * x), st.one_of(logmag(-10, 1.4), uni(-6, 6)), cond=lambda a, r: 4 * a[0] ** 2),
    'derf_invdx': F(lambda y: mp.exp(R.erf_inv(y) ** 2) / R.TSP, signed1, cond=lambda a, r: 8 * float(R.erf_inv(M(a[0]))) ** 2),
    'derfc_invdx': F(lambda y: -mp.exp(R.erfc_inv(y) ** 2) / R.TSP, logmag(-200, 0.3, False).filter(lambda x: 0 < x < 2),
                     cond=lambda a, r: 8 * float(R.erfc_inv(M(a[0]))) ** 2),
    'Fermi': F(R.fermi, fermieta, k=40, cond=lambda a, r: 4 * min(abs(a[0]), 1e3)), 'InvFermi': F(R.invfermi, fermir, k=16, cond=lambda a, r: 40 / max(abs(float(r)), 1e-25) + abs(math.log(a[0]))),
    'dFermidx': F(R.dfermi, fermieta, k=80, cond=lambda a, r: 8 * min(abs(a[0]), 1e3)), 'dInvFermidx': F(R.dinvfermi, fermir, k=40, cond=lambda a, r: abs(math.log(a[0]))),
    '!': F(lambda x: tf(x == 0), anyfin, exact=True),
    'vec_sum': F(lambda x: x, anyfin, exact=True), 'vec_max': F(lambda x: x, anyfin, exact=True), 'vec_min': F(lambda x: x, anyfin, exact=True),
    'min': F(min, anyfin, anyfin, exact=True), 'max': F(max, anyfin, anyfin, exact=True),
    '&&': F(lambda a, b: tf(a != 0 and b != 0), anyfin, anyfin, exact=True), '||': F(lambda a, b: tf(a != 0 or b != 0), anyfin, anyfin, exact=True),
    '==': F(lambda a, b: tf(a == b), anyfin, anyfin, exact=True), '<': F(lambda a, b: tf(a < b), anyfin, anyfin, exact=True),
    '<=': F(lambda a, b: tf(a <= b), anyfin, anyfin, exact=True), '>': F(lambda a, b: tf(a > b), anyfin, anyfin, exact=True),
    '>=': F(lambda a, b: tf(a >= b), anyfin, anyfin, exact=True), '!=': F(lambda a, b: tf(a != b), anyfin, anyfin, exact=True),
    'ifelse': F(ifelse, st.one_of(sp(0, 1, -1, 0.5, 2), anyfin), anyfin, anyfin, exact=True),
    'kahan3': F(lambda a, b, c: a + b + c, real, real, real, k=4, cond=lambda a, r: 0),
    'kahan4': F(lambda a, b, c, d: a + b + c + d, real, real, real, real, k=4, cond=lambda a, r: 0),
    'dot2d': F(lambda a, b, c, d: a * c + b * d, real, real, real, real, k=4,
               cond=lambda a, r: 4 * (abs(a[0] * a[2]) + abs(a[1] * a[3])) / max(float(abs(r)), 1e-300)),
    '+': F(lambda a, b: a + b, real, real, k=1), '-': F(lambda a, b: a - b, real, real, k=1), '*': F(lambda a, b: a * b, real, real, k=1),
    '/': F(lambda a, b: a / b, real, nz, k=1),
    'gfi': F(R.gfi, uni(-60, 30), sval, k=40, cond=lambda a, r: 8 * (abs(a[0]) + a[1] ** 2 + a[0] ** 2 / a[1] ** 2)),
    'dgfidx': F(R.dgfi, uni(-60, 30), sval, k=40, cond=lambda a, r: 8 * (abs(a[0]) + a[1] ** 2 + a[0] ** 2 / a[1] ** 2)),
}
INFIX = {'&&', '||', '==', '<', '<=', '>', '>=', '!=', '+', '-', '*', '/'}


def powcond(a, r):
    return 2 * abs(a[1] * (math.log(abs(a[0])) if a[0] else 0)) + 2


FN['pow'] = F(lambda a, b: mp.power(a, b), st.one_of(logmag(-20, 20, False), uni(0.1, 10)), st.one_of(uni(-10, 10), sp(0.5, -0.5, 1, 2, 3, -1, -2, 0, 10)), k=4, cond=lambda a, r: 4 * abs(a[1]) + 2)
FN['powi'] = F(lambda a, b: mp.power(a, b), nz, st.integers(-8, 8).map(float), k=4, cond=lambda a, r: 4 * abs(a[1]) + 2)

# equal arguments are interesting for comparisons
PAIR = {'==', '<', '<=', '>', '>=', '!=', 'min', 'max'}

# arguments outside the domain: must raise
BAD = [('log', st.one_of(logmag(-30, 30, False).map(lambda x: -x), sp(0))), ('acosh', st.one_of(uni(-5, 0.999), sp(0))),
       ('atanh', st.one_of(uni(1.001, 5), sp(1, -1, -2))), ('erf_inv', uni(1.001, 5)), ('erfc_inv', st.one_of(uni(2.001, 5), uni(-3, -0.001))),
       ('exp', uni(710, 1e5)), ('sinh', uni(711, 1e5)), ('cosh', uni(711, 1e5)), ('InvFermi', st.one_of(uni(-3, -1e-3), sp(0))),
       ('recip', sp(0)), ('powneg', uni(-5, -0.1)), ('pow0', sp(-1, -2, -0.5)), ('mulover', uni(1e200, 1e300)), ('mulover3', uni(1e200, 1e300)), ('addover', uni(0.9e299, 1.7e299)), ('unknownf', uni(-1, 1)),
       ('erf_inv_pole', sp(1, -1)), ('erfc_inv_pole', sp(0, 2))]
BADEXPR = {'recip': '1/xx', 'powneg': 'pow(xx, 0.5)', 'pow0': 'pow(0*xx, xx)', 'mulover': 'xx*xx', 'mulover3': 'xx*xx*y', 'addover': '(xx*1e9 + xx*1e9) + x', 'erf_inv_pole': 'erf_inv(xx)', 'erfc_inv_pole': 'erfc_inv(xx)'}
QUADOK = {'exp', 'sinh', 'cosh', 'mulover', 'mulover3', 'addover'}        # do not overflow in extended precision


@st.composite
def point(draw, name):
    f = FN[name]
    a = [draw(d) for d in f['dom']]
    if name in PAIR and draw(st.booleans()):
        a[1] = a[0]
    if name in ('kahan3', 'kahan4', '+', '-') and draw(st.booleans()):
        a[-1] = -a[0] * draw(st.sampled_from([1.0, 1.0 + 2**-52, 1 + 1e-9]))
    return a


@st.composite
def strat(draw):
    name = draw(st.sampled_from(sorted(FN)))
    ext = draw(st.booleans())
    form = draw(st.sampled_from(['node', 'node', 'node', 'param', 'edge']))
    pts = draw(st.lists(point(name), min_size=4, max_size=24))
    return {'f': name, 'ext': ext, 'form': form, 'pts': pts}


@st.composite
def bad_strat(draw):
    name, s = draw(st.sampled_from(BAD))
    return {'bad': name, 'x': draw(s), 'ext': draw(st.booleans()), 'form': draw(st.sampled_from(['node', 'param'])), 'pos': draw(st.integers(0, 3))}


def call(name, args):
    if name == 'powi' or name == 'pow':
        return 'pow(%s)' % ', '.join(args)
    if name in INFIX:
        return '(%s %s %s)' % (args[0], name, args[1])
    if name == '!':
        return '(!%s)' % args[0]
    return '%s(%s)' % (name, ', '.join(args))


def setup(n, ext):
    dsx.reset()
    if ext:
        for k in ('extended_model', 'extended_equation', 'extended_solver'):
            ds.set_parameter(name=k, value=True)
    meshgen.make_device(ds, meshgen.line_mesh([float(i) for i in range(max(n, 2))]), device='d')


def column(name, vals, n):
    ds.node_solution(device='d', region='r0', name=name)
    v = [float(x) for x in vals] + [float(vals[0])] * (n - len(vals))
    ds.set_node_values(device='d', region='r0', name=name, values=v)


def run(case, ctx):
    name, ext, pts, form = case['f'], case['ext'], case['pts'], case['form']
    f = FN[name]
    refs = []
    for p in pts:
        with mp.workdps(60):
            refs.append(M(f['ref'](*[M(x) for x in p])))
    eps = R.EPSQ if ext else R.EPSD
    # only representable results are evaluated (overflow is the other suite)
    keep = [i for i, r in enumerate(refs) if abs(r) < M('1e300')]
    pts = [pts[i] for i in keep]
    refs = [refs[i] for i in keep]
    if not pts:
        return
    n = max(len(pts), 2)
    na = len(pts[0])
    if name.startswith('vec_') and form != 'param':
        # reductions over all nodes (or edges) of the region
        if form == 'edge':
            form = 'node'
        col = [M(p[0]) for p in pts] + [M(pts[0][0])] * (n - len(pts))
        red = {'vec_sum': mp.fsum(col), 'vec_max': max(col), 'vec_min': min(col)}[name]
        if abs(red) > M('1e300'):
            return
        refs = [red] * len(pts)
        f = dict(f, exact=name != 'vec_sum', k=2, cond=lambda a, r: 2 * n * float(mp.fsum(map(abs, col)) / abs(r)))
    setup(n, ext)
    if form == 'param':
        got, resid = [], []
        for i, p in enumerate(pts):
            for j, v in enumerate(p):
                ds.set_parameter(device='d', region='r0', name='p%d_%d' % (i, j), value=v)
            e = call(name, ['p%d_%d' % (i, j) for j in range(na)])
            r = float(refs[i])
            ds.node_model(device='d', region='r0', name='f%d' % i, equation='%s' % e)
            v = ds.get_node_model_values(device='d', region='r0', name='f%d' % i)
            need(len(set(map(dsx.bits, v))) == 1, '%s of a parameter is not uniform: %r', e, v[:4])
            got.append(v[0])
            if ext:
                ds.set_parameter(device='d', region='r0', name='hi%d' % i, value=r)
                ds.set_parameter(device='d', region='r0', name='lo%d' % i, value=float(refs[i] - M(r)))
                ds.node_model(device='d', region='r0', name='e%d' % i, equation='(%s - hi%d) - lo%d' % (e, i, i))
                resid.append(ds.get_node_model_values(device='d', region='r0', name='e%d' % i)[0])
    else:
        cols = ['x%d' % j for j in range(na)]
        for j, c in enumerate(cols):
            column(c, [p[j] for p in pts], n)
        if ext:
            column('hi', [float(r) for r in refs], n)
            column('lo', [float(r - M(float(r))) for r in refs], n)
        e = call(name, cols)
        if form == 'node':
            ds.node_model(device='d', region='r0', name='f', equation=e)
            got = ds.get_node_model_values(device='d', region='r0', name='f')[:len(pts)]
            if ext:
                ds.node_model(device='d', region='r0', name='e', equation='(%s - hi) - lo' % e)
                resid = ds.get_node_model_values(device='d', region='r0', name='e')[:len(pts)]
        else:
            for c in cols + (['hi', 'lo'] if ext else []):
                ds.edge_from_node_model(device='d', region='r0', node_model=c)
            e0 = call(name, [c + '@n0' for c in cols])
            e1 = call(name, [c + '@n1' for c in cols])
            ds.edge_model(device='d', region='r0', name='f0', equation=e0)
            ds.edge_model(device='d', region='r0', name='f1', equation=e1)
            g0 = ds.get_edge_model_values(device='d', region='r0', name='f0')
            g1 = ds.get_edge_model_values(device='d', region='r0', name='f1')
            got = (list(g0) + [g1[-1]])[:len(pts)]
            if ext:
                ds.edge_model(device='d', region='r0', name='r0', equation='(%s - hi@n0) - lo@n0' % e0)
                ds.edge_model(device='d', region='r0', name='r1', equation='(%s - hi@n1) - lo@n1' % e1)
                resid = (list(ds.get_edge_model_values(device='d', region='r0', name='r0'))
                         + [ds.get_edge_model_values(device='d', region='r0', name='r1')[-1]])[:len(pts)]
    done = 0
    for i, (p, r, g) in enumerate(zip(pts, refs, got)):
        where = '%s%r [%s, %s]' % (name, tuple(p), 'extended' if ext else 'double', form)
        need(math.isfinite(g), '%s gave %r', where, g)
        if f['exact']:
            need(M(g) == r, '%s = %r, expected %s', where, g, mp.nstr(r, 20))
            done += 1
            continue
        if abs(r) < M('1e-290'):
            if r == 0:
                lim = 1e-280
                if name in ('kahan3', 'kahan4'):
                    lim = 4 * R.EPSQ * sum(map(abs, p))
                elif name in ('dot2d',):
                    lim = 8 * R.EPSD * abs(p[0] * p[2])
                need(abs(g) <= lim, '%s = %r, expected 0', where, g)
            else:
                need(abs(g) < 1e-280, '%s = %r, expected %s', where, g, mp.nstr(r, 20))
            continue
        c = f['cond'](p, r) if f['cond'] else 0
        if name in ('kahan3', 'kahan4'):
            # the sum is formed with 113 bits
            c = 4 * sum(map(abs, p)) / float(abs(r)) * (1 if ext else R.EPSQ / R.EPSD)
        tol = (f['k'] + c) * R.EPSD
        err = abs(M(g) - r) / abs(r)
        need(err <= tol, '%s = %r, expected %s: relative error %s', where, g, mp.nstr(r, 20), mp.nstr(err, 3))
        if ext:
            tolq = (f['k'] + c + 50) * R.EPSQ * 20
            e2 = abs(resid[i]) / float(abs(r))
            need(e2 <= tolq, '%s is off by relative %g in extended precision', where, e2)
        done += 1
        if name in ('Fermi',) and -20 < p[0] < 30:
            t = float(-mp.fp.polylog(1.5, -math.exp(p[0])).real) if p[0] < 0 else None
            if t:
                need(abs(g - t) < 5e-3 * t, '%s = %r but the integral is %r', where, g, t)
    ctx.nontrivial(done >= 3)
    ctx.count('values', done)


def run_bad(case, ctx):
    name, x, ext = case['bad'], case['x'], case['ext']
    if ext and name in QUADOK:
        ext = False
    setup(4, ext)
    e = BADEXPR.get(name, name + '(xx)')
    safe = 0.5
    if name in ('acosh', 'pow0'):
        safe = 1.5
    if case['form'] == 'node':
        v = [safe] * 4
        v[case['pos']] = x
        column('xx', v, 4)
    else:
        ds.set_parameter(name='xx', value=x)
    try:
        ds.node_model(device='d', region='r0', name='f', equation=e)
        got = ds.get_node_model_values(device='d', region='r0', name='f')
    except ds.error:
        got = None
    need(got is None, '%s at x=%r (extended=%s, %s) did not raise, values %r', e, x, ext, case['form'], got)
    # the session still evaluates
    ds.node_model(device='d', region='r0', name='g', equation='exp(0.5)')
    need(abs(ds.get_node_model_values(device='d', region='r0', name='g')[0] - math.exp(0.5)) < 1e-15, 'later evaluation broken')
    ctx.nontrivial()


SUITES = [Suite('values', strat, run, quick=11000, thorough=120000), Suite('domain', bad_strat, run_bad, quick=2000, thorough=15000)]
