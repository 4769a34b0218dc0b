"""C02: derivative and inverse partners of the built-in functions, against the base functions themselves."""
from hypothesis import strategies as st
from harness import Suite, need, Violation
import dsx, math, meshgen
from dsx import ds
import mathref as R
from mathref import mp, M
import c01
from c01 import logmag, uni, sp, near, one_minus, signed1, fermieta, fermir, expdom, sval, setup, column

PROPERTY = 'C02'
RULE = ('A case is one pair of functions, an evaluation form and 4..16 points of the pair domain. Derivative pairs: in extended precision the '
        'partner must equal the central difference of the base function (computed by the simulator in 34 digits, so the difference is good to '
        'about 1e-17), and the double value must equal the extended one. Inverse pairs: applying one after the other recovers the argument within '
        'its conditioning in both precisions. Non-trivial: at least 3 points compared.')
ASSUMPTIONS = ['points whose difference stencil crosses the published switch-over point of a piecewise approximation are skipped']

BE = R.BREAK
EB = R.invfermi(R.BREAK)


def d(base, der, dom, L, k=50, cond=None, kink=None, two=False, lim=None):
    return dict(base=base, der=der, dom=dom, L=L, k=k, cond=cond or (lambda x, s: 0), kink=kink or (lambda x, s: None), two=two, lim=lim)


pole1 = lambda x, s: (1 - abs(x)) if abs(x) > 0.5 else 0.5
erfdom = st.one_of(uni(-5, 5), logmag(-20, 0.6), sp(0, 1))
gg = st.one_of(uni(0.001, 0.999), logmag(-100, -0.3, False), logmag(-6, -1, False).map(lambda t: 1 - t))
DER = {
    'B': d('B', 'dBdx', expdom.filter(lambda x: abs(x) < 600), lambda x, s: max(1.0, abs(x) * 0.01) if abs(x) < 50 else 1.0, k=800),
    'Fermi': d('Fermi', 'dFermidx', st.one_of(uni(-40, 60), logmag(-5, 2), logmag(-3, 20, False), near(4.847), sp(0, 30, 33)),
               lambda x, s: max(1.0, x), k=100, cond=lambda x, s: 16 * min(abs(x), 1e3), kink=lambda x, s: float(EB)),
    'InvFermi': d('InvFermi', 'dInvFermidx', fermir.filter(lambda x: 1e-200 < x < 1e40), lambda x, s: x, k=60, cond=lambda x, s: abs(math.log(x)), kink=lambda x, s: float(BE)),
    'erf': d('erf', 'derfdx', erfdom, lambda x, s: 0.3 / max(1, abs(x)), cond=lambda x, s: 8 * x * x, lim=lambda x, s: math.exp(-x * x) * 1e9),
    'erfc': d('erfc', 'derfcdx', st.one_of(uni(-5, 20), logmag(-20, 1)).filter(lambda x: x > -5), lambda x, s: 0.3 / max(1, abs(x)), cond=lambda x, s: 8 * x * x,
              lim=lambda x, s: math.exp(-x * x) * 1e9 if x < 0 else 1),
    'erf_inv': d('erf_inv', 'derf_invdx', signed1, lambda x, s: pole1(x, s), cond=lambda x, s: 60),
    'erfc_inv': d('erfc_inv', 'derfc_invdx', st.one_of(logmag(-200, 0, False), uni(0.01, 1.99), sp(1)), lambda x, s: min(x, 2 - x), cond=lambda x, s: 16 * abs(math.log(min(x, 2 - x)) - 1)),
    'gfi': d('gfi', 'dgfidx', uni(-60, 15), lambda x, s: 0.3 * s / (1 + abs(x) / s), k=60, two=True,
             cond=lambda x, s: 16 * (abs(x) + s * s + x * x / s / s), kink=lambda x, s: -s * s, lim=lambda x, s: math.exp(-max(x, 0)**2 / (s * s)) * 1e9),
    'igfi': d('igfi', 'digfidx', gg, lambda x, s: min(x, 1 - x), k=1e6, two=True, kink=lambda x, s: 0.5 * math.exp(-s * s / 2), cond=lambda x, s: 1e5 / (1 - x)),
}


@st.composite
def strat(draw):
    name = draw(st.sampled_from(sorted(DER)))
    D = DER[name]
    pts = draw(st.lists(st.tuples(D['dom'], sval).map(list), min_size=4, max_size=16))
    return {'f': name, 'form': draw(st.sampled_from(['node', 'edge', 'param'])), 'pts': pts}


def values(ext, form, cols, expr):
    """expr uses the column names in cols; returns one value per point for every expression in expr"""
    n = len(next(iter(cols.values())))
    setup(n, ext)
    out = []
    if form == 'param':
        for e in expr:
            r = []
            for i in range(n):
                for c, v in cols.items():
                    ds.set_parameter(device='d', region='r0', name=c, value=v[i])
                ds.node_model(device='d', region='r0', name='res', equation=e)
                r.append(ds.get_node_model_values(device='d', region='r0', name='res')[0])
            out.append(r)
        return out
    for c, v in cols.items():
        column(c, v, max(n, 2))
        if form == 'edge':
            ds.edge_from_node_model(device='d', region='r0', node_model=c)
    for e in expr:
        if form == 'node':
            ds.node_model(device='d', region='r0', name='res', equation=e)
            out.append(list(ds.get_node_model_values(device='d', region='r0', name='res'))[:n])
        else:
            r = []
            for q in '01':
                ee = e
                for c in cols:
                    ee = ee.replace(c, c + '@n' + q)
                ds.edge_model(device='d', region='r0', name='res' + q, equation=ee)
                r.append(list(ds.get_edge_model_values(device='d', region='r0', name='res' + q)))
            out.append((r[0] + [r[1][-1]])[:n])
    return out


def run(case, ctx):
    D = DER[case['f']]
    base, der = D['base'], D['der']
    pts = []
    for x, s in case['pts']:
        h = D['L'](x, s) * 1e-9
        h = 2.0 ** math.floor(math.log2(h))
        k = D['kink'](x, s)
        if k is not None and abs(x - k) < 4 * h:
            continue
        pts.append((x, s, h))
    if len(pts) < 2:
        return
    cols = {'xx': [p[0] for p in pts], 'hh': [p[2] for p in pts]}
    a = ''
    if D['two']:
        cols['ss'] = [p[1] for p in pts]
        a = ', ss'
    dv = '%s(xx%s)' % (der, a)
    df = '((%s(xx+hh%s) - %s(xx-hh%s))/(2*hh))' % (base, a, base, a)
    fd, de = values(True, case['form'], cols, [df, dv])
    rel, = values(True, case['form'], cols, ['%s - %s' % (dv, df)])
    (dd,) = values(False, case['form'], {k: v for k, v in cols.items() if k != 'hh'}, [dv])
    done = 0
    for i, (x, s, h) in enumerate(pts):
        if abs(de[i]) < 1e-250:
            continue
        where = '%s(%r%s) [%s]' % (der, x, ', %r' % s if D['two'] else '', case['form'])
        e = abs(rel[i]) / abs(de[i])
        lim = 1e-13
        if D['lim'] is not None and D['lim'](x, s) < 1:
            lim = 1e-13 / max(D['lim'](x, s), 1e-300)
        if lim < 1e-3:
            need(e <= lim, '%s = %r but the difference quotient of %s is %r (extended, relative difference %.3g)', where, de[i], base, fd[i], e)
        tol = (D['k'] + D['cond'](x, s)) * R.EPSD
        need(abs(dd[i] - de[i]) <= tol * abs(de[i]), '%s = %r in double, %r in extended', where, dd[i], de[i])
        done += 1
    ctx.nontrivial(done >= 3)
    ctx.count('points', done)


# outer(inner(x)) == x ; err = |x-independent conditioning|: |outer'(y) * y| eps
def cond_inv(inner, dinner):
    """error of the argument recovered from a rounded function value: |f / f'|"""
    return lambda x, s: abs(float(inner(x, s) / dinner(x, s)))


tsp = R.TSP
INV = {
    'InvFermi(Fermi)': ('InvFermi(Fermi(xx))', st.one_of(uni(-40, 60), logmag(-5, 2.5), sp(0, -600, 30), near(4.847)), lambda x, s: 1 + min(abs(x), 1e3) ** 0 + abs(x), 1),
    'Fermi(InvFermi)': ('Fermi(InvFermi(xx))', fermir.filter(lambda x: 1e-200 < x < 1e30), lambda x, s: abs(x) * (4 + abs(math.log(x)) * 3), 1),
    'erf_inv(erf)': ('erf_inv(erf(xx))', st.one_of(uni(-5.5, 5.5), logmag(-20, 0.5)), lambda x, s: abs(x) + min(1, abs(x)) * math.exp(x * x), 1),
    'erf(erf_inv)': ('erf(erf_inv(xx))', signed1, lambda x, s: abs(x), 4),
    'erfc_inv(erfc)': ('erfc_inv(erfc(xx))', st.one_of(uni(-5.5, 25), logmag(-10, 1)).filter(lambda x: x > -5.5), lambda x, s: 1 + abs(x) + (math.exp(x * x) if x < 0 else 0), 1),
    'erfc(erfc_inv)': ('erfc(erfc_inv(xx))', st.one_of(logmag(-200, 0.3, False), uni(0.01, 1.99)).filter(lambda x: 0 < x < 2), lambda x, s: abs(x) * (4 + 4 * abs(math.log(min(x, 2 - x)))) + 1e-16, 1),
    'igfi(gfi)': ('igfi(gfi(xx, ss), ss)', uni(-60, 25), lambda x, s: 4 * (abs(x) + s * s + abs(float(R.gfi(M(x), M(s)) / R.dgfi(M(x), M(s))))), 1),
    'gfi(igfi)': ('gfi(igfi(xx, ss), ss)', gg, lambda x, s: 8 * x * (4 + abs(math.log(x)) + s * s) * 4, 4),
}


@st.composite
def inv_strat(draw):
    name = draw(st.sampled_from(sorted(INV)))
    pts = draw(st.lists(st.tuples(INV[name][1], sval).map(list), min_size=4, max_size=16))
    return {'f': name, 'ext': draw(st.booleans()), 'form': draw(st.sampled_from(['node', 'edge', 'param'])), 'pts': pts}


def run_inv(case, ctx):
    e, dom, cond, k = INV[case['f']]
    ext = case['ext']
    eps = R.EPSQ if ext else R.EPSD
    lim = 1e-7 if not ext else 1e-9
    pts = []
    for x, s in case['pts']:
        c = cond(x, s)
        k0 = {'InvFermi(Fermi)': EB, 'Fermi(InvFermi)': BE}.get(case['f'])
        if k0 is not None and abs(x - float(k0)) < 1e-9:
            continue        # the two published branches differ by some 1e-15 there
        if c * eps * 40 < lim * max(abs(x), 1e-30) or case['f'] not in ('igfi(gfi)', 'erf_inv(erf)', 'erfc_inv(erfc)'):
            pts.append((x, s, c))
    if len(pts) < 2:
        return
    cols = {'xx': [p[0] for p in pts]}
    if 'ss' in e:
        cols['ss'] = [p[1] for p in pts]
        if case['f'] == 'igfi(gfi)':
            # 1e-12/1e-31 is the stated relative error of the iteration
            k = 40
    r, v = values(ext, case['form'], cols, ['%s - xx' % e, e])
    for (x, s, c), g, w in zip(pts, r, v):
        tol = 40 * k * eps * c * (200 if ext else 1) + (1e-31 if ext else 1e-280) * 0
        need(abs(g) <= tol, '%s at %r%s gives %r: off by %g, allowed %g (%s, %s)', e, x, ', s=%r' % s if 'ss' in e else '', w, g, tol,
             'extended' if ext else 'double', case['form'])
    ctx.nontrivial(len(pts) >= 3)
    ctx.count('points', len(pts))


# derivative of an inverse is the reciprocal of the derivative
REC = {'Fermi': ('dFermidx(xx)*dInvFermidx(Fermi(xx))', st.one_of(uni(-40, 60), logmag(-5, 2.5))),
       'erf': ('derfdx(xx)*derf_invdx(erf(xx))', st.one_of(uni(-3, 3), logmag(-10, 0.4))),
       'erfc': ('derfcdx(xx)*derfc_invdx(erfc(xx))', st.one_of(uni(-3, 20), logmag(-10, 0.4)).filter(lambda x: x > -3)),
       'gfi': ('dgfidx(xx, ss)*digfidx(gfi(xx, ss), ss)', uni(-60, 6))}


@st.composite
def rec_strat(draw):
    name = draw(st.sampled_from(sorted(REC)))
    pts = draw(st.lists(st.tuples(REC[name][1], sval).map(list), min_size=4, max_size=16))
    return {'f': name, 'ext': draw(st.booleans()), 'form': draw(st.sampled_from(['node', 'edge', 'param'])), 'pts': pts}


def run_rec(case, ctx):
    e, dom = REC[case['f']]
    pts = case['pts']
    if case['f'] == 'gfi':
        pts = [(x, s) for x, s in pts if x < 3 * s]
    if len(pts) < 2:
        return
    cols = {'xx': [p[0] for p in pts]}
    if 'ss' in e:
        cols['ss'] = [p[1] for p in pts]
    (r,) = values(case['ext'], case['form'], cols, ['%s - 1' % e])
    for (x, s), g in zip(pts, r):
        lim = 1e-9 if not case['ext'] else 1e-24
        need(abs(g) <= lim, '%s - 1 = %g at %r, s=%r (%s)', e, g, x, s, 'extended' if case['ext'] else 'double')
    ctx.nontrivial(len(pts) >= 3)


SUITES = [Suite('derivative', strat, run, quick=2500, thorough=30000), Suite('inverse', inv_strat, run_inv, quick=3500, thorough=40000),
          Suite('reciprocal', rec_strat, run_rec, quick=1500, thorough=12000)]
