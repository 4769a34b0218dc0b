"""C13: for random nonlinear equation systems whose derivative models come from the simulator's own symbolic differentiation, the assembled matrix times a direction is compared with the numerical derivative of the assembled residual along it."""
from hypothesis import strategies as st
import random
import numpy as np
from harness import Suite, need
import dsx
from dsx import ds
import c09
from c12 import Region

PROPERTY = 'C13'
RULE = ('A case is one or two devices from random meshes (1D, 2D, 3D), 1 to 3 variables per region, models built on each other from smooth nonlinear functions (node, edge, edge average, Scharfetter-Gummel, element from edge, element pairs, contact, interface, circuit), '
        'each with derivative models made with diff(), equations using random subsets of all terms including contacts with circuit nodes, interfaces of three kinds and time terms. Along 8 random directions, dense and sparse, the product of the matrix with the direction '
        'equals the Richardson-extrapolated central difference of the right hand side (both static and dynamic parts), and every model has the same values after the assembly as when it is evaluated by itself. Non-trivial: the matrix has nonzero off-diagonal entries and the residual changed along the direction.')
ASSUMPTIONS = ['all derivative models are defined, under the names that diff() gives them', 'expressions are smooth and values moderate; directions along which the differences do not converge are counted and judged only within the error they show']


@st.composite
def strat(draw):
    ms = [draw(c09.mesh_case())]
    if draw(st.integers(0, 7)) == 0:
        ms.append(draw(c09.mesh_case()))
    for i, m in enumerate(ms):
        m['dname'] = 'd%d' % i
        m['scale'] = 1.0
    return dict(m=ms, seed=draw(st.integers(1, 2**30)), circ=draw(st.sampled_from([0, 1, 1, 2])), dens=draw(st.sampled_from([0.3, 0.6, 0.9])), amp=draw(st.sampled_from([0.1, 1.0, 3.0])), ext=draw(st.sampled_from([0, 0, 0, 1])), simp=draw(st.booleans()))


FORMS = ['atanh(0.5*tanh({a}))', 'acosh(1.5+{a}*{a})', 'erf_inv(0.5*tanh({a}))', 'erfc_inv(1+0.5*tanh({a}))', 'igfi(0.4+0.1*tanh({a}),1.0)', 'abs(1+{a}*{a})', 'min({a},{a}+1)', 'max({a}+1,{a})', 'kahan3({b},{c},{a})', 'kahan4({c},{a},{c},{b})', 'pow(1.2+{a}*{a},tanh({b}))', 'pow(par,{a})', 'par*{a}', '{a}*pow({c},{b})', '{a}^3', 'pow(1.3+{a}^2,-0.5)', '({a}+{b})', '({a}-{c}*{b})', '({a}*{b})', '{c}*exp(0.3*{a})', 'log(1.5+{a}*{a})', 'pow(1.2+{a}*{a},{c})', 'B({c}*{a})', '{a}/(1.1+{b}^2)', 'tanh({a})', 'asinh({a}-{b})', '({a})^2', 'erf({a})', 'erfc({a})', '(-{a})',
         'Fermi({c}*{a})', 'gfi(0.5*{a},1.0)', '{c}*cosh(0.2*{a})', 'sinh(0.2*{a})', 'kahan3({a},{b},{c})', 'kahan4({a},{b},{c},{a})', 'dot2d({a},{b},{c},{a})', 'exp(-{a}*{a})', 'if({a}*{a}+1.0,{b})', 'ifelse({a}*{a}>-1,{a},{b})', 'InvFermi(0.5+{a}*{a})']


def smooth(R, ops, depth=2):
    """A random smooth expression over the operands."""
    if depth == 0 or R.random() < 0.15:
        return R.choice(ops)
    return R.choice(FORMS).format(a=smooth(R, ops, depth - 1), b=smooth(R, ops, depth - 1), c='%.3f' % R.uniform(0.2, 1.5))


def setup(case, R):
    """Builds the devices, the circuit and the equations; returns ({(device, region): Region}, circuit node names)."""
    dsx.reset()
    c09.params()
    ds.set_parameter(name='par', value=1.7)
    if case['ext']:
        for x in ('extended_solver', 'extended_model', 'extended_equation'):
            ds.set_parameter(name=x, value=True)
    D = lambda e, v: ('simplify(diff(%s,%s))' if case['simp'] else 'diff(%s,%s)') % (e, v)
    circ = ['k%d' % i for i in range(case['circ'])]
    for c in circ:
        ds.add_circuit_node(name=c, value=0.0)
    cnames = list(circ)
    for i, c in enumerate(circ):
        ds.circuit_element(name='R%d' % i, n1=c, n2=R.choice([x for x in circ if x != c] + ['0']), value=R.uniform(0.5, 2))
        if R.random() < 0.5:
            ds.circuit_element(name='C%d' % i, n1=c, n2='0', value=R.uniform(0.5, 2))
        if R.random() < 0.3:
            ds.circuit_element(name='L%d' % i, n1=c, n2='0', value=R.uniform(0.5, 2))
            cnames.append('L%d.I' % i)
    if circ and R.random() < 0.5:
        ds.circuit_element(name='V1', n1=circ[0], n2='0', value=0.3)
        cnames.append('V1.I')
    regs = {}
    amp = case['amp']
    p = case['dens']
    for m in case['m']:
        d = m['dname']
        dim = c09.build(m)
        for r in sorted(ds.get_region_list(device=d)):
            g = regs[d, r] = Region(d, r, dim)
            region(R, g, dim, amp, p, D)
        for c in sorted(ds.get_contact_list(device=d)):
            r, = ds.get_region_list(device=d, contact=c)
            contact(R, d, c, regs[d, r], circ, p, D)
        for i in sorted(ds.get_interface_list(device=d)):
            r0, r1 = ds.get_region_list(device=d, interface=i)
            if R.random() < 0.8:
                interface(R, d, i, regs[d, r0], regs[d, r1], D)
    return regs, cnames


def region(R, g, dim, amp, p, D):
    w = g.w
    vs = g.vars = R.sample(['u', 'v', 'w'], R.randint(1, 3))
    for v in vs:
        ds.node_solution(name=v, **w)
        ds.set_node_values(name=v, values=[R.uniform(-amp, amp) for _ in range(g.n)], **w)
        ds.edge_from_node_model(node_model=v, **w)
    nm, em, lm = [], [], []

    def node(n, e):
        ds.node_model(name=n, equation=e, **w)
        for v in vs:
            ds.node_model(name='%s:%s' % (n, v), equation=D(e, v), **w)

    def edge(name, e):
        ds.edge_model(name=name, equation=e, **w)
        for v in vs:
            for s in ('@n0', '@n1'):
                ds.edge_model(name='%s:%s%s' % (name, v, s), equation=D(e, v + s), **w)
    for k in range(3):  # some on top of others
        n = 'n%d' % k
        node(n, smooth(R, vs + nm + ['x'], 2))
        ds.edge_from_node_model(node_model=n, **w)
        for v in vs:
            ds.edge_from_node_model(node_model='%s:%s' % (n, v), **w)
            for s in ('@n0', '@n1'):  # the name that diff() gives to the derivative of n@n0 by v@n0
                ds.edge_model(name='%s%s:%s%s' % (n, s, v, s), equation='%s:%s%s' % (n, v, s), **w)
        nm.append(n)
    for k in range(3):
        kind = R.choice(['avg', 'exp', 'exp', 'sg'])
        name = 'e%d' % k
        if kind == 'avg':
            n = R.choice(nm)
            t = R.choice(['arithmetic', 'geometric', 'gradient', 'negative_gradient'])
            if t == 'geometric':  # of a positive quantity
                node('pos%d' % k, '1.5+%s^2' % n)
                n = 'pos%d' % k
            ds.edge_average_model(edge_model=name, node_model=n, average_type=t, **w)
            for v in vs:
                ds.edge_average_model(edge_model=name, node_model=n, derivative=v, average_type=t, **w)
        elif kind == 'sg':
            a, b = R.choice(vs), R.choice(vs)
            edge(name, '({b}@n1*B(0.7*({a}@n0-{a}@n1))-{b}@n0*B(0.7*({a}@n1-{a}@n0)))*EdgeInverseLength'.format(a=a, b=b))
        else:
            edge(name, smooth(R, [x + s for x in vs + nm for s in ('@n0', '@n1')] + em + ['EdgeLength', 'unitx'], 2))
        em.append(name)
    if dim > 1:
        sfx = ['@en%d' % i for i in range(dim + 1)]
        ax = 'xyz'[:dim]
        for v in vs:
            ds.element_from_node_model(node_model=v, **w)
        comp = []
        for e in R.sample(em, 2):
            f, nn = R.choice([(ds.element_from_edge_model, ['%s_%s' % (e, a) for a in ax]), (ds.element_pair_from_edge_model, ['%s_%s_%s' % (e, i, a) for a in ax for i in ('node0', 'node1')])])
            f(edge_model=e, **w)
            for v in vs:
                f(edge_model=e, derivative=v, **w)
            comp += nn
        for k in range(3):
            name = 'l%d' % k
            e = smooth(R, comp + [v + s for v in vs for s in sfx] + lm, 2)
            ds.element_model(name=name, equation=e, **w)
            for v in vs:
                for s in sfx:
                    ds.element_model(name='%s:%s%s' % (name, v, s), equation=D(e, v + s), **w)
            lm.append(name)
    g.M = {'n': nm, 'e': em, 'l': lm}
    g.eq = {v: 'eq_' + v for v in vs}
    for v in vs:
        o = {}
        for a, l in (('node_model', nm), ('edge_model', em), ('edge_volume_model', em), ('element_model', lm), ('time_node_model', nm)):
            if l and R.random() < p:
                o[a] = R.choice(l)
        if lm and R.random() < p:
            o['volume_node0_model'], o['volume_node1_model'] = R.choice(lm), R.choice(lm)
        ds.equation(name=g.eq[v], variable_name=v, **dict(w, **o))


def contact(R, d, c, g, circ, p, D):
    for v, e in g.eq.items():
        if R.random() < 0.3:
            continue
        o = {}
        ck = R.choice(circ) if circ and R.random() < 0.7 else None
        if ck:
            o['circuit_node'] = ck
        for a in ('node_model', 'node_current_model', 'node_charge_model', 'edge_model', 'edge_current_model', 'edge_charge_model'):
            if R.random() > (0.8 if a == 'node_model' else p):
                continue
            q = 'cn_%s_%s_%s' % (c, v, a)
            at = dict(device=d, contact=c)
            if a[0] == 'n':
                ex = smooth(R, g.vars + g.M['n'] + ([ck] if ck else []), 2)
                ds.contact_node_model(name=q, equation=ex, **at)
                for x in g.vars + ([ck] if ck else []):
                    ds.contact_node_model(name='%s:%s' % (q, x), equation=D(ex, x), **at)
            else:
                ex = smooth(R, [x + s for x in g.vars for s in ('@n0', '@n1')] + g.M['e'] + ([ck] if ck else []), 2)
                ds.contact_edge_model(name=q, equation=ex, **at)
                for x in [x + s for x in g.vars for s in ('@n0', '@n1')] + ([ck] if ck else []):
                    ds.contact_edge_model(name='%s:%s' % (q, x), equation=D(ex, x), **at)
            o[a] = q
        for a, l in (('edge_volume_model', g.M['e']), ('element_model', g.M['l']), ('element_current_model', g.M['l']), ('element_charge_model', g.M['l'])):
            if l and R.random() < p:
                o[a] = R.choice(l)
        if g.M['l'] and R.random() < p:
            o['volume_node0_model'], o['volume_node1_model'] = R.choice(g.M['l']), R.choice(g.M['l'])
        ds.contact_equation(device=d, contact=c, name=e, **o)


def interface(R, d, i, g0, g1, D):
    at = dict(device=d, interface=i)
    ex = smooth(R, ['%s@r0' % x for x in g0.vars + g0.M['n'][:1]] + ['%s@r1' % x for x in g1.vars + g1.M['n'][:1]], 2)
    ds.interface_model(name='im', equation=ex, **at)
    for g, s in ((g0, '@r0'), (g1, '@r1')):
        for v in g.vars:
            for q in g.vars:
                if q != v:  # the derivative of one variable by another, which diff() refers to
                    ds.interface_model(name='%s:%s%s' % (q, v, s), equation='0', **at)
            ds.interface_model(name='im:%s%s' % (v, s), equation=D(ex, v + s), **at)
    ds.interface_equation(name='ie', name0=g0.eq[R.choice(g0.vars)], name1=g1.eq[R.choice(g1.vars)], interface_model='im', type=R.choice(['continuous', 'fluxterm', 'hybrid']), **at)


def run(case, ctx):
    try:
        run1(case, ctx)
    except ds.error as e:
        if 'floating point exception' not in str(e):
            raise
        ctx.count('skipped: overflow')


def run1(case, ctx):
    R = random.Random(case['seed'])
    regs, cnames = setup(case, R)
    ds.get_matrix_and_rhs()
    cnum = {c: ds.get_circuit_equation_number(node=c) for c in cnames}
    n = 1 + max(cnum.values(), default=-1)
    for g in regs.values():
        for v in g.vars:
            g.num[v] = list(ds.get_equation_numbers(variable=v, **g.w))
            n = max([n] + [q + 1 for q in g.num[v]])
    x0 = np.zeros(n)
    for g in regs.values():
        for v in g.vars:
            x0[g.num[v]] = ds.get_node_model_values(name=v, **g.w)
    for q in cnum.values():
        x0[q] = R.uniform(-case['amp'], case['amp'])

    def put(x):
        for g in regs.values():
            for v in g.vars:
                ds.set_node_values(name=v, values=[float(t) for t in x[g.num[v]]], **g.w)
        for c, q in cnum.items():
            ds.set_circuit_node_value(solution='dcop', node=c, value=float(x[q]))

    def F(x):
        put(x)
        o = ds.get_matrix_and_rhs(format='csr')
        return {t: np.array(o[t]['rhs']) for t in ('static', 'dynamic')}
    put(x0)
    o = ds.get_matrix_and_rhs(format='csr')
    # a model has the same values whether it was first needed by an assembly or not
    a = values(regs)
    put(x0)
    b = values(regs)
    for k in a:
        need(dsx.same_bits(a[k], b[k]), 'model %s has other values after an assembly than by itself: %s', k, [(i, x, y) for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y][:3])
    J = {}
    offd = False
    for t in ('static', 'dynamic'):
        A = np.zeros((n, n))
        z = o[t]
        for i in range(n):
            for k in range(z['ap'][i], z['ap'][i + 1]):
                A[i, z['ai'][k]] += z['av'][k]
        J[t] = A
        offd = offd or bool(np.count_nonzero(A - np.diag(np.diag(A))))
    if not all(np.all(np.isfinite(A)) for A in J.values()) or max(np.abs(A).max() for A in J.values()) > 1e8:
        ctx.count('skipped: large values')
        return
    rng = np.random.default_rng(case['seed'])
    moved = False
    for k in range(8):
        if k < 2:
            dx = rng.uniform(-1, 1, n)
        elif k < 5:
            dx = rng.uniform(-1, 1, n) * (rng.random(n) < 0.2)
        else:
            dx = np.zeros(n)
            dx[rng.integers(n)] = 1.0
        if not dx.any():
            continue
        est, mg = {}, {}
        for h in (2e-3, 1e-3, 5e-4):
            a, b = F(x0 + h * dx), F(x0 - h * dx)
            for t in a:
                est[t, h] = (b[t] - a[t]) / (2 * h)   # rhs is minus the residual
                mg[t] = np.maximum(np.abs(a[t]), np.abs(b[t]))
        for t in J:
            e1 = (4 * est[t, 1e-3] - est[t, 2e-3]) / 3
            e2 = (4 * est[t, 5e-4] - est[t, 1e-3]) / 3
            num = (16 * e2 - e1) / 15
            got = J[t] @ dx
            mag = np.abs(J[t]) @ np.abs(dx) + mg[t] + np.abs(num)
            tol = 20 * np.abs(e2 - e1) + 1e-8 * mag + 1e-9 * mag.max()
            if np.any(tol > 1e-3 * (mag + 1e-3 * mag.max()) + 1e-12):
                ctx.count('direction too curved')
            bad = np.nonzero(~(np.abs(got - num) <= tol))[0]
            if len(bad):
                i = bad[np.argmax(np.abs(got - num)[bad] / tol[bad])]
                need(False, '%s: matrix times direction %d in row %d is %r, the residual changes by %r (tolerance %.3g); %d of %d rows; row %s', t, k, i, got[i], num[i], tol[i], len(bad), n, who(regs, cnum, i))
            moved = moved or bool(np.any(num != 0))
    if offd and moved:
        ctx.nontrivial()


def values(regs):
    o = {}
    for k, g in regs.items():
        for t, l, f in (('node', ds.get_node_model_list, ds.get_node_model_values), ('edge', ds.get_edge_model_list, ds.get_edge_model_values)) + ((('element', ds.get_element_model_list, ds.get_element_model_values),) if g.dim > 1 else ()):
            for n in l(**g.w):
                o[k + (t, n)] = list(f(name=n, **g.w))
    return o


def who(regs, cnum, i):
    for (d, r), g in regs.items():
        for v in g.vars:
            if i in g.num[v]:
                return '%s/%s variable %s node %d' % (d, r, v, g.num[v].index(i))
    return [c for c in cnum if cnum[c] == i]


SUITES = [Suite('jacobian', strat, run, quick=360, thorough=8000)]
