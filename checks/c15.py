"""C15: the reported contact current and charge are compared with reference sums over the contact nodes, with what enters the attached circuit node, and, for random conservation laws, with the sum over all contacts and sources."""
from hypothesis import strategies as st
import math, random
from harness import Suite, need
import dsx
from dsx import ds
import c09, syslib
from c12 import Region, param, WEIGHTS

PROPERTY = 'C15'
RULE = ('integral: random devices (1D to 3D, several regions, contacts that share nodes) with unrelated random node, edge and element models as current and charge models, weights selected by parameters, every type of solve, each contact attached to a circuit node with a resistor or not. '
        'After every accepted solve the current and charge equal the sum over the active contact nodes (tolerance 1e-12 of the magnitudes), they are what the assembled row of the circuit node contains, and a failed solve leaves them alone. Non-trivial: at least two kinds of model contribute to some contact. '
        'conservation: nonlinear laws (diffusion with k(u), Scharfetter-Gummel fluxes, element fluxes, sources) on one or more regions joined by interfaces of the three kinds, contacts at fixed values or driven through circuits. The currents of all contacts and the sources add up to the residual of the interior rows (1e-11 of the magnitudes), '
        'which is small after convergence; the circuit carries the same currents. Non-trivial: the solve converged with nonzero current in at least one contact.')
ASSUMPTIONS = ['on nodes shared by contacts with the same equation, the contact first in the alphabet applies (documented in the code)', 'edges with both nodes on the contact do not carry current through it']


@st.composite
def strat(draw):
    ms = [draw(c09.mesh_case())]
    if draw(st.integers(0, 7)) == 0:
        ms.append(draw(c09.mesh_case()))
    for i, m in enumerate(ms):
        m['dname'] += str(i)
        m['scale'] = draw(st.sampled_from([1.0, 1.0, 1e-4]))
    return dict(m=ms, seed=draw(st.integers(1, 2**30)), weights=draw(st.integers(0, 2)), circ=draw(st.integers(0, 2)), steps=draw(st.lists(st.sampled_from(['dc', 'tdc', 'bdf1', 'tr', 'fail', 'again', 'dc']), min_size=1, max_size=4)), ext=draw(st.sampled_from([0, 0, 0, 1, 2])), threads=draw(st.sampled_from([1, 1, 4])))


def flags(ext):
    for x in [[], ['extended_solver'], ['extended_solver', 'extended_model', 'extended_equation']][ext]:
        ds.set_parameter(name=x, value=True)


def contact_nodes(d, c, g):
    ds.contact_node_model(device=d, contact=c, name='on_' + c, equation='1')
    return [i for i, v in enumerate(ds.get_node_model_values(name='on_' + c, **g.w)) if v == 1.0]


def integral(g, nodes, o, what):
    """[(value)] of the contact, from its definition."""
    on = set(nodes)
    out = []
    m = o.get('node_%s_model' % what)
    if m:
        w, v = g.val('n', param(g.d, g.r, 'node_volume_model')), g.val('n', m)
        out += [w[i] * v[i] for i in nodes]
    for kind, L, pn in (('e', g.e, 'edge_couple_model'), ('l', g.l, 'element_edge_couple_model')):
        m = o.get('%s_%s_model' % ({'e': 'edge', 'l': 'element'}[kind], what))
        if m:
            w, v = g.val(kind, param(g.d, g.r, pn)), g.val(kind, m)
            for k, t in enumerate(L):
                if t[0] in on and t[1] not in on:
                    out.append(w[k] * v[k])
                elif t[1] in on and t[0] not in on:
                    out.append(-w[k] * v[k])
    return out


def run_integral(case, ctx):
    dsx.reset()
    c09.params()
    R = random.Random(case['seed'])
    ds.set_parameter(name='threads_available', value=case['threads'])
    ds.set_parameter(name='threads_task_size', value=4)
    flags(case['ext'])
    regs, cont, circ = {}, [], []
    for m in case['m']:
        d = m['dname']
        dim = c09.build(m)
        for r in sorted(ds.get_region_list(device=d)):
            g = regs[d, r] = Region(d, r, dim)
            for pn in ('node_volume_model', 'edge_couple_model', 'element_edge_couple_model'):
                k, dflt = WEIGHTS[pn]
                if case['weights'] and not (k == 'l' and dim == 1):
                    if k == 'n':  # no zeros: the rows would be empty
                        ds.node_solution(name='W_' + pn, **g.w)
                        ds.set_node_values(name='W_' + pn, values=[R.choice([-1, 1]) * R.uniform(0.2, 3) for _ in range(g.n)], **g.w)
                    else:
                        g.make(R, k, 'W_' + pn)
                    if R.random() < 0.3 * case['weights']:
                        ds.set_parameter(name=pn, value=R.choice(['W_' + pn, dflt]), **R.choice([dict(device=d), g.w]))
            g.vars = R.sample(['u', 'v'], R.randint(1, 2))
            for v in g.vars:
                ds.node_solution(name=v, **g.w)
                ds.set_node_values(name=v, values=[R.uniform(-1, 1) for _ in range(g.n)], **g.w)
                ds.edge_from_node_model(node_model=v, **g.w)
            g.M = {}
            for k in 'nel' if dim > 1 else 'ne':
                g.M[k] = ['m%s%d' % (k, i) for i in range(3)]
                for x in g.M[k]:
                    g.make(R, k, x)
            # models that follow the solution
            v = R.choice(g.vars)
            ds.node_model(name='nu', equation='%s*%r+%s^2' % (v, R.uniform(1, 2), v), **g.w)
            ds.edge_model(name='eu', equation='(%s@n0-%s@n1)*%r' % (v, v, R.uniform(1, 2)), **g.w)
            g.M['n'].append('nu')
            g.M['e'].append('eu')
            if dim > 1:
                ds.element_from_edge_model(edge_model='eu', **g.w)
                g.M['l'].append('eu_x')
                ds.element_from_node_model(node_model=v, **g.w)
                ds.element_model(name='lu', equation='%s@en0-%s@en2*%r' % (v, v, R.uniform(1, 2)), **g.w)
                g.M['l'].append('lu')
            ds.node_solution(name='zero', **g.w)
            for v in g.vars:
                # u drifts to a new value at every solve
                tgt = [R.uniform(-1, 1) for _ in range(g.n)]
                ds.node_solution(name='t_' + v, **g.w)
                ds.set_node_values(name='t_' + v, values=tgt, **g.w)
                ds.node_model(name='b_' + v, equation='%s-t_%s*par+0.1*%s^3' % (v, v, v), **g.w)
                ds.node_model(name='b_%s:%s' % (v, v), equation='1+0.3*%s^2' % v, **g.w)
                ds.node_model(name='q_' + v, equation='%r*%s' % (R.uniform(0.1, 1), v), **g.w)
                ds.equation(name='eq_' + v, variable_name=v, node_model='b_' + v, time_node_model='q_' + v, **g.w)
        for c in sorted(ds.get_contact_list(device=d)):
            r, = ds.get_region_list(device=d, contact=c)
            g = regs[d, r]
            for v in g.vars:
                if R.random() < 0.2:
                    continue
                o = {}
                for q in ('current', 'charge'):
                    for a, k in (('node', 'n'), ('edge', 'e'), ('element', 'l')):
                        if k in g.M and R.random() < 0.6:
                            o['%s_%s_model' % (a, q)] = R.choice(g.M[k])
                if R.random() < 0.8:
                    ds.contact_node_model(device=d, contact=c, name='bc_%s_%s' % (c, v), equation='%s-%r' % (v, R.uniform(-1, 1)))
                    ds.contact_node_model(device=d, contact=c, name='bc_%s_%s:%s' % (c, v, v), equation='1')
                    o['node_model'] = 'bc_%s_%s' % (c, v)
                if case['circ'] and R.random() < 0.5 * case['circ']:
                    if circ and R.random() < 0.3:
                        k = R.choice(circ)[0]
                    else:
                        k = 'k%d' % len(circ)
                        circ.append((k, R.uniform(0.5, 2)))
                        ds.circuit_element(name='R' + k, n1=k, n2='0', value=circ[-1][1])
                    o['circuit_node'] = k
                ds.contact_equation(device=d, contact=c, name='eq_' + v, **o)
                cont.append((g, c, 'eq_' + v, o))
    ds.set_parameter(name='par', value=1.0)
    nodes = {(g.d, c): contact_nodes(g.d, c, g) for g, c, _, _ in cont}
    co = {k: {regs[k[0], ds.get_region_list(device=k[0], contact=k[1])[0]].coord[i] for i in v} for k, v in nodes.items()}

    def active(g, c, e):
        return [i for i in nodes[g.d, c] if not any(g2 is g and c2 < c and e2 == e and g.coord[i] in co[g.d, c2] for g2, c2, e2, _ in cont)]
    get = {'current': ds.get_contact_current, 'charge': ds.get_contact_charge}
    have = False
    mixed = False
    for s in case['steps']:
        par = R.uniform(-2, 2)
        if s != 'again':
            ds.set_parameter(name='par', value=par)
        a = dict(absolute_error=1e30, relative_error=1e30, maximum_iterations=R.randint(1, 3), solver_type='direct')
        before = {(g.d, c, e, q): get[q](device=g.d, contact=c, equation=e) for g, c, e, _ in cont for q in get}
        if s == 'fail':
            a.update(absolute_error=0.0, relative_error=0.0)
            need(dsx.raises(ds.solve, type='dc', **a) is not None, 'a solve with zero tolerances was accepted')
            for g, c, e, o in cont:
                for q in get:
                    need(get[q](device=g.d, contact=c, equation=e) == before[g.d, c, e, q], 'failed solve changed the %s of %s %s', q, c, e)
            continue
        kind = 'dc' if s == 'again' else s
        if kind in ('bdf1', 'tr') and not have:
            kind = 'tdc'
        have = have or kind == 'tdc'
        ds.solve(**dict(a, **{'dc': dict(type='dc'), 'tdc': dict(type='transient_dc'), 'bdf1': dict(type='transient_bdf1', tdelta=R.uniform(0.1, 1), charge_error=1e30), 'tr': dict(type='transient_tr', tdelta=R.uniform(0.1, 1), charge_error=1e30)}[kind]))
        for g in regs.values():
            g.cache = {}
        rows = {k: {'current': [], 'charge': []} for k, _ in circ}
        for g, c, e, o in cont:
            act = active(g, c, e)
            for q in get:
                t = integral(g, act, o, q)
                want, mag = math.fsum(t), math.fsum(abs(x) for x in t)
                got = get[q](device=g.d, contact=c, equation=e)
                need(abs(got - want) <= 1e-12 * mag, 'after %s, %s of contact %s, equation %s is %r, not %r', s, q, c, e, got, want)
                if 'circuit_node' in o:
                    rows[o['circuit_node']][q].append((got, mag))
            mixed = mixed or len([x for x in o if x.endswith('current_model')]) > 1 and len(act) > 0
        if circ:
            M = ds.get_matrix_and_rhs()
            for k, res in circ:
                row = ds.get_circuit_equation_number(node=k)
                V = ds.get_circuit_node_value(node=k, solution='dcop')
                for q, T, x in (('current', 'static', V / res), ('charge', 'dynamic', 0.0)):
                    want = -math.fsum([v for v, _ in rows[k][q]] + [x])
                    mag = math.fsum(z for _, z in rows[k][q]) + abs(x)
                    need(abs(M[T]['rhs'][row] - want) <= 1e-12 * mag, 'the row of circuit node %s has the %s %r, the contacts report %r', k, q, M[T]['rhs'][row], want)
        ctx.count('solve:' + kind)
    if mixed:
        ctx.nontrivial()


@st.composite
def cstrat(draw):
    m = draw(c09.mesh_case())
    m.update(dname='d', scale=draw(st.sampled_from([1.0, 1.0, 1e-2])))
    if m['split']:
        m['itf'] = True
    return dict(m=m, seed=draw(st.integers(1, 2**30)), law=draw(st.sampled_from(['k', 'sg', 'mix', 'lin'])), el=draw(st.booleans()), src=draw(st.booleans()), curvol=draw(st.booleans()), circ=draw(st.sampled_from([0, 0, 1, 2])), itf=draw(st.sampled_from(['continuous', 'continuous', 'fluxterm', 'hybrid'])), ext=draw(st.sampled_from([0, 0, 0, 2])), nv=draw(st.integers(1, 2)), biases=draw(st.integers(1, 3)))


def run_conservation(case, ctx):
    dsx.reset()
    c09.params()
    R = random.Random(case['seed'])
    flags(case['ext'])
    s = syslib.build(case, R)
    d, vs, regs, circ, cont, itf = s.d, s.vs, s.regs, s.circ, s.cont, s.itf
    moving = False
    for step in range(case['biases']):
        if step:
            syslib.rebias(s, R)
        err = dsx.raises(ds.solve, type='dc', absolute_error=1e-9, relative_error=1e-10, maximum_iterations=60, solver_type='direct')
        if err:
            ctx.count('not converged')
            return
        M = ds.get_matrix_and_rhs()
        rhs = M['static']['rhs']
        perm = list(M['permutation']['row'])
        cur = {}
        for v in vs:
            terms, mags, rows = [], [], set()
            for g in regs.values():
                g.cache = {}
                w = g.val('e', 'EdgeCouple')
                mags += [abs(x * y) for x, y in zip(w, g.val('e', 'F_' + v))]
                # rounding of the differences inside the fluxes
                u, il = g.val('n', v), g.val('e', 'EdgeInverseLength')
                mags += [abs(w[k] * il[k]) * (abs(u[a]) + abs(u[b])) for k, (a, b) in enumerate(g.e)]
                if 'element_model' in g.eq:
                    mags += [abs(x * y) for x, y in zip(g.val('l', 'ElementEdgeCouple'), g.val('l', 'L_' + v))]
                num = list(ds.get_equation_numbers(equation='eq_' + v, **g.w))
                # interior rows are where the bulk equation ended up
                rows |= {perm[i] for i in num if perm[i] >= 0}
                if case['src']:
                    vol, S = g.val('n', 'NodeVolume'), g.val('n', 'S_' + v)
                    for i in range(g.n):
                        mags.append(abs(vol[i] * S[i]))
                        if perm[num[i]] >= 0 or case['curvol']:
                            terms.append(-vol[i] * S[i])
            for c, v2, o, r in cont:
                if v2 == v:
                    I = ds.get_contact_current(device=d, contact=c, equation='eq_' + v)
                    Q = ds.get_contact_charge(device=d, contact=c, equation='eq_' + v)
                    need(I == Q, 'current %r and charge %r of the same models on contact %s differ', I, Q, c)
                    terms.append(I)
                    mags.append(abs(I))
                    cur[c, v] = I
                    moving = moving or abs(I) > 1e-3
            if case['itf'] != 'continuous':
                # fluxterm and hybrid terms go in and out of the two sides; in a hybrid equation the row of region 1 only repeats what was moved
                for i, v2, r0, r1 in itf:
                    if v2 == v:
                        a = regs[r0].val('n', 'SurfaceArea')
                        b = regs[r1].val('n', 'SurfaceArea')
                        mags += [abs(x) for x in ds.get_interface_model_values(device=d, interface=i, name='J_' + v)]
            mag = math.fsum(mags)
            res = [-rhs[i] for i in rows]
            tot = math.fsum(terms)
            need(abs(tot + math.fsum(res)) <= 1e-11 * mag, 'contact currents and sources of %s add up to %r, the interior residual to %r (magnitude %r)', v, tot, -math.fsum(res), mag)
            need(abs(tot) <= 1e-6 * mag, 'contact currents and sources of %s add up to %r (magnitude %r) after convergence', v, tot, mag)
        for k, res in circ.items():
            I = math.fsum(cur[c, v] for c, v, o, r in cont if o.get('circuit_node') == k)
            val = lambda n: ds.get_circuit_node_value(node=n, solution='dcop')
            ir = (val('s' + k) - val(k)) / res
            scale = 1e-6 * (mag + abs(val(k)) + 1)
            need(abs(I - ir) <= scale, 'contacts on circuit node %s carry %r, its resistor %r', k, I, ir)
            need(abs(val('V%s.I' % k) + ir) <= scale, 'source current %r, resistor current %r', val('V%s.I' % k), ir)
        ctx.count('converged')
    if moving:
        ctx.nontrivial()


SUITES = [Suite('integral', strat, run_integral, quick=300, thorough=12000), Suite('conservation', cstrat, run_conservation, quick=300, thorough=12000)]
