"""C16: random histories of transient_dc, BDF1, TR and BDF2 steps (with refused and failing steps, bias changes and DC solves in between) on devices with circuits: every accepted step satisfies the integration formula row by row with the stored history, and linear circuits follow an independent simulation."""
from hypothesis import strategies as st
import math, random
import numpy as np
from harness import Suite, need
import dsx, c09, syslib
from dsx import ds
from c14 import get_state, put_state, snapshot, same_snapshot

PROPERTY = 'C16'
RULE = ('history: a random nonlinear device system with charges, contacts on circuits with capacitors and inductors, and up to 9 operations: transient_dc, transient_bdf1, transient_tr, transient_bdf2 with random steps and gammas, bias changes, DC solves, changes by hand of the solution, refused steps (charge error, iteration limit, invalid operation), steps that lack history. '
        'After each accepted step a0 Q(n) + a1 Q(n-1) + a2 Q(n-2) + b0 F(n) + b1 F(n-1) is zero for every row (1e-7 of the magnitudes; Q and F from get_matrix_and_rhs), the reported charge error is that of the projection from the previous point and decides acceptance, and refused steps change nothing. Non-trivial: at least 2 accepted integration steps. '
        'circuit: random RLC circuits with sources against modified nodal equations integrated by the same formulas in numpy (1e-7). Non-trivial: at least 3 steps.')
ASSUMPTIONS = ['charge error: largest |Q - P| / (1e-20 + |Q| + |P|) with P = Q(n-1) + dt F(n-1), dt the part of the step since the previous point (gamma h for BDF1 and TR, (1 - gamma) h for BDF2)', 'steps whose solve does not converge are skipped']

TYPES = ['transient_bdf1', 'transient_tr', 'transient_bdf2']


@st.composite
def op(draw):
    k = draw(st.sampled_from(['tdc', 'step', 'step', 'step', 'step', 'trbdf2', 'bias', 'bias', 'dc', 'hand', 'refuse', 'fail', 'maxit', 'ext', 'gamma1', 'short']))
    return [k, draw(st.sampled_from(TYPES)), draw(st.sampled_from([1e-3, 0.1, 1.0, 10.0])), draw(st.floats(0.2, 0.9)), draw(st.sampled_from([1e30, 1e30, 0.5, 0.1, 1e-2]))]


@st.composite
def strat(draw):
    m = draw(c09.mesh_case())
    m.update(dname='d', scale=1.0, itf=True)
    sysc = dict(law=draw(st.sampled_from(['k', 'sg', 'mix', 'lin'])), el=draw(st.booleans()), src=draw(st.booleans()), curvol=draw(st.booleans()), circ=draw(st.sampled_from([0, 1, 1])), itf=draw(st.sampled_from(['continuous', 'fluxterm', 'hybrid'])), nv=draw(st.integers(1, 2)), time=draw(st.sampled_from([1.0, 0.1])), qc=draw(st.booleans()))
    return dict(m=m, sys=sysc, seed=draw(st.integers(1, 2**30)), ops=draw(st.lists(op(), min_size=2, max_size=9)), ext=draw(st.sampled_from([0, 0, 0, 1])))


def assemble():
    M = ds.get_matrix_and_rhs(format='csr')
    out = []
    for T in ('static', 'dynamic'):
        q = M[T]
        n = len(q['rhs'])
        A = np.zeros((n, n))
        ap, ai, av = list(q['ap']), list(q['ai']), list(q['av'])
        for i in range(n):
            for k in range(ap[i], ap[i + 1]):
                A[i, ai[k]] += av[k]
        out += [np.array(list(q['rhs'])), A]
    return out  # F, dF, Q, dQ (with the sign of the right hand side)


def coefficients(t, h, g):
    """(a0, a1, a2, b0, b1, part of the step) of a method."""
    if t == 'transient_bdf1':
        return 1 / (g * h), -1 / (g * h), 0, 1, 0, g * h
    if t == 'transient_tr':
        return 2 / (g * h), -2 / (g * h), 0, 1, 1, g * h
    return (2 - g) / ((1 - g) * h), -1 / (g * (1 - g) * h), (1 - g) / (g * h), 1, 0, (1 - g) * h


def xvec(S, n):
    x = np.zeros(n)
    a, c = get_state(S)
    for s in S:
        for g in s.regs.values():
            for v in s.vs:
                for i, z in zip(ds.get_equation_numbers(equation='eq_' + v, **g.w), a[g.d, g.r, v]):
                    x[i] = z
    for k, z in c.items():
        x[ds.get_circuit_equation_number(node=k)] = z
    return x


def run_history(case, ctx):
    dsx.reset()
    c09.params()
    R = random.Random(case['seed'])
    if case['ext']:
        ds.set_parameter(name='extended_solver', value=True)
    ds.set_parameter(name='on', value=0.0)
    s = syslib.build(dict(case['sys'], m=case['m']), R)
    S = [s]
    if case['sys']['circ']:
        nodes = [n for n in ds.get_circuit_node_list() if not n.endswith('.I')] + ['p', '0']
        for i in range(R.randint(1, 3)):
            a, b = R.choice(nodes), R.choice(nodes)
            if a != b:
                ds.circuit_element(name='C%d' % i, n1=a, n2=b, value=R.uniform(0.1, 2))
        ds.circuit_element(name='Rp', n1='p', n2='0', value=R.uniform(0.5, 2))
        ds.circuit_element(name='Lp', n1='p', n2=R.choice(nodes), value=R.uniform(0.1, 2)) if R.random() < 0.6 else None
        ds.circuit_element(name='Vp', n1='q', n2='0', value=R.uniform(-1, 1))
        ds.circuit_element(name='Rq', n1='p', n2='q', value=R.uniform(0.5, 2))
    # a term that can fail on demand
    g = s.regs[sorted(s.regs)[R.randrange(len(s.regs))]]
    v0 = s.vs[0]
    ds.node_model(name='trap', equation='1e-200*log(1-2*on)*%s^0' % v0, **g.w)
    ds.node_model(name='T_' + v0, equation='Q_%s+trap' % v0, **g.w)
    for x in s.vs:
        ds.node_model(name='T_%s:%s' % (v0, x), equation='Q_%s:%s' % (v0, x), **g.w)
    o = {k: z for k, z in g.eq.items()}
    o['time_node_model'] = 'T_' + v0
    if 'element_model' in o:
        o['element_model'] = 'L_' + v0
    if 'node_model' in o:
        o['node_model'] = 'S_' + v0
    o['edge_model'] = 'F_' + v0
    ds.equation(name='eq_' + v0, variable_name=v0, **dict(g.w, **o))
    ds.get_matrix_and_rhs()  # creates the circuit solution
    args = dict(absolute_error=1e-8, relative_error=1e-9, maximum_iterations=40)
    Q, F = [], []  # Q(n-1), Q(n-2); F(n-1)
    steps = 0
    todo = [['tdc', '', 0, 0, 0]] if R.random() < 0.9 else []
    for k, t, h, gam, ce in todo + case['ops']:
        if k == 'bias':
            syslib.rebias(s, R)
            continue
        if k == 'hand':
            a, c = get_state(S)
            put_state(S, ({q: [z + R.uniform(-0.1, 0.1) for z in l] for q, l in a.items()}, {q: z + R.uniform(-0.1, 0.1) for q, z in c.items()}))
            continue
        if k == 'ext':
            # the precision of the solver may change between steps
            on = 'extended_solver' in ds.get_parameter_list() and ds.get_parameter(name='extended_solver')
            ds.set_parameter(name='extended_solver', value=not on)
            ctx.count('precision changed')
            continue
        if not Q and not (k in ('tdc', 'dc')):
            before = snapshot(S)
            need(dsx.raises(ds.solve, type=t, tdelta=h, gamma=gam, charge_error=1e30, **args) is not None, '%s was accepted without an initial condition', t)
            same_snapshot(before, snapshot(S), 'step without initial condition')
            continue
        if k in ('tdc', 'dc'):
            before = snapshot(S)
            err = dsx.raises(ds.solve, type='transient_dc' if k == 'tdc' else 'dc', **args)
            if err:
                ctx.count('dc not converged')
                same_snapshot(before, snapshot(S), 'refused ' + k)
                continue
            f, df, q, dq = assemble()
            x = np.abs(xvec(S, len(f)))
            bad = np.abs(f) > 1e-7 * (np.abs(f) + np.abs(df) @ x) + 1e-300
            need(not bad.any(), '%s: rows %s are not satisfied: %s', k, np.where(bad)[0][:3], f[bad][:3])
            if k == 'tdc':
                Q, F = [q], [f]
            ctx.count(k)
            continue
        if k == 'gamma1':
            before = snapshot(S)
            if len(Q) > 1:
                need(dsx.raises(ds.solve, type='transient_bdf2', tdelta=h, charge_error=1e30, **args) is not None, 'BDF2 with gamma 1 was accepted')
                same_snapshot(before, snapshot(S), 'BDF2 with gamma 1')
            continue
        seq = [(t, h, gam)]
        if k == 'trbdf2':
            seq = [('transient_tr', h, gam), ('transient_bdf2', h, gam)]
        for t, h, gam in seq:
            a0, a1, a2, b0, b1, dt = coefficients(t, h, gam)
            before = snapshot(S)
            a = dict(args, type=t, tdelta=h, gamma=gam, charge_error=ce, info=True)
            if t == 'transient_bdf2' and len(Q) < 2:
                need(dsx.raises(ds.solve, **dict(a, charge_error=1e30, info=False)) is not None, 'BDF2 was accepted after a single point')
                same_snapshot(before, snapshot(S), 'BDF2 after a single point')
                ctx.count('bdf2 without history')
                break
            if k == 'fail':
                ds.set_parameter(name='on', value=1.0)
                need(dsx.raises(ds.solve, **a) is not None, 'a step with an invalid operation was accepted')
                ds.set_parameter(name='on', value=0.0)
                same_snapshot(before, snapshot(S), 'failed step')
            if k == 'maxit':
                r = ds.solve(**dict(a, maximum_iterations=1, absolute_error=1e-300, charge_error=1e30))
                if r['converged']:  # the start was the solution already: nothing refused
                    ctx.count('step without an update')
                    return
                same_snapshot(before, snapshot(S), 'step with too few iterations')
            if k == 'refuse':
                ce = a['charge_error'] = 0.0
            try:
                r = ds.solve(**a)
            except ds.error as ex:
                same_snapshot(before, snapshot(S), 'step with an error')
                ctx.count('step error')
                break
            refused = not r['converged']
            if refused:
                same_snapshot(before, snapshot(S), 'refused step')
                r = ds.solve(**dict(a, charge_error=1e30))
                if not r['converged']:
                    ctx.count('not converged')
                    break
                if ce == 1e30:
                    need(False, 'a step was refused for a charge error of 1e30')
            f, df, q, dq = assemble()
            x = np.abs(xvec(S, len(f)))
            res = a0 * q + a1 * Q[0] + b0 * f + (b1 * F[0] if b1 else 0) + (a2 * Q[1] if a2 else 0)
            mag = a0 * (np.abs(dq) @ x) + abs(a0 * q) + abs(a1 * Q[0]) + abs(f) + np.abs(df) @ x + (abs(F[0]) if b1 else 0) + (abs(a2 * Q[1]) if a2 else 0)
            bad = np.abs(res) > 1e-7 * mag + 1e-300
            need(not bad.any(), '%s with step %r and gamma %r: rows %s are not satisfied: residual %s, magnitude %s', t, h, gam, np.where(bad)[0][:3], res[bad][:3], mag[bad][:3])
            P = Q[0] - dt * F[0]
            nz = q != 0
            want = float(np.max(np.abs(q[nz] - P[nz]) / (1e-20 + np.abs(q[nz]) + np.abs(P[nz])))) if nz.any() else 0.0
            need(abs(r['charge_error'] - want) <= 1e-6 * want + 1e-9, '%s: charge error %r, from the projection %r', t, r['charge_error'], want)
            if refused:
                need(want >= ce * (1 - 1e-6) - 1e-9, '%s: refused with charge error %r, limit %r', t, want, ce)
                ctx.count('refused')
            else:
                need(want <= ce * (1 + 1e-6) + 1e-9, '%s: accepted with charge error %r, limit %r', t, want, ce)
            Q = [q, Q[0]]
            F = [f]
            steps += 1
            ctx.count(t)
    if steps >= 2:
        ctx.nontrivial()


@st.composite
def cstrat(draw):
    n = draw(st.integers(1, 4))
    el = draw(st.lists(st.tuples(st.sampled_from('RRCCLVI'), st.integers(0, n), st.integers(0, n), st.floats(0.1, 5), st.booleans()), min_size=1, max_size=8))
    return dict(n=n, el=[list(e) for e in el], ops=draw(st.lists(op(), min_size=3, max_size=9)), seed=draw(st.integers(1, 2**30)), ext=draw(st.sampled_from([0, 0, 1])))


def run_circuit(case, ctx):
    dsx.reset()
    R = random.Random(case['seed'])
    if case['ext']:
        ds.set_parameter(name='extended_solver', value=True)
    n = case['n']
    E = []
    for i in range(1, n + 1):
        E.append(['R', i, 0, R.uniform(0.5, 5), False])  # no floating nodes
    E += [e for e in case['el'] if e[1] != e[2]]
    name = []
    cnt = {}
    for e in E:
        cnt[e[0]] = cnt.get(e[0], 0) + 1
        name.append((e[0].lower() if e[4] else e[0]) + str(cnt[e[0]]))
        ds.circuit_element(name=name[-1], n1=str(e[1]), n2=str(e[2]), value=e[3])
    br = [i for i, e in enumerate(E) if e[0] in 'LV']
    N = n + len(br)

    def system():
        G, C, s = np.zeros((N, N)), np.zeros((N, N)), np.zeros(N)

        def stamp(M, a, b, v):
            for p, q, z in ((a, a, v), (b, b, v), (a, b, -v), (b, a, -v)):
                if p and q:
                    M[p - 1, q - 1] += z
        for i, (t, a, b, v, _) in enumerate(E):
            if t == 'R':
                stamp(G, a, b, 1 / v)
            elif t == 'C':
                stamp(C, a, b, v)
            elif t == 'I':
                # convention of the code: the source drives v into n1
                if a:
                    s[a - 1] += v
                if b:
                    s[b - 1] -= v
            else:
                k = n + br.index(i)
                for p, z in ((a, 1.0), (b, -1.0)):
                    if p:
                        G[p - 1, k] += z
                        G[k, p - 1] += z
                if t == 'L':
                    C[k, k] -= v
                else:
                    s[k] += v
        return G, C, s
    G, C, src = system()
    if np.linalg.cond(G) > 1e8:
        ctx.count('singular')
        return
    args = dict(absolute_error=1e-7, relative_error=1e30, maximum_iterations=30)  # linear: one update is exact
    names = [str(i) for i in range(1, n + 1)] + ['%s.I' % name[i] for i in br]
    x = np.linalg.solve(G, src)
    ds.solve(type='transient_dc', **args)
    Q, F = [C @ x], [G @ x - src]
    steps = 0

    def compare(what):
        got = np.array([ds.get_circuit_node_value(node=k, solution='dcop') for k in names])
        bad = np.abs(got - x) > 1e-7 * (1 + np.abs(x).max())
        need(not bad.any(), '%s: %s are %s, expected %s', what, [k for k, z in zip(names, bad) if z], got[bad], x[bad])
    compare('transient_dc')
    for k, t, h, gam, ce in case['ops']:
        if k in ('bias', 'hand'):
            i = R.randrange(len(E))
            if E[i][0] in 'RCLVI':
                # changing a capacitor or inductor changes the charge now, not the stored one
                E[i][3] = R.uniform(0.1, 5)
                ds.circuit_alter(name=name[i], value=E[i][3])
                G, C, src = system()
                if np.linalg.cond(G) > 1e8:
                    return
            continue
        if k in ('tdc', 'dc'):
            x = np.linalg.solve(G, src)
            ds.solve(type='transient_dc' if k == 'tdc' else 'dc', **args)
            if k == 'tdc':
                Q, F = [C @ x], [G @ x - src]
            compare(k)
            continue
        if k == 'ext':
            on = 'extended_solver' in ds.get_parameter_list() and ds.get_parameter(name='extended_solver')
            ds.set_parameter(name='extended_solver', value=not on)
            continue
        if k == 'refuse':
            old = [ds.get_circuit_node_value(node=z, solution='dcop') for z in names]
            r = ds.solve(type=t if len(Q) > 1 else 'transient_bdf1', tdelta=h, gamma=gam, charge_error=1e30, info=True, **dict(args, absolute_error=1e-300))
            if r['converged']:
                return
            need(old == [ds.get_circuit_node_value(node=z, solution='dcop') for z in names], 'a refused step changed the circuit')
        for t, h, gam in [('transient_tr', h, gam), ('transient_bdf2', h, gam)] if k == 'trbdf2' else [(t, h, gam)]:
            if t == 'transient_bdf2' and len(Q) < 2:
                continue
            a0, a1, a2, b0, b1, dt = coefficients(t, h, gam)
            A = a0 * C + G
            b = src - a1 * Q[0] - (a2 * Q[1] if a2 else 0) - b1 * F[0]
            if np.linalg.cond(A) > 1e8:
                return
            x = np.linalg.solve(A, b)
            ds.solve(type=t, tdelta=h, gamma=gam, charge_error=1e30, **args)
            Q, F = [C @ x, Q[0]], [G @ x - src]
            compare('%s step %r gamma %r' % (t, h, gam))
            steps += 1
    if steps >= 3:
        ctx.nontrivial()


SUITES = [Suite('history', strat, run_history, quick=400, thorough=16000), Suite('circuit', cstrat, run_circuit, quick=400, thorough=16000)]
