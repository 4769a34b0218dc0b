"""C17: small-signal and noise solutions are compared with dense complex solutions of the assembled static and charge matrices, with finite differences of the DC solution at frequency zero, and with a session in which they are left out."""
from hypothesis import strategies as st
import random
import numpy as np
from harness import Suite, need
import dsx, c14, syslib
from c14 import snapshot, same_snapshot
from dsx import ds

PROPERTY = 'C17'
RULE = ('linear: random nonlinear systems with charges (1 or 2 devices, 1D to 3D, interfaces of three kinds, contacts at fixed values or on circuits with R, L, C and voltage sources that have random complex AC values) at random operating points; a random history of ac and noise solves (frequencies 0 and 1e-6 to 1e9, any output), DC and transient solves and altered sources. '
        'After every ac solve the x_Real and x_Imag models and the ssac solutions equal the dense solution of (J + i omega Q) x = b made from get_matrix_and_rhs; after every noise solve the impedance fields and circuit values equal the solution of the transposed system (a node whose equation was moved to or copied into another row takes the row that holds it), and the gradient fields are those of the new fields. '
        'The node solutions, models, circuit operating point and contact currents keep their bits. Two tolerances: forward error 1e-11 of the condition number of the equilibrated matrix (cases beyond 1e7 skipped). Without a circuit, or with an output that does not exist, noise is refused. The same history without the ac and noise solves ends with the same bits. Non-trivial: an ac or noise solve at nonzero frequency was compared whose matrix has charge terms. '
        'sensitivity: at a converged operating point, ac at frequency zero equals the central difference of DC solutions over the source values, and the noise field equals the central difference over a current injected into the equation at a random node (1e-4 of the largest value). Non-trivial: the difference is not zero.')
ASSUMPTIONS = ['a current injected into the equation of a node lowers its residual (sign of the impedance field)', 'AC sources exist for voltage sources only (netlist syntax in the manual)']


@st.composite
def strat(draw):
    c = draw(c14.strat())
    c['sys'].update(time=draw(st.sampled_from([1e-3, 1.0, 1e3])), qc=draw(st.booleans()), circ=draw(st.sampled_from([0, 1, 1, 1, 1])))
    c['ext'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    freq = st.one_of(st.just(0.0), st.integers(-6, 9).map(lambda k: 10.0**k), st.floats(0.01, 100))
    op = st.sampled_from(['ac', 'ac', 'ac', 'noise', 'noise', 'noise', 'source', 'bias', 'elem', 'dc', 'tdc', 'bdf1', 'badout'])
    c['ops'] = draw(st.lists(st.tuples(op, freq, st.integers(0, 2**20)), min_size=1, max_size=8))
    return c


def build(case, R):
    S, _ = c14.build(case, R)
    V = []
    if case['sys']['circ']:
        V.append('Vown')
    for s in S:
        V += ['V' + k for k in s.circ]
    return S, V


def sources(V, R, b=None):
    val = {}
    for v in V:
        z = (0.0, 0.0) if R.random() < 0.3 else (R.uniform(-2, 2), R.choice([0.0, R.uniform(-2, 2)]))
        ds.circuit_alter(name=v, param='acreal', value=z[0])
        ds.circuit_alter(name=v, param='acimag', value=z[1])
        val[v] = complex(*z)
    return val


def dense(q, n):
    A = np.zeros((n, n))
    ap, ai, av = list(q['ap']), list(q['ai']), list(q['av'])
    for i in range(n):
        for k in range(ap[i], ap[i + 1]):
            A[i, ai[k]] += av[k]
    return A


def system():
    M = ds.get_matrix_and_rhs(format='csr')
    n = len(M['static']['rhs'])
    return dense(M['static'], n), dense(M['dynamic'], n), M['permutation']


def equilibrated(A, b):
    m = np.abs(A).max(axis=1)
    if not np.all(m > 0) or not np.all(np.isfinite(m)):
        return None
    A, b = A / m[:, None], b / m
    m = np.abs(A).max(axis=0)
    if not np.all(m > 0):
        return None
    k = np.linalg.cond(A / m)
    return (A, b, k) if k < 1e7 else None


def unknowns(S):
    """[(row, kind, name, params)]"""
    out = []
    for s in S:
        for g in s.regs.values():
            for v in s.vs:
                out.append((list(ds.get_equation_numbers(equation='eq_' + v, **g.w)), v, g))
    return out


def compare(what, got, ref, k):
    tol = (1e-11 * k + 1e-10) * np.abs(ref).max() + 1e-300
    bad = np.nonzero(~(np.abs(got - ref) <= tol))[0]
    need(not len(bad), '%s: unknown %s is %s, expected %s (tolerance %.3g, %d of %d differ)', what, bad[:3], got[bad[:3]], ref[bad[:3]], tol, len(bad), len(ref))


def read_ac(S, n, cn):
    x = np.full(n, np.nan, complex)
    for rows, v, g in unknowns(S):
        x[rows] = np.array(ds.get_node_model_values(name=v + '_Real', **g.w)) + 1j * np.array(ds.get_node_model_values(name=v + '_Imag', **g.w))
    for c, r in cn.items():
        x[r] = complex(ds.get_circuit_node_value(node=c, solution='ssac_real'), ds.get_circuit_node_value(node=c, solution='ssac_imag'))
    return x


SKIP = ('_Real', '_Imag')


def state(S):
    out = snapshot(S)
    return {k: v for k, v in out.items() if not (isinstance(k, tuple) and ('_Real' in k[2] or '_Imag' in k[2] or k[2].startswith('noiseout') or '_eq_' in k[2] or k[2].startswith('G_')))}


def play(case, ctx, ac):
    R = random.Random(case['seed'])
    S, V = build(case, R)
    circ = case['sys']['circ']
    src = sources(V, R)
    ds.get_matrix_and_rhs()
    cn = {c: ds.get_circuit_equation_number(node=c) for c in ds.get_circuit_node_list()} if circ else {}
    args = dict(absolute_error=1e-8, relative_error=1e-6, maximum_iterations=20)
    trans, seen = False, 0
    for op, f, pick in case['ops']:
        R2 = random.Random(pick)
        if op == 'source':
            src = sources(V, R2)
        elif op == 'bias':
            for s in S:
                syslib.rebias(s, R2)
        elif op == 'elem' and circ:
            ds.circuit_alter(name=R2.choice(['Rown', 'Rown2']), value=R2.uniform(0.2, 3))
        elif op in ('dc', 'tdc') or op == 'bdf1' and trans:
            t = {'dc': 'dc', 'tdc': 'transient_dc', 'bdf1': 'transient_bdf1'}[op]
            try:
                r = ds.solve(type=t, tdelta=0.01 * case['sys']['time'], gamma=1.0, charge_error=1e30, info=True, **args)
                trans = trans or op == 'tdc' and r['converged']
            except ds.error:
                pass
        elif not ac:
            continue
        elif op == 'badout':
            before = state(S)
            need(dsx.raises(ds.solve, type='noise', frequency=f, output_node='nothere') is not None, 'noise accepted the output nothere')
            same_snapshot(before, state(S), 'noise with an unknown output')
        elif op in ('ac', 'noise'):
            if op == 'noise' and not circ:
                need(dsx.raises(ds.solve, type='noise', frequency=f, output_node='1') is not None, 'noise was accepted without a circuit')
                ctx.count('noise without circuit')
                continue
            J, Q, perm = system()
            n = len(J)
            A = J + 2j * np.pi * f * Q
            b = np.zeros(n, complex)
            if op == 'ac':
                for v, z in src.items():
                    b[cn[v + '.I']] = z
            else:
                out = R2.choice(sorted(cn))
                b[cn[out]] = 1
                A = A.T
            E = equilibrated(A, b)
            before = state(S)
            msg = dsx.raises(ds.solve, type=op, frequency=f, **(dict(output_node=out) if op == 'noise' else {}))
            same_snapshot(before, state(S), '%s solve' % op)
            if E is None:
                ctx.count('nearly singular')
                continue
            need(msg is None, '%s at %r with a condition number of %.3g failed: %s', op, f, E[2] if E else 0, msg)
            ref = np.linalg.solve(E[0], E[1])
            if op == 'ac':
                compare('ac at %r' % f, read_ac(S, n, cn), ref, E[2])
            else:
                want, got = np.zeros(n, complex), np.full(n, np.nan, complex)
                pc, pr = list(perm['copy']), list(perm['row'])
                for rows, v, g in unknowns(S):
                    nm = '%s_eq_%s_' % (out, v)
                    got[rows] = np.array(ds.get_node_model_values(name=nm + 'real', **g.w)) + 1j * np.array(ds.get_node_model_values(name=nm + 'imag', **g.w))
                    for r in rows:
                        if pr[r] not in (-1, 2**64 - 1):
                            want[r] = ref[pr[r]] + (ref[r] if pc[r] and pr[r] != r else 0)
                    for q in ('real', 'imag'):
                        ds.node_solution(name='G_', **g.w) if 'G_' not in ds.get_node_model_list(**g.w) else None
                        ds.set_node_values(name='G_', values=list(ds.get_node_model_values(name=nm + q, **g.w)), **g.w)
                        ds.vector_gradient(node_model='G_', calc_type='avoidzero', **g.w)
                        for d in 'xyz'[:g.dim]:
                            a, e = (list(ds.get_node_model_values(name=z + '_grad' + d, **g.w)) for z in (nm + q, 'G_'))
                            m = max(map(abs, e))
                            need(all(abs(p - z) <= 1e-9 * m for p, z in zip(a, e)), '%s_grad%s of region %s is %r, the gradient of the field is %r', nm + q, d, g.r, a[:4], e[:4])
                for c, r in cn.items():
                    got[r] = complex(*[ds.get_circuit_node_value(node=c, solution='noise_%s_%s' % (out, q)) for q in ('real', 'imag')])
                    want[r] = ref[r]
                kept = sum(1 for r in range(n) if pc[r])
                if kept:
                    ctx.count('noise with copied rows')
                m = max(np.abs(ref).max(), 1e-300)
                tol = (1e-11 * E[2] + 1e-10) * m
                bad = np.nonzero(~(np.abs(got - want) <= 2 * tol))[0]
                need(not len(bad), 'noise at %r for %s: row %s is %s, expected %s (permutation %s, copied %s)', f, out, bad[:3], got[bad[:3]], want[bad[:3]], [pr[i] for i in bad[:3]], [pc[i] for i in bad[:3]])
            ctx.count(op)
            if f and np.abs(Q).max() > 0 and np.abs(ref).max() > 0:
                seen += 1
    return S, seen


def run_linear(case, ctx):
    S, seen = play(case, ctx, True)
    if any(o[0] in ('dc', 'tdc') for o in case['ops']):
        a = state(S)
        S, _ = play(case, ctx, False)
        b = state(S)
        need({k for k in b if k in a} == set(b), 'models are missing: %s', sorted(map(str, set(b) - set(a)))[:3])
        for k in b:
            need(a[k] == b[k], '%s differs from a session without ac and noise solves', k)
        ctx.count('compared with a session without')
    if seen:
        ctx.nontrivial()


@st.composite
def sstrat(draw):
    c = draw(strat())
    c['sys']['circ'] = 1
    c['sys']['upd'] = {'u': 'default', 'v': 'default'}
    c['ext'] = draw(st.sampled_from([0, 0, 1]))
    c['amp'] = 1.0
    c['sys']['src'] = draw(st.booleans())
    return c


EPS = [None, 0.0]


def inject(what, mode):
    row, eps = EPS
    if row is None or mode != 'DC' or what == 'MATRIXONLY':
        return [], [], True
    return [], [row, -eps], True  # entries add to the residual, a current into the node lowers it


def run_sensitivity(case, ctx):
    R = random.Random(case['seed'])
    S, V = build(case, R)
    ds.circuit_alter(name='Vown', value=0.5)
    args = dict(type='dc', absolute_error=1e-11, relative_error=1e-9, maximum_iterations=40)
    EPS[0] = None
    ds.custom_equation(name='inj', procedure=inject)
    try:
        ds.solve(**args)
    except ds.error:
        ctx.count('no operating point')
        return
    cn = {c: ds.get_circuit_equation_number(node=c) for c in ds.get_circuit_node_list()}
    J, Q, perm = system()
    n = len(J)
    E = equilibrated(J, np.zeros(n))
    if E is None or E[2] > 1e5:
        ctx.count('nearly singular')
        return
    x0 = c14.get_state(S)
    src = {v: complex(R.uniform(-1, 1), 0) for v in V}
    base = {}
    for v, z in src.items():
        ds.circuit_alter(name=v, param='acreal', value=z.real)
        base[v] = ds.get_circuit_node_value(node=('own0' if v == 'Vown' else 's' + v[1:]), solution='dcop')
    ds.solve(type='ac', frequency=0.0)
    ac = read_ac(S, n, cn)
    out = R.choice(sorted(cn))
    ds.solve(type='noise', frequency=0.0, output_node=out)
    U = unknowns(S)
    rows, v, g = R.choice(U)
    i = R.randrange(len(rows))
    lam = ds.get_node_model_values(name='%s_eq_%s_real' % (out, v), **g.w)[i]

    def vector():
        x = np.zeros(n)
        for rr, vv, gg in U:
            x[rr] = list(ds.get_node_model_values(name=vv, **gg.w))
        for c, r in cn.items():
            x[r] = ds.get_circuit_node_value(node=c, solution='dcop')
        return x

    def resolve():
        try:
            ds.solve(**args)
        except ds.error:
            return None
        x = vector()
        c14.put_state(S, x0)
        return x
    h = 1e-4
    D = []
    for sg in (1, -1):
        for v2, z in src.items():
            ds.circuit_alter(name=v2, value=base[v2] + sg * h * z.real)
        D.append(resolve())
    for v2 in src:
        ds.circuit_alter(name=v2, value=base[v2])
    if D[0] is not None and D[1] is not None:
        fd = (D[0] - D[1]) / (2 * h)
        m = max(1e-3, np.abs(ac).max())
        need(np.abs(ac.imag).max() <= 1e-12 * m, 'ac at frequency zero has an imaginary part %r', ac.imag)
        bad = np.nonzero(np.abs(fd - ac.real) > 1e-4 * m)[0]
        need(not len(bad), 'ac at frequency zero: unknowns %s are %s, the DC solution moves by %s', bad[:4], ac.real[bad[:4]], fd[bad[:4]])
        ctx.count('dc sensitivity')
        if np.abs(fd).max() > 1e-3:
            ctx.nontrivial()
    EPS[0] = rows[i]
    D = []
    h = 1e-4 / max(1.0, abs(lam))
    for sg in (1, -1):
        EPS[1] = sg * h
        D.append(resolve())
    EPS[0] = None
    if D[0] is not None and D[1] is not None:
        fd = (D[0] - D[1])[cn[out]] / (2 * h)
        need(abs(fd - lam) <= 1e-4 * max(abs(lam), abs(fd)) + 1e-4 * min(1.0, 1e-4 / h), 'a current injected into equation %s of node %d in %s/%s moves %s by %r, the impedance field is %r (row %s, permutation %s, copied %s)', v, i, g.d, g.r, out, fd, lam, rows[i], perm['row'][rows[i]], perm['copy'][rows[i]])
        ctx.count('injected')
        if fd:
            ctx.nontrivial()


SUITES = [Suite('linear', strat, run_linear, quick=500, thorough=15000), Suite('sensitivity', sstrat, run_sensitivity, quick=300, thorough=10000)]
