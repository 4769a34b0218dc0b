"""C19: what a user-supplied solver is handed is compared with the assembled system at the same state; the same problem is solved with every solver, format and precision and the results compared; faults of user-supplied solvers have to leave every solution as it was."""
from hypothesis import strategies as st
import array, ctypes, os, random
import numpy as np
from harness import Suite, need
import dsx, c14, c17, syslib
from c14 import snapshot, same_snapshot, get_state, put_state
from dsx import ds

PROPERTY = 'C19'
RULE = ('handover: random nonlinear systems with charges (also models that switch matrix entries on and off between iterations) solved with a Python solver in csr and csc format, in double and extended precision: for every factorisation of dc, transient, ac and noise solves the matrix equals the one get_matrix_and_rhs gives at that state (static + a0 dynamic, static + i omega dynamic; 1e-13 of its largest entry, 1e-12 for sums), '
        'rows and columns are sorted and unique, the first right hand side of dc equals the residual, is_same_symbolic is only set when the pattern is that of the previous factorisation of the same solver object, the transpose flag is set for noise, and the solution arrives unchanged from any container. Non-trivial: at least three factorisations compared. '
        'agree: a history of dc, transient, ac and noise solves and bias changes run with the direct solver, Python solvers in both formats, the iterative solver, extended precision, all settings of symbolic reuse and thread counts: every solution that converges agrees with the first configuration (1e-6 of the largest value); a direct solver never gives up where another converges; the direct solver is never handed a changed pattern without a new analysis. Non-trivial: at least two configurations converged at some step. '
        'faults: the Python solver misbehaves at a random call (exception, wrong type, missing key, status False, NaN, wrong length, strings, wrong format, callback removed): the solve fails and every value is as before bit for bit; a NaN in the solution is never accepted; after repair the solve gives the same bits as in a session without the fault. Non-trivial: the fault was reached.')
ASSUMPTIONS = ['the iterative solver has to converge only for systems of one variable with diffusion only, without interfaces, of at most 50 unknowns (the restart length of GMRES); for others the drop strategy of the preconditioner may leave it singular, which is reported as a failure']


class Solver:
    """A dense solver behind the callback interface."""

    def __init__(self, fmt, box='array', log=None, fault=None):
        self.fmt, self.box, self.log, self.fault, self.calls = fmt, box, log, fault, 0

    def __call__(self, **kw):
        self.calls += 1
        if self.fault:
            r = self.fault(self, kw)
            if r is not None:
                return r[0]
        return self.answer(kw)

    def answer(self, kw):
        a = kw['action']
        if a == 'init':
            return dict(solver_object=dict(n=kw['n'], transpose=kw['transpose'], last=None), matrix_format=self.fmt, status=True, message='')
        so = kw['solver_object']
        if a == 'factor':
            ap, ai, ax = (np.array(kw[k]) for k in ('Ap', 'Ai', 'Ax'))
            if kw['is_complex']:
                ax = ax[0::2] + 1j * ax[1::2]
            n = so['n']
            A = np.zeros((n, n), ax.dtype)
            assert len(ap) == n + 1 and ap[0] == 0 and ap[-1] == len(ai) == len(ax), 'malformed matrix'
            for i in range(n):
                c = ai[ap[i]:ap[i + 1]]
                assert np.all(np.diff(c) > 0), 'rows of a column not sorted'
                A[i, c] = ax[ap[i]:ap[i + 1]]
            if self.fmt == 'csc':
                A = A.T
            pat = (ap.tobytes(), ai.tobytes())
            if self.log is not None:
                self.log.append(dict(kind='factor', A=A.copy(), same=kw['is_same_symbolic'], samepat=so['last'] == pat, transpose=so['transpose'], state=self.state() if self.state else None))
            so['last'] = pat
            so['A'] = A
            return dict(status=True, message='')
        b = np.array(kw['b'])
        if kw['is_complex']:
            b = b[0::2] + 1j * b[1::2]
        A = so['A'].T if so['transpose'] else so['A']
        m = np.abs(A).max(axis=1)
        try:
            x = np.linalg.solve(A / m[:, None], b / m)
        except (np.linalg.LinAlgError, FloatingPointError):
            self.failed = True
            return dict(status=False, message='singular', x=[])
        if not np.all(np.isfinite(x)):
            self.failed = True
            return dict(status=False, message='singular', x=[])
        x = x + np.linalg.solve(A / m[:, None], (b - A @ x) / m)  # one step of refinement
        if self.log is not None:
            self.log.append(dict(kind='solve', b=b.copy(), x=x.copy()))
        if kw['is_complex']:
            z = np.empty(2 * len(x))
            z[0::2], z[1::2] = x.real, x.imag
            x = z
        box = 'array' if kw['is_complex'] and self.box in ('list', 'tuple') else self.box  # complex results have to be buffers
        x = {'array': lambda: array.array('d', x.tolist()), 'list': x.tolist, 'tuple': lambda: tuple(x.tolist()), 'numpy': lambda: np.ascontiguousarray(x)}[box]()
        return dict(status=True, message='', x=x)
    state, failed = None, False


def use(solver):
    if solver is None:
        ds.set_parameter(name='direct_solver', value='mkl_pardiso')
    else:
        ds.set_parameter(name='direct_solver', value='custom')
        ds.set_parameter(name='solver_callback', value=solver)


@st.composite
def strat(draw):
    c = draw(c17.strat())
    c['sys']['upd'] = {v: draw(st.sampled_from(['default', 'default', 'log_damp'])) for v in 'uv'}
    c['cupd'] = 'default'
    c['switch'] = draw(st.sampled_from([0, 1, 2]))
    op = st.sampled_from(['dc', 'dc', 'bias', 'tdc', 'bdf1', 'bdf2', 'tr', 'ac', 'noise', 'source'])
    c['ops'] = draw(st.lists(st.tuples(op, st.one_of(st.just(0.0), st.floats(0.01, 100)), st.integers(0, 2**20)), min_size=1, max_size=6))
    c['fmt'] = draw(st.sampled_from(['csr', 'csc']))
    c['box'] = draw(st.sampled_from(['array', 'list', 'tuple', 'numpy']))
    c['limit'] = draw(st.sampled_from([None, None, -1, 0, 1, 2, 5]))
    return c


def build(case, R):
    S, V = c17.build(case, R)
    # sources whose derivatives are switched on above a level: the pattern of the matrix changes
    for s in S:
        for g in s.regs.values():
            if not case['switch']:
                continue
            for v in s.vs:
                if R.random() < 0.3:
                    continue
                o = s.vs[-1] if v == s.vs[0] else s.vs[0]
                lev = R.uniform(-0.3, 1)
                e = 'ifelse(%s>%r,%r*(%s-%r)^2*%s,0)' % (o, lev, R.uniform(0.1, 0.6), o, lev, v if case['switch'] == 2 else '1')
                if case['sys']['src']:
                    e += '+S_' + v
                ds.node_model(name='W_' + v, equation=e, **g.w)
                for x in s.vs:
                    a = float(e.split(',')[1].split('*')[0])
                    k = v if case['switch'] == 2 else '1'
                    t = []
                    if x == o:
                        t.append('2*%r*(%s-%r)*%s' % (a, o, lev, k))
                    if x == v and case['switch'] == 2:
                        t.append('%r*(%s-%r)^2' % (a, o, lev))
                    dm = 'ifelse(%s>%r,%s,0)' % (o, lev, '+'.join(t)) if t else '0'
                    if case['sys']['src']:
                        dm += '+S_%s:%s' % (v, x)
                    ds.node_model(name='W_%s:%s' % (v, x), equation=dm, **g.w)
                g.eq['node_model'] = 'W_' + v
                eq = dict(g.eq)
                for k2 in ('edge_model', 'element_model', 'time_node_model'):
                    if k2 in eq:
                        eq[k2] = eq[k2].split('_')[0] + '_' + v
                ds.equation(name='eq_' + v, variable_name=v, variable_update=case['sys']['upd'][v], **dict(g.w, **eq))
    return S, V


ARGS = dict(absolute_error=1e-9, relative_error=1e-7, maximum_iterations=25)


def play(case, S, V, op, f, pick, hist, extra):
    """Runs one op; returns None, or (type, message or None, info)."""
    R = random.Random(pick)
    if op == 'bias':
        for s in S:
            syslib.rebias(s, R)
        return None
    if op == 'source':
        c17.sources(V, R)
        return None
    if op in ('ac', 'noise'):
        a = dict(type=op, frequency=f)
        if op == 'noise':
            if not case['sys']['circ']:
                return None
            a['output_node'] = R.choice(sorted(ds.get_circuit_node_list()))
        out = [a]
        out.append(dsx.raises(ds.solve, **dict(a, **{k: v for k, v in extra.items() if k == 'solver_type'})))
        return op, out[1], a.get('output_node')
    t = {'dc': 'dc', 'tdc': 'transient_dc', 'bdf1': 'transient_bdf1', 'bdf2': 'transient_bdf2', 'tr': 'transient_tr'}[op]
    if op in ('bdf1', 'tr') and not hist[0] or op == 'bdf2' and hist[0] < 2:
        return None
    h = 0.01 * case['sys']['time']
    try:
        r = ds.solve(type=t, tdelta=h, gamma=0.5 if op == 'bdf2' else 1.0, charge_error=1e30, info=True, **dict(ARGS, **extra))
    except ds.error as ex:
        return op, str(ex), None
    if r['converged']:
        hist[0] = 1 if op == 'tdc' else hist[0] + (op != 'dc')
    return op, None if r['converged'] else 'not converged', r


def run_handover(case, ctx):
    R = random.Random(case['seed'])
    S, V = build(case, R)
    c17.sources(V, R)
    log = []
    sol = Solver(case['fmt'], case['box'], log)
    sol.state = lambda: get_state(S)
    done, hist = 0, [0]
    extra = {} if case['limit'] is None else dict(symbolic_iteration_limit=case['limit'])
    for op, f, pick in case['ops']:
        log.clear()
        use(sol)
        r = play(case, S, V, op, f, pick, hist, extra)
        after = get_state(S)
        use(None)
        if r is None:
            continue
        fac = [e for e in log if e['kind'] == 'factor']
        if op in ('ac', 'noise') and r[1] is not None and not sol.failed and any(e['kind'] == 'solve' for e in log):
            need(False, '%s fails although the solver succeeded: %s', op, r[1])
        if r[1] is not None:
            need('malformed' not in r[1] and 'sorted' not in r[1], '%s: %s', op, r[1])
        for q, e in enumerate(fac):
            need(not e['same'] or e['samepat'], '%s: is_same_symbolic is set in factorisation %d, the pattern is another one', op, q)
            need(e['transpose'] == (op == 'noise'), '%s: transpose is %s', op, e['transpose'])
            if case['limit'] == -1 and op not in ('ac', 'noise'):
                need(not e['same'], 'is_same_symbolic is set although symbolic_iteration_limit is -1')
        h = 0.01 * case['sys']['time']
        for q, e in enumerate(fac[:12]):
            put_state(S, e['state'])
            J, Q, perm = c17.system()
            if op in ('ac', 'noise'):
                A = J + 2j * np.pi * f * Q
            else:
                a0 = {'dc': 0, 'tdc': 0, 'bdf1': 1 / h, 'tr': 2 / h, 'bdf2': 1.5 / (0.5 * h)}[op]
                A = J + a0 * Q
            m = np.abs(A).max()
            if not np.isfinite(m):
                continue
            need(A.shape == e['A'].shape, '%s: the matrix has dimension %d, %d expected', op, len(e['A']), len(A))
            rows = np.abs(A).max(axis=1) + np.abs(J).max(axis=1)
            bad = np.argwhere(~(np.abs(A - e['A']) <= 1e-12 * rows[:, None]))
            need(not len(bad), '%s: factorisation %d: entries %s are %s, assembled %s', op, q, bad[:3].tolist(), [e['A'][tuple(t)] for t in bad[:3]], [A[tuple(t)] for t in bad[:3]])
            done += 1
        if op == 'dc' and fac and len(log) > 1 and log[1]['kind'] == 'solve':
            put_state(S, fac[0]['state'])
            b = np.array(list(ds.get_matrix_and_rhs(format='csr')['static']['rhs']))
            need(np.all(np.abs(b - log[1]['b']) <= 1e-12 * np.abs(b).max()), 'the right hand side handed to the solver differs from the residual: %s, %s', log[1]['b'][:5], b[:5])
            if len(fac) > 1 and not case['ext'] and set(case['sys']['upd'].values()) == {'default'}:
                # the solution of the first system is the update
                for rows, v, g in c17.unknowns(S):
                    x0, x1 = fac[0]['state'][0][g.d, g.r, v], fac[1]['state'][0][g.d, g.r, v]
                    need(all(dsx.bits(p + float(log[1]['x'][i])) == dsx.bits(z) for p, z, i in zip(x0, x1, rows)), 'the update of %s is not the returned solution', v)
                ctx.count('update compared')
        if op in ('ac', 'noise') and r[1] is None:
            x = [e for e in log if e['kind'] == 'solve'][-1]['x']
            if op == 'ac':
                cn = {c: ds.get_circuit_equation_number(node=c) for c in ds.get_circuit_node_list()} if case['sys']['circ'] else {}
                got = c17.read_ac(S, len(x), cn)
                need(np.array_equal(got, x), 'ac: the values stored are not the solution returned')
        put_state(S, after)
        ctx.count(op)
    if done >= 3:
        ctx.nontrivial()


LIB = []


def counters():
    if not LIB:
        LIB.append(ctypes.CDLL(os.environ['DEVSIM_MATH_LIBS']))
    return LIB[0].verif_pardiso_counter(3)


def flags(ext):
    for i, x in enumerate(['extended_solver', 'extended_model', 'extended_equation']):
        ds.set_parameter(name=x, value=ext == 2 or ext == 1 and i == 0)


CONF = st.fixed_dictionaries(dict(solver=st.sampled_from(['pardiso', 'pardiso', 'csr', 'csc', 'iterative', 'iterative']), ext=st.sampled_from([0, 0, 1, 2]), limit=st.sampled_from([None, -1, 0, 1, 5]), env=st.booleans(), threads=st.sampled_from([1, 4])))


@st.composite
def astrat(draw):
    c = draw(strat())
    c['conf'] = [dict(solver='pardiso', ext=0, limit=-1, env=False, threads=1)] + draw(st.lists(CONF, min_size=2, max_size=3))
    return c


def run_agree(case, ctx):
    base = None
    bad0 = counters()
    ok = 0
    for ci, conf in enumerate(case['conf']):
        ext = 0 if conf['solver'] == 'iterative' else conf['ext']
        R = random.Random(case['seed'])
        os.environ.pop('DEVSIM_NEW_SYMBOLIC', None)
        if conf['env']:
            os.environ['DEVSIM_NEW_SYMBOLIC'] = '1'
        try:
            S, V = build(dict(case, ext=ext), R)
            c17.sources(V, R)
            ds.set_parameter(name='threads_available', value=conf['threads'])
            ds.set_parameter(name='threads_task_size', value=4)
            use(Solver(conf['solver']) if conf['solver'] in ('csr', 'csc') else None)
            extra = {} if conf['limit'] is None else dict(symbolic_iteration_limit=conf['limit'])
            if conf['solver'] == 'iterative':
                extra['solver_type'] = 'iterative'
            hist, trace = [0], []
            n = 0
            for k, (op, f, pick) in enumerate(case['ops']):
                r = play(case, S, V, op, f, pick, hist, dict(extra, **({'solver_type': 'direct'} if op in ('ac', 'noise') and extra else {})))
                if r is None:
                    trace.append(None)
                    continue
                op, msg, out = r
                n = n or len(ds.get_matrix_and_rhs(format='csr')['static']['rhs'])
                if base is None and msg is None:
                    J = c17.system()[0]
                    if c17.equilibrated(J, np.zeros(len(J))) is None:
                        ctx.count('not judged: nearly singular system')
                        trace.append(None)
                        break
                if msg is not None:
                    trace.append((op, msg, None))
                else:
                    a, c = get_state(S)
                    x = [np.array(v) for _, v in sorted(a.items())] + [np.array([v for _, v in sorted(c.items())])]
                    if op == 'ac':
                        cn = {q: ds.get_circuit_equation_number(node=q) for q in c}
                        x.append(c17.read_ac(S, n, cn))
                    elif op == 'noise':
                        for rows, v, g in c17.unknowns(S):
                            x.append(np.array(ds.get_node_model_values(name='%s_eq_%s_real' % (out, v), **g.w)) + 1j * np.array(ds.get_node_model_values(name='%s_eq_%s_imag' % (out, v), **g.w)))
                    trace.append((op, None, x))
                if base is not None:
                    b = base[k] if k < len(base) else None
                    if b is None or b[1] is not None:
                        break  # nothing to compare with from here on
                    if msg is not None:
                        if conf['solver'] == 'iterative' and op not in ('ac', 'noise') and (n > 50 or case['sys']['law'] == 'sg' or len(S) > 1 or S[0].itf or len(S[0].vs) > 1):
                            ctx.count('iterative gave up')
                            break
                        J, Q, perm = c17.system()
                        E = c17.equilibrated(J, np.zeros(len(J)))
                        if E is None:
                            break
                        need(False, '%s converges with the first configuration, with %s it ends with: %s', op, conf, msg)
                    for p, q in zip(b[2], trace[-1][2]):
                        if len(p):
                            m = max(1e-2, np.abs(p).max())
                            need(np.all(np.abs(p - q) <= 1e-6 * m), 'step %d, %s: the solution with %s differs by %.3g of %.3g from the first configuration', k, op, conf, np.abs(p - q).max(), m)
                    ok += 1
                    ctx.count(conf['solver'] + (' extended' if ext else ''))
                elif msg is not None:
                    break
            if base is None:
                base = trace + [None] * (len(case['ops']) - len(trace))
        finally:
            os.environ.pop('DEVSIM_NEW_SYMBOLIC', None)
    need(counters() == bad0, 'the direct solver was handed a changed pattern without a new analysis')
    if ok:
        ctx.nontrivial()


FAULTS = ['raise', 'none', 'false', 'nokey', 'status', 'nan', 'short', 'long', 'strings', 'nostring', 'format', 'uncallable', 'nocallback', 'inf', 'message']


@st.composite
def fstrat(draw):
    c = draw(strat())
    c['ext'] = draw(st.sampled_from([0, 0, 1]))
    c.update(fault=draw(st.sampled_from(FAULTS)), at=draw(st.integers(1, 7)), fop=draw(st.sampled_from(['dc', 'dc', 'tdc', 'ac', 'noise'])), freq=draw(st.floats(0.01, 100)), pick=draw(st.integers(0, 2**20)))
    return c


def make_fault(kind, at, hit):
    def fault(s, kw):
        if s.calls < at or kind in ('uncallable', 'nocallback'):
            return None
        a = kw['action']
        if kind in ('nan', 'inf', 'short', 'long', 'strings'):
            if a != 'solve':
                return None
            r = s.answer(kw)
            x = list(r['x'])
            if not x:
                return None
            hit.append(a)
            if kind == 'nan':
                x[-1] = float('nan')
            elif kind == 'inf':
                x[0] = float('inf')
            elif kind == 'short':
                x = x[:-1]
            elif kind == 'long':
                x = x + [0.0]
            else:
                x = ['%r volt' % v for v in x]
            return [dict(r, x=x)]
        if kind == 'format' and a != 'init':
            return None
        hit.append(a)
        if kind == 'raise':
            raise RuntimeError('solver broke')
        if kind == 'none':
            return [None]
        if kind == 'false':
            return [False]
        r = s.answer(kw)
        if kind == 'nokey':
            k = sorted(r)[at % len(r)]
            r.pop(k)
            if k == 'message':
                hit[-1] = 'message'  # only the text for the user is missing
        elif kind == 'status':
            r['status'] = False
        elif kind == 'nostring':
            r['status'] = [0, '', None, []][at % 4]
        elif kind == 'message':
            r['message'] = None
        elif kind == 'format':
            r['matrix_format'] = ['coo', 1, None][at % 3]
        return [r]
    return fault


def run_faults(case, ctx):
    finals = []
    for bad in (True, False):
        R = random.Random(case['seed'])
        S, V = build(case, R)
        c17.sources(V, R)
        use(Solver(case['fmt']))
        hist = [0]
        for op, f, pick in case['ops'][:3]:
            play(case, S, V, op, f, pick, hist, {})
        if bad:
            hit = []
            before = c17.state(S)
            use(Solver(case['fmt'], fault=make_fault(case['fault'], case['at'], hit)))
            if case['fault'] == 'uncallable':
                ds.set_parameter(name='solver_callback', value=[1, 'solver', None][case['at'] % 3])
                hit.append('init')
            elif case['fault'] == 'nocallback':
                ds.set_parameter(name='direct_solver', value='other')
                hit.append('init')
            r = play(case, S, V, case['fop'], case['freq'], case['pick'], hist, {})
            if r is None:
                return
            if hit and (case['fault'] == 'message' or set(hit) == {'message'}) and r[1] is None:
                ctx.count('reply without a usable message accepted')
                return
            if hit and case['fop'] in ('ac', 'noise') and case['fault'] in ('nan', 'inf'):
                ctx.count('not judged: infinite value in a linear solution')
            elif hit:
                need(r[1] is not None, '%s was accepted although the solver misbehaved (%s in %s)', case['fop'], case['fault'], hit[0])
                same_snapshot(before, c17.state(S), '%s with a solver that misbehaves (%s in %s)' % (case['fop'], case['fault'], hit[0]))
            elif r[1] is None:
                ctx.count('fault not reached')
                return
            use(Solver(case['fmt']))
        else:
            use(Solver(case['fmt']))
        r = play(case, S, V, 'dc', 0.0, 1, hist, {})
        finals.append((r[1] is None, c17.state(S)))
    need(finals[0][0] == finals[1][0], 'after a fault (%s) the next solve ends differently', case['fault'])
    a, b = finals[0][1], finals[1][1]
    for k in b:
        if not (isinstance(k, tuple) and isinstance(k[2], str) and k[2].endswith('_prev')):
            need(k in a and a[k] == b[k], '%s differs after a fault of the solver (%s) from a session without it', k, case['fault'])
    ctx.count('fault ' + case['fault'])
    if hit or bad:
        ctx.nontrivial()


SUITES = [Suite('handover', strat, run_handover, quick=250, thorough=10000), Suite('agree', astrat, run_agree, quick=180, thorough=8000), Suite('faults', fstrat, run_faults, quick=200, thorough=8000)]
