"""C27: what the simulator prints (print_* commands, solver log, circuit solutions) is parsed and compared with the values it returns; the same sessions run with every kind of broken output stream and every verbosity, and must end in the same state."""
from hypothesis import strategies as st
import io, random, re, sys
from harness import Suite, need
import dsx, c09, c14, meshgen
from dsx import ds

PROPERTY = 'C27'
RULE = ('values: random node, edge and element models (solutions with special values, uniform values, expressions, in double or extended precision) of random 1D to 3D devices are printed with print_node_values, print_edge_values and print_element_values: the output is the name and every value in the order of get_*_model_values, to 6 digits. Non-trivial: a model with different values. '
        'log: random nonlinear systems (devices, interfaces, circuits) are solved with random limits, with debug_level unset, info or verbose in the global, device or region scope: each iteration, device, region, equation and circuit line, and the node with the largest error where the level of the region asks for it, is that of info=True; '
        'the circuit solution printed for the verbose level is that of get_circuit_node_value, for dc and ac. Non-trivial: at least 2 iterations were printed. '
        'stream: a session (mesh, models, equations, wrong calls, printing, dc, ac, transient and failing solves) runs with a StringIO as sys.stdout, then with None, closed, missing, not a stream, raising from write or flush (now and then, or always), ASCII only with names that are not, under another debug_level; every result and error, and the values in the end, have the same bits, no exception but devsim.error comes out, '
        'and what a partly failing stream takes is part of what the good stream got. Non-trivial: the stream failed at least once.')
ASSUMPTIONS = ['printed numbers have 6 significant digits (5 after the point, as in the code)', 'the wording around the numbers is that of the current release', 'a message that cannot be written is dropped: it is not an error of the command']

SPECIAL = [0.0, -0.0, 1.0, -1.5, 1e-300, 5e-324, 1.7976931348623157e308, 0.1, 123456.5, 9.999995, 9.9999949, -2.5e-7, 1 / 3]


class Grab:
    """sys.stdout for a while."""

    def __init__(self, s=None):
        self.s = io.StringIO() if s is None else s

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self.s
        return self.s

    def __exit__(self, *a):
        sys.stdout = self.old


@st.composite
def strat_values(draw):
    m = draw(c09.mesh_case())
    return dict(m=m, ext=draw(st.sampled_from([False, False, True])), prog=draw(st.lists(st.tuples(st.sampled_from('nel'), st.sampled_from(['sol', 'uni', 'exp', 'any', 'any']), st.integers(0, 2**30), st.sampled_from(['m', 'a@b', 'x y', 'Ω'])), min_size=1, max_size=5)))


def run_values(case, ctx):
    dsx.reset()
    if case['ext']:
        ds.set_parameter(name='extended_model', value=True)
    m = case['m']
    dim = c09.build(m)
    w0 = dict(device=m['dname'])
    for i, (k, how, seed, name) in enumerate(case['prog']):
        R = random.Random(seed)
        w = dict(w0, region=R.choice(sorted(ds.get_region_list(**w0))))
        if k == 'l' and dim == 1:
            ctx.count('no elements')
            need(dsx.raises(ds.print_element_values, name='x', **w), 'printing element values of a 1D region')
            continue
        sol, mod, put, get, lst, prt = {'n': (ds.node_solution, ds.node_model, ds.set_node_values, ds.get_node_model_values, ds.get_node_model_list, ds.print_node_values),
                                        'e': (ds.edge_solution, ds.edge_model, ds.set_edge_values, ds.get_edge_model_values, ds.get_edge_model_list, ds.print_edge_values),
                                        'l': (ds.element_solution, ds.element_model, ds.set_element_values, ds.get_element_model_values, ds.get_element_model_list, ds.print_element_values)}[k]
        name = '%s%d' % (name, i)
        any_ = {'n': 'x', 'e': 'EdgeLength', 'l': 'ElementEdgeCouple'}[k]
        if how == 'any':
            name = R.choice(sorted(lst(**w)))
        elif how == 'exp':
            mod(name=name, equation='%r*%s+%r' % (R.uniform(-9, 9), any_, R.uniform(-1, 1)), **w)
        elif how == 'uni':
            sol(name=name, **w)
            getattr(ds, 'set_%s_value' % {'n': 'node', 'e': 'edge', 'l': 'element'}[k], None)
            v = R.choice(SPECIAL)
            if k == 'n':
                ds.set_node_value(name=name, value=v, **w)
            else:
                put(name=name, values=[v] * len(get(name=any_, **w)), **w)
        else:
            sol(name=name, **w)
            put(name=name, values=[R.choice(SPECIAL) if R.random() < 0.4 else R.uniform(-1, 1) * 10.0 ** R.randint(-20, 20) for _ in get(name=any_, **w)], **w)
        v = list(get(name=name, **w))
        with Grab() as out:
            prt(name=name, **w)
        t = out.getvalue().split('\n')
        while t and t[0] != name:
            # messages about how the values came about
            t.pop(0)
        want = [name] + ['%.5e' % x for x in v] + ['']
        need(len(t) == len(want), 'printing %s: %d lines, expected %d', name, len(t), len(want))
        for j, (p, q) in enumerate(zip(t, want)):
            need(p == q, 'printing %s: line %d is %r, expected %r', name, j, p, q)
        if len(set(t)) > 3:
            ctx.nontrivial()


@st.composite
def strat_log(draw):
    c = draw(c14.strat())
    level = st.sampled_from([None, None, None, 'info', 'verbose', 'other'])
    c.update(glob=draw(level), dev=draw(level), reg=draw(st.lists(level, min_size=1, max_size=3)), ext=0, maxit=draw(st.integers(1, 6)), info=True, ac=draw(st.booleans()))
    return c


def shown(level):
    return level not in (None, 'info')


F5 = lambda v: '%.5e' % v


def run_log(case, ctx):
    R = random.Random(case['seed'])
    with Grab():
        S, cu = c14.build(case, R)
    level = {}
    if case['glob']:
        ds.set_parameter(name='debug_level', value=case['glob'])
    for i, s in enumerate(S):
        dev = case['dev'] if i == 0 else None
        if dev:
            ds.set_parameter(device=s.d, name='debug_level', value=dev)
        for j, r in enumerate(sorted(g.r for g in s.regs.values())):
            lv = case['reg'][(i + j) % len(case['reg'])]
            if lv:
                ds.set_parameter(device=s.d, region=r, name='debug_level', value=lv)
            level[s.d, r] = lv or dev or case['glob']
    args = dict(type='dc', absolute_error=case['abs'], relative_error=case['rel'], maximum_iterations=case['maxit'], info=True)
    with Grab() as out:
        try:
            res = ds.solve(**args)
        except ds.error:
            ctx.count('raised')
            return
    text = out.getvalue()
    keep = re.compile(r'\s*(Iteration: |Device: "|Region: "|Equation: "|Circuit: |RelErrorNode|number of equations )')
    got = [l for l in text.split('\n') if keep.match(l)]
    want = ['number of equations %d' % res['number_of_equations']]
    for it in res['iterations']:
        want.append('Iteration: %d' % it['iteration'])
        for d in it['devices']:
            want.append('  Device: "%s"\tRelError: %s\tAbsError: %s' % (d['name'], F5(d['relative_error']), F5(d['absolute_error'])))
            for r in d['regions']:
                if not r['equations']:
                    continue
                want.append('    Region: "%s"\tRelError: %s\tAbsError: %s' % (r['name'], F5(r['relative_error']), F5(r['absolute_error'])))
                for e in r['equations']:
                    want.append('      Equation: "%s"\tRelError: %s\tAbsError: %s' % (e['name'], F5(e['relative_error']), F5(e['absolute_error'])))
                    if shown(level[d['name'], r['name']]):
                        want.append('\tRelErrorNode: %d\tAbsErrorNode: %d' % (e['relative_error_node'], e['absolute_error_node']))
        if 'circuit' in it:
            want.append('  Circuit: \tRelError: %s\tAbsError: %s' % (F5(it['circuit']['relative_error']), F5(it['circuit']['absolute_error'])))
    for a, b in zip(got, want):
        need(a == b, 'the log has %r, info has %r', a, b)
    need(len(got) == len(want), 'the log has %d lines, info has %d: %s', len(got), len(want), (got + want)[min(len(got), len(want))])
    # circuit solution
    def circuit(text, head, value):
        names = ds.get_circuit_node_list()
        L = text.split('\n')
        if not (names and shown(case['glob'])):
            need(head not in L, '%r is printed for the level %r', head, case['glob'])
            return
        k = [i for i, l in enumerate(L) if l == head]
        need(len(k) == 1, '%r is printed %d times', head, len(k))
        got = dict(l.split('\t') for l in L[k[0] + 1:k[0] + 1 + len(names)])
        need(sorted(got) == sorted(names), 'circuit nodes printed: %s, expected %s', sorted(got), sorted(names))
        for n in names:
            need(got[n] == value(n), '%s: %s is printed as %s, it is %s', head, n, got[n], value(n))
        ctx.count('circuit')
    if res['converged']:
        circuit(text, 'Circuit Solution:', lambda n: '%g' % ds.get_circuit_node_value(node=n, solution='dcop'))
        if case['ac'] and ds.get_circuit_node_list():
            if case['sys']['circ']:
                for q in ('acreal', 'acimag'):
                    ds.circuit_alter(name='Vown', param=q, value=R.uniform(-2, 2))
            with Grab() as out:
                err = dsx.raises(ds.solve, type='ac', frequency=R.choice([0.0, 1.0, 1e3]))
            if not err:
                circuit(out.getvalue(), 'Circuit AC Solution:', lambda n: '(%g,%g)' % tuple(ds.get_circuit_node_value(node=n, solution='ssac_' + q) for q in ('real', 'imag')))
    if len(res['iterations']) > 1:
        ctx.nontrivial()


class Failing(io.StringIO):
    """Raises now and then."""

    def __init__(self, seed, rate, what, exc):
        super().__init__()
        self.R, self.rate, self.what, self.exc, self.failed, self.took = random.Random(seed), rate, what, exc, 0, []

    def fail(self, what):
        if what in self.what and self.R.random() < self.rate:
            self.failed += 1
            raise self.exc('the disk is full')

    def write(self, s):
        self.fail('write')
        self.took.append(s)
        return len(s)

    def flush(self):
        self.fail('flush')


class Odd:
    pass


KINDS = ['none', 'closed', 'missing', 'object', 'write', 'flush', 'both', 'ascii', 'text', 'devsim', 'good']


@st.composite
def strat_stream(draw):
    c = draw(c14.strat())
    for i, m in enumerate(c['m']):
        m['mat'] = draw(st.sampled_from(['Si', 'Glas (weiß)', '\u0394']))
    c.update(ext=0, kind=draw(st.sampled_from(KINDS)), rate=draw(st.sampled_from([0.05, 0.5, 1.0])), level=draw(st.sampled_from([None, 'info', 'verbose'])), info=draw(st.booleans()))
    return c


def session(case):
    """-> [result of each step], final values"""
    out = []

    def do(f, **kw):
        try:
            r = f(**kw)
        except ds.error as e:
            r = 'error'
        out.append((f.__name__, r if isinstance(r, (str, dict, type(None))) else repr(r)))
    R = random.Random(case['seed'])
    S, cu = c14.build(case, R)
    for s in S:
        for g in s.regs.values():
            for v in s.vs:
                do(ds.print_node_values, name=v, **g.w)
            do(ds.node_model, name='pöne', equation='%s*2' % s.vs[0], **g.w)
            do(ds.print_node_values, name='pöne', **g.w)
            do(ds.node_model, name='bad', equation='%s*+(' % s.vs[0], **g.w)
            do(ds.print_edge_values, name='EdgeLength', **g.w)
            do(ds.print_edge_values, name='nothing', **g.w)
            do(ds.equation, name='eq_' + s.vs[0], variable_name='nicht da', **g.w)
    do(ds.solve, type='dc', absolute_error=case['abs'], relative_error=case['rel'], maximum_iterations=case['maxit'], info=case['info'])
    do(ds.solve, type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=3)
    do(ds.solve, type='dc', absolute_error=1e-300, relative_error=1e-300, maximum_iterations=2)
    do(ds.solve, type='transient_dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=3)
    do(ds.solve, type='transient_bdf1', absolute_error=1e30, relative_error=1e30, maximum_iterations=3, tdelta=1e-3, charge_error=1e30)
    do(ds.solve, type='ac', frequency=10.0)
    do(ds.solve, type='nonsense')
    return out, c14.snapshot(S)


def run_stream(case, ctx):
    with Grab() as good:
        a = session(case)
    k = case['kind']
    E = {'write': OSError, 'flush': ValueError, 'both': KeyError, 'devsim': ds.error}.get(k)
    raw = None
    if E:
        s = Failing(case['seed'], case['rate'], {'write': ('write',), 'flush': ('flush',)}.get(k, ('write', 'flush')), E)
    elif k == 'ascii':
        raw = io.BytesIO()
        s = io.TextIOWrapper(raw, encoding='ascii', errors='strict')
    elif k == 'closed':
        s = io.StringIO()
        s.close()
    else:
        s = {'none': None, 'object': Odd(), 'text': 'a string', 'good': io.StringIO(), 'missing': None}[k]
    real = sys.stdout
    sys.stdout = s
    if k == 'missing':
        del sys.stdout
    level = case['level']
    reset, first = dsx.reset, [True]

    def leveled():
        reset()
        if level:
            ds.set_parameter(name='debug_level', value=level)
    try:
        dsx.reset = leveled
        try:
            b = session(case)
        except Exception as e:
            need(isinstance(e, ds.error), 'output stream %s: %r came out', k, e)
            raise
    finally:
        dsx.reset = reset
        sys.stdout = real
    for i, (p, q) in enumerate(zip(a[0], b[0])):
        need(p == q, 'output stream %s, debug_level %s: step %d gave %s, with a good stream %s', k, level, i, q, p)
    need(len(a[0]) == len(b[0]), 'number of steps')
    c14.same_snapshot(a[1], b[1], 'output stream %s, debug_level %s' % (k, level))
    if E:
        if not level:
            left = good.getvalue()
            for t in s.took:
                i = left.find(t)
                need(i >= 0, 'the stream was given %r, which the good one did not get', t)
                left = left[i + len(t):]
        if s.failed:
            ctx.nontrivial()
        ctx.count('failed' if s.failed else 'all taken')
    elif k != 'good':
        ctx.nontrivial()
    ctx.count(k)


SUITES = [Suite('values', strat_values, run_values, quick=400, thorough=12000), Suite('log', strat_log, run_log, quick=1200, thorough=16000), Suite('stream', strat_stream, run_stream, quick=700, thorough=16000)]
