"""C04: histories of definitions, deletions, solution/parameter changes and reads; every read is compared with an evaluation from scratch."""
from hypothesis import strategies as st
from harness import Suite, need
import dsx, meshgen
import numpy as np
from dsx import ds

PROPERTY = 'C04'
RULE = ('A case is a two-region device with an interface, a circuit and a web of node, edge, element, contact and interface models over solutions, parameters of every scope and a circuit node, '
        'followed by a history of redefinitions, deletions, value, parameter and circuit changes, solves and reads. Every value read is compared with a from-scratch numpy evaluation of the current '
        'definitions (expression models) or with the same model created anew (gradients, averages, element fields). Non-trivial: at least one read after a change of something the model depends on.')
ASSUMPTIONS = ['a model whose operand is currently deleted is not read']

N_S, N_N, N_E, N_I = 2, 3, 2, 3
coef = st.integers(-12, 12).map(lambda k: k / 4)
value = st.integers(-400, 400).map(lambda k: k / 200)


def operand_names(kind, rank):
    """operands a model of this kind and rank may use"""
    if kind == 'n':
        return ['s%d' % k for k in range(N_S)] + ['n%d' % k for k in range(rank)] + ['p0', 'p1', 'x', 'cn']
    if kind == 'cm':
        return ['s0', 's1', 'p0', 'n0', 'n1', 'cn', 'x']
    if kind == 'e':
        return ['%s@n%d' % (m, j) for m in ('s0', 's1', 'n0', 'n1', 'n2', 'cm') for j in (0, 1)] + ['e%d' % k for k in range(rank)] + ['es', 'p0', 'p1', 'cn', 'EdgeLength']
    if kind == 't':
        return ['s0@en0', 's0@en1', 's0@en2', 'n2@en0', 'n2@en1', 'e0', 'e1', 'es', 'ts', 'p0', 'cn']
    if kind == 'i':
        return ['%s@r%d' % (m, j) for m in ('s0', 's1', 'n0', 'n2') for j in (0, 1)] + ['i%d' % k for k in range(rank)] + ['p0', 'p1', 'cn']


@st.composite
def expr(draw, kind, rank):
    names = operand_names(kind, rank)
    nt = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
    e = [[draw(coef), []]] if draw(st.booleans()) or nt == 0 else []
    for _ in range(nt):
        e.append([draw(coef), draw(st.lists(st.sampled_from(names), min_size=1, max_size=2))])
    return e


MODELS = [('r0', 'n', k) for k in range(N_N)] + [('r1', 'n', k) for k in range(N_N)] + [('r0', 'cm', 0)] + [('r0', 'e', k) for k in range(N_E)] + [('r0', 't', 0)] + [('i0', 'i', k) for k in range(N_I)]


@st.composite
def strat(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    n = [draw(st.integers(2, 4)), draw(st.integers(1, 2)), 1]
    use = [list(m) for m in MODELS if not (m[1] == 't' and dim == 1)]
    defs = [[m, draw(expr(m[1], m[2]))] for m in use]
    m_ = st.sampled_from(use)

    @st.composite
    def op(draw):
        o = draw(st.sampled_from(['read'] * 6 + ['def'] * 3 + ['set', 'set', 'one', 'uni', 'par', 'par', 'es', 'ts', 'cn', 'del', 'solve', 'alias', 'derived', 'readall', 'fail', 'swap']))
        if o == 'read':
            return [o, draw(m_)]
        if o in ('def', 'swap'):
            m = draw(m_)
            return [o, m, draw(expr(m[1], m[2]))]
        if o == 'del':
            m = draw(m_)
            return [o, m, draw(expr(m[1], m[2])), draw(st.booleans())]
        if o in ('set', 'uni', 'one'):
            return [o, draw(st.sampled_from(['r0', 'r1'])), draw(st.integers(0, N_S - 1)), draw(st.lists(value, min_size=1, max_size=5)), draw(st.integers(0, 50))]
        if o == 'par':
            return [o, draw(st.sampled_from(['p0', 'p1'])), draw(st.sampled_from(['g', 'd', 'r0', 'r1'])), draw(value)]
        if o in ('es', 'ts'):
            return [o, draw(st.lists(value, min_size=1, max_size=5))]
        if o in ('cn', 'alias'):
            return [o, draw(value)]
        if o in ('solve', 'fail'):
            return [o, draw(value), draw(value)]
        return [o, draw(st.integers(0, 19))]
    return {'dim': dim, 'n': n, 'seed': draw(st.integers(0, 10**6)), 'defs': defs, 'ops': draw(st.lists(op(), min_size=3, max_size=40)), 'ext': draw(st.integers(0, 4)) == 0,
            'derived': draw(st.lists(st.integers(0, 19), max_size=6)), 'eager': draw(st.booleans()), 'threads': draw(st.sampled_from([1, 1, 3]))}


R0 = dict(device='d', region='r0')


def derived(k, dim):
    """(commands creating a derived model, names to read)"""
    e, t, n = 'edge', 'element', 'node'
    L = [
        (lambda: ds.edge_average_model(**R0, node_model='n2', edge_model='dav', average_type='arithmetic'), [(e, 'dav')]),
        (lambda: ds.edge_average_model(**R0, node_model='n1', edge_model='dgr', average_type='gradient'), [(e, 'dgr')]),
        (lambda: ds.edge_average_model(**R0, node_model='n2', edge_model='dng', average_type='negative_gradient'), [(e, 'dng')]),
        (lambda: ds.vector_gradient(**R0, node_model='n2', calc_type='default'), [(n, 'n2_gradx')]),
        (lambda: ds.edge_from_node_model(**R0, node_model='n2'), [(e, 'n2@n0'), (e, 'n2@n1')]),
        (lambda: ds.edge_average_model(**R0, node_model='n2', edge_model='dge', average_type='geometric') if False else ds.edge_average_model(**R0, node_model='s1', edge_model='dge', average_type='arithmetic'), [(e, 'dge')]),
        (lambda: ds.node_model(**R0, name='dvs', equation='vec_sum(n2)*s0'), [(n, 'dvs')]),
        (lambda: ds.node_model(**R0, name='dcx', equation='cm*n1 + exp(-s0*s0)'), [(n, 'dcx')]),
        (lambda: ds.edge_average_model(**R0, node_model='n2', edge_model='dad', derivative='w', average_type='arithmetic'), [(e, 'dad:w@n0'), (e, 'dad:w@n1')]),
        (lambda: ds.edge_average_model(**R0, node_model='dps', edge_model='dgg', derivative='w', average_type='geometric'), [(e, 'dgg:w@n0'), (e, 'dgg:w@n1')]),
        (lambda: ds.edge_average_model(**R0, node_model='n2', edge_model='dnd', derivative='w', average_type='negative_gradient'), [(e, 'dnd:w@n0'), (e, 'dnd:w@n1')]),
        (lambda: ds.vector_gradient(**R0, node_model='n1', calc_type='avoidzero'), [(n, 'n1_gradx')]),
    ]
    if dim > 1:
        L += [
            (lambda: ds.element_from_edge_model(**R0, edge_model='e1'), [(t, 'e1_x'), (t, 'e1_y')]),
            (lambda: ds.element_from_node_model(**R0, node_model='n1'), [(t, 'n1@en0'), (t, 'n1@en1'), (t, 'n1@en2')]),
            (lambda: ds.element_pair_from_edge_model(**R0, edge_model='e0'), [(t, 'e0_node0_x'), (t, 'e0_node1_y')]),
            (lambda: ds.element_from_edge_model(**R0, edge_model='e1', derivative='w'), [(t, 'e1_%s:w@en%d' % (c, j)) for c in 'xyz'[:dim] for j in range(dim + 1)]),
            (lambda: ds.element_pair_from_edge_model(**R0, edge_model='e1', derivative='w'), [(t, 'e1_node%d_%s:w@en%d' % (m, c, j)) for m in (0, 1) for c in 'xyz'[:dim] for j in range(dim + 1)]),
            (lambda: ds.element_from_node_model(**R0, node_model='n2:w'), [(t, 'n2:w@en%d' % j) for j in range(dim + 1)]),
            (lambda: ds.vector_element_model(**R0, element_model='t0'), [(t, 't0_x'), (t, 't0_y')]),
            (lambda: (ds.element_from_edge_model(**R0, edge_model='e0'), ds.element_model(**R0, name='dem', equation='(e0_x^2 + e0_y^2)*p0 + ts')), [(t, 'dem')]),
        ]
    return L[k % len(L)]


def vals_of(kind, name):
    if kind == 'node':
        return list(ds.get_node_model_values(**R0, name=name))
    if kind == 'edge':
        return list(ds.get_edge_model_values(**R0, name=name))
    return list(ds.get_element_model_values(**R0, name=name))


class World:
    def __init__(self, case):
        self.case, self.dim = case, case['dim']
        dsx.reset()
        ds.set_parameter(name='threads_available', value=case['threads'])
        ds.set_parameter(name='threads_task_size', value=1)
        if case['ext']:
            for k in ('extended_model', 'extended_equation', 'extended_solver'):
                ds.set_parameter(name=k, value=True)
        mesh = meshgen.grid_mesh(case['dim'], case['n'], case['seed'], split=(1,))
        meshgen.make_device(ds, mesh, device='d')
        self.N = {r: len(ds.get_node_model_values(device='d', region=r, name='x')) for r in ('r0', 'r1')}
        self.x = {r: np.array(ds.get_node_model_values(device='d', region=r, name='x')) for r in ('r0', 'r1')}
        self.sol = {}
        for r in ('r0', 'r1'):
            for k in range(N_S):
                ds.node_solution(device='d', region=r, name='s%d' % k)
                self.sol[r, k] = np.zeros(self.N[r])
        ds.edge_from_node_model(**R0, node_model='node_index')
        self.e = [np.array(ds.get_edge_model_values(**R0, name='node_index@n%d' % j)).astype(int) for j in (0, 1)]
        self.L = np.array(ds.get_edge_model_values(**R0, name='EdgeLength'))
        ds.edge_solution(**R0, name='es')
        self.es = np.zeros(len(self.L))
        if self.dim > 1:
            ds.element_from_node_model(**R0, node_model='node_index')
            self.t = [np.array(ds.get_element_model_values(**R0, name='node_index@en%d' % j)).astype(int) for j in range(3)]
            em = {(min(a, b), max(a, b)): i for i, (a, b) in enumerate(zip(*self.e))}
            self.te = np.array([em[min(a, b), max(a, b)] for a, b in zip(self.t[0], self.t[1])])
            ds.element_solution(**R0, name='ts')
            self.ts = np.zeros(len(self.te))
        for j in (0, 1):
            ds.interface_model(device='d', interface='i0', name='ix%d' % j, equation='node_index@r%d' % j)
        self.ix = [np.array(ds.get_interface_model_values(device='d', interface='i0', name='ix%d' % j)).astype(int) for j in (0, 1)]
        self.cnodes = sorted({i for el in ds.get_element_node_list(device='d', region='r0', contact='c0') for i in el}) if self.dim > 1 else [int(np.argmin(self.x['r0']))]
        # elements list region node indexes
        ds.circuit_element(name='V1', n1='cn', n2='0', value=0.5)
        ds.circuit_node_alias(node='cn', alias='cal')
        self.par = {}
        for s, v in (('g', 1.5), ('d', 0.5)):
            self.setpar('p0', s, v)
        self.setpar('p1', 'g', -0.5)
        # equations of the solve operation: s0 diffuses, bound at the contacts
        for r in ('r0', 'r1'):
            ds.edge_from_node_model(device='d', region=r, node_model='s0')
            ds.edge_model(device='d', region=r, name='fl', equation='(s0@n0-s0@n1)*EdgeInverseLength')
            ds.edge_model(device='d', region=r, name='fl:s0@n0', equation='EdgeInverseLength')
            ds.edge_model(device='d', region=r, name='fl:s0@n1', equation='-EdgeInverseLength')
            ds.node_model(device='d', region=r, name='src', equation='bad*(s0-1)')
            ds.node_model(device='d', region=r, name='src:s0', equation='bad')
            ds.set_parameter(name='bad', value=1.0)
            ds.equation(device='d', region=r, name='eq', variable_name='s0', edge_model='fl', node_model='src', variable_update='default')
            c = 'c0' if r == 'r0' else 'c1'
            ds.contact_node_model(device='d', contact=c, name='bc', equation='s0-b_%s' % c)
            ds.contact_node_model(device='d', contact=c, name='bc:s0', equation='1')
            ds.set_parameter(name='b_' + c, value=0.0)
            ds.contact_equation(device='d', contact=c, name='eq', node_model='bc', edge_current_model='fl')
        ds.interface_model(device='d', interface='i0', name='cont', equation='s0@r0-s0@r1')
        ds.interface_model(device='d', interface='i0', name='cont:s0@r0', equation='1')
        ds.interface_model(device='d', interface='i0', name='cont:s0@r1', equation='-1')
        ds.interface_equation(device='d', interface='i0', name='eq', interface_model='cont', type='continuous')
        ds.solve(type='dc', absolute_error=1e-10, relative_error=1e-10, maximum_iterations=8)
        self.resync()
        self.defs, self.missing = {}, set()
        if self.dim > 1:
            ds.element_from_node_model(**R0, node_model='s0')
        for r in ('r0', 'r1'):
            for m in ('s1',):
                ds.edge_from_node_model(device='d', region=r, node_model=m)
        for (where, kind, k), ex in case['defs']:
            self.define((where, kind, k), ex)
            if where == 'r0' and kind in ('n', 'cm'):
                ds.edge_from_node_model(**R0, node_model=self.name(kind, k))
                if self.dim > 1 and kind == 'n':
                    ds.element_from_node_model(**R0, node_model=self.name(kind, k))
        # inputs of the derivative models; they follow different quantities
        ds.node_solution(**R0, name='w')
        ds.node_model(**R0, name='n2:w', equation='n1*p1 + s1')
        ds.node_model(**R0, name='dps', equation='1 + s1*s1 + n0*n0')
        ds.node_model(**R0, name='dps:w', equation='s0 + p0')
        ds.edge_model(**R0, name='e1:w@n0', equation='p0*n0@n0')
        ds.edge_model(**R0, name='e1:w@n1', equation='es + e0')
        self.derived = []
        for k in case['derived']:
            self.add_derived(k)

    def name(self, kind, k):
        return 'cm' if kind == 'cm' else '%s%d' % (kind, k)

    def add_derived(self, k):
        c, names = derived(k, self.dim)
        if self.missing:
            return
        c()
        if (c, names) not in self.derived:
            self.derived.append((c, names))

    def setpar(self, n, s, v):
        self.par[n, s] = v
        kw = {} if s == 'g' else dict(device='d') if s == 'd' else dict(device='d', region=s)
        ds.set_parameter(name=n, value=v, **kw)

    def getpar(self, n, r):
        for s in (r, 'd', 'g'):
            if (n, s) in self.par:
                return self.par[n, s]

    def render(self, ex):
        return ' + '.join('*'.join(['(%r)' % c] + ops) for c, ops in ex)

    def define(self, m, ex):
        where, kind, k = m
        eq, nm = self.render(ex), self.name(kind, k)
        if kind == 'n':
            ds.node_model(device='d', region=where, name=nm, equation=eq)
        elif kind == 'cm':
            ds.contact_node_model(device='d', contact='c0', name=nm, equation=eq)
        elif kind == 'e':
            ds.edge_model(device='d', region=where, name=nm, equation=eq)
        elif kind == 't':
            ds.element_model(device='d', region=where, name=nm, equation=eq)
        else:
            ds.interface_model(device='d', interface='i0', name=nm, equation=eq)
        self.defs[tuple(m)] = ex
        self.missing.discard(tuple(m))

    def delete(self, m):
        where, kind, k = m
        nm = self.name(kind, k)
        if kind in ('n', 'cm'):
            ds.delete_node_model(device='d', region=where, name=nm)
        elif kind == 'e':
            ds.delete_edge_model(device='d', region=where, name=nm)
        elif kind == 't':
            ds.delete_element_model(device='d', region=where, name=nm)
        else:
            ds.delete_interface_model(device='d', interface='i0', name=nm)
        self.missing.add(tuple(m))

    def read(self, m):
        where, kind, k = m
        nm = self.name(kind, k)
        if kind in ('n', 'cm'):
            return list(ds.get_node_model_values(device='d', region=where, name=nm))
        if kind == 'e':
            return list(ds.get_edge_model_values(device='d', region=where, name=nm))
        if kind == 't':
            return list(ds.get_element_model_values(device='d', region=where, name=nm))
        return list(ds.get_interface_model_values(device='d', interface='i0', name=nm))

    # reference evaluation: (value, magnitude)
    def op(self, o, where, kind, memo):
        n = {'n': lambda: self.N[where], 'cm': lambda: self.N['r0'], 'e': lambda: len(self.L), 't': lambda: len(self.te), 'i': lambda: len(self.ix[0])}[kind]()
        b = lambda v: (np.asarray(v, float) + np.zeros(n), np.abs(np.asarray(v, float)) + np.zeros(n))
        if o in ('p0', 'p1'):
            r = 'r0' if kind != 'n' else where
            v = self.getpar(o, r)
            if kind == 'i' and v != self.getpar(o, 'r1'):
                raise KeyError('regions disagree')
            return b(v)
        if o == 'cn':
            return b(self.cn)
        if o == 'EdgeLength':
            return b(self.L)
        if o == 'x':
            return b(self.x[where])
        if o == 'es':
            return b(self.es if kind == 'e' else self.es[self.te])
        if o == 'ts':
            return b(self.ts)
        base, _, suf = o.partition('@')
        if suf.startswith('r'):
            v = self.node(base, suf, memo)
            i = self.ix[int(suf[1])]
            return v[0][i], v[1][i]
        if suf:
            v = self.node(base, 'r0', memo)
            i = self.t[int(suf[2])] if suf.startswith('en') else self.e[int(suf[1])]
            return v[0][i], v[1][i]
        if base[0] in 'sn' or base == 'cm':
            return self.node(base, where, memo)
        if base[0] == 'e':
            v = self.ev(('r0', 'e', int(base[1])), memo)
            return v if kind == 'e' else (v[0][self.te], v[1][self.te])
        if base[0] == 'i':
            return self.ev(('i0', 'i', int(base[1])), memo)
        raise AssertionError(o)

    def node(self, base, r, memo):
        if base[0] == 's':
            v = self.sol[r, int(base[1])]
            return v, np.abs(v)
        return self.ev((r, 'cm', 0) if base == 'cm' else (r, 'n', int(base[1])), memo)

    def ev(self, m, memo):
        m = tuple(m)
        if m in memo:
            return memo[m]
        if m in self.missing:
            raise KeyError(m)
        where, kind, k = m
        where = 'r0' if kind == 'cm' else where
        V = A = 0.0
        n = None
        for c, ops in self.defs[m]:
            v, a = c, abs(c)
            for o in ops:
                w, z = self.op(o, where, kind, memo)
                v, a = v * w, a * z
            V, A = V + v, A + a
        n = {'n': lambda: self.N[where], 'cm': lambda: self.N['r0'], 'e': lambda: len(self.L), 't': lambda: len(self.te), 'i': lambda: len(self.ix[0])}[kind]()
        V, A = V + np.zeros(n), A + np.zeros(n)
        if kind == 'cm':
            mask = np.zeros(n)
            mask[self.cnodes] = 1
            V, A = V * mask, A * mask
        memo[m] = (V, A)
        return memo[m]

    def check(self, m, what):
        try:
            v, a = self.ev(m, {})
        except KeyError:
            return False
        got = self.read(m)
        need(len(got) == len(v), '%s: %d values for %d', m, len(got), len(v))
        err = np.abs(np.array(got) - v)
        k = int(np.argmax(err - 1e-11 * a))
        need(err[k] <= 1e-11 * a[k] + 1e-200, '%s: model %s = %s reads %r at %d, from scratch %r', what, m, self.render(self.defs[tuple(m)]), got[k], k, float(v[k]))
        return True

    def check_derived(self, what):
        if self.missing:
            return
        olds = [[vals_of(*n) for n in names] for c, names in self.derived]
        for (c, names), old in zip(self.derived, olds):
            c()
            for n, o in zip(names, old):
                new = vals_of(*n)
                if n[1] == 'dvs':          # the sum of a model stored as one value is one product, otherwise it is summed
                    tol = 1e-12 * sum(abs(v) for v in vals_of('node', 'n2')) * max(abs(v) for v in vals_of('node', 's0'))
                    need(dsx.same_bits(o, new) or len(o) == len(new) and all(abs(p - q) <= tol for p, q in zip(o, new)), '%s: %s differs from the same model created anew: %s', what, n, dsx.worst(o, new))
                    continue
                need(dsx.same_bits(o, new), '%s: %s differs from the same model created anew: %s', what, n, dsx.worst(o, new))

    def resync(self):
        for (r, k) in list(self.sol):
            self.sol[r, k] = np.array(ds.get_node_model_values(device='d', region=r, name='s%d' % k))
        self.cn = ds.get_circuit_node_value(solution='dcop', node='cn')


def spread(c, n):
    return [c[(i * 3 + i // 5) % len(c)] for i in range(n)]


def run(case, ctx):
    w = World(case)
    changed = 0
    for i, o in enumerate(case['ops']):
        what = 'op %d %s' % (i, o[0])
        if o[0] == 'read':
            if w.check(o[1], what) and changed:
                ctx.nontrivial()
        elif o[0] in ('def', 'swap'):
            w.define(o[1], o[2])
            changed += 1
            if o[0] == 'swap':
                w.check(o[1], what)
        elif o[0] == 'del':
            if tuple(o[1]) in w.missing:
                continue
            # the models using it are not read while it is missing
            w.delete(o[1])
            if o[3]:
                w.define(o[1], o[2])
            changed += 1
        elif o[0] in ('set', 'uni', 'one'):
            r, k, v, pos = o[1:]
            n = w.N[r]
            if o[0] == 'set':
                w.sol[r, k] = np.array(spread(v, n))
                ds.set_node_values(device='d', region=r, name='s%d' % k, values=list(w.sol[r, k]))
            elif o[0] == 'uni':
                w.sol[r, k] = np.full(n, v[0])
                for q in range(n):
                    ds.set_node_value(device='d', region=r, name='s%d' % k, index=q, value=v[0])
            else:
                w.sol[r, k] = w.sol[r, k].copy()
                w.sol[r, k][pos % n] = v[0]
                ds.set_node_value(device='d', region=r, name='s%d' % k, index=pos % n, value=v[0])
            changed += 1
        elif o[0] == 'par':
            w.setpar(o[1], o[2], o[3])
            changed += 1
        elif o[0] == 'es':
            w.es = np.array(spread(o[1], len(w.es)))
            ds.set_edge_values(**R0, name='es', values=list(w.es))
            changed += 1
        elif o[0] == 'ts' and w.dim > 1:
            w.ts = np.array(spread(o[1], len(w.ts)))
            ds.set_element_values(**R0, name='ts', values=list(w.ts))
            changed += 1
        elif o[0] == 'cn':
            w.cn = o[1]
            ds.set_circuit_node_value(solution='dcop', node='cn', value=o[1])
            changed += 1
        elif o[0] == 'alias':
            w.cn = o[1]
            ds.set_circuit_node_value(solution='dcop', node='cal', value=o[1])
            changed += 1
        elif o[0] in ('solve', 'fail'):
            ds.set_parameter(name='b_c0', value=o[1])
            ds.set_parameter(name='b_c1', value=o[2])
            ds.circuit_alter(name='V1', value=o[2])
            if o[0] == 'fail' and o[1] < 0:
                ds.set_parameter(name='bad', value=1e300)
            try:
                ds.solve(type='dc', absolute_error=1e-10, relative_error=1e-10, maximum_iterations=1 if o[0] == 'fail' and o[1] >= 0 else 8)
                need(o[0] != 'solve' or abs(ds.get_circuit_node_value(solution='dcop', node='cn') - o[2]) < 1e-6, 'solve did not move the circuit node')
            except ds.error:
                pass
            ds.set_parameter(name='bad', value=1.0)
            w.resync()
            changed += 1
        elif o[0] == 'derived':
            if not w.missing:
                w.add_derived(o[1])
        elif o[0] == 'readall':
            for m in sorted(w.defs):
                w.check(m, what)
            w.check_derived(what)
        if case['eager'] and o[0] not in ('read', 'readall', 'derived'):
            w.check_derived(what)
    for m in sorted(w.defs):
        if w.check(m, 'end') and changed:
            ctx.nontrivial()
    w.check_derived('end')
    ctx.count('dim %d' % case['dim'])


SUITES = [Suite('histories', strat, run, quick=3500, thorough=40000)]
