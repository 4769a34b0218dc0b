"""C26: histories of setting values through every kind of container, single assignments and copies, in double and extended precision, against a list model; meshes and initial conditions passed through different containers; parameters and names of any kind."""
from hypothesis import strategies as st
import array, collections, ctypes, decimal, fractions, math, random, struct
import numpy as np
from harness import Suite, need
import dsx, meshgen
from dsx import ds

PROPERTY = 'C26'
RULE = ('A case is a device (1D, 2D or 3D), solution models for nodes, edges and elements in double and extended precision, and a history of assignments: lists, tuples, ranges, array.array of every type code, numpy arrays of every numeric type (native, byte-swapped, strided, reversed, read-only), memoryviews, ctypes arrays, deques, user '
        'sequences, lists mixing numbers of any type and numeric strings, single values, copies from another model, and wrong ones (lengths, items that are no numbers, things that are no sequences). Values are random bit patterns, integers over the full range of the type and special values. Oracle: a list of Python floats per model; reading gives exactly these '
        '(sign of zero included, any NaN for NaN) with the length of the region, a wrong assignment fails and leaves all of them. Meshes, initial conditions and custom matrix entries given in different containers have the same effect; parameters come back as the object that was given; names and materials come back as the same text. Non-trivial: at least one container other than a list was accepted, or one rejected.')
ASSUMPTIONS = ['a bytes object is raw double data, as the interface defines it, and is not generated', 'numeric strings are numbers (the command interface converts on purpose)', 'bits of a NaN are not compared and signalling NaNs are not generated']

FCODES = 'fd'
ICODES = 'bBhHiIlLqQ'
NPT = ['f2', 'f4', 'f8', 'g', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '?', 'O']
CTY = ['c_double', 'c_float', 'c_int', 'c_long', 'c_ubyte', 'c_short', 'c_ulonglong', 'c_longdouble']


class Seq:
    """A user's sequence."""
    def __init__(self, v):
        self.v = v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]


class Num:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


class Sub(float):
    pass


class Lies(Seq):
    def __getitem__(self, i):
        if i == len(self.v) - 1:
            raise LookupError('not there')
        return self.v[i]


SPECIAL = [0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3, -1.0, 1e22, 2.0**53 + 2, 1 + 2.0**-52, 3.0]


def real(R):
    k = R.random()
    if k < 0.3:
        return R.choice(SPECIAL)
    if k < 0.6:
        v = struct.unpack('<d', struct.pack('<Q', R.getrandbits(64)))[0]
        return v if v == v else math.nan        # no signalling NaN
    return R.choice([R.uniform(-1, 1), R.gauss(0, 1e10), float(R.randrange(-5, 5))])


def whole(R, lo, hi):
    return R.choice([lo, hi, 0 if lo <= 0 <= hi else lo, min(hi, max(lo, R.randrange(-3, 4))), R.randint(lo, hi)])


def container(kind, n, R):
    """(object, expected floats)"""
    k, _, x = kind.partition(':')
    f = [real(R) for _ in range(n)]
    if k == 'list':
        return f, f
    if k == 'tuple':
        return tuple(f), f
    if k == 'range':
        a, s = R.randrange(-10, 10), R.choice([1, 2, -3])
        v = range(a, a + s * n, s)
        return v, [float(i) for i in v]
    if k == 'array':
        if x in FCODES:
            v = array.array(x, [0.0] * n)
            for i in range(n):
                v[i] = f[i] if x == 'd' or abs(f[i]) < 1e38 or not math.isfinite(f[i]) else 1.5
        else:
            b = 8 * array.array(x).itemsize
            lo, hi = (0, 2**b - 1) if x.isupper() else (-2**(b - 1), 2**(b - 1) - 1)
            v = array.array(x, [whole(R, lo, hi) for _ in range(n)])
        return v, [float(i) for i in v]
    if k in ('numpy', 'swapped', 'strided', 'reversed', 'frozen', 'column', 'npview'):
        t = np.dtype(x)
        if t.kind == 'f':
            with np.errstate(all='ignore'):
                v = np.array(f).astype(t)
        elif t.kind == 'b':
            v = np.array([R.random() < 0.5 for _ in range(n)])
        elif t.kind == 'O':
            v = np.array([R.choice([1.5, 7, True, Num(2.5)]) for _ in range(n)], dtype=object)
        else:
            q = np.iinfo(t)
            v = np.array([whole(R, int(q.min), int(q.max)) for _ in range(n)], dtype=t)
        if k == 'swapped':
            v = v.astype(t.newbyteorder())
        elif k == 'strided':
            w = np.zeros(3 * n, dtype=t)
            w[::3] = v
            v = w[::3]
        elif k == 'reversed':
            v = v[::-1]
        elif k == 'frozen':
            v.flags.writeable = False
        elif k == 'column':
            w = np.zeros((n, 2), dtype=t)
            w[:, 1] = v
            v = w[:, 1]
        elif k == 'npview' and t.kind != 'O':
            return memoryview(v), [float(i) for i in v] if t.kind != 'x' else None
        return v, [float(i) for i in v]
    if k == 'view':
        v, e = container('array:' + x, n, R)
        return memoryview(v), e
    if k == 'half':
        # a view of every second item
        v, e = container('array:' + x, 2 * n, R)
        return memoryview(v)[::2], e[::2]
    if k == 'ctypes':
        T = getattr(ctypes, x)
        if 'double' in x or 'float' in x:
            v = (T * n)(*[y if math.isfinite(y) and abs(y) < 1e38 else 2.5 for y in f])
        else:
            v = (T * n)(*[R.randrange(0, 120) for _ in f])
        return v, [float(i) for i in v]
    if k == 'deque':
        return collections.deque(f), f
    if k == 'user':
        return Seq(f), f
    if k == 'userlist':
        return collections.UserList(f), f
    if k == 'bytearray':
        v = bytearray(R.randrange(256) for _ in range(n))
        return v, [float(i) for i in v]
    if k == 'mixed':
        v = []
        for y in f:
            c = R.randrange(14)
            v.append([y, R.randrange(-5, 5), R.random() < 0.5, fractions.Fraction(R.randrange(1, 9), 3), decimal.Decimal('0.1'), repr(y), ' 1.5 ', '1_0', np.float32(1.1), np.int64(-7), Num(y), Sub(y), 2**70 + 1, np.float64(y)][c])
        return v, [float(i) for i in v]
    raise KeyError(kind)


KINDS = ['list', 'tuple', 'range', 'deque', 'user', 'userlist', 'bytearray', 'mixed', 'mixed'] + ['array:' + c for c in FCODES + ICODES] + ['numpy:' + t for t in NPT] + ['view:' + c for c in FCODES + ICODES] + ['half:' + c for c in 'dfil'] + ['ctypes:' + c for c in CTY] \
    + [k + ':' + t for k in ('swapped', 'strided', 'reversed', 'frozen', 'column', 'npview') for t in ('f4', 'f8', 'i4', 'i8')]
BAD = ['short', 'long', 'empty', 'double', 'none', 'number', 'set', 'dict', 'gen', 'iter', 'item:none', 'item:text', 'item:list', 'item:object', 'item:complex', 'item:huge', 'item:evil', 'lies', 'text', 'objarray', 'strarray', 'matrix', 'half']


class Evil:
    def __float__(self):
        raise OSError('no number')


def wrong(kind, n, R):
    f = [real(R) for _ in range(n)]
    k, _, x = kind.partition(':')
    if k == 'short':
        return container(R.choice(KINDS), n - 1, R)[0]
    if k == 'long':
        return container(R.choice(KINDS), n + 1, R)[0]
    if k == 'double':
        return container(R.choice(KINDS), 2 * n, R)[0]
    if k == 'half':
        # as many bytes as are wanted, but not as many items
        return array.array('f', [1.0] * (2 * n)) if R.random() < 0.5 else np.ones(8 * n, dtype='i1')
    if k == 'empty':
        return R.choice([[], (), array.array('d'), np.zeros(0), range(0)])
    if k == 'item':
        f[R.randrange(n)] = {'none': None, 'text': R.choice(['abc', '', '1,5', '0x10', '1e']), 'list': [1.0], 'object': object(), 'complex': 1j, 'huge': 10**400, 'evil': Evil()}[x]
        return f if R.random() < 0.7 else tuple(f)
    return {'none': None, 'number': 1.5, 'set': set(range(n)), 'dict': dict.fromkeys(range(n), 1.0), 'gen': (y for y in f), 'iter': iter(f), 'lies': Lies(f), 'text': 'x' * n, 'objarray': np.array([1.0] * (n - 1) + [None], dtype=object), 'strarray': np.array(['a'] * n),
            'matrix': [[1.0]] * n}[k]


def same(a, b):
    return len(a) == len(b) and all(dsx.bits(x) == dsx.bits(y) or (x != x and y != y) for x, y in zip(a, b))


def device(dim, div):
    ds.reset_devsim()
    if dim == 1:
        M = meshgen.line_mesh([0.0, 1.0, 2.5, 3.0, 4.0][:div + 2])
        meshgen.make_device(ds, M, device='d', meshname='m')
    else:
        M = meshgen.grid_mesh(dim, [div, 1, 1][:dim], 1, 0.1)
        meshgen.make_device(ds, M, device='d', meshname='m')
    return ds.get_region_list(device='d')[0]


SET = {'node': ds.set_node_values, 'edge': ds.set_edge_values, 'element': ds.set_element_values}
GET = {'node': ds.get_node_model_values, 'edge': ds.get_edge_model_values, 'element': ds.get_element_model_values}
MAKE = {'node': ds.node_solution, 'edge': ds.edge_solution, 'element': ds.element_solution}
EXPR = {'node': ds.node_model, 'edge': ds.edge_model, 'element': ds.element_model}


def history(case, ctx):
    r = device(case['dim'], case['div'])
    w = dict(device='d', region=r)
    n = {'node': len(ds.get_node_model_values(name='x', **w)), 'edge': len(ds.get_edge_model_values(name='EdgeLength', **w))}
    if case['dim'] > 1:
        ds.element_from_node_model(node_model='x', **w)
        n['element'] = len(ds.get_element_model_values(name='x@en0', **w))
    state, wide = {}, {}
    for i, (t, ext) in enumerate(case['models']):
        if t in n:
            ds.set_parameter(name='extended_model', value=ext)
            MAKE[t](name='s%d' % i, **w)
            EXPR[t](name='e%d' % i, equation='s%d*2' % i, **w)
            state[t, 's%d' % i] = [0.0] * n[t]
            wide[t, 's%d' % i] = ext
    if not state:
        return
    other = 0
    for seed, op, arg in case['ops']:
        R = random.Random(seed)
        t, name = R.choice(sorted(state))
        N = n[t]
        if op == 'set':
            v, e = container(arg, N, R)
            need(dsx.raises(SET[t], name=name, values=v, **w) is None, '%s values through %s were rejected: %s', t, arg, dsx.raises(SET[t], name=name, values=v, **w))
            state[t, name] = e
            other += arg != 'list'
        elif op == 'bad':
            v = wrong(arg, N, R)
            need(dsx.raises(SET[t], name=name, values=v, **w), '%s accepted for %d %s values', arg, N, t)
            other += 1
        elif op == 'copy':
            q = R.choice(sorted(k[1] for k in state if k[0] == t))
            SET[t](name=name, init_from=q, **w)
            state[t, name] = list(state[t, q])
        elif op == 'one' and t == 'node':
            i = R.randrange(N)
            v, e = container(R.choice(['list', 'mixed', 'numpy:f4', 'numpy:i8', 'array:Q', 'numpy:g']), 1, R)
            ds.set_node_value(name=name, index=R.choice([i, str(i), np.int32(i)]), value=v[0], **w)
            state[t, name] = list(state[t, name])
            state[t, name][i] = e[0]
        elif op == 'all' and t == 'node':
            v, e = container(R.choice(['list', 'mixed']), 1, R)
            ds.set_node_value(name=name, value=v[0], **w)
            state[t, name] = e * N
        elif op == 'badone' and t == 'node':
            k = R.choice(['value', 'index'])
            q = dict(name=name, index=R.randrange(N), value=1.25, **w)
            q[k] = R.choice([None, 'abc', [1.0], object(), 1j, Evil()]) if k == 'value' else R.choice([None, 'abc', 1.5, N, -2, 2**40, [0], Evil()])
            need(dsx.raises(ds.set_node_value, **q), 'set_node_value accepted %r', q)
            other += 1
        elif op == 'derived':
            # reading another model in between must not matter
            try:
                g = GET[t](name='e' + name[1:], **w)
                need(len(g) == N, 'derived model has %d values', len(g))
            except ds.error:
                pass        # the values may overflow
        for (t, m), e in state.items():
            g = GET[t](name=m, **w)
            need(same(g, e), '%s model %s after %s %s: %s (%s)', t, m, op, arg, dsx.worst(g, e), 'extended' if wide[t, m] else 'double')
    g = GET[t](name=m, **w)
    need(isinstance(g, array.array) and g.typecode == 'd', 'values come as %r', type(g))
    ctx.nontrivial(other)
    for _, op, arg in case['ops']:
        ctx.count(op + ' ' + arg.split(':')[0])


def ints(kind, v):
    v = [int(x) for x in v]
    return {'list': lambda: v, 'tuple': lambda: tuple(v), 'int32': lambda: np.array(v, dtype='i4'), 'int64': lambda: np.array(v, dtype='i8'), 'uint64': lambda: np.array(v, dtype='u8'), 'i': lambda: array.array('i', v), 'l': lambda: array.array('l', v), 'L': lambda: array.array('L', v), 'q': lambda: array.array('q', v),
            'H': lambda: array.array('H', v), 'view': lambda: memoryview(array.array('i', v)), 'strided': lambda: np.repeat(np.array(v, dtype='i8'), 2)[::2], 'swapped': lambda: np.array(v, dtype='>i4'), 'user': lambda: Seq(v), 'ctypes': lambda: (ctypes.c_long * len(v))(*v), 'str': lambda: [str(x) for x in v], 'npint': lambda: [np.int16(x) for x in v]}[kind]()


INTS = ['list', 'tuple', 'int32', 'int64', 'uint64', 'i', 'l', 'L', 'q', 'H', 'view', 'strided', 'swapped', 'user', 'ctypes', 'str', 'npint']


def floats(kind, v):
    v = [float(x) for x in v]
    return {'list': lambda: v, 'tuple': lambda: tuple(v), 'f8': lambda: np.array(v), 'd': lambda: array.array('d', v), 'view': lambda: memoryview(array.array('d', v)), 'swapped': lambda: np.array(v, dtype='>f8'), 'strided': lambda: np.repeat(np.array(v), 3)[::3], 'user': lambda: Seq(v), 'ctypes': lambda: (ctypes.c_double * len(v))(*v),
            'str': lambda: [repr(x) for x in v], 'matrix': lambda: np.array(v).reshape(-1, 3) if len(v) % 3 == 0 else np.array(v), 'g': lambda: np.array(v, dtype='g')}[kind]()


FLOATS = ['list', 'tuple', 'f8', 'd', 'view', 'swapped', 'strided', 'user', 'ctypes', 'str', 'matrix', 'g']


def mesh(case, ctx):
    """The same mesh through any container."""
    R = random.Random(case['seed'])
    dim = case['dim']
    M = meshgen.grid_mesh(dim, [2, 1, 1][:dim], case['seed'], 0.3, [1]) if dim > 1 else meshgen.line_mesh([0.0, R.uniform(0.1, 1), R.uniform(1.1, 2), R.uniform(2.5, 4)])
    ds.reset_devsim()
    q = meshgen.gmsh_args(M)
    old = ds.create_gmsh_mesh
    got = {}

    def make(mesh, coordinates, physical_names, elements):
        return old(mesh=mesh, coordinates=floats(case['floats'], coordinates), elements=ints(case['ints'], elements), physical_names=tuple(physical_names) if case['names'] else Seq(physical_names))
    ds.create_gmsh_mesh = make
    try:
        meshgen.make_device(ds, M, device='a', meshname='a')
    finally:
        ds.create_gmsh_mesh = old
    meshgen.make_device(ds, M, device='b', meshname='b')
    for r in ds.get_region_list(device='b'):
        for m in 'xyz'[:dim] + 'V':
            m = m if m != 'V' else 'NodeVolume'
            a, b = (ds.get_node_model_values(device=d, region=r, name=m) for d in 'ab')
            need(dsx.same_bits(a, b), 'mesh through %s and %s: %s differs: %s', case['floats'], case['ints'], m, dsx.worst(a, b))
        a, b = (ds.get_element_node_list(device=d, region=r) for d in 'ab')
        need(a == b, 'elements differ')
        X = sorted(zip(*[ds.get_node_model_values(device='a', region=r, name=m) for m in 'xyz'[:dim]]))
        have = {tuple(p[:dim]) for p in M['coords']}
        need(all(p in have for p in X), 'coordinates of the device are not those given')
    need(sorted(ds.get_contact_list(device='a')) == sorted(ds.get_contact_list(device='b')), 'contacts')
    ctx.nontrivial(case['floats'] != 'list' or case['ints'] != 'list')


def solve_world(dim):
    r = device(dim, 2)
    w = dict(device='d', region=r)
    ds.node_solution(name='u', **w)
    ds.set_node_values(name='u', init_from='x', **w)
    ds.node_model(name='F', equation='u^2+1', **w)
    ds.node_model(name='F:u', equation='2*u', **w)
    ds.node_model(name='Q', equation='3*u', **w)
    ds.node_model(name='Q:u', equation='3', **w)
    ds.equation(name='eq', variable_name='u', node_model='F', time_node_model='Q', **w)
    return r


def matrix():
    M = ds.get_matrix_and_rhs(format='csr')
    return {k: {a: list(b) for a, b in M[k].items()} if isinstance(M[k], dict) else list(M[k]) for k in sorted(M) if k != 'format'}


def entries(case, ctx):
    """Initial conditions and custom matrix entries through any container."""
    R = random.Random(case['seed'])
    out = []
    for kf, ki in (('list', 'list'), (case['floats'] if case['floats'] != 'matrix' else 'f8', case['ints'])):
        r = solve_world(case['dim'])
        w = dict(device='d', region=r)
        N = len(ds.get_node_model_values(name='u', **w))
        R = random.Random(case['seed'])
        row = [R.randrange(N) for _ in range(3)]
        col = [R.randrange(N) for _ in range(3)]
        val = [R.uniform(-1, 1) for _ in range(3)]
        if case['what'] == 'custom':
            def seq(v):
                return {'tuple': tuple(v), 'user': Seq(v), 'strided': collections.deque(v), 'str': [str(x) for x in v]}.get(kf, list(v))

            def f(what, mode):
                if mode == 'TIME':
                    return [], [], True
                a, b = [], []
                for i, j, v in zip(row, col, val):
                    a += [i, j, v]
                    b += [i, v]
                return [seq(a), seq(b), kf == 'tuple']
            before = matrix()
            ds.custom_equation(name='c', procedure=f)
            out.append((before, matrix()))
        else:
            a, b = [R.uniform(-1, 1) for _ in range(N)], [R.uniform(-1, 1) for _ in range(N)]
            ds.get_matrix_and_rhs()
            dsx.raises(ds.solve, type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
            ds.set_initial_condition(static_rhs=floats(kf, a), dynamic_rhs=floats(kf, b))
            e = dsx.raises(ds.solve, type=case['kind'], tdelta=0.5, absolute_error=1e30, relative_error=1e30, charge_error=1e30, maximum_iterations=2)
            out.append((e is None, list(map(dsx.bits, ds.get_node_model_values(name='u', **w)))))
            ctx.count('step %s' % (e is None))
            for bad in (object(), [None] * N, ['x'] * N):
                need(dsx.raises(ds.set_initial_condition, static_rhs=bad, dynamic_rhs=b), 'initial condition %r accepted', bad)
    need(out[0] == out[1], '%s through %s: %.200r instead of %.200r', case['what'], case['floats'], out[1], out[0])
    if case['what'] == 'custom':
        before, after = out[0]

        def dense(m):
            d = {}
            for i in range(len(m['ap']) - 1):
                for k in range(m['ap'][i], m['ap'][i + 1]):
                    d[i, m['ai'][k]] = d.get((i, m['ai'][k]), 0.0) + m['av'][k]
            return d
        A, B = dense(before['static']), dense(after['static'])
        rhs = list(before['static']['rhs'])
        for i, j, v in zip(row, col, val):
            A[i, j] = A.get((i, j), 0.0) + v
            rhs[i] -= v
        need(all(abs(A.get(k, 0.0) - B.get(k, 0.0)) <= 1e-14 * (1 + abs(A.get(k, 0.0))) for k in set(A) | set(B)), 'custom matrix entries')
        need(all(abs(x - y) <= 1e-14 * (1 + abs(x)) for x, y in zip(rhs, after['static']['rhs'])), 'custom rhs entries')
        full = lambda m: {k: v for k, v in dense(m).items() if v}
        need(full(after['dynamic']) == full(before['dynamic']) and after['dynamic']['rhs'] == before['dynamic']['rhs'], 'custom entries of no time part changed it')
    ctx.nontrivial(case['floats'] != 'list')


class Thing:
    pass


def objects(R):
    return R.choice([lambda: real(R), lambda: R.randrange(-2**70, 2**70), lambda: True, lambda: 'text é中\U0001f600', lambda: [1, 'a', None], lambda: {'a': [1.5]}, lambda: (1, 2), Thing, lambda: b'ab\0c', lambda: Thing, lambda: len, lambda: 1j, lambda: np.float32(1.1), lambda: np.arange(3), lambda: Num(2.5), lambda: '1.5', lambda: 'a\0b',
                      lambda: fractions.Fraction(1, 3), lambda: float('nan')])()


TEXT = st.text(st.characters(blacklist_categories=('Cs',), min_codepoint=1), min_size=1, max_size=12)


def texts(case, ctx):
    """Parameters come back as they were given, names as the same text."""
    r = device(1, 2)
    R = random.Random(case['seed'])
    have = {}
    scopes = [dict(), dict(device='d'), dict(device='d', region=r)]
    for i in range(case['n']):
        s, name = R.randrange(3), R.choice(case['names'])
        o = objects(R)
        ds.set_parameter(name=name, value=o, **scopes[s])
        have[s, name] = o
    for (s, name), o in have.items():
        g = ds.get_parameter(name=name, **scopes[s])
        need(g is o or (type(g) is type(o) and isinstance(o, (int, float, str)) and (g == o or g != g and o != o)), 'parameter %r: %r was given, %r comes back', name, o, g)
        need(name in ds.get_parameter_list(**scopes[s]), 'parameter %r is not listed', name)
    for name in sorted(set(case['names'])):
        for f, g, w in ((ds.set_material, ds.get_material, dict(device='d', region=r)), (ds.set_material, ds.get_material, dict(device='d', contact=ds.get_contact_list(device='d')[0]))):
            f(material=name, **w)
            need(g(**w) == name, 'material %r comes back as %r', name, g(**w))
        e = dsx.raises(ds.node_solution, device='d', region=r, name=name)
        if e is None:
            need(name in ds.get_node_model_list(device='d', region=r), 'model %r is not listed', name)
            v = [1.5 * i for i in range(len(ds.get_node_model_values(device='d', region=r, name='x')))]
            if ds.get_node_model_values(device='d', region=r, name=name) is not None and name not in ('x', 'y', 'z'):
                ds.set_node_values(device='d', region=r, name=name, values=v)
                need(list(ds.get_node_model_values(device='d', region=r, name=name)) == v, 'values of %r', name)
            ctx.count('model name')
        ds.add_circuit_node(name='n' + name)
        need('n' + name in ds.get_circuit_node_list(), 'circuit node %r is not listed', name)
    names = sorted(set(case['names']))
    for i, name in enumerate(names):
        ds.create_1d_mesh(mesh='m.' + name)
        for j, p in enumerate((0, 1, 2)):
            ds.add_1d_mesh_line(mesh='m.' + name, pos=p, ps=1, tag=name + str(j))
        ds.add_1d_region(mesh='m.' + name, region='r' + name, material=name, tag1=name + '0', tag2=name + '2')
        ds.add_1d_contact(mesh='m.' + name, name='a' + name, material=name, tag=name + '0')
        ds.add_1d_contact(mesh='m.' + name, name='b' + name, material=name, tag=name + '2')
        ds.finalize_mesh(mesh='m.' + name)
        ds.create_device(mesh='m.' + name, device='D' + name)
        need('m.' + name in ds.get_mesh_list() and 'D' + name in ds.get_device_list(), 'mesh or device %r is not listed', name)
        need(ds.get_region_list(device='D' + name) == ('r' + name,) and sorted(ds.get_contact_list(device='D' + name)) == ['a' + name, 'b' + name], 'names %r, %r', ds.get_region_list(device='D' + name), ds.get_contact_list(device='D' + name))
        need(ds.get_material(device='D' + name, region='r' + name) == name, 'material %r', name)
    ctx.nontrivial(True)


@st.composite
def history_strat(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.integers(0, 2**32), st.just('set'), st.sampled_from(KINDS)), st.tuples(st.integers(0, 2**32), st.just('bad'), st.sampled_from(BAD)), st.tuples(st.integers(0, 2**32), st.sampled_from(['copy', 'one', 'all', 'badone', 'derived']), st.just(''))), min_size=1, max_size=14))
    return dict(dim=draw(st.integers(1, 3)), div=draw(st.integers(1, 3)), models=draw(st.lists(st.tuples(st.sampled_from(['node', 'edge', 'element']), st.booleans()), min_size=1, max_size=4)), ops=ops)


@st.composite
def mesh_strat(draw):
    return dict(dim=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2**32)), floats=draw(st.sampled_from(FLOATS)), ints=draw(st.sampled_from(INTS)), names=draw(st.booleans()))


@st.composite
def entries_strat(draw):
    return dict(dim=draw(st.integers(1, 2)), seed=draw(st.integers(0, 2**32)), floats=draw(st.sampled_from(FLOATS)), ints='list', what=draw(st.sampled_from(['custom', 'initial'])), kind=draw(st.sampled_from(['transient_bdf1', 'transient_tr'])))


@st.composite
def texts_strat(draw):
    return dict(seed=draw(st.integers(0, 2**32)), n=draw(st.integers(1, 20)), names=draw(st.lists(TEXT, min_size=1, max_size=5)))


SUITES = [Suite('history', history_strat(), history, quick=15000, thorough=120000), Suite('mesh', mesh_strat(), mesh, quick=600, thorough=10000), Suite('entries', entries_strat(), entries, quick=600, thorough=10000), Suite('texts', texts_strat(), texts, quick=600, thorough=10000)]
