"""C03: node, edge, element and interface expression models against an independent evaluation of the expression."""
from hypothesis import strategies as st
from harness import Suite, need, Violation
import dsx, math, meshgen
import numpy as np
from dsx import ds
import exprgen
from exprgen import dag, render, ref, Bad

PROPERTY = 'C03'
RULE = ('A case is a mesh (1D to 3D), an expression DAG of up to 9 operations over solutions, parameters, geometry and user functions, a location kind '
        '(node, edge, element edge, interface node), a split of the DAG into named intermediate models and a configuration (threads, task size, numeric type). '
        'Every location is compared with a numpy evaluation carrying running error bounds, and a second configuration must give bit-identical values. '
        'Error suite: invalid expressions must raise and leave other models intact. Non-trivial: at least two locations decided with different values, or an error case.')
ASSUMPTIONS = ['locations where a comparison inside the expression is within rounding of equality are not judged',
               'expressions undefined at some location are only judged in the error suite']

val = st.one_of(st.integers(-4, 4).map(float), st.integers(-4000, 4000).map(lambda k: k / 1000.0), st.sampled_from([1e-9, -1e-9, 1e4, -300.0, 37.5]))
KINDS = ['node', 'edge', 'element', 'interface']
NOP = {'node': 8, 'edge': 9, 'element': 9, 'interface': 7}


@st.composite
def mesh_spec(draw, kind):
    dim = draw(st.sampled_from([2, 3] if kind == 'element' else [1, 2, 3] if kind != 'interface' else [1, 2, 2, 3]))
    n = [draw(st.integers(2, {1: 40, 2: 7, 3: 3}[dim])), draw(st.integers(1, {2: 6, 3: 2}.get(dim, 1))), draw(st.integers(1, 2))]
    return {'dim': dim, 'n': n, 'seed': draw(st.integers(0, 10**6))}


def col(draw):
    if draw(st.integers(0, 3)) == 0:
        return [draw(val)]
    return draw(st.lists(val, min_size=2, max_size=9))


@st.composite
def strat(draw):
    kind = draw(st.sampled_from(KINDS))
    g = draw(dag(NOP[kind]))
    cfg = st.tuples(st.sampled_from([1, 1, 2, 3, 5, 8]), st.sampled_from([0, 1, 2, 7, 1024])).map(list)
    return {'kind': kind, 'mesh': draw(mesh_spec(kind)), 'dag': g, 'split': [i for i in range(len(g) - 1) if draw(st.booleans())] if draw(st.booleans()) else [],
            's': [col(draw) for _ in range(3)], 'p': [draw(val) for _ in range(3)], 'cfg': [draw(cfg), draw(cfg)], 'ext': draw(st.integers(0, 3)) == 0,
            'unidecl': draw(st.booleans())}


def uf1(x):
    return x * x - 0.5


def uf2(x, y):
    return x - 2 * y


def configure(cfg):
    ds.set_parameter(name='threads_available', value=cfg[0])
    ds.set_parameter(name='threads_task_size', value=cfg[1])


def build(ms, ext, kind):
    dsx.reset()
    if ext:
        for k in ('extended_model', 'extended_equation', 'extended_solver'):
            ds.set_parameter(name=k, value=True)
    dim = ms['dim']
    n = [max(2, ms['n'][0])] + list(ms['n'][1:])
    mesh = meshgen.grid_mesh(dim, n, ms['seed'], split=(1,) if kind == 'interface' else ())
    meshgen.make_device(ds, mesh, device='d')
    for f in ('uf1(x)', 'uf2(x, y)'):
        ds.symdiff(expr='declare(%s)' % f)
    ds.register_function(name='uf1', nargs=1, procedure=uf1)
    ds.register_function(name='uf2', nargs=2, procedure=uf2)
    return mesh


def spread(c, n):
    return [c[(i * 7 + i // 3) % len(c)] for i in range(n)] if len(c) > 1 else [c[0]] * n


def nv(r, name):
    return list(ds.get_node_model_values(device='d', region=r, name=name))


def emv(r, name):
    return list(ds.get_edge_model_values(device='d', region=r, name=name))


def elv(r, name):
    return list(ds.get_element_model_values(device='d', region=r, name=name))


def element_edges(r):
    """for each element edge entry the index of the region edge"""
    if 'node_index@en0' not in ds.get_element_model_list(device='d', region=r):
        ds.element_from_node_model(device='d', region=r, node_model='node_index')
    if 'node_index@n0' not in ds.get_edge_model_list(device='d', region=r):
        ds.edge_from_node_model(device='d', region=r, node_model='node_index')
    e0, e1 = emv(r, 'node_index@n0'), emv(r, 'node_index@n1')
    m = {(min(a, b), max(a, b)): i for i, (a, b) in enumerate(zip(e0, e1))}
    t0, t1 = elv(r, 'node_index@en0'), elv(r, 'node_index@en1')
    return [m[min(a, b), max(a, b)] for a, b in zip(t0, t1)]


def operands(case, kind):
    """names and values of the operands"""
    p = case['p']
    ds.set_parameter(device='d', region='r0', name='pr', value=p[0])
    ds.set_parameter(device='d', name='pd', value=p[1])
    ds.set_parameter(name='pg', value=p[2])
    regs = ['r0', 'r1'] if kind == 'interface' else ['r0']
    sol = {}
    for r in regs:
        n = len(nv(r, 'x'))
        for j in range(2):
            name = 's%d' % j
            ds.node_solution(device='d', region=r, name=name)
            v = spread(case['s'][j], n)
            if r == 'r1' and len(v) > 1:
                v = v[::-1]
            if len(case['s'][j]) == 1 and case['unidecl']:
                ds.node_model(device='d', region=r, name=name, equation=repr(v[0])) if v[0] >= 0 else ds.set_node_value(device='d', region=r, name=name, value=v[0])
            else:
                ds.set_node_values(device='d', region=r, name=name, values=v)
            sol[r, name] = v
    if kind == 'node':
        names = ['s0', 's1', 'pr', 'pd', 'pg', 'x', 'NodeVolume', 'node_index']
        n = len(nv('r0', 'x'))
        vals = [sol['r0', 's0'], sol['r0', 's1']] + [[q] * n for q in p] + [nv('r0', k) for k in names[5:]]
    elif kind == 'edge':
        for m in ('s0', 's1', 'node_index'):
            ds.edge_from_node_model(device='d', region='r0', node_model=m)
        ds.edge_solution(device='d', region='r0', name='e0')
        ne = len(emv('r0', 'EdgeLength'))
        ev = spread(case['s'][2], ne)
        ds.set_edge_values(device='d', region='r0', name='e0', values=ev)
        names = ['s0@n0', 's0@n1', 's1@n0', 's1@n1', 'pr', 'pd', 'pg', 'e0', 'EdgeLength']
        i0, i1 = [[int(q) for q in emv('r0', 'node_index@n%d' % k)] for k in (0, 1)]
        vals = [[sol['r0', s][i] for i in ix] for s in ('s0', 's1') for ix in (i0, i1)] + [[q] * ne for q in p] + [ev, emv('r0', 'EdgeLength')]
    elif kind == 'element':
        eix = element_edges('r0')
        ds.element_from_node_model(device='d', region='r0', node_model='s0')
        ds.edge_solution(device='d', region='r0', name='e0')
        ne = len(emv('r0', 'EdgeLength'))
        ev = spread(case['s'][2], ne)
        if len(case['s'][2]) == 1 and case['unidecl']:
            ev = [abs(q) for q in ev]
            ds.edge_model(device='d', region='r0', name='e0', equation=repr(ev[0]))
        else:
            ds.set_edge_values(device='d', region='r0', name='e0', values=ev)
        ds.element_solution(device='d', region='r0', name='t0')
        nt = len(eix)
        tv = spread(case['s'][1], nt)
        if len(case['s'][1]) == 1 and case['unidecl']:
            tv = [abs(q) for q in tv]
            ds.element_model(device='d', region='r0', name='t0', equation=repr(tv[0]))
        else:
            ds.set_element_values(device='d', region='r0', name='t0', values=tv)
        names = ['s0@en0', 's0@en1', 's0@en2', 't0', 'e0', 'pr', 'pd', 'pg', 'EdgeLength']
        idx = [[int(q) for q in elv('r0', 'node_index@en%d' % k)] for k in (0, 1, 2)]
        el = emv('r0', 'EdgeLength')
        vals = [[sol['r0', 's0'][i] for i in ix] for ix in idx] + [tv, [ev[i] for i in eix]] + [[q] * nt for q in p] + [[el[i] for i in eix]]
    else:
        ds.set_parameter(device='d', region='r1', name='pr', value=p[0])
        names = ['s0@r0', 's0@r1', 's1@r0', 's1@r1', 'pr', 'pd', 'pg']
        ds.interface_model(device='d', interface='i0', name='ix0', equation='node_index@r0')
        ds.interface_model(device='d', interface='i0', name='ix1', equation='node_index@r1')
        ix = [[int(q) for q in ds.get_interface_model_values(device='d', interface='i0', name=m)] for m in ('ix0', 'ix1')]
        vals = [[sol['r%d' % k, s][i] for i in ix[k]] for s in ('s0', 's1') for k in (0, 1)] + [[q] * len(ix[0]) for q in p]
    return names, vals


def define(kind, name, eq):
    if kind == 'node':
        ds.node_model(device='d', region='r0', name=name, equation=eq)
    elif kind == 'edge':
        ds.edge_model(device='d', region='r0', name=name, equation=eq)
    elif kind == 'element':
        ds.element_model(device='d', region='r0', name=name, equation=eq)
    else:
        ds.interface_model(device='d', interface='i0', name=name, equation=eq)


def read(kind, name):
    if kind == 'interface':
        return list(ds.get_interface_model_values(device='d', interface='i0', name=name))
    return {'node': nv, 'edge': emv, 'element': elv}[kind]('r0', name)


def run(case, ctx):
    kind, g = case['kind'], case['dag']
    build(case['mesh'], case['ext'], kind)
    names, vals = operands(case, kind)
    try:
        rv, re, ok, memo = ref(g, vals, inexact=[i for i, q in enumerate(names) if q in ('EdgeLength', 'NodeVolume', 'x')] if case['ext'] else ())
    except Bad:
        ctx.count('undefined')
        return
    models = {i: 'm%d' % i for i in case['split']}
    if max(len(render(g, names, {k: v for k, v in models.items() if k < i}, i)) for i in range(len(g))) > 3000:
        return
    res = []
    for t, cfg in enumerate(case['cfg']):
        configure(cfg)
        for i in sorted(models):
            define(kind, models[i], render(g, names, {k: v for k, v in models.items() if k < i}, i))
        eq = render(g, names, models)
        define(kind, 'res', eq)
        got = read(kind, 'res')
        res.append(got)
        need(len(got) == len(rv), '%s model has %d values for %d locations', kind, len(got), len(rv))
        for i in range(len(rv)):
            if ok[i]:
                need(abs(got[i] - rv[i]) <= 4 * re[i] + 1e-290, '%s model %s at location %d of %d: %r, expected %r +- %.2g; operands %s (threads %s, extended %s)',
                     kind, eq, i, len(rv), got[i], float(rv[i]), 4 * re[i], {n: v[i] for n, v in zip(names, vals)}, cfg, case['ext'])
        if t == 0:
            # a model that only shares sub-expressions must see the same values, and so must a re-read
            need(dsx.same_bits(read(kind, 'res'), got), 'second read differs: %s', dsx.worst(read(kind, 'res'), got))
    need(dsx.same_bits(res[0], res[1]), '%s: configurations %s differ: %s', eq, case['cfg'], dsx.worst(res[0], res[1]))
    for i in sorted(models):
        w, e = memo[i][0], memo[i][1]
        got = read(kind, models[i])
        for k in range(len(w)):
            if ok[k]:
                need(abs(got[k] - w[k]) <= 4 * e[k] + 1e-290, 'intermediate %s model %s at %d: %r expected %r', kind, models[i], k, got[k], float(w[k]))
    ctx.nontrivial(int(ok.sum()) >= 2 and len(set(np.round(rv[ok], 12))) >= 2)
    ctx.count(kind)


ERRS = {
    # kind -> expression templates that must raise; {g}: one good location operand
    'node': ['1/bad', 'log(bad)', 'exp(1e6*(1+bad*bad))', 'pow(bad, -1)', 'nosuchname', 's0 + nosuchname*2', 'nofunc(s0)', 'decl(s0)', 'decl(pr)', 'decl(2)', 'exp(s0, s0)',
             'min(s0)', 'ifelse(s0, s0)', 'uf1(s0, s0)', 'uf2(s0)', 'ufr(s0)', 'ufs(s0)', 'ufr(pr)', 'ufs(pr)', 'EdgeLength', 's0 + EdgeLength', 's0 * EdgeLength', 'max(s0, EdgeLength)', '(s0', 's0 +', ')',
             's0 s0', '', 'acosh(bad)', 'bad*1e308*1e308 + 1e308*1e308', 'self', 'cyc', '1/(0*pr)', 'log(-1 - pr*pr)', 'kahan3(s0, s0)', 'uf1()'],
    'edge': ['1/(bad@n0*bad@n1)', 'log(bad@n1*bad@n0)', 'nosuchname', 'nofunc(s0@n0)', 'decl(s0@n0)', 'uf2(s0@n0)', 'ufr(s0@n0)', 'ufs(s0@n1)', 's0', 's0 + EdgeLength', 's0*EdgeLength', 'max(s0, EdgeLength)', '1/(0*pr)', 'self', 'cyc', 'exp(1e6*(1+bad@n0^2))'],
    'element': ['1/(0*s0@en0)', 'log(0*s0@en1)', 'nosuchname', 'decl(s0@en0)', 'ufr(s0@en0)', 's0', 's0 + s0@en0', 'self', 'cyc', 'exp(1e6 + 0*s0@en0)'],
    'interface': ['1/(0*s0@r0)', 'log(0*s0@r1)', 'nosuchname', 'nosuch@r0', 's0', 'decl(s0@r0)', 'ufr(s0@r0)', 'uf2(s0@r1)', 'EdgeLength@r0', 'self', 'cyc', 'pdiff', 's0@r2', 'decl(pr)'],
}


@st.composite
def err_strat(draw):
    kind = draw(st.sampled_from(KINDS))
    return {'kind': kind, 'mesh': draw(mesh_spec(kind)), 'e': draw(st.integers(0, len(ERRS[kind]) - 1)), 'cfg': draw(st.tuples(st.sampled_from([1, 2, 4]), st.sampled_from([0, 1, 1024])).map(list)),
            'pos': draw(st.integers(0, 30)), 'bad': draw(st.sampled_from([0.0, 0.0, -0.0])), 'ext': draw(st.integers(0, 3)) == 0,
            's': [draw(st.lists(val, min_size=2, max_size=6)) for _ in range(3)], 'p': [draw(val) for _ in range(3)], 'unidecl': False, 'redefine': draw(st.booleans())}


def ufr(x):
    raise ValueError('deliberate')


def ufs(x):
    return 'not a number'


def run_err(case, ctx):
    kind = case['kind']
    build(case['mesh'], case['ext'], kind)
    names, vals = operands(case, kind)
    configure(case['cfg'])
    for f in ('decl(x)', 'ufr(x)', 'ufs(x)'):
        ds.symdiff(expr='declare(%s)' % f)
    ds.register_function(name='ufr', nargs=1, procedure=ufr)
    ds.register_function(name='ufs', nargs=1, procedure=ufs)
    n = len(nv('r0', 'x'))
    ds.node_solution(device='d', region='r0', name='bad')
    v = [2.0 + (i % 5) for i in range(n)]
    v[case['pos'] % n] = case['bad']
    ds.set_node_values(device='d', region='r0', name='bad', values=v)
    ds.edge_from_node_model(device='d', region='r0', node_model='bad')
    e = ERRS[kind][case['e']]
    define(kind, 'good', '2*%s + 1' % names[0])
    good = read(kind, 'good')
    eq = e
    pos = case['pos'] % n
    if e == 'exp(1e6*(1+bad*bad))' and case['ext']:
        eq = 'exp(1e6*(1+bad*bad))'
    if e == 'acosh(bad)':
        eq = 'acosh(bad)'
    if e == 'bad*1e308*1e308 + 1e308*1e308':
        if case['ext']:
            return
        eq = 'pr*0 + 1e308*s1e*s1e'
        ds.set_parameter(name='s1e', value=1e300)
    if e == 'pdiff':
        ds.set_parameter(device='d', region='r0', name='pdiff', value=1.0)
        ds.set_parameter(device='d', region='r1', name='pdiff', value=2.0)
    got = None
    try:
        if e == 'self':
            define(kind, 'res', 'res + 1')
        elif e == 'cyc':
            define(kind, 'other', names[0])
            define(kind, 'res', 'other*2')
            read(kind, 'res')
            define(kind, 'other', 'res + 1')
        else:
            if case['redefine']:
                define(kind, 'res', names[0])
                read(kind, 'res')
            define(kind, 'res', eq)
        got = read(kind, 'res')
    except ds.error as x:
        need(str(x).strip(), 'empty error message')
    need(got is None, '%s model "%s" did not raise, values %s', kind, eq, got[:6] if got else got)
    need(dsx.same_bits(read(kind, 'good'), good), 'an unrelated model changed after an error')
    define(kind, 'res2', '3*%s' % names[0])
    need(dsx.vclose(read(kind, 'res2'), [3 * q for q in vals[0]], 1e-15), 'evaluation broken after an error')
    ctx.nontrivial()
    ctx.count('err ' + e)


SUITES = [Suite('values', strat, run, quick=2500, thorough=40000), Suite('errors', err_strat, run_err, quick=1500, thorough=10000)]
