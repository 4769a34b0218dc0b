"""C05: interpolated and derived models against their defining formulas, recomputed with numpy from mesh coordinates."""
from hypothesis import strategies as st
from harness import Suite, need
import dsx, meshgen
import numpy as np
from dsx import ds

PROPERTY = 'C05'
RULE = ('A case is a random 1D, 2D or 3D mesh (random numbering, jitter and stretching, two regions and an interface), node values (random, or linear in position) and edge values. Edge ends, the four edge averages '
        'and their derivatives, node gradients, element values from nodes/edges/edge pairs/element models with all derivatives, implicit edge-to-element conversion and the interface distance/normal model are compared '
        'at every location with an independent numpy computation. Non-trivial: more than one element and node values that are not all equal.')
ASSUMPTIONS = ['geometric averages are only asked for node values of one sign', 'geometry weights (ElementEdgeCouple, NSurfaceNormal) are taken as reported; C06 checks them']

coord_scale = st.sampled_from([1.0, 1.0, 1e-4, 1e-7, 3.0])
val = st.one_of(st.integers(-40, 40).map(lambda k: k / 8), st.floats(-1e3, 1e3, allow_nan=False).filter(lambda v: v == 0 or abs(v) > 1e-3), st.sampled_from([0.0, 1.0, -1.0, 1e-12, 1e12]))
coef = st.integers(-12, 12).map(lambda k: k / 4)


@st.composite
def strat(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3, 3]))
    n = [draw(st.integers(1, 4)) + 1, draw(st.integers(1, 3)), draw(st.integers(1, 2))]
    return {'dim': dim, 'n': n, 'seed': draw(st.integers(0, 10**6)), 'jitter': draw(st.sampled_from([0.0, 0.1, 0.25])),
            'scale': [draw(coord_scale) for _ in range(3)] if draw(st.booleans()) else [draw(coord_scale)] * 3,
            'split': draw(st.booleans()), 'vals': draw(st.lists(val, min_size=1, max_size=12)), 'lin': draw(st.one_of(st.none(), st.lists(coef, min_size=4, max_size=4))),
            'ev': draw(st.lists(val, min_size=1, max_size=7)), 'de': draw(st.lists(val, min_size=1, max_size=7)), 'type': draw(st.sampled_from(['arithmetic', 'geometric', 'gradient', 'negative_gradient'])),
            'calc': draw(st.sampled_from(['default', 'avoidzero'])), 'sgn': draw(st.sampled_from([1, 1, -1])), 'ext': draw(st.integers(0, 4)) == 0, 'threads': draw(st.sampled_from([1, 1, 3]))}


def fill(v, n):
    return np.array([float(v[i % len(v)]) * (1 + (i // len(v))) for i in range(n)])


class Dev:
    def __init__(self, case):
        self.case, self.dim = case, case['dim']
        dsx.reset()
        if case['ext']:
            for p in ('extended_solver', 'extended_model', 'extended_equation'):
                ds.set_parameter(name=p, value=True)
        ds.set_parameter(name='threads_available', value=case['threads'])
        ds.set_parameter(name='threads_task_size', value=1)
        n = case['n']
        sc = case['scale']
        self.mesh = meshgen.grid_mesh(self.dim, n, case['seed'], jitter=case['jitter'], split=(n[0] - 1,) if case['split'] else (), scale=(sc[0], sc[1], sc[2]))
        meshgen.make_device(ds, self.mesh, 'd')
        self.nodes = meshgen.region_nodes(self.mesh, 0)
        self.X = np.array(self.mesh['coords'])[self.nodes]
        loc = {g: i for i, g in enumerate(self.nodes)}
        self.els = sorted(tuple(sorted(loc[v] for v in e)) for e in self.mesh['regions'][0])
        self.r = dict(device='d', region='r0')
        ds.edge_from_node_model(**self.r, node_model='node_index')
        e0, e1 = self.E('node_index@n0'), self.E('node_index@n1')
        self.edges = [(int(a), int(b)) for a, b in zip(e0, e1)]
        # every element edge appears exactly once
        want = {tuple(sorted((t[i], t[j]))) for t in self.els for i in range(len(t)) for j in range(i)}
        need(sorted(tuple(sorted(e)) for e in self.edges) == sorted(want), 'edges of the region %s differ from the element edges %s', self.edges, sorted(want))
        self.eid = {tuple(sorted(e)): i for i, e in enumerate(self.edges)}
        self.L = np.array([np.linalg.norm(self.X[b] - self.X[a]) for a, b in self.edges])
        self.U = np.array([(self.X[b] - self.X[a]) for a, b in self.edges]) / self.L[:, None]

    def N(self, name):
        return np.array(ds.get_node_model_values(**self.r, name=name))

    def E(self, name):
        return np.array(ds.get_edge_model_values(**self.r, name=name))

    def T(self, name):
        return np.array(ds.get_element_model_values(**self.r, name=name))

    def node(self, name, values):
        ds.node_solution(**self.r, name=name)
        ds.set_node_values(**self.r, name=name, values=[float(v) for v in values])

    def edge(self, name, values):
        ds.edge_solution(**self.r, name=name)
        ds.set_edge_values(**self.r, name=name, values=[float(v) for v in values])


def same(got, want, what, rel=1e-11, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, '%s has %d values, expected %d', what, len(got), len(want))
    if not len(want):
        return
    tol = rel * np.maximum(np.abs(want), np.abs(want) if scale is None else scale)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        k = int(np.argmax(bad))
        need(False, '%s[%d] = %r, definition gives %r (tolerance %r)', what, k, float(got[k]), float(want[k]), float(tol[k]))


def node_values(d, case):
    if case['lin']:
        g = np.array(case['lin'][:3])
        g[d.dim:] = 0
        sc = np.array(case['scale'])
        return d.X @ (g / sc) + case['lin'][3], g / sc
    return fill(case['vals'], len(d.nodes)), None


# ---------------------------------------------------------------- edges
def edge_case(case, ctx):
    d = Dev(case)
    v, g = node_values(d, case)
    t = case['type']
    if t == 'geometric':
        v = case['sgn'] * np.abs(v)
        v[v == 0] = case['sgn'] * 0.5
        g = None
    d.node('s', v)
    h = np.array([a for a, b in d.edges])
    k = np.array([b for a, b in d.edges])
    ds.edge_from_node_model(**d.r, node_model='s')
    need(dsx.same_bits(d.E('s@n0'), v[h]) and dsx.same_bits(d.E('s@n1'), v[k]), 'edge_from_node_model: ends of the edges differ from the node values')

    def avg(x, t):
        if t == 'arithmetic':
            return (x[h] + x[k]) / 2
        if t == 'geometric':
            return np.sqrt(np.abs(x[h])) * np.sqrt(np.abs(x[k]))
        return (x[k] - x[h]) / d.L * (1 if t == 'gradient' else -1)

    def davg(x, dx, t):
        if t == 'arithmetic':
            return dx[h] / 2, dx[k] / 2
        if t == 'geometric':
            s = np.sign(x[h])
            q = np.sqrt(x[k] / x[h])
            return 0.5 * s * q * dx[h], 0.5 * s / q * dx[k]
        f = 1 if t == 'gradient' else -1
        return -f * dx[h] / d.L, f * dx[k] / d.L

    ds.edge_average_model(**d.r, node_model='s', edge_model='av', average_type=t)
    sc = np.abs(v[h]) + np.abs(v[k])
    same(d.E('av'), avg(v, t), '%s average' % t, scale=sc / d.L if 'grad' in t else sc if t == 'arithmetic' else None)
    if g is not None and t == 'gradient':
        same(d.E('av'), d.U @ g, 'gradient of a linear quantity', 1e-9, scale=sc / d.L + np.abs(g).sum())
    ds.edge_average_model(**d.r, node_model='s', edge_model='av', average_type=t, derivative='s')
    a, b = davg(v, np.ones_like(v), t)
    same(d.E('av:s@n0'), a, '%s average derivative at n0' % t)
    same(d.E('av:s@n1'), b, '%s average derivative at n1' % t)
    # average of a model, derivative by the chain rule
    q = 0.5 * v * v + case['ev'][0]
    if t == 'geometric':
        q = np.abs(q) + 0.25
    d.node('q', q)
    ds.node_model(**d.r, name='m', equation='q*1')
    dm = fill(case['de'], len(v))
    d.node('dm', dm)
    ds.node_model(**d.r, name='m:s', equation='dm')
    ds.edge_average_model(**d.r, node_model='m', edge_model='am', average_type=t, derivative='s')
    ds.edge_average_model(**d.r, node_model='m', edge_model='am', average_type=t)
    sc = np.abs(q[h]) + np.abs(q[k])
    same(d.E('am'), avg(q, t), '%s average of a model' % t, scale=sc / d.L if 'grad' in t else sc)
    a, b = davg(q, dm, t)
    same(d.E('am:s@n0'), a, '%s average chain derivative at n0' % t)
    same(d.E('am:s@n1'), b, '%s average chain derivative at n1' % t)
    # changed node values are followed
    w = v[::-1].copy()
    ds.set_node_values(**d.r, name='s', values=[float(x) for x in w])
    sc = np.abs(w[h]) + np.abs(w[k])
    a, b = davg(w, np.ones_like(w), t)
    same(d.E('av:s@n1'), b, '%s average derivative at n1 after a change' % t)
    same(d.E('av:s@n0'), a, '%s average derivative at n0 after a change' % t)
    same(d.E('av'), avg(w, t), '%s average after a change' % t, scale=sc / d.L if 'grad' in t else sc if t == 'arithmetic' else None)
    ctx.count('edge:%s' % t)
    ctx.nontrivial(len(set(v)) > 1 and len(d.edges) > 1)


# ---------------------------------------------------------------- elements
class Elements:
    """Numpy model of the element-edge layout: taken from node_index at the element edge ends, and validated against the mesh."""
    def __init__(self, d):
        self.d = d
        ds.element_from_node_model(**d.r, node_model='node_index')
        self.en = np.array([d.T('node_index@en%d' % i) for i in range(d.dim + 1)]).astype(int)     # (dim+1) x (#element edges)
        self.npe = 3 if d.dim == 2 else 6
        m = self.en.shape[1]
        need(m == self.npe * len(d.els), '%d element edges for %d elements', m, len(d.els))
        els = []
        self.rows = []
        for t in range(len(d.els)):
            rows = range(t * self.npe, (t + 1) * self.npe)
            sets = {tuple(sorted(self.en[:, r])) for r in rows}
            need(len(sets) == 1, 'element %d: its edges do not name the same nodes: %s', t, sets)
            els.append(sets.pop())
            pairs = {tuple(sorted(self.en[:2, r])) for r in rows}
            need(len(pairs) == self.npe, 'element %d: edges repeated: %s', t, pairs)
            self.rows.append(list(rows))
        need(sorted(els) == d.els, 'elements %s expected %s', sorted(els), d.els)
        self.els = els
        el = ds.get_element_node_list(**d.r)
        need([tuple(sorted(e)) for e in el] == els, 'get_element_node_list %s disagrees with the element edges %s', el, els)
        self.eidx = np.array([d.eid[tuple(sorted(self.en[:2, r]))] for r in range(m)])
        for r in range(m):
            need(tuple(self.en[:2, r]) == d.edges[self.eidx[r]], 'element edge %d runs %s, its edge runs %s', r, self.en[:2, r], d.edges[self.eidx[r]])
        self.W = d.T('ElementEdgeCouple') if d.dim == 2 else None

    def node_vectors(self, t, ev):
        """field at each node of element t from its per-element-edge values ev (indexed by local edge)"""
        rows = self.rows[t]
        out = {}
        dim = self.d.dim
        for n in self.els[t]:
            loc = [k for k, r in enumerate(rows) if n in self.en[:2, r]]
            A = np.array([self.d.U[self.eidx[rows[k]], :dim] for k in loc])
            out[n] = (np.linalg.solve(A, np.array([ev[k] for k in loc])), np.linalg.cond(A), loc)
        return out

    def fields(self, evals):
        """evals: per element-edge values.  Returns average field, field at n0, field at n1, tolerance scale (all per element edge)."""
        d = self.d
        m = len(self.eidx)
        F, F0, F1 = np.zeros((m, d.dim)), np.zeros((m, d.dim)), np.zeros((m, d.dim))
        S, SA = np.zeros(m), np.zeros(m)
        for t, rows in enumerate(self.rows):
            ev = evals[rows]
            nv = self.node_vectors(t, ev)
            for k, r in enumerate(rows):
                a, b = self.en[0, r], self.en[1, r]
                F0[r], F1[r] = nv[a][0], nv[b][0]
                s = max(nv[a][1], nv[b][1]) * (np.abs(ev).max() + 1e-300)
                S[r] = SA[r] = s
                if d.dim == 3:
                    F[r] = (F0[r] + F1[r]) / 2
                else:
                    wa = [self.W[rows[q]] for q in nv[a][2] if q != k][0]
                    wb = [self.W[rows[q]] for q in nv[b][2] if q != k][0]
                    if abs(wa + wb) > 1e-9 * (abs(wa) + abs(wb)):
                        F[r] = (F0[r] * wa + F1[r] * wb) / (wa + wb)
                        SA[r] = s * (abs(wa) + abs(wb)) / abs(wa + wb)
                    else:
                        F[r] = np.nan
        return F, F0, F1, S, SA


XYZ = 'xyz'


def comp(got, want, scale, what):
    ok = ~np.isnan(want)
    same(got[ok], want[ok], what, 1e-10, scale[ok])


def element_case(case, ctx):
    if case['dim'] == 1:
        return edge_case(case, ctx)
    d = Dev(case)
    dim = d.dim
    v, g = node_values(d, case)
    d.node('s', v)
    L = Elements(d)
    m = len(L.eidx)
    ds.element_from_node_model(**d.r, node_model='s')
    for i in range(dim + 1):
        need(dsx.same_bits(d.T('s@en%d' % i), v[L.en[i]]), 'element_from_node_model @en%d differs from the node values', i)
    # edge quantity
    if g is not None:
        ds.edge_average_model(**d.r, node_model='s', edge_model='e', average_type='gradient')
        ev = d.E('e')
    else:
        ev = fill(case['ev'], len(d.edges))
        d.edge('e', ev)
    d0, d1 = fill(case['de'], len(d.edges)), fill(case['de'][::-1], len(d.edges)) + 0.5
    d.edge('e:s@n0', d0)
    d.edge('e:s@n1', d1)
    # a gradient evaluates differences of large close numbers: use the simulator's own edge values as input
    F, F0, F1, S, SA = L.fields(ev[L.eidx])
    ds.element_from_edge_model(**d.r, edge_model='e')
    ds.element_pair_from_edge_model(**d.r, edge_model='e')
    for c in range(dim):
        comp(d.T('e_' + XYZ[c]), F[:, c], SA, 'element_from_edge_model ' + XYZ[c])
        same(d.T('e_node0_' + XYZ[c]), F0[:, c], 'element_pair node0 ' + XYZ[c], 1e-10, S)
        same(d.T('e_node1_' + XYZ[c]), F1[:, c], 'element_pair node1 ' + XYZ[c], 1e-10, S)
    if g is not None:
        rough = 1e-12 * (np.abs(v).max() / d.L.min())
        for c in range(dim):
            got = d.T('e_' + XYZ[c])
            ok = ~np.isnan(F[:, c])
            bad = np.abs(got - g[c]) > 1e-10 * SA + rough * SA / (np.abs(ev).max() + 1e-300)
            need(not (bad & ok).any(), 'field of a linear quantity: component %s = %s, expected the constant %r', XYZ[c], list(got), float(g[c]))
    # derivatives: the element quantity is linear in the edge values, so propagate the edge derivatives
    ds.element_from_edge_model(**d.r, edge_model='e', derivative='s')
    ds.element_pair_from_edge_model(**d.r, edge_model='e', derivative='s')
    got = {(p, c, i): d.T('e%s_%s:s@en%d' % (p, XYZ[c], i)) for p in ('', '_node0', '_node1') for c in range(dim) for i in range(dim + 1)}
    for i in range(dim + 1):
        D = {p: np.zeros((m, dim)) for p in ('', '_node0', '_node1')}
        SC = np.zeros(m)
        for t, rows in enumerate(L.rows):
            for n in L.els[t]:
                dev = np.array([d0[L.eidx[r]] if L.en[0, r] == n else d1[L.eidx[r]] if L.en[1, r] == n else 0.0 for r in rows])
                nv = L.node_vectors(t, dev)
                for k, r in enumerate(rows):
                    if L.en[i, r] != n:
                        continue
                    a, b = L.en[0, r], L.en[1, r]
                    A, B = nv[a][0], nv[b][0]
                    D['_node0'][r], D['_node1'][r] = A, B
                    SC[r] = max(nv[a][1], nv[b][1]) * (np.abs(dev).max() + 1e-300)
                    if dim == 3:
                        D[''][r] = (A + B) / 2
                    else:
                        wa = [L.W[rows[q]] for q in nv[a][2] if q != k][0]
                        wb = [L.W[rows[q]] for q in nv[b][2] if q != k][0]
                        ok = abs(wa + wb) > 1e-9 * (abs(wa) + abs(wb))
                        D[''][r] = (A * wa + B * wb) / (wa + wb) if ok else np.nan
                        if ok:
                            SC[r] *= (abs(wa) + abs(wb)) / abs(wa + wb)
        for p in D:
            for c in range(dim):
                comp(got[p, c, i], D[p][:, c], SC, 'derivative e%s_%s:s@en%d' % (p, XYZ[c], i))
    # vector components of an element model, implicit conversion of an edge model used in an element expression
    tv = fill(case['vals'][::-1] + case['ev'], m)
    ds.element_solution(**d.r, name='ts')
    ds.set_element_values(**d.r, name='ts', values=[float(x) for x in tv])
    ds.vector_element_model(**d.r, element_model='ts')
    F, _, _, S, SA = L.fields(tv)
    for c in range(dim):
        comp(d.T('ts_' + XYZ[c]), F[:, c], SA, 'vector_element_model ' + XYZ[c])
    ds.element_model(**d.r, name='mix', equation='e * 2 + s@en0 - s@en%d' % dim)
    same(d.T('mix'), 2 * ev[L.eidx] + v[L.en[0]] - v[L.en[dim]], 'edge model in an element expression', 1e-12, np.abs(ev[L.eidx]) * 2 + np.abs(v[L.en[0]]) + np.abs(v[L.en[dim]]))
    # follow a change of the edge values
    if g is None:
        ev2 = ev[::-1].copy()
        ds.set_edge_values(**d.r, name='e', values=[float(x) for x in ev2])
        F, F0, F1, S, SA = L.fields(ev2[L.eidx])
        for c in range(dim):
            comp(d.T('e_' + XYZ[c]), F[:, c], SA, 'element_from_edge_model after a change ' + XYZ[c])
            same(d.T('e_node1_' + XYZ[c]), F1[:, c], 'element_pair node1 after a change ' + XYZ[c], 1e-10, S)
    ctx.count('element:%dd' % dim)
    ctx.nontrivial(len(set(ev)) > 1 and len(d.els) > 1)


# ---------------------------------------------------------------- node gradient
def gradient_case(case, ctx):
    d = Dev(case)
    dim = d.dim
    v, g = node_values(d, case)
    d.node('s', v)
    ds.vector_gradient(**d.r, node_model='s', calc_type=case['calc'])
    avoid = case['calc'] == 'avoidzero'
    n = len(v)
    acc, cnt, sc = np.zeros((n, dim)), np.zeros(n, int), np.zeros(n)
    for t in d.els:
        if avoid and any(v[i] == 0 for i in t):
            continue
        A = (d.X[list(t[1:])] - d.X[t[0]])[:, :dim]
        D = np.abs(A).max(axis=0)                       # column scaling: the condition of the geometry, not of the units
        b = v[list(t[1:])] - v[t[0]]
        gr = np.linalg.solve(A / D, b)
        s = np.linalg.cond(A / D) * np.abs(v[list(t)]).max()
        for i in t:
            acc[i] += gr / D
            cnt[i] += 1
            sc[i] = max(sc[i], s / D.min())
    want = acc / np.maximum(cnt, 1)[:, None]
    for c in range(dim):
        same(d.N('s_grad' + XYZ[c]), want[:, c], 'vector_gradient(%s) %s' % (case['calc'], XYZ[c]), 1e-9, sc)
        if g is not None and not avoid:
            same(d.N('s_grad' + XYZ[c]), np.full(n, g[c]), 'vector_gradient of a linear quantity', 1e-9, sc + np.abs(g).max())
    if case['threads'] > 1:
        ds.set_node_values(**d.r, name='s', values=[1.5] * n)
        for c in range(dim):
            same(d.N('s_grad' + XYZ[c]), np.zeros(n), 'vector_gradient of a constant', 1e-9, np.full(n, 1.5) * max(1, np.max(1 / np.min(np.abs(d.L)))))
    ctx.count('gradient:%dd:%s' % (dim, case['calc']))
    ctx.nontrivial(len(set(v)) > 1 and len(d.els) > 1)


# ---------------------------------------------------------------- interface distance and normal
def interface_case(case, ctx):
    if case['dim'] == 1:
        case = dict(case, dim=2)
    case = dict(case, split=True)
    d = Dev(case)
    dim = d.dim
    ifn = sorted({v for f in d.mesh['interfaces'][0][2] for v in f})
    for region in ('r0', 'r1'):
        d.r = dict(device='d', region=region)
        ri = int(region[1])
        nodes = meshgen.region_nodes(d.mesh, ri)
        loc = {gl: i for i, gl in enumerate(nodes)}
        X = np.array(d.mesh['coords'])[nodes]
        ii = [loc[v] for v in ifn]
        ds.edge_from_node_model(**d.r, node_model='node_index')
        ed = list(zip(d.E('node_index@n0').astype(int), d.E('node_index@n1').astype(int)))
        ds.interface_normal_model(**d.r, interface='i0')
        N = np.array([d.N('NSurfaceNormal_' + c) for c in XYZ[:dim]]).T
        dist = d.E('i0_distance')
        norm = np.array([d.E('i0_normal_' + c) for c in XYZ[:dim]]).T
        need(len(dist) == len(ed), 'i0_distance has %d values for %d edges', len(dist), len(ed))
        for k, (a, b) in enumerate(ed):
            mid = (X[a] + X[b]) / 2
            T = X[ii] - mid
            dd = np.linalg.norm(T, axis=1)
            need(abs(dist[k] - dd.min()) <= 1e-12 * (dd.min() + np.abs(X).max()), '%s: distance of edge %d is %r, nearest interface node is at %r', region, k, dist[k], dd.min())
            good = False
            for j in range(len(ii)):
                if dd[j] <= dd.min() + 1e-9 * (dd.min() + np.abs(X).max()):
                    nn = N[ii[j]]
                    dot = float(T[j, :dim] @ nn)
                    for s in (1, -1):
                        if np.abs(norm[k] - s * nn).max() < 1e-12 and s * dot >= -1e-9 * dd[j] - 1e-300:
                            good = True
            need(good, '%s: normal of edge %d is %s, not the normal of the nearest interface node turned towards the interface', region, k, norm[k])
    ctx.count('interface:%dd' % dim)
    ctx.nontrivial(len(ifn) > 1)


SUITES = [
    Suite('edge', strat, edge_case, quick=800, thorough=12000),
    Suite('element', strat, element_case, quick=600, thorough=8000),
    Suite('gradient', strat, gradient_case, quick=700, thorough=10000),
    Suite('interface', strat, interface_case, quick=300, thorough=4000),
]
