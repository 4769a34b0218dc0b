"""C06: the automatic geometry models against exact rational geometry of the mesh, and integral identities on non-obtuse meshes."""
from fractions import Fraction as Fr
import math
from hypothesis import strategies as st
from harness import Suite, need
import dsx, meshgen
import numpy as np
from dsx import ds

PROPERTY = 'C06'
RULE = ('A case is a random 1D/2D/3D mesh (structured right-angled, near-equilateral, jittered possibly obtuse, single or mirrored tetrahedra; random scaling, shear-free rotation, translation and numbering) with contacts and an '
        'interface. Every automatic geometry model is compared at every location with its finite-volume definition evaluated in exact rational arithmetic from the circumcentres; on meshes whose elements contain their '
        'circumcentre the integral identities are checked as well (volumes, closed flux, boundary sizes, Pappus volumes for the cylindrical models). Non-trivial: at least two elements.')
ASSUMPTIONS = ['weights of obtuse elements use unsigned circumcentre distances (the published definition); integral identities are only asked of meshes without obtuse elements',
               'cylindrical models are asked only of meshes on the non-negative side of the axis']

scale1 = st.sampled_from([1.0, 1e-4, 1e-7, 1e-5, 30.0])


@st.composite
def strat(draw):
    dim = draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
    fam = draw(st.sampled_from({1: ['right'], 2: ['right', 'right', 'tri', 'tri', 'jitter', 'tilt'], 3: ['right', 'right', 'tet', 'jitter', 'tilt']}[dim]))
    n = [draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 2))]
    s = draw(scale1)
    return {'dim': dim, 'fam': fam, 'n': n, 'seed': draw(st.integers(0, 10**6)), 'scale': [s * draw(st.sampled_from([1.0, 1.0, 0.25, 3.0])) for _ in range(3)],
            'rot': draw(st.sampled_from([0, 0, 1])), 'shift': draw(st.sampled_from([0, 0, 1, -3])), 'split': draw(st.booleans()), 'ci': draw(st.integers(0, 3)) == 0,
            'late': draw(st.booleans()), 'axis': draw(st.sampled_from(['x', 'y'])), 'off': draw(st.sampled_from([0.0, 0.5, 2.0])), 'ext': draw(st.integers(0, 4)) == 0}


def build(case):
    dim, fam, rng = case['dim'], case['fam'], np.random.default_rng(case['seed'] + 7)
    n = case['n']
    sc = list(case['scale'])
    split = (n[0] - 1,) if case['split'] and fam != 'tet' else ()
    if fam == 'tet':
        R = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], float)
        R += rng.uniform(-0.15, 0.15, R.shape)
        els, P = [[0, 1, 2, 3]], [list(map(float, p)) for p in R]
        if rng.integers(2):             # mirror node 0 at the opposite face
            a, b, c = R[1], R[2], R[3]
            nn = np.cross(b - a, c - a)
            nn /= np.linalg.norm(nn)
            P.append([float(q) for q in R[0] - 2 * np.dot(R[0] - a, nn) * nn])
            els.append([1, 2, 3, 4])
        mesh = dict(dim=3, coords=(np.array(P) * sc[0]).tolist(), regions=[els], contacts={'c0': (0, [[0, 1, 2]]), 'c1': (0, [[0, 2, 3], [0, 1, 3]])}, interfaces=[])
    else:
        if fam == 'tri':
            m = meshgen.grid_mesh(2, n, case['seed'], jitter=0.08, split=split, diag=False)
            C = np.array(m['coords'])
            C[:, 0] += 0.5 * C[:, 1]
            C[:, 1] *= math.sqrt(3) / 2
            C *= sc[0]
            mesh = dict(m, coords=C.tolist())
        else:
            mesh = meshgen.grid_mesh(dim, n, case['seed'], jitter=0.0 if fam == 'right' else 0.3 if fam == 'jitter' else 10.0 ** -rng.integers(3, 15), split=split, scale=sc)
            if fam == 'right' and dim == 1:
                mesh = meshgen.grid_mesh(1, n, case['seed'], jitter=0.4, split=split, scale=sc)
    C = np.array(mesh['coords'])
    size = np.abs(C).max()
    if case['rot'] and dim > 1:
        if fam in ('right', 'tilt'):     # keep right angles exact: swap or mirror axes
            perm = rng.permutation(dim)
            C[:, :dim] = C[:, perm] * rng.choice([-1.0, 1.0], dim)
        else:
            Q, _ = np.linalg.qr(rng.normal(size=(dim, dim)))
            C[:, :dim] = C[:, :dim] @ Q
    C[:, :dim] += case['shift'] * size
    mesh['coords'] = [[float(x) for x in p] for p in C]
    if case['ci'] and mesh['interfaces']:
        mesh['contacts']['ci'] = (0, mesh['interfaces'][0][2])
    return mesh


def F3(p):
    return [Fr(x) for x in p]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sq(x):
    """square root of a non-negative rational with ~40 digits, so that no accuracy is lost by cancellation"""
    if x == 0:
        return Fr(0)
    e = 0
    n, d = x.numerator, x.denominator
    k = max(0, 280 - n.bit_length() + d.bit_length())
    k += k & 1
    return Fr(math.isqrt((n << k) // d), 1 << (k // 2))


def solve(A, b):
    n = len(b)
    M = [list(r) + [v] for r, v in zip(A, b)]
    for i in range(n):
        p = next((k for k in range(i, n) if M[k][i] != 0))
        M[i], M[p] = M[p], M[i]
        for k in range(n):
            if k != i and M[k][i] != 0:
                f = M[k][i] / M[i][i]
                M[k] = [x - f * y for x, y in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def circumcentre(P):
    """of a triangle or tetrahedron in 3D (rational)"""
    V = [sub(p, P[0]) for p in P[1:]]
    G = [[dot(a, b) for b in V] for a in V]
    lam = solve(G, [dot(a, a) / 2 for a in V])
    return [P[0][c] + sum(l * v[c] for l, v in zip(lam, V)) for c in range(3)], lam


def same(got, want, what, rel=1e-12, scale=0.0):
    need(len(got) == len(want), '%s has %d values, expected %d', what, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        w = float(w)
        need(abs(g - w) <= rel * max(abs(w), scale), '%s[%d] = %r, exact geometry gives %r', what, k, g, w)


class Geo:
    def __init__(self, mesh, ri, region):
        self.mesh, self.ri, self.dim, self.r = mesh, ri, mesh['dim'], dict(device='d', region=region)
        self.nodes = meshgen.region_nodes(mesh, ri)
        self.loc = {g: i for i, g in enumerate(self.nodes)}
        self.P = [F3(mesh['coords'][g]) for g in self.nodes]
        self.els = [tuple(sorted(self.loc[v] for v in e)) for e in mesh['regions'][ri]]

    def N(self, name):
        return list(ds.get_node_model_values(**self.r, name=name))

    def E(self, name):
        return list(ds.get_edge_model_values(**self.r, name=name))

    def T(self, name):
        return list(ds.get_element_model_values(**self.r, name=name))

    def facets(self, pred):
        out = set()
        for name, (ri, fs) in self.mesh['contacts'].items():
            if pred == 'contact' and ri == self.ri:
                out |= {tuple(sorted(self.loc[v] for v in f)) for f in fs}
        if pred == 'interface':
            for a, b, fs in self.mesh['interfaces']:
                if self.ri in (a, b):
                    out |= {tuple(sorted(self.loc[v] for v in f)) for f in fs}
        return out

    def area(self, facets):
        """unsigned surface area attributed to each node"""
        out = [Fr(0)] * len(self.P)
        for f in facets:
            p = [self.P[i] for i in f]
            if self.dim == 1:
                out[f[0]] = Fr(1)
            elif self.dim == 2:
                h = sq(dot(sub(p[1], p[0]), sub(p[1], p[0]))) / 2
                for i in f:
                    out[i] += h
            else:
                c, _ = circumcentre(p)
                for i, j in ((0, 1), (0, 2), (1, 2)):
                    v = cross(sub(p[j], p[i]), sub(c, p[i]))
                    a = sq(dot(v, v)) / 4
                    out[f[i]] += a
                    out[f[j]] += a
        return out

    def facet_normal(self, f):
        p = [self.P[i] for i in f]
        if self.dim == 2:
            d = sub(p[1], p[0])
            n = [d[1], -d[0], Fr(0)]
        else:
            n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
        l = sq(dot(n, n))
        return [x / l for x in n]

    def check(self, obtuse_ok, ctx):
        dim, P, r = self.dim, self.P, self.r
        n = len(P)
        for c in range(3):
            need(dsx.same_bits(self.N('xyz'[c]), [float(p[c]) for p in P]), 'node coordinate %s differs from the mesh', 'xyz'[c])
        need(self.N('node_index') == list(range(n)), 'node_index')
        ds.edge_from_node_model(**r, node_model='node_index')
        self.edges = [(int(a), int(b)) for a, b in zip(self.E('node_index@n0'), self.E('node_index@n1'))]
        want = {tuple(sorted((t[i], t[j]))) for t in self.els for i in range(len(t)) for j in range(i)}
        need(sorted(tuple(sorted(e)) for e in self.edges) == sorted(want), 'edges %s, element edges %s', self.edges, sorted(want))
        need(self.E('edge_index') == list(range(len(self.edges))), 'edge_index')
        vec = [sub(P[b], P[a]) for a, b in self.edges]
        self.L = [sq(dot(v, v)) for v in vec]
        same(self.E('EdgeLength'), self.L, 'EdgeLength')
        same(self.E('EdgeInverseLength'), [1 / l for l in self.L], 'EdgeInverseLength')
        self.U = [[x / l for x in v] for v, l in zip(vec, self.L)]
        for c in range(dim):
            same(self.E('unit' + 'xyz'[c]), [u[c] for u in self.U], 'unit' + 'xyz'[c])
        # weights
        acute = True
        self.shape = 1.0
        if dim == 1:
            EC = [Fr(1)] * len(self.edges)
            ENV = [l / 2 for l in self.L]
        else:
            ds.element_from_node_model(**r, node_model='node_index')
            en = [tuple(int(v) for v in q) for q in zip(*[self.T('node_index@en%d' % i) for i in range(dim + 1)])]
            npe = 3 if dim == 2 else 6
            eid = {e: i for i, e in enumerate(self.edges)}
            need(len(en) == npe * len(self.els), 'number of element edges')
            got = []
            W, self.cent = [], []
            EC, ENV = [Fr(0)] * len(self.edges), [Fr(0)] * len(self.edges)
            self.eeid, self.eel = [], []
            for t in range(len(self.els)):
                el = tuple(sorted(en[npe * t]))
                got.append(el)
                c, lam = circumcentre([P[i] for i in el])
                self.cent.append(c)
                if min(lam) < 0 or sum(lam) > 1:
                    acute = False
                fc = {}
                if dim == 3:
                    for q in range(4):
                        f = tuple(v for v in el if v != el[q])
                        cc, ll = circumcentre([P[i] for i in f])
                        fc[f] = cc
                        if min(ll) < 0 or sum(ll) > 1:
                            acute = False
                for k in range(npe):
                    e = en[npe * t + k][:2]
                    need(e in eid, 'element edge %s is not an edge of the region', e)
                    mid = [(a + b) / 2 for a, b in zip(P[e[0]], P[e[1]])]
                    if dim == 2:
                        d = sub(c, mid)
                        w = sq(dot(d, d))
                        v = w * self.L[eid[e]] / 4
                    else:
                        w = Fr(0)
                        for f, cc in fc.items():
                            if e[0] in f and e[1] in f:
                                x = cross(sub(c, mid), sub(cc, c))
                                w += sq(dot(x, x)) / 2
                        v = w * self.L[eid[e]] / 6
                    W.append(w)
                    self.eeid.append(eid[e])
                    self.eel.append(t)
                    EC[eid[e]] += w
                    ENV[eid[e]] += v
            need(sorted(got) == sorted(self.els), 'elements %s, mesh has %s', sorted(got), sorted(self.els))
            self.W = W
            # a circumcentre is the solution of a system whose condition grows with the square of the aspect ratio of its element
            k = 1.0
            for t in range(len(self.els)):
                l = [float(self.L[e]) for e in self.eeid[npe * t:npe * (t + 1)]]
                k = max(k, (max(l) / min(l)) ** 2)
            self.shape = k
            S = float(max(W)) * k
            same(self.T('ElementEdgeCouple'), W, 'ElementEdgeCouple', scale=S)
            V = [w * self.L[e] / (4 if dim == 2 else 6) for w, e in zip(W, self.eeid)]
            same(self.T('ElementNodeVolume'), V, 'ElementNodeVolume', scale=float(max(V)) * k)
        same(self.E('EdgeCouple'), EC, 'EdgeCouple', scale=float(max(EC)) * self.shape)
        same(self.E('EdgeNodeVolume'), ENV, 'EdgeNodeVolume', scale=float(max(ENV)) * self.shape)
        NV = [Fr(0)] * n
        for (a, b), v in zip(self.edges, ENV):
            NV[a] += v
            NV[b] += v
        same(self.N('NodeVolume'), NV, 'NodeVolume', scale=float(max(NV)) * self.shape if self.shape > 25 else 0.0)
        self.acute = acute
        self.measure = []
        for t in self.els:
            D = [sub(P[i], P[t[0]]) for i in t[1:]]
            if dim == 1:
                m = abs(D[0][0])
            elif dim == 2:
                m = abs(D[0][0] * D[1][1] - D[0][1] * D[1][0]) / 2
            else:
                m = abs(dot(D[0], cross(D[1], D[2]))) / 6
            self.measure.append(m)
        if acute:
            ctx.count('identities')
            tot = float(sum(self.measure))
            got = math.fsum(self.N('NodeVolume'))
            need(abs(got - tot) <= 1e-11 * self.shape * tot, 'node volumes sum to %r, the region measures %r', got, tot)
            # constant field: the flux through the control volume of an interior node closes
            if dim > 1:
                fcount = {}
                for t in self.els:
                    for q in range(len(t)):
                        f = t[:q] + t[q + 1:]
                        fcount[f] = fcount.get(f, 0) + 1
                bnd = {v for f, k in fcount.items() if k == 1 for v in f}
            else:
                deg = [sum(v in e for e in self.edges) for v in range(n)]
                bnd = {v for v in range(n) if deg[v] < 2}
            ec = self.E('EdgeCouple')
            u = [self.E('unit' + 'xyz'[c]) for c in range(dim)]
            for v in set(range(n)) - bnd:
                ctx.count('interior')
                for c in range(dim):
                    terms = [ec[k] * u[c][k] * (1 if a == v else -1) for k, (a, b) in enumerate(self.edges) if v in (a, b)]
                    need(abs(math.fsum(terms)) <= 1e-11 * self.shape * sum(ec[k] for k, e in enumerate(self.edges) if v in e), 'flux of a constant field does not close at node %d: %r', v, math.fsum(terms))
        self.check_surface(ctx)

    def check_surface(self, ctx):
        dim = self.dim
        for pred, name, normal in (('contact', 'ContactSurfaceArea', 'ContactNSurfaceNormal_'), ('interface', 'SurfaceArea', 'NSurfaceNormal_')):
            fs = self.facets(pred)
            want = self.area(fs)
            same(self.N(name), want, name)
            if self.acute and dim == 3 and fs:
                tot = 0
                for f in fs:
                    v = cross(sub(self.P[f[1]], self.P[f[0]]), sub(self.P[f[2]], self.P[f[0]]))
                    tot += sq(dot(v, v)) / 2
                got = math.fsum(self.N(name))
                need(abs(got - float(tot)) <= 1e-11 * float(tot), '%s sums to %r, boundary measures %r', name, got, float(tot))
            if dim > 1:
                NN = list(zip(*[self.N(normal + 'xyz'[c]) for c in range(dim)]))
                for v in range(len(self.P)):
                    on = [f for f in fs if v in f]
                    if not on:
                        need(all(x == 0 for x in NN[v]), '%s%s at node %d which is on no such surface', normal, NN[v], v)
                        continue
                    need(abs(math.fsum(x * x for x in NN[v]) - 1) < 1e-12, '%s%s at node %d is not a unit vector', normal, NN[v], v)
                    ns = [self.facet_normal(f) for f in on]
                    if all(abs(abs(float(dot(ns[0], m))) - 1) < 1e-13 for m in ns):
                        d = abs(math.fsum(float(a) * b for a, b in zip(ns[0], NN[v])))
                        need(abs(d - 1) < 1e-10, '%s%s at node %d of a plane surface with normal %s', normal, NN[v], v, [float(x) for x in ns[0]])
                        ctx.count('plane normals')
        want = [0] * len(self.P)
        for name, (ri, f) in self.mesh['contacts'].items():
            if ri == self.ri:
                for v in {self.loc[x] for q in f for x in q}:
                    want[v] += 1
        got = self.N('AtContactNode')
        need(got == want, 'AtContactNode %s, contacts of the mesh touch %s', got, want)

    def check_cylinder(self, case, ctx):
        ax = 'xy'.index(case['axis'])
        lo = min([p[ax] for p in self.P] + [c[ax] for c in self.cent])
        size = max(p[ax] for p in self.P) - min(p[ax] for p in self.P)
        for first, off in ((True, case['off']), (False, case['off'] + 1.0)):
            # the axis position is a parameter: round it down so that every radius is non-negative
            z = float(lo - Fr(off) * size)
            z = z if Fr(z) <= lo else math.nextafter(z, -math.inf)
            if first:
                ds.set_parameter(device='d', name='raxis_variable', value=case['axis'])
                ds.set_parameter(device='d', name='raxis_zero', value=z)
                ds.cylindrical_edge_couple(**self.r)
                ds.cylindrical_node_volume(**self.r)
                ds.cylindrical_surface_area(**self.r)
            else:
                ds.set_parameter(device='d', region=self.r['region'], name='raxis_zero', value=z)
            z = Fr(z)
            cs = 20 * self.shape * (1 + max(abs(float(x)) for p in self.P for x in p) / max(float(size), 1e-300))      # these models are evaluated in the model precision from absolute coordinates
            PI = Fr(3141592653589793238462643383279502884197, 10**39)
            rad = lambda p: p[ax] - z
            en_w, v0, v1 = [], [], []
            EC = [Fr(0)] * len(self.edges)
            E0, E1 = [Fr(0)] * len(self.edges), [Fr(0)] * len(self.edges)
            NV = [Fr(0)] * len(self.P)

            def pappus(a, b, c):
                A = abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / 2
                return 2 * PI * A * (rad(a) + rad(b) + rad(c)) / 3
            for w, e, t in zip(self.W, self.eeid, self.eel):
                a, b = self.edges[e]
                mid = [(x + y) / 2 for x, y in zip(self.P[a], self.P[b])]
                c = self.cent[t]
                q = PI * (rad(mid) + rad(c)) * w
                en_w.append(q)
                EC[e] += q
                x0, x1 = pappus(self.P[a], mid, c), pappus(self.P[b], mid, c)
                v0.append(x0)
                v1.append(x1)
                E0[e] += x0
                E1[e] += x1
                NV[a] += x0
                NV[b] += x1
            same(self.T('ElementCylindricalEdgeCouple'), en_w, 'ElementCylindricalEdgeCouple', scale=float(max(en_w)) * cs)
            same(self.E('CylindricalEdgeCouple'), EC, 'CylindricalEdgeCouple', scale=float(max(EC)) * cs)
            s = float(max(v0 + v1)) * cs
            same(self.T('ElementCylindricalNodeVolume@en0'), v0, 'ElementCylindricalNodeVolume@en0', scale=s)
            same(self.T('ElementCylindricalNodeVolume@en1'), v1, 'ElementCylindricalNodeVolume@en1', scale=s)
            same(self.E('CylindricalEdgeNodeVolume@n0'), E0, 'CylindricalEdgeNodeVolume@n0', scale=s)
            same(self.E('CylindricalEdgeNodeVolume@n1'), E1, 'CylindricalEdgeNodeVolume@n1', scale=s)
            same(self.N('CylindricalNodeVolume'), NV, 'CylindricalNodeVolume', scale=s)
            if self.acute:
                tot = float(sum(2 * PI * m * sum(rad(self.P[i]) for i in t) / 3 for t, m in zip(self.els, self.measure)))
                got = math.fsum(self.N('CylindricalNodeVolume'))
                need(abs(got - tot) <= 1e-11 * self.shape * tot, 'cylindrical node volumes sum to %r, the rotated region has volume %r', got, tot)
            SA = [Fr(0)] * len(self.P)
            for f in self.facets('contact') | self.facets('interface'):
                a, b = f
                d = sub(self.P[b], self.P[a])
                h = sq(dot(d, d)) / 2
                m = (rad(self.P[a]) + rad(self.P[b])) / 2
                SA[a] += PI * (rad(self.P[a]) + m) * h
                SA[b] += PI * (rad(self.P[b]) + m) * h
            same(self.N('CylindricalSurfaceArea'), SA, 'CylindricalSurfaceArea')
        ctx.count('cylindrical')


def geometry(case, ctx):
    dsx.reset()
    if case['ext']:
        for p in ('extended_solver', 'extended_model', 'extended_equation'):
            ds.set_parameter(name=p, value=True)
    mesh = build(case)
    meshgen.make_device(ds, mesh, 'd')
    for ri in range(len(mesh['regions'])):
        g = Geo(mesh, ri, 'r%d' % ri)
        g.check(True, ctx)
        ctx.count('%dd:%s:%s' % (mesh['dim'], case['fam'], 'non-obtuse' if g.acute else 'obtuse'))
        if mesh['dim'] == 2:
            g.check_cylinder(case, ctx)
        if case['late'] and mesh['interfaces']:
            # a contact created later from the interface must be seen by the surface models
            ds.create_contact_from_interface(device='d', region='r%d' % ri, interface='i0', name='late%d' % ri, material='metal')
            mesh['contacts']['late%d' % ri] = (ri, mesh['interfaces'][0][2])
            g.check_surface(ctx)
    ctx.nontrivial(sum(len(r) for r in mesh['regions']) > 1)


SUITES = [Suite('geometry', strat, geometry, quick=900, thorough=14000)]
