"""C12: the assembled residual and matrix are compared, row by row, with a reference assembly written from the definition (sums over nodes, edges, element edges, contacts and interfaces) over the values the models report; numbering, permutation and the output formats are checked too."""
from hypothesis import strategies as st
import math, random
import numpy as np
from harness import Suite, need
import dsx
from dsx import ds
import c09

PROPERTY = 'C12'
RULE = ('A case is 1 or 2 devices from random meshes (1D, 2D, 3D; regions, contacts that share nodes, interfaces, overlapping interfaces from node pairs), 1 to 3 variables per region, equations with random subsets of the bulk, contact, interface and circuit terms, '
        'weights selected by parameters at random levels, models and their derivative models with unrelated random values (uniform, zero, sparse or random), circuit nodes with resistors, and custom equations of both kinds. '
        'Every row of static/dynamic rhs and matrix of get_matrix_and_rhs, in both formats, equals the sum of its terms (tolerance 1e-12 of the sum of magnitudes). Non-trivial: at least two terms of different kinds were assembled. '
        'history: the same after detours: equations of every kind that were first defined with other models or another variable and then replaced, or deleted (before or after others were made), with assemblies in between, and refused equations for a variable in use.')
ASSUMPTIONS = ['the derivative models of an edge (element) model are given for all its nodes or for none', 'on nodes shared by contacts with the same equation, the contact first in the alphabet applies (documented in the code)',
               'interface equations are not applied on nodes where a contact or another interface has the same equation (documented)']

P_NODE = ['node_volume_model']
WEIGHTS = {'node_volume_model': ('n', 'NodeVolume'), 'edge_couple_model': ('e', 'EdgeCouple'), 'edge_node0_volume_model': ('e', 'EdgeNodeVolume'), 'edge_node1_volume_model': ('e', 'EdgeNodeVolume'),
           'element_edge_couple_model': ('l', 'ElementEdgeCouple'), 'element_node0_volume_model': ('l', 'ElementNodeVolume'), 'element_node1_volume_model': ('l', 'ElementNodeVolume'), 'surface_area_model': ('n', 'SurfaceArea')}


@st.composite
def strat(draw):
    ms = [draw(c09.mesh_case())]
    if draw(st.integers(0, 5)) == 0:
        ms.append(draw(c09.mesh_case()))
    for i, m in enumerate(ms):
        m['dname'] += str(i)
        m['scale'] = draw(st.sampled_from([1.0, 1.0, 1e-4]))
    return dict(m=ms, seed=draw(st.integers(1, 2**30)), circ=draw(st.sampled_from([0, 0, 1, 2, 4])), weights=draw(st.integers(0, 2)), dens=draw(st.sampled_from([0.2, 0.4, 0.7])), ncust=draw(st.integers(0, 2)),
                der=draw(st.sampled_from([0.5, 1.0])), xi=draw(st.booleans()), threads=draw(st.sampled_from([1, 1, 4])), ext=draw(st.sampled_from([0, 0, 0, 1, 2])), hist=0)


@st.composite
def strat_history(draw):
    c = draw(strat())
    c['hist'] = draw(st.integers(1, 2**30))
    return c


class Region:
    """What the reference needs to know about a region."""

    def __init__(self, d, r, dim):
        self.d, self.r, self.dim = d, r, dim
        self.w = dict(device=d, region=r)
        w = self.w
        self.n = len(ds.get_node_model_values(name='x', **w))
        ds.edge_from_node_model(node_model='node_index', **w)
        g = lambda f, n: [int(round(v)) for v in f(name=n, **w)]
        self.e = list(zip(g(ds.get_edge_model_values, 'node_index@n0'), g(ds.get_edge_model_values, 'node_index@n1')))
        self.l = []
        if dim > 1:
            ds.element_from_node_model(node_model='node_index', **w)
            self.l = list(zip(*[g(ds.get_element_model_values, 'node_index@en%d' % i) for i in range(dim + 1)]))
        self.coord = list(zip(*[ds.get_node_model_values(name=a, **w) for a in 'xyz']))
        self.cache = {}
        self.num = {}

    def val(self, kind, name):
        k = kind, name
        if k not in self.cache:
            f = {'n': ds.get_node_model_values, 'e': ds.get_edge_model_values, 'l': ds.get_element_model_values}[kind]
            l = {'n': ds.get_node_model_list, 'e': ds.get_edge_model_list, 'l': ds.get_element_model_list}[kind]
            self.cache[k] = f(name=name, **self.w) if name in l(**self.w) else None
        return self.cache[k]

    def make(self, R, kind, name):
        """A model with arbitrary values."""
        w = self.w
        n = {'n': self.n, 'e': len(self.e), 'l': len(self.l)}[kind]
        sol, mod, put = {'n': (ds.node_solution, ds.node_model, ds.set_node_values), 'e': (ds.edge_solution, ds.edge_model, ds.set_edge_values), 'l': (ds.element_solution, ds.element_model, ds.set_element_values)}[kind]
        t = R.random()
        if t < 0.12:
            mod(name=name, equation=repr(round(R.uniform(-3, 3), 3)), **w)
        elif t < 0.17:
            mod(name=name, equation='0', **w)
        elif t < 0.3:
            base = {'n': ['x', 'node_index', 'NodeVolume'], 'e': ['EdgeLength', 'node_index@n0', 'unitx'], 'l': ['ElementEdgeCouple', 'node_index@en0', 'node_index@en2']}[kind]
            mod(name=name, equation='%r*%s+%r' % (R.uniform(-2, 2), R.choice(base), R.uniform(-1, 1)), **w)
        else:
            sol(name=name, **w)
            put(name=name, values=[0.0 if R.random() < 0.1 else R.uniform(-5, 5) for _ in range(n)], **w)


class History:
    """Equations that were defined first, then replaced or deleted: nothing of them may remain."""

    def __init__(self, seed, regs):
        self.R = random.Random(seed)
        self.regs = regs
        self.late = []
        self.decoys = []
        self.used = set()

    def assemble(self):
        if self.R.random() < 0.3:
            ds.get_matrix_and_rhs()

    def opts(self, g, names):
        o = {}
        for a in names:
            kind = 'l' if a.split('_')[0] in ('element', 'volume') else 'n' if 'node' in a else 'e'
            if g.M[kind] and self.R.random() < 0.6:
                o[a] = self.R.choice(g.M[kind])
        if ('volume_node0_model' in o) != ('volume_node1_model' in o):
            o.pop('volume_node0_model', None), o.pop('volume_node1_model', None)
        return o

    def bulk(self, g, e, v, o):
        R = self.R
        N = ['node_model', 'edge_model', 'edge_volume_model', 'element_model', 'volume_node0_model', 'volume_node1_model', 'time_node_model']
        t = R.choice(['none', 'same', 'variable', 'delete', 'extra', 'extra_late'])
        self.used.add(t)
        if t == 'same':
            ds.equation(name=e, variable_name=v, **dict(g.w, **self.opts(g, N)))
            self.assemble()
        elif t == 'delete':
            ds.equation(name=e, variable_name=v, **dict(g.w, **self.opts(g, N)))
            self.assemble()
            ds.delete_equation(name=e, **g.w)
        elif t in ('variable', 'extra', 'extra_late'):
            z = 'zz%d' % len(self.decoys)
            self.decoys.append((g, z))
            ds.node_solution(name=z, **g.w)
            for m in g.M['n']:
                if R.random() < 0.5:
                    g.make(R, 'n', '%s:%s' % (m, z))
            for m in g.M['e']:
                if R.random() < 0.5:
                    for s in ('@n0', '@n1'):
                        g.make(R, 'e', '%s:%s%s' % (m, z, s))
            name = e if t == 'variable' else 'x' + z
            ds.equation(name=name, variable_name=z, **dict(g.w, **self.opts(g, N)))
            self.assemble()
            if t == 'extra':
                ds.delete_equation(name=name, **g.w)
            elif t == 'extra_late':
                self.late.append(lambda: ds.delete_equation(name=name, **g.w))
        ds.equation(name=e, variable_name=v, **dict(g.w, **o))

    def contact(self, g, c, e, o, keep):
        R = self.R
        N = ['node_model', 'edge_model', 'edge_volume_model', 'element_model', 'node_current_model', 'edge_current_model', 'node_charge_model', 'edge_charge_model']
        w = dict(device=g.d, contact=c, name=e)
        t = R.choice(['none', 'same', 'delete', 'late'])
        if t == 'late' and keep:
            t = 'same'
        if not keep and t == 'same':
            t = 'delete'
        if t != 'none':
            self.used.add('c' + t)
            ds.contact_equation(**dict(w, **self.opts(g, N)))
            self.assemble()
        if t == 'delete':
            ds.delete_contact_equation(**w)
        elif t == 'late':
            self.late.append(lambda: ds.delete_contact_equation(**w))
        if keep:
            ds.contact_equation(**dict(w, **o))

    def interface(self, d, g0, g1, i, name, o, keep):
        R = self.R
        w = dict(device=d, interface=i, name=name)
        t = R.choice(['none', 'delete', 'late', 'same'])
        if t == 'late' and keep:
            t = 'same'
        if not keep and t == 'same':
            t = 'delete'
        if t != 'none':
            self.used.add('i' + t)
            ds.interface_equation(**dict(w, name0=R.choice(sorted(g0.eq.values())), name1=R.choice(sorted(g1.eq.values())), interface_model=o['interface_model'], type=R.choice(['continuous', 'fluxterm', 'hybrid'])))
            self.assemble()
        if t == 'delete':
            ds.delete_interface_equation(**w)
        elif t == 'late':
            self.late.append(lambda: ds.delete_interface_equation(**w))
        if keep:
            ds.interface_equation(**dict(w, **o))

    def end(self):
        self.R.shuffle(self.late)
        for f in self.late:
            f()
        for k in sorted(self.regs):
            g = self.regs[k]
            if self.R.random() < 0.4:
                # a variable has one equation
                a, b = self.R.choice(g.vars), self.R.choice(g.vars)
                name = 'another' if a == b else g.eq[a]
                self.used.add('refused')
                try:
                    ds.equation(name=name, variable_name=b, **dict(g.w, **self.opts(g, ['node_model', 'edge_model'])))
                except ds.error:
                    continue
                need(False, 'region %s: equation %s took variable %s, which is the variable of equation %s', g.r, name, b, g.eq[b])

    def check(self):
        for g, z in self.decoys:
            try:
                ds.get_equation_numbers(variable=z, **g.w)
            except ds.error:
                continue
            need(False, 'region %s: variable %s still has equation numbers after its equation was replaced or deleted', g.r, z)


class Sys:
    def __init__(self, n):
        self.A = {}
        self.b = [[] for _ in range(n)]

    def rhs(self, row, v):
        self.b[row].append(-v)

    def mat(self, row, col, v):
        self.A.setdefault((row, col), []).append(v)


def pick(R, l, p):
    return R.choice(l) if l and R.random() < p else None


def param(d, r, name):
    """What a region sees for a parameter: region, then device, then global."""
    for kw in (dict(device=d, region=r), dict(device=d), {}):
        if name in ds.get_parameter_list(**kw):
            return ds.get_parameter(name=name, **kw)


def run(case, ctx):
    dsx.reset()
    c09.params()
    R = random.Random(case['seed'])
    ds.set_parameter(name='threads_available', value=case['threads'])
    ds.set_parameter(name='threads_task_size', value=4)
    for x in [[], ['extended_solver'], ['extended_solver', 'extended_model', 'extended_equation']][case['ext']]:
        ds.set_parameter(name=x, value=True)
    regs, order = {}, []
    kinds = set()
    circ = ['k%d' % i for i in range(case['circ'])]
    res = []
    for i, c in enumerate(circ):
        ds.add_circuit_node(name=c, value=R.uniform(-1, 1))
    for i in range(len(circ)):
        n1, n2, v = circ[i], R.choice(circ + ['0']), R.uniform(0.5, 3)
        if n1 == n2:
            n2 = '0'
        ds.circuit_element(name='R%d' % i, n1=n1, n2=n2, value=v)
        res.append((n1, n2, v))
    bulk, cont, itf = [], [], []
    H = History(case['hist'], regs) if case['hist'] else None
    for m in case['m']:
        d = m['dname']
        dim = c09.build(m)
        regions = sorted(ds.get_region_list(device=d))
        for r in regions:
            g = Region(d, r, dim)
            regs[d, r] = g
            order.append((d, r))
        if case['xi'] and len(regions) > 1:
            # another interface, which may share nodes with the first one
            g0, g1 = regs[d, 'r0'], regs[d, 'r1']
            sh = [(i, g1.coord.index(c)) for i, c in enumerate(g0.coord) if c in g1.coord] + [(R.randrange(g0.n), R.randrange(g1.n))]
            R.shuffle(sh)
            sh = sh[:R.randint(1, len(sh))]
            seen, p = set(), []
            for a, b in sh:
                if (0, a) not in seen and (1, b) not in seen:
                    seen |= {(0, a), (1, b)}
                    p.append((a, b))
            ds.create_interface_from_nodes(device=d, name='xi', region0='r0', region1='r1', nodes0=[a for a, _ in p], nodes1=[b for _, b in p])
    for pn, (k, dflt) in WEIGHTS.items():
        for d, r in order:
            g = regs[d, r]
            if case['weights'] and not (k == 'l' and g.dim == 1):
                g.make(R, k, 'W_' + pn)
        if case['weights'] and R.random() < 0.6 * case['weights']:
            for kw in R.sample([dict()] + [dict(device=d) for d in sorted({d for d, _ in order})] + ([dict(device=d, region=r) for d, r in order] if pn[0] != 's' else []), 2 if pn[0] != 's' else 1):
                ds.set_parameter(name=pn, value=R.choice(['W_' + pn, dflt]), **kw)
    p = case['dens']
    for d, r in order:
        g = regs[d, r]
        vs = R.sample(['u', 'v', 'w'], R.randint(1, 3))
        en = {v: R.choice(['eq_' + v, 'E%d' % i]) for i, v in enumerate(vs)}
        g.vars, g.eq = vs, en
        for v in vs:
            ds.node_solution(name=v, **g.w)
            ds.set_node_values(name=v, values=[R.uniform(-1, 1) for _ in range(g.n)], **g.w)
        g.M = {'n': ['mn%d' % i for i in range(3)], 'e': ['me%d' % i for i in range(3)], 'l': ['ml%d' % i for i in range(3)] if g.dim > 1 else []}
        suffix = {'n': [''], 'e': ['@n0', '@n1'], 'l': ['@en%d' % i for i in range(g.dim + 1)]}
        for k in 'nel':
            for mname in g.M[k]:
                g.make(R, k, mname)
                for v in vs:
                    if R.random() < case['der']:
                        for s in suffix[k]:
                            g.make(R, k, '%s:%s%s' % (mname, v, s))
                for c in circ:
                    if R.random() < 0.5:
                        g.make(R, k, '%s:%s' % (mname, c))
        for v in vs:
            o = {}
            for a, k in (('node_model', 'n'), ('edge_model', 'e'), ('edge_volume_model', 'e'), ('element_model', 'l'), ('time_node_model', 'n')):
                x = pick(R, g.M[k], p)
                if x:
                    o[a] = x
            if g.M['l'] and R.random() < p:
                o['volume_node0_model'] = R.choice(g.M['l'])
                o['volume_node1_model'] = R.choice(g.M['l'])
            if H:
                H.bulk(g, en[v], v, o)
            else:
                ds.equation(name=en[v], variable_name=v, **dict(g.w, **o))
            bulk.append((g, en[v], o))
    for m in case['m']:
        d = m['dname']
        for c in sorted(ds.get_contact_list(device=d)):
            r, = ds.get_region_list(device=d, contact=c)
            g = regs[d, r]
            for e in g.eq.values():
                if R.random() < 0.35:
                    if H:
                        H.contact(g, c, e, {}, False)
                    continue
                o = {}
                for a in ('node_model', 'edge_model', 'edge_volume_model', 'element_model', 'node_current_model', 'edge_current_model', 'element_current_model', 'node_charge_model', 'edge_charge_model', 'element_charge_model'):
                    x = pick(R, g.M['l' if a[1] == 'l' else a[0]], max(p, 0.7) if a == 'node_model' else p)
                    if x:
                        o[a] = x
                if g.M['l'] and R.random() < p:
                    o['volume_node0_model'] = R.choice(g.M['l'])
                    o['volume_node1_model'] = R.choice(g.M['l'])
                if circ and R.random() < 0.7:
                    o['circuit_node'] = R.choice(circ + ['0'])
                if H:
                    H.contact(g, c, e, o, True)
                else:
                    ds.contact_equation(device=d, contact=c, name=e, **o)
                cont.append((g, c, e, o))
        for i in sorted(ds.get_interface_list(device=d)):
            r0, r1 = ds.get_region_list(device=d, interface=i)
            g0, g1 = regs[d, r0], regs[d, r1]
            for k in range(R.randint(0, 2)):
                im = 'im%d' % k
                a, b = R.choice(g0.vars), R.choice(g1.vars)
                ds.interface_model(device=d, interface=i, name=im, equation='%r*%s@r0*%s@r1+%r' % (R.uniform(1, 2), R.choice(g0.M['n']), R.choice(g1.M['n']), R.uniform(-1, 1)))
                for g, s in ((g0, '@r0'), (g1, '@r1')):
                    for v in g.vars:
                        if R.random() < case['der']:
                            ds.interface_model(device=d, interface=i, name='%s:%s%s' % (im, v, s), equation=R.choice(['%r' % R.uniform(-1, 1), '%r*%s@r0-%s@r1' % (R.uniform(-1, 1), R.choice(g0.M['n']), R.choice(g1.M['n']))]))
                t = R.choice(['continuous', 'fluxterm', 'hybrid'])
                n0, n1 = g0.eq[a], g1.eq[b]
                if any(x[1] is g0 and x[3] == i and (x[5] == n0 or x[6] == n1) for x in itf):
                    if H:
                        H.interface(d, g0, g1, i, 'ie%d' % k, dict(interface_model=im), False)
                    continue
                if H:
                    H.interface(d, g0, g1, i, 'ie%d' % k, dict(name0=n0, name1=n1, interface_model=im, type=t), True)
                else:
                    ds.interface_equation(device=d, interface=i, name='ie%d' % k, name0=n0, name1=n1, interface_model=im, type=t)
                itf.append((d, g0, g1, i, im, n0, n1, t))
    custom = []

    def cb(k):
        def f(what, mode):
            _, bulkp, st, dy = custom[k]
            a, b = st if mode == 'DC' else dy
            return [x for t in a for x in t], [x for t in b for x in t], bulkp
        return f
    if H:
        H.end()
    # first assembly: fixes the numbers
    if 'u' not in ds.get_node_model_list(**regs[order[0]].w) and not bulk:
        return
    ds.get_matrix_and_rhs()
    if H:
        H.check()
    # numbering
    seen = []
    for d, r in order:
        g = regs[d, r]
        for v, e in g.eq.items():
            a = list(ds.get_equation_numbers(variable=v, **g.w))
            b = list(ds.get_equation_numbers(equation=e, **g.w))
            need(a == b and len(a) == g.n, 'region %s: numbers by variable %s and by equation differ or have the wrong length', r, v)
            g.num[v] = a
            g.num['=' + e] = a
            seen += a
    cn = {c: ds.get_circuit_equation_number(node=c) for c in circ}
    seen += list(cn.values())
    need(sorted(seen) == list(range(len(seen))), 'equation numbers are not a numbering: %s', sorted(seen)[:20])
    n = len(seen)
    for k in range(case['ncust']):
        ent = lambda: ([(R.randrange(n), R.randrange(n), R.uniform(-1, 1)) for _ in range(R.randint(0, 5))], [(R.randrange(n), R.uniform(-1, 1)) for _ in range(R.randint(0, 4))])
        custom.append(('cu%d' % k, R.random() < 0.5, ent(), ent()))
        ds.custom_equation(name='cu%d' % k, procedure=cb(k))
    # nodes of contacts and interfaces
    cnodes, at = {}, {}
    for m in case['m']:
        d = m['dname']
        for c in ds.get_contact_list(device=d):
            r, = ds.get_region_list(device=d, contact=c)
            ds.contact_node_model(device=d, contact=c, name='on_' + c, equation='1')
            cnodes[d, c] = [i for i, v in enumerate(ds.get_node_model_values(name='on_' + c, **regs[d, r].w)) if v == 1.0]
            need(len(cnodes[d, c]) > 0, 'contact %s has no nodes', c)
    pairs, icoord = {}, {}
    for m in case['m']:
        d = m['dname']
        for i in ds.get_interface_list(device=d):
            out = []
            for s in ('r0', 'r1'):
                ds.interface_model(device=d, interface=i, name='ix' + s, equation='node_index@' + s)
                out.append([int(round(v)) for v in ds.get_interface_model_values(device=d, interface=i, name='ix' + s)])
            pairs[d, i] = list(zip(*out))
            r0, r1 = ds.get_region_list(device=d, interface=i)
            icoord[d, i] = {x for a, b in pairs[d, i] for x in (regs[d, r0].coord[a], regs[d, r1].coord[b])}
    ccoord = {(d, c): {regs[d, ds.get_region_list(device=d, contact=c)[0]].coord[i] for i in cnodes[d, c]} for d, c in cnodes}

    # reference
    perm = list(range(n))
    copy = [0] * n

    def active_contact(g, c, e):
        out = []
        for i in cnodes[g.d, c]:
            if not any(g2 is g and c2 < c and e2 == e and g.coord[i] in ccoord[g.d, c2] for g2, c2, e2, _ in cont):
                out.append(i)
        return out

    def active_itf(d, g0, g1, i, n0, n1):
        out = []
        for a, b in pairs[d, i]:
            ok = True
            for g, k, e in ((g0, a, n0), (g1, b, n1)):
                if any(g2 is g and e2 == e and g.coord[k] in ccoord[d, c2] for g2, c2, e2, _ in cont):
                    ok = False
                for (d2, h0, h1, j, _, m0, m1, _) in itf:
                    if d2 == d and j != i and g.coord[k] in icoord[d, j] and ((h0 is g and m0 == e) or (h1 is g and m1 == e)):
                        ok = False
            if ok:
                out.append((a, b))
        return out
    act = [active_contact(g, c, e) for g, c, e, _ in cont]
    iact = [active_itf(d, g0, g1, i, n0, n1) for d, g0, g1, i, im, n0, n1, t in itf]
    for (g, c, e, o), nodes in zip(cont, act):
        if 'node_model' in o:
            for i in nodes:
                perm[g.num['=' + e][i]] = -1
    for (d, g0, g1, i, im, n0, n1, t), pr in zip(itf, iact):
        if t != 'fluxterm':
            for a, b in pr:
                r0, r1 = g0.num['=' + n0][a], g1.num['=' + n1][b]
                perm[r1] = r0
                copy[r1] = int(t == 'hybrid')
    S = {'static': Sys(n), 'dynamic': Sys(n)}
    B = {'static': Sys(n), 'dynamic': Sys(n)}

    def node_term(T, g, row, m, w, nodes=None, cc=None):
        kinds.add('n')
        wv, mv = g.val('n', param(g.d, g.r, w)), g.val('n', m)
        for i in (range(g.n) if nodes is None else nodes):
            T.rhs(row(i), wv[i] * mv[i])
            for v in g.vars:
                dv = g.val('n', '%s:%s' % (m, v))
                if dv:
                    T.mat(row(i), g.num[v][i], wv[i] * dv[i])
            if cc:
                dv = g.val('n', '%s:%s' % (m, cc))
                if dv:
                    T.mat(row(i), cn[cc], wv[i] * dv[i])

    def edge_term(T, g, kind, row, m, wname, s0, s1, nodes=None, cc=None, skip=False):
        """kind e: edges of the region; l: edges of its elements.  The value times the weight goes to the row of node 0 times s0 and node 1 times s1."""
        kinds.add(kind)
        wv, mv = g.val(kind, param(g.d, g.r, wname)), g.val(kind, m)
        L = g.e if kind == 'e' else g.l
        sfx = ['@n0', '@n1'] if kind == 'e' else ['@en%d' % q for q in range(g.dim + 1)]
        on = None if nodes is None else set(nodes)
        for k, t in enumerate(L):
            for j, s in ((0, s0), (1, s1)):
                if s == 0 or (on is not None and t[j] not in on):
                    continue
                if skip and t[0] in on and t[1] in on:
                    continue
                rr = row(t[j])
                T.rhs(rr, s * wv[k] * mv[k])
                for v in g.vars:
                    for q, x in enumerate(sfx):
                        dv = g.val(kind, '%s:%s%s' % (m, v, x))
                        if dv:
                            T.mat(rr, g.num[v][t[q]], s * wv[k] * dv[k])
                if cc:
                    dv = g.val(kind, '%s:%s' % (m, cc))
                    if dv:
                        T.mat(rr, cn[cc], s * wv[k] * dv[k])

    def terms(T, g, o, row, nodes=None, cc=None):
        a = dict(nodes=nodes, cc=cc)
        if 'node_model' in o:
            node_term(T, g, row, o['node_model'], 'node_volume_model', **a)
        if 'edge_model' in o:
            edge_term(T, g, 'e', row, o['edge_model'], 'edge_couple_model', 1, -1, **a)
        if 'edge_volume_model' in o:
            edge_term(T, g, 'e', row, o['edge_volume_model'], 'edge_node0_volume_model', 1, 0, **a)
            edge_term(T, g, 'e', row, o['edge_volume_model'], 'edge_node1_volume_model', 0, 1, **a)
        if 'element_model' in o:
            edge_term(T, g, 'l', row, o['element_model'], 'element_edge_couple_model', 1, -1, **a)
        if 'volume_node0_model' in o:
            edge_term(T, g, 'l', row, o['volume_node0_model'], 'element_node0_volume_model', 1, 0, **a)
            edge_term(T, g, 'l', row, o['volume_node1_model'], 'element_node1_volume_model', 0, 1, **a)
    for g, e, o in bulk:
        row = lambda i: g.num['=' + e][i]
        terms(B['static'], g, o, row)
        if 'time_node_model' in o:
            node_term(B['dynamic'], g, row, o['time_node_model'], 'node_volume_model')
    for (g, c, e, o), nodes in zip(cont, act):
        row = lambda i: g.num['=' + e][i]
        cc = o.get('circuit_node')
        cc = cc if cc in cn else None
        terms(S['static'], g, o, row, nodes, cc)
        if cc:
            kinds.add('circuit')
            for T, s in (('static', 'current'), ('dynamic', 'charge')):
                crow = lambda i: cn[cc]
                if 'node_%s_model' % s in o:
                    node_term(S[T], g, crow, o['node_%s_model' % s], 'node_volume_model', nodes, cc)
                if 'edge_%s_model' % s in o:
                    edge_term(S[T], g, 'e', crow, o['edge_%s_model' % s], 'edge_couple_model', 1, -1, nodes, cc, True)
                if 'element_%s_model' % s in o:
                    edge_term(S[T], g, 'l', crow, o['element_%s_model' % s], 'element_edge_couple_model', 1, -1, nodes, cc, True)
    for (d, g0, g1, i, im, n0, n1, t), pr in zip(itf, iact):
        if pr:
            kinds.add(t)
        val = lambda x: ds.get_interface_model_values(device=d, interface=i, name=x) if x in ds.get_interface_model_list(device=d, interface=i) else None
        mv = val(im)
        D = [(g, side, v, val('%s:%s@r%d' % (im, v, side))) for side, g in ((0, g0), (1, g1)) for v in g.vars]
        for k, (a, b) in enumerate(pairs[d, i]):
            if (a, b) not in pr:
                continue
            r0, r1 = g0.num['=' + n0][a], g1.num['=' + n1][b]
            if t == 'continuous':
                out = [(r1, 1.0)]
            else:
                sa = param(d, g0.r, 'surface_area_model')
                out = [(r1, -g1.val('n', sa)[b])]
                if t == 'fluxterm':
                    out.append((r0, g0.val('n', sa)[a]))
            for rr, f in out:
                S['static'].rhs(rr, f * mv[k])
                for g, side, v, dv in D:
                    if dv:
                        S['static'].mat(rr, g.num[v][(a, b)[side]], f * dv[k])
    if circ:
        volt = {c: ds.get_circuit_node_value(node=c, solution='dcop') for c in circ}
        volt['0'] = 0.0
        for n1, n2, v in res:
            for a, b in ((n1, n2), (n2, n1)):
                if a != '0':
                    S['static'].rhs(cn[a], (volt[a] - volt[b]) / v)
                    S['static'].mat(cn[a], cn[a], 1 / v)
                    if b != '0':
                        S['static'].mat(cn[a], cn[b], -1 / v)
    for _, isb, stt, dyn in custom:
        kinds.add('custom%d' % isb)
        for T, (a, b) in (('static', stt), ('dynamic', dyn)):
            X = (B if isb else S)[T]
            for r, c, v in a:
                X.mat(r, c, v)
            for r, v in b:
                X.rhs(r, v)
    for T in S:
        for r in range(n):
            for x in ([perm[r]] if perm[r] >= 0 else []) + ([r] if copy[r] else []):
                S[T].b[x] += B[T].b[r]
        for (r, c), l in B[T].A.items():
            for x in ([perm[r]] if perm[r] >= 0 else []) + ([r] if copy[r] else []):
                S[T].A.setdefault((x, c), []).extend(l)
    out = {f: ds.get_matrix_and_rhs(format=f) for f in ('csr', 'csc')}
    out[''] = ds.get_matrix_and_rhs()
    for f, q in out.items():
        need(list(q['permutation']['row']) == perm, '%s: permutation differs at %s', f, [(i, a, b) for i, (a, b) in enumerate(zip(q['permutation']['row'], perm)) if a != b][:3])
        need([int(bool(x)) for x in q['permutation']['copy']] == copy, '%s: copied rows differ', f)
        for T in S:
            z = q[T]
            ap, ai, av, rhs = [list(z[x]) for x in ('ap', 'ai', 'av', 'rhs')]
            need(len(rhs) == n and len(ap) == n + 1, '%s %s: dimension', f, T)
            need(ap[0] == 0 and ap[-1] == len(ai) == len(av) and all(a <= b for a, b in zip(ap, ap[1:])), '%s %s: row pointers %s', f, T, ap[:10])
            A = {}
            for i in range(n):
                need(all(x < y for x, y in zip(ai[ap[i]:ap[i + 1]], ai[ap[i] + 1:ap[i + 1]])), '%s %s: indexes of line %d are not increasing', f, T, i)
                for k in range(ap[i], ap[i + 1]):
                    need(0 <= ai[k] < n, '%s %s: index out of range', f, T)
                    A[(i, ai[k]) if q['format'] == 'csr' else (ai[k], i)] = av[k]
            for i in range(n):
                l = S[T].b[i]
                s, mag = math.fsum(l), sum(abs(x) for x in l)
                need(abs(rhs[i] - s) <= 1e-12 * mag, '%s rhs of row %d: %r instead of %r (%s)', T, i, rhs[i], s, l)
            for k in set(A) | set(S[T].A):
                l = S[T].A.get(k, [])
                s, mag = math.fsum(l), sum(abs(x) for x in l)
                need(abs(A.get(k, 0.0) - s) <= 1e-12 * mag, '%s %s matrix entry %s: %r instead of %r (%s)', f, T, k, A.get(k, 0.0), s, l)
    need(out['csr']['format'] == 'csr' and out['csc']['format'] == 'csc', 'format label')
    for k in kinds:
        ctx.count('term:' + k)
    if len(kinds) >= 2:
        ctx.nontrivial()


SUITES = [Suite('assembly', strat, run, quick=400, thorough=16000), Suite('history', strat_history, run, quick=250, thorough=8000)]
