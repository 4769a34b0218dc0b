"""C09: random devices (1D, 2D, 3D; regions, contacts, interfaces, models of every kind, solutions, equations) are written in the native format and loaded into an empty session; every observable is compared bit for bit, and the file written again."""
from hypothesis import strategies as st
import math, os, random, re, struct, tempfile
from harness import Suite, need
import dsx, meshgen
from dsx import ds

PROPERTY = 'C09'
RULE = ('A case builds a device from a random mesh (in-memory Gmsh lists, or the 1D/2D structured mesher), shuffled and jittered, with 1 to 3 regions, contacts, interfaces (from the mesh or from node pairs), and a random program of model commands: '
        'solutions with random bit patterns or uniform values, expressions with full precision constants, edge/element/contact/interface models derived from other models, cylindrical, gradient and interface normal models, then bulk, contact and interface equations with random '
        'options. The snapshot taken before (lists, materials, equation commands, equation numbers, element node lists, bits of all model values, matrix) has to equal the one after write_devices, reset_devsim and load_devices; '
        'a second file written after the load has to say the same as the first, block by block. Non-trivial: at least 3 models besides the built in ones.')
ASSUMPTIONS = ['parameters and circuits are not part of the native format: the ones used are set again before loading', 'values are finite', 'a model keeps the value its expression gives (values set by hand on top of an expression model are not kept)',
               'names contain no quotation marks (the file format quotes names)']

VAL = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.floats(-10, 10), st.sampled_from([0.0, -0.0, 1e-300, 5e-324, 1.7e308, 0.1, 1 / 3, 1e20]))


@st.composite
def mesh_case(draw):
    kind = draw(st.sampled_from(['gmsh1', 'gmsh2', 'gmsh2', 'gmsh3', 'gmsh3', 'm1', 'm2']))
    seed = draw(st.integers(0, 2**30))
    if kind == 'gmsh1':
        n = [draw(st.integers(2, 7))]
    elif kind == 'gmsh2':
        n = [draw(st.integers(2, 4)), draw(st.integers(1, 3))]
    elif kind == 'gmsh3':
        n = [draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 2))]
    else:
        n = [draw(st.integers(2, 6)), draw(st.integers(2, 4))]
    split = []
    if n[0] >= 2 and draw(st.booleans()):
        split = sorted(draw(st.sets(st.integers(1, n[0] - 1), min_size=1, max_size=2)))
    return dict(kind=kind, n=n, seed=seed, split=split, scale=draw(st.sampled_from([1.0, 1e-4, 3e-7, 1e3])), itf=draw(st.booleans()), pairs=draw(st.booleans()),
                mat=draw(st.sampled_from(['Si', 'Silicon Nitride', 'SiO2 (wet)', 'x-1'])), jit=draw(st.sampled_from([0.0, 0.2])), dname=draw(st.sampled_from(['dev', 'my device', 'd.1'])), sub=draw(st.booleans()))


CON = st.one_of(st.floats(0.01, 5), st.floats(-5, -0.01), st.sampled_from([0.1, -1 / 3, 12345678.0, -1e22, 1.6021766e-19, 3e-9, 1234567.8901234567]))
NODE_E = ['{a}*1.5+{b}', 'pow({a}*{a}+1,0.3)', '{c}*x-y/3', 'exp(-abs(x))+{c}', 'ifelse(x>{c},1,2)*{c}', 'x', 'x*y+z', 'asinh({a})/{c}', '{c}', 'gp*x+{c}', 'sin_(x)' , '-{a}-{b}-{c}', '{a}/(1+{b}^2)', '2^(-x)', 'erf(x)*{c}', 'B(x/{c})', 'max({a},{b})', 'dot2d(x,y,{c},1)']
EDGE_E = ['{e}*{c}', '({n}@n0-{n}@n1)*EdgeInverseLength', 'unitx+{c}*unity', '{e}+EdgeLength', 'B({c}*{e})', '{c}', 'kahan3({e},{c},unitx)']
ELEM_E = ['{m}*{c}', 'ElementEdgeCouple*{c}', '{m}+1', '{c}']
ops = st.one_of(
    st.tuples(st.just('nsol'), st.integers(0, 9), st.lists(VAL, min_size=1, max_size=6)),
    st.tuples(st.just('nsol'), st.integers(0, 9), st.lists(VAL, min_size=1, max_size=6)),
    st.tuples(st.just('nuni'), st.integers(0, 9), VAL),
    st.tuples(st.just('ncopy'), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just('nexp'), st.sampled_from(NODE_E), st.integers(0, 9), st.integers(0, 9), CON, st.sampled_from(['scalar', 'vector', 'nodisplay', None])),
    st.tuples(st.just('efn'), st.integers(0, 9)),
    st.tuples(st.just('eexp'), st.sampled_from(EDGE_E), st.integers(0, 9), st.integers(0, 9), CON, st.sampled_from(['scalar', 'vector', 'nodisplay', None])),
    st.tuples(st.just('esol'), st.integers(0, 9), st.lists(VAL, min_size=1, max_size=6)),
    st.tuples(st.just('eavg'), st.integers(0, 9), st.sampled_from(['arithmetic', 'geometric', 'gradient', 'negative_gradient']), st.booleans(), st.integers(0, 9)),
    st.tuples(st.just('elfn'), st.integers(0, 9)),
    st.tuples(st.just('elfe'), st.integers(0, 9), st.booleans(), st.integers(0, 9)),
    st.tuples(st.just('elpe'), st.integers(0, 9), st.booleans(), st.integers(0, 9)),
    st.tuples(st.just('elexp'), st.sampled_from(ELEM_E), st.integers(0, 9), CON, st.sampled_from(['scalar', 'vector', 'nodisplay', None])),
    st.tuples(st.just('elsol'), st.integers(0, 9), st.lists(VAL, min_size=1, max_size=6)),
    st.tuples(st.just('vec'), st.integers(0, 9)),
    st.tuples(st.just('grad'), st.integers(0, 9), st.sampled_from(['default', 'avoidzero'])),
    st.tuples(st.just('inorm'), st.integers(0, 9)),
    st.tuples(st.just('cyl')),
    st.tuples(st.just('cnode'), st.integers(0, 9), st.integers(0, 9), CON),
    st.tuples(st.just('cedge'), st.integers(0, 9), st.integers(0, 9), CON),
    st.tuples(st.just('imod'), st.integers(0, 9), st.integers(0, 9), CON),
    st.tuples(st.just('eq'), st.integers(0, 9), st.lists(st.integers(0, 9), min_size=7, max_size=7), st.sampled_from(['default', 'positive', 'log_damp'])),
    st.tuples(st.just('ceq'), st.integers(0, 9), st.lists(st.integers(0, 9), min_size=13, max_size=13)),
    st.tuples(st.just('ieq'), st.integers(0, 9), st.integers(0, 9), st.sampled_from(['continuous', 'fluxterm', 'hybrid']), st.booleans()),
    st.tuples(st.just('mat'), st.integers(0, 9), st.sampled_from(['Si', 'Ge 2', 'a/b'])),
)


@st.composite
def strat(draw):
    m = draw(mesh_case())
    nreg = len(m['split']) + 1
    prog = draw(st.lists(st.tuples(st.integers(0, nreg - 1), ops), min_size=3, max_size=18))
    return dict(m=m, prog=prog, rich=draw(st.one_of(st.just(0), st.integers(1, 10**6))), pre=draw(st.booleans()), how=draw(st.sampled_from(['reset', 'delete', 'two'])), one=draw(st.booleans()))


def build(m):
    d = m['dname']
    k = m['kind']
    if k.startswith('gmsh'):
        dim = int(k[4])
        if dim == 1:
            r = random.Random(m['seed'])
            x = [0.0]
            for _ in range(m['n'][0]):
                x.append(x[-1] + m['scale'] * r.choice([0.1, 1 / 3, 1.0, 0.7]))
            mesh = meshgen.line_mesh(x, m['split'])
        else:
            mesh = meshgen.grid_mesh(dim, m['n'], m['seed'], m['jit'], m['split'], scale=(m['scale'],) * 3)
        if m.get('sub') and dim > 1:
            # contacts on part of a side, and on any facets of a region
            r = random.Random(m['seed'] + 1)
            some = lambda l: r.sample(l, r.randint(1, len(l)))
            mesh['contacts'] = {c: (i, some(list(f))) for c, (i, f) in mesh['contacts'].items() if f}
            if r.random() < 0.5:
                i = r.randrange(len(mesh['regions']))
                mesh['contacts']['cs'] = (i, some(sorted({tuple(sorted(t[:j] + t[j + 1:])) for t in map(tuple, mesh['regions'][i]) for j in range(len(t))})))
        meshgen.make_device(ds, mesh, device=d, use_interfaces=m['itf'] or not m['pairs'], material=m['mat'])
        if m['pairs'] and not m['itf']:
            for i in range(len(mesh['regions']) - 1):
                n0, n1 = meshgen.region_nodes(mesh, i), meshgen.region_nodes(mesh, i + 1)
                sh = sorted(set(n0) & set(n1))
                random.Random(m['seed']).shuffle(sh)
                sh = sh[:max(1, len(sh) - 1)]
                ds.create_interface_from_nodes(device=d, name='p%d' % i, region0='r%d' % i, region1='r%d' % (i + 1), nodes0=[n0.index(v) for v in sh], nodes1=[n1.index(v) for v in sh])
        return dim
    s = m['scale']
    b = [0] + m['split'] + [m['n'][0]]
    if k == 'm1':
        ds.create_1d_mesh(mesh='mm_' + d)
        for i, p in enumerate(b):
            ds.add_1d_mesh_line(mesh='mm_' + d, tag='t%d' % i, pos=p * s / 3, ps=s * 0.21)
        for i in range(len(b) - 1):
            ds.add_1d_region(mesh='mm_' + d, material=m['mat'], region='r%d' % i, tag1='t%d' % i, tag2='t%d' % (i + 1))
        for i in range(1, len(b) - 1):
            ds.add_1d_interface(mesh='mm_' + d, name='i%d' % (i - 1), tag='t%d' % i)
        ds.add_1d_contact(mesh='mm_' + d, name='c0', tag='t0', material='metal')
        ds.add_1d_contact(mesh='mm_' + d, name='c1', tag='t%d' % (len(b) - 1), material='metal')
        ds.finalize_mesh(mesh='mm_' + d)
        ds.create_device(mesh='mm_' + d, device=d)
        return 1
    ds.create_2d_mesh(mesh='mm_' + d)
    for i, p in enumerate(b):
        ds.add_2d_mesh_line(mesh='mm_' + d, dir='x', pos=p * s / 3, ps=s * 0.3)
    for p in (0, m['n'][1]):
        ds.add_2d_mesh_line(mesh='mm_' + d, dir='y', pos=p * s / 3, ps=s * 0.5)
    top = m['n'][1] * s / 3
    for i in range(len(b) - 1):
        ds.add_2d_region(mesh='mm_' + d, material=m['mat'], region='r%d' % i, xl=b[i] * s / 3, xh=b[i + 1] * s / 3, yl=0, yh=top)
    for i in range(len(b) - 2):
        ds.add_2d_interface(mesh='mm_' + d, name='i%d' % i, region0='r%d' % i, region1='r%d' % (i + 1))
    ds.add_2d_contact(mesh='mm_' + d, name='c0', material='metal', region='r0', xl=0, xh=0, yl=0, yh=top, bloat=1e-3 * s * 0.01)
    e = b[-1] * s / 3
    ds.add_2d_contact(mesh='mm_' + d, name='c1', material='metal', region='r%d' % (len(b) - 2), xl=e, xh=e, yl=0, yh=top, bloat=1e-3 * s * 0.01)
    ds.finalize_mesh(mesh='mm_' + d)
    ds.create_device(mesh='mm_' + d, device=d)
    return 2


def params():
    ds.set_parameter(name='gp', value=0.1)


class Prog:
    def __init__(self, d, dim):
        self.d, self.dim, self.k = d, dim, 0
        regs = ds.get_region_list(device=d)
        self.base = {r: (set(ds.get_node_model_list(device=d, region=r)), set(ds.get_edge_model_list(device=d, region=r)), set(ds.get_element_model_list(device=d, region=r)) if dim > 1 else set()) for r in regs}
        self.made = 0

    def pick(self, l, i, default):
        return l[i % len(l)] if l else default

    def own(self, r, w):
        f = (ds.get_node_model_list, ds.get_edge_model_list, ds.get_element_model_list)[w]
        if w == 2 and self.dim == 1:
            return []
        return sorted(set(f(device=self.d, region=r)) - self.base[r][w])

    def name(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def do(self, ri, op):
        d, dim = self.d, self.dim
        r = 'r%d' % ri
        w = dict(device=d, region=r)
        k = op[0]
        nm, em = self.own(r, 0), self.own(r, 1)
        el = self.own(r, 2)
        scal = [n for n in nm if ':' not in n]
        cs = [c for c in ds.get_contact_list(device=d) if ds.get_region_list(device=d, contact=c) == (r,)]
        its = list(ds.get_interface_list(device=d))
        fill = lambda v, n: [v[i % len(v)] * (1 if i < len(v) else (0.999 if abs(v[i % len(v)]) < 1e300 else 1)) for i in range(n)]
        if k == 'nsol':
            n = self.name('s')
            ds.node_solution(name=n, **w)
            ds.set_node_values(name=n, values=fill(op[2], len(ds.get_node_model_values(name='x', **w))), **w)
        elif k == 'nuni':
            n = self.name('u')
            ds.node_solution(name=n, **w)
            ds.set_node_value(name=n, value=op[2], **w)
        elif k == 'ncopy':
            n = self.name('s')
            ds.node_solution(name=n, **w)
            ds.set_node_values(name=n, init_from=self.pick(nm, op[2], 'x'), **w)
        elif k == 'nexp':
            e = op[1]
            if 'sin_' in e:
                return
            ds.node_model(name=self.name('n'), equation=e.format(a=self.pick(scal, op[2], 'x'), b=self.pick(scal, op[3], 'y'), c=repr(op[4])), **dict(w, **({} if op[5] is None else {'display_type': op[5]})))
        elif k == 'efn':
            ds.edge_from_node_model(node_model=self.pick(scal, op[1], 'x'), **w)
        elif k == 'eexp':
            n = self.pick(scal, op[3], 'x')
            if '{n}' in op[1]:
                ds.edge_from_node_model(node_model=n, **w)
            ds.edge_model(name=self.name('e'), equation=op[1].format(e=self.pick([x for x in em if '@' not in x or True], op[2], 'EdgeLength'), n=n, c=repr(op[4])), **dict(w, **({} if op[5] is None else {'display_type': op[5]})))
        elif k == 'esol':
            n = self.name('es')
            ds.edge_solution(name=n, **w)
            if len(op[2]) > 1:
                ds.set_edge_values(name=n, values=fill(op[2], len(ds.get_edge_model_values(name='EdgeLength', **w))), **w)
        elif k == 'eavg':
            n = self.pick(scal, op[1], 'x')
            a = dict(w, node_model=n, edge_model=self.name('av'), average_type=op[2])
            ds.edge_average_model(**a)
            if op[3] and scal:
                v = self.pick(scal, op[4], 'x')
                if ('%s:%s' % (n, v)) not in nm:
                    ds.node_model(name='%s:%s' % (n, v), equation='2*%s' % v, **w)
                ds.edge_average_model(derivative=v, **a)
        elif k == 'elfn' and dim > 1:
            ds.element_from_node_model(node_model=self.pick(scal, op[1], 'x'), **w)
        elif k in ('elfe', 'elpe') and dim > 1:
            e = self.pick([x for x in em if ':' not in x and '@' not in x], op[1], 'EdgeLength')
            f = ds.element_from_edge_model if k == 'elfe' else ds.element_pair_from_edge_model
            f(edge_model=e, **w)
            if op[2] and scal:
                v = self.pick(scal, op[3], 'x')
                for i in (0, 1):
                    if '%s:%s@n%d' % (e, v, i) not in em:
                        ds.edge_model(name='%s:%s@n%d' % (e, v, i), equation='%s*%d' % (e, i + 2), **w)
                f(edge_model=e, derivative=v, **w)
        elif k == 'elexp' and dim > 1:
            ds.element_model(name=self.name('l'), equation=op[1].format(m=self.pick(el, op[2], 'ElementEdgeCouple'), c=repr(op[3])), **dict(w, **({} if op[4] is None else {'display_type': op[4]})))
        elif k == 'elsol' and dim > 1:
            n = self.name('ls')
            ds.element_solution(name=n, **w)
            if len(op[2]) > 1:
                ds.set_element_values(name=n, values=fill(op[2], len(ds.get_element_model_values(name='ElementEdgeCouple', **w))), **w)
        elif k == 'vec' and dim > 1:
            e = self.pick([x for x in el if '@' not in x and ':' not in x], op[1], 'ElementEdgeCouple')
            ds.vector_element_model(element_model=e, **w)
        elif k == 'grad':
            ds.vector_gradient(node_model=self.pick(scal, op[1], 'x'), calc_type=op[2], **w)
        elif k == 'inorm' and its:
            i = self.pick(its, op[1], None)
            if r in ds.get_region_list(device=d, interface=i):
                ds.interface_normal_model(interface=i, **w)
        elif k == 'cyl' and dim == 2:
            ds.set_parameter(device=d, name='raxis_variable', value='x')
            ds.set_parameter(device=d, name='raxis_zero', value=-1.0)
            ds.cylindrical_node_volume(**w)
            ds.cylindrical_edge_couple(**w)
            ds.cylindrical_surface_area(**w)
        elif k == 'cnode' and cs:
            ds.contact_node_model(device=d, contact=self.pick(cs, op[1], None), name=self.name('cn'), equation='%s*%r+x' % (self.pick(scal, op[2], 'x'), op[3]))
        elif k == 'cedge' and cs:
            ds.contact_edge_model(device=d, contact=self.pick(cs, op[1], None), name=self.name('ce'), equation='%s*%r+1' % (self.pick(em, op[2], 'EdgeLength'), op[3]))
        elif k == 'imod' and its:
            i = self.pick(its, op[1], None)
            r0, r1 = ds.get_region_list(device=d, interface=i)
            a, b = self.pick(self.own(r0, 0), op[2], 'x'), self.pick(self.own(r1, 0), op[2], 'x')
            if ':' not in a and ':' not in b:
                ds.interface_model(device=d, interface=i, name=self.name('im'), equation='%s@r0-%r*%s@r1' % (a, op[3], b))
        elif k == 'eq' and nm:
            sol = [x for x in nm if x[0] in 'su' and ':' not in x and x[1:].isdigit()]
            if not sol:
                return
            v = self.pick(sol, op[1], None)
            o = dict(name='eq_' + v, variable_name=v, variable_update=op[3])
            names = [('node_model', nm, 'x'), ('edge_model', em, 'EdgeLength'), ('time_node_model', nm, 'x'), ('element_model', el, '')]
            for (a, l, z), i in zip(names, op[2]):
                if i % 3 == 0 and (l or z):
                    o[a] = self.pick(l, i, z)
            if op[2][4] % 4 == 0 and 'edge_model' in o:
                o['edge_volume_model'] = self.pick(em, op[2][5], 'EdgeLength')
            if dim > 1 and op[2][6] % 4 == 0:
                o['volume_node0_model'], o['volume_node1_model'] = self.pick(el, op[2][6], 'ElementEdgeCouple'), self.pick(el, op[2][5], 'ElementEdgeCouple')
            if v in [ds.get_equation_command(name=q, **w)['variable_name'] for q in ds.get_equation_list(**w)]:
                return
            ds.equation(**dict(w, **o))
        elif k == 'ceq' and cs:
            c = self.pick(cs, op[1], None)
            eqs = [q for q in ds.get_equation_list(**w) if q not in ds.get_contact_equation_list(device=d, contact=c)]
            if not eqs:
                return
            o = {}
            for a, i in zip(['node_model', 'edge_model', 'element_model', 'node_current_model', 'edge_current_model', 'element_current_model', 'node_charge_model', 'edge_charge_model', 'element_charge_model', 'edge_volume_model'], op[2]):
                l, z = {'n': (nm, 'x'), 'e': (em, 'EdgeLength')}[a[0]] if a[:2] != 'el' else (el, '')
                if i % 2 == 0 and (l or z):
                    o[a] = self.pick(l, i, z)
            if dim > 1 and op[2][11] % 3 == 0:
                o['volume_node0_model'], o['volume_node1_model'] = self.pick(el, op[2][11], 'ElementEdgeCouple'), self.pick(el, op[2][12], 'ElementEdgeCouple')
            if op[2][12] % 4 == 0:
                o['circuit_node'] = 'V%d' % (op[2][12] % 3)
            ds.contact_equation(device=d, contact=c, name=self.pick(eqs, op[2][10], None), **o)
        elif k == 'ieq' and its:
            i = self.pick(its, op[1], None)
            r0, r1 = ds.get_region_list(device=d, interface=i)
            eq0, eq1 = ds.get_equation_list(device=d, region=r0), ds.get_equation_list(device=d, region=r1)
            ims = [x for x in ds.get_interface_model_list(device=d, interface=i) if x.startswith('im')]
            if not eq0 or not eq1 or not ims:
                return
            n0, n1 = self.pick(eq0, op[2], None), self.pick(eq1, op[2], None)
            n = 'ie_' + n0
            if n in ds.get_interface_equation_list(device=d, interface=i):
                return
            ds.interface_equation(device=d, interface=i, name=n, name0=n0, name1=n1, interface_model=self.pick(ims, op[2], None), type=op[3])
        elif k == 'mat':
            if op[1] % 2 and cs:
                ds.set_material(device=d, contact=self.pick(cs, op[1], None), material=op[2])
            else:
                ds.set_material(material=op[2], **w)
        else:
            return
        self.made += 1


def enrich(p, seed):
    """Equations of every kind with random subsets of their options."""
    R = random.Random(seed)
    d = p.d
    for r in sorted(ds.get_region_list(device=d)):
        w = dict(device=d, region=r)
        ds.node_solution(name='sr', **w)
        ds.set_node_values(name='sr', init_from='x', **w)
        M = {'node': ['sr'], 'edge': [], 'element': [], 'volume': []}
        for i in range(2):
            ds.node_model(name='nr%d' % i, equation='sr*%d+x' % (i + 2), **w)
            ds.edge_model(name='er%d' % i, equation='EdgeLength*%d' % (i + 2), **w)
            M['node'].append('nr%d' % i)
            M['edge'].append('er%d' % i)
            if p.dim > 1:
                ds.element_model(name='lr%d' % i, equation='ElementEdgeCouple*%d' % (i + 2), **w)
                M['element'].append('lr%d' % i)
        M['time'], M['volume'] = M['node'], M['element']

        def opts(names):
            o = {}
            for n in names:
                l = M[n.split('_')[0]]
                if l and R.random() < 0.6:
                    o[n] = R.choice(l)
            if ('volume_node0_model' in o) != ('volume_node1_model' in o):
                o['volume_node0_model'] = o['volume_node1_model'] = R.choice(M['volume'])
            return o
        o = opts(['node_model', 'edge_model', 'edge_volume_model', 'element_model', 'volume_node0_model', 'volume_node1_model', 'time_node_model'])
        ds.equation(name='eqr', variable_name='sr', variable_update=R.choice(['default', 'positive', 'log_damp']), **dict(w, **o))
        for c in ds.get_contact_list(device=d):
            if ds.get_region_list(device=d, contact=c) == (r,):
                o = opts(['node_model', 'edge_model', 'edge_volume_model', 'element_model', 'volume_node0_model', 'volume_node1_model'] + [a + b for a in ('node_', 'edge_', 'element_') for b in ('current_model', 'charge_model')])
                if R.random() < 0.3:
                    o['circuit_node'] = 'V%d' % R.randrange(3)
                ds.contact_equation(device=d, contact=c, name='eqr', **o)
    for i in ds.get_interface_list(device=d):
        ds.interface_model(device=d, interface=i, name='imr', equation='sr@r0-2*sr@r1')
        ds.interface_equation(device=d, interface=i, name='ier', name0='eqr', name1='eqr', interface_model='imr', type=R.choice(['continuous', 'fluxterm', 'hybrid']))
    p.made += 3


def val(f, **kw):
    try:
        return [dsx.bits(x) for x in f(**kw)]
    except ds.error as e:
        return 'error'


def snapshot(d, matrix=True):
    s = {'dim': ds.get_dimension(device=d), 'regions': sorted(ds.get_region_list(device=d)), 'contacts': sorted(ds.get_contact_list(device=d)), 'interfaces': sorted(ds.get_interface_list(device=d))}
    dim = s['dim']
    for r in s['regions']:
        w = dict(device=d, region=r)
        s['mat', r] = ds.get_material(**w)
        s['elements', r] = ds.get_element_node_list(**w)
        L = s['nml', r] = sorted(ds.get_node_model_list(**w))
        for n in L:
            s['node', r, n] = val(ds.get_node_model_values, name=n, **w)
        L = s['eml', r] = sorted(ds.get_edge_model_list(**w))
        for n in L:
            s['edge', r, n] = val(ds.get_edge_model_values, name=n, **w)
        if dim > 1:
            L = s['lml', r] = sorted(ds.get_element_model_list(**w))
            for n in L:
                s['element', r, n] = val(ds.get_element_model_values, name=n, **w)
        s['eql', r] = sorted(ds.get_equation_list(**w))
        for q in s['eql', r]:
            s['eq', r, q] = ds.get_equation_command(name=q, **w)
    for c in s['contacts']:
        w = dict(device=d, contact=c)
        s['cr', c] = ds.get_region_list(**w)
        s['cm', c] = ds.get_material(**w)
        s['celements', c] = sorted(map(tuple, ds.get_element_node_list(region=s['cr', c][0], **w)))
        s['ceql', c] = sorted(ds.get_contact_equation_list(**w))
        for q in s['ceql', c]:
            s['ceq', c, q] = ds.get_contact_equation_command(name=q, **w)
    for i in s['interfaces']:
        w = dict(device=d, interface=i)
        s['ir', i] = ds.get_region_list(**w)
        s['ielements', i] = [sorted(map(tuple, ds.get_element_node_list(region=r, **w))) for r in s['ir', i]]
        L = s['iml', i] = sorted(ds.get_interface_model_list(**w))
        for n in L:
            s['imodel', i, n] = val(ds.get_interface_model_values, name=n, **w)
        s['ieql', i] = sorted(ds.get_interface_equation_list(**w))
        for q in s['ieql', i]:
            s['ieq', i, q] = ds.get_interface_equation_command(name=q, **w)
    if matrix:
        try:
            m = ds.get_matrix_and_rhs(format='csr')
            key = {}  # equations are numbered in the order they were made, which a file does not keep
            for r in s['regions']:
                w = dict(device=d, region=r)
                for q in ds.get_equation_list(**w):
                    for i, row in enumerate(ds.get_equation_numbers(equation=q, **w)):
                        key[row] = '%s/%s/%d' % (r, q, i)
            key = {row: key.get(row, str(row)) for row in range(-1, len(m['static']['rhs']))}
            for a in ('static', 'dynamic'):
                M = m[a]
                ap = M['ap']
                s['matrix', a] = sorted((key[i], key[M['ai'][j]], dsx.bits(M['av'][j])) for i in range(len(ap) - 1) for j in range(ap[i], ap[i + 1]))
                s['rhs', a] = sorted((key[i], dsx.bits(x)) for i, x in enumerate(M['rhs']))
            P = m['permutation']
            s['permutation'] = sorted((key[i], key[x], P['copy'][i]) for i, x in enumerate(P['row']))
            s['matrix'] = 'compared'
        except ds.error as e:
            s['matrix'] = 'error'
    return s


def blocks(path):
    """The file as a multiset of blocks keyed by (enclosing block, kind, name)."""
    out, stack, cur = {}, [], []
    for l in open(path, encoding='latin1'):
        l = l.rstrip('\n')
        if l.startswith('begin_'):
            stack.append(l)
            out.setdefault(tuple(stack), [])
        elif l.startswith('end_'):
            stack.pop()
        elif l:
            out[tuple(stack)].append(l)
    for k, v in out.items():
        if v and v[0] == 'DATA' and len(set(v[1:])) == 1:
            out[k] = ['UNIFORM ' + v[1]]
    return out


def differ(a, b, what):
    for k in sorted(set(a) | set(b), key=str):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                i = [j for j in range(len(x)) if x[j] != y[j]][0]
                f = lambda v: struct.unpack('<d', v)[0] if isinstance(v, bytes) else v
                need(False, '%s %s: entry %d was %r, is %r' % (what, k, i, f(x[i]), f(y[i])))
            need(False, '%s %s: was %s, is %s' % (what, k, str(x)[:300], str(y)[:300]))


def run(case, ctx):
    m = case['m']
    d = m['dname']
    dsx.reset()
    params()
    dim = build(m)
    p = Prog(d, dim)
    for ri, op in case['prog']:
        try:
            p.do(ri, op)
        except ds.error as e:
            ctx.count('refused:' + op[0])
    if case['rich']:
        enrich(p, case['rich'])
    cyl = [(n, ds.get_parameter(device=d, name=n)) for n in ('raxis_variable', 'raxis_zero') if n in ds.get_parameter_list(device=d)]
    for n, v in cyl:  # parameters are not saved: use global ones
        ds.set_parameter(name=n, value=v)
    tmp = tempfile.mkdtemp()
    f0, f1, f2 = [os.path.join(tmp, x) for x in ('a', 'b', 'c')]
    try:
        if case['pre']:
            ds.write_devices(file=f0, type='devsim', **({'device': d} if case['one'] else {}))
        s0 = snapshot(d)
        if any(not math.isfinite(struct.unpack('<d', x)[0]) for v in s0.values() if isinstance(v, list) and v for x in (v if isinstance(v[0], bytes) else [t[-1] for t in v] if isinstance(v[0], tuple) and isinstance(v[0][-1], bytes) else [])):
            ctx.count('skipped: a value is not finite')
            return
        ds.write_devices(file=f1, type='devsim', device=d)
        if not case['pre']:
            f0 = f1
        if case['how'] == 'delete':
            ds.delete_device(device=d)
            for x in ds.get_mesh_list():
                ds.delete_mesh(mesh=x)
        else:
            dsx.reset()
            params()
            for n, v in cyl:
                ds.set_parameter(name=n, value=v)
        ds.load_devices(file=f0)
        s1 = snapshot(d)
        differ(s0, s1, 'device after reload:')
        ds.write_devices(file=f2, type='devsim')
        differ(blocks(f1), blocks(f2), 'file written after reload:')
        if case['how'] == 'two':
            dsx.reset()
            params()
            for n, v in cyl:
                ds.set_parameter(name=n, value=v)
            ds.load_devices(file=f2)
            differ(s0, snapshot(d), 'device after second reload:')
        ctx.count('dim%d' % dim)
        ctx.count('matrix compared' if s0.get('matrix') != 'error' else 'no matrix')
        ctx.nontrivial(p.made >= 3)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


SUITES = [Suite('reload', strat(), run, quick=3000, thorough=40000, hang=60)]
