"""C10: random devices with random models are written as VTK and Tecplot (with random include filters) and devsim_data; the files are decoded by an independent reader and compared with what the session reports."""
from hypothesis import strategies as st
import array, base64, os, re, shutil, struct, tempfile, xml.etree.ElementTree as ET, zlib
from harness import Suite, need
import c09, dsx, meshgen
from dsx import ds

PROPERTY = 'C10'
RULE = ('Devices and model programs come from the generator of C09 (magnitudes up to 1e60). Every .vtu is decoded from its compressed base64 blocks: points bit for bit, connectivity, offsets and cell types against get_element_node_list, node models bit for bit, '
        'edge models as the average over the edges of a node (scalar) or the direction weighted projection (vector), element models as the average over the element. Tecplot zones are parsed by declared counts and variable locations and compared to the 6 digits it prints. '
        'A filtered file has to contain the models of the unfiltered one which the filter accepts; models created with a display type appear exactly as it says. '
        'Other suites: array lengths around the compression block size, and paths that cannot be opened or written. Non-trivial: at least 3 data arrays compared.')
ASSUMPTIONS = ['Tecplot files carry 6 digits (their documented precision is not stated; that is what every file has)', 'model names contain no XML markup characters', 'averages are compared to 1e-12 of the largest value that enters them']


def clamp(x):
    if isinstance(x, float):
        return x if abs(x) < 1e60 else (1e60 if x > 0 else -1e60) * (abs(x) / 1.8e308)
    if isinstance(x, (list, tuple)):
        return type(x)(clamp(v) for v in x)
    return x


def b64blocks(text):
    """Decodes the VTK compressed binary layout: header (blocks, block size, last size, compressed sizes) and data."""
    raw = text.strip()
    n = struct.unpack('<I', base64.b64decode(raw[:8])[:4])[0]
    hb = 4 * (3 + n)
    hl = (hb + 2) // 3 * 4
    head = struct.unpack('<%dI' % (3 + n), base64.b64decode(raw[:hl])[:hb])
    data = base64.b64decode(raw[hl:], validate=True)
    out, pos = b'', 0
    for i in range(n):
        blk = zlib.decompress(data[pos:pos + head[3 + i]])
        want = head[2] if i == n - 1 and head[2] else head[1]
        need(len(blk) == want, 'VTK block %d has %d bytes, the header says %d' % (i, len(blk), want))
        out += blk
        pos += head[3 + i]
    need(pos == len(data), 'VTK data has %d trailing bytes' % (len(data) - pos))
    a = array.array('d')
    a.frombytes(out)
    return list(a)


def read_vtu(path):
    root = ET.parse(path).getroot()
    need(root.get('type') == 'UnstructuredGrid' and root.get('compressor') == 'vtkZLibDataCompressor' and root.get('byte_order') == 'LittleEndian', 'VTK header of %s' % path)
    p = root.find('UnstructuredGrid').findall('Piece')
    need(len(p) == 1, 'pieces: %d' % len(p))
    p = p[0]
    r = dict(np=int(p.get('NumberOfPoints')), nc=int(p.get('NumberOfCells')), points=b64blocks(p.find('Points').find('DataArray').text))
    c = {d.get('Name'): [int(v) for v in d.text.split()] for d in p.find('Cells')}
    r.update(c)
    for key, tag in (('point', 'PointData'), ('cell', 'CellData')):
        r[key] = {}
        e = p.find(tag)
        for d in (e if e is not None else []):
            need(d.get('type') == 'Float64', 'data type')
            need(d.get('Name') not in r[key], 'model %s is written twice' % d.get('Name'))
            r[key][d.get('Name')] = (int(d.get('NumberOfComponents', '1')), b64blocks(d.text))
    return r


def read_vtk(base):
    root = ET.parse(base + '.vtm').getroot()
    need(root.get('type') == 'vtkMultiBlockDataSet', 'vtm type')
    files = [d.get('file') for d in root.iter('DataSet')]
    groups = [d.get('group') for d in root.iter('DataSet')]
    need(groups == [str(i) for i in range(len(files))], 'vtm groups %s' % groups)
    v = open(base + '.visit').read().split('\n')
    need(v[0] == '!NBLOCKS %d' % len(files) and v[1:] == files + [''], 'visit index %s' % v)
    return [read_vtu(f) for f in files]


def read_tecplot(path, dim):
    text = open(path).read()
    lines = text.split('\n')
    need(lines[0].startswith('TITLE = "'), 'tecplot title')
    need(max(map(len, lines)) <= 32000, 'tecplot line of %d characters' % max(map(len, lines)))
    zi = text.index('\nZONE ')
    names = re.findall(r'"([^"]*)"', text[text.index('VARIABLES'):zi])
    zones = []
    for z in text[zi + 1:].split('\nZONE ')[0:]:
        z = z[5:] if z.startswith('ZONE ') else z
        head, body = z.split('\n', 1)
        m = re.match(r'T="([^"]*)" NODES=(\d+), ELEMENTS=(\d+), DATAPACKING=BLOCK, ZONETYPE=(\w+)(?:, VARLOCATION=\(\[([\d,]*)\]=CELLCENTERED\))?$', head)
        need(m is not None, 'zone header %r' % head)
        nn, ne = int(m.group(2)), int(m.group(3))
        cell = set(map(int, m.group(5).split(','))) if m.group(5) else set()
        tok = body.split()
        pos, val = 0, {}
        for i, n in enumerate(names):
            cnt = ne if i + 1 in cell else nn
            need((n, i + 1 in cell) not in val, 'variable %s appears twice' % n)
            val[n, i + 1 in cell] = [float(t) for t in tok[pos:pos + cnt]]
            pos += cnt
        k = {'FELINESEG': 2, 'FETRIANGLE': 3, 'FETETRAHEDRON': 4}[m.group(4)]
        need(k == dim + 1, 'zone type %s' % m.group(4))
        conn = [int(t) for t in tok[pos:]]
        need(len(conn) == k * ne, 'zone %s has %d numbers too many or few' % (m.group(1), len(conn) - k * ne))
        zones.append(dict(name=m.group(1), nn=nn, ne=ne, val=val, conn=[conn[i:i + k] for i in range(0, len(conn), k)]))
    return names, zones


class Reported:
    """What the session says about a region."""
    def __init__(self, d, r, dim):
        self.w = w = dict(device=d, region=r)
        self.dim = dim
        self.elem = [tuple(e) for e in ds.get_element_node_list(**w)]
        self.node = {n: list(ds.get_node_model_values(name=n, **w)) for n in ds.get_node_model_list(**w)}
        self.edge = {n: list(ds.get_edge_model_values(name=n, **w)) for n in ds.get_edge_model_list(**w)}
        self.el = {n: list(ds.get_element_model_values(name=n, **w)) for n in ds.get_element_model_list(**w)} if dim > 1 else {}
        a, b = self.edge['node_index@n0'], self.edge['node_index@n1']
        self.ends = [(int(i), int(j)) for i, j in zip(a, b)]
        self.nn = len(self.node['x'])

    def on_node(self, name):
        v, s, n, big = self.edge[name], [0.0] * self.nn, [0] * self.nn, [0.0] * self.nn
        for x, e in zip(v, self.ends):
            for k in e:
                s[k] += x
                n[k] += 1
                big[k] = max(big[k], abs(x))
        return [a / c if c else 0.0 for a, c in zip(s, n)], big

    def vec_on_node(self, name):
        v = self.edge[name]
        out, big = [[0.0] * 3 for _ in range(self.nn)], [0.0] * self.nn
        for c in range(self.dim):
            u = self.edge['unit' + 'xyz'[c]]
            s, w = [0.0] * self.nn, [0.0] * self.nn
            for x, q, e in zip(v, u, self.ends):
                for k in e:
                    s[k] += x * q * abs(q)
                    w[k] += abs(q)
                    big[k] = max(big[k], abs(x))
            for k in range(self.nn):
                out[k][c] = s[k] / w[k] if w[k] > 0 else 0.0
        return out, big

    def on_cell(self, name):
        v, k = self.el[name], {2: 3, 3: 6}[self.dim]
        return [sum(v[i:i + k]) / k for i in range(0, len(v), k)], [max(map(abs, v[i:i + k])) for i in range(0, len(v), k)]


def near(got, want, big, tol, what):
    need(len(got) == len(want), '%s: %d values, expected %d' % (what, len(got), len(want)))
    for i, (g, w, b) in enumerate(zip(got, want, big)):
        if not abs(g - w) <= tol * max(b, abs(w)) + 1e-320:
            need(False, '%s: value %d is %r, expected %r' % (what, i, g, w))


def check_vtk(base, d, reps, shown, accept, ctx):
    regs = sorted(reps)
    parts = read_vtk(base)
    need(len(parts) == len(regs), '%d pieces for %d regions' % (len(parts), len(regs)))
    out = {}
    for r, v in zip(regs, parts):
        R = reps[r]
        need(v['np'] == R.nn and v['nc'] == len(R.elem), 'region %s: %d points %d cells, expected %d %d' % (r, v['np'], v['nc'], R.nn, len(R.elem)))
        pts = [c for p in zip(R.node['x'], R.node['y'], R.node['z']) for c in p]
        need(dsx.same_bits(v['points'], pts), 'region %s: points: %s', r, dsx.worst(v['points'], pts))
        k = R.dim + 1
        need(v['connectivity'] == [n for e in R.elem for n in e], 'region %s: connectivity' % r)
        need(v['offsets'] == [k * (i + 1) for i in range(len(R.elem))] and v['types'] == [{1: 3, 2: 5, 3: 10}[R.dim]] * len(R.elem), 'region %s: offsets or cell types' % r)
        for n, (comp, val) in v['point'].items():
            ctx.arrays += 1
            need(accept(n), 'VTK region %s: model %s is written though the filter refuses it' % (r, n))
            if n in R.node:
                need(comp == 1 and dsx.same_bits(val, R.node[n]), 'VTK region %s node model %s: %s' % (r, n, dsx.worst(val, R.node[n])))
            elif comp == 1:
                near(val, *R.on_node(n), 1e-12, 'VTK region %s edge model %s' % (r, n))
            else:
                w, big = R.vec_on_node(n)
                need(comp == 3, 'components of %s' % n)
                for c in range(3):
                    near(val[c::3], [x[c] for x in w], big, 1e-12, 'VTK region %s vector edge model %s component %d' % (r, n, c))
        for n, (comp, val) in v['cell'].items():
            ctx.arrays += 1
            need(accept(n), 'VTK region %s: element model %s is written though the filter refuses it' % (r, n))
            near(val, *R.on_cell(n), 1e-12, 'VTK region %s element model %s' % (r, n))
        for n, t in shown[r].items():
            kind = n[0]
            where = v['cell'] if kind == 'l' else v['point']
            if t == 'nodisplay' or not accept(n):
                need(n not in where, 'VTK region %s: %s is written' % (r, n))
            else:
                need(n in where and where[n][0] == (3 if t == 'vector' else 1), 'VTK region %s: %s with display type %s is missing or has the wrong shape' % (r, n, t))
        out[r] = (set(v['point']), set(v['cell']))
    return out


def check_tecplot(path, d, reps, shown, accept, ctx):
    regs = sorted(reps)
    dim = reps[regs[0]].dim
    names, zones = read_tecplot(path, dim)
    need([z['name'] for z in zones] == regs, 'zones %s' % [z['name'] for z in zones])
    need(names[:dim] == list('xyz')[:dim], 'first variables %s' % names[:dim])
    for z in zones:
        R = reps[z['name']]
        need(z['nn'] == R.nn and z['ne'] == len(R.elem), 'zone %s counts' % z['name'])
        need([sorted(e) for e in z['conn']] == [sorted(n + 1 for n in e) for e in R.elem], 'zone %s connectivity' % z['name'])
        for (n, cell), val in z['val'].items():
            ctx.arrays += 1
            if n not in names[:dim]:
                base = re.sub(r'_[xyz]_onNode$', '', n)
                need(accept(n) or accept(base), 'Tecplot: %s is written though the filter refuses it' % n)
            what = 'Tecplot zone %s variable %s' % (z['name'], n)
            m = re.match(r'(.*)_([xyz])_onNode$', n)
            if cell:
                w, big = R.on_cell(n) if n in R.el else ([0.0] * len(R.elem), [0.0] * len(R.elem))
            elif n in R.node:
                w, big = R.node[n], R.node[n]
                big = [abs(x) for x in big]
            elif n in R.edge:
                w, big = R.on_node(n)
            elif m and m.group(1) in R.edge:
                w, big = R.vec_on_node(m.group(1))
                w = [x['xyz'.index(m.group(2))] for x in w]
            else:
                w, big = [0.0] * R.nn, [0.0] * R.nn
            big = [abs(a) + 1e-8 * b for a, b in zip(w, big)]
            near(val, w, big, 5.1e-6, what)
    vars_ = set(n for n in names[dim:])
    kinds = {}
    for r in regs:
        for n, t in shown[r].items():
            kinds.setdefault(n, set()).add(t)
    for n, t in kinds.items():
        if len(t) > 1:
            continue
        t = list(t)[0]
        if t == 'nodisplay' or not accept(n):
            need(n not in vars_ and n + '_x_onNode' not in vars_, 'Tecplot: %s is written' % n)
        elif t == 'vector':
            need(all('%s_%s_onNode' % (n, c) in vars_ for c in 'xyz'[:dim]), 'Tecplot: vector %s is missing' % n)
        else:
            need(n in vars_, 'Tecplot: %s is missing' % n)
    return vars_


def check_data(path, d, reps, ctx):
    """The devsim_data dump: node and edge values with full precision."""
    cur, reg, got, name = None, None, {}, None
    for l in open(path):
        l = l.rstrip('\n')
        if l.startswith('begin_region'):
            reg = re.match(r'begin_region "([^"]*)" "([^"]*)"$', l)
            need(reg is not None and reg.group(2) == ds.get_material(device=d, region=reg.group(1)), 'devsim_data region line %r' % l)
            reg = reg.group(1)
        elif l.startswith('end_region'):
            reg = None
        elif l.startswith('begin_') and reg:
            cur = l
            need((reg, cur) not in got, 'devsim_data: %s twice' % l)
            got[reg, cur] = []
        elif l.startswith('end_'):
            cur = None
        elif cur and l:
            got[reg, cur].append(l)
    for r, R in reps.items():
        for kind, g in (('node', R.node), ('edge', R.edge)):
            for n, v in g.items():
                x = got.pop((r, 'begin_%s_solution "%s"' % (kind, n)), None)
                need(x is not None and dsx.same_bits([float(t) for t in x], v), 'devsim_data region %s %s model %s: %s' % (r, kind, n, 'missing' if x is None else dsx.worst([float(t) for t in x], v)))
                ctx.arrays += 1
        key = {1: 'begin_edges', 2: 'begin_triangles', 3: 'begin_tetrahedra'}[R.dim]
        need([sorted(map(int, t.split())) for t in got.get((r, key), [])] == [sorted(e) for e in R.elem], 'devsim_data region %s elements' % r)
    need(not [k for k in got if 'solution' in k[1]], 'devsim_data: unknown models %s' % sorted(k for k in got if 'solution' in k[1])[:3])


@st.composite
def strat(draw):
    c = draw(c09.strat())
    c['filter'] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 5), st.integers(1, 3))))
    c['same'] = draw(st.booleans())
    c['early'] = draw(st.sampled_from([None, None, 'vtk', 'tecplot', 'devsim_data']))
    c['prog'] = clamp(c['prog'])
    return c


def run(case, ctx):
    m = case['m']
    d = m['dname']
    dsx.reset()
    c09.params()
    dim = c09.build(m)
    p = c09.Prog(d, dim)
    regs = sorted(ds.get_region_list(device=d))
    shown = {r: {} for r in regs}
    for ri, op in case['prog']:
        k0 = p.k
        if case['same'] and op[0] in ('nexp', 'eexp', 'elexp'):
            # the same names appear in several regions
            p.k = 100 + len([1 for r in shown if r < 'r%d' % ri])
            p.k = 100 + len(shown['r%d' % ri])
        if op[0] in ('eq', 'ceq', 'ieq'):
            continue
        before = p.k
        try:
            p.do(ri, op)
        except ds.error:
            pass
        else:
            if op[0] in ('nexp', 'eexp', 'elexp') and p.k > before:
                t = (op[5] if op[0] != 'elexp' else op[4]) or 'scalar'
                n = {'nexp': 'n', 'eexp': 'e', 'elexp': 'l'}[op[0]] + str(p.k)
                L = {'nexp': ds.get_node_model_list, 'eexp': ds.get_edge_model_list, 'elexp': ds.get_element_model_list}[op[0]](device=d, region='r%d' % ri)
                if n in L:
                    shown['r%d' % ri][n] = t
        p.k = max(p.k, k0) if not case['same'] else p.k
    for r in regs:
        ds.edge_from_node_model(device=d, region=r, node_model='node_index')
    tmp = tempfile.mkdtemp()
    try:
        run_files(case, ctx, d, dim, regs, shown, tmp)
    finally:
        shutil.rmtree(tmp)


def run_files(case, ctx, d, dim, regs, shown, tmp):
    f = case['filter']
    seen = set()

    def inc(name):
        seen.add(name)
        return (sum(map(ord, name)) + f[0]) % (f[1] + 1) != 0
    accept = (lambda n: True) if f is None else (lambda n: (sum(map(ord, n)) + f[0]) % (f[1] + 1) != 0)
    opt = {} if f is None else dict(include_test=inc)
    if case['one']:
        opt['device'] = d
    kinds = [('vtk', tmp + '/v', opt), ('tecplot', tmp + '/t', opt), ('devsim_data', tmp + '/d', {k: v for k, v in opt.items() if k == 'device'})]
    # models that cannot be evaluated make the command fail: only devices without them are compared
    try:
        for k, path, o in kinds:
            if k == case['early']:
                # written before anything has been evaluated
                ds.write_devices(file=path, type=k, **o)
        reps = {r: Reported(d, r, dim) for r in regs}
    except ds.error:
        ctx.count('skipped: a model cannot be evaluated')
        return
    if any(not abs(x) < 1e100 for R in reps.values() for g in (R.node, R.edge, R.el) for v in g.values() for x in v):
        ctx.count('skipped: a value is too large')
        return
    # a name used for two kinds of models is ambiguous in the files
    for r in regs:
        k = list(reps[r].node) + list(reps[r].edge)
        if len(set(k)) != len(k):
            ctx.count('skipped: ambiguous names')
            return
    allnodes = set(n for R in reps.values() for n in R.node)
    if allnodes & set(n for R in reps.values() for n in list(R.edge) + list(R.el)):
        ctx.count('skipped: ambiguous names')
        return
    ctx.arrays = 0
    for k, path, o in kinds:
        if k != case['early']:
            ds.write_devices(file=path, type=k, **o)
    check_data(tmp + '/d', d, reps, ctx)
    got = check_vtk(tmp + '/v', d, reps, shown, accept, ctx)
    tv = check_tecplot(tmp + '/t', d, reps, shown, accept, ctx)
    if f is not None:
        every = set(n for R in reps.values() for g in (R.node, R.edge, R.el) for n in g)
        need(seen - {''} <= every, 'the filter was called with unknown names %s' % sorted(seen - every))
        ds.write_devices(file=tmp + '/w', type='vtk')
        full = check_vtk(tmp + '/w', d, reps, {r: {} for r in regs}, lambda n: True, ctx)
        for r in regs:
            for a, b in zip(got[r], full[r]):
                need(a == set(n for n in b if accept(n)), 'VTK region %s: with the filter %s, without %s' % (r, sorted(a), sorted(b)))
        ds.write_devices(file=tmp + '/u', type='tecplot')
        names = set(read_tecplot(tmp + '/u', dim)[0][dim:])
        want = set(n for n in names if accept(re.sub(r'_[xyz]_onNode$', '', n)))
        need(tv == want or case['same'], 'Tecplot: with the filter %s, expected %s' % (sorted(tv), sorted(want)))
    ctx.count('dim%d' % dim)
    ctx.nontrivial(ctx.arrays >= 3)


def run_big(case, ctx):
    n = case['n']
    dsx.reset()
    c = []
    el = []
    for i in range(n):
        c += [i * 0.37, 0, 0]
    for i in range(n - 1):
        el += [1, 0, i, i + 1]
    ds.create_gmsh_mesh(mesh='m', coordinates=c, physical_names=['g'], elements=el)
    ds.add_gmsh_region(mesh='m', gmsh_name='g', region='r', material='Si')
    ds.finalize_mesh(mesh='m')
    ds.create_device(mesh='m', device='d')
    ds.node_solution(device='d', region='r', name='s')
    v = [((i * 2654435761 + case['s']) % 4294967296) / (1.0 if case['c'] else 1e300) for i in range(n)]
    ds.set_node_values(device='d', region='r', name='s', values=v)
    tmp = tempfile.mkdtemp()
    try:
        ds.write_devices(file=tmp + '/v', type='vtk', include_test=lambda x: x in ('s', 'x'))
        p = read_vtk(tmp + '/v')[0]
        need(p['np'] == n and p['nc'] == n - 1, 'counts')
        need(dsx.same_bits(p['points'], [float(x) for x in c]), 'points of %d nodes: %s' % (n, dsx.worst(p['points'], [float(x) for x in c])))
        need(set(p['point']) == {'s', 'x'}, 'models %s' % sorted(p['point']))
        need(dsx.same_bits(p['point']['s'][1], v), 'values of %d nodes: %s' % (n, dsx.worst(p['point']['s'][1], v)))
        ds.write_devices(file=tmp + '/t', type='tecplot', include_test=lambda x: x in ('s',))
        names, z = read_tecplot(tmp + '/t', 1)
        need(names == ['x', 's'], 'tecplot variables %s' % names)
        near(z[0]['val']['s', False], v, v, 5.1e-6, 'tecplot values')
        need(z[0]['conn'] == [[i + 1, i + 2] for i in range(n - 1)], 'tecplot connectivity')
        ctx.nontrivial(True)
    finally:
        shutil.rmtree(tmp)


BIG = st.builds(lambda b, o, s, c: dict(n=max(2, b + o), s=s, c=c), st.sampled_from([4096, 8192, 4096, 12288, 4096 * 4 // 3, 8192 * 2 // 3, 4096 // 3, 2, 100, 6000]), st.integers(-2, 2), st.integers(0, 2**31), st.booleans())


def run_bad(case, ctx):
    dsx.reset()
    meshgen.make_device(ds, meshgen.line_mesh([0.0, 1.0, 2.0], []), device='d')
    tmp = tempfile.mkdtemp()
    try:
        path = {'nodir': tmp + '/no/file', 'isdir': tmp, 'full': '/dev/full'}[case['where']]
        if case['type'] == 'vtk':
            if case['where'] == 'isdir':
                for e in case['ext']:
                    os.mkdir(tmp + '/v' + e)
                path = tmp + '/v'
            elif case['where'] == 'full':
                for e in case['ext']:
                    os.symlink('/dev/full', tmp + '/v' + e)
                path = tmp + '/v'
        if case['where'] == 'full' and not os.path.exists('/dev/full'):
            return
        opt = dict(device='d') if case['one'] else {}
        e = dsx.raises(ds.write_devices, file=path, type=case['type'], **opt)
        need(e is not None, 'write_devices to %s reports success' % path)
        e = dsx.raises(ds.write_devices, file=tmp + '/good', type=case['type'], **opt)
        need(e is None, 'write_devices to a good path after a bad one: %s' % e)
        need(dsx.raises(ds.write_devices, file=tmp + '/x', type=case['type'], device='nodevice') is not None, 'unknown device accepted')
        ctx.nontrivial(True)
    finally:
        shutil.rmtree(tmp)


BAD = st.fixed_dictionaries(dict(where=st.sampled_from(['nodir', 'isdir', 'full']), type=st.sampled_from(['devsim', 'devsim_data', 'vtk', 'tecplot']), one=st.booleans(), ext=st.sampled_from([['.vtm'], ['.visit'], ['_0.vtu'], ['.vtm', '.visit']])))
SUITES = [Suite('files', strat(), run, quick=2500, thorough=20000, hang=60), Suite('big', BIG, run_big, quick=40, thorough=300, hang=60), Suite('bad', BAD, run_bad, quick=60, thorough=200)]
