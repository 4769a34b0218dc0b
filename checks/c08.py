"""C08: random Gmsh meshes written as a file, passed as lists and read by the python reader; the three devices are compared with the mesh they were made from."""
from hypothesis import strategies as st
import math, os, random, tempfile
from harness import Suite, need
import dsx, meshgen
from dsx import ds

PROPERTY = 'C08'
RULE = ('A case is a random 1D, 2D or 3D mesh (up to four regions, contacts, interfaces) with its elements partitioned into several physical groups per region, contact and interface, random node ids with gaps, random '
        'order of nodes, elements, vertices, groups and commands, elements listed twice, nodes nobody uses, groups nobody uses, physical numbers shared by groups of different dimension, unnamed groups, 1-4 tags, quoted or bare names, number formats, '
        'blank lines, CRLF and section order. Devices made from the file, from the lists and through python_packages.pythonmesh must each have exactly the regions, node positions (bit for bit), edges, elements, contact nodes and '
        'elements, interface node pairs and elements of that mesh. Non-trivial: at least two regions, or groups split, or ids with gaps.')
ASSUMPTIONS = ['node positions are distinct', 'every physical group holds elements of one dimension', 'contacts and interfaces are boundary elements of their regions']


@st.composite
def strat(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    nx = draw(st.integers(1, 5 if dim < 3 else 3))
    n = [nx, draw(st.integers(1, 4 if dim < 3 else 2)), draw(st.integers(1, 2))][:dim]
    split = sorted(draw(st.sets(st.integers(1, nx - 1), max_size=3))) if nx > 1 else []
    return {'dim': dim, 'n': n, 'split': split, 'seed': draw(st.integers(0, 10**9)), 'scale': draw(st.sampled_from([1.0, 1e-4, 1e-7, 3.7e3, 1e-12, 1e10])), 'jitter': draw(st.sampled_from([0.0, 0.2])),
            'shift': draw(st.sampled_from([0.0, -1.0, 0.1, -123.456])), 'parts': draw(st.integers(1, 3)), 'gaps': draw(st.sampled_from([1, 2, 50])), 'dup': draw(st.booleans()), 'extra': draw(st.integers(0, 3)),
            'style': draw(st.integers(0, 10**6)), 'plain': draw(st.booleans()), 'unnamed': draw(st.booleans()), 'share': draw(st.booleans()), 'nocontact': draw(st.integers(0, 5)) == 0, 'sub': draw(st.sampled_from([0, 0, 1, 2, 3]))}


FMT = [repr, lambda v: '%.17g' % v, lambda v: '%.16e' % v, lambda v: '%.20E' % v, lambda v: '%.25f' % v]


def number(rng, v, plain):
    """a spelling of v that reads back as v"""
    if plain:
        return repr(v)
    for _ in range(4):
        f = rng.choice(FMT)
        s = f(v)
        if rng.random() < 0.3:
            if v == int(v) and abs(v) < 2**31 and not (v == 0 and math.copysign(1, v) < 0):
                s = rng.choice([str(int(v)), str(int(v)) + '.'])
            elif 'e' not in s.lower() and s.startswith('0.'):
                s = s[1:]
            elif 'e' not in s.lower() and v > 0 and '.' in s:
                s = '+' + s
        if float(s) == v and math.copysign(1, float(s)) == math.copysign(1, v):
            return s
    return repr(v)


def build(case):
    rng = random.Random(case['seed'])
    m = meshgen.grid_mesh(case['dim'], case['n'], case['seed'], jitter=case['jitter'], split=case['split'], scale=(case['scale'],) * 3)
    coords = [[v + case['shift'] * case['scale'] if d < case['dim'] else v for d, v in enumerate(c)] for c in m['coords']]
    coords = [[-0.0 if v == 0 and rng.random() < 0.2 else v for v in c] for c in coords]
    # nodes nobody uses
    for _ in range(case['extra']):
        coords.insert(len(coords), [rng.uniform(-9, 9) * case['scale'] if d < case['dim'] else 0.0 for d in range(3)])
    C = {}
    for i, (r, f) in m['contacts'].items():
        if not case['nocontact'] and f:
            C[i] = (r, f)
    # contacts and interfaces that are part of a side, or any set of facets of a region
    some = lambda l: rng.sample(l, rng.randint(1, len(l)))
    if case['sub'] & 1:
        C = {i: (r, some(list(f))) for i, (r, f) in C.items()}
        m = dict(m, interfaces=[(a, b, some(list(f))) for a, b, f in m['interfaces']])
    if case['sub'] & 2 and case['dim'] > 1 and not case['nocontact']:
        r = rng.randrange(len(m['regions']))
        F = sorted({tuple(sorted(t[:j] + t[j + 1:])) for t in map(tuple, m['regions'][r]) for j in range(len(t))})
        C['cs'] = (r, [list(t) for t in some(F)])
    groups = []                   # name, elements
    owner = {}

    def parts(kind, els):
        k = min(case['parts'], len(els))
        els = list(els)
        rng.shuffle(els)
        cut = sorted(rng.sample(range(1, len(els)), k - 1)) if k > 1 else []
        out = []
        for a, b in zip([0] + cut, cut + [len(els)]):
            nm = rng.choice(['g', 'Phys_', 'Ω', 'a:b@']) + kind + '_' + str(len(groups))
            groups.append([nm, els[a:b]])
            out.append(nm)
        owner[kind] = out
    for i, r in enumerate(m['regions']):
        parts('r%d' % i, r)
    for c, (r, f) in C.items():
        parts(c, f)
    I = {}
    for i, (a, b, f) in enumerate(m['interfaces']):
        I['i%d' % i] = (a, b, f) if rng.random() < 0.5 else (b, a, f)
        parts('i%d' % i, f)
    if case['extra'] == 3:         # a group no region uses
        groups.append(['spare', [rng.choice(m['regions'])[0]]])
    rng.shuffle(groups)
    return m, coords, C, I, groups, owner, rng


def commands(case, m, C, I, owner, gname, mesh, rng):
    L = []
    for i, _ in enumerate(m['regions']):
        for g in owner['r%d' % i]:
            L.append((ds.add_gmsh_region, dict(mesh=mesh, gmsh_name=gname[g], region='r%d' % i, material='M%d' % i)))
    for c, (r, _) in C.items():
        for g in owner[c]:
            L.append((ds.add_gmsh_contact, dict(mesh=mesh, gmsh_name=gname[g], region='r%d' % r, name=c, material='metal' + c)))
    for i, (a, b, _) in I.items():
        for g in owner[i]:
            L.append((ds.add_gmsh_interface, dict(mesh=mesh, gmsh_name=gname[g], region0='r%d' % a, region1='r%d' % b, name=i)))
    rng.shuffle(L)
    for f, kw in L:
        f(**kw)
    ds.finalize_mesh(mesh=mesh)


def key(p):
    return tuple(float(v).hex() for v in p)


def verify(dev, what, case, m, coords, C, I):
    dim = case['dim']
    need(ds.get_dimension(device=dev) == dim, '%s: dimension %s', what, ds.get_dimension(device=dev))
    need(sorted(ds.get_region_list(device=dev)) == ['r%d' % i for i in range(len(m['regions']))], '%s: regions %s', what, ds.get_region_list(device=dev))
    need(sorted(ds.get_contact_list(device=dev)) == sorted(C), '%s: contacts %s', what, ds.get_contact_list(device=dev))
    need(sorted(ds.get_interface_list(device=dev)) == sorted(I), '%s: interfaces %s', what, ds.get_interface_list(device=dev))
    pos, facekeys = {}, {}
    for i, els in enumerate(m['regions']):
        r = 'r%d' % i
        a = dict(device=dev, region=r)
        need(ds.get_material(**a) == 'M%d' % i, '%s: material of %s', what, r)
        p = [key(q) for q in zip(*[ds.get_node_model_values(**a, name=c) for c in 'xyz'])]
        pos[r] = p
        want = {key(coords[v]) for t in els for v in t}
        need(len(p) == len(set(p)), '%s: %s has a node twice', what, r)
        need(set(p) == want, '%s: nodes of %s: %d instead of %d, e.g. %s', what, r, len(p), len(want), sorted(set(p) ^ want)[:2])
        E = [frozenset(p[v] for v in t) for t in ds.get_element_node_list(**a)]
        W = {frozenset(key(coords[v]) for v in t) for t in els}
        need(len(E) == len(set(E)) and set(E) == W, '%s: elements of %s: %d, expected %d, %d differ', what, r, len(E), len(W), len(set(E) ^ W))
        E2 = [frozenset(p[v] for v in t) for t in ds.get_element_node_list(**a, reorder=True)]
        need(sorted(map(sorted, E2)) == sorted(map(sorted, E)), '%s: reordered elements of %s differ', what, r)
        ds.edge_from_node_model(**a, node_model='node_index')
        e = [frozenset(p[int(v)] for v in q) for q in zip(ds.get_edge_model_values(**a, name='node_index@n0'), ds.get_edge_model_values(**a, name='node_index@n1'))]
        we = {frozenset((q[j], q[k])) for q in ([key(coords[v]) for v in t] for t in els) for j in range(len(q)) for k in range(j)}
        need(len(e) == len(set(e)) and set(e) == we, '%s: edges of %s: %d, expected %d', what, r, len(e), len(we))
        at = {q for q, v in zip(p, ds.get_node_model_values(**a, name='AtContactNode')) if v}
        wc = {key(coords[v]) for c, (rr, f) in C.items() if rr == i for t in f for v in t}
        need(at == wc, '%s: contact nodes of %s: %d expected %d', what, r, len(at), len(wc))
    for c, (ri, f) in C.items():
        need(list(ds.get_region_list(device=dev, contact=c)) == ['r%d' % ri], '%s: region of %s', what, c)
        need(ds.get_material(device=dev, contact=c) == 'metal' + c, '%s: material of %s', what, c)
        p = pos['r%d' % ri]
        E = [frozenset(p[v] for v in t) for t in ds.get_element_node_list(device=dev, region='r%d' % ri, contact=c)]
        W = {frozenset(key(coords[v]) for v in t) for t in f}
        need(len(E) == len(set(E)) and set(E) == W, '%s: elements of contact %s: %d expected %d', what, c, len(E), len(W))
    for i, (ra, rb, f) in I.items():
        need(list(ds.get_region_list(device=dev, interface=i)) == ['r%d' % ra, 'r%d' % rb], '%s: regions of %s', what, i)
        P = []
        for j in (0, 1):
            v = []
            for co in 'xyz':
                ds.interface_model(device=dev, interface=i, name='q' + co, equation='%s@r%d' % (co, j))
                v.append(ds.get_interface_model_values(device=dev, interface=i, name='q' + co))
            P.append([key(q) for q in zip(*v)])
        # -0.0 and 0.0 are one position; an expression may not keep the sign of zero
        z = lambda q: tuple(abs(float.fromhex(v)) if float.fromhex(v) == 0 else float.fromhex(v) for v in q)
        P = [[z(q) for q in s] for s in P]
        W = {z(key(coords[v])) for t in f for v in t}
        need(P[0] == P[1], '%s: interface %s pairs different positions', what, i)
        need(len(P[0]) == len(set(P[0])) and set(P[0]) == W, '%s: interface %s has %d node pairs, expected %d', what, i, len(P[0]), len(W))
        W = {frozenset(key(coords[v]) for v in t) for t in f}
        for r in (ra, rb):
            p = pos['r%d' % r]
            E = [frozenset(p[v] for v in t) for t in ds.get_element_node_list(device=dev, region='r%d' % r, interface=i)]
            need(len(E) == len(set(E)) and set(E) == W, '%s: elements of interface %s on r%d: %d expected %d', what, i, r, len(E), len(W))


def element_list(case, groups, rng):
    L = []
    for k, (nm, els) in enumerate(groups):
        for t in els:
            for _ in range(2 if case['dup'] and rng.random() < 0.3 else 1):
                t = list(t)
                rng.shuffle(t)
                L.append((k, t))
    rng.shuffle(L)
    return L


def file_text(case, groups, coords, rng, python):
    """(text, {group: name to use})"""
    plain = python or case['plain']
    ids, last = [], 0
    for _ in coords:
        last += rng.randint(1, case['gaps'])
        ids.append(last)
    rng.shuffle(ids)
    dims = [len(els[0]) - 1 for _, els in groups]
    num, used = {}, set()
    for k, d in enumerate(dims):
        while True:
            v = rng.randint(1, 4 * len(groups))
            if case['share'] and (d, v) not in used or all((dd, v) not in used for dd in range(4)):
                break
        used.add((d, v))
        num[k] = v
    name = {}
    for k, (g, _) in enumerate(groups):
        name[g] = g
        if not python and case['unnamed'] and not case['share'] and rng.random() < 0.4:
            name[g] = str(num[k])
    eol = '\r\n' if not python and case['style'] % 3 == 0 else '\n'
    sp = lambda: ' ' if plain else rng.choice([' ', ' ', '  ', '\t'])

    def lines_(L, head):
        o = [head, str(len(L))]
        for l in L:
            o.append(sp().join(l))
        o.append(head.replace('$', '$End'))
        return o
    named = [[str(dims[k]), str(num[k]), g if not python and case['style'] % 2 else '"%s"' % g] for k, (g, _) in enumerate(groups) if name[g] == g]
    rng.shuffle(named)
    nodes = [[str(ids[i])] + [number(rng, v, plain) for v in c] for i, c in enumerate(coords)]
    rng.shuffle(nodes)
    els = []
    order = element_list(case, groups, rng)
    for j, (k, t) in enumerate(order):
        tags = [num[k]] + [rng.randint(0, 99) for _ in range(rng.randint(0, 3))]
        if python:
            tags = tags[:2] + [1] * (2 - len(tags[:2]))
        els.append([str(j + 1 if plain else rng.randint(1, 10**6)), str({0: 15, 1: 1, 2: 2, 3: 4}[dims[k]]), str(len(tags))] + [str(v) for v in tags] + [str(ids[v]) for v in t])
    secs = [lines_(nodes, '$Nodes'), lines_(els, '$Elements')]
    if named:
        secs.append(lines_(named, '$PhysicalNames'))
    if plain:
        secs = [secs[-1]] + secs[:2] if named else secs
    else:
        rng.shuffle(secs)
    out = ['$MeshFormat', rng.choice(['2.2 0 8', '2.1 0 8']), '$EndMeshFormat']
    for s in secs:
        out += s
        if not plain and rng.random() < 0.4:
            out.append('')
    return eol.join(out) + eol, name


def run(case, ctx):
    dsx.reset()
    m, coords, C, I, groups, owner, rng = build(case)
    same = {g: g for g, _ in groups}
    # from lists
    L = element_list(case, groups, rng)
    perm = list(range(len(coords)))
    rng.shuffle(perm)                      # perm[new] = old
    new = {o: k for k, o in enumerate(perm)}
    el = []
    for k, t in L:
        el += [len(t) - 1, k] + [new[v] for v in t]
    ds.create_gmsh_mesh(mesh='ml', coordinates=[v for o in perm for v in coords[o]], physical_names=[g for g, _ in groups], elements=el)
    commands(case, m, C, I, owner, same, 'ml', rng)
    for d in ('l', 'l2'):
        ds.create_device(mesh='ml', device=d)
        verify(d, 'lists', case, m, coords, C, I)
    W = tempfile.mkdtemp(prefix='c08')
    try:
        text, name = file_text(case, groups, coords, rng, False)
        with open(W + '/a.msh', 'w', newline='') as f:
            f.write(text)
        ds.create_gmsh_mesh(mesh='mf', file=W + '/a.msh')
        commands(case, m, C, I, owner, name, 'mf', rng)
        ds.create_device(mesh='mf', device='f')
        verify('f', 'file', case, m, coords, C, I)
        from devsim.python_packages import pythonmesh
        import contextlib, io
        text, name = file_text(case, groups, coords, rng, True)
        with open(W + '/p.msh', 'w', newline='') as f:
            f.write(text)
        with contextlib.redirect_stdout(io.StringIO()):
            data = pythonmesh.read_gmsh_file(W + '/p.msh')
        ds.create_gmsh_mesh(mesh='mp', **data)
        commands(case, m, C, I, owner, name, 'mp', rng)
        ds.create_device(mesh='mp', device='p')
        verify('p', 'python reader', case, m, coords, C, I)
        verify('l', 'lists, after the others', case, m, coords, C, I)
    finally:
        for f in os.listdir(W):
            os.unlink(W + '/' + f)
        os.rmdir(W)
    ctx.nontrivial(len(m['regions']) > 1 or case['parts'] > 1 or case['gaps'] > 1)
    ctx.count('%dD' % case['dim'])


SUITES = [Suite('import', strat, run, quick=6000, thorough=150000)]
