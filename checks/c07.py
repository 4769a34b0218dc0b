"""C07: random 1D/2D structured mesh descriptions (valid and inconsistent) against a reference description of the device they must give."""
from hypothesis import strategies as st
import math
from harness import Suite, need
import dsx
from dsx import ds

PROPERTY = 'C07'
RULE = ('A valid case is a random set of mesh lines (positions in any order, spacings of any ratio, length units from 1e-7 to 1e3), regions (1D: a chain with an interface at every joint; 2D: overlapping boxes on the lines, '
        'several boxes per region, later regions taking precedence, cells left empty), contacts and interfaces given by boxes. The device is compared with the reference: every line position is a node coordinate bit for bit, '
        'positions strictly increase, the spacing at a line is the requested one and never exceeds the larger of the two requested, all of a region (nodes, edges, triangles, area), contact nodes and edges, interface pairs. '
        'An inconsistent case breaks one rule of a valid description and has to raise an error at the latest when the device is created, leaving no device behind; where the description can be completed afterwards, '
        'the completed mesh has to be the reference one. Non-trivial: more than one region, or an inconsistent description.')
ASSUMPTIONS = ['2D region boxes have their sides on mesh lines', 'a node belonging to several contacts or interfaces goes to the first one listed, contacts before interfaces (contact nodes must be shared by two regions, as documented)',
               '2D: no grid cell is thinner than 4e-10 (the documented default bloat of a box, and the tolerance of the mesher, is 1e-10)']

unit = st.sampled_from([1.0, 1e-4, 1e-5, 1e-7, 1000.0])
spc = st.sampled_from([0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.34, 0.5, 0.7, 1.0, 1.5, 4.0])


@st.composite
def lines(draw, lo, hi, maxn):
    u = draw(unit)
    n = draw(st.integers(2, maxn))
    gaps = [draw(st.sampled_from([1.0, 0.5, 0.3, 2.0, 1.7])) for _ in range(n - 1)]
    x = draw(st.sampled_from([0.0, 0.0, -1.0, 3.3]))
    pos = [x * u]
    for g in gaps:
        x += g
        pos.append(x * u)
    fine = draw(st.booleans())
    L = []
    for i, p in enumerate(pos):
        near = min([b - a for a, b in zip(pos, pos[1:])][max(0, i - 1):i + 1])
        ps = draw(spc) * (near if fine else u)
        ns = draw(st.one_of(st.none(), spc))
        L.append([p, ps, None if ns is None else ns * (near if fine else u)])
    return L


@st.composite
def strat1(draw):
    L = draw(lines(0, 0, 6))
    n = len(L)
    cuts = sorted(draw(st.sets(st.integers(1, n - 2), max_size=3))) if n > 2 else []
    return {'lines': L, 'cuts': cuts, 'order': draw(st.permutations(list(range(n)))), 'flip': draw(st.lists(st.booleans(), min_size=n, max_size=n)), 'tagall': draw(st.booleans()),
            'rord': draw(st.permutations(list(range(len(cuts) + 1)))), 'cflip': draw(st.booleans())}


def positions(got, L, what):
    """the strictly increasing positions got honour the lines L"""
    L = sorted(L, key=lambda l: l[0])
    need(all(a < b for a, b in zip(got, got[1:])), '%s positions do not strictly increase: %s', what, got)
    need(got[0] == L[0][0] and got[-1] == L[-1][0], '%s range %r..%r, requested %r..%r', what, got[0], got[-1], L[0][0], L[-1][0])
    s = set(got)
    for p, _, _ in L:
        need(p in s, '%s: requested line %r is not in the mesh', what, p)
    for (a, ps, _), (b, ps1, ns) in zip(L, L[1:]):
        ns = ps1 if ns is None else ns
        seg = [x for x in got if a <= x <= b]
        d = [y - x for x, y in zip(seg, seg[1:])]
        tol = 1e-9 * max(ps, ns) + 1.1e-10 + 8e-16 * len(seg) * max(abs(a), abs(b), b - a)
        if abs(ps - ns) <= 1e-10 * ns * (1 - 1e-3):
            k = math.ceil((b - a) / ps - 1e-6)
            need(abs(len(d) - max(k, 1)) <= (1 if abs((b - a) / ps - round((b - a) / ps)) < 1e-6 + 2e-10 / ps else 0), '%s: %d intervals of %g between %g and %g', what, len(d), ps, a, b)
            need(all(abs(x - ps) <= tol for x in d[:-1]) and d[-1] <= ps + tol, '%s: spacings %s, requested %g between %g and %g', what, d, ps, a, b)
        elif a + ps > b - ns:
            need(len(d) == 1, '%s: no room for spacings %g and %g between %g and %g, got %s', what, ps, ns, a, b, d)
        else:
            need(abs(d[0] - ps) <= tol or abs(b - a - ps - ns) <= 2 * tol, '%s: first spacing %g, requested %g between %g and %g', what, d[0], ps, a, b)
            need(d[-1] <= ns + tol, '%s: last spacing %g, requested %g between %g and %g', what, d[-1], ns, a, b)
            need(max(d) <= max(ps, ns) + tol, '%s: spacing %g exceeds the requested %g and %g', what, max(d), ps, ns)
            # geometric progression from ps towards ns (the tail is cut at the second line)
            r = (b - a - ps) / (b - a - ns)
            for i, x in enumerate(d[:-2]):
                need(abs(x - ps * r ** i) <= tol * 10, '%s: spacing %d is %g, geometric progression from %g to %g gives %g', what, i, x, ps, ns, ps * r ** i)


def line_kw(l):
    return dict(pos=l[0], ps=l[1], **({} if l[2] is None else {'ns': l[2]}))


def describe1(case, skip=()):
    """list of (command, arguments) of a valid 1D description"""
    L, n = case['lines'], len(case['lines'])
    tagged = {0, n - 1} | set(case['cuts']) | (set(range(n)) if case['tagall'] else set())
    D = [('line', ds.add_1d_mesh_line, dict(mesh='m', **line_kw(L[i]), **({'tag': 't%d' % i} if i in tagged else {}))) for i in case['order']]
    b = [0] + case['cuts'] + [n - 1]
    for k in case['rord']:
        t = [b[k], b[k + 1]]
        if case['flip'][k]:
            t.reverse()
        D.append(('region', ds.add_1d_region, dict(mesh='m', material='M%d' % k, region='r%d' % k, tag1='t%d' % t[0], tag2='t%d' % t[1])))
    for k, c in enumerate(case['cuts']):
        D.append(('interface', ds.add_1d_interface, dict(mesh='m', name='i%d' % k, tag='t%d' % c)))
    cs = [('c0', 0), ('c1', n - 1)]
    for nm, i in (cs[::-1] if case['cflip'] else cs):
        D.append(('contact', ds.add_1d_contact, dict(mesh='m', name=nm, tag='t%d' % i, material='metal')))
    return D


def check1(case, device='d'):
    L = sorted(case['lines'], key=lambda l: l[0])
    b = [0] + case['cuts'] + [len(L) - 1]
    nr = len(b) - 1
    need(sorted(ds.get_region_list(device=device)) == sorted('r%d' % k for k in range(nr)), 'regions %s', ds.get_region_list(device=device))
    need(ds.get_dimension(device=device) == 1, 'dimension')
    need(sorted(ds.get_contact_list(device=device)) == ['c0', 'c1'], 'contacts %s', ds.get_contact_list(device=device))
    need(sorted(ds.get_interface_list(device=device)) == ['i%d' % k for k in range(nr - 1)], 'interfaces %s', ds.get_interface_list(device=device))
    allx = []
    for k in range(nr):
        a = dict(device=device, region='r%d' % k)
        x = list(ds.get_node_model_values(**a, name='x'))
        need(ds.get_material(**a) == 'M%d' % k, 'material of r%d is %s', k, ds.get_material(**a))
        need(x == sorted(x), 'r%d nodes are not in order', k)
        need(x[0] == L[b[k]][0] and x[-1] == L[b[k + 1]][0], 'r%d covers %r..%r, requested %r..%r', k, x[0], x[-1], L[b[k]][0], L[b[k + 1]][0])
        need(all(v == 0 for c in 'yz' for v in ds.get_node_model_values(**a, name=c)), 'y or z coordinate not 0')
        ds.edge_from_node_model(**a, node_model='node_index')
        e = sorted(zip(ds.get_edge_model_values(**a, name='node_index@n0'), ds.get_edge_model_values(**a, name='node_index@n1')))
        need(e == [(i, i + 1) for i in range(len(x) - 1)], 'edges of r%d: %s', k, e)
        at = [sorted(i for i, v in enumerate(ds.get_node_model_values(**a, name='AtContactNode')) if v)]
        want = ([0] if k == 0 else []) + ([len(x) - 1] if k == nr - 1 else [])
        need(at[0] == want, 'contact nodes of r%d: %s expected %s', k, at[0], want)
        if k:
            need(x[0] == allx[-1], 'r%d starts at %r, r%d ends at %r', k, x[0], k - 1, allx[-1])
            nm = 'i%d' % (k - 1)
            for j in (0, 1):
                ds.edge_from_node_model(device=device, region='r%d' % (k - 1), node_model='x')
                ds.interface_model(device=device, interface=nm, name='px%d' % j, equation='x@r%d' % j)
                ds.interface_model(device=device, interface=nm, name='pi%d' % j, equation='node_index@r%d' % j)
                v = list(ds.get_interface_model_values(device=device, interface=nm, name='px%d' % j))
                need(v == [x[0]], 'interface %s at %s, requested %r', nm, v, x[0])
            v = [list(ds.get_interface_model_values(device=device, interface=nm, name='pi%d' % j)) for j in (0, 1)]
            need(sorted(v) == sorted([[len(prev) - 1], [0]]), 'interface %s joins nodes %s', nm, v)
            allx += x[1:]
        else:
            allx = x
        prev = x
    positions(allx, L, 'mesh')


def run1(case, ctx):
    dsx.reset()
    ds.create_1d_mesh(mesh='m')
    for _, f, kw in describe1(case):
        f(**kw)
    ds.finalize_mesh(mesh='m')
    for d in ('d', 'e'):          # a mesh gives any number of equal devices
        ds.create_device(mesh='m', device=d)
        check1(case, d)
    ctx.nontrivial(len(case['cuts']) > 0)


BAD1 = ['few lines', 'no lines', 'dup line', 'dup tag', 'no contact', 'one contact', 'same contact tag', 'inner contact', 'gap', 'overlap', 'no interface', 'end interface', 'free interface', 'tag of region',
        'tag of contact', 'tag of interface', 'no region', 'equal tags', 'dup interface', 'dup interface tag', 'dup region name', 'dup contact name', 'nan pos', 'inf pos', 'tiny spacing', 'nan spacing']


@st.composite
def strat1bad(draw):
    c = draw(strat1())
    return dict(c, bad=draw(st.sampled_from(BAD1)), k=draw(st.integers(0, 10)), twice=draw(st.booleans()))


def run1bad(case, ctx):
    dsx.reset()
    D = describe1(case)
    n, bad, k = len(case['lines']), case['bad'], case['k']
    kinds = lambda s: [i for i, d in enumerate(D) if d[0] == s]
    pick = lambda s: kinds(s)[k % len(kinds(s))]
    later = []            # what completes the description
    if bad == 'few lines':
        keep = pick('line')
        D = [d for i, d in enumerate(D) if d[0] != 'line' or i == keep]
    elif bad == 'no lines':
        D = [d for d in D if d[0] != 'line']
    elif bad == 'dup line':
        D.append(('line', ds.add_1d_mesh_line, dict(mesh='m', pos=case['lines'][k % n][0], ps=1.0)))
    elif bad == 'dup tag':
        D.append(('line', ds.add_1d_mesh_line, dict(mesh='m', pos=0.5 * (case['lines'][0][0] + case['lines'][1][0]), ps=case['lines'][0][1], tag='t%d' % (n - 1))))
    elif bad == 'no contact':
        later = [d for d in D if d[0] == 'contact']
        D = [d for d in D if d[0] != 'contact']
    elif bad == 'one contact':
        later = [D.pop(pick('contact'))]
    elif bad == 'same contact tag':
        t = [i for i in kinds('contact')]
        D[t[0]] = ('contact', D[t[0]][1], dict(D[t[0]][2], tag=D[t[1]][2]['tag']))
    elif bad == 'inner contact':
        if not case['cuts']:
            return
        i = pick('contact')
        D[i] = ('contact', D[i][1], dict(D[i][2], tag='t%d' % case['cuts'][k % len(case['cuts'])]))
    elif bad == 'gap':
        if not case['cuts']:
            return
        i = pick('region')
        later = [D.pop(i)]
    elif bad == 'overlap':
        if not case['cuts']:
            return
        D.append(('region', ds.add_1d_region, dict(mesh='m', material='M', region='rx', tag1='t0', tag2='t%d' % (n - 1))))
    elif bad == 'no interface':
        if not case['cuts']:
            return
        later = [D.pop(pick('interface'))]
    elif bad == 'end interface':
        D.append(('interface', ds.add_1d_interface, dict(mesh='m', name='ix', tag='t%d' % (0 if k % 2 else n - 1))))
    elif bad == 'free interface':
        free = [i for i in range(1, n - 1) if i not in case['cuts']]
        if not free or not case['tagall']:
            return
        D.append(('interface', ds.add_1d_interface, dict(mesh='m', name='ix', tag='t%d' % free[k % len(free)])))
    elif bad == 'tag of region':
        i = pick('region')
        D[i] = ('region', D[i][1], dict(D[i][2], **{'tag%d' % (1 + k % 2): 'nosuch'}))
    elif bad == 'tag of contact':
        i = pick('contact')
        D[i] = ('contact', D[i][1], dict(D[i][2], tag='nosuch'))
    elif bad == 'tag of interface':
        D.append(('interface', ds.add_1d_interface, dict(mesh='m', name='ix', tag='nosuch')))
    elif bad == 'no region':
        later = [d for d in D if d[0] == 'region']
        D = [d for d in D if d[0] != 'region']
    elif bad == 'equal tags':
        i = pick('region')
        D[i] = ('region', D[i][1], dict(D[i][2], tag2=D[i][2]['tag1']))
    elif bad in ('dup interface', 'dup interface tag'):
        if not case['cuts']:
            return
        i = pick('interface')
        D.append(('interface', D[i][1], dict(D[i][2], **({'name': 'other'} if bad == 'dup interface tag' else {}))))
    elif bad == 'dup region name':
        if not case['cuts']:
            return
        ii = kinds('region')
        D[ii[0]] = ('region', D[ii[0]][1], dict(D[ii[0]][2], region=D[ii[1]][2]['region']))
    elif bad == 'dup contact name':
        ii = kinds('contact')
        D[ii[0]] = ('contact', D[ii[0]][1], dict(D[ii[0]][2], name=D[ii[1]][2]['name']))
    elif bad in ('nan pos', 'inf pos', 'tiny spacing', 'nan spacing'):
        i = pick('line')
        v = {'nan pos': {'pos': math.nan}, 'inf pos': {'pos': math.inf if k % 2 else -math.inf}, 'tiny spacing': {'ps': 1e-30, 'ns': 1e-30}, 'nan spacing': {'ps': math.nan}}[bad]
        if bad == 'tiny spacing' and (D[i][2]['pos'] == 0 or 1):
            # neighbours use the spacing as well; only unusable where the position is not zero
            D = [('line', d[1], dict(d[2], ps=1e-30, ns=1e-30, pos=d[2]['pos'] + 10 * abs(case['lines'][-1][0]) + 1)) if d[0] == 'line' else d for d in D]
        else:
            D[i] = ('line', D[i][1], dict(D[i][2], **v))
    ctx.nontrivial()
    ctx.count(bad)
    # a bystander
    ds.create_1d_mesh(mesh='m')
    failed = None
    for _, f, kw in D:
        failed = failed or dsx.raises(f, **kw)
    if not failed:
        failed = dsx.raises(ds.finalize_mesh, mesh='m')
        if failed and case['twice']:
            need(dsx.raises(ds.finalize_mesh, mesh='m'), '%s: finalizing again succeeds', bad)
        if failed:
            need(dsx.raises(ds.create_device, mesh='m', device='d'), '%s: device created from a mesh which could not be finalized', bad)
    if not failed:
        failed = dsx.raises(ds.create_device, mesh='m', device='d')
    need(failed, 'inconsistent description (%s) accepted', bad)
    need(ds.get_device_list() == () or list(ds.get_device_list()) == [], '%s: rejected mesh left device %s', bad, ds.get_device_list())
    if later:
        for _, f, kw in later:
            f(**kw)
        e = dsx.raises(ds.finalize_mesh, mesh='m')
        need(e is None, '%s: the completed description is rejected: %s', bad, e)
        ds.create_device(mesh='m', device='d')
        check1(case)
    ds.delete_mesh(mesh='m')


# ---------------------------------------------------------------- 2D
@st.composite
def strat2(draw):
    X, Y = draw(lines(0, 0, 5)), draw(lines(0, 0, 4))
    # keep the meshes small: no more than ~12 intervals between two lines
    for L in (X, Y):
        L.sort()
        for i, l in enumerate(L):
            near = [abs(L[j][0] - l[0]) for j in (i - 1, i + 1) if 0 <= j < len(L)]
            l[1] = max(l[1], max(near) / 8)
            if l[2] is not None:
                l[2] = max(l[2], max(near) / 8)
    nx, ny = len(X), len(Y)

    @st.composite
    def box(draw):
        i0, i1 = sorted([draw(st.integers(0, nx - 1)), draw(st.integers(0, nx - 1))])
        j0, j1 = sorted([draw(st.integers(0, ny - 1)), draw(st.integers(0, ny - 1))])
        b = [i0, max(i1, i0), j0, max(j1, j0)]
        return b

    @st.composite
    def rbox(draw):
        b = draw(box())
        if b[0] == b[1]:
            b[0], b[1] = (b[0], b[1] + 1) if b[1] + 1 < nx else (b[0] - 1, b[1])
        if b[2] == b[3]:
            b[2], b[3] = (b[2], b[3] + 1) if b[3] + 1 < ny else (b[2] - 1, b[3])
        return b
    nr = draw(st.integers(1, 4))
    regions = [[draw(st.sampled_from(['r%d' % k for k in range(nr)])), draw(rbox()), draw(st.booleans())] for _ in range(draw(st.integers(1, 5)))]
    if draw(st.booleans()):
        regions.insert(0, ['r0', [0, nx - 1, 0, ny - 1], draw(st.booleans())])
    rs = sorted({r[0] for r in regions})
    contacts = [[draw(st.sampled_from(['c0', 'c1', 'c2'])), draw(st.sampled_from(rs)), draw(box()), draw(st.sampled_from([None, None, 0.0, 0.01, 0.3]))] for _ in range(draw(st.integers(0, 3)))]
    interfaces = []
    if len(rs) > 1:
        for _ in range(draw(st.integers(0, 4))):
            a = draw(st.sampled_from(rs))
            b = draw(st.sampled_from([r for r in rs if r != a]))
            interfaces.append([draw(st.sampled_from(['i0', 'i1', 'i2', 'i3'])), a, b, draw(st.one_of(st.none(), box())), draw(st.sampled_from([None, 0.0, 0.01]))])
    # one region (pair) per contact and interface name
    seen, C, I = {}, [], []
    for c in contacts:
        c[1] = seen.setdefault(c[0], c[1])
        C.append(c)
    for i in interfaces:
        i[1], i[2] = seen.setdefault(i[0], (i[1], i[2]))
        I.append(i)
    return {'X': X, 'Y': Y, 'xo': draw(st.permutations(list(range(nx)))), 'yo': draw(st.permutations(list(range(ny)))), 'regions': regions, 'contacts': C, 'interfaces': I,
            'dupx': draw(st.sampled_from([None, None, 0, 1])), 'flipbox': draw(st.booleans()), 'default': draw(st.booleans())}


def describe2(case):
    X, Y = case['X'], case['Y']
    D = []
    for d, L, o in (('x', X, case['xo']), ('y', Y, case['yo'])):
        D += [('line', ds.add_2d_mesh_line, dict(mesh='m', dir=d, **line_kw(L[i]))) for i in o]
    if case['dupx'] is not None:
        D.append(('line', ds.add_2d_mesh_line, dict(mesh='m', dir='x', **line_kw(X[case['dupx']]))))

    def box(b, full=False):
        if b is None:
            return {}
        q = dict(xl=X[b[0]][0], xh=X[b[1]][0], yl=Y[b[2]][0], yh=Y[b[3]][0])
        if case['flipbox']:
            q['xl'], q['xh'] = q['xh'], q['xl']
            q['yl'], q['yh'] = q['yh'], q['yl']
        return q
    full = [0, len(X) - 1, 0, len(Y) - 1]
    for nm, b, dflt in case['regions']:
        D.append(('region', ds.add_2d_region, dict(mesh='m', region=nm, material='M' + nm, **({} if dflt and b == full else box(b)))))
    h = min(b - a for L in (X, Y) for a, b in zip([l[0] for l in L], [l[0] for l in L][1:]))
    for nm, r, b, bl in case['contacts']:
        D.append(('contact', ds.add_2d_contact, dict(mesh='m', name=nm, region=r, material='metal', **box(b), **({} if bl is None else {'bloat': bl * h}))))
    for nm, r0, r1, b, bl in case['interfaces']:
        D.append(('interface', ds.add_2d_interface, dict(mesh='m', name=nm, region0=r0, region1=r1, **box(b), **({} if bl is None else {'bloat': bl * h}))))
    return D, h


def run2(case, ctx):
    dsx.reset()
    ds.create_2d_mesh(mesh='m')
    D, h = describe2(case)
    for _, f, kw in D:
        f(**kw)
    X, Y = case['X'], case['Y']
    # the grid positions, from the same lines with one region everywhere
    ds.create_2d_mesh(mesh='p')
    for k, f, kw in D:
        if k == 'line':
            f(**dict(kw, mesh='p'))
    ds.add_2d_region(mesh='p', region='all', material='m')
    ds.finalize_mesh(mesh='p')
    ds.create_device(mesh='p', device='p')
    gx, gy = [sorted(set(ds.get_node_model_values(device='p', region='all', name=c))) for c in 'xy']
    need(len(ds.get_node_model_values(device='p', region='all', name='x')) == len(gx) * len(gy), 'grid is not the product of its lines')
    positions(gx, X, 'x')
    positions(gy, Y, 'y')
    ds.delete_device(device='p')
    ds.delete_mesh(mesh='p')
    if min(b - a for g in (gx, gy) for a, b in zip(g, g[1:])) < 4e-10:
        ctx.count('cells as small as the default bloat')
        return
    names = []
    for nm, _, _ in case['regions']:
        if nm not in names:
            names.append(nm)
    # which cells between lines belong to which region: the last region listed wins
    def owner(i, j):
        o = None
        for nm in names:
            if any(n2 == nm and b[0] <= i < b[1] and b[2] <= j < b[3] for n2, b, _ in case['regions']):
                o = nm
        return o
    own = {(i, j): owner(i, j) for i in range(len(X) - 1) for j in range(len(Y) - 1)}
    used = [nm for nm in names if nm in own.values()]
    bad = [c for c in case['contacts'] if c[1] not in used] + [i for i in case['interfaces'] if i[1] not in used or i[2] not in used]
    err = dsx.raises(ds.finalize_mesh, mesh='m') or dsx.raises(ds.create_device, mesh='m', device='d')
    if err:
        need(bad, 'valid description rejected: %s', err)
        need(not list(ds.get_device_list()), 'rejected mesh left a device')
        return
    need(sorted(ds.get_region_list(device='d')) == sorted(used), 'regions %s, expected %s', ds.get_region_list(device='d'), used)
    need(ds.get_dimension(device='d') == 2, 'dimension')
    R = {}
    for nm in used:
        a = dict(device='d', region=nm)
        need(ds.get_material(**a) == 'M' + nm, 'material of %s is %s', nm, ds.get_material(**a))
        xy = list(zip(ds.get_node_model_values(**a, name='x'), ds.get_node_model_values(**a, name='y')))
        need(all(z == 0 for z in ds.get_node_model_values(**a, name='z')), 'z is not 0')
        need(len(set(xy)) == len(xy), 'region %s has a node twice', nm)
        R[nm] = dict(xy=xy, tri=[tuple(t) for t in ds.get_element_node_list(device='d', region=nm)])
    # every grid cell in a region's extent is covered by exactly two triangles of that region, joined along a diagonal
    lx, ly = [l[0] for l in X], [l[0] for l in Y]
    ix, iy = {v: i for i, v in enumerate(gx)}, {v: i for i, v in enumerate(gy)}
    import bisect
    want = {nm: set() for nm in used}
    for (i, j), o in own.items():
        if o is None:
            continue
        xs = [v for v in gx if lx[i] <= v <= lx[i + 1]]
        ys = [v for v in gy if ly[j] <= v <= ly[j + 1]]
        need(xs[0] == lx[i] and xs[-1] == lx[i + 1] and ys[0] == ly[j] and ys[-1] == ly[j + 1], 'region %s does not reach its extent', o)
        want[o] |= {(ix[p], iy[q]) for p in xs[:-1] for q in ys[:-1]}
    for nm in used:
        xy = R[nm]['xy']
        cells = {}
        seen = set()
        for t in R[nm]['tri']:
            need(len(set(t)) == 3, 'degenerate element %s', t)
            need(tuple(sorted(t)) not in seen, 'element %s twice in %s', t, nm)
            seen.add(tuple(sorted(t)))
            c = [(ix[xy[v][0]], iy[xy[v][1]]) for v in t]
            lo = (min(p[0] for p in c), min(p[1] for p in c))
            need({p[0] for p in c} == {lo[0], lo[0] + 1} and {p[1] for p in c} == {lo[1], lo[1] + 1}, 'element of %s with grid corners %s spans more than a cell', nm, c)
            cells.setdefault(lo, []).append(frozenset(c))
        need(set(cells) == want[nm], 'region %s covers other cells than requested: %s', nm, sorted(set(cells) ^ want[nm])[:6])
        for lo, ts in cells.items():
            need(len(ts) == 2, 'cell %s of %s has %d elements', lo, nm, len(ts))
            both = ts[0] & ts[1]
            need(len(both) == 2 and len({p[0] for p in both}) == 2 and len({p[1] for p in both}) == 2, 'cell %s of %s: elements do not share a diagonal', lo, nm)
        corners = {(i + p, j + q) for i, j in want[nm] for p in (0, 1) for q in (0, 1)}
        need({(ix[x], iy[y]) for x, y in xy} == corners, 'nodes of %s are not those of its cells', nm)
        edges = {frozenset(p) for t in R[nm]['tri'] for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2]))}
        a = dict(device='d', region=nm)
        ds.edge_from_node_model(**a, node_model='node_index')
        e = [frozenset(map(int, p)) for p in zip(ds.get_edge_model_values(**a, name='node_index@n0'), ds.get_edge_model_values(**a, name='node_index@n1'))]
        need(len(e) == len(set(e)) and set(e) == edges, 'edges of %s are not those of its elements', nm)
        cnt = {}
        for t in R[nm]['tri']:
            for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
                cnt[frozenset(p)] = cnt.get(frozenset(p), 0) + 1
        R[nm]['boundary'] = {p for p, k in cnt.items() if k == 1}
        R[nm]['at'] = {p: i for i, p in enumerate(xy)}
    ctx.nontrivial(len(used) > 1)
    # contacts and interfaces: nodes shared by two regions, first listed first
    share = {}
    for nm in used:
        for p in R[nm]['xy']:
            share.setdefault(p, []).append(nm)
    def inside(b, bl, p):
        if b is None:
            return True
        bl = 1e-10 if bl is None else bl * h
        near = [abs(p[0] - lx[b[0]] + bl), abs(lx[b[1]] + bl - p[0]), abs(p[1] - ly[b[2]] + bl), abs(ly[b[3]] + bl - p[1])]
        return lx[b[0]] - bl < p[0] < lx[b[1]] + bl and ly[b[2]] - bl < p[1] < ly[b[3]] + bl
    corder, iorder = [], []
    for c in case['contacts']:
        if c[0] not in corder:
            corder.append(c[0])
    for c in case['interfaces']:
        if c[0] not in iorder:
            iorder.append(c[0])
    cn, inn = {c: set() for c in corder}, {i: set() for i in iorder}
    listed = set()
    for p, rs in share.items():
        if len(rs) < 2:
            continue
        done = False
        for c in corder:
            boxes = [q for q in case['contacts'] if q[0] == c]
            if any(inside(q[2], q[3], p) for q in boxes):
                listed.add(c)
                if boxes[0][1] in rs:
                    cn[c].add(p)
                    done = True
                    break
        if done:
            continue
        for c in iorder:
            boxes = [q for q in case['interfaces'] if q[0] == c]
            if any(inside(q[3], q[4], p) for q in boxes):
                listed.add(c)
                if boxes[0][1] in rs and boxes[0][2] in rs:
                    inn[c].add(p)
                    break
    gotc, goti = set(ds.get_contact_list(device='d')), set(ds.get_interface_list(device='d'))
    need({c for c in cn if cn[c]} <= gotc <= set(cn), 'contacts %s, expected %s', gotc, {c for c in cn if cn[c]})
    need({c for c in inn if inn[c]} <= goti <= set(inn), 'interfaces %s, expected %s', goti, {c for c in inn if inn[c]})
    ats = {nm: set() for nm in used}
    for c in gotc:
        r = [q for q in case['contacts'] if q[0] == c][0][1]
        need(ds.get_region_list(device='d', contact=c) == (r,) or list(ds.get_region_list(device='d', contact=c)) == [r], 'region of contact %s', c)
        need(ds.get_material(device='d', contact=c) == 'metal', 'material of contact %s', c)
        ats[r] |= cn[c]
        e = [frozenset(x) for x in ds.get_element_node_list(device='d', region=r, contact=c)]
        w = {b for b in R[r]['boundary'] if all(R[r]['xy'][v] in cn[c] for v in b)}
        need(len(e) == len(set(e)) and set(e) == w, 'edges of contact %s: %s expected %s', c, [sorted(x) for x in e], [sorted(x) for x in w])
        if w:
            ctx.count('contact with edges')
    for nm in used:
        v = ds.get_node_model_values(device='d', region=nm, name='AtContactNode')
        got = {p for p, k in zip(R[nm]['xy'], v) if k}
        need(got == ats[nm], 'contact nodes of %s: %s, expected %s', nm, sorted(got), sorted(ats[nm]))
    for c in goti:
        q = [q for q in case['interfaces'] if q[0] == c][0]
        for nm in set(q[1:3]):
            ds.node_model(device='d', region=nm, name='one', equation='1')
        if not inn[c]:
            ds.interface_model(device='d', interface=c, name='q', equation='x@r0')
            need(dsx.raises(ds.get_interface_model_values, device='d', interface=c, name='q'), 'interface %s has nodes', c)
            continue
        P = []
        for j in (0, 1):
            xs = []
            for co in 'xy':
                ds.interface_model(device='d', interface=c, name='q' + co, equation='%s@r%d' % (co, j))
                xs.append(list(ds.get_interface_model_values(device='d', interface=c, name='q' + co)))
            P.append(list(zip(*xs)))
        need(P[0] == P[1], 'interface %s pairs different positions', c)
        need(len(set(P[0])) == len(P[0]) and set(P[0]) == inn[c], 'interface %s at %s, expected %s', c, sorted(P[0]), sorted(inn[c]))
        need(list(ds.get_region_list(device='d', interface=c)) == [q[1], q[2]], 'regions of interface %s', c)
        if inn[c]:
            ctx.count('interface with nodes')


BAD2 = ['one x', 'one y', 'no lines', 'no region', 'contact region', 'interface region', 'dir', 'nan', 'inf', 'tiny']


@st.composite
def strat2bad(draw):
    return dict(draw(strat2()), bad=draw(st.sampled_from(BAD2)), k=draw(st.integers(0, 5)))


def run2bad(case, ctx):
    dsx.reset()
    case = dict(case, contacts=[], interfaces=[])
    D, h = describe2(case)
    bad, k = case['bad'], case['k']
    extra = []
    isl = lambda d, c: d[0] == 'line' and d[2]['dir'] == c
    if bad in ('one x', 'one y'):
        c = bad[-1]
        first = [d for d in D if isl(d, c)][0]
        D = [d for d in D if not isl(d, c) or d is first]
    elif bad == 'no lines':
        D = [d for d in D if d[0] != 'line']
    elif bad == 'no region':
        D = [d for d in D if d[0] != 'region']
    elif bad == 'contact region':
        # two regions so that there are nodes to contact
        full = [d for d in D if d[0] == 'line']
        X, Y = case['X'], case['Y']
        if len(X) < 3:
            return
        D = full + [('region', ds.add_2d_region, dict(mesh='m', region='ra', material='a', xl=X[0][0], xh=X[1][0])), ('region', ds.add_2d_region, dict(mesh='m', region='rb', material='b', xl=X[1][0], xh=X[-1][0])),
                    ('contact', ds.add_2d_contact, dict(mesh='m', name='c', region='nosuch', material='metal'))]
    elif bad == 'interface region':
        X = case['X']
        if len(X) < 3:
            return
        D = [d for d in D if d[0] == 'line'] + [('region', ds.add_2d_region, dict(mesh='m', region='ra', material='a', xl=X[0][0], xh=X[1][0])), ('region', ds.add_2d_region, dict(mesh='m', region='rb', material='b', xl=X[1][0], xh=X[-1][0])),
                                               ('interface', ds.add_2d_interface, dict(mesh='m', name='i', region0='ra' if k % 2 else 'nosuch', region1='nosuch' if k % 2 else 'ra'))]
    elif bad == 'dir':
        D.append(('line', ds.add_2d_mesh_line, dict(mesh='m', dir='z', pos=0, ps=1)))
    else:
        i = k % len([d for d in D if d[0] == 'line'])
        v = {'nan': {'pos': math.nan}, 'inf': {'pos': math.inf if k % 2 else -math.inf}, 'tiny': {'ps': 1e-30, 'ns': 1e-30}}[bad]
        if bad == 'tiny':
            D = [('line', d[1], dict(d[2], ps=1e-30, ns=1e-30, pos=d[2]['pos'] + 10 * abs(case['X'][-1][0]) + 10 * abs(case['Y'][-1][0]) + 1)) if d[0] == 'line' else d for d in D]
        else:
            D[i] = ('line', D[i][1], dict(D[i][2], **v))
    ctx.nontrivial()
    ctx.count('2d ' + bad)
    ds.create_2d_mesh(mesh='m')
    failed = None
    for _, f, kw in D:
        failed = failed or dsx.raises(f, **kw)
    failed = failed or dsx.raises(ds.finalize_mesh, mesh='m') or dsx.raises(ds.create_device, mesh='m', device='d')
    need(failed, 'inconsistent description (%s) accepted', bad)
    need(not list(ds.get_device_list()), '%s: rejected mesh left device %s', bad, ds.get_device_list())
    ds.delete_mesh(mesh='m')


SUITES = [Suite('1d', strat1, run1, quick=3000, thorough=60000), Suite('1d inconsistent', strat1bad, run1bad, quick=1500, thorough=20000, hang=60),
          Suite('2d', strat2, run2, quick=6000, thorough=120000), Suite('2d inconsistent', strat2bad, run2bad, quick=900, thorough=12000, hang=60)]
