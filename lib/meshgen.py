"""Mesh generators (pure Python/numpy, independent of the simulator) and device construction."""
import itertools, random
import numpy as np


def grid_mesh(dim, n, seed, jitter=0.2, split=(), shuffle=True, scale=(1.0, 1.0, 1.0), diag=True):
    """Box of n[0] x n[1] x n[2] cells split into simplices.  split: cell-column indexes at which a new
    region starts.  Returns dict(dim, coords, regions=[list of simplices], contacts={name: (ri, facets)},
    interfaces=[(r0, r1, facets)])."""
    rng = np.random.default_rng(seed)
    n = list(n)[:dim] + [0] * (3 - dim)
    ids = {}
    coords = []
    for k in range(n[2] + 1):
        for j in range(n[1] + 1):
            for i in range(n[0] + 1):
                ids[i, j, k] = len(coords)
                p = [float(i), float(j), float(k)]
                for d in range(dim):
                    if 0 < (i, j, k)[d] < n[d]:
                        p[d] += float(rng.uniform(-jitter, jitter))
                coords.append(p)
    regions = [[] for _ in range(len(split) + 1)]

    def reg(i):
        return sum(1 for s in split if i >= s)
    for k in range(max(n[2], 1)):
        for j in range(max(n[1], 1)):
            for i in range(n[0]):
                r = regions[reg(i)]
                if dim == 1:
                    r.append([ids[i, 0, 0], ids[i + 1, 0, 0]])
                elif dim == 2:
                    a, b, c, d = ids[i, j, 0], ids[i + 1, j, 0], ids[i + 1, j + 1, 0], ids[i, j + 1, 0]
                    if diag and rng.integers(2):
                        r += [[a, b, c], [a, c, d]]
                    else:
                        r += [[a, b, d], [b, c, d]]
                else:
                    for perm in itertools.permutations(range(3)):
                        v = [0, 0, 0]
                        t = [ids[i, j, k]]
                        for ax in perm:
                            v[ax] = 1
                            t.append(ids[i + v[0], j + v[1], k + v[2]])
                        r.append(t)
    allr = []
    for r in regions:
        o = list(range(len(r)))
        if shuffle:
            rng.shuffle(o)
        rr = []
        for e in o:
            t = list(r[e])
            if shuffle:
                rng.shuffle(t)
            rr.append([int(x) for x in t])
        allr.append(rr)
    # facets
    def facets(els):
        f = {}
        for t in els:
            for m in range(len(t)):
                key = tuple(sorted(t[:m] + t[m + 1:]))
                f[key] = f.get(key, 0) + 1
        return f
    F = [facets(r) for r in allr]
    gi = {v: k for k, v in ids.items()}
    interfaces = []
    for a in range(len(allr) - 1):
        sh = sorted(set(F[a]) & set(F[a + 1]))
        interfaces.append((a, a + 1, [list(x) for x in sh]))
    left = [list(f) for f in sorted(F[0]) if all(gi[v][0] == 0 for v in f)]
    right = [list(f) for f in sorted(F[-1]) if all(gi[v][0] == n[0] for v in f)]
    contacts = {'c0': (0, left), 'c1': (len(allr) - 1, right)}
    if dim >= 2:
        bottom = [list(f) for f in sorted(F[0]) if all(gi[v][1] == 0 for v in f)]
        contacts['cb'] = (0, bottom)
    C = np.array(coords) * np.array(scale)
    if shuffle:
        p = rng.permutation(len(coords))          # new index of old node
        C2 = np.empty_like(C)
        C2[p] = C
        C = C2
        m = lambda t: [int(p[x]) for x in t]
        allr = [[m(t) for t in r] for r in allr]
        contacts = {c: (r, [m(f) for f in fs]) for c, (r, fs) in contacts.items()}
        interfaces = [(a, b, [m(f) for f in fs]) for a, b, fs in interfaces]
    return dict(dim=dim, coords=[[float(x) for x in q] for q in C], regions=allr, contacts=contacts, interfaces=interfaces)


def line_mesh(xs, split=(), contacts=True):
    """1D mesh through the given (increasing) positions; split = node indexes that start a new region."""
    n = len(xs) - 1
    b = [0] + list(split) + [n]
    regs = [[[i, i + 1] for i in range(b[r], b[r + 1])] for r in range(len(b) - 1)]
    itf = [(r, r + 1, [[b[r + 1]]]) for r in range(len(b) - 2)]
    con = {'c0': (0, [[0]]), 'c1': (len(regs) - 1, [[n]])} if contacts else {}
    return dict(dim=1, coords=[[float(x), 0.0, 0.0] for x in xs], regions=regs, contacts=con, interfaces=itf)


def gmsh_args(mesh):
    names, elements = [], []

    def add(name, facets):
        k = len(names)
        names.append(name)
        for f in facets:
            elements.extend([len(f) - 1, k] + list(f))
    for i, r in enumerate(mesh['regions']):
        add('g_r%d' % i, r)
    for c, (r, fs) in mesh['contacts'].items():
        add('g_' + c, fs)
    for i, (a, b, fs) in enumerate(mesh['interfaces']):
        add('g_i%d' % i, fs)
    return dict(coordinates=[x for p in mesh['coords'] for x in p], physical_names=names, elements=elements)


def make_device(ds, mesh, device='dev', meshname=None, use_contacts=True, use_interfaces=True, material='Si'):
    """Region names r0, r1, ...; contacts c0, c1, cb; interfaces i0, ..."""
    mn = meshname or ('m_' + device)
    ds.create_gmsh_mesh(mesh=mn, **gmsh_args(mesh))
    for i, r in enumerate(mesh['regions']):
        ds.add_gmsh_region(mesh=mn, gmsh_name='g_r%d' % i, region='r%d' % i, material=material)
    if use_contacts:
        for c, (r, fs) in mesh['contacts'].items():
            ds.add_gmsh_contact(mesh=mn, gmsh_name='g_' + c, region='r%d' % r, name=c, material='metal')
    if use_interfaces:
        for i, (a, b, fs) in enumerate(mesh['interfaces']):
            ds.add_gmsh_interface(mesh=mn, gmsh_name='g_i%d' % i, region0='r%d' % a, region1='r%d' % b, name='i%d' % i)
    ds.finalize_mesh(mesh=mn)
    ds.create_device(mesh=mn, device=device)


def region_nodes(mesh, ri):
    """Global node indexes of a region in increasing order: the simulator numbers a region's nodes so."""
    return sorted({v for t in mesh['regions'][ri] for v in t})
