"""C11: mesh files and lists are corrupted in every way a structure-aware mutator can think of; loading must end in an error or a well-formed device, and leave the session usable."""
from hypothesis import strategies as st
import math, os, random, re, shutil, tempfile
from harness import Suite, need
import dsx, meshgen, c08
from dsx import ds

PROPERTY = 'C11'
RULE = ('A case takes a valid random mesh (file in Gmsh format, in-memory lists, or native file with models and equations), applies one to six random changes to it - bytes, characters, tokens (replaced by other tokens, extreme, '
        'negative, fractional, missing or huge numbers, names that do not exist), lines, whole sections dropped, doubled, swapped, cut off at any point - or is made of random tokens of the format, or of random bytes. It also gives the '
        'region, contact and interface commands wrong names, wrong regions or no mesh elements. Loading must raise an error or give a device whose element, contact and interface nodes exist, are distinct and whose models can all be read; the worker process must survive. '
        'Afterwards an older device has every value it had, and a correct file, list and native file load as on a fresh session (also under the name that was rejected). '
        'A further suite applies one change after which the file is certainly invalid (wrong number of values, node numbers outside the region, unknown regions, repeated names, missing ends, words or infinities as numbers): it must be rejected. '
        'Non-trivial: the input was rejected, or differs from the valid one in more than white space.')
ASSUMPTIONS = ['coordinates that are not finite or elements of zero size may be accepted; only the structure of an accepted mesh is judged']

NUM = ['0', '-1', '1', '2', '3', '4', '5', '15', '7', '99999', '2147483647', '2147483648', '-2147483648', '4294967296', '9223372036854775808', '99999999999999999999', '1.5', '-0.0', '1e400', 'nan', 'inf', '1e-320', '0x10', '+3', '']
WORDS = ['foo', '"', '""', '"a b"', '$Nodes', '$EndNodes', '$Elements', '$EndElements', '$PhysicalNames', '$MeshFormat', '$EndMeshFormat', 'é', '\x00', '\x7f', '#', '\\', '"unclosed', '\n', '-1-1', 'x' * 300]


def mutate(text, rng, times, extra=()):
    """apply random changes to the text of a file"""
    for _ in range(times):
        k = rng.random()
        lines = text.split('\n')
        i = rng.randrange(len(lines))
        if k < 0.35:            # a token
            cand = [j for j, l in enumerate(lines) if l.split()]
            if not cand:
                continue
            i = rng.choice(cand)
            t = re.split('([ \t])', lines[i])
            j = 2 * rng.randrange((len(t) + 1) // 2)
            o = rng.random()
            if o < 0.35:
                t[j] = rng.choice(NUM)
            elif o < 0.55:
                other = lines[rng.choice(cand)].split()
                t[j] = rng.choice(other)
            elif o < 0.7:
                t[j] = rng.choice(WORDS + list(extra))
            elif o < 0.8:
                del t[j]
            elif o < 0.9:
                t[j:j] = [t[j], ' ']
            elif re.fullmatch(r'-?\d+', t[j]):
                t[j] = str(int(t[j]) + rng.choice([-1, 1, 1000, -1000]))
            lines[i] = ''.join(t)
            text = '\n'.join(lines)
        elif k < 0.6:           # lines
            o = rng.random()
            if o < 0.25:
                del lines[i]
            elif o < 0.45:
                lines.insert(i, lines[rng.randrange(len(lines))])
            elif o < 0.6:
                j = rng.randrange(len(lines))
                lines[i], lines[j] = lines[j], lines[i]
            elif o < 0.75:
                j = min(len(lines), i + rng.randint(1, 12))
                del lines[i:j]
            elif o < 0.85:
                lines.insert(i, rng.choice(WORDS + list(extra)))
            elif o < 0.93:
                lines.insert(i, ' '.join(rng.choice(NUM) for _ in range(rng.randint(1, 8))))
            else:
                j = min(len(lines), i + rng.randint(1, 12))
                lines[i:i] = lines[i:j]
            text = '\n'.join(lines)
        elif k < 0.7:           # sections
            heads = [j for j, l in enumerate(lines) if re.match(r'\$|begin_|end_|COMMAND|DATA|BUILTIN|UNIFORM', l)]
            if len(heads) < 2:
                continue
            a, b = sorted(rng.sample(heads, 2))
            o = rng.random()
            if o < 0.3:
                del lines[a:b + rng.randint(0, 1)]
            elif o < 0.5:
                lines[a:a] = lines[a:b + 1]
            elif o < 0.7:
                lines[a], lines[b] = lines[b], lines[a]
            elif o < 0.85:
                del lines[a]
            else:
                lines.insert(b, lines[a])
            text = '\n'.join(lines)
        elif k < 0.8:           # truncation
            text = text[:rng.randrange(len(text) + 1)] if rng.random() < 0.7 else text[rng.randrange(len(text) + 1):]
        elif k < 0.95 and text: # characters
            j = rng.randrange(len(text))
            o = rng.random()
            c = rng.choice('0123456789.-+eE $"#\n\t\r_abz@:\x00\x01\x80\xff')
            text = text[:j] + (c if o < 0.7 else '') + text[j + (0 if o < 0.4 else 1):]
        elif text:              # a block moved
            a = rng.randrange(len(text))
            b = min(len(text), a + rng.randint(1, 60))
            blk = text[a:b]
            text = text[:a] + text[b:]
            j = rng.randrange(len(text) + 1)
            text = text[:j] + blk + text[j:]
        if not text:
            text = '\n'
    return text


def degenerate(a, dim):
    """whether an element has no size, or sizes that overflow or underflow"""
    p = list(zip(*[ds.get_node_model_values(**a, name=c) for c in 'xyz']))
    def sub(u, v):
        return [x - y for x, y in zip(u, v)]
    def cross(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    for t in ds.get_element_node_list(**a):
        q = [p[v][:dim] + (0.0,) * (3 - dim) for v in t]  # what the element fields see
        if not all(math.isfinite(x) for v in t for x in p[v]):
            return True
        e = [sub(q[i], q[j]) for i in range(len(q)) for j in range(i)]
        h = [math.sqrt(sum(x * x for x in v)) for v in e]
        if min(h) < 1e-50 or max(h) > 1e50 or min(h) < 1e-8 * max(h):
            return True
        d = [[x / max(h) for x in sub(v, q[0])] for v in q[1:]]
        vol = 1.0
        if dim == 2:
            vol = math.sqrt(sum(x * x for x in cross(d[0], d[1])))
        elif dim == 3:
            vol = abs(sum(x * y for x, y in zip(cross(d[0], d[1]), d[2])))
        if vol < 1e-9:
            return True
    return False


def values(f, **a):
    """values of a model, None if they cannot be evaluated because an element has no size"""
    try:
        return f(**a)
    except ds.error as e:
        if degenerate(dict(device=a['device'], region=a['region']), ds.get_dimension(device=a['device'])):
            return None
        if re.search(r'evaluat|not available|not exist', str(e)):
            return None  # the expression of the model was changed
        raise


def wellformed(dev, what):
    dim = ds.get_dimension(device=dev)
    need(dim in (1, 2, 3), '%s: dimension %s', what, dim)
    size = {}
    for r in ds.get_region_list(device=dev):
        a = dict(device=dev, region=r)
        x = ds.get_node_model_values(**a, name='x')
        n = size[r] = len(x)
        for m in ds.get_node_model_list(**a):
            v = values(ds.get_node_model_values, **a, name=m)
            need(v is None or len(v) == n, '%s: node model %s has %d values', what, m, v and len(v))
        ne = None
        for m in ds.get_edge_model_list(**a):
            v = values(ds.get_edge_model_values, **a, name=m)
            if v is None:
                continue
            ne = len(v) if ne is None else ne
            need(len(v) == ne, '%s: edge model %s has %d values', what, m, len(v))
        E = ds.get_element_node_list(**a)
        for t in E:
            need(len(t) == dim + 1 and len(set(t)) == dim + 1 and all(0 <= v < n for v in t), '%s: element %s of %s with %d nodes', what, t, r, n)
        E2 = values(ds.get_element_node_list, **a, reorder=True)
        need(E2 is None or len(E2) == len(E), '%s: reordered elements', what)
        for m in ds.get_element_model_list(**a) if dim > 1 else ():
            v = values(ds.get_element_model_values, **a, name=m)
            need(v is None or len(v) == len(E) * (3 if dim == 2 else 6), '%s: element model %s has %d values', what, m, v and len(v))
        try:
            ds.edge_from_node_model(**a, node_model='node_index')
        except ds.error:
            need(False, '%s: edge_from_node_model fails', what)
        for s in '01':
            v = ds.get_edge_model_values(**a, name='node_index@n' + s)
            need(all(0 <= q < n and q == int(q) for q in v), '%s: edge nodes', what)
    for c in ds.get_contact_list(device=dev):
        r, = ds.get_region_list(device=dev, contact=c)
        need(r in size, '%s: region of contact', what)
        for t in ds.get_element_node_list(device=dev, region=r, contact=c):
            need((len(t) <= dim or dim == 1) and len(set(t)) == len(t) and all(0 <= v < size[r] for v in t), '%s: contact element %s of %s', what, t, c)
    for i in ds.get_interface_list(device=dev):
        R = ds.get_region_list(device=dev, interface=i)
        need(len(R) == 2 and all(r in size for r in R), '%s: regions of interface %s', what, R)
        for r in R:
            for t in ds.get_element_node_list(device=dev, region=r, interface=i):
                need((len(t) <= dim or dim == 1) and len(set(t)) == len(t) and all(0 <= v < size[r] for v in t), '%s: interface element %s', what, t)
        ds.interface_model(device=dev, interface=i, name='qq', equation='x@r0-x@r1')
        e = dsx.raises(ds.get_interface_model_values, device=dev, interface=i, name='qq')
        need(e is None or 'is empty' in e, '%s: interface model: %s', what, e)


def snapshot(dev):
    s = [ds.get_dimension(device=dev), ds.get_parameter_list(device=dev)]
    for r in sorted(ds.get_region_list(device=dev)):
        a = dict(device=dev, region=r)
        s.append((r, ds.get_material(**a), ds.get_element_node_list(**a), sorted(ds.get_equation_list(**a)), [(p, ds.get_parameter(**a, name=p)) for p in sorted(ds.get_parameter_list(**a))]))
        for lst, val in ((ds.get_node_model_list, ds.get_node_model_values), (ds.get_edge_model_list, ds.get_edge_model_values), (ds.get_element_model_list, ds.get_element_model_values)):
            for m in sorted(lst(**a)) if s[0] > 1 or lst is not ds.get_element_model_list else ():
                s.append((r, m, [float(q).hex() for q in val(**a, name=m)]))
    for c in sorted(ds.get_contact_list(device=dev)):
        r, = ds.get_region_list(device=dev, contact=c)
        s.append((c, r, ds.get_material(device=dev, contact=c), ds.get_element_node_list(device=dev, region=r, contact=c), sorted(ds.get_contact_equation_list(device=dev, contact=c))))
    for i in sorted(ds.get_interface_list(device=dev)):
        R = ds.get_region_list(device=dev, interface=i)
        s.append((i, list(R), [ds.get_element_node_list(device=dev, region=r, interface=i) for r in R]))
        for m in sorted(ds.get_interface_model_list(device=dev, interface=i)):
            s.append((i, m, [float(q).hex() for q in ds.get_interface_model_values(device=dev, interface=i, name=m)]))
    return repr(s)


def dress(dev):
    """models, equations and parameters on a device"""
    for k, r in enumerate(sorted(ds.get_region_list(device=dev))):
        a = dict(device=dev, region=r)
        ds.set_parameter(**a, name='p', value=1.5 + k)
        ds.node_solution(**a, name='u')
        n = len(ds.get_node_model_values(**a, name='x'))
        ds.set_node_values(**a, name='u', values=[0.1 * j + k for j in range(n)])
        ds.node_solution(**a, name='w')
        ds.edge_from_node_model(**a, node_model='u')
        ds.edge_from_node_model(**a, node_model='w')
        ds.node_model(**a, name='src', equation='1.5*u^2 - x')
        ds.node_model(**a, name='src:u', equation='3*u')
        ds.edge_model(**a, name='flux', equation='(u@n0-u@n1)*EdgeInverseLength')
        ds.edge_model(**a, name='flux:u@n0', equation='EdgeInverseLength')
        ds.edge_model(**a, name='flux:u@n1', equation='-EdgeInverseLength')
        ds.edge_average_model(**a, node_model='u', edge_model='uav')
        ds.edge_solution(**a, name='es')
        ds.set_edge_values(**a, name='es', init_from='flux')
        if ds.get_dimension(device=dev) > 1:
            ds.element_from_edge_model(**a, edge_model='flux')
            ds.element_solution(**a, name='els')
            ds.set_element_values(**a, name='els', init_from='flux_x')
        ds.equation(**a, name='eq', variable_name='u', node_model='src', edge_model='flux', variable_update='default')
    for c in sorted(ds.get_contact_list(device=dev)):
        r, = ds.get_region_list(device=dev, contact=c)
        ds.contact_node_model(device=dev, contact=c, name=c + 'm', equation='u-0.25')
        ds.contact_node_model(device=dev, contact=c, name=c + 'm:u', equation='1')
        ds.contact_equation(device=dev, contact=c, name='eq', node_model=c + 'm', edge_current_model='flux')
    for i in sorted(ds.get_interface_list(device=dev)):
        ds.interface_model(device=dev, interface=i, name='imod', equation='u@r0-u@r1')
        ds.interface_model(device=dev, interface=i, name='imod:u@r0', equation='1')
        ds.interface_model(device=dev, interface=i, name='imod:u@r1', equation='-1')
        ds.interface_equation(device=dev, interface=i, name='eq', interface_model='imod', type='continuous')


class Work:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c11')
        self.old = os.getcwd()
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)

    def write(self, name, text):
        with open(self.d + '/' + name, 'wb') as f:
            f.write(text.encode('utf-8', 'surrogateescape') if isinstance(text, str) else text)
        return self.d + '/' + name


def gm_commands(m, C, I, owner, gname, mesh):
    L = []
    for i, _ in enumerate(m['regions']):
        for g in owner['r%d' % i]:
            L.append((ds.add_gmsh_region, dict(mesh=mesh, gmsh_name=gname[g], region='r%d' % i, material='M%d' % i)))
    for c, (r, _) in C.items():
        for g in owner[c]:
            L.append((ds.add_gmsh_contact, dict(mesh=mesh, gmsh_name=gname[g], region='r%d' % r, name=c, material='metal' + c)))
    for i, (a, b, _) in I.items():
        for g in owner[i]:
            L.append((ds.add_gmsh_interface, dict(mesh=mesh, gmsh_name=gname[g], region0='r%d' % a, region1='r%d' % b, name=i)))
    return L


def spoil(L, rng, names):
    for _ in range(rng.randint(1, 2)):
        if not L:
            return
        k = rng.randrange(len(L))
        f, kw = L[k]
        kw = dict(kw)
        o = rng.random()
        if o < 0.5:
            key = rng.choice([q for q in kw if q != 'mesh'])
            kw[key] = rng.choice(names + ['foo', 'r0', 'r1', ''])
            L[k] = (f, kw)
        elif o < 0.7:
            del L[k]
        elif o < 0.85:
            L.append((f, kw))
        else:
            kw['gmsh_name'] = rng.choice(names)
            L.append((f, kw))


class Session:
    """an older device that must not change, and correct meshes to load afterwards"""
    def __init__(self, case, w):
        c = dict(case['base'])
        self.case, self.w = c, w
        m = meshgen.grid_mesh(2, [2, 1], 5, jitter=0.1, split=[1])
        meshgen.make_device(ds, m, device='keep', meshname='mkeep')
        dress('keep')
        self.before = snapshot('keep')
        ds.write_devices(file=w.d + '/good.msh', device='keep', type='devsim')
        self.good = open(w.d + '/good.msh').read().replace('"keep"', '"good"').replace(' keep ', ' good ')
        w.write('good.msh', self.good)
        self.m, self.coords, self.C, self.I, self.groups, self.owner, self.rng = c08.build(c)
        self.text, self.name = c08.file_text(c, self.groups, self.coords, self.rng, False)
        w.write('goodg.msh', self.text)
        self.devices = sorted(ds.get_device_list())
        self.meshes = sorted(ds.get_mesh_list())

    def rejected(self, before_devices):
        need(sorted(ds.get_device_list()) == before_devices, 'devices after a rejected input: %s', ds.get_device_list())

    def check(self, names):
        need('keep' in ds.get_device_list() and snapshot('keep') == self.before, 'the older device changed')
        for name in names:
            # the correct mesh, under the name of the rejected one
            if name in ds.get_device_list():
                ds.delete_device(device=name)
            if name in ds.get_mesh_list():
                ds.delete_mesh(mesh=name)
            ds.create_gmsh_mesh(mesh=name, file=self.w.d + '/goodg.msh')
            for f, kw in gm_commands(self.m, self.C, self.I, self.owner, self.name, name):
                f(**kw)
            ds.finalize_mesh(mesh=name)
            ds.create_device(mesh=name, device=name)
            c08.verify(name, 'correct file afterwards', self.case, self.m, self.coords, self.C, self.I)
        same = {g: g for g, _ in self.groups}
        el = []
        for k, t in c08.element_list(self.case, self.groups, self.rng):
            el += [len(t) - 1, k] + list(t)
        ds.create_gmsh_mesh(mesh='gl', coordinates=[v for c in self.coords for v in c], physical_names=[g for g, _ in self.groups], elements=el)
        for f, kw in gm_commands(self.m, self.C, self.I, self.owner, same, 'gl'):
            f(**kw)
        ds.finalize_mesh(mesh='gl')
        ds.create_device(mesh='gl', device='gl')
        c08.verify('gl', 'correct lists afterwards', self.case, self.m, self.coords, self.C, self.I)
        ds.load_devices(file=self.w.d + '/good.msh')
        s = snapshot('good')
        # parameters are not part of the file
        need(len(s) > 100, 'native file')
        wellformed('good', 'native file afterwards')
        n = len(ds.get_node_model_values(device='keep', region='r0', name='x'))
        need(dsx.same_bits(ds.get_node_model_values(device='good', region='r0', name='u'), ds.get_node_model_values(device='keep', region='r0', name='u')), 'values of the native file')


base = c08.strat()
common = {'base': base, 'seed': st.integers(0, 10**9), 'times': st.sampled_from([0, 1, 1, 1, 1, 2, 3, 6]), 'spoil': st.integers(0, 3)}


def gmsh_after(S, rng, mesh, L, case, ctx):
    """the commands that make a device of the mesh; any may raise"""
    before = sorted(ds.get_device_list())
    if case['spoil'] == 0:
        spoil(L, rng, [g for g, _ in S.groups])
        rng.shuffle(L)
    ok = True
    for f, kw in L:
        if dsx.raises(f, **kw) is not None:
            ok = False
    e = dsx.raises(ds.finalize_mesh, mesh=mesh)
    if e is not None:
        need(len(e) > 3, 'no message')
        ctx.count('finalize rejected')
        if rng.random() < 0.3:
            need(dsx.raises(ds.create_device, mesh=mesh, device=mesh) is not None, 'device of a mesh that is not finalized')
        S.rejected(before)
        return False
    e = dsx.raises(ds.create_device, mesh=mesh, device=mesh)
    if e is not None:
        need(len(e) > 3, 'no message')
        ctx.count('device rejected')
        S.rejected(before)
        e = dsx.raises(ds.create_device, mesh=mesh, device=mesh)
        need(e is not None, 'accepted the second time')
        return False
    ctx.count('accepted')
    wellformed(mesh, 'accepted mesh')
    return True


def run_file(case, ctx):
    dsx.reset()
    rng = random.Random(case['seed'])
    with Work() as w:
        S = Session(case, w)
        meshes = sorted(ds.get_mesh_list())
        raw = case.get('raw')
        if raw is not None:
            text = raw
        else:
            text = mutate(S.text, rng, case['times'], [])
        e = dsx.raises(ds.create_gmsh_mesh, mesh='bad', file=w.write('bad.msh', text))
        if e is not None:
            need(len(e) > 3, 'no message')
            need(sorted(ds.get_mesh_list()) == meshes, 'mesh left behind: %s', e)
            ctx.count('file rejected')
            ok = False
        else:
            ok = gmsh_after(S, rng, 'bad', gm_commands(S.m, S.C, S.I, S.owner, S.name, 'bad'), case, ctx)
        need(case['times'] or case['spoil'] == 0 or raw is not None or ok, 'a correct mesh was rejected: %s', e)
        S.check(['bad'])
        ctx.nontrivial(not ok or (raw is None and text.split() != S.text.split()))


def run_list(case, ctx):
    dsx.reset()
    rng = random.Random(case['seed'])
    with Work() as w:
        S = Session(case, w)
        meshes = sorted(ds.get_mesh_list())
        coords = [v for c in S.coords for v in c]
        names = [g for g, _ in S.groups]
        el = []
        for k, t in c08.element_list(S.case, S.groups, S.rng):
            el += [len(t) - 1, k] + list(t)
        n = len(el)
        for _ in range(case['times']):
            k = rng.random()
            if k < 0.5 and el:
                j = rng.randrange(len(el))
                el[j] = rng.choice([0, 1, 2, 3, 4, -1, len(S.coords), len(S.coords) - 1, len(names), len(names) - 1, len(names) + 1, 10**6, 2**31, 2**31 - 1, 2**32, 2**32 + 1, 2**63, 2**64, -2**63, 1.0, 1.5, 'a', '1', None, [], float('nan'), True, rng.choice(el)])
            elif k < 0.65 and el:
                a = rng.randrange(len(el))
                b = min(len(el), a + rng.randint(1, 8))
                if rng.random() < 0.5:
                    del el[a:b]
                else:
                    el[a:a] = el[a:b]
            elif k < 0.75 and coords:
                a = rng.randrange(len(coords))
                o = rng.random()
                if o < 0.3:
                    del coords[a]
                elif o < 0.5:
                    coords[a:a + 3] = []
                else:
                    coords[a] = rng.choice([float('nan'), float('inf'), 'a', None, [], 10**400, 1, True, '1.0', coords[0]])
            elif k < 0.85 and names:
                a = rng.randrange(len(names))
                o = rng.random()
                if o < 0.3:
                    del names[a]
                elif o < 0.5:
                    names.append(rng.choice(['foo', names[0], '']))
                else:
                    names[a] = rng.choice(['', names[0], 'x', 3, None, 'a b', '"', 'é', names[-1]])
            elif k < 0.9:
                el = el[:rng.randrange(len(el) + 1)]
            elif k < 0.95:
                coords = rng.choice([[], None, 'abc', 3, coords[:3], (1,)])
                break
            else:
                o = rng.random()
                if o < 0.5:
                    el = rng.choice([[], None, 'abc', 3, {}, b'\x01\x00'])
                else:
                    names = rng.choice([[], None, 'abc', 3, {}])
                break
        e = dsx.raises(ds.create_gmsh_mesh, mesh='bad', coordinates=coords, physical_names=names, elements=el)
        ok = False
        if e is not None:
            need(len(e) > 3, 'no message')
            need(sorted(ds.get_mesh_list()) == meshes, 'mesh left behind: %s', e)
            ctx.count('lists rejected')
        else:
            ok = gmsh_after(S, rng, 'bad', gm_commands(S.m, S.C, S.I, S.owner, {g: g for g, _ in S.groups}, 'bad'), case, ctx)
        need(case['times'] or case['spoil'] == 0 or ok, 'a correct mesh was rejected: %s', e)
        S.check(['bad'])
        ctx.nontrivial(case['times'] > 0 or not ok)


EXTRA = ['begin_device', 'end_device', 'begin_region "z" "Si"', 'end_region', 'begin_nodes', 'end_nodes', 'begin_edges', 'end_edges', 'begin_triangles', 'end_triangles', 'begin_contact "zc" "r0" "m"', 'end_contact',
         'begin_interface "zi" "r0" "r1"', 'end_interface', 'begin_node_model "z"', 'end_node_model', 'begin_edge_model "z"', 'end_edge_model', 'begin_node_solution "z"', 'end_node_solution', 'begin_edge_solution "z"', 'end_edge_solution',
         'DATA', 'BUILTIN', 'DATAPARENT "u"', 'UNIFORM 3.5', 'COMMAND node_model -device "bad" -region "r0" -name "z" -equation "u*u"', 'COMMAND foo', 'COMMAND node_model -device bad', 'begin_equation "z"', 'end_equation',
         'begin_triangle_edge_model "z"', 'end_triangle_edge_model', 'begin_tetrahedra', 'end_tetrahedra', 'begin_tetrahedron_edge_model "z"', 'end_tetrahedron_edge_model', 'begin_interface_node_model "z"', 'end_interface_node_model', 'begin_coordinates', 'end_coordinates',
         'COMMAND delete_device -device "bad"', 'COMMAND delete_device -device "keep"', 'COMMAND node_solution -device "keep" -region "r0" -name "zz"', 'COMMAND reset_devsim', 'COMMAND delete_node_model -device "bad" -region "r0" -name "u"']


def run_native(case, ctx):
    dsx.reset()
    rng = random.Random(case['seed'])
    with Work() as w:
        S = Session(case, w)
        # the device to be corrupted
        same = {g: g for g, _ in S.groups}
        el = []
        for k, t in c08.element_list(S.case, S.groups, S.rng):
            el += [len(t) - 1, k] + list(t)
        ds.create_gmsh_mesh(mesh='src', coordinates=[v for c in S.coords for v in c], physical_names=[g for g, _ in S.groups], elements=el)
        for f, kw in gm_commands(S.m, S.C, S.I, S.owner, same, 'src'):
            f(**kw)
        ds.finalize_mesh(mesh='src')
        ds.create_device(mesh='src', device='bad')
        dress('bad')
        ds.write_devices(file=w.d + '/bad.msh', device='bad', type='devsim')
        orig = open(w.d + '/bad.msh').read()
        ds.delete_device(device='bad')
        raw = case.get('raw')
        text = raw if raw is not None else mutate(orig, rng, case['times'], EXTRA + [x for x in ('"r0"', '"r1"', '"keep"', '"u"', 'u', 'end_device\nbegin_device "bad2"')])
        if case['spoil'] == 0:
            text = text + '\n' + orig.replace('"bad"', '"bad2"').replace(' bad ', ' bad2 ') if isinstance(text, str) else text
        before, meshes = sorted(ds.get_device_list()), sorted(ds.get_mesh_list())
        e = dsx.raises(ds.load_devices, file=w.write('bad.msh', text))
        if e is not None:
            need(len(e) > 3, 'no message')
            need(sorted(ds.get_device_list()) == before, 'devices after a rejected file: %s', ds.get_device_list())
            need(sorted(ds.get_mesh_list()) == meshes, 'meshes after a rejected file: %s', ds.get_mesh_list())
            ctx.count('file rejected')
        else:
            new = sorted(set(ds.get_device_list()) - set(before))
            need(new, 'file without a device accepted')
            ctx.count('accepted')
            for d in new:
                wellformed(d, 'accepted native file')
        need(case['times'] or raw is not None or e is None, 'a correct file was rejected: %s', e)
        S.check(['bad'])
        ctx.nontrivial(e is not None or (isinstance(text, str) and text.split() != orig.split()))


GT = ['$MeshFormat\n2.2 0 8\n$EndMeshFormat\n', '$PhysicalNames\n', '$EndPhysicalNames\n', '$Nodes\n', '$EndNodes\n', '$Elements\n', '$EndElements\n', '1\n', '2\n', '1 0 0 0\n', '2 1 0 0\n', '3 0 1 0\n', '4 0 0 1\n', '1 1 "a"\n', '2 2 "b"\n', '3 3 "c"\n',
      '0 4 "d"\n', '1 1 1 1 1 2\n', '1 2 1 2 1 2 3\n', '2 4 1 3 1 2 3 4\n', '3 15 1 4 1\n', '1 1 2 1 1 1 2\n', '\n', '1', ' ', '$', '"']
NT = ['begin_device "bad"\n', 'end_device\n', 'begin_coordinates\n', '0 0 0\n', '1 0 0\n', '0 1 0\n', 'end_coordinates\n', 'begin_region "r0" "Si"\n', 'end_region\n', 'begin_nodes\n', '0\n1\n2\n', 'end_nodes\n', 'begin_edges\n', '0 1\n', '1 2\n', '0 2\n', 'end_edges\n',
      'begin_triangles\n', '0 1 2\n', 'end_triangles\n', 'begin_contact "c" "r0" "m"\n', 'end_contact\n', 'begin_interface "i" "r0" "r0"\n', 'end_interface\n'] + [x + '\n' for x in EXTRA]
good_g = ['$MeshFormat\n2.2 0 8\n$EndMeshFormat\n', '$PhysicalNames\n', '1\n', '1 1 "a"\n', '$EndPhysicalNames\n', '$Nodes\n', '2\n', '1 0 0 0\n', '2 1 0 0\n', '$EndNodes\n', '$Elements\n', '1\n', '1 1 1 1 1 2\n', '$EndElements\n']
good_n = ['begin_device "bad"\n', 'begin_coordinates\n', '0 0 0\n', '1 0 0\n', '0 1 0\n', 'end_coordinates\n', 'begin_region "r0" "Si"\n', 'begin_nodes\n', '0\n1\n2\n', 'end_nodes\n', 'begin_edges\n', '0 1\n', '1 2\n', '0 2\n', 'end_edges\n', 'begin_triangles\n', '0 1 2\n', 'end_triangles\n', 'end_region\n', 'end_device\n']


@st.composite
def soup(draw):
    native = draw(st.booleans())
    pool, good = (NT, good_n) if native else (GT, good_g)
    k = draw(st.integers(0, 3))
    if k == 0:
        raw = draw(st.binary(max_size=60))
    elif k == 1:
        raw = ''.join(draw(st.lists(st.sampled_from(pool), max_size=25)))
    else:
        t = list(good)
        for _ in range(draw(st.integers(1, 4))):
            j = draw(st.integers(0, len(t)))
            o = draw(st.integers(0, 3))
            if o < 3:
                t.insert(j, draw(st.sampled_from(pool)))
            elif j < len(t):
                del t[j]
        raw = ''.join(t)
    if isinstance(raw, bytes):
        raw = raw.decode('latin-1')
    return {'base': {'dim': 1, 'n': [2], 'split': [1], 'seed': 1, 'scale': 1.0, 'jitter': 0.0, 'shift': 0.0, 'parts': 1, 'gaps': 1, 'dup': False, 'extra': 0, 'style': 1, 'plain': True, 'unnamed': False, 'share': False, 'nocontact': False, 'sub': 0},
            'seed': draw(st.integers(0, 10**6)), 'times': 1, 'spoil': 1, 'raw': raw, 'native': native}


def run_soup(case, ctx):
    case = dict(case)
    (run_native if case['native'] else run_file)(case, ctx)
    ctx.nontrivial(len(case['raw']) > 0)


def sections(L, kind):
    """(first, last+1) lines of the contents of the sections of a kind, with the line of the enclosing heading"""
    out = []
    head = 0
    for i, l in enumerate(L):
        if re.match(r'begin_(region|contact|interface) ', l):
            head = i
        if re.match(r'begin_' + kind + r'\b', l):
            j = i + 1
            while not L[j].startswith('end_'):
                j += 1
            out.append((head, i + 1, j))
    return out


def spoil_native(text, rng):
    """a change of a correct native file after which it must be rejected; (text, name) or None"""
    L = text.split('\n')
    what = rng.choice(['values', 'values', 'values', 'node', 'coordinate', 'region', 'name', 'end', 'number', 'interface', 'interface', 'element'])
    S = []
    if what == 'values':
        k = rng.choice(['node_model', 'edge_model', 'edge_model', 'triangle_edge_model', 'tetrahedron_edge_model'])
        S = [x for x in sections(L, k) if L[x[1]] == 'DATA']
        if not S:
            return None
        h, a, b = rng.choice(S)
        while not L[b - 1].strip():
            b -= 1
        what = k + ' values'
        n = rng.choice([1, 1, 2, 7, 300])
        if rng.random() < 0.6:
            L[b:b] = [rng.choice(['0.5', '-1e3', '0', L[b - 1]]) for _ in range(n)]
        else:
            del L[max(a + 1, b - n):b]
    elif what in ('node', 'element'):
        k = 'nodes' if what == 'node' else rng.choice(['edges', 'triangles', 'tetrahedra'])
        nodes = {re.split('"', L[h])[1]: b - a for h, a, b in sections(L, 'nodes') if L[h].startswith('begin_region')}
        S = [x for x in sections(L, k) if x[2] > x[1] and (L[x[0]].startswith('begin_contact') if what == 'node' else L[x[0]].startswith('begin_region'))]
        if not S:
            return None
        h, a, b = rng.choice(S)
        q = re.split('"', L[h])
        n = nodes[q[3] if what == 'node' else q[1]]
        i = rng.randrange(a, b)
        t = L[i].split()
        t[rng.randrange(len(t))] = str(rng.choice([n, n, n + 1, n + rng.randint(0, 50), 2**31, 2**32, -1]))
        L[i] = '\t'.join(t)
        what = k + ' of ' + L[h].split()[0]
    elif what == 'interface':
        nodes = {re.split('"', L[h])[1]: b - a for h, a, b in sections(L, 'nodes') if L[h].startswith('begin_region')}
        S = [x for x in sections(L, 'nodes') if L[x[0]].startswith('begin_interface') and x[2] > x[1]]
        if not S:
            return None
        h, a, b = rng.choice(S)
        q = re.split('"', L[h])
        i = rng.randrange(a, b)
        t = L[i].split()
        k = rng.randrange(2)
        n, o = nodes[q[3 + 2 * k]], nodes[q[5 - 2 * k]]
        t[k] = str(rng.choice([n, n + 1, max(n, o - 1), max(n, o - 1), n + 100, 2**32]))
        L[i] = '\t'.join(t)
        what = 'interface nodes'
    elif what == 'coordinate':
        S = [x for x in sections(L, 'nodes') if L[x[0]].startswith('begin_region')]
        h, a, b = rng.choice(S)
        n = [x[2] - x[1] for x in sections(L, 'coordinates')][0]
        L[rng.randrange(a, b)] = str(rng.choice([n, n + 1, 10**6, 2**32, 2**62]))
    elif what == 'region':
        S = [i for i, l in enumerate(L) if re.match('begin_(contact|interface) ', l)]
        if not S:
            return None
        i = rng.choice(S)
        q = L[i].split('"')
        q[3] = rng.choice([q[3] + 'x', 'bad', q[1]])
        if q[3] in [l.split('"')[1] for l in L if l.startswith('begin_region')]:
            return None
        L[i] = '"'.join(q)
    elif what == 'name':
        heads = [i for i, l in enumerate(L) if re.match('begin_(region|contact|interface) ', l)]
        i = rng.choice(heads)
        j = i
        while L[j] != 'end_' + L[i].split()[0][6:]:
            j += 1
        L[j + 1:j + 1] = L[i:j + 1]
        what = 'repeated ' + L[i].split()[0]
    elif what == 'end':
        i = rng.choice([i for i, l in enumerate(L) if l.startswith('end_') ])
        if rng.random() < 0.5:
            del L[i:]
        else:
            del L[i]
            if not any(l.strip() for l in L[i:]):
                pass
    elif what == 'number':
        S = [i for h, a, b in sections(L, 'coordinates') for i in range(a, b)]
        i = rng.choice(S)
        t = L[i].split()
        o = rng.randrange(3)
        if o == 0:
            t[rng.randrange(3)] = rng.choice(['abc', '', '1e400', '-1e999', '"1"', '1,5'])
        elif o == 1:
            t = t[:2]
            if i + 1 < len(L) and not L[i + 1].startswith('end'):
                pass
        else:
            t.append('0.0')
        L[i] = '\t'.join(t)
    return '\n'.join(L), what


def spoil_gmsh(text, rng):
    L = text.split('\n')
    def block(name):
        a, b = L.index('$' + name), L.index('$End' + name)
        return a + 2, b
    what = rng.choice(['node of element', 'node of element', 'node missing', 'word', 'end', 'short element', 'type'])
    a, b = block('Elements')
    i = rng.randrange(a, b)
    t = L[i].split()
    if what == 'node of element':
        na, nb = block('Nodes')
        ids = {int(l.split()[0]) for l in L[na:nb]}
        v = rng.choice([max(ids) + 1, max(ids) + 1000, 10**6, 2**32 + 1])
        t[-1 - rng.randrange({'15': 1, '1': 2, '2': 3, '4': 4}[t[1]])] = str(v)
        if v in ids:
            return None
        L[i] = ' '.join(t)
    elif what == 'node missing':
        na, nb = block('Nodes')
        used = {v for l in L[a:b] for v in l.split()[-{'15': 1, '1': 2, '2': 3, '4': 4}[l.split()[1]]:]}
        c = [j for j in range(na, nb) if L[j].split()[0] in used]
        del L[rng.choice(c)]
    elif what == 'word':
        t[rng.randrange(len(t))] = rng.choice(['x', '"a"', '1.5.2', '#'])
        L[i] = ' '.join(t)
    elif what == 'end':
        j = L.index('$End' + rng.choice(['Nodes', 'Elements']))
        del L[j:]
    elif what == 'short element':
        L[i] = ' '.join(t[:-1])
        if i + 1 == b:
            pass
    else:
        t[1] = rng.choice(['0', '3', '5', '99', '-1', '4294967298'])
        L[i] = ' '.join(t)
    return '\n'.join(L), what


def run_definite(case, ctx):
    """one change that makes a file invalid: reading it must fail"""
    dsx.reset()
    rng = random.Random(case['seed'])
    with Work() as w:
        S = Session(case, w)
        if case['native']:
            same = {g: g for g, _ in S.groups}
            el = []
            for k, t in c08.element_list(S.case, S.groups, S.rng):
                el += [len(t) - 1, k] + list(t)
            ds.create_gmsh_mesh(mesh='src', coordinates=[v for c in S.coords for v in c], physical_names=[g for g, _ in S.groups], elements=el)
            for f, kw in gm_commands(S.m, S.C, S.I, S.owner, same, 'src'):
                f(**kw)
            ds.finalize_mesh(mesh='src')
            ds.create_device(mesh='src', device='bad')
            dress('bad')
            ds.write_devices(file=w.d + '/bad.msh', device='bad', type='devsim')
            r = spoil_native(open(w.d + '/bad.msh').read(), rng)
            ds.delete_device(device='bad')
        else:
            r = spoil_gmsh(S.text.replace('\r\n', '\n'), rng)
        if r is None:
            return
        text, what = r
        if os.environ.get("DBG"): print("WHAT", what)
        before, meshes = sorted(ds.get_device_list()), sorted(ds.get_mesh_list())
        if case['native']:
            e = dsx.raises(ds.load_devices, file=w.write('bad.msh', text))
        else:
            e = dsx.raises(ds.create_gmsh_mesh, mesh='bad', file=w.write('bad.msh', text))
            if e is None:
                for f, kw in gm_commands(S.m, S.C, S.I, S.owner, S.name, 'bad') + [(ds.finalize_mesh, dict(mesh='bad')), (ds.create_device, dict(mesh='bad', device='bad'))]:
                    e = dsx.raises(f, **kw)
                    if e is not None:
                        break
                meshes = sorted(ds.get_mesh_list())
        need(e is not None, 'an invalid file is accepted: %s', what)
        need(len(e) > 3, 'no message')
        need(sorted(ds.get_device_list()) == before, 'devices after a rejected file: %s', ds.get_device_list())
        need(sorted(ds.get_mesh_list()) == meshes, 'meshes after a rejected file')
        S.check(['bad'])
        ctx.count(what)
        ctx.nontrivial(True)


SUITES = [Suite('definite', st.fixed_dictionaries({**common, 'native': st.booleans()}), run_definite, quick=1200, thorough=60000),
          Suite('gmsh_file', st.fixed_dictionaries(common), run_file, quick=1500, thorough=60000),
          Suite('gmsh_list', st.fixed_dictionaries(common), run_list, quick=1500, thorough=60000),
          Suite('native_file', st.fixed_dictionaries(common), run_native, quick=1500, thorough=60000),
          Suite('soup', soup(), run_soup, quick=1500, thorough=60000)]
