"""C22: sessions built, solved, disturbed with generated calls, then reset or taken apart with delete commands; the next session has to be the same as in a fresh process. Deleting some of the devices leaves the state there would be if they had never been."""
from hypothesis import strategies as st
import atexit, gc, os, pickle, random, shutil, signal, struct, tempfile, weakref
from harness import Suite, need, Violation
import dsx, meshgen
from dsx import ds
import c21

PROPERTY = 'C22'
RULE = ('A case is a history of one to three sessions (1D, 2D, 3D device out of a set, meshes, circuit, models, equations of all kinds, extended precision settings; generated calls of every command, valid and invalid; registered functions, custom equations, dc, ac, noise and transient solves), each ended by '
        'reset_devsim or by deleting every device, mesh and the circuit in a drawn order, and then a session of the same kind. Oracle: the transcript of the last session (results of calls, a snapshot of every list, value, parameter, material, equation command and number, the assembled matrix, devices made from its meshes, a dc '
        'solve and transient steps) is identical to the transcript of the same session in a fresh process forked before the first command. Deleting one or two of three devices after solving gives the same snapshot, matrix and solve as a session in which they were never made, after the solution variables are given the same values. '
        'Objects passed to the simulator are released by a reset. Non-trivial: the history has a solve or at least three successful calls.')
ASSUMPTIONS = ['global parameters, registered functions and custom equations are not objects of a device and outlive delete commands', 'after the deletion of a device the others keep the solution they had; it is set to common values before the comparison because a joint solve ties their rounding together']


class Zygote:
    """A process forked before the first command; it forks a child for each session and returns the transcript."""
    pid = None

    def start(self):
        self.r, w2 = os.pipe()
        r2, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r), os.close(self.w)
            try:
                self.serve(r2, w2)
            finally:
                os._exit(0)
        os.close(r2), os.close(w2)

    @staticmethod
    def get(fd):
        def all(n):
            b = b''
            while len(b) < n:
                x = os.read(fd, n - len(b))
                if not x:
                    raise EOFError
                b += x
            return b
        n, = struct.unpack('<Q', all(8))
        return pickle.loads(all(n))

    @staticmethod
    def put(fd, x):
        b = pickle.dumps(x)
        b = struct.pack('<Q', len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, r, w):
        while True:
            try:
                name, arg = self.get(r)
            except EOFError:
                return
            d = tempfile.mkdtemp(prefix='c22_')
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(cr)
                signal.alarm(100)
                os.chdir(d)
                try:
                    x = globals()[name](arg)
                except BaseException as e:
                    x = 'FRESH %s: %s' % (type(e).__name__, str(e)[:1500])
                self.put(cw, x)
                os._exit(0)
            os.close(cw)
            try:
                x = self.get(cr)
            except EOFError:
                x = 'FRESH process ended'
            os.close(cr)
            os.waitpid(pid, 0)
            shutil.rmtree(d, ignore_errors=True)
            self.put(w, x)

    def ask(self, name, arg):
        if self.pid is None:
            raise RuntimeError('not started')
        self.put(self.w, (name, arg))
        x = self.get(self.r)
        if isinstance(x, str) and x.startswith('FRESH'):
            raise RuntimeError(x)
        return x


Z = Zygote()


def plain(r):
    """A comparable form of a result."""
    if isinstance(r, dict):
        return sorted((k, plain(v)) for k, v in r.items())
    if isinstance(r, (list, tuple)):
        if r and isinstance(r[0], str):
            return sorted(r)
        return [plain(x) for x in r]
    if type(r).__name__ == 'array':
        return r.tobytes()
    return repr(r)


class Proc:
    def __init__(self, k):
        self.k = k

    def __call__(self, *a):
        return self.k * sum(a)


class Rows:
    def __init__(self, k):
        self.k = k

    def __call__(self, what, timemode):
        return [0, 0, self.k], [0, self.k], True


def extras(s, out):
    """Things the templates of C21 do not have."""
    R = random.Random(s['seed'] ^ 0x5a5a)
    for x in s['extra']:
        if x in ('function', 'custom', 'symbol') and s['calm']:
            continue
        if x == 'symbol':
            # functions of the expression engine; what was declared before the reset is unknown after it
            f = R.choice(['zf', 'zg', 'zh'])
            w = R.sample(['%s(2*q)' % f, 'diff(%s(q^2),q)' % f, 'declare(%s(q))' % f, 'define(%s(q),%s)' % (f, R.choice(['2*q', 'sin(q)'])), 'diff(%s(q),q)' % f, 'simplify(%s(q)+%s(q))' % (f, f)], 4)
            for e in w:
                ok, r = c21.call(dict(cmd='symdiff', kw=dict(expr=e)))
                out.append(('symdiff', ok, r if ok else None))
            continue
        if x == 'function':
            k = R.choice([2.0, 3.0, 0.5])
            out.append(dsx.raises(ds.register_function, name='fun', procedure=Proc(k), nargs=1) is None)
            for d in s['devices']:
                out.append(dsx.raises(ds.node_model, device=d, region='r0', name='withfun', equation='fun(x)+1') is None)
        elif x == 'custom':
            out.append(dsx.raises(ds.custom_equation, name='cust', procedure=Rows(R.choice([1.0, 2.0]))) is None)
        elif x == 'ac':
            out.append(dsx.raises(ds.solve, type='ac', frequency=R.choice([1.0, 1e3])) is None)
        elif x == 'noise':
            out.append(dsx.raises(ds.solve, type='noise', output_node='n1', frequency=2.0) is None)
        elif x == 'tran':
            out.append(dsx.raises(ds.solve, type='transient_dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=2) is None)
            for y in range(R.randrange(3)):
                out.append(dsx.raises(ds.solve, type=R.choice(['transient_bdf1', 'transient_tr', 'transient_bdf2']), absolute_error=1e30, relative_error=1e30, charge_error=1e30, maximum_iterations=2, tdelta=1e-3) is None)
        elif x == 'step':
            # may need what an earlier solve left
            out.append(('step', dsx.raises(ds.solve, type=R.choice(['transient_bdf1', 'transient_tr', 'transient_bdf2']), absolute_error=1e30, relative_error=1e30, charge_error=1e30, maximum_iterations=2, tdelta=1e-3) is None))
        elif x == 'save':
            out.append(dsx.raises(ds.write_devices, file='saved', type='devsim') is None)
        elif x == 'load':
            out.append(dsx.raises(ds.load_devices, file='good.msh') is None)
            out.append(snap(c21.see(ds.get_device_list)))
        elif x == 'newparam':
            for w in [dict()] if not s['calm'] else []:
                ds.set_parameter(name='extra%d' % R.randrange(3), value=R.random(), **w)
            for d in sorted(ds.get_device_list()):
                ds.set_parameter(device=d, name='extra%d' % R.randrange(3), value=R.random())
                dsx.raises(ds.set_parameter, device=d, region='r1', name='extra%d' % R.randrange(3), value='text')


def snap(x):
    return x


GLOBAL = {'register_function', 'custom_equation'}


def calls(s):
    for c in c21.program(dict(seed=s['seed'], n=s['n'], drop=[], solved=0, first=s['first'])):
        if s['calm'] and (c['cmd'] in GLOBAL or c['cmd'] == 'set_parameter' and 'device' not in c['kw'] or c['cmd'] == 'reset_devsim'):
            continue
        yield c


def session(s):
    """The transcript of one session; nothing is reset first."""
    for k in s['pre']:
        ds.set_parameter(name=k, value=True)
    c21.world(s['solved'], s['devices'], clean=False)
    out = [c21.snapshot()]
    extras(dict(s, extra=s['extra'][:s['n'] % 3]), out)
    for c in calls(s):
        ok, r = c21.call(c)
        out.append((c['cmd'], ok, plain(r) if ok and not (c['cmd'] == 'get_parameter' and c['kw'].get('name') not in ('g', 'pr')) else None))
    extras(dict(s, extra=s['extra'][s['n'] % 3:]), out)
    out.append(c21.snapshot())
    if s['end']:
        out += c21.ending([])
        extras(dict(s, extra=['tran', 'step']), out)
        out.append(c21.snapshot())
    return out


def compare(a, b, what):
    need(len(a) == len(b), '%s: transcripts of different length', what)
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, dict):
            e = c21.diff(y, x)
            need(e is None, '%s: at step %d %s', what, i, e)
        else:
            need(x == y, '%s: step %d gives %.300r instead of %.300r', what, i, x, y)


def info():
    r = ds.get_parameter(name='info')
    return plain(r)


def fresh_info(_):
    return info(), plain(sorted(ds.get_parameter_list())), [plain(ds.get_parameter(name=n)) for n in sorted(ds.get_parameter_list())]


def tidy(seed):
    """Everything deleted, in an order of its own."""
    R = random.Random(seed)
    todo = [('delete_device', d) for d in ds.get_device_list()] + [('delete_mesh', m) for m in ds.get_mesh_list()] + [('delete_circuit', None)]
    R.shuffle(todo)
    for c, n in todo:
        if c == 'delete_device':
            ds.delete_device(device=n)
            need(n not in ds.get_device_list(), 'device %s is listed after its deletion', n)
        elif c == 'delete_mesh':
            ds.delete_mesh(mesh=n)
            need(n not in ds.get_mesh_list(), 'mesh %s is listed after its deletion', n)
        else:
            ds.delete_circuit()
    need(not list(ds.get_device_list()) and not list(ds.get_mesh_list()), 'something is left')


@c21.within
def again(case, ctx):
    ds.reset_devsim()
    ok = 0
    for s in case['history']:
        out = session(dict(s, calm=case['how'] == 'delete', pre=case['last']['pre'] if case['how'] == 'delete' else s['pre']))
        ok += bool(s['solved'] or s['end']) + sum(1 for x in out if isinstance(x, tuple) and x[1]) / 3
        if case['how'] == 'delete':
            tidy(s['seed'])
        else:
            ds.reset_devsim()
    last = dict(case['last'], calm=case['how'] == 'delete')
    if case['how'] == 'reset':
        need(fresh_info(0) == Z.ask('fresh_info', 0), 'parameters after a reset %.900r', fresh_info(0))
    a = session(last)
    b = Z.ask('session', last)
    if case['how'] == 'delete' and case['last']['pre']:
        pass
    compare(a, b, 'session after ' + case['how'])
    for x in a:
        if isinstance(x, tuple):
            ctx.count('%s %s' % (x[0], x[1]))
    ctx.nontrivial(ok >= 1)
    ctx.count(case['how'])
    ds.reset_devsim()


def settle():
    for d in ds.get_device_list():
        for r in ds.get_region_list(device=d):
            for v in ds.get_node_model_list(device=d, region=r):
                if v in ('u', 'v') or v.endswith(('_prev', '_Real', '_Imag')):
                    ds.set_node_values(device=d, region=r, name=v, init_from='x')
    for i, n in enumerate(sorted(ds.get_circuit_node_list())):
        for s in ds.get_circuit_solution_list():
            ds.set_circuit_node_value(node=n, solution=s, value=0.25 * i)


def rest(case):
    """What is left of the session after the devices in question are gone."""
    out = []
    settle()
    out.append(dsx.raises(ds.get_matrix_and_rhs) is None)      # numbers the equations
    out.append(c21.snapshot())
    out += c21.ending([])
    for x in out[:-1]:
        # currents at contacts are those of the last solve, which was a joint one
        for k in x if isinstance(x, dict) else ():
            if k[0] == 'ceq':
                x[k] = x[k][0]
    settle()
    extras(dict(case, devices=case['keep'], calm=False, extra=case['extra']), out)
    out.append(c21.snapshot())
    return out


def without(case):
    c21.world(case['solved'], case['keep'], clean=False)
    return rest(case)


@c21.within
def part(case, ctx):
    ds.reset_devsim()
    c21.world(case['solved'], ('d1', 'd2', 'd3'), clean=False)
    gone = [d for d in ('d1', 'd2', 'd3') if d not in case['keep']]
    R = random.Random(case['seed'])
    out = []
    for c in calls(dict(case, calm=True)):
        if c['kw'].get('device') in gone and c['cmd'] not in ('solve', 'write_devices', 'load_devices') and 'mesh' not in c['kw']:
            ok, _ = c21.call(c)
            ctx.count('%s %s' % (c['cmd'], ok))
    if case['resolve']:
        dsx.raises(ds.solve, type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
    before = c21.snapshot()
    todo = [('delete_device', d) for d in gone if d in ds.get_device_list()] + [('delete_mesh', 'm' + d[1]) for d in gone]
    R.shuffle(todo)
    for c, n in todo:
        getattr(ds, c)(**{c[7:]: n})
    after = c21.snapshot()
    for k in before:
        # what is not the removed objects' own stays as it is
        if any(x in k if isinstance(k, tuple) else False for x in gone):
            need(k not in after, '%s is still there', k)
        elif k in ('devices', 'meshes'):
            need([x for x in before[k] if x not in gone and x not in ['m' + d[1] for d in gone]] == after[k], '%s: %r after deleting %r', k, after[k], gone)
        else:
            need(k in after and before[k] == after[k], '%s changed by deleting %r: %.200r -> %.200r', k, gone, before[k], after.get(k))
    a = rest(case)
    b = Z.ask('without', case)
    compare(a, b, 'after deleting %s' % ', '.join(gone))
    ctx.nontrivial(True)
    ds.reset_devsim()


@c21.within
def release(case, ctx):
    """Objects of the caller are let go."""
    ds.reset_devsim()
    refs = []

    def obj(k):
        o = Rows(k) if k > 4 else Proc(k)
        refs.append(weakref.ref(o))
        return o
    ds.set_parameter(name='dummy', value=obj(1))
    c21.world(0, case['devices'], clean=False)
    R = random.Random(case['seed'])
    for i in range(case['n']):
        op = R.choice(['param', 'dev', 'reg', 'fun', 'cust', 'use', 'bad'])
        d = R.choice(case['devices'])
        if op == 'param':
            ds.set_parameter(name='o%d' % R.randrange(3), value=obj(1))
        elif op == 'dev':
            ds.set_parameter(device=d, name='o%d' % R.randrange(3), value=obj(1))
        elif op == 'reg':
            ds.set_parameter(device=d, region='r0', name='o%d' % R.randrange(3), value=obj(1))
        elif op == 'fun':
            dsx.raises(ds.register_function, name='fun%d' % R.randrange(3), procedure=obj(2), nargs=1)
        elif op == 'cust':
            dsx.raises(ds.custom_equation, name='cust%d' % R.randrange(3), procedure=obj(5))
        elif op == 'use':
            dsx.raises(ds.node_model, device=d, region='r0', name='w', equation='fun0(x)+fun1(x)')
            dsx.raises(ds.get_node_model_values, device=d, region='r0', name='w')
            dsx.raises(ds.get_matrix_and_rhs)
        else:
            dsx.raises(ds.node_solution, device=d, region='r0', name=obj(1), other=obj(1))
            dsx.raises(ds.set_node_values, device=d, region='r0', name='u', values=[obj(1)] * 3)
            dsx.raises(ds.set_node_value, device=d, region='r0', name='u', value=obj(1))
    ds.reset_devsim()
    gc.collect()
    left = sum(r() is not None for r in refs)
    need(not left, '%d of %d objects are still held after a reset', left, len(refs))
    ctx.nontrivial(len(refs) > 2)


PRE = ['extended_solver', 'extended_model', 'extended_equation']


@st.composite
def one(draw):
    return dict(seed=draw(st.integers(0, 2**40)), n=draw(st.integers(0, 8)), first=draw(st.integers(0, len(c21.T) - 1)), solved=draw(st.sampled_from([0, 1, 2])), devices=draw(st.sampled_from([('d1',), ('d2',), ('d1', 'd2'), ('d1', 'd2', 'd3'), ()])),
                pre=draw(st.lists(st.sampled_from(PRE), max_size=2, unique=True)) if draw(st.integers(0, 3)) == 0 else [], extra=draw(st.lists(st.sampled_from(['function', 'custom', 'symbol', 'ac', 'noise', 'tran', 'step', 'save', 'load', 'newparam']), max_size=4)), end=draw(st.booleans()))


@st.composite
def again_strat(draw):
    return dict(how=draw(st.sampled_from(['reset', 'delete'])), history=draw(st.lists(one(), min_size=1, max_size=3)), last=draw(one()))


@st.composite
def part_strat(draw):
    return dict(draw(one()), keep=draw(st.sampled_from([('d1',), ('d2',), ('d3',), ('d1', 'd2'), ('d1', 'd3'), ('d2', 'd3')])), solved=draw(st.sampled_from([1, 2])), resolve=draw(st.booleans()), extra=draw(st.lists(st.sampled_from(['ac', 'noise', 'tran', 'save', 'load', 'newparam']), max_size=3)))


@st.composite
def release_strat(draw):
    return dict(seed=draw(st.integers(0, 2**40)), n=draw(st.integers(1, 12)), devices=draw(st.sampled_from([('d1',), ('d1', 'd2')])))


SUITES = [Suite('again', again_strat(), again, quick=500, thorough=8000, hang=120), Suite('part', part_strat(), part, quick=240, thorough=4000, hang=120), Suite('release', release_strat(), release, quick=80, thorough=1000, hang=60)]

Z.start()
