"""C25: the bundled Python packages on generated devices, parameters and solver failures, against their formulas written out independently (mpmath), chain rules, an independent finite-volume assembly and a model of the bias ramp."""
from hypothesis import strategies as st
import contextlib, io, math, random, types
import mpmath as mp
import numpy as np
import devsim
from harness import Suite, need, Violation
import dsx
from dsx import ds
from c17 import dense
from meshgen import grid_mesh, line_mesh, make_device
from devsim.python_packages import ramp, simple_physics as sp, simple_dd, model_create as mc, mos_physics as mos, Klaassen as kl

PROPERTY = 'C25'
RULE = ('ramp: rampbias with a recorder in place of parameters and solver runs a generated pattern of solver failures (per bias interval, per call, convergence or other, callback errors), steps, minimum steps and biases; every attempt, parameter, callback and the ending equal a model of the documented procedure. '
        'real: rampbias on a diode or conductor ends exactly at the bias, with the state of a reference Newton solution and Kirchhoff-consistent contact currents. '
        'dd: simple_physics and simple_dd on 1D-3D devices with random parameters and random fields: every documented node and edge model and every derivative equals the formula evaluated with 50 digits (derivatives by differences), and the static and dynamic matrix and residual including contacts (biases, circuit nodes) and interfaces equal an independent finite-volume assembly. '
        'klaassen: the Philips unified mobility and its derivatives with perturbed parameters equals the published formulas. '
        'surface: the element models of mos_physics and Klaassen follow from their inputs, and their derivatives by the chain rule from those of the inputs. '
        'helpers: contracts of the model creation helpers. Non-trivial: at least one failed step and one accepted one (ramp), values and derivatives compared on a device with nonzero fields (others).')
ASSUMPTIONS = ['constants of the packages are those written in them (q, k, permittivities, mobilities, lifetimes, the Klaassen and Lucent tables)',
               'Eparallel and ElectricField_mag deliberately carry derivatives with respect to Potential only: missing derivatives count as zero in the chain rule',
               'elements at the corner of a max() and cases where the effective doping of the mobility model is cancelled out are not judged',
               'fermi_physics.py contains no code; pythonmesh is decided by C08']

mp.mp.dps = 50
M = mp.mpf


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def near(a, b, scale, tol):
    return abs(M(a) - M(b)) <= tol * (abs(M(b)) + scale)


# ---------------------------------------------------------------- ramp
class Fake:
    """Stands in for the solver: keeps parameters, decides which solves fail."""
    def __init__(s, start, fails, other, cbfail):
        s.p = {'c_bias': start}
        s.log = []
        s.n = s.cb = 0
        s.fails, s.other, s.cbfail = fails, other, cbfail
        s.kw = None

    def get_parameter(s, device=None, region=None, name=None):
        need(device == 'dev' and region is None, 'parameter %r asked for device %r region %r', name, device, region)
        if name not in s.p:
            raise devsim.error('no parameter')
        return s.p[name]

    def set_parameter(s, device=None, region=None, name=None, value=None):
        need(device == 'dev' and region is None and name == 'c_bias', 'parameter %r of device %r region %r set', name, device, region)
        s.p[name] = value

    def solve(s, **kw):
        b = s.p['c_bias']
        k = s.n
        s.n += 1
        need(s.n < 20000, 'the ramp does not end: at %r', b)
        need(s.kw is None or s.kw == kw, 'solve called with %r then %r', s.kw, kw)
        s.kw = kw
        if k in s.other:
            s.log.append((b, 'other'))
            raise devsim.error(s.other[k])
        if any(lo <= b <= hi and k < lim for lo, hi, lim in s.fails):
            s.log.append((b, 'fail'))
            raise devsim.error('Convergence failure!')
        s.log.append((b, 'ok'))

    def callback(s, device):
        need(device == 'dev', 'callback called with %r', device)
        need(s.log and s.log[-1][1] == 'ok', 'callback without an accepted step: %r', s.log[-1:])
        s.log.append((s.p['c_bias'], 'cb'))
        s.cb += 1
        if s.cb - 1 == s.cbfail:
            raise KeyError('callback')


@contextlib.contextmanager
def replaced(fake):
    """Names of ramp.py that lead to the simulator lead to the stand-in."""
    g = vars(ramp)
    old = dict(g)
    f = types.SimpleNamespace(error=devsim.error)
    for k in ('get_parameter', 'set_parameter', 'solve'):
        setattr(f, k, getattr(fake, k))
    for k, v in old.items():
        if v is devsim:
            g[k] = f
        else:
            for n in ('get_parameter', 'set_parameter', 'solve'):
                if v is getattr(devsim, n):
                    g[k] = getattr(f, n)
    try:
        yield
    finally:
        for k, v in old.items():
            g[k] = v


BIAS = st.one_of(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.7, 1.0, -1.0, 2.5, -0.35, 1e-4, 10.0]), st.floats(-3, 3).map(lambda x: round(x, 3)), st.floats(-100, 100))
STEP = st.one_of(st.sampled_from([0.1, 0.05, 0.25, 0.01, 1.0, 0.3, -0.1, 10.0]), st.floats(0.02, 5))


@st.composite
def rstrat(draw):
    a = draw(BIAS)
    b = draw(st.one_of(BIAS, BIAS, st.sampled_from([a, a + 1e-6, a - 1e-4, math.nextafter(a, 9e9), a + 0.3])))
    step = draw(STEP)
    if abs(b - a) / abs(step) > 300:
        step = abs(b - a) / draw(st.floats(1, 300))
    if draw(st.integers(0, 30)) == 0:
        step = 0.0
    mn = draw(st.one_of(st.sampled_from([1e-3, 0.01, 1e-6, abs(step) / 4, abs(step), abs(step) / 2, 2 * abs(step), 1e-10, 0.0]), st.floats(1e-4, 0.5)))
    fails = []
    for _ in range(draw(st.integers(0, 3))):
        lo = draw(st.floats(min(a, b), max(a, b))) if a != b else a
        w = draw(st.sampled_from([0.0, abs(step) / 10, abs(step), abs(b - a)]))
        fails.append([lo, lo + w, draw(st.sampled_from([1, 2, 3, 5, 8, 12, 40, 10**9]))])
    for _ in range(draw(st.integers(0, 2))):        # failures by call number
        fails.append([-1e30, 1e30, draw(st.integers(0, 6))])
    most = max(0, int(math.log2(9000 / max(abs(b - a) / abs(step), 1)))) if step else 0     # calls stay countable
    fails = [[lo, hi, n if n >= 10**9 and hi > lo and abs(step) / 16 < hi - lo else min(n, most)] for lo, hi, n in fails]
    other = {}
    if draw(st.integers(0, 3)) == 0:
        other[draw(st.integers(0, 6))] = draw(st.sampled_from(['out of memory', 'no Convergence failure', 'matrix is singular', '']))
    return dict(a=a, b=b, step=step, min=mn, fails=fails, other=sorted(other.items()), cb=draw(st.sampled_from([-1, -1, -1, -1, 0, 2])),
                it=draw(st.integers(1, 50)), rel=draw(st.sampled_from([1e-5, 1e-10])), abs=draw(st.sampled_from([1e-5, 1e10])))


def run_ramp(case, ctx):
    F = Fake(case['a'], case['fails'], dict(case['other']), case['cb'])
    end = None
    with quiet(), replaced(F):
        try:
            ramp.rampbias('dev', 'c', case['b'], case['step'], case['min'], case['it'], case['rel'], case['abs'], F.callback)
        except Violation:
            raise
        except KeyError as x:
            end = 'cb'
        except devsim.error as x:
            end = 'other'
            text = str(x)
        except RuntimeError as x:
            end = 'min'
    a, b, s = case['a'], case['b'], abs(case['step'])
    if F.kw is not None:
        kw = F.kw
        need(kw.get('type') == 'dc' and kw.get('absolute_error') == case['abs'] and kw.get('relative_error') == case['rel'] and kw.get('maximum_iterations') == case['it'], 'solve called with %r for %r', kw, case)
    # the documented procedure
    last, stopped = a, None
    log = list(F.log)
    i = 0
    acc = 0
    nf = 0
    sgn = 1 if a < b else -1
    req = s
    while i < len(log):
        bias, what = log[i]
        need(stopped is None, 'attempt %r after the ramp had to end (%s)', log[i:i + 2], stopped)
        need(what in ('ok', 'fail', 'other'), 'unexpected %r', log[i])
        ulp = 4 * max(math.ulp(last), math.ulp(bias))
        need(abs(bias - last) <= s * (1 + 1e-9) + ulp, 'step from %r to %r exceeds %r (requested %r)', last, bias, s, req)
        need((bias - last) * sgn > 0 or bias == b, 'step from %r to %r on the way to %r', last, bias, b)
        need((b - bias) * sgn >= 0, 'bias %r beyond %r', bias, b)
        want = last + sgn * s
        ok = abs(bias - want) <= 1e-9 * s + ulp
        if (b - want) * sgn <= 1e-6 * s:
            ok = ok and (b - want) * sgn > 0 or bias == b
        need(ok, 'attempt at %r from %r with step %r to %r', bias, last, s, b)
        if what == 'ok':
            need(i + 1 < len(log) and log[i + 1] == (bias, 'cb'), 'accepted step %r not followed by the callback: %r', bias, log[i:i + 3])
            last = bias
            acc += 1
            if case['cb'] == acc - 1:
                stopped = 'cb'
            i += 2
        elif what == 'fail':
            nf += 1
            s *= 0.5
            if s < case['min']:
                stopped = 'min'
            i += 1
        else:
            stopped = 'other'
            i += 1
    if stopped is None and last != b:
        # nothing else may end the ramp, except that steps cannot get smaller
        need(end == 'min' and (last + sgn * s == last or s <= 4 * math.ulp(last)), 'the ramp to %r ended at %r with %r, step %r, minimum %r', b, last, end, s, case['min'])
    else:
        need(end == stopped, 'the ramp ended with %r, the procedure with %r at %r (to %r), step %r, minimum %r, last calls %r', end, stopped, last, b, s, case['min'], log[-3:])
    if end is None or end == 'min':
        need(F.p['c_bias'] == last, 'the bias is left at %r, the last accepted is %r', F.p['c_bias'], last)
    if end == 'other':
        need(text == dict(case['other'])[F.n - 1], 'error %r became %r', dict(case['other'])[F.n - 1], text)
    ctx.count('end_%s' % end)
    ctx.nontrivial(nf > 0 and acc > 0)


# ---------------------------------------------------------------- devices
class Dev:
    """A device with one parameter set per region and random fields; formulas are evaluated from what was set."""
    def __init__(s, case, R):
        dim = case['dim']
        k = case['regions']
        if dim == 1:
            n = R.randint(2 + k, 7 + k)
            xs = np.cumsum([R.uniform(0.2, 2) for _ in range(n)]) * case['size']
            mesh = line_mesh([float(x) for x in xs], split=sorted(R.sample(range(1, n - 1), k - 1)))
        else:
            c = [R.randint(max(2, k), 3)] + [R.randint(1, 2) for _ in range(dim - 1)]
            mesh = grid_mesh(dim, c, R.getrandbits(30), split=list(range(1, k)), scale=tuple(case['size'] * R.uniform(0.5, 2) for _ in range(3)), jitter=0.15)
        make_device(ds, mesh, 'd')
        s.dim, s.nr = dim, k
        s.regions = ['r%d' % i for i in range(k)]
        s.R = R

    def w(s, r):
        return dict(device='d', region=r)

    def nv(s, r, m):
        return ds.get_node_model_values(name=m, **s.w(r))

    def ev(s, r, m):
        return ds.get_edge_model_values(name=m, **s.w(r))

    def has(s, r, m, kind='node'):
        return m in getattr(ds, 'get_%s_model_list' % kind)(**s.w(r))

    def edges(s, r):
        """(node 0, node 1) of the edges, in order."""
        n = 'node_index@n0', 'node_index@n1'
        if not s.has(r, n[0], 'edge'):
            ds.edge_from_node_model(node_model='node_index', **s.w(r))
        return [(int(a), int(b)) for a, b in zip(s.ev(r, n[0]), s.ev(r, n[1]))]

    def setv(s, r, name, values):
        if not s.has(r, name):
            mc.CreateSolution('d', r, name)
        ds.set_node_values(name=name, values=values, **s.w(r))
        back = s.nv(r, name)
        need([float(x) for x in back] == [float(x) for x in values], '%s set to %r reads %r', name, values[:4], list(back)[:4])


def logu(R, lo, hi):
    return 10 ** R.uniform(lo, hi)


def deriv(f, args, i):
    """df/d args[i] by central differences with 50 digits."""
    x = args[i]
    h = mp.mpf(10) ** -17 * max(abs(x), mp.mpf(10) ** -3)
    a, b = list(args), list(args)
    a[i], b[i] = x + h, x - h
    return (f(*a) - f(*b)) / (2 * h)


def bern(x):
    return M(1) - x / 2 if abs(x) < mp.mpf(10) ** -25 else x / mp.expm1(x)


LIT = dict(q=1.6e-19, k=1.3806503e-23, eps0=8.85e-14, si=11.1, ox=3.9, ni=1e10, mun=400, mup=200, tau=1e-5)


class Physics:
    """Parameters of one region and the formulas."""
    def __init__(s, D, r, kind, R, vary):
        s.D, s.r, s.kind = D, r, kind
        T = R.choice([300, R.uniform(100, 500)])
        s.T = T
        W = D.w(r)
        if kind == 'ox':
            sp.SetOxideParameters('d', r, T)
            want = dict(Permittivity=LIT['ox'] * LIT['eps0'], ElectronCharge=LIT['q'])
        else:
            sp.SetSiliconParameters('d', r, T)
            want = dict(Permittivity=LIT['si'] * LIT['eps0'], ElectronCharge=LIT['q'], n_i=LIT['ni'], T=T, kT=LIT['k'] * T, V_t=LIT['k'] * T / LIT['q'],
                        mu_n=LIT['mun'], mu_p=LIT['mup'], n1=LIT['ni'], p1=LIT['ni'], taun=LIT['tau'], taup=LIT['tau'])
        for k, v in want.items():
            g = ds.get_parameter(name=k, **W)
            need(abs(g - v) <= 1e-12 * abs(v), 'parameter %s of a %s region at %r K is %r, documented %r', k, kind, T, g, v)
        if vary:
            for k in want:
                if k not in ('T', 'kT') and R.random() < 0.7:
                    v = {'n_i': logu(R, 4, 13), 'n1': logu(R, 4, 13), 'p1': logu(R, 4, 13), 'taun': logu(R, -9, -3), 'taup': logu(R, -9, -3), 'mu_n': R.uniform(10, 1500), 'mu_p': R.uniform(10, 500)}.get(k, want[k] * R.uniform(0.5, 2))
                    ds.set_parameter(name=k, value=v, **W)
        s.p = {k: M(ds.get_parameter(name=k, **W)) for k in want}


def fields(D, P, R, mode, what=('Potential', 'NetDoping')):
    """Random node values for a region: Potential, Electrons, Holes, NetDoping."""
    r = P.r
    n = len(D.nv(r, 'node_index'))
    vt = float(P.p['V_t']) if 'V_t' in P.p else 0.02585
    if mode == 'flat':
        base = R.uniform(-1, 1)
        V = [base + R.choice([0, vt * R.uniform(-1e-6, 1e-6), vt * R.uniform(-0.1, 0.1)]) for _ in range(n)]
    else:
        V = [R.choice([0.0, R.uniform(-0.3, 0.3), R.uniform(-1, 1)]) for _ in range(n)]
    if 'Potential' in what:
        D.setv(r, 'Potential', V)
    if 'NetDoping' in what and P.kind != 'ox':
        D.setv(r, 'NetDoping', [R.choice([0.0, R.choice([1, -1]) * logu(R, 8, 20), R.choice([1, -1]) * logu(R, 14, 18)]) for _ in range(n)])


def carriers(D, P, R):
    n = len(D.nv(P.r, 'node_index'))
    for c in ('Electrons', 'Holes'):
        D.setv(P.r, c, [logu(R, *R.choice([(0, 20), (10, 18), (0, 4)])) for _ in range(n)])


def node_check(D, r, model, f, variables, operands, scale, tol=1e-11):
    """model(x) and model:v against f(operand values); scale(*operands) -> (value scale, {v: derivative scale})."""
    X = [[M(float(x)) for x in D.nv(r, o)] for o in operands]
    got = D.nv(r, model)
    dg = {v: D.nv(r, '%s:%s' % (model, v)) for v in variables}
    for i in range(len(got)):
        x = [c[i] for c in X]
        sv, sd = scale(*x)
        need(near(got[i], f(*x), sv, tol), '%s at node %d of %s is %r, formula %s for %s', model, i, r, got[i], mp.nstr(f(*x), 17), [float(y) for y in x])
        for v in variables:
            e = deriv(f, x, operands.index(v))
            need(near(dg[v][i], e, sd[v], tol), '%s:%s at node %d of %s is %r, formula %s for %s', model, v, i, r, dg[v][i], mp.nstr(e, 17), [float(y) for y in x])


def edge_check(D, r, model, f, variables, operands, scale, L, tol=1e-11, extra=()):
    """Edge model of operands at both ends; f(L, *ops0, *ops1)."""
    E = D.edges(r)
    X = [[M(float(x)) for x in D.nv(r, o)] for o in operands]
    got = D.ev(r, model)
    dg = {(v, k): D.ev(r, '%s:%s@n%d' % (model, v, k)) for v in variables for k in (0, 1)}
    m = len(operands)
    for e, (a, b) in enumerate(E):
        x = [L[e]] + [c[a] for c in X] + [c[b] for c in X]
        sv, sd = scale(*x)
        w = f(*x)
        need(near(got[e], w, sv, tol), '%s at edge %d of %s is %r, formula %s for %s', model, e, r, got[e], mp.nstr(w, 17), [float(y) for y in x])
        for (v, k), g in dg.items():
            w = deriv(f, x, 1 + k * m + operands.index(v)) if v in operands else M(0)
            need(near(g[e], w, sd.get(v, 0), tol), '%s:%s@n%d at edge %d of %s is %r, formula %s for %s', model, v, k, e, r, g[e], mp.nstr(w, 17), [float(y) for y in x])


@st.composite
def dstrat(draw):
    dim = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    k = draw(st.sampled_from([1, 1, 2, 3] if dim == 1 else [1, 2]))
    return dict(dim=dim, regions=k, kinds=[draw(st.sampled_from(['si', 'si', 'ox'])) for _ in range(k)], size=draw(st.sampled_from([1e-5, 1e-4, 1.0])), vary=draw(st.booleans()),
                mode=draw(st.sampled_from(['wild', 'wild', 'flat'])), stage=draw(st.sampled_from(['pot', 'dd', 'dd', 'dd'])), circuit=draw(st.booleans()), edgemu=draw(st.booleans()), early=draw(st.booleans()), seed=draw(st.integers(1, 2**30)))


def bulk_current(q, vt, L, mu, n0, n1, x):
    """Scharfetter-Gummel electron flux, x = (V0 - V1)/Vt."""
    return q * mu * vt / L * (n1 * bern(-x) - n0 * bern(x))


def mu_edge(E0, E1, H0, H1, c):
    return c / (1 + M('1e-19') * (E0 + 2 * E1) + M('3e-20') * (H0 + H1))


def run_dd(case, ctx):
    R = random.Random(case['seed'])
    dsx.reset()
    D = Dev(case, R)
    P = [Physics(D, r, k, R, case['vary']) for r, k in zip(D.regions, case['kinds'])]
    dd = case['stage'] == 'dd'
    contacts = [c for c in ds.get_contact_list(device='d')]
    biases = {c: R.choice([0.0, R.uniform(-1, 1)]) for c in contacts}
    ckt = [c for c in contacts if case['circuit'] and R.random() < 0.7]
    with quiet():
        for p in P:
            if case['early']:
                mc.CreateSolution('d', p.r, 'Potential')
            fields(D, p, R, case['mode'], ['NetDoping'])
            if p.kind == 'si':
                sp.CreateSiliconPotentialOnly('d', p.r)
            else:
                sp.CreateOxidePotentialOnly('d', p.r, *R.choice([(), ('log_damp',)]))
            fields(D, p, R, case['mode'], ['Potential'])
        cr = {c: ds.get_region_list(device='d', contact=c)[0] for c in contacts}
        kind = {p.r: p.kind for p in P}
        PR = {p.r: p for p in P}
        ckt = [c for c in ckt if kind[cr[c]] == 'si']
        for c in contacts:
            if c in ckt:
                ds.circuit_element(name='V' + c, n1=sp.GetContactBiasName(c), n2='0', value=biases[c])
            else:
                ds.set_parameter(device='d', name=sp.GetContactBiasName(c), value=biases[c])
            if kind[cr[c]] == 'si':
                sp.CreateSiliconPotentialOnlyContact('d', cr[c], c, *([True] if c in ckt else R.choice([[], [False]])))
            else:
                sp.CreateOxideContact('d', cr[c], c)
        if dd:
            for p in P:
                if p.kind == 'si':
                    carriers(D, p, R)
                    if case['edgemu']:
                        for nm, pn in (('mue', 'mu_n'), ('muh', 'mu_p')):
                            ex = '%s/(1+1e-19*(Electrons@n0+2*Electrons@n1)+3e-20*(Holes@n0+Holes@n1))' % pn
                            mc.CreateEdgeModel('d', p.r, nm, ex)
                            for v in ('Electrons', 'Holes'):
                                mc.CreateEdgeModelDerivatives('d', p.r, nm, ex, v)
                        sp.CreateSiliconDriftDiffusion('d', p.r, 'mue', 'muh')
                    else:
                        sp.CreateSiliconDriftDiffusion('d', p.r)
            for c in contacts:
                if kind[cr[c]] == 'si':
                    sp.CreateSiliconDriftDiffusionAtContact('d', cr[c], c, *([True] if c in ckt else []))
        for i in ds.get_interface_list(device='d'):
            r0, r1 = ds.get_region_list(device='d', interface=i)
            if dd and kind[r0] == kind[r1] == 'si':
                sp.CreateSiliconSiliconInterface('d', i)
            else:
                sp.CreateSiliconOxideInterface('d', i)
    for c in contacts:
        need(sp.GetContactBiasName(c) == c + '_bias', 'bias name of contact %s is %r', c, sp.GetContactBiasName(c))
    geo = {}
    for p in P:
        r, q = p.r, p.p
        co = [D.nv(r, x) for x in 'xyz'[:D.dim]]
        E = D.edges(r)
        L = [mp.sqrt(sum((M(float(c[a])) - M(float(c[b]))) ** 2 for c in co)) for a, b in E]
        geo[r] = (E, L)
        perm, Q = q['Permittivity'], q['ElectronCharge']
        ef = lambda L, a, b: (a - b) / L
        sc = lambda m: (lambda L, a, b: (m * (abs(a) + abs(b)) / L, {'Potential': m / L}))
        edge_check(D, r, 'ElectricField', ef, ['Potential'], ['Potential'], sc(1), L)
        edge_check(D, r, 'PotentialEdgeFlux', lambda L, a, b: perm * (a - b) / L, ['Potential'], ['Potential'], sc(perm), L)
        if any(cr[c] == r for c in contacts):
            edge_check(D, r, 'contactcharge_edge', lambda L, a, b: perm * (a - b) / L, ['Potential'], ['Potential'], sc(perm), L)
        if p.kind == 'ox':
            continue
        vt, ni = q['V_t'], q['n_i']
        ie = lambda v: ni * mp.exp(v / vt)
        one = lambda v: (0, {'Potential': 0})
        node_check(D, r, 'IntrinsicElectrons', ie, ['Potential'], ['Potential'], one)
        node_check(D, r, 'IntrinsicHoles', lambda v: ni * mp.exp(-v / vt), ['Potential'], ['Potential'], one)
        for m, s in (('IntrinsicCharge', 1), ('PotentialIntrinsicCharge', -Q)):
            node_check(D, r, m, lambda v, N: s * (ni * mp.exp(-v / vt) - ie(v) + N), ['Potential'], ['Potential', 'NetDoping'],
                       lambda v, N: (abs(s) * (2 * ni * mp.cosh(v / vt) + abs(N)), {'Potential': abs(s) * 2 * ni * mp.cosh(v / vt) / vt}))
        if not dd:
            continue
        srh = lambda n, h: (n * h - ni ** 2) / (q['taup'] * (n + q['n1']) + q['taun'] * (h + q['p1']))
        den = lambda n, h: q['taup'] * (n + q['n1']) + q['taun'] * (h + q['p1'])
        ss = lambda m: (lambda n, h: (m * (n * h + ni ** 2) / den(n, h), {'Electrons': m * (h / den(n, h) + (n * h + ni ** 2) * q['taup'] / den(n, h) ** 2), 'Holes': m * (n / den(n, h) + (n * h + ni ** 2) * q['taun'] / den(n, h) ** 2)}))
        eh = ['Electrons', 'Holes']
        for m, s in (('USRH', 1), ('ElectronGeneration', -Q), ('HoleGeneration', Q)):
            node_check(D, r, m, lambda n, h: s * srh(n, h), eh, eh, ss(abs(s)))
        node_check(D, r, 'NCharge', lambda n: -Q * n, ['Electrons'], ['Electrons'], lambda n: (0, {'Electrons': 0}))
        node_check(D, r, 'PCharge', lambda n: Q * n, ['Holes'], ['Holes'], lambda n: (0, {'Holes': 0}))
        node_check(D, r, 'PotentialNodeCharge', lambda n, h, N: -Q * (h - n + N), eh, eh + ['NetDoping'], lambda n, h, N: (Q * (n + h + abs(N)), {'Electrons': Q, 'Holes': Q}))
        mu = (lambda c: lambda a, b, d, e: mu_edge(a, d, b, e, c)) if case['edgemu'] else (lambda c: lambda a, b, d, e: c)
        mn, mh = mu(q['mu_n']), mu(q['mu_p'])

        def scale(mm):
            def g(L, v0, n0, h0, v1, n1, h1):
                c = n0 + n1 if mm is mn else h0 + h1
                m = Q * mm(n0, h0, n1, h1) / L
                x = abs(v0 - v1) / vt
                val = m * vt * c * (2 + x)
                return val, {'Potential': m * c * 3, 'Electrons': m * vt * (2 + x) + val * M('1e-19'), 'Holes': m * vt * (2 + x) + val * M('1e-19')}
            return g
        ops = ['Potential', 'Electrons', 'Holes']
        jn = lambda L, v0, n0, h0, v1, n1, h1: bulk_current(Q, vt, L, mn(n0, h0, n1, h1), n0, n1, (v0 - v1) / vt)
        jp = lambda L, v0, n0, h0, v1, n1, h1: -bulk_current(Q, vt, L, mh(n0, h0, n1, h1), h0, h1, (v1 - v0) / vt)
        edge_check(D, r, 'ElectronCurrent', jn, ops, ops, scale(mn), L, 1e-10)
        edge_check(D, r, 'HoleCurrent', jp, ops, ops, scale(mh), L, 1e-10)
        ctx.count('dd_regions')
    assembled(case, ctx, D, P, cr, kind, contacts, biases, ckt, dd)
    ctx.nontrivial()


def assembled(case, ctx, D, P, cr, kind, contacts, biases, ckt, dd):
    """The whole system, from the formulas in double precision."""
    full = ds.get_matrix_and_rhs(format='csr')
    n = len(full['static']['rhs'])

    got = {t: (dense(full[t], n), np.array(full[t]['rhs'])) for t in ('static', 'dynamic')}
    A = {t: np.zeros((n, n)) for t in got}
    b = {t: np.zeros(n) for t in got}
    SA = {t: np.zeros((n, n)) for t in got}
    sb = {t: np.zeros(n) for t in got}
    num = {}
    for p in P:
        for v, e in (('Potential', 'PotentialEquation'), ('Electrons', 'ElectronContinuityEquation'), ('Holes', 'HoleContinuityEquation')):
            if v == 'Potential' or (dd and p.kind == 'si'):
                num[p.r, v] = ds.get_equation_numbers(device='d', region=p.r, equation=e)
                need(ds.get_equation_numbers(device='d', region=p.r, variable=v) == num[p.r, v], 'variable %s of %s not solved by %s', v, p.r, e)
    cnode = {c: ds.get_circuit_equation_number(node=c + '_bias') for c in ckt}
    need(n == sum(len(x) for x in num.values()) + 2 * len(ckt), 'system of %d equations, expected %s', n, {k: len(v) for k, v in num.items()})

    def add(t, row, val, cols):
        b[t][row] += val
        sb[t][row] += abs(val)
        for c, d in cols:
            A[t][row, c] += d
            SA[t][row, c] += abs(d)
    on_contact, dup = {}, {}
    for c in contacts:
        r = cr[c]
        ds.contact_node_model(device='d', contact=c, name='on_' + c, equation='1')
        for i, v in enumerate(D.nv(r, 'on_' + c)):
            if v == 1.0:
                on_contact.setdefault((r, i), c)
                dup[r, i] = dup.get((r, i), 0) + 1
        need(c in on_contact.values() or D.dim > 1, 'contact %s has no nodes', c)
    # rows which an interface moves
    move, itf = {}, []
    for i in ds.get_interface_list(device='d'):
        r0, r1 = ds.get_region_list(device='d', interface=i)
        xyz = {r: list(zip(*[D.nv(r, x) for x in 'xyz'])) for r in (r0, r1)}
        where = {x: k for k, x in enumerate(xyz[r1])}
        pairs = [(k, where[x]) for k, x in enumerate(xyz[r0]) if x in where]       # the regions share no other nodes
        for v in ('Potential', 'Electrons', 'Holes') if dd and kind[r0] == kind[r1] == 'si' else ('Potential',):
            for a, c in pairs:
                if (r0, a) in on_contact or (r1, c) in on_contact:
                    dup[r0, a] = dup[r1, c] = 9      # decided by C12
                    continue
                move[num[r1, v][c]] = num[r0, v][a]
                itf.append((r0, a, r1, c, v))
    unsure = set()
    for (r, i), k in dup.items():
        if k > 1:
            unsure |= {num[r, v][i] for v in ('Potential', 'Electrons', 'Holes') if (r, v) in num}
    crow = set(cnode.values())

    def target(r, v, i):
        if (r, i) in on_contact:
            return None
        k = num[r, v][i]
        return move.get(k, k)

    for p in P:
        r = p.r
        q = {k: float(v) for k, v in p.p.items()}
        E = D.edges(r)
        L, couple, vol = D.ev(r, 'EdgeLength'), D.ev(r, 'EdgeCouple'), D.nv(r, 'NodeVolume')
        V = D.nv(r, 'Potential')
        N = D.nv(r, 'NetDoping') if p.kind == 'si' else None
        eh = dd and p.kind == 'si'
        if eh:
            el, ho = D.nv(r, 'Electrons'), D.nv(r, 'Holes')
        pot = num[r, 'Potential']

        def emit(e, v, val, cols, t='static'):
            """An edge quantity flows out of node 0 into node 1; at contacts it goes to the circuit."""
            for j, s in ((0, 1), (1, -1)):
                i = E[e][j]
                w = s * couple[e]
                row = target(r, v, i)
                if t == 'static' and row is not None:
                    add('static', row, w * val, [(c, w * d) for c, d in cols])
                if row is None and on_contact[r, i] in ckt:
                    c = on_contact[r, i]
                    if on_contact.get((r, E[e][1 - j])) == c:
                        continue
                    tt = 'dynamic' if v == 'Potential' else 'static'
                    add(tt, cnode[c], w * val, [(cc, w * d) for cc, d in cols])
        for e, (a, c) in enumerate(E):
            k = q['Permittivity'] / L[e]
            emit(e, 'Potential', k * (V[a] - V[c]), [(pot[a], k), (pot[c], -k)])
            if eh:
                for v, name in (('Electrons', 'ElectronCurrent'), ('Holes', 'HoleCurrent')):
                    cols = []
                    for u in ('Potential', 'Electrons', 'Holes'):
                        for kx, i in ((0, a), (1, c)):
                            cols.append((num[r, u][i], D.cache(r, '%s:%s@n%d' % (name, u, kx))[e]))
                    emit(e, v, D.cache(r, name)[e], cols)
        for i in range(len(V)):
            if not eh:
                if p.kind == 'si':
                    ne = q['n_i'] * math.exp(V[i] / q['V_t'])
                    h = q['n_i'] ** 2 / ne
                    w = -q['ElectronCharge'] * vol[i]
                    row = target(r, 'Potential', i)
                    if row is not None:
                        add('static', row, w * (h - ne + N[i]), [(pot[i], w * (-h - ne) / q['V_t'])])
                        sb['static'][row] += abs(w) * (h + ne + abs(N[i]))
                continue
            Q = q['ElectronCharge'] * vol[i]
            row = target(r, 'Potential', i)
            if row is not None:
                add('static', row, -Q * (ho[i] - el[i] + N[i]), [(num[r, 'Electrons'][i], Q), (num[r, 'Holes'][i], -Q)])
                sb['static'][row] += Q * (ho[i] + el[i] + abs(N[i]))
            den = q['taup'] * (el[i] + q['n1']) + q['taun'] * (ho[i] + q['p1'])
            U = (el[i] * ho[i] - q['n_i'] ** 2) / den
            dU = {'Electrons': ho[i] / den - U * q['taup'] / den, 'Holes': el[i] / den - U * q['taun'] / den}
            for v, s in (('Electrons', -1), ('Holes', 1)):
                row = target(r, v, i)
                if row is not None:
                    add('static', row, s * Q * U, [(num[r, u][i], s * Q * dU[u]) for u in dU])
                    sb['static'][row] += Q * (el[i] * ho[i] + q['n_i'] ** 2) / den
                    for u in dU:
                        SA['static'][row, num[r, u][i]] += Q * (abs(dU[u]) + max(el[i], ho[i]) / den + abs(U) * max(q['taup'], q['taun']) / den)
                    add('dynamic', row, s * Q * (el if v == 'Electrons' else ho)[i], [(num[r, v][i], s * Q)])
    for (r, i), c in on_contact.items():
        p = next(x for x in P if x.r == r)
        q = {k: float(v) for k, v in p.p.items()}
        V = D.nv(r, 'Potential')[i]
        vol = D.nv(r, 'NodeVolume')[i]
        bias = 0.0 if c in ckt else biases[c]
        cols = [(num[r, 'Potential'][i], vol)] + ([(cnode[c], -vol)] if c in ckt else [])
        row = num[r, 'Potential'][i]
        if p.kind == 'ox':
            add('static', row, vol * (V - bias), cols)
            sb['static'][row] += vol * (abs(V) + abs(bias))
            continue
        N = D.nv(r, 'NetDoping')[i]
        # majority carrier density, kept away from zero, and the other one by mass action
        half = lambda s: 1e-10 + 0.5 * abs(s * N + math.sqrt(N * N + 4 * q['n_i'] ** 2))
        vt, ni = q['V_t'], q['n_i']
        phi = vt * math.log(half(1) / ni) if N > 0 else -vt * math.log(half(-1) / ni)
        add('static', row, vol * (V - bias - phi), cols)
        sb['static'][row] += vol * (abs(phi) + abs(V) + abs(bias) + 1e-5 * vt)
        if dd:
            ne = half(1) if N > 0 else ni ** 2 / half(-1)
            nh = half(-1) if N < 0 else ni ** 2 / half(1)
            for v, val in (('Electrons', ne), ('Holes', nh)):
                x = D.nv(r, v)[i]
                add('static', num[r, v][i], vol * (x - val), [(num[r, v][i], vol)])
                sb['static'][num[r, v][i]] += vol * (x + val)
    for r0, a, r1, c, v in itf:
        add('static', num[r1, v][c], D.nv(r0, v)[a] - D.nv(r1, v)[c], [(num[r0, v][a], 1.0), (num[r1, v][c], -1.0)])
        sb['static'][num[r1, v][c]] += abs(D.nv(r0, v)[a])
    for t in ('static', 'dynamic'):
        GA, gb = got[t]
        name = {k: '%s@%d of %s' % (v, i, r) for (r, v), x in num.items() for i, k in enumerate(x)}
        skip = set(unsure)
        if t == 'static':
            skip |= set(range(n)) - set(name) - crow          # branch rows of the sources, C16
        for i in range(n):
            if i in skip or (unsure and i in crow):
                continue
            if i in crow:                                     # without the voltage source's own entries
                cols = [j for j in range(n) if j in name]
            else:
                cols = range(n)
            rs = max(sb[t][i], 0)
            need(abs(gb[i] + b[t][i]) <= 1e-9 * rs + 1e-300, '%s residual of %s is %r, expected %r (scale %g)', t, name.get(i, 'circuit'), -gb[i], b[t][i], rs)
            for j in cols:
                need(abs(GA[i, j] - A[t][i, j]) <= 1e-9 * (SA[t][i, j] + 1e-300), '%s matrix of %s by %s is %r, expected %r', t, name.get(i, 'circuit'), name.get(j, 'circuit'), GA[i, j], A[t][i, j])
    ctx.count('assembled')


def cache(s, r, m):
    k = (r, m)
    s.__dict__.setdefault('_c', {})
    if k not in s._c:
        s._c[k] = s.ev(r, m)
    return s._c[k]


Dev.cache = cache


# ---------------------------------------------------------------- mobility
TABLE = dict(mu_min_e=52.2, mu_max_e=1417, theta1_e=2.285, m_e=1.0, f_BH=3.828, f_CW=2.459, c_D=0.21, Nref_D=4.0e20, Nref_1_e=9.68e16, alpha_1_e=0.68,
             mu_min_h=44.9, mu_max_h=470.5, theta1_h=2.247, m_h=1.258, c_A=0.50, Nref_A=7.2e20, Nref_1_h=2.2e17, alpha_1_h=0.719,
             r1=0.7643, r2=2.2999, r3=6.5502, r4=2.3670, r5=-0.01552, r6=0.6478, s1=0.892333, s2=0.41372, s3=0.19778, s4=0.28227, s5=0.005978, s6=1.80618, s7=0.72169,
             vsat_e=1.0e7, vsat_h=1.0e7, alpha_e=6.85e-21, alpha_h=7.82e-21, A_e=2.58, A_h=2.18, B_e=3.61e7, B_h=1.51e7, C_e=1.70e4, C_h=4.18e3, kappa_e=1.7, kappa_h=0.9,
             tau_e=0.0233, tau_h=0.0119, eta_e=0.0767, eta_h=0.123, delta_e=3.58e18, delta_h=4.10e15)


def table(D, r, R, vary):
    kl.Set_Mobility_Parameters('d', r)
    for k, v in TABLE.items():
        g = ds.get_parameter(name=k, **D.w(r))
        need(g == v, 'mobility parameter %s is %r, the table says %r', k, g, v)
        if vary and R.random() < 0.6:
            ds.set_parameter(name=k, value=v * R.uniform(0.85, 1.15), **D.w(r))
    return {k: M(ds.get_parameter(name=k, **D.w(r))) for k in TABLE}


def klaassen(t, T, who, n, p, ND, NA, info=None):
    """Klaassen, Solid-State Electronics 35 (1992): the unified mobility of electrons (e) or holes (h)."""
    tn = T / 300
    o = {'e': 'h', 'h': 'e'}[who]
    ZD = 1 + 1 / (t['c_D'] + (t['Nref_D'] / ND) ** 2)
    ZA = 1 + 1 / (t['c_A'] + (t['Nref_A'] / NA) ** 2)
    D, A = ZD * ND, ZA * NA
    mx, mi, al = t['mu_max_' + who], t['mu_min_' + who], t['alpha_1_' + who]
    lattice = mx * tn ** -t['theta1_' + who]
    muN = mx ** 2 / (mx - mi) * tn ** (3 * al - M(3) / 2)
    muc = mi * mx / (mx - mi) * tn ** -M('0.5')
    m, mo = t['m_' + who], t['m_' + o]
    Z, maj, mino, car, oth = (ZD, D, A, n, p) if who == 'e' else (ZA, A, D, p, n)
    nsc = D + A + oth
    pbh = M('1.36e20') / (n + p) * m * tn ** 2
    pcw = M('3.97e13') * (tn ** 3 / (Z ** 3 * nsc)) ** (M(2) / 3)
    P = 1 / (t['f_CW'] / pcw + t['f_BH'] / pbh)
    g1 = t['s1'] / (t['s2'] + (tn / m) ** t['s4'] * P) ** t['s3']
    g2 = t['s5'] / ((m / tn) ** t['s7'] * P) ** t['s6']
    G = 1 - g1 + g2
    F = (t['r1'] * P ** t['r6'] + t['r2'] + t['r3'] * m / mo) / (P ** t['r6'] + t['r4'] + t['r5'] * m / mo)
    eff = maj + G * mino + oth / F
    da = muN * nsc / eff * (t['Nref_1_' + who] / nsc) ** al + muc * (n + p) / eff
    if info is not None:
        info['cond'] = (maj + (1 + g1 + g2) * mino + oth / F) / abs(eff)
        info['scale'] = 1 / (n + p) + 1 / nsc
        info['ok'] = eff > 0
    return da * lattice / (da + lattice)


@st.composite
def kstrat(draw):
    return dict(dim=draw(st.sampled_from([1, 1, 2])), regions=1, size=1e-5, vary=draw(st.booleans()), seed=draw(st.integers(1, 2**30)))


def doping(D, r, R):
    n = len(D.nv(r, 'node_index'))
    for c in ('Donors', 'Acceptors'):
        D.setv(r, c, [logu(R, *R.choice([(10, 21), (14, 19), (2, 6)])) for _ in range(n)])


def run_kla(case, ctx):
    R = random.Random(case['seed'])
    dsx.reset()
    D = Dev(case, R)
    r = 'r0'
    P = Physics(D, r, 'si', R, False)
    t = table(D, r, R, case['vary'])
    carriers(D, P, R)
    doping(D, r, R)
    with quiet():
        kl.Klaassen_Mobility('d', r)
    X = [[M(float(x)) for x in D.nv(r, v)] for v in ('Electrons', 'Holes', 'Donors', 'Acceptors')]
    T = M(P.T)
    E = D.edges(r)
    for who in 'eh':
        f = lambda *x: klaassen(t, T, who, *x)
        name = 'mu_bulk_%s' % who
        got = D.nv(r, name + '_Node')
        dg = [D.nv(r, '%s_Node:%s' % (name, v)) for v in ('Electrons', 'Holes')]
        val, dv, tol, good = [], [], [], []
        for i in range(len(got)):
            x = [c[i] for c in X]
            info = {}
            v = klaassen(t, T, who, *x, info=info)
            d = [deriv(f, x, k) for k in (0, 1)]
            c = info['cond'] ** 2 * M('1e-11')
            val.append(v)
            dv.append(d)
            tol.append((c * abs(v), c * abs(v) * info['scale'] * 10))
            good.append(bool(info['ok']) and c < M('1e-6'))
            if not good[-1]:
                ctx.count('cancelled')
                continue
            need(abs(M(float(got[i])) - v) <= tol[i][0], '%s_Node is %r, Klaassen %s at n p ND NA %s, T %s', name, got[i], mp.nstr(v, 15), [float(y) for y in x], P.T)
            for k in (0, 1):
                need(abs(M(float(dg[k][i])) - d[k]) <= tol[i][1], '%s_Node:%s is %r, expected %s at n p ND NA %s, T %s', name, ('Electrons', 'Holes')[k], dg[k][i], mp.nstr(d[k], 15), [float(y) for y in x], P.T)
        try:
            ge = D.ev(r, name)
        except ds.error:                    # no geometric mean of negative mobilities
            need(min(got) <= 0, '%s cannot be read', name)
            continue
        de = {(k, j): D.ev(r, '%s:%s@n%d' % (name, ('Electrons', 'Holes')[k], j)) for k in (0, 1) for j in (0, 1)}
        for e, ij in enumerate(E):
            a, b = ij
            if not (good[a] and good[b]):
                continue
            g = mp.sqrt(val[a] * val[b])
            rel = sum(tol[i][0] / abs(val[i]) for i in ij)
            need(abs(M(float(ge[e])) - g) <= g * rel, '%s on edge %s is %r, geometric mean %s', name, ij, ge[e], mp.nstr(g, 15))
            for (k, j), y in de.items():
                w = g / (2 * val[ij[j]]) * dv[ij[j]][k]
                need(abs(M(float(y[e])) - w) <= g / (2 * abs(val[ij[j]])) * (tol[ij[j]][1] + rel * abs(dv[ij[j]][k])), '%s:%s@n%d on edge %s is %r, expected %s', name, ('Electrons', 'Holes')[k], j, ij, y[e], mp.nstr(w, 15))
        ctx.nontrivial(any(good))
        ctx.count('good', sum(good))


# ---------------------------------------------------------------- element models
def run_surface(case, ctx):
    R = random.Random(case['seed'])
    dsx.reset()
    D = Dev(case, R)
    r = 'r0'
    W = D.w(r)
    P = Physics(D, r, 'si', R, False)
    with quiet():
        fields(D, P, R, case['mode'])
        sp.CreateSiliconPotentialOnly('d', r)
        carriers(D, P, R)
        t = table(D, r, R, case['vary'])
        doping(D, r, R)
        kl.Klaassen_Mobility('d', r)
        if min(min(D.nv(r, 'mu_bulk_%s_Node' % w)) for w in 'eh') <= 0:
            ctx.count('cancelled')
            return
        sp.CreateSiliconDriftDiffusion('d', r, 'mu_bulk_e', 'mu_bulk_h')
        mos.CreateNormalElectricFieldFromCurrentFlow('d', r, 'ElectronCurrent')
        mos.CreateNormalElectricFieldFromCurrentFlow('d', r, 'HoleCurrent')
        kl.Philips_Surface_Mobility('d', r, 'Enormal_ElectronCurrent', 'Enormal_HoleCurrent')
        kl.Philips_VelocitySaturation('d', r, 'mu_vsat_e', 'mu_e_0', 'Eparallel_ElectronCurrent', 'vsat_e')
        kl.Philips_VelocitySaturation('d', r, 'mu_vsat_h', 'mu_h_0', 'Eparallel_HoleCurrent', 'vsat_h')
        mos.CreateElementElectronCurrent2d('d', r, 'Jn', 'mu_vsat_e')
        mos.CreateElementHoleCurrent2d('d', r, 'Jp', 'mu_vsat_h')
        if case['normal']:
            for x in 'xy':
                mc.CreateElementModel2d('d', r, 'i0_normal_' + x, repr(R.uniform(-1, 1)))
            mos.CreateNormalElectricFieldFromInterfaceNormal('d', r, 'i0')
    have = set(ds.get_element_model_list(**W))
    nodes = [t3 for t3 in ds.get_element_node_list(**W)]
    VARS = ('Potential', 'Electrons', 'Holes')
    K = ('@en0', '@en1', '@en2')
    store = {}

    def ele(name):
        if name not in store:
            store[name] = [M(float(x)) for x in ds.get_element_model_values(name=name, **W)] if name in have else None
        return store[name]
    ne = len(ds.get_element_model_values(name='ElectronCurrent_x', **W))
    # corner numbers of every element edge: the coordinates of the two ends, and the node opposite
    if 'node_index@en0' not in have:
        ds.element_from_node_model(node_model='node_index', **W)
    cor = list(zip(*[[int(x) for x in ds.get_element_model_values(name='node_index' + k, **W)] for k in K]))
    pos = {}
    for e, (a, b) in enumerate(D.edges(r)):
        pos[a, b] = (e, 1)
        pos[b, a] = (e, -1)

    def edgeval(name):
        """Edge model on the element edges, with the derivatives at the element's own corners."""
        if ('e', name) not in store:
            v = D.ev(r, name) if D.has(r, name, 'edge') else None
            store['e', name] = None if v is None else [M(float(v[pos[c[0], c[1]][0]])) for c in cor]
        return store['e', name]
    for c in cor:
        need(pos.get((c[0], c[1]), (0, 0))[1] == 1, 'element edge %s runs against its edge', c)

    def zero():
        return [M(0)] * ne

    def dofe(name, v, k):
        """Derivative of an element model, or of an edge model put on elements."""
        x = ele('%s:%s%s' % (name, v, k))
        if x is not None:
            return x
        if edgeval(name) is not None and k in ('@en0', '@en1'):
            x = edgeval('%s:%s@n%s' % (name, v, k[-1]))
            if x is not None:
                return x
        return zero()

    def val(name):
        x = ele(name)
        if x is None:
            x = edgeval(name)
        need(x is not None, 'no model %s on the elements', name)
        return x

    def nodal(name, k):
        v = D.nv(r, name)
        return [M(float(v[c[k]])) for c in cor]

    def chain(model, f, inputs, derivs=VARS, corner=None, direct=(), tol=M('1e-9'), guard=None, nd=None):
        """model = f(inputs) and model:v@enk = sum of df/dinput * input:v@enk; direct: (variable, corner) operands of f."""
        X = [val(i) for i in inputs] + [nodal(v, k) for v, k in direct]
        Y = ele(model)
        need(Y is not None, 'no element model %s', model)
        DV = {(v, k): ele('%s:%s%s' % (model, v, k)) for v in derivs for k in K}
        need(all(x is not None for x in DV.values()), 'derivatives of %s missing: %s', model, [k for k, x in DV.items() if x is None])
        DI = {(i, v, k): dofe(i, v, k) for i in inputs for v, k in DV}
        for e in range(ne):
            x = [c[e] for c in X]
            if corner is not None and corner(*x):
                ctx.count('corner')
                continue
            w = f(*x)
            sv, sd = (guard(*x) if guard else (abs(w), None))
            need(abs(Y[e] - w) <= tol * (abs(w) + sv), '%s on element edge %d is %s, from %s it follows %s', model, e, mp.nstr(Y[e], 17), dict(zip(inputs, map(float, x))), mp.nstr(w, 17))
            part = [part_deriv(f, x, q) for q in range(len(x))]
            for (v, k), y in DV.items():
                terms = [part[q] * DI[i, v, k][e] for q, i in enumerate(inputs)]
                terms += [part[len(inputs) + q] for q, (v2, k2) in enumerate(direct) if v2 == v and K[k2] == k]
                ww = sum(terms)
                s = sum(abs(z) for z in terms)
                if nd:
                    s += nd(*x)
                if sd:
                    s += sum(sd[q] * abs(DI[i, v, k][e]) for q, i in enumerate(inputs))
                need(abs(y[e] - ww) <= tol * s + M('1e-250'), '%s:%s%s on element edge %d is %s, by the chain rule %s (inputs %s)', model, v, k, e, mp.nstr(y[e], 17), mp.nstr(ww, 17), dict(zip(inputs, map(float, x))))
        ctx.count('chains')

    def part_deriv(f, x, q):
        h = mp.mpf(10) ** -17 * (abs(x[q]) if x[q] != 0 else min(M('1e-3'), max([abs(y) for y in x if abs(y) > M('1e-100')] + [M('1e-30')])))
        a, b = list(x), list(x)
        with mp.workdps(150):
            a[q] += h
            b[q] -= h
        with mp.workdps(150):
            return (f(*a) - f(*b)) / (2 * h)
    tiny = M('1e-300')
    if case['normal']:
        f = lambda a, b, c, d: a * c + b * d
        chain('Enormal', f, ['i0_normal_x', 'i0_normal_y', 'ElectricField_x', 'ElectricField_y'], ('Potential',), guard=lambda a, b, c, d: (abs(a * c) + abs(b * d), None))
    mag = lambda a, b: mp.sqrt(a * a + b * b + tiny)
    small = lambda *x: sum(y * y for y in x[:2]) < M('1e-250')
    for J, mn in (('ElectronCurrent', 'e'), ('HoleCurrent', 'h')):
        x, y = J + '_x', J + '_y'
        chain(J + '_mag', mag, [x, y], corner=small)
        big = lambda a, b: (0, [4 / mag(a, b)] * 2)
        chain(J + '_norm_x', lambda a, b: a / mag(a, b), [x, y], corner=small, guard=big)
        chain(J + '_norm_y', lambda a, b: b / mag(a, b), [x, y], corner=small, guard=big)
        nx, ny = J + '_norm_x', J + '_norm_y'
        dot = lambda a, b, c, d: a * c + b * d
        chain('Eparallel_' + J, dot, [nx, ny, 'ElectricField_x', 'ElectricField_y'], ('Potential',), guard=lambda a, b, c, d: (abs(a * c) + abs(b * d), [abs(c), abs(d), abs(a), abs(b)]))
        chain('ElectricField_mag', mag, ['ElectricField_x', 'ElectricField_y'], ('Potential',), corner=small)
        # the derivative of the clipped square root is only meant where it is not clipped
        def clipped(m, p):
            return m * m - p * p <= M('1e-4') * m * m or m < M('1e-100')
        chain('Enormal_' + J, lambda m, p: mp.sqrt(m * m - p * p), ['ElectricField_mag', 'Eparallel_' + J], corner=clipped)
        en = 'Enormal_' + J
        T3 = (M(P.T) / 300) ** t['kappa_' + mn]
        top = lambda e: max(e, M(100))
        edge = lambda e, *z: abs(e - 100) < M('1e-3')
        chain('mu_ac_' + mn, lambda e, NI: t['B_' + mn] / top(e) + t['C_' + mn] * NI ** t['tau_' + mn] * top(e) ** (-M(1) / 3) / T3, [en, 'NI'], ('Potential',), corner=edge)
        chain('mu_sr_' + mn, lambda e, g: t['delta_' + mn] * top(e) ** -g, [en, 'gamma_' + mn], corner=edge, guard=lambda e, g: (0, [t['delta_' + mn] * top(e) ** -g * g / top(e), t['delta_' + mn] * top(e) ** -g * mp.log(top(e))]), tol=M('1e-8'))
        chain('mu_%s_0' % mn, lambda a, b, c: 1 / (1 / a + 1 / b + 1 / c), ['mu_bulk_' + mn, 'mu_ac_' + mn, 'mu_sr_' + mn])
        vs = t['vsat_' + mn]
        chain('mu_vsat_' + mn, lambda m, e: 2 * m / (1 + mp.sqrt(1 + 4 * (max(M(0), m * e) / vs) ** 2)), ['mu_%s_0' % mn, 'Eparallel_' + J], corner=lambda m, e: e == 0)
        car = {'e': 'Electrons', 'h': 'Holes'}[mn]
        q, vt = P.p['ElectronCharge'], P.p['V_t']
        if mn == 'e':
            cur = lambda m, L, v0, v1, n0, n1: bulk_current(q, vt, L, m, n0, n1, (v0 - v1) / vt)
        else:
            cur = lambda m, L, v0, v1, n0, n1: -bulk_current(q, vt, L, m, n0, n1, (v1 - v0) / vt)
        gd = lambda m, L, v0, v1, n0, n1: (q * m * vt / L * (n0 + n1) * (2 + abs(v0 - v1) / vt), [q * vt / L * (n0 + n1) * (2 + abs(v0 - v1) / vt), 0])
        # what rounding leaves of the terms which cancel in a derivative
        nd = lambda m, L, v0, v1, n0, n1: q * m / L * M('1e-2') * ((n0 + n1) * 3 + vt * (2 + abs(v0 - v1) / vt))
        chain('Jn' if mn == 'e' else 'Jp', cur, ['mu_vsat_' + mn, 'EdgeLength'], direct=[('Potential', 0), ('Potential', 1), (car, 0), (car, 1)], guard=gd, tol=M('1e-8'), nd=nd)
    # nodal parts of the surface mobility
    for w in 'eh':
        ni, el, ho = D.nv(r, 'NI_node'), D.nv(r, 'Electrons'), D.nv(r, 'Holes')
        nd, na = D.nv(r, 'Donors'), D.nv(r, 'Acceptors')
        g = D.nv(r, 'gamma_%s_Node' % w)
        dg = {v: D.nv(r, 'gamma_%s_Node:%s' % (w, v)) for v in ('Electrons', 'Holes')}
        for i in range(len(g)):
            ZD = 1 + 1 / (float(t['c_D']) + (float(t['Nref_D']) / nd[i]) ** 2)
            ZA = 1 + 1 / (float(t['c_A']) + (float(t['Nref_A']) / na[i]) ** 2)
            N = ZD * nd[i] + ZA * na[i]
            need(abs(ni[i] - N) <= 1e-11 * N, 'NI_node is %r, expected %r', ni[i], N)
            k = float(t['alpha_' + w]) * N ** -float(t['eta_' + w])
            want = float(t['A_' + w]) + k * (el[i] + ho[i])
            need(abs(g[i] - want) <= 1e-10 * abs(want), 'gamma_%s_Node is %r, expected %r', w, g[i], want)
            for v in dg:
                need(abs(dg[v][i] - k) <= 1e-10 * k, 'gamma_%s_Node:%s is %r, expected %r', w, v, dg[v][i], k)
        ge = D.ev(r, 'gamma_' + w)
        nie = D.ev(r, 'NI')
        for e, (a, b) in enumerate(D.edges(r)):
            need(abs(ge[e] - math.sqrt(g[a] * g[b])) <= 1e-10 * ge[e], 'gamma_%s on edge %d is %r', w, e, ge[e])
            need(abs(nie[e] - math.sqrt(ni[a] * ni[b])) <= 1e-10 * nie[e], 'NI on edge %d is %r', e, nie[e])
            for v in dg:
                for j, i in enumerate((a, b)):
                    want = ge[e] / (2 * g[i]) * dg[v][i]
                    y = D.cache(r, 'gamma_%s:%s@n%d' % (w, v, j))[e]
                    need(abs(y - want) <= 1e-9 * abs(want), 'gamma_%s:%s@n%d on edge %d is %r, expected %r', w, v, j, e, y, want)
    # the element current replaces the edge current in the equation and its contacts
    def options(f, **k):
        return {a: b for a, b in f(**k).items() if b and a not in ('device', 'region', 'contact')}
    with quiet():
        mos.CreateElementElectronContinuityEquation('d', r, 'Jn')
    need(options(ds.get_equation_command, name='ElectronContinuityEquation', **W) == dict(name='ElectronContinuityEquation', variable_name='Electrons', time_node_model='NCharge', node_model='ElectronGeneration', element_model='Jn', variable_update='positive'),
         'element continuity equation: %s', options(ds.get_equation_command, name='ElectronContinuityEquation', **W))
    c = ds.get_contact_list(device='d')[0]
    with quiet():
        sp.CreateSiliconDriftDiffusionAtContact('d', r, c)
        ds.delete_contact_equation(device='d', contact=c, name='ElectronContinuityEquation')
        mos.CreateElementContactElectronContinuityEquation('d', c, 'Jn')
    need(options(ds.get_contact_equation_command, name='ElectronContinuityEquation', device='d', contact=c) == dict(name='ElectronContinuityEquation', node_model=c + 'nodeelectrons', element_current_model='Jn'),
         'element contact equation: %s', options(ds.get_contact_equation_command, name='ElectronContinuityEquation', device='d', contact=c))
    ctx.nontrivial()


@st.composite
def sstrat(draw):
    return dict(dim=2, regions=1, size=draw(st.sampled_from([1e-5, 1e-4])), vary=draw(st.booleans()), mode=draw(st.sampled_from(['wild', 'flat'])), normal=draw(st.booleans()), seed=draw(st.integers(1, 2**30)))


# ---------------------------------------------------------------- real ramps
@st.composite
def realstrat(draw):
    return dict(dim=draw(st.sampled_from([1, 1, 2])), regions=1, size=1e-5, kind=draw(st.sampled_from(['diode', 'diode', 'bar', 'oxide'])), b=draw(st.sampled_from([0.1, 0.3, 0.35, -0.5, 0.7, -1.0, 0.5, 1e-4])),
                step=draw(st.sampled_from([0.1, 0.05, 0.3, 1.0])), min=draw(st.sampled_from([1e-3, 1e-2, 1e-6])), it=draw(st.sampled_from([30, 30, 6])), seed=draw(st.integers(1, 2**30)))


def run_real(case, ctx):
    R = random.Random(case['seed'])
    dsx.reset()
    D = Dev(case, R)
    r = 'r0'
    n = len(D.nv(r, 'node_index'))
    kind = 'ox' if case['kind'] == 'oxide' else 'si'
    P = Physics(D, r, kind, R, False)
    D.setv(r, 'Potential', [0.0] * n)
    x = D.nv(r, 'x')
    mid = (min(x) + max(x)) / 2
    if kind == 'si':
        na, nd = logu(R, 15, 18), logu(R, 15, 18)
        D.setv(r, 'NetDoping', [nd if case['kind'] == 'bar' or v > mid else -na for v in x])
    contacts = [c for c in ds.get_contact_list(device='d') if c != 'cb']
    calls = []
    with quiet():
        ds.set_parameter(name='debug_level', value='info')
        sp.CreateSiliconPotentialOnly('d', r) if kind == 'si' else sp.CreateOxidePotentialOnly('d', r)
        for c in contacts:
            ds.set_parameter(device='d', name=sp.GetContactBiasName(c), value=0.0)
            sp.CreateSiliconPotentialOnlyContact('d', r, c) if kind == 'si' else sp.CreateOxideContact('d', r, c)
        kw = dict(type='dc', absolute_error=1e12, relative_error=1e-9, maximum_iterations=60)
        try:
            ds.solve(**kw)
            if kind == 'si':
                for c in ('Electrons', 'Holes'):
                    D.setv(r, c, D.nv(r, 'Intrinsic' + c))
                sp.CreateSiliconDriftDiffusion('d', r)
                for c in contacts:
                    sp.CreateSiliconDriftDiffusionAtContact('d', r, c)
                ds.solve(**kw)
        except ds.error as e:
            need(str(e).startswith('Convergence failure'), 'solve: %s', e)
            ctx.count('unconverged')
            return
        c = R.choice(contacts)
        bn = sp.GetContactBiasName(c)
        start = ds.get_parameter(device='d', name=bn)

        def callback(device):
            calls.append((device, ds.get_parameter(device='d', name=bn)))
            if kind == 'si':
                for v in ('Electrons', 'Holes'):
                    need(min(D.nv(r, v)) > 0, '%s not positive after a step', v)
            if R.random() < 0.5 and kind == 'si' and D.dim == 1:
                with quiet() as out:
                    ramp.printAllCurrents(device)
                lines = [q.split('\t') for q in out.getvalue().strip().splitlines()]
                need([q[0] for q in lines] == list(ds.get_contact_list(device='d')), 'currents printed for %s', [q[0] for q in lines])
                for q in lines:
                    e, h = [ds.get_contact_current(device='d', contact=q[0], equation=z) for z in ('ElectronContinuityEquation', 'HoleContinuityEquation')]
                    need([float(z) for z in q[1:]] == [ds.get_parameter(device='d', name=q[0] + '_bias'), e, h, e + h], 'printed %s, currents %r %r', q, e, h)
        try:
            ramp.rampbias('d', c, case['b'], case['step'], case['min'], case['it'], 1e-9, 1e12, callback)
        except RuntimeError as e:
            need('Minimum step' in str(e), 'the ramp ended with %r', e)
            ctx.count('small_step')
            need(ds.get_parameter(device='d', name=bn) == (calls[-1][1] if calls else start), 'bias left at %r after %s', ds.get_parameter(device='d', name=bn), calls[-2:])
            return
    need(ds.get_parameter(device='d', name=bn) == case['b'] and calls and calls[-1] == ('d', case['b']), 'the ramp to %r ended at %r, callbacks %s', case['b'], ds.get_parameter(device='d', name=bn), calls[-3:])
    last = start
    for d, v in calls:
        need(abs(v - last) <= case['step'] * (1 + 1e-9), 'step from %r to %r exceeds %r', last, v, case['step'])
        last = v
    if kind == 'si':
        keep = D.nv(r, 'Potential')
        try:
            with quiet():
                ds.solve(**kw)
        except ds.error as e:                   # rounding keeps the update above the tolerance
            ctx.count('unconverged')
            return
        need(max(abs(a - b) for a, b in zip(keep, D.nv(r, 'Potential'))) <= 1e-5, 'the state after the ramp was no solution')
    # the boundary values and current continuity of the state
    for cc in contacts:
        bias = ds.get_parameter(device='d', name=sp.GetContactBiasName(cc))
        ds.contact_node_model(device='d', contact=cc, name='on_' + cc, equation='1')
        for i, v in enumerate(D.nv(r, 'on_' + cc)):
            if v == 1.0:
                phi = 0.0
                if kind == 'si':
                    N = D.nv(r, 'NetDoping')[i]
                    phi = float(P.p['V_t']) * math.asinh(N / 2 / float(P.p['n_i']))
                need(abs(D.nv(r, 'Potential')[i] - bias - phi) <= 1e-6, 'potential %r at contact %s with bias %r, built-in %r', D.nv(r, 'Potential')[i], cc, bias, phi)
    if kind == 'si':
        cur = [sum(ds.get_contact_current(device='d', contact=q, equation=z) for z in ('ElectronContinuityEquation', 'HoleContinuityEquation')) for q in contacts]
        flux = [abs(a) + abs(b) for a, b in zip(D.ev(r, 'ElectronCurrent'), D.ev(r, 'HoleCurrent'))]
        big = sum(abs(q) for q in cur)
        tot = sum(f * k for f, k in zip(flux, D.ev(r, 'EdgeCouple')))
        # what rounding of potential and densities leaves of the cancelling fluxes
        noise = 1e-13 * max(float(P.p['ElectronCharge'] * P.p['mu_n'] * P.p['V_t']) / l * k for l, k in zip(D.ev(r, 'EdgeLength'), D.ev(r, 'EdgeCouple'))) * max(map(max, (D.nv(r, 'Electrons'), D.nv(r, 'Holes'))))
        need(abs(sum(cur)) <= 1e-4 * big + 1e-6 * tot + noise, 'contact currents %s do not add up (flux %g)', cur, tot)
        if abs(case['b']) >= 0.1 and big > 1e-3 * tot + 100 * noise:
            k = contacts.index(c)
            need(cur[k] * case['b'] > 0, 'current %r into contact %s at bias %r', cur[k], c, case['b'])
    ctx.nontrivial(len(calls) > 0)


# ---------------------------------------------------------------- helpers
@st.composite
def hstrat(draw):
    return dict(dim=draw(st.sampled_from([1, 2])), regions=2, size=1.0, seed=draw(st.integers(1, 2**30)))


def run_help(case, ctx):
    R = random.Random(case['seed'])
    dsx.reset()
    D = Dev(case, R)
    r = R.choice(D.regions)
    W = D.w(r)
    n = len(D.nv(r, 'node_index'))
    A, B = R.sample(['Potential', 'u', 'var2', 'T'], 2)
    with quiet():
        for v in (A, B):
            mc.CreateSolution('d', r, v)
            need(all(x == 0 for x in D.nv(r, v)), 'new solution %s is not zero', v)
            ds.set_node_values(name=v, values=[R.uniform(0.5, 2) for _ in range(n)], **W)
            E = D.edges(r)
            x = D.nv(r, v)
            for k in (0, 1):
                need(D.has(r, '%s@n%d' % (v, k), 'edge'), 'CreateSolution made no edge model %s@n%d', v, k)
                need(list(D.ev(r, '%s@n%d' % (v, k))) == [x[e[k]] for e in E], '%s@n%d differs from the node values', v, k)
        need(mc.InNodeModelList('d', r, A) and not mc.InNodeModelList('d', r, 'none') and not mc.InNodeModelList('d', r, A + '@n0'), 'InNodeModelList')
        need(mc.InEdgeModelList('d', r, A + '@n0') and not mc.InEdgeModelList('d', r, A), 'InEdgeModelList')
        other = [q for q in D.regions if q != r][0]
        need(not mc.InNodeModelList('d', other, A) and not mc.InEdgeModelList('d', other, A + '@n0'), 'models of another region listed')
        # node and edge models with derivatives
        c = [round(R.uniform(0.5, 3), 3) for _ in range(3)]
        forms = [('%r*{a}*{b}+{a}^2' % c[0], lambda a, b: M(c[0]) * a * b + a * a), ('exp(%r*{a})/({b}+%r)' % (c[1], c[2]), lambda a, b: mp.exp(M(c[1]) * a) / (b + M(c[2]))),
                 ('{a}-{b}', lambda a, b: a - b), ('log({a}+{b})*%r' % c[0], lambda a, b: mp.log(a + b) * M(c[0])), ('%r*{b}' % c[2], lambda a, b: M(c[2]) * b)]
        ex, f = R.choice(forms)
        xa, xb = [[M(float(q)) for q in D.nv(r, v)] for v in (A, B)]
        mc.CreateNodeModel('d', r, 'nm', ex.format(a=A, b=B))
        vs = R.choice([(A,), (B,), (A, B), (B, A), ()])
        mc.CreateNodeModelDerivative('d', r, 'nm', ex.format(a=A, b=B), *vs)
        g = D.nv(r, 'nm')
        for i in range(n):
            need(near(float(g[i]), f(xa[i], xb[i]), 10, 1e-12), 'node model %s', ex)
        for v, k in ((A, 0), (B, 1)):
            need(D.has(r, 'nm:' + v) == (v in vs), 'derivatives of the node model: %s for %s', ds.get_node_model_list(**W), vs)
            if v in vs:
                for i, y in enumerate(D.nv(r, 'nm:' + v)):
                    w = deriv(f, [xa[i], xb[i]], k)
                    need(near(float(y), w, 10, 1e-12), 'nm:%s is %r, expected %s (%s)', v, y, mp.nstr(w, 15), ex)
        ex, f = R.choice(forms)
        s = R.choice(['n0', 'n1'])
        o = 'n1' if s == 'n0' else 'n0'
        e1 = ex.format(a=A + '@' + s, b=B + '@' + o)
        mc.CreateEdgeModel('d', r, 'em', e1)
        v = R.choice([A, B])
        mc.CreateEdgeModelDerivatives('d', r, 'em', e1, v)
        js, jo = int(s[1]), int(o[1])
        for i, e in enumerate(D.edges(r)):
            a, b = xa[e[js]], xb[e[jo]]
            need(near(float(D.ev(r, 'em')[i]), f(a, b), 10, 1e-12), 'edge model %s', e1)
            for j in (0, 1):
                w = deriv(f, [a, b], 0) if v == A and j == js else deriv(f, [a, b], 1) if v == B and j == jo else M(0)
                y = D.cache(r, 'em:%s@n%d' % (v, j))[i]
                need(near(float(y), w, 10, 1e-12), 'em:%s@n%d is %r, expected %s (%s)', v, j, y, mp.nstr(w, 15), e1)
        # means
        gm = [abs(x) + 0.1 for x in D.nv(r, A)]
        mc.CreateNodeModel('d', r, 'gmn', '%s^2+0.5' % A)
        mc.CreateNodeModelDerivative('d', r, 'gmn', '%s^2+0.5' % A, A, B)
        mc.CreateGeometricMean('d', r, 'gmn', 'gme')
        mc.CreateGeometricMeanDerivative('d', r, 'gmn', 'gme', A, *R.choice([(), (B,)]))
        for i, e in enumerate(D.edges(r)):
            p, q = xa[e[0]] ** 2 + M('0.5'), xa[e[1]] ** 2 + M('0.5')
            w = mp.sqrt(p * q)
            need(near(float(D.ev(r, 'gme')[i]), w, 0, 1e-12), 'geometric mean')
            for j, (mine, a) in enumerate(((p, xa[e[0]]), (q, xa[e[1]]))):
                need(near(float(D.cache(r, 'gme:%s@n%d' % (A, j))[i]), w / (2 * mine) * 2 * a, 0, 1e-12), 'derivative of the geometric mean')
        try:
            mc.CreateGeometricMeanDerivative('d', r, 'gmn', 'gme')
            need(False, 'no variable accepted by CreateGeometricMeanDerivative')
        except ValueError:
            pass
        # edge models of a node model
        bare = R.choice(['bare', 'x'])
        if bare == 'bare':
            mc.CreateNodeModel('d', r, 'bare', '3*%s' % A)
        have = [q for q in ('@n0', '@n1') if D.has(r, bare + q, 'edge')]
        if not have:
            pre = R.choice(['', '', '@n0', '@n1'])
            if pre:                                   # only one of the two exists
                mc.CreateEdgeModel('d', r, bare + pre, '1')
        for _ in range(R.randint(1, 2)):
            mc.EnsureEdgeFromNodeModelExists('d', r, bare)
        z = D.nv(r, bare)
        for k in (0, 1):
            need(D.has(r, '%s@n%d' % (bare, k), 'edge'), 'EnsureEdgeFromNodeModelExists made no %s@n%d', bare, k)
            need(list(D.ev(r, '%s@n%d' % (bare, k))) == [z[e[k]] for e in D.edges(r)], '%s@n%d differs from the node values', bare, k)
        before = ds.get_edge_model_list(**W)
        try:
            mc.EnsureEdgeFromNodeModelExists('d', r, 'missing')
            need(False, 'EnsureEdgeFromNodeModelExists accepted a model which does not exist')
        except TypeError as q:
            raise Violation('EnsureEdgeFromNodeModelExists raised %r' % q)
        except (RuntimeError, ValueError, KeyError, ds.error) as q:
            need('missing' in str(q), 'message %r does not name the model', str(q))
        need(ds.get_edge_model_list(**W) == before, 'a refused call created models')
        # contacts
        cs = [q for q in ds.get_contact_list(device='d') if ds.get_region_list(device='d', contact=q)[0] == r]
        if cs:
            cn = R.choice(cs)
            ds.set_parameter(device='d', name='bb', value=0.25)
            ds.contact_node_model(device='d', contact=cn, name='on', equation='1')
            ex, f = R.choice(forms)
            e2 = ex.format(a=A, b=B)
            mc.CreateContactNodeModel('d', cn, 'cm', e2)
            mc.CreateContactNodeModelDerivative('d', cn, 'cm', e2, A)
            for i, on in enumerate(D.nv(r, 'on')):
                y, d = D.nv(r, 'cm')[i], D.nv(r, 'cm:' + A)[i]
                if on == 1.0:
                    need(near(float(y), f(xa[i], xb[i]), 10, 1e-12) and near(float(d), deriv(f, [xa[i], xb[i]], 0), 10, 1e-12), 'contact model %s is %r, derivative %r', e2, y, d)
                else:
                    need(y == 0 and d == 0, 'contact model away from the contact: %r %r', y, d)
            e3 = e2.replace(A, A + '@n0').replace(B, B + '@n1') if A != 'T' and B != 'T' else None
            if e3:
                mc.CreateContactEdgeModel('d', cn, 'ce', e3)
                mc.CreateContactEdgeModelDerivative('d', cn, 'ce', e3, A + '@n0')
                on = D.nv(r, 'on')
                for i, e in enumerate(D.edges(r)):
                    y, d = D.cache(r, 'ce')[i], D.cache(r, 'ce:%s@n0' % A)[i]
                    a = [xa[e[0]], xb[e[1]]]
                    if on[e[0]] + on[e[1]] == 1.0:
                        need(near(float(y), f(*a), 10, 1e-12) and near(float(d), deriv(f, a, 0), 10, 1e-12), 'contact edge model %s is %r, derivative %r', e3, y, d)
        # interface
        i = ds.get_interface_list(device='d')[0]
        mc.CreateSolution('d', other, A)
        no = len(D.nv(other, 'node_index'))
        ds.set_node_values(device='d', region=other, name=A, values=[R.uniform(-1, 1) for _ in range(no)])
        nm = mc.CreateContinuousInterfaceModel('d', i, A)
        need(nm == 'continuous' + A, 'continuous model named %r', nm)
        r0, r1 = ds.get_region_list(device='d', interface=i)
        z = {}
        for k in (0, 1):
            ds.interface_model(device='d', interface=i, name='ix%d' % k, equation='node_index@r%d' % k)
            z[k] = [D.nv((r0, r1)[k], A)[int(round(q))] for q in ds.get_interface_model_values(device='d', interface=i, name='ix%d' % k)]
        y = ds.get_interface_model_values(device='d', interface=i, name=nm)
        need([float(q) for q in y] == [a - b for a, b in zip(z[0], z[1])], 'continuous model is %s for %s', list(y), z)
        for k, w in ((0, 1.0), (1, -1.0)):
            q = ds.get_interface_model_values(device='d', interface=i, name='%s:%s@r%d' % (nm, A, k))
            need(all(t == w for t in q) and len(q) == len(y), 'derivative of the continuous model %s', list(q))
        if case['dim'] == 2:
            ex, f = R.choice(forms)
            e4 = ex.format(a=A + '@en0', b=B + '@en2')
            ds.element_from_node_model(node_model=A, **W)
            ds.element_from_node_model(node_model=B, **W)
            mc.CreateElementModel2d('d', r, 'el', e4)
            vs = R.choice([(A,), (A, B), (B,)])
            mc.CreateElementModelDerivative2d('d', r, 'el', e4, *vs)
            g = lambda m: [M(float(q)) for q in ds.get_element_model_values(name=m, **W)]
            a, b, y = g(A + '@en0'), g(B + '@en2'), g('el')
            for q in range(len(y)):
                need(near(y[q], f(a[q], b[q]), 10, 1e-12), 'element model %s', e4)
            for v in vs:
                for k in (0, 1, 2):
                    d = g('el:%s@en%d' % (v, k))
                    for q in range(len(y)):
                        w = deriv(f, [a[q], b[q]], 0) if (v, k) == (A, 0) else deriv(f, [a[q], b[q]], 1) if (v, k) == (B, 2) else M(0)
                        need(near(d[q], w, 10, 1e-12), 'el:%s@en%d is %s, expected %s (%s)', v, k, d[q], mp.nstr(w, 15), e4)
            try:
                mc.CreateElementModelDerivative2d('d', r, 'el', e4)
                need(False, 'no variable accepted by CreateElementModelDerivative2d')
            except ValueError:
                pass
    ctx.nontrivial()


SUITES = [Suite('ramp', rstrat(), run_ramp, quick=3000, thorough=60000),
          Suite('real', realstrat(), run_real, quick=80, thorough=1600),
          Suite('helpers', hstrat(), run_help, quick=120, thorough=3000),
          Suite('dd', dstrat(), run_dd, quick=400, thorough=8000),
          Suite('klaassen', kstrat(), run_kla, quick=80, thorough=1500),
          Suite('surface', sstrat(), run_surface, quick=36, thorough=600)]
