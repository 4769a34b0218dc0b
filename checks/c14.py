"""C14: a reference Newton iteration, run step by step on the assembled matrix, predicts what solve does (every iteration, the errors it reports, when it stops, the final values); faults injected into the iterations have to leave every solution as it was."""
from hypothesis import strategies as st
import math, random
import numpy as np
from harness import Suite, need
import dsx, c09, syslib
from dsx import ds

PROPERTY = 'C14'
RULE = ('newton: a random nonlinear system (1 or 2 devices, interfaces, circuits, every update type) with random tolerances and iteration, divergence and error limits is solved by a reference (matrix and residual from get_matrix_and_rhs at each step, dense solution, update rules), '
        'then with solve(info=True): convergence, number of iterations, every reported error of devices, regions, equations and circuit, and the final values agree (1e-6, cases within 1e-4 of a limit are left undecided); after a refusal every value has its previous bits. Non-trivial: at least 2 iterations were compared. '
        'faults: one thing goes wrong at a random iteration (invalid operation, overflow, singular matrix, exception in a Python callback, a NaN, missing model, non-positive start of a positive variable, missing history, missing circuit node, error and iteration limits): the call raises, all node and circuit solutions, '
        'the models made from them and the contact currents are as before bit for bit, and after the cause is removed the solve gives the same bits as in a session in which nothing failed. Non-trivial: the fault came after at least one update. '
        'exact: decoupled unknowns whose update lands exactly on chosen values (zero, negative, tiny, denormal, equal): the new value and the reported errors are those of the update rule, and a positive variable stays positive. Non-trivial: some update crosses zero, or another rule.')
ASSUMPTIONS = ['device error: largest over the regions (absolute), sum over the regions (relative); region: sum over its equations; equation: largest over its nodes; circuit: sum of the updates, largest relative update (as implemented; not documented)',
               'the divergence limit is compared for systems of one device']


@st.composite
def strat(draw):
    ms = [draw(c09.mesh_case())]
    if draw(st.integers(0, 4)) == 0:
        ms.append(draw(c09.mesh_case()))
    for i, m in enumerate(ms):
        m.update(dname='d%d' % i, scale=1.0, itf=True)
    sysc = dict(law=draw(st.sampled_from(['k', 'sg', 'mix', 'lin'])), el=draw(st.booleans()), src=draw(st.booleans()), curvol=False, circ=draw(st.sampled_from([0, 1, 1])), itf=draw(st.sampled_from(['continuous', 'fluxterm', 'hybrid'])), nv=draw(st.integers(1, 2)),
                upd={v: draw(st.sampled_from(['default', 'default', 'log_damp', 'positive'])) for v in 'uv'})
    tol = st.sampled_from([1e30, 10.0, 1.0, 1.0, 0.1, 1e-2, 1e-3, 1e-5, 1e-8])
    return dict(m=ms, sys=sysc, seed=draw(st.integers(1, 2**30)), abs=draw(tol), rel=draw(tol), maxit=draw(st.one_of(st.integers(0, 5), st.integers(6, 15), st.just(20))), maxdiv=draw(st.sampled_from([20, 20, 1, 2, 3])), maxerr=draw(st.sampled_from([None, None, 10.0, 1.0, 0.1])),
                amp=draw(st.sampled_from([1.0, 1.0, 5.0])), ext=draw(st.sampled_from([0, 0, 0, 1])), cupd=draw(st.sampled_from(['default', 'log_damp', 'positive'])), info=draw(st.sampled_from([True, True, True, False])))


def build(case, R):
    """-> [System], own circuit nodes {name: update}"""
    dsx.reset()
    c09.params()
    for x in [[], ['extended_solver'], ['extended_solver', 'extended_model', 'extended_equation']][case.get('ext', 0)]:
        ds.set_parameter(name=x, value=True)
    upd = {}
    if case['sys']['circ']:
        for i in range(2):
            n = 'own%d' % i
            upd[n] = case['cupd']
            ds.add_circuit_node(name=n, variable_update=case['cupd'], value=R.uniform(0.1, 1))
        ds.circuit_element(name='Vown', n1='own0', n2='0', value=R.uniform(0.1, 3))
        ds.circuit_element(name='Rown', n1='own0', n2='own1', value=R.uniform(0.1, 3))
        ds.circuit_element(name='Rown2', n1='own1', n2='0', value=R.uniform(0.1, 3))
    out = []
    for m in case['m']:
        s = syslib.build(dict(case['sys'], m=m), R, d=m['dname'], pre=m['dname'])
        for g in s.regs.values():
            for v in s.vs:
                ds.set_node_values(name=v, values=[R.uniform(0.05, case['amp']) if case['sys']['upd'][v] == 'positive' else R.uniform(-1, 1) * case['amp'] for _ in range(g.n)], **g.w)
        out.append(s)
    if case['sys']['circ']:
        ds.get_matrix_and_rhs()
        for n in ds.get_circuit_node_list():
            if not n.startswith('own'):
                ds.set_circuit_node_value(node=n, solution='dcop', value=R.uniform(-1, 1))
    return out, upd


def get_state(S):
    a = {(g.d, g.r, v): list(ds.get_node_model_values(name=v, **g.w)) for s in S for g in s.regs.values() for v in s.vs}
    c = {n: ds.get_circuit_node_value(node=n, solution='dcop') for n in ds.get_circuit_node_list()}
    return a, c


def put_state(S, x):
    for s in S:
        for g in s.regs.values():
            for v in s.vs:
                ds.set_node_values(name=v, values=x[0][g.d, g.r, v], **g.w)
    for n, v in x[1].items():
        ds.set_circuit_node_value(node=n, solution='dcop', value=v)


class Stop(Exception):
    pass


def damp(ut, old, upd):
    """New value and update, from the documentation of the update types."""
    if ut == 'log_damp' and abs(upd) > 0.0259:
        upd = math.copysign(0.0259 * math.log(1 + abs(upd) / 0.0259), upd)
    new = old + upd
    if ut == 'positive' and new <= 0:
        new = 0.001 * old
        upd = new - old
    return new, upd


def assemble(S):
    M = ds.get_matrix_and_rhs(format='csr')
    q = M['static']
    n = len(q['rhs'])
    A = np.zeros((n, n))
    ap, ai, av = list(q['ap']), list(q['ai']), list(q['av'])
    for i in range(n):
        for k in range(ap[i], ap[i + 1]):
            A[i, ai[k]] += av[k]
    return A, np.array(list(q['rhs']))


def step(S, upd, x, circ_upd, minerr=1e-10):
    """One reference iteration from the state the simulator holds: new state and errors."""
    A, b = assemble(S)
    if not (np.all(np.isfinite(A)) and np.all(np.isfinite(b))):
        raise Stop('not finite')
    try:
        cond = np.linalg.cond(A)
        if cond > 1e10:
            raise Stop('nearly singular')
        dx = np.linalg.solve(A, b)
    except np.linalg.LinAlgError:
        raise Stop('singular')
    a, c = {}, {}
    # rounding of an update
    nz = max(NOISE, 1e-15 * cond * (1 + float(np.max(np.abs(dx)))))
    err = {'devices': {}, 'nz': nz}
    for s in S:
        dev = err['devices'][s.d] = dict(abs=0.0, rel=0.0, noise=0.0, regions={})
        for g in s.regs.values():
            reg = dev['regions'][g.r] = dict(abs=0.0, rel=0.0, noise=0.0, eq={})
            for v in s.vs:
                num = list(ds.get_equation_numbers(equation='eq_' + v, **g.w))
                old = x[0][g.d, g.r, v]
                z = [damp(upd[v], o, float(dx[i])) for o, i in zip(old, num)]
                a[g.d, g.r, v] = [t[0] for t in z]
                ae = [abs(t[1]) for t in z]
                re = [abs(t[1]) / (abs(t[0]) + minerr) for t in z]
                noise = max(nz * (1 + abs(t[0])) / (abs(t[0]) + minerr) for t in z)
                reg['eq']['eq_' + v] = (ae, re, noise)
                reg['noise'] += noise
                reg['abs'] += max(ae)
                reg['rel'] += max(re)
            dev['abs'] = max(dev['abs'], reg['abs'])
            dev['rel'] += reg['rel']
            dev['noise'] += reg['noise']
    ca = cr = cnoise = 0.0
    for n, o in x[1].items():
        i = ds.get_circuit_equation_number(node=n)
        ut = circ_upd.get(n, 'default')
        u = float(dx[i])
        if ut == 'positive':
            while u + o <= 0:
                u /= 2
            new = o + u
        else:
            new, u = damp(ut, o, u)
        c[n] = new
        ca += abs(u)
        cr = max(cr, abs(u) / (abs(new) + 1e-10))
        cnoise = max(cnoise, nz * (1 + abs(new)) / (abs(new) + 1e-10))
    err['circuit'] = (ca, cr, cnoise) if x[1] else None
    return (a, c), err


NOISE = 1e-11  # least rounding of an update


def near(x, lim, noise=0.0, nz=NOISE):
    """Too close to a limit to call."""
    return math.isfinite(lim) and abs(x - lim) <= (1e-4 + nz * min(x, 1 / nz)) * lim + nz + noise


def snapshot(S):
    """Bits of everything a failed solve must not touch."""
    out = {}
    for s in S:
        for g in s.regs.values():
            for n in ds.get_node_model_list(**g.w):
                if not n.endswith('_prev'):
                    out[g.d, g.r, n] = [dsx.bits(v) for v in ds.get_node_model_values(name=n, **g.w)]
            for n in ('F_u', 'F_u:u@n0'):
                out[g.d, g.r, n] = [dsx.bits(v) for v in ds.get_edge_model_values(name=n, **g.w)]
        for c, v, o, r in s.cont:
            out[s.d, c, v] = dsx.bits(ds.get_contact_current(device=s.d, contact=c, equation='eq_' + v)), dsx.bits(ds.get_contact_charge(device=s.d, contact=c, equation='eq_' + v))
    for n in ds.get_circuit_node_list():
        out[n] = dsx.bits(ds.get_circuit_node_value(node=n, solution='dcop'))
    return out


def same_snapshot(a, b, what):
    need(set(a) == set(b), '%s: different models exist afterwards: %s', what, sorted(map(str, set(a) ^ set(b)))[:4])
    for k in a:
        need(a[k] == b[k], '%s: %s has changed', what, k)


def run_newton(case, ctx):
    R = random.Random(case['seed'])
    S, cu = build(case, R)
    upd = case['sys']['upd']
    x0 = get_state(S)
    before = snapshot(S)
    maxerr = case['maxerr'] or math.inf
    # reference
    hist = []
    x = x0
    conv, undecided, div, hit, lr, la = False, False, 0, False, 0.0, 0.0
    try:
        while len(hist) < case['maxit'] and not conv and div < case['maxdiv'] and not hit:
            put_state(S, x)
            nx, e = step(S, upd, x, cu)
            if max([abs(v) for l in nx[0].values() for v in l] + [0]) > 1e4:
                raise Stop('far away')
            conv = True
            for d in sorted(e['devices']):
                a, r = e['devices'][d]['abs'], e['devices'][d]['rel']
                undecided |= near(a, case['abs'], 0.0, e['nz']) or near(r, case['rel'], e['devices'][d]['noise'], e['nz']) or near(a, maxerr, 0.0, e['nz'])
                if (r > case['rel'] and (r > lr)) or (a > case['abs'] and a > la):
                    div += 1
                else:
                    div = 0
                undecided |= near(r, lr, e['devices'][d]['noise'], e['nz']) or near(a, la, 0.0, e['nz'])
                lr, la = r, a
                conv = conv and r < case['rel'] and a < case['abs']
                hit = hit or a > maxerr
            if e['circuit']:
                a, r, noise = e['circuit']
                undecided |= near(a, case['abs'], 0.0, e['nz']) or near(r, case['rel'], noise, e['nz']) or near(a, maxerr, 0.0, e['nz'])
                conv = conv and r < case['rel'] and a < case['abs']
                hit = hit or a > maxerr
            hist.append((nx, e))
            x = nx
            if len(S) > 1 and case['maxdiv'] != 20:
                undecided = True
    except Stop as ex:
        ctx.count(str(ex))
        undecided = True
    put_state(S, x0)
    same_snapshot(before, snapshot(S), 'restoring by hand')
    args = dict(type='dc', absolute_error=case['abs'], relative_error=case['rel'], maximum_iterations=case['maxit'], maximum_divergence=case['maxdiv'])
    if case['maxerr']:
        args['maximum_error'] = case['maxerr']
    res = None
    try:
        res = ds.solve(info=case['info'], **args)
        ok = res['converged'] if case['info'] else True
        need(case['info'] == isinstance(res, dict), 'solve returned %r', type(res))
    except ds.error as ex:
        ok = False
        need(not case['info'] or 'FPE' in str(ex) or 'FATAL' in str(ex), 'solve(info=True) raised %s', ex)
        ctx.count('raised')
    if not ok:
        same_snapshot(before, snapshot(S), 'refused solve')
    if undecided:
        ctx.count('undecided')
        if ok:
            finite(S)
        return
    need(ok == conv, 'solve %s, the reference %s after %d iterations; last errors %s', 'converged' if ok else 'did not converge', 'converges' if conv else 'does not converge', len(hist), hist and {d: (v['abs'], v['rel']) for d, v in hist[-1][1]['devices'].items()})
    if ok:
        y = get_state(S)
        for k in x[0]:
            for i, (p, q) in enumerate(zip(x[0][k], y[0][k])):
                need(abs(p - q) <= 1e-6 * (abs(p) + 1e-3), '%s node %d is %r after the solve, reference %r', k, i, q, p)
                if upd[k[2]] == 'positive':
                    need(q > 0, 'positive variable %s is %r', k, q)
        for n in x[1]:
            need(abs(x[1][n] - y[1][n]) <= 1e-6 * (abs(x[1][n]) + 1e-3), 'circuit node %s is %r, reference %r', n, y[1][n], x[1][n])
    if res:
        need(res['number_of_equations'] == len(assemble(S)[1]), 'number of equations %r', res['number_of_equations'])
        it = res['iterations']
        need(len(it) == len(hist), '%d iterations reported, reference %d', len(it), len(hist))
        # a relative error above 1 comes with a small new value, which has lost digits
        for k, (z, (_, e)) in enumerate(zip(it, hist)):
            E = lambda a, b, noise=0.0: abs(a - b) <= (1e-5 + e['nz'] * b) * b + 100 * e['nz'] + noise
            need(z['iteration'] == k, 'iteration number')
            need([q['name'] for q in z['devices']] == sorted(e['devices']), 'devices of an iteration')
            for q in z['devices']:
                w = e['devices'][q['name']]
                need(E(q['absolute_error'], w['abs']) and E(q['relative_error'], w['rel'], w['noise']), 'iteration %d: errors of device %r, reference %r', k, (q['absolute_error'], q['relative_error']), (w['abs'], w['rel']))
                need(sorted(p['name'] for p in q['regions']) == sorted(w['regions']), 'regions of an iteration')
                for p in q['regions']:
                    u = w['regions'][p['name']]
                    need(E(p['absolute_error'], u['abs']) and E(p['relative_error'], u['rel'], u['noise']), 'iteration %d: errors of region %r, reference %r', k, (p['absolute_error'], p['relative_error']), (u['abs'], u['rel']))
                    need(sorted(t['name'] for t in p['equations']) == sorted(u['eq']), 'equations of an iteration')
                    for t in p['equations']:
                        for q1, l in zip(('absolute', 'relative'), u['eq'][t['name']]):
                            val, node = t[q1 + '_error'], t[q1 + '_error_node']
                            noise = u['eq'][t['name']][2] if q1 == 'relative' else 0.0
                            need(E(val, max(l), noise), 'iteration %d: %s error of %s is %r, reference %r', k, q1, t['name'], val, max(l))
                            need(0 <= node < len(l) and E(l[node], max(l), noise), 'iteration %d: %s error node of %s is %d with %r, the largest is %r', k, q1, t['name'], node, l[node] if node < len(l) else None, max(l))
            if e['circuit']:
                need(E(z['circuit']['absolute_error'], e['circuit'][0]) and E(z['circuit']['relative_error'], e['circuit'][1], e['circuit'][2]), 'iteration %d: circuit errors %r, reference %r', k, z['circuit'], e['circuit'])
            else:
                need('circuit' not in z, 'circuit errors without a circuit')
    ctx.count('converged' if ok else 'limit')
    if len(hist) >= 2:
        ctx.nontrivial()


def finite(S):
    a, c = get_state(S)
    for k, l in list(a.items()) + [(n, [v]) for n, v in c.items()]:
        need(all(math.isfinite(v) for v in l), 'solve accepted %s = %s', k, l[:5])


FAULTS = ['invalid', 'overflow', 'singular', 'pyraise', 'pynan', 'nan', 'missing', 'cmissing', 'positive', 'history', 'cnode', 'maxit', 'maxerr', 'log', 'cpos', 'none']


@st.composite
def fstrat(draw):
    c = draw(strat())
    c.update(fault=draw(st.sampled_from(FAULTS)), at=draw(st.integers(1, 3)), kind=draw(st.sampled_from(['dc', 'dc', 'transient_dc', 'transient_bdf1'])), info=draw(st.booleans()), where=draw(st.integers(0, 2**20)), pre=draw(st.booleans()))
    c['sys']['upd'] = {'u': draw(st.sampled_from(['default', 'log_damp'])), 'v': draw(st.sampled_from(['default', 'positive']))}
    c['amp'] = 1.0
    if c['fault'] in ('cnode', 'cpos'):
        c['sys']['circ'] = 1
    if c['fault'] == 'cpos':
        c['cupd'] = 'positive'
    if c['fault'] == 'positive':
        c['sys']['upd'] = {'u': 'positive', 'v': 'positive'}
    return c


OK = dict(absolute_error=1e30, relative_error=1e30, maximum_iterations=1)


def run_faults(case, ctx):
    """The extra variable f counts the iterations: f goes from 0 by 1 at each one, and the fault is a function of it."""
    finals = []
    for broken in (True, False):
        R = random.Random(case['seed'])
        S, cu = build(case, R)
        f = case['fault']
        allr = [g for s in S for _, g in sorted(s.regs.items())]
        g = allr[case['where'] % len(allr)]
        w = g.w
        ds.set_parameter(name='on', value=0.0)
        ds.node_solution(name='f', **w)
        at = case['at'] - 0.5
        # eq. f: step is +1 per iteration; the fault term is evaluated from f
        term = {'invalid': '1e-200*log(ifelse(f>%r,-1,1)*on+(1-on))' % at, 'log': '1e-200*log(%r-f*on)' % at, 'overflow': '1e-200*exp(ifelse(f>%r,1e5,0)*on)' % at}.get(f, '0')
        ds.node_model(name='nf', equation='-1+%s' % term, **w)
        ds.node_model(name='nf:f', equation='ifelse(f>%r,1-on,1)' % at if f == 'singular' else '1', **w)
        # weights cancel: both are multiplied by the same node volume
        ds.equation(name='eq_f', variable_name='f', node_model='nf', **w)
        calls = [0]

        def cb(what, mode):
            calls[0] += 1
            if calls[0] > case['at'] and ds.get_parameter(name='on') == 1.0:
                if f == 'pyraise':
                    raise ValueError('out of order')
                if f == 'pynan':
                    return [], [0, float('nan')], True
            return [], [], True
        if f in ('pyraise', 'pynan'):
            ds.custom_equation(name='cb', procedure=cb)
        if case['pre']:
            err = dsx.raises(ds.solve, type='transient_dc', **OK)
            if err:
                ctx.count('pre failed')
                return
            ds.set_node_values(name='f', values=[0.0] * g.n, **w)
        tiny = dict(absolute_error=1e-300, relative_error=1e-300, maximum_iterations=case['at'] + 2)
        kind = case['kind']
        if kind == 'transient_bdf1' and not case['pre']:
            kind = 'transient_dc'
        args = dict(type=kind, **tiny)
        if kind == 'transient_bdf1':
            args.update(tdelta=1.0, charge_error=1e30)
        undo = lambda: None
        if f == 'history':
            args['type'] = 'transient_bdf2'
            args.update(tdelta=1.0, gamma=0.5, charge_error=1e30)
        if broken:
            if f in ('invalid', 'log', 'overflow', 'singular', 'pyraise', 'pynan'):
                ds.set_parameter(name='on', value=1.0)
                undo = lambda: ds.set_parameter(name='on', value=0.0)
            elif f == 'nan':
                ds.node_solution(name='t', **w)
                ds.set_node_values(name='t', values=[float('nan') if i == case['where'] % g.n else 0.0 for i in range(g.n)], **w)
                ds.node_model(name='nf', equation='-1+t', **w)
                undo = lambda: (ds.node_model(name='nf', equation='-1+0', **w), ds.delete_node_model(name='t', **w))
                args.update(absolute_error=1e30, relative_error=1e30)
            elif f == 'missing':
                ds.edge_solution(name='none_such', **w)
                ds.equation(name='eq_f', variable_name='f', node_model='nf', edge_model='none_such', **w)
                ds.delete_edge_model(name='none_such', **w)
                undo = lambda: ds.equation(name='eq_f', variable_name='f', node_model='nf', **w)
            elif f == 'cmissing':
                c = [c for c in sorted(ds.get_contact_list(device=g.d)) if ds.get_region_list(device=g.d, contact=c)[0] == g.r]
                if not c:
                    ctx.count('no contact')
                    return
                c = c[case['where'] % len(c)]
                ds.contact_node_model(device=g.d, contact=c, name='none_such', equation='1')
                ds.contact_equation(device=g.d, contact=c, name='eq_f', node_model='none_such')
                ds.delete_node_model(name='none_such', **w)
                undo = lambda: ds.delete_contact_equation(device=g.d, contact=c, name='eq_f')
            elif f == 'positive':
                old = ds.get_node_model_values(name='u', **w)
                ds.set_node_values(name='u', values=[-abs(v) if i == case['where'] % g.n else v for i, v in enumerate(old)], **w)
                undo = lambda: ds.set_node_values(name='u', values=old, **w)
            elif f == 'cnode':
                c = [c for c in sorted(ds.get_contact_list(device=g.d)) if ds.get_region_list(device=g.d, contact=c)[0] == g.r]
                if not c:
                    ctx.count('no contact')
                    return
                c = c[case['where'] % len(c)]
                ds.contact_equation(device=g.d, contact=c, name='eq_f', node_current_model='nf', circuit_node='nowhere')
                undo = lambda: ds.delete_contact_equation(device=g.d, contact=c, name='eq_f')
            elif f == 'cpos':
                old = ds.get_circuit_node_value(node='own1', solution='dcop')
                ds.set_circuit_node_value(node='own1', solution='dcop', value=-abs(old))
                undo = lambda: ds.set_circuit_node_value(node='own1', solution='dcop', value=old)
            elif f == 'maxit':
                pass
            elif f == 'maxerr':
                args.update(absolute_error=1e-6, relative_error=1e-6, maximum_error=0.5)
            before = snapshot(S)
            before['f'] = [dsx.bits(v) for v in ds.get_node_model_values(name='f', **w)]
            calls[0] = 0
            try:
                res = ds.solve(info=case['info'], **args)
                ok = res['converged'] if case['info'] else True
            except ds.error as ex:
                ok = False
                ctx.count('raised by ' + f)
            except Exception as ex:
                need(f == 'pyraise', 'solve raised %r', ex)
                ok = False
            if f == 'history' and case['pre']:
                # a TR step may follow, BDF2 needs two points
                need(not ok, 'a BDF2 step without history was accepted')
            need(not ok, 'solve succeeded in spite of the fault %s', f)
            after = snapshot(S)
            after['f'] = [dsx.bits(v) for v in ds.get_node_model_values(name='f', **w)]
            same_snapshot(before, after, 'fault %s' % f)
            undo()
            ds.set_parameter(name='on', value=0.0)
        calls[0] = 0
        err = dsx.raises(ds.solve, type='dc', **OK)
        if err:
            ctx.count('repaired solve failed')
            finals.append(str(err))
        else:
            fin = snapshot(S)
            for k in list(fin):
                if k[-1] == 't':
                    del fin[k]
            finals.append(fin)
    if isinstance(finals[0], str) or isinstance(finals[1], str):
        need(isinstance(finals[0], str) and isinstance(finals[1], str), 'after the fault %s the solve %s, without it %s', f, *['fails' if isinstance(x, str) else 'succeeds' for x in finals])
    else:
        same_snapshot(finals[1], finals[0], 'solve after the fault %s, against a session without it' % f)
    ctx.count('fault:' + f)
    ctx.nontrivial()


@st.composite
def estrat(draw):
    """Decoupled unknowns u with residual c (u - t): one step lands on t exactly."""
    dy = st.integers(-64, 64).map(lambda k: k / 16)
    pos = st.one_of(st.integers(1, 64).map(lambda k: k / 16), st.sampled_from([5e-324, 1e-323, 1e-300, 2.0**-60, 2.0**70]))
    upd = draw(st.sampled_from(['default', 'positive', 'positive', 'log_damp']))
    n = draw(st.integers(2, 6))
    old = draw(st.lists(pos if upd == 'positive' else dy, min_size=n, max_size=n))
    kind = st.sampled_from(['zero', 'neg', 'tiny', 'near', 'same', 'any', 'far'])
    return dict(upd=upd, old=old, kind=draw(st.lists(kind, min_size=n, max_size=n)), val=draw(st.lists(dy, min_size=n, max_size=n)), c=draw(st.sampled_from([1.0, -1.0, 0.5, 4.0, -0.125])), ext=draw(st.sampled_from([0, 0, 0, 1])), steps=draw(st.integers(1, 3)),
                type=draw(st.sampled_from(['dc', 'dc', 'transient_dc'])))


def run_exact(case, ctx):
    dsx.reset()
    if case['ext']:
        for p in ('extended_solver', 'extended_model', 'extended_equation'):
            ds.set_parameter(name=p, value=True)
    n = len(case['old'])
    ds.create_gmsh_mesh(mesh='m', coordinates=[float(z) for i in range(n) for z in (i, 0, 0)], physical_names=['g'], elements=[z for i in range(n - 1) for z in (1, 0, i, i + 1)])
    ds.add_gmsh_region(mesh='m', gmsh_name='g', region='r', material='Si')
    ds.finalize_mesh(mesh='m')
    ds.create_device(mesh='m', device='d')
    w = dict(device='d', region='r')
    ds.set_parameter(name='node_volume_model', value='one')
    ds.node_model(name='one', equation='1', **w)
    for x in ('u', 't'):
        ds.node_solution(name=x, **w)
    if case['ext'] or abs(case['c']) != 1:  # 128 bit updates of values at the end of the double range are not compared, nor products that underflow
        case = dict(case, old=[o if abs(o) > 1e-290 or o == 0 else 1e-290 for o in case['old']])
    ds.set_node_values(name='u', values=case['old'], **w)
    ds.node_model(name='f', equation='%r*(u-t)' % case['c'], **w)
    ds.node_model(name='f:u', equation='%r' % case['c'], **w)
    ds.equation(name='eq', variable_name='u', node_model='f', variable_update=case['upd'], **w)
    val = case['val']
    for step_no in range(1 if case['ext'] else case['steps']):  # 128 bit values solved with double factors
        old = list(ds.get_node_model_values(name='u', **w))
        t = [{'zero': 0.0, 'neg': -abs(v) or -1.0, 'tiny': 2.0**-40 if o < 2.0**10 else o, 'near': o + 2.0**-20 * v, 'same': o, 'any': v, 'far': o - 4 * abs(o)}[k] for o, v, k in zip(old, val, case['kind'])]
        ds.set_node_values(name='t', values=t, **w)
        r = ds.solve(type=case['type'], absolute_error=1e300, relative_error=1e300, maximum_iterations=3, info=True)
        need(r['converged'] and len(r['iterations']) == 1, 'a step with no limits took %d iterations, converged %s', len(r['iterations']), r['converged'])
        got = list(ds.get_node_model_values(name='u', **w))
        new, crossed = [], 0
        for o, x in zip(old, t):
            dx = (x - o)
            if case['upd'] == 'positive' and o + dx <= 0:
                crossed += 1
                z = 0.001 * o or 0.5 * o or o
                new.append((z, z - o))
            elif case['upd'] == 'log_damp' and abs(dx) > 0.0259:
                z = math.copysign(0.0259 * math.log1p(abs(dx) / 0.0259), dx)
                new.append((o + z, z))
            else:
                new.append((o + dx, dx))
        for i, (g, (z, _)) in enumerate(zip(got, new)):
            need(abs(g - z) <= 1e-15 * max(abs(z), abs(old[i]) if case['upd'] == 'log_damp' or case['ext'] and z == t[i] else 0.0) or dsx.bits(g) == dsx.bits(z) or case['ext'] and abs(g - z) <= 1e-323, 'u[%d] goes from %r to %r, expected %r (residual zero at %r, update %s)', i, old[i], g, z, t[i], case['upd'])
            need(case['upd'] != 'positive' or g > 0, 'u[%d] became %r', i, g)
        e = r['iterations'][0]['devices'][0]['regions'][0]['equations'][0]
        ae = max(abs(u) for _, u in new)
        re = max(abs(u) / (abs(z) + 1e-10) for z, u in new)
        need(abs(e['absolute_error'] - ae) <= 1e-9 * ae + 1e-300, 'the absolute error is reported as %r, the update was %r', e['absolute_error'], ae)
        need(abs(e['relative_error'] - re) <= 1e-9 * re + 1e-300, 'the relative error is reported as %r, the update was %r', e['relative_error'], re)
        if crossed or case['upd'] != 'positive':
            ctx.nontrivial()


SUITES = [Suite('newton', strat, run_newton, quick=900, thorough=40000), Suite('faults', fstrat, run_faults, quick=900, thorough=30000),
          Suite('exact', estrat, run_exact, quick=600, thorough=20000)]
