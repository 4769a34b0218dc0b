"""C18: random histories of circuit commands (elements, nodes, aliases, altered parameters, solves of all kinds, readings, refused commands) on circuits with attached one-dimensional devices, against a reference netlist simulated by modified nodal analysis in numpy."""
from hypothesis import strategies as st
import random
import numpy as np
from harness import Suite, need
import dsx
from dsx import ds
from c16 import coefficients

PROPERTY = 'C18'
RULE = ('A case is a history of up to 30 commands: circuit nodes with initial values and all update types, elements of all kinds with names in both cases between nodes, ground names and aliases, aliases made before and after elements use them, altered values and AC values, devices (a conductor with capacitance on a random 1D mesh, contacts on a node, an alias, ground or a fixed bias), dc, ac and transient solves, values set by hand, readings of lists, values and equation numbers, delete_circuit, and commands that have to be refused. '
        'After every solve every node voltage and branch current, read by the node name, by every alias and by models on devices, equals modified nodal analysis of the model netlist (1e-7), the node list is exactly that of the model, equation numbers are distinct and agree between aliases, solution names are those of the solves done, and the operating point is untouched by ac. A refused command leaves lists, values and the next solution as they were. Non-trivial: at least two solves compared on a netlist of at least three elements.')
ASSUMPTIONS = ['the current source drives its value into n1, the branch current of V and L flows from n1 through the element, which is what the code does and the manual leaves open',
               'cases with an ill-conditioned network (1e8) end there; voltage source and inductor loops are not generated',
               'elements which are added after the first solve may be refused']

NODES = ['1', '2', '3', 'na', 'nb', 'out', '10', 'x.y']
ALIAS = ['A1', 'A2', 'bias', 'anode', 'tap']
OPS = ['node', 'elem', 'elem', 'elem', 'elem', 'alias', 'alias', 'alter', 'dev', 'watch', 'bad', 'solve', 'dc', 'ac', 'ac', 'tdc', 'tran', 'tran', 'set', 'alterac', 'delete', 'bad', 'mat', 'one']


@st.composite
def strat(draw):
    pre = draw(st.lists(st.sampled_from(OPS[:11]), min_size=2, max_size=14))
    post = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=16))
    return dict(ops=pre + [draw(st.sampled_from(['dc', 'tdc']))] + post, seed=draw(st.integers(1, 2**30)), ext=draw(st.sampled_from([0, 0, 0, 1])))


class Net:
    def __init__(s):
        s.nodes, s.alias, s.E, s.locked, s.ac = {}, {}, [], False, {}

    def real(s, n):
        return s.alias.get(n, n)

    def known(s, n):
        return n in s.nodes or n in s.alias or n in ('0', 'GND')

    def gnd(s, n):
        return s.real(n) in ('0', 'GND')

    def unknowns(s):
        return sorted(n for n in s.nodes) + ['%s.I' % e['name'] for e in s.E if e['t'] in 'VL']

    def loop(s, a, b):
        """whether a and b are joined by voltage sources and inductors."""
        seen, todo = set(), ['0' if s.gnd(a) else s.real(a)]
        b = '0' if s.gnd(b) else s.real(b)
        while todo:
            n = todo.pop()
            if n == b:
                return True
            seen.add(n)
            for e in s.E:
                if e['t'] in 'VL':
                    p, q = ('0' if s.gnd(k) else s.real(k) for k in (e['n1'], e['n2']))
                    for u, v in ((p, q), (q, p)):
                        if u == n and v not in seen:
                            todo.append(v)
        return False

    def system(s):
        names = s.unknowns()
        ix = {n: i for i, n in enumerate(names)}
        N = len(names)
        G, C, b, ac = np.zeros((N, N)), np.zeros((N, N)), np.zeros(N), np.zeros(N, complex)

        def row(n):
            return None if s.gnd(n) else ix[s.real(n)]

        def stamp(M, p, q, v):
            for i, j, z in ((p, p, v), (q, q, v), (p, q, -v), (q, p, -v)):
                if i is not None and j is not None:
                    M[i, j] += z
        for e in s.E:
            p, q = (row(n) if n is not None else None for n in (e['n1'], e['n2']))
            t, v = e['t'], e.get('v')
            if t == 'R':
                stamp(G, p, q, 1 / v)
            elif t == 'C':
                stamp(C, p, q, v)
            elif t == 'D':
                stamp(G, p, q, e['g'])
                stamp(C, p, q, e['c'])
                for i, z in ((p, e['g'] * e['fix'][1]), (q, e['g'] * e['fix'][0])):
                    if i is not None:
                        b[i] += z
            elif t == 'I':
                if p is not None:
                    b[p] += v
                if q is not None:
                    b[q] -= v
            else:
                k = ix['%s.I' % e['name']]
                for i, z in ((p, 1.0), (q, -1.0)):
                    if i is not None:
                        G[i, k] += z
                        G[k, i] += z
                if t == 'L':
                    C[k, k] -= v
                else:
                    b[k] += v
                    ac[k] += e['ac']
        return names, G, C, b, ac


ARGS = dict(absolute_error=1e-9, relative_error=1e30, maximum_iterations=400)


def device(R, k, net, ends):
    """A conductor of length 1 between two circuit nodes or fixed potentials; returns the element."""
    d = 'dev%d' % k
    ds.create_1d_mesh(mesh=d)
    ds.add_1d_mesh_line(mesh=d, pos=0, ps=R.uniform(0.1, 1), tag='a')
    ds.add_1d_mesh_line(mesh=d, pos=1, ps=R.uniform(0.1, 1), tag='b')
    ds.add_1d_region(mesh=d, region='r', material='m', tag1='a', tag2='b')
    for t in 'ab':
        ds.add_1d_contact(mesh=d, name='c' + t, tag=t, material='metal')
    ds.finalize_mesh(mesh=d)
    ds.create_device(mesh=d, device=d)
    w = dict(device=d, region='r')
    g, c = R.uniform(0.2, 5), R.choice([0, R.uniform(0.1, 2)])
    ds.set_parameter(name='g', value=g, **w)
    ds.set_parameter(name='cc', value=c, **w)
    ds.node_solution(name='V', **w)
    ds.edge_from_node_model(node_model='V', **w)
    for m, p in (('J', 'g'), ('Q', 'cc')):
        ds.edge_model(name=m, equation='%s*(V@n0-V@n1)*EdgeInverseLength' % p, **w)
        for n, s in (('n0', ''), ('n1', '-')):
            ds.edge_model(name='%s:V@%s' % (m, n), equation='%s%s*EdgeInverseLength' % (s, p), **w)
    ds.equation(name='eq', variable_name='V', edge_model='J', **w)
    fix = [0.0, 0.0]
    for i, (t, n) in enumerate(zip('ab', ends)):
        x = {}
        q = dict(device=d, contact='c' + t)
        ds.contact_node_model(name='bc_%s:V' % t, equation='1', **q)
        if n is None:
            fix[i] = R.uniform(-1, 1)
            ds.contact_node_model(name='bc_' + t, equation='V-(%r)' % fix[i], **q)
        else:
            ds.contact_node_model(name='bc_' + t, equation='V-' + n if n != '0' else 'V', **q)
            if n != '0':
                ds.contact_node_model(name='bc_%s:%s' % (t, n), equation='-1', **q)
            x = dict(circuit_node=n, edge_current_model='J', edge_charge_model='Q')
        ds.contact_equation(name='eq', node_model='bc_' + t, **x, **q)
    return dict(t='D', name=d, n1=ends[0], n2=ends[1], g=g, c=c, fix=fix)


def run(case, ctx):
    dsx.reset()
    R = random.Random(case['seed'])
    if case['ext']:
        ds.set_parameter(name='extended_solver', value=True)
    net = Net()
    hist, sol, devs, compared, solved = [], {}, 0, 0, set()
    byhand, watched = False, {}

    def lists():
        return sorted(ds.get_circuit_node_list()), sorted(ds.get_circuit_solution_list())

    def read(n, which='dcop'):
        return ds.get_circuit_node_value(node=n, solution=which)

    def everything():
        return lists(), {(k, s): dsx.bits(read(k, s)) for k in net.unknowns() + sorted(net.alias) for s in solved}

    def check_lists(what):
        a, b = lists()
        need(a == sorted(net.unknowns()), '%s: the node list is %s, expected %s', what, a, sorted(net.unknowns()))
        want = sorted(solved)
        need([x for x in b if x in ('dcop', 'ssac_real', 'ssac_imag')] == want, '%s: solutions are %s, expected %s', what, b, want)

    def refuse(what, fn, **k):
        b = everything()
        msg = dsx.raises(fn, **k)
        need(msg is not None, '%s was accepted: %s', what, k)
        need(everything() == b, '%s was refused but changed the circuit: %s: %s', what, k, msg[:100])
        ctx.count('refused ' + what)

    def compare(what, names, x, which='dcop', tol=1e-7):
        nonlocal compared
        m = 1 + np.abs(x).max()
        for n, v in list(zip(names, x)) + [(a, 0.0 if net.gnd(a) else x[names.index(t)]) for a, t in net.alias.items()] + [('0', 0.0), ('GND', 0.0)]:
            got = read(n, which)
            need(abs(got - v) <= tol * m, '%s: %s of %s is %r, expected %r', what, which, n, got, v)
        watch(what)
        compared += 1

    def watch(what):
        for (d, q), n in watched.items():
            got = ds.get_node_model_values(device=d, region='r', name=q)
            v = read(n) if 'dcop' in solved else 0.0
            need(all(z == 2 * v for z in got), '%s: the model 2*%s on %s is %s, the node is %r', what, n, d, got[:2], v)

    def ground():
        for i, n in enumerate(sorted(net.nodes)):
            nm = 'Rgnd' + n
            if not any(e['name'] == nm for e in net.E):
                v = R.uniform(0.5, 5)
                if dsx.raises(ds.circuit_element, name=nm, n1=n, n2=R.choice(['0', 'GND']), value=v) is None:
                    net.E.append(dict(t='R', name=nm, n1=n, n2='0', v=v, ac=0))
                else:
                    need(net.locked, 'resistor at %s refused', n)

    def usable():
        return bool(net.unknowns())

    for op in case['ops']:
        if op == 'node':
            n, u, v = R.choice(NODES), R.choice(['default', 'default', 'log_damp', 'positive']), R.uniform(0.5, 3)
            if net.known(n) or net.locked:
                refuse('node that exists or comes too late', ds.add_circuit_node, name=n, value=v)
            else:
                ds.add_circuit_node(name=n, value=v, variable_update=u)
                net.nodes[n] = (u, v)
        elif op == 'elem':
            t = R.choice('RRRCCIVL')
            name = (t if R.random() < 0.7 else t.lower()) + R.choice(['1', '2', '3', 'x', 'total', '']) 
            pool = NODES + ['0', 'GND'] + sorted(net.alias) * 2
            n1, n2, v = R.choice(pool), R.choice(pool), R.uniform(0.2, 5)
            if t in 'VL' and net.loop(n1, n2):
                continue
            z = complex(R.uniform(-1, 1), R.uniform(-1, 1)) if t == 'V' and R.random() < 0.7 else 0
            if any(e['name'] == name for e in net.E):
                refuse('duplicate element', ds.circuit_element, name=name, n1=n1, n2=n2, value=v)
                continue
            if net.locked:
                b = everything()
                if dsx.raises(ds.circuit_element, name=name, n1=n1, n2=n2, value=v) is not None:
                    need(everything() == b, 'an element that was refused changed the circuit')
                    continue
                return
            a = dict(acreal=z.real, acimag=z.imag) if z else {}
            ds.circuit_element(name=name, n1=n1, n2=n2, value=v, **a)
            for n in (n1, n2):
                if not net.known(n):
                    net.nodes[n] = ('default', 0.0)
            net.E.append(dict(t=t, name=name, n1=net.real(n1), n2=net.real(n2), v=v, ac=z))
        elif op == 'alias':
            n, a = R.choice(sorted(net.nodes) + ['0', 'GND'] + R.sample(ALIAS, 2)), R.choice(ALIAS + [R.choice(NODES)])
            if net.known(a) or not net.known(n):
                refuse('alias', ds.circuit_node_alias, node=n, alias=a)
            elif n in net.alias:
                b = everything()
                if dsx.raises(ds.circuit_node_alias, node=n, alias=a) is None:
                    net.alias[a] = net.real(n)
                else:
                    need(everything() == b, 'a refused alias changed the circuit')
            else:
                ds.circuit_node_alias(node=n, alias=a)
                net.alias[a] = n
        elif op == 'dev' and devs < 3 and not net.locked:
            named = sorted(a for a in net.alias if a.isidentifier())
            ends = [R.choice([None, '0', R.choice(['GND', 'na', 'nb', 'out'] + named), R.choice(named or ['na'])]) for _ in 'ab']
            for n in ends:
                if n is not None and not net.known(n):
                    ds.add_circuit_node(name=n)
                    net.nodes[n] = ('default', 0.0)
            if R.random() < 0.2 and not net.known('0') and not net.nodes:
                continue
            e = device(R, devs, net, ends)
            for k in ('n1', 'n2'):
                e[k] = None if e[k] is None else net.real(e[k])
            net.E.append(e)
            devs += 1
        elif op == 'watch' and devs:
            ns = sorted(n for n in list(net.nodes) + list(net.alias) + ['GND'] if n.isidentifier())
            n, d = R.choice(ns), 'dev%d' % R.randrange(devs)
            q = 'watch%d' % len(watched)
            ds.node_model(device=d, region='r', name=q, equation='2*' + n)
            watched[d, q] = n
        elif op in ('alter', 'alterac'):
            es = [e for e in net.E if e['t'] != 'D' and (op == 'alter' or e['t'] == 'V')]
            if not es:
                continue
            e = R.choice(es)
            v = R.uniform(0.2, 5)
            if op == 'alter':
                ds.circuit_alter(name=e['name'], value=v, **R.choice([{}, dict(param='value'), dict(param=e['t'])]))
                e['v'] = v
            elif R.random() < 0.5:
                ds.circuit_alter(name=e['name'], value=v, param='acreal')
                e['ac'] = complex(v, complex(e['ac']).imag)
            else:
                ds.circuit_alter(name=e['name'], value=v, param='acimag')
                e['ac'] = complex(complex(e['ac']).real, v)
        elif op == 'bad':
            k = R.randrange(9)
            new = 'fresh%d' % R.randrange(100)
            if k == 0:
                refuse('element of unknown type', ds.circuit_element, name=R.choice('XQ_D9') + '1', n1=new, n2='0', value=1.0)
            elif k == 1:
                refuse('AC value on another element', ds.circuit_element, name=R.choice('RLCI') + 'q', n1=new, n2='0', value=1.0, acreal=1.0)
            elif k == 2 and net.E:
                e = R.choice(net.E)
                refuse('unknown parameter', ds.circuit_alter, name=e['name'], param=R.choice(['Z', 'ac', 'v ' if e['t'] != 'V' else 'R']), value=2.0)
            elif k == 3:
                refuse('unknown element', ds.circuit_alter, name='Rnone', value=2.0)
            elif k == 4:
                refuse('unknown node', R.choice([ds.get_circuit_node_value, ds.get_circuit_equation_number]), node=new)
            elif k == 5:
                refuse('unknown solution', ds.get_circuit_node_value, node='0', solution=new)
            elif k == 6:
                refuse('unknown option', R.choice([ds.delete_circuit, ds.get_circuit_node_list, ds.get_circuit_solution_list]), device='d')
            elif k == 7:
                refuse('missing option', R.choice([ds.circuit_node_alias, ds.get_circuit_node_value, ds.get_circuit_equation_number, ds.add_circuit_node, ds.circuit_element, ds.circuit_alter]))
            else:
                refuse('invalid node', ds.add_circuit_node, name=new, variable_update=R.choice(['positive', 'none']), value=-1.0)
        elif op == 'mat' and usable():
            first = 'dcop' not in solved
            if not net.locked:
                ground()
            watch('before the assembly')
            ds.get_matrix_and_rhs(format=R.choice(['csc', 'csr']))
            net.locked = True
            solved.add('dcop')
            check_lists('assembly')
            if first:
                for n in net.unknowns():
                    need(read(n) == net.nodes.get(n, (0, 0.0))[1], 'the initial value of %s is %r, expected %r', n, read(n), net.nodes.get(n, (0, 0.0))[1])
                ctx.count('initial values')
            watch('assembly')
        elif op == 'set' and 'dcop' in solved and usable():
            n, v = R.choice(net.unknowns() + sorted(net.alias)), R.uniform(0.5, 2)
            ds.set_circuit_node_value(node=n, value=v, solution='dcop')
            byhand = True
            for m in net.unknowns() + sorted(net.alias) + ['0']:
                if not net.gnd(n) and net.real(m) == net.real(n):
                    need(read(m) == v, 'the value of %s set by hand reads %r as %s', n, read(m), m)
            watch('set_circuit_node_value')
            need(read('0') == 0.0, 'ground is %r', read('0'))
        elif op == 'delete' and not devs:
            ds.delete_circuit()
            net = Net()
            solved, hist = set(), []
            check_lists('delete_circuit')
            continue
        elif op == 'one' and usable() and 'dcop' in solved:
            # one iteration: the equations are linear, so the full step ends at the solution; the update type limits it
            names, G, C, b, ac = net.system()
            if np.linalg.cond(G) > 1e8:
                return
            x = np.linalg.solve(G, b)
            old = [read(n) for n in names]
            if any(net.nodes.get(n, ('', 0))[0] == 'positive' and v <= 0 for n, v in zip(names, old)):
                continue
            ds.solve(type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
            m = 1 + np.abs(x).max() + np.abs(old).max()
            for n, t, v in zip(names, x, old):
                u, d = net.nodes.get(n, ('default', 0))[0], t - v
                if u == 'log_damp' and abs(d) > 0.0259:
                    d = np.sign(d) * 0.0259 * np.log(1 + abs(d) / 0.0259)
                elif u == 'positive':
                    if any(abs(v + d * f) < 1e-6 * m for f in (1, 0.5, 0.25, 0.125, 0.0625)):
                        continue
                    while v + d <= 0:
                        d /= 2
                need(abs(read(n) - v - d) <= 1e-7 * m, 'one iteration takes %s (%s) from %r to %r, expected %r', n, u, v, read(n), v + d)
            byhand = True
            watch('one iteration')
            ctx.count('one iteration')
        elif op in ('dc', 'tdc', 'ac', 'tran', 'solve'):
            if not usable():
                continue
            if op == 'solve':
                op = R.choice(['dc', 'tdc'])
            if op == 'ac' and not net.locked or op == 'tran' and not hist:
                continue
            if not net.locked:
                ground()
            names, G, C, b, ac = net.system()
            if op in ('dc', 'tdc'):
                if np.linalg.cond(G) > 1e8:
                    return
                x = np.linalg.solve(G, b)
                a = dict(type='dc' if op == 'dc' else 'transient_dc')
            elif op == 'ac':
                f = R.choice([0.0, 0.01, 0.1, 1.0, R.uniform(0.01, 10), 1e3])
                A = G + 2j * np.pi * f * C
                if np.linalg.cond(A) > 1e8:
                    return
                z = np.linalg.solve(A, ac)
                old = {n: dsx.bits(read(n)) for n in names}
                ds.solve(type='ac', frequency=f)
                solved |= {'ssac_real', 'ssac_imag'}
                check_lists('ac')
                compare('ac at %r' % f, names, z.real, 'ssac_real')
                compare('ac at %r' % f, names, z.imag, 'ssac_imag')
                need(old == {n: dsx.bits(read(n)) for n in names}, 'ac changed the operating point')
                continue
            else:
                t = R.choice(['transient_bdf1', 'transient_tr', 'transient_bdf2'])
                if t == 'transient_bdf2' and len(hist) < 2:
                    t = 'transient_bdf1'
                h, gam = R.uniform(0.05, 2), R.uniform(0.3, 0.7) if t == 'transient_bdf2' else R.choice([1.0, R.uniform(0.3, 1)])
                a0, a1, a2, b0, b1, dt = coefficients(t, h, gam)
                A = a0 * C + G
                if np.linalg.cond(A) > 1e8:
                    return
                x = np.linalg.solve(A, b - a1 * hist[0][0] - (a2 * hist[1][0] if a2 else 0) - b1 * hist[0][1])
                a = dict(type=t, tdelta=h, gamma=gam, charge_error=1e30)
            bad = [n for n, (u, v) in net.nodes.items() if u == 'positive' and (x[names.index(n)] <= 1e-3 or byhand and read(n) <= 0)]
            if bad:
                dsx.raises(ds.solve, **dict(a, **ARGS))
                return
            msg = dsx.raises(ds.solve, **dict(a, **ARGS))
            if msg and max(np.abs(x)) > 15 and any(u == 'log_damp' for u, v in net.nodes.values()):
                return  # too far for the damped update
            need(msg is None, '%s fails: %s', a['type'], msg)
            net.locked = True
            solved.add('dcop')
            if op != 'dc':
                new = (C @ x, G @ x - b)
                hist = [new] if op == 'tdc' else [new] + hist[:1]
            check_lists(a['type'])
            compare(a['type'], names, x)
            num = {n: ds.get_circuit_equation_number(node=n) for n in names}
            need(len(set(num.values())) == len(names) and min(num.values()) >= 0, 'equation numbers %s', num)
            for q, n in net.alias.items():
                k = ds.get_circuit_equation_number(node=q)
                need(k == (-1 if net.gnd(q) else num[n]), 'equation number of alias %s is %d', q, k)
            ctx.count(a['type'])
    if compared >= 2 and len(net.E) >= 3:
        ctx.nontrivial()


SUITES = [Suite('netlist', strat, run, quick=6000, thorough=100000)]
