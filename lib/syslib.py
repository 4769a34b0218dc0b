"""A random nonlinear system of conservation laws on a random mesh, with contacts, interfaces and a circuit."""
import random
from dsx import ds
import c09
from c12 import Region


class System:
    pass


def build(case, R, d='d', pre=''):
    """case: m (mesh), nv, law (k, sg, mix, lin), el, src, curvol, circ, itf; optional time, upd {variable: update}.
    Circuit node names and parameters start with pre."""
    T = case.get('time', 0)
    dim = c09.build(case['m'])
    vs = ['u', 'v'][:case['nv']]
    regs = {}
    for r in sorted(ds.get_region_list(device=d)):
        g = regs[r] = Region(d, r, dim)
        w = g.w
        for v in vs:
            ds.node_solution(name=v, **w)
            ds.set_node_values(name=v, values=[R.uniform(0, 1) for _ in range(g.n)], **w)
            ds.edge_from_node_model(node_model=v, **w)
        ds.node_solution(name='psi', **w)
        ds.set_node_values(name='psi', values=[R.uniform(-2, 2) for _ in range(g.n)], **w)
        ds.edge_from_node_model(node_model='psi', **w)
        ds.edge_model(name='vd', equation='psi@n0-psi@n1', **w)
        for v in vs:
            o = vs[-1] if v == vs[0] else vs[0]
            a, b = R.uniform(0.5, 2), R.uniform(0.1, 1)
            kk = '(%r+%r*(%s@n0^2+%s@n1^2))' % (a, b, v, v) if o == v or R.random() < 0.5 else '(%r+%r*(%s@n0^2+%s@n1^2))' % (a, b, o, v)
            diff = '%s*(%s@n0-%s@n1)*EdgeInverseLength' % (kk, v, v)
            sg = '%r*(B(vd)*%s@n0-B(-vd)*%s@n1)*EdgeInverseLength' % (a, v, v)
            e = {'k': diff, 'sg': sg, 'mix': '%s+%s' % (diff, sg), 'lin': '%r*(%s@n0-%s@n1)*EdgeInverseLength' % (a, v, v)}[case['law']]
            ds.edge_model(name='F_' + v, equation=e, **w)
            for x in vs:
                for s in ('@n0', '@n1'):
                    ds.edge_model(name='F_%s:%s%s' % (v, x, s), equation='simplify(diff(%s,%s%s))' % (e, x, s), **w)
            eq = dict(edge_model='F_' + v)
            if case['el'] and dim > 1:
                ds.element_from_node_model(node_model=v, **w)
                e = '%r*(%s@en0-%s@en1)*(1+%r*%s@en2^2)' % (0.2 * a, v, v, b, v)
                ds.element_model(name='L_' + v, equation=e, **w)
                for s in range(dim + 1):
                    ds.element_model(name='L_%s:%s@en%d' % (v, v, s), equation='simplify(diff(%s,%s@en%d))' % (e, v, s), **w)
                eq['element_model'] = 'L_' + v
            if case['src']:
                e = '%r*%s^3+%r*(%s-%s)+%r' % (b, v, a, v, o, R.uniform(-1, 1))
                ds.node_model(name='S_' + v, equation=e, **w)
                for x in vs:
                    ds.node_model(name='S_%s:%s' % (v, x), equation='simplify(diff(%s,%s))' % (e, x), **w)
                eq['node_model'] = 'S_' + v
            g.eq = eq
            if case.get('time'):
                # q = w a v + b v^2/(1+v^2)
                e = '%r*%s+%r*%s^2/(1+%s^2)' % (a * T, v, b * T, v, v)
                ds.node_model(name='Q_' + v, equation=e, **w)
                for x in vs:
                    ds.node_model(name='Q_%s:%s' % (v, x), equation='simplify(diff(%s,%s))' % (e, x), **w)
                eq['time_node_model'] = 'Q_' + v
            ds.equation(name='eq_' + v, variable_name=v, variable_update=case.get('upd', {}).get(v, 'default'), **dict(w, **eq))
    circ = {}
    cont = []
    for c in sorted(ds.get_contact_list(device=d)):
        r, = ds.get_region_list(device=d, contact=c)
        g = regs[r]
        for v in vs:
            b = pre + '%s_bias_%s' % (c, v)
            o = dict(edge_current_model='F_' + v, **({} if T else dict(edge_charge_model='F_' + v)))
            if 'element_model' in g.eq:
                o['element_current_model'] = 'L_' + v
                if not T:
                    o['element_charge_model'] = 'L_' + v
            if case.get('time') and case.get('qc', True):
                o['node_charge_model'] = 'Q_' + v
            if case['src'] and case['curvol']:
                o['node_current_model'] = 'S_' + v
                if not T:
                    o['node_charge_model'] = 'S_' + v
            ds.set_parameter(name=b, value=R.uniform(-1, 2))
            if case['circ'] and R.random() < 0.6:
                k = pre + 'k_%s_%s' % (c, v)
                if R.random() < 0.2 and circ:
                    k = R.choice(sorted(circ))
                else:
                    ds.circuit_element(name='V' + k, n1='s' + k, n2='0', value=R.uniform(-1, 2))
                    circ[k] = R.uniform(0.1, 10)
                    ds.circuit_element(name='R' + k, n1='s' + k, n2=k, value=circ[k])
                o['circuit_node'] = b = k
            ds.contact_node_model(device=d, contact=c, name='bc_%s_%s' % (c, v), equation='%s-%s' % (v, b))
            ds.contact_node_model(device=d, contact=c, name='bc_%s_%s:%s' % (c, v, v), equation='1')
            if 'circuit_node' in o:
                ds.contact_node_model(device=d, contact=c, name='bc_%s_%s:%s' % (c, v, b), equation='-1')
            ds.contact_equation(device=d, contact=c, name='eq_' + v, node_model='bc_%s_%s' % (c, v), **o)
            cont.append((c, v, o, r))
    itf = []
    for i in sorted(ds.get_interface_list(device=d)):
        r0, r1 = ds.get_region_list(device=d, interface=i)
        for v in vs:
            t = case['itf']
            f = 1.0 if t == 'continuous' else R.uniform(0.5, 2)
            ds.interface_model(device=d, interface=i, name='J_' + v, equation='%r*(%s@r0-%s@r1)' % (f, v, v))
            ds.interface_model(device=d, interface=i, name='J_%s:%s@r0' % (v, v), equation='%r' % f)
            ds.interface_model(device=d, interface=i, name='J_%s:%s@r1' % (v, v), equation='-%r' % f)
            ds.interface_equation(device=d, interface=i, name='eq_' + v, interface_model='J_' + v, type=t)
            itf.append((i, v, r0, r1))
    s = System()
    s.d, s.dim, s.vs, s.regs, s.circ, s.cont, s.itf, s.pre = d, dim, vs, regs, circ, cont, itf, pre
    return s


def rebias(s, R, lo=-1, hi=2):
    for c, v, o, r in s.cont:
        ds.set_parameter(name=s.pre + '%s_bias_%s' % (c, v), value=R.uniform(lo, hi))
    for k in s.circ:
        ds.circuit_alter(name='V' + k, value=R.uniform(lo, hi))
