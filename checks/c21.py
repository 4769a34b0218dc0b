"""C21: calls of every command with arguments left out, unknown, of the wrong type, naming what does not exist, or in conflict, mixed with valid calls, in a session with 1D, 2D and 3D devices, unfinished meshes, models, equations and a circuit. Nothing but the simulator's own error with a message may come out; a failing call changes nothing that can be observed; calls known to be wrong fail."""
from hypothesis import strategies as st
import os, random, shutil, tempfile
from harness import Suite, need
import dsx, meshgen
from dsx import ds

PROPERTY = 'C21'
RULE = ('A case is a session (1D, 2D, 3D device with two regions, interface and contacts; unfinished meshes; a circuit; models, parameters, equations of each kind) and a list of calls. Each call is a valid call of one of the commands after 0 to 3 mutations: an option dropped, an unknown option, '
        'a value of the wrong type (None, containers, not a number, hostile objects, bytes, surrogates, huge integers), a name that does not exist or belongs to something else, an unknown choice, a list of the wrong length or content, swapped values, a positional argument. '
        'Oracle: only devsim.error with a message is raised, and no exception is left pending; a snapshot of every list, value, parameter, material, equation command, circuit value and mesh list is the same before and after a failing call; mutations that make a call wrong for sure '
        '(required option missing, unknown option, not a number for a number, no list for a list, wrong length, object or choice that does not exist) have to fail; a session in which every call is wrong stays as it was, also in what its meshes and equations lead to; and a second session in which only the successful calls are made ends in the same state, including the devices made from its '
        'meshes, the assembled matrix and a dc solve. Non-trivial: at least one failing and one successful call.')
ASSUMPTIONS = ['values that the interface converts on purpose count as valid (numeric strings for numbers, any object with a text form for strings, truth values of strings)', 'the text of error messages is not judged', 'what hostile objects passed by the caller do to themselves is not the simulator\'s business']


class Quiet:
    # the text of an object must not have an address in it
    def __repr__(self):
        return 'quiet'


class Called(Quiet):
    def __call__(self, *a):
        return sum(a)


class Rows:
    n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.n > 3:
            raise StopIteration
        return self.n

    def __repr__(self):
        return 'rows'


class EvilStr:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class EvilNum(Quiet):
    def __float__(self):
        raise ZeroDivisionError('no number')
    __index__ = __int__ = __float__


class EvilLen(Quiet):
    def __len__(self):
        raise RuntimeError('no length')

    def __getitem__(self, i):
        raise RuntimeError('no item')


class EvilBool(Quiet):
    def __bool__(self):
        raise RuntimeError('no truth')


class StrSub(str):
    def __str__(self):
        raise ValueError('no text')


def f1(*a):
    return sum(a)


SPECIAL = {
    'none': lambda: None, 'list': lambda: [], 'dict': lambda: {}, 'tuple': lambda: (), 'object': lambda: Quiet(), 'lambda': lambda: Called(), 'nan': lambda: float('nan'), 'inf': lambda: float('inf'), '-inf': lambda: float('-inf'),
    'evilstr': EvilStr, 'evilnum': EvilNum, 'evillen': EvilLen, 'evilbool': EvilBool, 'strsub': lambda: StrSub('u'), 'surrogate': lambda: 'a\udc80b', 'nul': lambda: 'a\0b', 'bytes': lambda: b'abc', 'bytearray': lambda: bytearray(b'12345678'), 'huge': lambda: 10**400,
    'big': lambda: 2**63, 'nested': lambda: [[[]]], 'mixed': lambda: [1, 'a', None], 'set': lambda: {1, 2}, 'complex': lambda: 1j, 'type': lambda: int, 'range': lambda: range(3), 'gen': lambda: iter(Rows()), 'ellipsis': lambda: ..., 'long': lambda: 'n' * 100000,
    'array': lambda: __import__('array').array('d', [1.0, 2.0, 3.0]), 'ints': lambda: __import__('array').array('i', [1, 2, 3]), 'f1': lambda: Called(), 'strlist': lambda: ['a', 'b'], 'evils': lambda: [EvilNum(), EvilStr()],
}
SPECIALS = sorted(SPECIAL)
NOTNUM = ['none', 'list', 'dict', 'object', 'lambda', 'evilnum', 'bytes', 'complex', 'nested', 'type', 'ellipsis', 'surrogate', 'strlist']
NOTLIST = ['none', 'object', 'lambda', 'complex', 'evilnum', 'type', 'ellipsis']


def val(v):
    if isinstance(v, dict) and '$' in v:
        return SPECIAL[v['$']]()
    return v


FLOATS = {'acreal', 'acimag', 'absolute_error', 'relative_error', 'maximum_error', 'frequency', 'tdelta', 'charge_error', 'gamma', 'pos', 'ns', 'ps', 'xl', 'xh', 'yl', 'yh', 'bloat'}
INTS = {'maximum_iterations', 'maximum_divergence', 'symbolic_iteration_limit', 'index', 'nargs'}
LISTS = {'static_rhs', 'dynamic_rhs', 'coordinates', 'physical_names', 'elements', 'nodes0', 'nodes1', 'values'}
VALUE_NUM = {'circuit_element', 'circuit_alter', 'add_circuit_node', 'set_circuit_node_value', 'set_node_value'}
OBJECTS = {'device', 'region', 'contact', 'interface', 'mesh', 'region0', 'region1', 'node_model', 'edge_model', 'element_model', 'time_node_model', 'edge_volume_model', 'interface_model', 'node_current_model', 'edge_current_model', 'node_charge_model', 'edge_charge_model',
           'element_current_model', 'element_charge_model', 'volume_node0_model', 'volume_node1_model', 'init_from', 'derivative'}
CHOICES = {'variable_update', 'calc_type', 'average_type', 'display_type', 'format', 'solver_type', 'dir', 'type', 'param'}

T = []


def t(cmd, req='', new='', opt='', obj='', **kw):
    """req: required options; new: objects the call makes (a name that is free is right); opt: objects that need not exist; obj: further options that name objects"""
    T.append(dict(cmd=cmd, kw=kw, req=req.split(), skip=set((new + ' ' + opt).split()), obj=set(obj.split())))


DR = dict(device='d1', region='r0')
D2 = dict(device='d2', region='r0')
DC = dict(device='d1', contact='c0')
DI = dict(device='d2', interface='i0')
t('get_device_list')
t('get_mesh_list')
t('get_circuit_node_list')
t('get_circuit_solution_list')
t('get_region_list', 'device', device='d1')
t('get_region_list', 'device', device='d1', contact='c0')
t('get_region_list', 'device', device='d2', interface='i0')
t('get_contact_list', 'device', device='d1')
t('get_interface_list', 'device', device='d2')
t('get_element_node_list', 'device region', **DR)
t('get_element_node_list', 'device region', contact='c0', **DR)
t('get_element_node_list', 'device region', interface='i0', reorder=True, **D2)
for i in range(2):
    t('set_parameter', 'name value', name='p_new', value=3.5)
    t('set_parameter', 'name value', device='d1', name='p_dev', value='text')
    t('set_parameter', 'name value', name='p_reg', value=-2, **DR)
t('get_parameter', 'name', name='g', obj='name')
t('get_parameter', 'name', name='pr', obj='name', **DR)
t('get_parameter_list')
t('get_parameter_list', **DR)
t('set_material', 'device region material', material='Ge', **DR)
t('set_material', 'device contact material', material='Al', **DC)
t('get_material', 'device region', **DR)
t('get_material', 'device contact', **DC)
t('get_dimension', 'device', device='d2')
for d in (DR, D2):
    t('node_solution', 'device region name', name='s_new', **d)
    t('node_model', 'device region name equation', name='m_new', equation='u*3+x', **d)
    t('node_model', 'device region name equation', name='m_new', equation='u*3+x', display_type='nodisplay', **d)
    t('edge_model', 'device region name equation', name='em_new', equation='(u@n0-u@n1)*EdgeInverseLength', **d)
    t('edge_solution', 'device region name', name='es_new', **d)
    t('edge_from_node_model', 'device region node_model', node_model='nm', **d)
    t('edge_average_model', 'device region node_model edge_model', node_model='u', edge_model='ua', opt='edge_model', **d)
    t('edge_average_model', 'device region node_model edge_model', node_model='u', edge_model='ua', derivative='u', average_type='geometric', opt='edge_model derivative', **d)
    t('set_node_values', 'device region name', name='u', values=[1.5] * (3 if d is DR else 4), obj='name', **d)
    t('set_node_values', 'device region name', name='u', init_from='x', obj='name', **d)
    t('set_node_value', 'device region name value', name='u', index=1, value=2.5, obj='name', **d)
    t('set_edge_values', 'device region name', name='es', values=[2.5] * (2 if d is DR else 5), obj='name', **d)
    for c, n in (('node', 'nm'), ('edge', 'em')):
        t('get_%s_model_list' % c, 'device region', **d)
        t('get_%s_model_values' % c, 'device region name', name=n, obj='name', **d)
        t('print_%s_values' % c, 'device region name', name=n, obj='name', **d)
        t('delete_%s_model' % c, 'device region name', name=n, obj='name', **d)
    t('equation', 'device region name variable_name', name='eq', variable_name='u', node_model='nm', edge_model='em', time_node_model='nm', variable_update='positive', **d)
    t('equation', 'device region name variable_name', name='eq2', variable_name='v', edge_model='em', edge_volume_model='es', **d)
    t('get_equation_list', 'device region', **d)
    t('get_equation_command', 'device region name', name='eq', obj='name', **d)
    t('delete_equation', 'device region name', name='eq', obj='name', **d)
    t('get_equation_numbers', 'device region', variable='u', obj='variable', **d)
    t('get_equation_numbers', 'device region', equation='eq', obj='equation', **d)
    t('cylindrical_edge_couple', 'device region', **d)
    t('cylindrical_node_volume', 'device region', **d)
    t('cylindrical_surface_area', 'device region', **d)
for d in (D2, dict(device='d3', region='r1')):
    t('element_solution', 'device region name', name='ls_new', **d)
    t('element_model', 'device region name equation', name='lm_new', equation='u@en0*2', **d)
    t('element_from_edge_model', 'device region edge_model', edge_model='em', **d)
    t('element_from_edge_model', 'device region edge_model', edge_model='em', derivative='u', opt='derivative', **d)
    t('element_pair_from_edge_model', 'device region edge_model', edge_model='em', derivative='u', opt='derivative', **d)
    t('element_from_node_model', 'device region node_model', node_model='nm', **d)
    t('vector_element_model', 'device region element_model', element_model='lm', **d)
    t('vector_gradient', 'device region node_model', node_model='u', calc_type='default', **d)
    t('set_element_values', 'device region name', name='ls', values=[1.0] * (6 if d is D2 else 36), obj='name', **d)
    t('get_element_model_list', 'device region', **d)
    t('get_element_model_values', 'device region name', name='lm', obj='name', **d)
    t('print_element_values', 'device region name', name='lm', obj='name', **d)
    t('delete_element_model', 'device region name', name='lm', obj='name', **d)
    t('equation', 'device region name variable_name', name='eq', variable_name='u', element_model='lm', volume_node0_model='lm', volume_node1_model='lm', **d)
t('debug_triangle_models', 'device region', **D2)
for c in (DC, dict(device='d3', contact='c1')):
    t('contact_edge_model', 'device contact name equation', name='ce_new', equation='1.5', **c)
    t('contact_node_model', 'device contact name equation', name='cn_new', equation='u-1', display_type='nodisplay', **c)
    t('contact_equation', 'device contact name', name='eq', node_model='cn', edge_model='em', node_current_model='cn', edge_current_model='em', edge_charge_model='em', node_charge_model='cn', circuit_node='n1', **c)
    t('contact_equation', 'device contact name', name='eq', node_model='cn', edge_volume_model='em', **c)
    t('get_contact_equation_list', 'device contact', **c)
    t('get_contact_equation_command', 'device contact name', name='eq', obj='name', **c)
    t('delete_contact_equation', 'device contact name', name='eq', obj='name', **c)
    t('get_contact_current', 'device contact equation', equation='eq', obj='equation', **c)
    t('get_contact_charge', 'device contact equation', equation='eq', obj='equation', **c)
for d in (DI, dict(device='d1', interface='i0')):
    t('interface_model', 'device interface name equation', name='im_new', equation='u@r0-u@r1', **d)
    t('interface_normal_model', 'device region interface', region='r0', **d)
    t('interface_equation', 'device interface name type', name='eq', interface_model='im', type='continuous', **d)
    t('interface_equation', 'device interface name type', name='eqh', name0='eq', name1='eq', interface_model='im', type='hybrid', **d)
    t('get_interface_model_list', 'device interface', **d)
    t('get_interface_model_values', 'device interface name', name='im', obj='name', **d)
    t('delete_interface_model', 'device interface name', name='im', obj='name', **d)
    t('get_interface_equation_list', 'device interface', **d)
    t('get_interface_equation_command', 'device interface name', name='eq', obj='name', **d)
    t('delete_interface_equation', 'device interface name', name='eq', obj='name', **d)
t('register_function', 'name procedure nargs', name='cosh', procedure={'$': 'f1'}, nargs=1)
t('symdiff', 'expr', expr='x^2+3')
t('solve', 'type', type='dc', absolute_error=1e30, relative_error=1e30, charge_error=1e30, gamma=1.0, tdelta=0.0, maximum_error=1e300, maximum_iterations=2, maximum_divergence=5, symbolic_iteration_limit=1, solver_type='direct', info=True)
t('solve', 'type', type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=1, solver_type='iterative')
t('solve', 'type', type='ac', frequency=10.0)
t('solve', 'type', type='noise', frequency=10.0, output_node='n1')
t('solve', 'type', type='transient_dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
t('solve', 'type', type='transient_bdf1', absolute_error=1e30, relative_error=1e30, maximum_iterations=1, tdelta=1e-3, charge_error=1e30)
t('get_matrix_and_rhs', format='csr')
t('set_initial_condition', 'static_rhs dynamic_rhs', static_rhs=[0.0] * 20, dynamic_rhs=[0.0] * 20)
t('custom_equation', 'name procedure', name='ceq', procedure={'$': 'f1'})
for i in range(2):
    t('add_1d_contact', 'mesh name material tag', mesh='u1', name='cx', material='metal', tag='b')
    t('add_1d_interface', 'mesh name tag', mesh='u1', name='ix', tag='b')
    t('add_1d_mesh_line', 'mesh pos ps', mesh='u1', pos=3.0 - 1.75 * i, ps=1.0, ns=0.5, tag='d')
    t('add_1d_region', 'mesh region material tag1 tag2', mesh='u1', region='rx', material='Si', tag1='b', tag2='c')
    t('add_2d_contact', 'mesh name material region', mesh='u2', name='cx', material='metal', region='r0', xl=0.0, xh=0.0, yl=0.0, yh=1.0, bloat=1e-9)
    t('add_2d_interface', 'mesh name region0 region1', mesh='u2', name='ix', region0='r0', region1='r1', xl=0.0, xh=2.0, yl=0.0, yh=1.0, bloat=1e-9)
    t('add_2d_mesh_line', 'mesh pos ps dir', mesh='u2', pos=3.0 - 2.75 * i, ps=1.0, ns=0.5, dir='x')
    t('add_2d_region', 'mesh region material', mesh='u2', region='rx', material='Si', xl=1.0, xh=2.0, yl=0.0, yh=1.0, bloat=1e-9)
    t('add_gmsh_contact', 'mesh name material gmsh_name region', mesh='ug', name='cx', material='metal', gmsh_name='g_c0', region='r0')
    t('add_gmsh_interface', 'mesh name gmsh_name region0 region1', mesh='ug', name='ix', gmsh_name='g_i0', region0='r0', region1='r1')
    t('add_gmsh_region', 'mesh region gmsh_name material', mesh='ug', region='rx', gmsh_name='g_r1', material='Si')
for q in T:
    if q['cmd'].endswith('equation'):
        q['skip'] |= {k for k in q['kw'] if 'model' in k}      # looked up when the equation is assembled
    if q['cmd'].startswith('add_'):
        q['skip'] |= {'region', 'region0', 'region1'}      # judged when the mesh is finalized
t('create_1d_mesh', 'mesh', mesh='new1', new='mesh')
t('create_2d_mesh', 'mesh', mesh='new2', new='mesh')
t('create_gmsh_mesh', 'mesh', mesh='new3', new='mesh', coordinates=[0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0], physical_names=['a', 'b'], elements=[2, 0, 0, 1, 2, 1, 1, 0, 1])
t('create_contact_from_interface', 'device region interface name material', device='d2', region='r0', interface='i0', name='cfi', material='metal')
t('create_interface_from_nodes', 'device region0 region1 nodes0 nodes1 name', device='d1', region0='r0', region1='r1', nodes0=[0], nodes1=[1], name='ifn')
for m, d in (('f1', 'e1'), ('m1', 'e1'), ('m2', 'e2')):
    t('create_device', 'mesh device', mesh=m, device=d, new='device')
t('delete_device', 'device', device='d3')
t('delete_mesh', 'mesh', mesh='u1')
t('delete_mesh', 'mesh', mesh='m1')
for m in ('u1', 'u2', 'ug'):
    t('finalize_mesh', 'mesh', mesh=m)
t('load_devices', 'file', file='good.msh', obj='file')
t('write_devices', 'file', file='out', device='d1', type='devsim')
t('write_devices', 'file', file='out2', device='d2', type='vtk')
t('write_devices', 'file', file='out3', device='d2', type='tecplot', include_test={'$': 'f1'})
t('add_circuit_node', 'name', name='n_new', value=1.5, variable_update='log_damp')
for q in (dict(name='R2', n1='vs', n2='0', value=5.0), dict(name='V2', n1='n1', n2='0', value=5.0, acreal=1.0, acimag=0.5), dict(name='C2', n1='n1', n2='0', value=5.0)):
    t('circuit_element', 'name n1 n2', **q)
t('circuit_alter', 'name value', name='V1', param='acreal', value=2.0, obj='name')
t('circuit_alter', 'name value', name='R1', value=2.0, obj='name')
t('circuit_node_alias', 'node alias', node='n1', alias='al', obj='node')
t('delete_circuit')
t('get_circuit_node_value', 'node', node='n1', solution='dcop', obj='node')
t('set_circuit_node_value', 'node', node='n1', solution='dcop', value=0.25, obj='node')
t('get_circuit_equation_number', 'node', node='n1', obj='node')
t('reset_devsim')
NUMBERS = {'solve', 'get_matrix_and_rhs'}
RARE = {'reset_devsim', 'delete_circuit', 'delete_device'}

LENGTHS = {'values', 'static_rhs', 'dynamic_rhs', 'coordinates', 'elements'}
VOCAB = ['d1', 'd2', 'd3', 'r0', 'r1', 'c0', 'c1', 'i0', 'u', 'v', 'nm', 'nm:u', 'em', 'em:u@n0', 'es', 'lm', 'ls', 'im', 'cn', 'eq', 'x', 'm1', 'u1', 'u2', 'ug', 'f1', 'vs', 'n1', '0', 'V1', 'R1', 'V1.I', 'g', 'pr', 'a', 'b', 'c', 'g_r0', 'GND', 'NodeVolume', 'EdgeLength', 'dcop', 'z z', '@', ':', 'u@n0', 'u@r0',
         '1', '-1', '1e400', 'x y', '"', ' ', '\n', 'é', 'u:u', 'u+', ')', 'sin(', 'node_index', 'contactcharge_node', 'cfi', 'good.msh', 'd9']
NUMS = [0, 1, -1, 2, 3, 5, 2**31, -2**31 - 1, 0.5, -0.0, 1e308, 1e-320, 1.5, True, False, '3', '1.5', {'$': 'nan'}, {'$': 'inf'}, {'$': '-inf'}, {'$': 'big'}, {'$': 'huge'}]


def world(solved=False, devices=('d1', 'd2', 'd3'), clean=True):
    if clean:
        ds.reset_devsim()
    for f in os.listdir('.'):
        os.remove(f)
    ds.add_circuit_node(name='vs')
    ds.add_circuit_node(name='n1', value=0.1)
    ds.circuit_element(name='V1', n1='vs', n2='0', value=1.0, acreal=1.0)
    ds.circuit_element(name='R1', n1='vs', n2='n1', value=10.0)
    ds.circuit_element(name='C1', n1='n1', n2='0', value=2.0)
    ds.set_parameter(name='g', value=1.25)

    def one(mesh, finish):
        ds.create_1d_mesh(mesh=mesh)
        for p, tag in ((0, 'a'), (1, 'b'), (2, 'c')):
            ds.add_1d_mesh_line(mesh=mesh, pos=p, ps=0.5, tag=tag)
        ds.add_1d_region(mesh=mesh, region='r0', material='Si', tag1='a', tag2='b')
        ds.add_1d_region(mesh=mesh, region='r1', material='Si', tag1='b', tag2='c')
        ds.add_1d_interface(mesh=mesh, name='i0', tag='b')
        ds.add_1d_contact(mesh=mesh, name='c0', tag='a', material='m')
        ds.add_1d_contact(mesh=mesh, name='c1', tag='c', material='m')
        if finish:
            ds.finalize_mesh(mesh=mesh)

    def two(mesh, finish):
        ds.create_2d_mesh(mesh=mesh)
        for p in (-1, 0, 1, 2):
            ds.add_2d_mesh_line(mesh=mesh, dir='x', pos=p, ps=1)
        for p in (0, 1):
            ds.add_2d_mesh_line(mesh=mesh, dir='y', pos=p, ps=1)
        ds.add_2d_region(mesh=mesh, region='r0', material='Si', xl=0, xh=1, yl=0, yh=1)
        ds.add_2d_region(mesh=mesh, region='r1', material='Si', xl=1, xh=2, yl=0, yh=1)
        ds.add_2d_region(mesh=mesh, region='air', material='air', xl=-1, xh=0, yl=0, yh=1)
        ds.add_2d_interface(mesh=mesh, name='i0', region0='r0', region1='r1')
        ds.add_2d_contact(mesh=mesh, name='c0', material='m', region='r0', xl=0, xh=0, yl=0, yh=1, bloat=1e-9)
        ds.add_2d_contact(mesh=mesh, name='c1', material='m', region='air', xl=0, xh=0, yl=0, yh=1, bloat=1e-9)
        if finish:
            ds.finalize_mesh(mesh=mesh)
    # a file to load
    one('m9', True)
    ds.create_device(mesh='m9', device='d9')
    ds.write_devices(file='good.msh', device='d9', type='devsim')
    ds.delete_device(device='d9')
    ds.delete_mesh(mesh='m9')
    if 'd1' in devices:
        one('m1', True)
        ds.create_device(mesh='m1', device='d1')
    if 'd2' in devices:
        two('m2', True)
        ds.create_device(mesh='m2', device='d2')
    if 'd3' in devices:
        M = meshgen.grid_mesh(3, [2, 1, 1], 1, 0.1, [1])
        meshgen.make_device(ds, M, device='d3', meshname='m3')
    one('f1', True)
    one('u1', False)
    two('u2', False)
    ds.create_gmsh_mesh(mesh='ug', **meshgen.gmsh_args(meshgen.grid_mesh(2, [2, 1], 1, 0.1, [1])))
    for r in ('r0', 'r1'):
        ds.add_gmsh_region(mesh='ug', region=r, gmsh_name='g_' + r, material='Si')
    ds.add_gmsh_contact(mesh='ug', name='c1', region='r1', gmsh_name='g_c1', material='m')
    for d in devices:
        for r in ('r0', 'r1'):
            w = dict(device=d, region=r)
            ds.set_parameter(name='pr', value=0.5, **w)
            ds.node_solution(name='u', **w)
            ds.set_node_values(name='u', init_from='x', **w)
            ds.node_solution(name='v', **w)
            ds.edge_from_node_model(node_model='u', **w)
            ds.node_model(name='nm', equation='u*2+1', **w)
            ds.node_model(name='nm:u', equation='2', **w)
            ds.edge_model(name='em', equation='(u@n0-u@n1)*EdgeInverseLength*pr', **w)
            ds.edge_model(name='em:u@n0', equation='EdgeInverseLength*pr', **w)
            ds.edge_model(name='em:u@n1', equation='-EdgeInverseLength*pr', **w)
            ds.edge_solution(name='es', **w)
            if d != 'd1':
                ds.element_from_edge_model(edge_model='em', **w)
                ds.element_from_node_model(node_model='u', **w)
                ds.element_model(name='lm', equation='u@en0+1', **w)
                ds.element_solution(name='ls', **w)
            ds.equation(name='eq', variable_name='u', edge_model='em', node_model='nm', time_node_model='nm', **w)
        for c in ('c0', 'c1') if d != 'd2' else ('c0',):
            w = dict(device=d, contact=c)
            ds.contact_node_model(name='cn', equation='u-1', **w)
            ds.contact_node_model(name='cn:u', equation='1', **w)
            ds.contact_equation(name='eq', node_model='cn', edge_current_model='em', edge_charge_model='es', circuit_node='n1' if d == 'd2' else '', **w)
        w = dict(device=d, interface='i0')
        ds.interface_model(name='im', equation='u@r0-u@r1', **w)
        ds.interface_model(name='im:u@r0', equation='1', **w)
        ds.interface_model(name='im:u@r1', equation='-1', **w)
        ds.interface_equation(name='eq', interface_model='im', type='continuous', **w)
    if solved:
        ds.solve(type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=2)
        if solved > 1:
            ds.solve(type='transient_dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=2)


def see(f, **kw):
    try:
        r = f(**kw)
    except ds.error as e:
        return 'error'
    if isinstance(r, (list, tuple)) and r and isinstance(r[0], str):
        return sorted(r)
    return r


def hexes(f, **kw):
    try:
        r = f(**kw)
    except ds.error as e:
        return 'error'
    return b''.join(map(dsx.bits, r))


def params(**kw):
    L = see(ds.get_parameter_list, **kw)
    return L if L == 'error' else [(n, repr(see(ds.get_parameter, name=n, **kw))) for n in L if n != 'info']


def snapshot():
    s = {}
    s['meshes'] = sorted(ds.get_mesh_list())
    s['devices'] = sorted(ds.get_device_list())
    s['globals'] = params()
    s['files'] = sorted((f, os.path.getsize(f)) for f in os.listdir('.'))
    s['nodes'] = N = see(ds.get_circuit_node_list)
    s['sols'] = S = see(ds.get_circuit_solution_list)
    if N and N != 'error' and S != 'error':
        for n in N:
            s['eqn', n] = see(ds.get_circuit_equation_number, node=n)
            for o in S or ():
                s['cv', n, o] = repr(see(ds.get_circuit_node_value, node=n, solution=o))
    for d in s['devices']:
        w = dict(device=d)
        s['dim', d] = dim = ds.get_dimension(**w)
        s['params', d] = params(**w)
        s['regions', d] = sorted(ds.get_region_list(**w))
        for r in s['regions', d]:
            w = dict(device=d, region=r)
            s['p', d, r] = params(**w)
            s['m', d, r] = see(ds.get_material, **w)
            s['els', d, r] = see(ds.get_element_node_list, **w)
            for k, L, v in (('node', ds.get_node_model_list, ds.get_node_model_values), ('edge', ds.get_edge_model_list, ds.get_edge_model_values), ('element', ds.get_element_model_list, ds.get_element_model_values)):
                if k == 'element' and dim == 1:
                    continue
                s[k, d, r] = q = sorted(L(**w))
                for n in q:
                    s[k, d, r, n] = hexes(v, name=n, **w)
            s['eqs', d, r] = q = sorted(ds.get_equation_list(**w))
            for n in q:
                s['eq', d, r, n] = see(ds.get_equation_command, name=n, **w), see(ds.get_equation_numbers, equation=n, **w)
        s['contacts', d] = sorted(ds.get_contact_list(device=d))
        for c in s['contacts', d]:
            w = dict(device=d, contact=c)
            s['c', d, c] = see(ds.get_region_list, **w), see(ds.get_material, **w)
            s['cels', d, c] = see(ds.get_element_node_list, region=s['c', d, c][0][0], **w)
            s['ceqs', d, c] = q = sorted(ds.get_contact_equation_list(**w))
            for n in q:
                s['ceq', d, c, n] = see(ds.get_contact_equation_command, name=n, **w), repr(see(ds.get_contact_current, equation=n, **w)), repr(see(ds.get_contact_charge, equation=n, **w))
        s['interfaces', d] = sorted(ds.get_interface_list(device=d))
        for i in s['interfaces', d]:
            w = dict(device=d, interface=i)
            s['i', d, i] = see(ds.get_region_list, **w)
            s['imodels', d, i] = q = sorted(ds.get_interface_model_list(**w))
            for n in q:
                s['im', d, i, n] = hexes(ds.get_interface_model_values, name=n, **w)
            s['ieqs', d, i] = q = sorted(ds.get_interface_equation_list(**w))
            for n in q:
                s['ieq', d, i, n] = see(ds.get_interface_equation_command, name=n, **w)
    return s


def diff(a, b):
    for k in a:
        if k not in b:
            return '%s is gone' % (k,)
        if a[k] != b[k]:
            if isinstance(a[k], list) and isinstance(b[k], list):
                return '%s lost %.150r, has new %.150r' % (k, [x for x in a[k] if x not in b[k]], [x for x in b[k] if x not in a[k]])
            if isinstance(a[k], tuple) and isinstance(b[k], tuple) and len(a[k]) == len(b[k]):
                return '%s item %s' % (k, ', '.join('%d was %.150r, is %.150r' % (i, x, y) for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y))
            return '%s was %.150r, is %.150r' % (k, a[k], b[k])
    for k in b:
        if k not in a:
            return '%s appeared' % (k,)
    return None


def loose(now, after):
    """The models a solve makes (previous values, real and imaginary parts) may be new, and the numbers of equations and circuit solutions."""
    skip = lambda k: k == 'sols' or k[0] in ('eqn', 'cv', 'eq')
    for k in now:
        if not skip(k):
            if isinstance(k, tuple) and k[-1].endswith(('_prev', '_Real', '_Imag', '_real', '_imag')):
                continue
            a, b = now[k], after.get(k)
            if k[0] in ('node', 'edge', 'element') and len(k) == 3:
                a = [x for x in a if x not in b]
                b = []
            need(a == b and k in after, 'a failed solve changed %s from %.100r to %.100r', k, a, b)


def call(c, what=''):
    """Returns (ok, result or message)."""
    kw = {k: val(v) for k, v in c['kw'].items()}
    args = (val(c['pos']),) if 'pos' in c else ()
    try:
        r = getattr(ds, c['cmd'])(*args, **kw)
    except ds.error as e:
        m = str(e)
        return False, m
    except UnicodeEncodeError as e:
        # the names of the options are made by Python itself
        need(any('\udc80' in k for k in kw), '%s raised %r', c, e)
        return False, 'x'
    return True, r


def cmd_mesh(c):
    return c.endswith('mesh_line')


def mutate(q, R):
    """One call: template after mutations, and the reason why it has to fail (or None)."""
    c = dict(cmd=q['cmd'], kw={k: (list(v) if isinstance(v, list) else v) for k, v in q['kw'].items()})
    kw = c['kw']
    bad = None
    for _ in range(R.choice([0, 1, 1, 1, 1, 2, 3])):
        how = R.choice(['drop', 'unknown', 'type', 'type', 'name', 'name', 'choice', 'list', 'swap', 'vocab', 'vocab', 'vocab', 'special', 'special', 'pos', 'num', 'add'])
        keys = sorted(kw)
        k = R.choice(keys) if keys else None
        cmd = q['cmd']
        number = k in FLOATS or k in INTS or (k == 'value' and cmd in VALUE_NUM)
        clean = bad is None
        if how == 'drop' and k:
            del kw[k]
            if bad and bad == 'unknown option %r' % k or bad == 'unknown option zzz' and k == 'zzz':
                bad = None
            if k in q['req']:
                bad = bad or 'required %s is missing' % k
            elif bad and not bad.startswith(('required', 'unknown')):
                bad = None
        elif how == 'unknown':
            n = R.choice(['zzz', 'Device', 'names', 'device ', 'values_', '', 'é'])
            if n not in kw:
                kw[n] = R.choice(['d1', 1.0, {'$': 'none'}])
                bad = bad or 'unknown option %r' % n
        elif how == 'type' and k and number:
            kw[k] = {'$': R.choice(NOTNUM)} if R.random() < 0.8 else R.choice(['abc', '1.0x', '', '1 2'])
            bad = bad or '%s is not a number' % k
        elif how == 'type' and k in INTS:
            kw[k] = R.choice([1.5, -0.5, '2.5', {'$': 'nan'}])
            bad = bad or '%s is not an integer' % k
        elif how == 'type' and k in LISTS:
            kw[k] = {'$': R.choice(NOTLIST)} if R.random() < 0.7 else R.choice([1, 2.5, True])
            bad = bad or '%s is not a list' % k
        elif how == 'name' and k and (k in OBJECTS or k in q['obj']) and k not in q['skip'] and not (cmd.endswith('equation') and 'model' in k) and kw[k] != '':
            kw[k] = R.choice(['nowhere', 'D1', 'u ', 'x_', 'd1d1', {'$': 'long'}])
            bad = bad or '%s does not exist' % k
        elif how == 'type' and cmd == 'set_node_value' and 'index' in kw:
            n = 3 if q['kw']['device'] == 'd1' else 4
            kw['index'] = R.choice([n, n, n + 1, -2, -n, 2**31 - 1])
            bad = bad or 'index does not exist'
        elif how == 'choice' and k in CHOICES:
            kw[k] = R.choice(['zzz', 'Default', 'DC', 'ac ', 'dcc', 'positive_', 'csrcsc', 'xy'])
            bad = bad or '%s is not one of the choices' % k
        elif how == 'list' and k and isinstance(kw[k], list):
            L = kw[k]
            op = R.choice(['short', 'long', 'item', 'item', 'empty', 'big'])
            if op == 'short':
                L[:] = L[:-1]
            elif op == 'long':
                L.append(R.choice([1.0, 0, 'a']))
            elif op == 'empty':
                L[:] = []
            elif op == 'big':
                L[R.randrange(len(L) or 1):] = [R.choice([10**6, -1, 1e300, 2**31, 2**63, 0.5])]
            else:
                if L:
                    L[R.randrange(len(L))] = R.choice(['a', '', -1, 99, 1.5, 10**30])
                    if k == 'values' and isinstance(L[0], str) and clean:
                        pass
            if k == 'values' and (len(L) != len(q['kw']['values']) or 'a' in L or '' in L):
                bad = bad or 'values are wrong'
            elif bad and k in bad:
                bad = None
        elif how == 'swap' and len(keys) > 1:
            k2 = R.choice(keys)
            kw[k], kw[k2] = kw[k2], kw[k]
            if k != k2 and bad and not bad.startswith(('required', 'unknown', 'positional')):
                bad = None
        elif how == 'vocab' and k:
            kw[k] = R.choice(VOCAB)
            if bad and bad.startswith(k + ' ') or bad == 'values are wrong':
                bad = None
        elif how == 'num' and k:
            kw[k] = R.choice(NUMS)
            if bad and bad.startswith(k + ' ') or bad == 'values are wrong':
                bad = None
        elif how == 'special' and k:
            kw[k] = {'$': R.choice(SPECIALS)}
            if bad and bad.startswith(k + ' ') or bad == 'values are wrong':
                bad = None
        elif how == 'add':
            # another option of the same command
            if cmd == 'set_material' or cmd == 'get_material':
                continue
            o = R.choice(sorted({x for y in T if y['cmd'] == cmd for x in y['kw']}) or ['zzz'])
            if o not in kw:
                kw[o] = R.choice(VOCAB)
                if o == 'zzz' and cmd not in [y['cmd'] for y in T if 'zzz' in y['kw']]:
                    bad = bad or 'unknown option zzz'
        elif how == 'pos' and R.random() < 0.3:
            c['pos'] = R.choice(['d1', 1.0, {'$': 'none'}])
            bad = bad or 'positional argument'
    if cmd_mesh(q['cmd']):
        # meshes of a reasonable size; C07 has the extremes
        for k in ('pos', 'ps', 'ns'):
            v = kw.get(k)
            if isinstance(v, (int, float)) and (abs(v) > 50 or v != v or (k != 'pos' and 0 < v < 0.1)) or v == {'$': 'big'}:
                kw[k] = 2.0
    if bad and bad.startswith('required') and bad.split()[1] in kw:
        bad = None
    if bad:
        c['bad'] = bad
    return c


@st.composite
def strat(draw):
    return dict(seed=draw(st.integers(0, 2**40)), n=draw(st.integers(1, 10)), drop=sorted(draw(st.sets(st.integers(0, 9), max_size=4))) if draw(st.booleans()) else [], solved=draw(st.sampled_from([0, 1, 2])), first=draw(st.integers(0, len(T) - 1)))


def program(case):
    """The same seed gives the same calls, whichever are left out."""
    P = []
    for i in range(case['n']):
        R = random.Random(case['seed'] * 16 + i)
        q = T[case['first']] if i == 0 else R.choice(T)
        while q['cmd'] in RARE and i and R.random() < 0.8:
            q = R.choice(T)
        c = mutate(q, R)
        if i not in case['drop']:
            P.append(c)
    return P


def ending(P):
    """What the meshes and equations of the session lead to."""
    E = []
    for m in sorted(ds.get_mesh_list()):
        E.append((m, dsx.raises(ds.finalize_mesh, mesh=m) is None))
        E.append((m, dsx.raises(ds.create_device, mesh=m, device='end_' + m) is None))
    E.append(snapshot())
    E[-1].pop('files')      # a file may have been begun
    for d in list(ds.get_device_list()):
        if d.startswith('end_'):
            ds.delete_device(device=d)
    try:
        M = ds.get_matrix_and_rhs(format='csc')
        E.append([(k, list(v) if not isinstance(v, dict) else sorted((a, repr(list(b))) for a, b in v.items())) for k, v in sorted(M.items()) if k != 'format'])
    except ds.error:
        E.append('no matrix')
    E.append(dsx.raises(ds.solve, type='dc', absolute_error=1e30, relative_error=1e30, maximum_iterations=2) is None)
    E.append(snapshot())
    E[-1].pop('files')
    return E


def within(f):
    def run(case, ctx):
        d = tempfile.mkdtemp(prefix='c21_')
        old = os.getcwd()
        os.chdir(d)
        try:
            f(case, ctx)
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
    return run


@within
def run(case, ctx):
    P = program(case)
    world(case['solved'])
    now = snapshot()
    good, bad = [], 0
    for c in P:
        ok, r = call(c)
        if ok:
            good.append(c)
            now = snapshot()
            need('bad' not in c, '%s was accepted although %s; returned %.100r', c['cmd'], c.get('bad'), r)
            ctx.count('accepted')
        else:
            bad += 1
            need(r.strip(), '%r: the error has no message', c)
            after = snapshot()
            if c['cmd'] in NUMBERS and 'bad' not in c:
                # a solve that has begun numbers the equations and makes the circuit solution; the values belong to C14
                good.append(c)
                for k in list(after):
                    if k[0] == 'eq':
                        need(k in now and after[k][0] == now[k][0], 'a failed solve changed %s', k)
                loose(now, after)
                e = None
                now = after
            else:
                if 'bad' not in c:
                    now['files'] = after['files']      # a file may have been begun
                e = diff(now, after)
            need(e is None, '%.300r failed (%.100r), but %s', c, r, e)
            ctx.count('definite' if 'bad' in c else 'refused')
        ctx.count(c['cmd'] + (' ok' if ok else ' error'))
    ctx.nontrivial(bad and good)
    E = ending(P)
    if bad:
        world(case['solved'])
        snapshot()
        for c in good:
            ok, r = call(c)
            need(ok or c['cmd'] in NUMBERS, 'replay without the failing calls: %.300r failed: %s', c, r)
            snapshot()
        F = ending(good)
        for a, b in zip(E, F):
            if isinstance(a, dict):
                e = diff(b, a)
                need(e is None, 'the failing calls left a trace: %s (without them first)', e)
            else:
                need(a == b, 'the failing calls left a trace: %.200r, without them %.200r', a, b)
    ds.reset_devsim()


@st.composite
def wrong_strat(draw):
    return dict(solved=draw(st.sampled_from([0, 0, 1, 2])), seeds=draw(st.lists(st.integers(0, 2**32), min_size=1, max_size=60)))


ENDS = {}


@within
def wrong(case, ctx):
    k = case['solved']
    world(k)
    if k not in ENDS:
        first = snapshot()
        ENDS[k] = first, ending([])
        world(k)
    now, E = ENDS[k]
    e = diff(now, snapshot())
    need(e is None, 'two sessions made by the same calls differ: %s', e)
    said = {}
    for s in case['seeds']:
        R = random.Random(s)
        q = R.choice(T)
        for _ in range(12):
            c = mutate(q, R)
            if 'bad' in c:
                break
        else:
            continue
        ok, r = call(c)
        need(not ok, '%s was accepted although %s; returned %.100r', c['cmd'], c.get('bad'), r)
        need(r.strip(), '%r: the error has no message', c)
        said[c['cmd']] = c
        ctx.count('definite')
        ctx.count(c['cmd'] + ' error')
    ctx.nontrivial(len(said) > 5)
    e = diff(now, snapshot())
    need(e is None, 'all calls failed, but %s; calls %.600r', e, list(said.values()))
    F = ending([])
    for a, b in zip(F, E):
        if isinstance(a, dict):
            e = diff(b, a)
            need(e is None, 'the failing calls left a trace: %s (without them first); calls %.600r', e, list(said.values()))
        else:
            need(a == b, 'the failing calls left a trace: %.200r, without them %.200r; calls %.600r', a, b, list(said.values()))
    ds.reset_devsim()


SUITES = [Suite('wrong', wrong_strat(), wrong, quick=480, thorough=8000, hang=60), Suite('calls', strat(), run, quick=2400, thorough=40000, hang=60)]
