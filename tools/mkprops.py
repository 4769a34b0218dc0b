#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text is easy to maintain)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop('C01', 'Built-in math functions return accurate values',
 'Every built-in function usable in a model expression (elementary functions, pow, if/ifelse, the comparisons == != < <= > >=, the logical operators, B, dBdx, the erf family, min/max, sgn/step, vec_sum/vec_min/vec_max and kahan sums) returns the mathematically defined value to within rounding of the precision in use, and the Fermi and Gauss-Fermi integrals the value of their published closed-form approximation, across its whole domain, including tiny, huge, negative and switch-over arguments. In extended precision the result is accurate well beyond double precision. An argument outside the domain is reported as an error, never turned into a wrong finite number (the inverse Gauss-Fermi integral saturates by design).',
 ['inputs', 'configurations'], 'all finite double arguments in the domain of each function; double and extended precision',
 'The four Fermi/Gauss-Fermi/erf/kahan programs compare a fixed table of points with stored output; they cannot cover the argument ranges, branch switch-overs and both precisions.',
 ['src/MathEval/MathEval.cc', 'src/MathEval/Bernoulli.cc', 'src/MathEval/Fermi.cc', 'src/MathEval/GaussFermi.cc', 'src/MathEval/MiscMathFunc.cc', 'src/MathEval/kahan.cc', 'src/MathEval/LogicalMath.hh', 'src/utility/BoostSpecialFunctions.hh'],
 [('Bernoulli', 'src/MathEval/Bernoulli.cc'), ('Fermi', 'src/MathEval/Fermi.cc'), ('gfi', 'src/MathEval/GaussFermi.cc'), ('function tables', 'src/MathEval/MathEval.cc')],
 ['get_node_model_values of a node_model calling the function'])
prop('C02', 'Derivative and inverse functions agree with their base functions',
 'For every built-in function that has a derivative partner (dBdx, dFermidx, derfdx, derfcdx, dgfidx, ...) the partner equals the derivative of the function at every point, and for every inverse partner (InvFermi, igfi, ...) applying the inverse to the function value recovers the argument and vice versa. The derivative of an inverse equals the reciprocal of the derivative of the function.',
 ['inputs', 'configurations'], 'all arguments for which the pair is defined; double and extended precision',
 'Existing programs print a fixed table for a few pairs; a mismatch between a function and its derivative away from those points is invisible and only shows as lost Newton convergence.',
 ['src/MathEval/Bernoulli.cc', 'src/MathEval/Fermi.cc', 'src/MathEval/GaussFermi.cc', 'src/MathEval/MiscMathFunc.cc', 'src/MathEval/MathEval.cc'],
 [('derBernoulli', 'src/MathEval/Bernoulli.cc'), ('InvFermi', 'src/MathEval/Fermi.cc'), ('igfi', 'src/MathEval/GaussFermi.cc')],
 ['get_node_model_values'])
prop('C03', 'Expression models evaluate their expression at every location',
 'A node, edge, element or interface model defined by an expression has, at every node, edge, element edge or interface node, exactly the value of that expression applied to the operand values at that location, including calls to user-registered functions. The values do not depend on the number of evaluation threads, the task size, uniform-value shortcuts or the numeric type in use. An invalid operation in the expression (division by zero, overflow, unknown name, wrong argument count) raises an error instead of giving values.',
 ['inputs', 'programs', 'configurations', 'schedules'], 'all expressions over the operators and built-in functions, all operand fields, all thread/task-size settings, all location kinds',
 'Tests evaluate a handful of fixed expressions with one thread setting on one mesh.',
 ['src/AutoEquation/ModelExprEval.cc', 'src/AutoEquation/InterfaceModelExprEval.cc', 'src/AutoEquation/ModelExprData.cc', 'src/models/ScalarData.cc', 'src/MathEval/MathEval.cc', 'src/MathEval/MathPacket.cc', 'src/MathEval/MathWrapper.cc', 'src/utility/FPECheck.cc'],
 [('ModelExprEval', 'src/AutoEquation/ModelExprEval.cc'), ('MathPacket threads', 'src/MathEval/MathPacket.cc'), ('ScalarData uniform handling', 'src/models/ScalarData.cc')],
 ['get_node_model_values', 'get_edge_model_values', 'get_element_model_values', 'get_interface_model_values'])
prop('C04', 'Model values are never stale after any change of an input',
 'After any sequence of model definitions, redefinitions, deletions, solution updates, parameter changes and reads, the value read from every model equals what a from-scratch evaluation with the current inputs would give. A change of a solution, parameter, operand model or geometry model propagates through any depth of dependent node, edge, element and interface models.',
 ['histories'], 'all histories of defining, redefining, deleting, setting and reading models and parameters',
 'Tests build models once and read them once or twice in a fixed order.',
 ['src/Geometry/Region.cc', 'src/Geometry/Interface.cc', 'src/models/NodeModel.cc', 'src/models/EdgeModel.cc', 'src/models/TriangleEdgeModel.cc', 'src/models/TetrahedronEdgeModel.cc', 'src/models/InterfaceNodeModel.cc', 'src/Data/GlobalData.cc'],
 [('SignalCallbacks / RegisterCallback', 'src/Geometry/Region.cc'), ('MarkOld / uptodate flags', 'src/models/*Model.cc')],
 ['get_node_model_values', 'get_edge_model_values', 'get_element_model_values', 'get_interface_model_values'])
prop('C05', 'Interpolated and derived models match their definitions',
 'Models derived from others (edge values taken from nodes, edge averages of every type and their derivatives, node gradients, element values from nodes/edges/edge pairs, element vector fields and their derivatives, interface values) equal their defining formula at every location. In particular a quantity linear in position has exactly constant gradient and field on any mesh, and each derivative model is the derivative of the averaged or interpolated value with respect to the nodal variable it names.',
 ['inputs', 'configurations'], 'all meshes (1D, 2D, 3D), all nodal/edge fields, all average types',
 'Tests use the averages and element models only inside one or two device simulations whose end result hides local errors.',
 ['src/GeomModels/AverageEdgeModel.cc', 'src/GeomModels/VectorGradient.cc', 'src/models/EdgeFromNodeModel.cc', 'src/models/TriangleEdgeFromEdgeModel.cc', 'src/models/TriangleEdgeFromEdgeModelDerivative.cc', 'src/models/TriangleEdgePairFromEdgeModel.cc', 'src/models/TetrahedronEdgeFromEdgeModel.cc', 'src/models/TetrahedronEdgePairFromEdgeModel.cc', 'src/models/VectorTriangleEdgeModel.cc', 'src/models/VectorTetrahedronEdgeModel.cc', 'src/Geometry/TriangleElementField.cc', 'src/Geometry/TetrahedronElementField.cc', 'src/Geometry/GradientField.cc', 'src/models/EdgeSubModel.cc'],
 [('AverageEdgeModel', 'src/GeomModels/AverageEdgeModel.cc'), ('TriangleElementField', 'src/Geometry/TriangleElementField.cc'), ('TetrahedronElementField', 'src/Geometry/TetrahedronElementField.cc')],
 ['get_edge_model_values', 'get_element_model_values', 'get_node_model_values'])
prop('C06', 'Geometric weights satisfy the exact geometry of the mesh',
 'For every valid mesh the automatically created geometry models (positions, edge lengths and unit vectors, node and edge volumes, edge couplings, element couplings, surface areas, normals, contact markers) equal their finite-volume definition (built from circumcentres, with unsigned distances), and element quantities sum to edge quantities. When no element is obtuse, node volumes sum to the region volume, the flux of a constant field closes around interior nodes and surface areas sum to the boundary size. The cylindrical variants satisfy the corresponding rotated-body identities.',
 ['inputs', 'configurations'], 'all 1D, 2D and 3D meshes incl. obtuse and badly scaled elements; all cylindrical axes and reference radii',
 'Tests use a few meshes and check only solver output rounded for comparison.',
 ['src/GeomModels/NodeVolume.cc', 'src/GeomModels/EdgeCouple.cc', 'src/GeomModels/TriangleEdgeCouple.cc', 'src/GeomModels/TetrahedronEdgeCouple.cc', 'src/GeomModels/TriangleNodeVolume.cc', 'src/GeomModels/TetrahedronNodeVolume.cc', 'src/GeomModels/SurfaceArea.cc', 'src/GeomModels/CylindricalEdgeCouple.cc', 'src/GeomModels/CylindricalNodeVolume.cc', 'src/GeomModels/TriangleCylindricalEdgeCouple.cc', 'src/GeomModels/TriangleCylindricalNodeVolume.cc', 'src/GeomModels/CylindricalSurfaceArea.cc', 'src/GeomModels/InterfaceNormal.cc', 'src/GeomModels/UnitVec.cc', 'src/Geometry/Triangle.cc', 'src/Geometry/Tetrahedron.cc', 'src/Geometry/Coordinate.cc'],
 [('TriangleEdgeCouple', 'src/GeomModels/TriangleEdgeCouple.cc'), ('TetrahedronEdgeCouple', 'src/GeomModels/TetrahedronEdgeCouple.cc'), ('circumcenter', 'src/Geometry/*.cc')],
 ['get_node_model_values', 'get_edge_model_values', 'get_element_model_values'])
prop('C07', 'The structured mesher builds exactly the requested 1D and 2D mesh',
 'A mesh described by lines, regions, contacts and interfaces yields nodes that hit every requested line position exactly, with spacings honouring the requested ones, regions covering exactly the requested extents, every node and element in exactly the right region, contacts and interfaces exactly on the requested nodes and edges, and no duplicate, overlapping or missing elements. Inconsistent descriptions are rejected with an error.',
 ['inputs', 'configurations'], 'all 1D and 2D mesh descriptions',
 'Tests mesh a few hand-written descriptions.',
 ['src/meshing/Mesh1d.cc', 'src/meshing/Mesh1dStructs.cc', 'src/meshing/Mesh2d.cc', 'src/meshing/Mesh2dStructs.cc', 'src/meshing/MeshUtil.cc', 'src/meshing/MeshLoaderUtility.cc', 'src/commands/MeshingCommands.cc'],
 [('FillLines / GradedPoints', 'src/meshing/Mesh1d.cc'), ('Mesh2d', 'src/meshing/Mesh2d.cc')],
 ['get_node_model_values(x,y,node_index)', 'get_element_node_list', 'get_region_list', 'get_contact_list', 'get_interface_list'])
prop('C08', 'Gmsh meshes import without loss, from file and from memory',
 'Importing a Gmsh mesh (ASCII file or in-memory lists) gives a device whose regions, contacts and interfaces contain exactly the nodes and elements of the named physical groups, with coordinates bit-identical to the input and each shared node represented once per region. File and in-memory import of the same mesh give the same device, whatever the numbering and ordering of nodes, elements and groups.',
 ['inputs', 'configurations'], 'all valid 1D, 2D and 3D meshes with several regions, contacts and interfaces; all numberings and orders',
 'Tests import three fixed files.',
 ['src/meshing/GmshLoader.cc', 'src/meshing/GmshParser.y', 'src/meshing/GmshScanner.l', 'src/meshing/GmshReader.cc', 'src/meshing/MeshLoaderUtility.cc', 'src/meshing/MeshLoaderStructs.hh', 'src/commands/MeshingCommands.cc', 'python_packages/pythonmesh.py'],
 [('GmshLoader::Finalize', 'src/meshing/GmshLoader.cc'), ('in-memory create_gmsh_mesh', 'src/commands/MeshingCommands.cc'), ('read_gmsh_file', 'python_packages/pythonmesh.py')],
 ['get_node_model_values', 'get_element_node_list', 'get_contact_list', 'get_interface_list'])
prop('C09', 'Saving and reloading a device preserves its complete state',
 'Writing a device in the native format and loading the file into a fresh session restores every node position, element, region, contact and interface, all materials, equations, parameters-free model expressions and their values, and every solution value, bit for bit. The reloaded device solves to the same result and writing it again produces an equivalent file.',
 ['histories', 'inputs', 'configurations'], 'all devices (1D, 2D, 3D) with arbitrary models, solutions, equations, contacts and interfaces',
 'One restart test round-trips a single device.',
 ['src/meshing/DevsimWriter.cc', 'src/meshing/DevsimRestartWriter.cc', 'src/meshing/DevsimLoader.cc', 'src/meshing/DevsimParser.y', 'src/meshing/DevsimScanner.l', 'src/models/ModelDataHolder.cc', 'src/Geometry/GeometryStream.cc'],
 [('DevsimRestartWriter', 'src/meshing/DevsimRestartWriter.cc'), ('DevsimLoader', 'src/meshing/DevsimLoader.cc'), ('serialize', 'src/models/*.cc')],
 ['write_devices', 'load_devices', 'all get_* commands'])
prop('C10', 'Visualisation files contain exactly the device data',
 'Tecplot and VTK output of a device contains every node coordinate, every element connectivity, region, and each selected model with the value the simulator reports for that node or edge, and decodes with the documented file format. Model selection callbacks include exactly the models they accept.',
 ['inputs', 'configurations'], 'all devices and fields, all output formats, any include filter',
 'Output files are compared with nothing; tests only check that the call returns.',
 ['src/meshing/TecplotWriter.cc', 'src/meshing/VTKWriter.cc', 'src/meshing/MeshWriter.cc', 'src/utility/base64.cc', 'src/pythonapi/ZlibCompress.cc', 'src/Geometry/TriangleElementField.cc', 'src/Geometry/TetrahedronElementField.cc'],
 [('TecplotWriter', 'src/meshing/TecplotWriter.cc'), ('VTKWriter', 'src/meshing/VTKWriter.cc'), ('base64', 'src/utility/base64.cc')],
 ['files written by write_devices'])
prop('C11', 'Malformed mesh input is rejected, never crashes or corrupts state',
 'Any file or list given as a Gmsh or native mesh either loads as a well-formed mesh or raises an error that can be caught; the process neither crashes, hangs nor exits. After a rejected input the session stays usable: existing devices keep all their values and a correct mesh still loads.',
 ['inputs', 'fault_sequences'], 'all byte strings as mesh files, all lists as in-memory meshes; truncations and corruptions of valid files',
 'No test loads an invalid mesh.',
 ['src/meshing/GmshParser.y', 'src/meshing/GmshScanner.l', 'src/meshing/GmshReader.cc', 'src/meshing/GmshLoader.cc', 'src/meshing/DevsimParser.y', 'src/meshing/DevsimScanner.l', 'src/meshing/DevsimReader.cc', 'src/meshing/DevsimLoader.cc', 'src/commands/MeshingCommands.cc'],
 [('parser error handling', 'src/meshing/*Parser.y'), ('index validation', 'src/meshing/GmshLoader.cc, src/commands/MeshingCommands.cc')],
 ['create_gmsh_mesh', 'load_devices'])
prop('C12', 'Assembled equations equal the finite-volume sum of their models',
 'For any set of bulk, contact, interface and user-supplied equations, the assembled residual at every node equals the finite-volume sum of the named node, edge, element-edge and interface models with their geometric weights and signs, with contact nodes replaced as specified and every boundary or interface term included exactly once. Equation numbering gives each active variable at each node one row, and all matrix output formats describe the same matrix.',
 ['inputs', 'programs', 'configurations'], 'all combinations of equation terms, meshes, contacts, interfaces, parameters selecting the weights',
 'Device tests exercise fixed combinations and only see the converged solution.',
 ['src/Equation/Equation.cc', 'src/Equation/ContactEquation.cc', 'src/Equation/InterfaceEquation.cc', 'src/AutoEquation/ExprEquation.cc', 'src/AutoEquation/ExprContactEquation.cc', 'src/AutoEquation/InterfaceExprEquation.cc', 'src/Geometry/Region.cc', 'src/Geometry/Device.cc', 'src/math/Newton.cc', 'src/commands/EquationCommands.cc', 'src/commands/MathCommands.cc'],
 [('NodeVolume/EdgeCouple/ElementEdgeCouple assembly', 'src/Equation/Equation.cc'), ('contact permutation', 'src/Equation/ContactEquation.cc')],
 ['get_matrix_and_rhs', 'get_equation_numbers', 'get_contact_current'])
prop('C13', 'The assembled Jacobian is the exact derivative of the residual',
 'When every model has its derivative models defined, the assembled matrix equals the derivative of the assembled residual with respect to every solution variable at every node, including contact, interface, element and circuit couplings. Derivatives produced by symbolic differentiation agree with the numerical derivative of the expression they came from.',
 ['inputs', 'programs', 'configurations'], 'all nonlinear equation sets, meshes and solution values',
 'Tests see only that Newton iterations converge on fixed devices; a wrong entry slows convergence without failing.',
 ['src/Equation/Equation.cc', 'src/Equation/ContactEquation.cc', 'src/Equation/InterfaceEquation.cc', 'src/AutoEquation/ExprEquation.cc', 'src/AutoEquation/EquationFunctions.cc', 'src/AutoEquation/DefaultDerivatives.cc', 'src/AutoEquation/ExprContactEquation.cc', 'src/AutoEquation/InterfaceExprEquation.cc', 'src/math/Newton.cc', 'src/math/CompressedMatrix.cc'],
 [('NodeVolumeAssemble/EdgeCoupleAssemble/ElementEdgeCoupleAssemble', 'src/Equation/Equation.cc')],
 ['get_matrix_and_rhs'])
prop('C14', 'Solve reports convergence truthfully and restores state on failure',
 'When a DC solve returns normally the solution satisfies the assembled equations within the requested tolerances, the reported iteration history and error figures match that solution, and the iteration, update and positivity limits asked for are respected. When it fails it raises an error (or reports non-convergence where requested) and every solution variable of every device and circuit has the value it had before the call.',
 ['inputs', 'configurations', 'fault_sequences'], 'all solvable and unsolvable systems, tolerances, iteration limits, update types, info/abort options',
 'Tests solve well-behaved devices to convergence; failing paths are not checked.',
 ['src/math/Newton.cc', 'src/math/Newton.hh', 'src/Equation/Equation.cc', 'src/Equation/EquationHolder.cc', 'src/commands/MathCommands.cc', 'src/Geometry/Region.cc', 'src/Circuit/data/NodeKeeper.cc'],
 [('Newton::Solve', 'src/math/Newton.cc'), ('Equation update types', 'src/Equation/Equation.cc'), ('Backup/RestoreSolutions', 'src/math/Newton.cc')],
 ['solve', 'get_node_model_values', 'get_matrix_and_rhs'])
prop('C15', 'Contact currents and charges are consistent and conserved',
 'The current and charge reported for a contact equal the integral of the contact equation models over that contact, and for any conservation law at steady state the currents of all contacts of a device sum to zero (charges sum to the enclosed charge). For an attached circuit node the same current is what enters the circuit.',
 ['inputs', 'configurations'], 'all linear and nonlinear conservation laws, meshes (1D to 3D), contacts and circuit attachments',
 'Tests compare printed currents of a few devices after rounding.',
 ['src/Equation/ContactEquation.cc', 'src/AutoEquation/ExprContactEquation.cc', 'src/Geometry/Contact.cc', 'src/commands/MathCommands.cc', 'src/commands/EquationCommands.cc'],
 [('integrate edge/node/element models', 'src/Equation/ContactEquation.cc')],
 ['get_contact_current', 'get_contact_charge', 'get_circuit_node_value'])
prop('C16', 'Transient integration follows the stated BDF1/BDF2/trapezoid formulas',
 'Each transient step solves exactly the stated one- or two-step formula (backward Euler, trapezoidal, BDF2) for device charges and circuit elements, using stored history from the previously accepted steps, starting from the initial condition computed by a transient_dc solve. Sequences mixing methods and step sizes keep the right history, a failed step leaves history and solution unchanged, and the reported charge error follows the step prediction.',
 ['histories', 'inputs', 'configurations'], 'all sequences of methods, step sizes, gammas and source changes',
 'A few RC and diode transients with fixed steps are compared with stored output.',
 ['src/math/Newton.cc', 'src/math/TimeData.cc', 'src/math/TimeData.hh', 'src/commands/MathCommands.cc', 'src/Circuit/data/NodeKeeper.cc', 'src/Circuit/models'],
 [('TimeMethods', 'src/math/Newton.hh'), ('TimeData shift/assemble', 'src/math/TimeData.cc')],
 ['solve', 'get_node_model_values', 'get_circuit_node_value'])
prop('C17', 'Small-signal AC and noise results equal the linearised system',
 'The AC solution at any frequency equals the solution of (J + i*omega*Q) x = b, where J and Q are the static and charge matrices at the operating point and b the AC sources, for device and circuit unknowns; frequency zero gives the DC sensitivity. Noise impedance fields equal the adjoint solution for the requested output, and both leave the DC operating point unchanged.',
 ['inputs', 'configurations'], 'all operating points, frequencies, sources, outputs, device and circuit topologies',
 'AC and noise tests check one resistor or capacitor.',
 ['src/math/Newton.cc', 'src/commands/MathCommands.cc', 'src/Equation/EquationHolder.cc', 'src/Circuit/data/NodeKeeper.cc', 'src/Geometry/Region.cc'],
 [('ACSolve / NoiseSolve', 'src/math/Newton.cc')],
 ['solve(type="ac")', 'solve(type="noise")', 'get_node_model_values', 'get_circuit_node_value'])
prop('C18', 'Circuit simulation solves the netlist equations',
 'For any netlist of resistors, capacitors, inductors, independent and controlled sources and attached device contacts, the node voltages and branch currents of DC, AC and transient solutions equal the solution of Kirchhoff\'s laws for that netlist. Altering an element parameter, naming aliases and listing or reading nodes always refers to the current netlist.',
 ['inputs', 'programs', 'histories'], 'all netlists and alteration histories',
 'A few circuits with two or three elements are compared with stored output.',
 ['src/Circuit/data/NodeKeeper.cc', 'src/Circuit/data/InstanceKeeper.cc', 'src/Circuit/data/InstanceModel.cc', 'src/Circuit/models', 'src/commands/CircuitCommands.cc', 'src/math/Newton.cc'],
 [('InstanceKeeper::assemble', 'src/Circuit/data/InstanceKeeper.cc'), ('NodeKeeper', 'src/Circuit/data/NodeKeeper.cc')],
 ['get_circuit_node_value', 'get_circuit_node_list', 'get_circuit_equation_number'])
prop('C19', 'The solution does not depend on the linear solver chosen',
 'Direct, iterative and user-supplied linear solvers, in every supported matrix format and numeric precision, produce the same converged solution for the same problem to within the requested tolerance. Matrix data handed to a user-supplied solver describes the assembled system exactly, and a symbolic factorisation is reused only while the sparsity pattern is unchanged.',
 ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all assembled systems, solver choices, precision settings, pattern-changing histories and solver failures',
 'Tests run one solver on fixed devices.',
 ['src/math/CompressedMatrix.cc', 'src/math/Preconditioner.cc', 'src/math/MKLPardisoPreconditioner.cc', 'src/math/ExternalPreconditioner.cc', 'src/math/BlockPreconditioner.cc', 'src/math/gmres.cc', 'src/math/IterativeLinearSolver.cc', 'src/math/DirectLinearSolver.cc', 'src/math/SolverUtil.cc', 'umfpack/umfpack_loader.py', 'umfpack/umfshim.py'],
 [('CompressedMatrix', 'src/math/CompressedMatrix.cc'), ('preconditioner selection', 'src/math/SolverUtil.cc')],
 ['solve', 'solver_callback data', 'get_matrix_and_rhs'])
prop('C20', 'Parameters resolve through region, device and global scope',
 'A parameter read returns the exact object most recently set in the innermost scope (region, then device, then global) that defines it, for any history of setting parameters and creating or deleting devices; parameters of other scopes and devices are never affected. Listing parameters returns exactly the names set in that scope, and models using the parameter see the same value.',
 ['histories', 'inputs'], 'all histories of set/get/list over scopes, with devices and regions created and deleted; all values',
 'ptest1/ptest2 run one fixed sequence.',
 ['src/Data/GlobalData.cc', 'src/commands/MaterialCommands.cc', 'src/pythonapi/ObjectHolder.cc', 'src/utility/GetGlobalParameter.cc'],
 [('GlobalData', 'src/Data/GlobalData.cc')],
 ['set_parameter', 'get_parameter', 'get_parameter_list', 'get_node_model_values'])
prop('C21', 'Invalid commands fail cleanly and change nothing',
 'Every command called with missing, unknown, wrongly typed or inconsistent arguments (or naming objects that do not exist) raises a catchable error with a message, never crashing the interpreter, leaving a stray exception pending or silently doing something else. A failed command leaves the observable state of all devices, models, parameters, meshes and circuits as it was before.',
 ['inputs', 'fault_sequences', 'histories'], 'all commands, all argument combinations and value types, at any point of a session',
 'Tests call commands correctly; error paths are not exercised.',
 ['src/pythonapi/PythonCommands.cc', 'src/pythonapi/GetArgs.cc', 'src/pythonapi/CommandHandler.cc', 'src/pythonapi/ObjectHolder.cc', 'src/commands'],
 [('dsGetArgs', 'src/pythonapi/GetArgs.cc'), ('CheckFunctions / Validate', 'src/commands/CheckFunctions.cc, src/commands/Validate.cc')],
 ['every devsim command'])
prop('C22', 'Resetting or deleting returns the session to a clean state',
 'After deleting a device or mesh, or resetting the simulator, nothing of the removed objects is observable: the same script run again, in the same session, gives results identical to a fresh process. Other devices, meshes, circuits and parameters are untouched by the deletion of one of them.',
 ['histories'], 'all histories of creating, solving, deleting and resetting',
 'Each test runs in its own process and creates its devices once.',
 ['src/main/ResetAllData.cc', 'src/Data/GlobalData.cc', 'src/commands/GeometryCommands.cc', 'src/commands/MeshingCommands.cc', 'src/meshing/MeshKeeper.cc', 'src/Geometry/Device.cc', 'src/Circuit/data/NodeKeeper.cc', 'src/Circuit/data/InstanceKeeper.cc'],
 [('ResetAllData', 'src/main/ResetAllData.cc'), ('DeleteDevice', 'src/Data/GlobalData.cc')],
 ['reset_devsim', 'delete_device', 'delete_mesh', 'get_device_list', 'get_parameter_list', 'get_circuit_node_list'])
prop('C23', 'The model compiler differentiates and simplifies correctly',
 'For every expression accepted by the standalone model compiler, the reported derivative, simplified form, substituted form and generated code have the same value as the original expression (or its true derivative) at every point where it is defined. Printing an expression and reading it back yields the same expression, and invalid input is reported without ending the program abnormally.',
 ['programs', 'inputs'], 'all expressions, user functions, model definitions and variable values',
 'mctest runs two fixed input files.',
 ['src/adiff/EquationObject.cc', 'src/adiff/EquationObject.hh', 'src/adiff/LogicalFunc.cc', 'src/adiff/UserFunc.cc', 'src/adiff/gcd.cc', 'src/adiff/mcModel.cc', 'src/adiff/mcModelCompiler.cc', 'src/adiff/mcParser.y', 'src/adiff/mcScanner.l', 'src/adiff/mcTest.cc'],
 [('Derivative / Simplify', 'src/adiff/EquationObject.cc')],
 ['output of the modelcomp program'])
prop('C24', 'Dense extended-precision factorisation solves linear systems',
 'The extended-precision LU factorisation and solve routines (and their transposed form) return a solution whose residual is at the rounding level of that precision for any well-conditioned matrix of any size, choose pivots by magnitude, report singular matrices, and reject invalid dimensions. The result does not depend on the leading dimension or number of right-hand sides used.',
 ['inputs', 'configurations'], 'all matrices, sizes, leading dimensions, right-hand-side counts and transpose options',
 'getrftest solves a single matrix.',
 ['external/getrf', 'src/math/DenseMatrix.cc', 'src/math/BlasHeaders.cc'],
 [('getrf/getrs', 'external/getrf')],
 ['quad-precision getrf/getrs symbols of the getrf library', 'block preconditioner results'])
prop('C25', 'The bundled Python physics and utility packages do what they document',
 'The bundled packages (bias ramping, model creation helpers, drift-diffusion and density physics, mobility models, Gmsh reading) create models whose values and derivatives match the documented formulas for every parameter set, and helpers keep their contracts. Bias ramping ends exactly at the requested bias or raises, calls the callback once per accepted step, and never exceeds the requested step.',
 ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all parameters, temperatures, biases, step settings and solver failures at any step',
 'The packages are used by a few example devices only; ruff only checks that they compile.',
 ['python_packages/ramp.py', 'python_packages/model_create.py', 'python_packages/simple_physics.py', 'python_packages/simple_dd.py', 'python_packages/mos_physics.py', 'python_packages/fermi_physics.py', 'python_packages/Klaassen.py', 'python_packages/pythonmesh.py'],
 [('rampbias', 'python_packages/ramp.py'), ('CreateSiliconDriftDiffusion', 'python_packages/simple_physics.py')],
 ['models created on a device', 'calls made to solve / callback'])
prop('C26', 'Numeric data passes through the Python interface unchanged',
 'Values set through lists, tuples, array buffers of any numeric type or single assignments are read back bit for bit, in the documented order, for nodes, edges and elements in double precision, and to double rounding in extended precision. Wrong lengths and non-numeric items are rejected without changing the stored data.',
 ['inputs', 'configurations'], 'all containers, element types, lengths, special values and precision settings',
 'Tests pass a couple of lists.',
 ['src/pythonapi/ObjectHolder.cc', 'src/pythonapi/CommandHandler.cc', 'src/commands/ModelCommands.cc', 'src/models/ModelDataHolder.cc', 'src/models/ScalarData.cc'],
 [('GetDoubleList / buffer handling', 'src/pythonapi/ObjectHolder.cc')],
 ['set_node_values', 'set_edge_values', 'set_element_values', 'set_node_value', 'get_*_model_values'])
prop('C27', 'Printed values and solver messages report the simulator data',
 'print_node_values, print_edge_values and print_element_values print the name of the model and every value in the order of the matching get command. The log of a solve has every iteration with the errors of all devices, regions, equations and the circuit that solve(info=True) returns; where debug_level (global, device or region scope) is verbose, also the nodes with the largest errors and the circuit solution. Where the output goes (sys.stdout missing, closed, raising, unable to encode) and the debug level never change a result, a value or the outcome of a command.',
 ['inputs', 'configurations', 'fault_sequences', 'histories'], 'all models and values, all systems and tolerances, all settings of debug_level, all output streams and their failures at any message',
 'Tests print to a working stream and compare the text of a few runs.',
 ['src/pythonapi/OutputStream.cc', 'src/Geometry/GeometryStream.cc', 'src/math/Newton.cc', 'src/commands/ModelCommands.cc', 'src/Circuit/data/NodeKeeper.cc'],
 [('OutputStream::WriteOut', 'src/pythonapi/OutputStream.cc'), ('PrintDeviceErrors / PrintCircuitErrors', 'src/math/Newton.cc'), ('debug_level scope', 'src/Geometry/GeometryStream.cc')],
 ['print_node_values', 'print_edge_values', 'print_element_values', 'solve', 'sys.stdout'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
