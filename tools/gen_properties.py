#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))

p('C01', 'Structure matrix: exact skew/symmetric split and faithful blocks',
  "For every system, the interconnection part returned is exactly skew-symmetric, the resistive part exactly symmetric, and the structure matrix equals their difference. "
  "Reading a named block (by storage, dissipation, port, connector, or their linear/nonlinear subsets) returns exactly the rows and columns of those variables, in the documented order (storages, dissipations, ports, connectors). "
  "Writing a block makes it read back as written, mirrors the opposite block with the sign that keeps skew-symmetry/symmetry, and changes no other entry.",
  ['inputs', 'programs'],
  'all numbers of storages, dissipations, ports and connectors, all matrix entries, all pairs of block names, all sequences of block writes',
  'Tests build a few fixed systems and never compare a block with the rows it should hold; the guarantee is for all dimensions and entries.',
  ['pyphs/core/core.py', 'pyphs/core/structure/dimensions.py', 'pyphs/core/structure/indices.py'],
  'Core.J/R, generated block accessors and mutators, Dimensions and Indices closures')

p('C02', 'Reordering and linear/nonlinear splitting only permute the system',
  "Moving a storage, dissipation, port or connector, and splitting a system into linear/nonlinear or separable/non-separable parts, yields the same system up to one consistent permutation of its variables, their laws and the rows and columns of the structure matrix. "
  "After a split, the components announced as linear (separable) are exactly those whose law is linear and not coupled with a nonlinear one (whose energy is separable), they come first, and the quadratic, affine and linear-dissipation coefficients reproduce the gradient and the dissipation law of the linear part.",
  ['inputs', 'programs'],
  'all systems, all source and destination positions, all energies and dissipation laws, all orders of moves',
  'Tests run one split on one fixed core and compare nothing with the system before the split.',
  ['pyphs/core/structure/moves.py', 'pyphs/core/structure/splits.py', 'pyphs/misc/tools.py'],
  'myrange, move_*, moveCoreMcolnrow, linear_nonlinear, monovar_multivar')

p('C03', 'Connecting ports and adding systems is exact',
  "Connecting two ports of a system with a coefficient removes both ports and leaves exactly the system obtained by imposing that the first input is minus the coefficient times the second output and the second input is the coefficient times the first output; a lossless structure stays lossless. "
  "Adding two systems gives their side-by-side juxtaposition: all variables of both, energies summed, laws concatenated, every structure-matrix entry kept in its block and no coupling added. "
  "Outputs returned by a system are the output rows of its structure matrix applied to gradient, dissipation law and inputs.",
  ['inputs', 'programs'],
  'all systems, all port pairs in either order, all coefficients for which the connection is solvable, all numbers of pending connections',
  'Tests check one or two connections by running them; they do not compare with the eliminated equations.',
  ['pyphs/core/core.py', 'pyphs/core/structure/connectors.py', 'pyphs/core/structure/output.py'],
  'Core.add_connector, port2connector, Core.connect, Core.__add__, output_function')

p('C04', 'Eliminating linear dissipation preserves the remaining equations',
  "Eliminating the linear dissipative components of a system leaves a system whose remaining equations are exactly those of the original with the linear dissipation laws solved for: same storages, ports and nonlinear dissipations, same behaviour for every gradient, nonlinear law value and input. "
  "Components the user excluded from elimination are kept with their law.",
  ['inputs', 'programs'],
  'all systems for which the elimination is solvable, all positions of linear and nonlinear dissipations, all sets of excluded components',
  'Tests only run the elimination on an RLC example without excluded components.',
  ['pyphs/core/structure/R.py', 'pyphs/core/structure/splits.py'],
  'reduce_z')

p('C05', 'Circuit graphs become lossless cores that obey Kirchhoff laws',
  "Whenever building a system from a network of components succeeds, each component edge appears exactly once, the interconnection is skew-symmetric, and every solution of the system's equations satisfies the conservation of flows at each node and of efforts around each loop of the network, with every dissipative component using the law matching its assigned control. "
  "Networks whose connection is inconsistent are rejected rather than silently mis-modelled.",
  ['inputs', 'programs'],
  'all networks of the dictionary edges on any set of nodes, in any order of insertion and any edge orientation',
  'Tests build ten fixed circuits and look only at the absence of exceptions.',
  ['pyphs/graphs/analysis.py', 'pyphs/graphs/build.py', 'pyphs/graphs/graph.py'],
  'GraphAnalysis (ec/ic/fc partition, Gamma/Lambda), buildCore, _setCore, _select_relations, Graph.to_core')

p('C06', 'Merging series/parallel components preserves terminal behaviour',
  "Replacing series or parallel storages or dissipations by their merged equivalent preserves the total effort/flow relation seen from the terminals, and for storages the stored energy, in accordance with the orientation of each merged edge. "
  "Detection groups only edges that really are in series or in parallel, and no component is lost or duplicated by the merge.",
  ['inputs', 'programs'],
  'all numbers of merged components, all parameter values, all orientations, all networks',
  'Tests merge two fixed circuits and compare nothing.',
  ['pyphs/graphs/subgraph.py', 'pyphs/graphs/tools.py', 'pyphs/graphs/graph.py'],
  'realizable/nonrealizable_merge_*, serial_edges, parallel_edges, sp_split, merge_*')

p('C07', 'Dictionary components are passive and obey their documented law',
  "For all admissible (positive) parameter values, each storage component of the dictionary has an energy that is nonnegative with its documented gradient, and each dissipative component dissipates a nonnegative power for every value of its variable. "
  "For components offering both an effort-controlled and a flux-controlled law the two laws are mutually inverse, sources and connectors are lossless, and the parameters given by the user are the ones that appear in the law.",
  ['inputs', 'configurations'],
  'all dictionary components, all admissible parameter values (given as numbers, names or name/value pairs), all values of the state or dissipation variable',
  'Tests instantiate each component once with default values and never check sign or inversion.',
  ['pyphs/dictionary', 'pyphs/dictionary/edges/storages.py', 'pyphs/dictionary/edges/dissipatives.py', 'pyphs/dictionary/tools.py'],
  'StorageLinear/NonLinear, DissipativeLinear/NonLinear, connectors, component constructors, form/mappars')

p('C08', 'Discrete gradients satisfy the discrete energy balance',
  "For every energy function and every pair of successive states whose increments exceed the switching threshold, the discrete gradient used by the energy-preserving scheme satisfies gradient dot increment equals energy difference, exactly, and it tends to the ordinary gradient when the increment vanishes. "
  "The theta and trapezoidal evaluations are the gradient at the theta point and the mean of the gradients at both ends; gradients, Jacobians and Hessians have the documented entries.",
  ['inputs'],
  'all energies (separable, nonseparable, quadratic, mixed), all states and increments, with or without linear/nonlinear splitting',
  'Tests call the functions on one energy and compare nothing.',
  ['pyphs/numerics/numerical_method/_discrete_calculus.py', 'pyphs/core/maths/_calculus.py', 'pyphs/numerics/numerical_method/_method.py'],
  'discrete_gradient_monovar/multivar, gradient_theta, gradient_trapez, gradient, hessian, jacobian, build_gradient_evaluation')

p('C09', 'The generated update scheme solves the discretised system',
  "The generated update scheme advances the state by its increment, and the increments and dissipation variables it solves for satisfy the discretised port-Hamiltonian equations (sample-rate times increment, and dissipation variable, equal to the structure matrix rows applied to discrete gradient, dissipation law and inputs), with structure and laws evaluated at the configured point of the step. "
  "Turning the explicit/implicit splitting on or off yields the same equations up to the order of the variables; observers are evaluated at the updated state before the step is solved, and outputs from the solved quantities.",
  ['inputs', 'configurations'],
  'all systems, all combinations of gradient type, theta and splitting',
  'Tests run a few simulations and check only that they complete.',
  ['pyphs/numerics/numerical_method/_method.py', 'pyphs/core/maths/_vectors.py', 'pyphs/core/maths/_matrices.py'],
  'Method construction, set_structure, build_structure_evaluation, explicit_implicit, set_execactions')

p('C10', 'Each numerical step executes the scheme on the right variables',
  "At each step the numerical object loads the inputs and parameters it is given, advances the state by the previous increment before evaluating anything else, executes the scheme's actions in order, and iterates the implicit solver until residual or progress falls below tolerance or the maximal number of iterations is reached, never more. "
  "Reading or writing a named variable touches exactly the entries of that variable, initial values land in the named variable, and every evaluated expression receives each symbol's own current value.",
  ['inputs', 'histories', 'configurations'],
  'all methods, all input sequences, all tolerances and iteration limits, all histories of steps',
  'Tests step a few methods and compare nothing with an independent evaluation.',
  ['pyphs/numerics/numerical_core/_numerical_core.py', 'pyphs/numerics/tools/_operation.py', 'pyphs/misc/tools.py'],
  'Numeric.update/_execs/_iterexecs, get/set generators, Operation, find')

p('C11', 'Simulated power balance closes with the documented power terms',
  "For every simulation with a converged step, the recorded discrete energy variation plus dissipated power plus source power sums to zero at every recorded time step (energy-preserving gradient), dissipated power being dissipation variable times law plus the resistive quadratic form of the structure. "
  "The recorded states are linked by state plus increment equals next state, and the recorded energy, energy variation, source and dissipated power are the documented functions of the recorded variables.",
  ['inputs', 'histories', 'configurations'],
  'all systems, input sequences, initial states, sample rates and time windows',
  'Tests plot the balance but never assert that it closes.',
  ['pyphs/core/core.py', 'pyphs/numerics/simulations/simulation.py', 'pyphs/numerics/simulations/h5data/h5data.py'],
  'Core.pd, Method scheme, Simulation run loop, H5Data dtE/ps/pd/E')

p('C12', 'Recorded data reads back exactly as written',
  "Every value written for a variable at a time step is read back unchanged for that variable and time step, whatever the number of steps, buffer size and variable dimensions, and writing one variable or window never alters another. "
  "Reading with a time window and step returns exactly the selected samples and matching time values, and window bounds given as sample times select exactly the samples from the first to the last of those times.",
  ['inputs', 'histories', 'configurations'],
  'all variable dimensions (including zero), numbers of steps, chunk sizes, row and column windows, start/stop/step settings, input formats',
  'Tests write one data set shorter than a chunk and only read it back whole.',
  ['pyphs/numerics/simulations/h5data/h5data.py', 'pyphs/numerics/simulations/h5data/tools.py'],
  'H5Data column layout, init_data, h5dump_vecs/seqs, slices, time/index conversion, set_dataset_from_iterable')

p('C13', 'Substitution and simplification preserve the meaning of the model',
  "Substituting values or expressions, applying the stored substitutions, simplifying and replacing inverses of parameters change no value: for every valuation of the remaining symbols each expression of the system evaluates as the original does with the substituted symbols given their value. "
  "Substituted symbols no longer occur in the system, other entries of the stored substitutions survive, and the dictionary passed by the caller is left as it was.",
  ['inputs', 'programs'],
  'all systems, all substitution dictionaries (numeric, symbolic, chained), all valuations',
  'Tests perform one numeric substitution on one core.',
  ['pyphs/core/tools/_substitutions.py', 'pyphs/core/tools/_simplify.py', 'pyphs/core/tools/_subsinverse.py', 'pyphs/core/tools/_free_symbols.py'],
  'substitute_core, simplify_core, subsinverse_core, free_symbols')

p('C14', 'Copies and saved systems are faithful and independent',
  "A copy of a system, and a system saved to disk then loaded into a fresh object, has the same variables, laws, structure, stored parameters, observers, pending connections and linear/nonlinear partition as the original. "
  "Any later change made to the copy leaves the original unchanged and conversely.",
  ['inputs', 'histories'],
  'all systems at any point of their construction, all subsequent mutations',
  'Tests never compare a copy with its original nor mutate one of them.',
  ['pyphs/core/core.py'],
  'Core.__copy__, Core.save, Core.load')

p('C15', 'Netlists survive editing and text round trips',
  "Printing a netlist and reading it back yields the same list of components, labels, nodes and arguments, in the same order, for every netlist the format can express. "
  "Adding, replacing or deleting a line, or concatenating netlists, acts on exactly that line and keeps component, label, nodes and arguments of every other line together.",
  ['inputs', 'histories'],
  'all netlists, all line indices, all sequences of edits, all argument forms',
  'Tests read a few fixed files and compare one output.',
  ['pyphs/graphs/netlists.py'],
  'Netlist.read/netlist/line/add_line/setline/delline/__add__, print_netlist_line')

p('C16', 'Generated C++ performs the same scheme as the Python simulation',
  "The generated C++ code declares the same variables at the same positions, evaluates the same expressions with the same values, and executes the same actions in the same order, with the same stopping rule for the implicit solver, as the Python simulation of the same method. "
  "Parameters, initial values and sample rate in the generated code are those of the simulated system.",
  ['inputs', 'configurations'],
  'all methods and configurations',
  'The C++ tests only check that files are produced (no compilation of the simulation against Python output).',
  ['pyphs/numerics/cpp/method2cpp.py', 'pyphs/numerics/cpp/functions.py', 'pyphs/numerics/cpp/arguments.py', 'pyphs/numerics/cpp/operations.py'],
  'method2cpp, append_args/funcs/ops/updates, op2cpp, iterate')

p('C17', 'Numerical evaluation of expressions gives each symbol its own value',
  "For every expression of a system, its numerical evaluation with given argument values equals the expression evaluated at those values after applying the stored parameter values, elementwise for vectors and matrices and row by row for sequences of arguments. "
  "Argument lists reported with an evaluation are exactly the expression's variables, in the system's argument order, with their positions; expressions with unassigned symbols are rejected.",
  ['inputs'],
  'all systems, expressions, argument values and stored parameters',
  'Tests evaluate a handful of functions once without comparing values.',
  ['pyphs/numerics/tools/_evaluation.py', 'pyphs/numerics/tools/_lambdify.py', 'pyphs/misc/tools.py'],
  'find, lambdify, Evaluation.expr_to_numeric, pyphs_vectorize')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    print(len(P))
