NA = {}
_P = 'proved for all sizes (function contracts, see OBLIGATIONS.md): %s. Bounded (run-time checked contracts, bounds in the evidence): %s.'
LEVEL = {k: 'proof' for k in ('C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17')}
NOTE = {
    'C01': _P % ('all block accessors and mutators of M, J, R', 'the same on concrete sympy matrices, histories'),
    'C02': _P % ('moves and linear/nonlinear split of any core', 'monovariate/multivariate split, composition of moves'),
    'C03': _P % ('juxtaposition, port to connector, connector declaration, connection of one pair, outputs', 'several connectors, algebraic loops'),
    'C04': _P % ('elimination of any number of linear dissipations', 'excluded components, symbolic coefficients'),
    'C07': _P % ('constructors of analytic storages, linear dissipations, diode, potentiometer, transistor, felts, transfer, connectors, sources for all positive parameters and all values of the variables', 'triode, piecewise-linear, fractional, beam, pickup, thermal source; parameter styles; real sympy'),
    'C08': _P % ('gradients, jacobians, Hessians, discrete gradients, theta and trapezoidal rules', 'the gradient built in methods, matrix inverse'),
    'C09': _P % ('rows of the discretised system and their jacobians, evaluation of laws and gradient, action lists (Newton step, residual, linear part, outputs)', 'whole methods (orchestration of the split), steps on generated systems'),
    'C10': _P % ('solver loop, command execution, update, accessors, evaluation, operations, initialisation', 'whole steps against an interpreter of the scheme'),
    'C11': _P % ('dissipated power formula, balance identity, source power, energy variation over any window', 'whole simulations, records, windows and expressions'),
    'C12': _P % ('layout, reading, writing, buffers, windows, time axis of the data store', 'expressions read from data, reopening, real h5py files'),
    'C13': _P % ('substitution by a dictionary of any size into every expression of a core of any dimensions, stored and given entries (0 to 2 of each)', 'disappearance of the symbols, simplification, replacement of inverses, renaming on real sympy'),
    'C14': _P % ('copy, save and load are faithful and share no mutable content', 'histories of mutations, real shelve files'),
    'C15': _P % ('line access, addition, deletion, replacement, concatenation', 'text round trip, histories'),
    'C17': _P % ('selection of the ordered arguments, evaluation row by row of 1 to 3 arguments and components over sequences of any length, argument order, construction of the numerical functions', 'lambdify against sympy values, whole evaluations'),
}
