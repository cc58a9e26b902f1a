"""Writes properties.jsonl (edit here, then run)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())}, 'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': ['src/sloth/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'src/sloth/' + w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': 'src/sloth/' + w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Unit arithmetic follows the exponents of the seven SI dimensions',
     '''The product, quotient and numeric power of units have exactly the sum, difference and multiple of the exponents of
     their operands over the seven SI base dimensions, whatever chain of operations and constructions led to them. Sums
     and differences of units, and a unit as an exponent, are accepted if and only if the exponents are equal (for an
     exponent: all zero), and otherwise refused with an error. No operation alters its operands, the predefined units,
     or the dictionary a unit was built from.''',
     ['inputs', 'histories'], '''All units over integer and fractional exponents, the predefined units among them, and
     all sequences of operations that reuse earlier results.''',
     'The tests build a few units and compare them; exponents, chains and aliasing are unbounded.',
     ['core/unit.py', 'core/template_units.py'],
     [('__mul__/__truediv__/__pow__', 'core/unit.py'), ('_check_dimensional_coherence', 'core/unit.py'),
      ('_re_eval_dimensions', 'core/unit.py')],
     [('dimension', 'exponent of every SI dimension', 'core/unit.py Unit')], ['Unit.dimension after every operation'])

prop('C02', 'Expressions and equations are accepted exactly when dimensionally coherent',
     '''Every expression built with + - * / **, the transcendental functions, Min, Max and time derivatives carries the
     unit that dimensional analysis gives it, numbers taking the dimension of the other side of a sum. An expression that
     adds, subtracts or compares (Min, Max) different dimensions, applies a transcendental function to a dimensional
     argument or uses a dimensional exponent is refused with an error, and so is an equation between sides of different
     dimensions; coherent ones are accepted. Exponents are numbers or specified dimensionless quantities, and using an
     expression never changes its unit or that of the quantities in it.''',
     ['inputs', 'programs'], '''All expression trees over variables, parameters and constants of any dimensions, in any
     order of operands, specified or not.''',
     'The tests check a handful of expressions; coherence is a statement about every tree of operators.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/equation.py', 'core/quantity.py',
      'core/variable.py'],
     [('EquationNode operators', 'core/expression_evaluation.py'), ('transcendental functions, Min and Max',
                                                                   'core/equation_operators.py'),
      ('setResidual', 'core/equation.py')],
     [('unit_object', 'unit of an expression', 'core/expression_evaluation.py EquationNode')],
     ['the unit of every intermediate expression'])

prop('C03', 'An expression evaluates to the mathematical value that was written',
     '''For every expression or equation built with the supported operators and functions, evaluating it with given
     values of its unspecified quantities (or, without any, with the values they hold) gives the value of the mathematical
     formula as written, and the residual is the left side minus the right side. A specified quantity contributes the
     value it had when it was called in the expression. Reusing an expression inside others changes neither its value nor
     theirs.''',
     ['inputs', 'programs'], 'All expression trees, operand orders, mixtures of numbers and quantities, and points where '
     'the formula is defined.',
     'The tests evaluate a few formulas at one point each.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/equation.py', 'core/quantity.py'],
     [('EquationNode operators', 'core/expression_evaluation.py'), ('eval', 'core/equation.py'),
      ('_convertToFunction', 'core/equation.py')],
     [('symbolic_object', 'symbolic formula', 'core/expression_evaluation.py EquationNode')],
     ['Equation.eval', 'Equation.getResidual'])

prop('C04', 'Assigning a value checks value and unit and is atomic',
     '''setValue on a variable, parameter or constant with a number, or with another quantity of the same dimensions,
     stores that value and marks the object as specified; a unit given along a number must be coherent with the unit of
     the object. Any other value or an incoherent unit is refused with an error and leaves value, unit, and specified
     state as they were. The object given as the value is never altered and later changes to it do not affect the
     receiver.''',
     ['inputs', 'histories'], 'All sequences of assignments with numbers, quantities and wrong objects, with and without '
     'units, on all kinds of quantities.',
     'The tests assign once, correctly; atomicity is about every refused assignment.',
     ['core/quantity.py', 'core/variable.py', 'core/parameter.py', 'core/constant.py'],
     [('setValue', 'core/quantity.py'), ('setValue', 'core/constant.py'), ('setValue', 'core/parameter.py')],
     [('value, is_specified', 'stored value and state', 'core/quantity.py Quantity')], ['value, units, is_specified'])

prop('C05', 'Classification as linear, nonlinear or differential is sound',
     '''An expression is classified as differential if and only if a time derivative occurs in it, and as linear only if
     it is an affine function of its unspecified quantities. Sums, differences and scalings by numbers and specified
     quantities of quantities and linear expressions are classified as linear. An equation takes the classification of its sides, and a
     problem is linear, nonlinear, differential or differential-algebraic according to its equations.''',
     ['inputs', 'programs'], 'All expression trees and all systems of equations built from them.',
     'Tests look at a few expressions; a wrong class silently selects the wrong solver for any other.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/equation.py', 'problem.py'],
     [('_checkEquationTypePrecedence', 'core/expression_evaluation.py'), ('_getTypeFromExpression', 'core/equation.py'),
      ('_getProblemType', 'problem.py')],
     [('equation_type', 'classification', 'core/expression_evaluation.py, core/equation.py')],
     ['equation_type of every expression', 'Equation.type', 'Problem.problem_type'])

prop('C06', 'A model registers every declared object and refuses undeclared ones',
     '''After a model is declared, each variable, parameter, constant and equation it created is found under its
     qualified name (name, underscore, model name) with the unit, value and bounds given, and nothing else is registered.
     An equation that mentions an object not declared in the model (for example of another model, or created outside)
     is refused with an error and is not registered, unless the check is explicitly disabled. Declaring a model again
     rebuilds the same registry, with parameters and constants keeping the assigned values.''',
     ['programs', 'histories'], 'All models: any number and order of declarations, names that contain each other, shared '
     'short names in several models, repeated declarations.',
     'The tests declare a few well-formed models.',
     ['model.py', 'core/equation.py'],
     [('createVariable/createParameter/createConstant/createEquation', 'model.py'), ('_checkEquation_', 'model.py'),
      ('__call__', 'model.py')],
     [('variables, parameters, constants, equations', 'registry', 'model.py Model')], ['the registries of the model'])

prop('C07', 'Separately created models, problems and simulations share no state',
     '''Whatever is declared, added, connected, configured or run on one model, unit operation, property package, problem, simulation or optimization
     leaves every other one, created earlier or later and not given to it, exactly as it would be without it: same
     registries, ports, initial conditions, configurations and results.''',
     ['histories', 'programs'], 'All interleavings of construction and use of independent objects in one process.',
     'Each test builds its own objects and looks at those only.',
     ['model.py', 'problem.py', 'simulation.py', 'unit_op.py', 'core/property_package.py', 'core/expression_evaluation.py'],
     [('constructors with default arguments', 'model.py, problem.py, simulation.py, unit_op.py, core/*.py')],
     [], ['registries, ports, configurations and results of the bystander'])

prop('C08', 'Incorporating a model copies an equivalent system and leaves the source',
     '''A model that incorporates another (algebraic) model obtains its variables, parameters, constants and equations under its own name,
     with the same units, values, bounds and exposure, and every incorporated equation has, for the same values, the same residual as the
     original. The same holds when only some kinds of objects are incorporated, or when the names are kept. The source model is left exactly as it was, and later changes to either model do not affect the other.''',
     ['programs', 'histories'], 'All algebraic models, several incorporations into one model, incorporations of models that '
     'incorporated others, selective incorporation.',
     'Tests incorporate one model and solve it once.',
     ['model.py', 'core/equation.py'],
     [('incorporateFromExternalModel', 'model.py'), ('_addVariableDirectly/_addEquationDirectly', 'model.py'),
      ('_convertEquationSymbolicExpression', 'core/equation.py')],
     [], ['registries and residuals of both models'])

prop('C09', 'A resolved problem contains exactly the equations of its models, once each',
     '''A resolved problem consists of exactly the equations of all its models and connections, each once, and of exactly the unspecified
     variables occurring in them, whatever the number of models and the order in which they were added. Resolving again, or adding a model again, changes nothing in the problem nor in
     its solution.''',
     ['programs', 'histories'], 'All sets of models and connections, orders of addition, one or many calls, and repeated resolutions.',
     'Tests resolve one or two models once, in one order.',
     ['problem.py', 'core/equation_block.py', 'model.py'],
     [('addModels/resolve', 'problem.py'), ('_buildEquationBlock', 'problem.py'), ('_assignEquationGroups',
                                                                                 'core/equation_block.py')],
     [('equation_block', 'assembled system', 'problem.py')], ['equations and variables of the equation block', 'the solution'])

prop('C10', 'A connection equates exposed outputs and inputs, and is refused otherwise',
     '''Connecting variables of two models is refused with an error, adding nothing, unless every output variable is exposed as output of the first
     model, every input variable is exposed as input of the second, and their dimensions agree. An accepted connection adds exactly one equation,
     that the sum of the inputs equals the sum of the outputs (or the expression given), which every solution satisfies. Any number of
     connections between the same models all hold at once, whether made from variables or from expressions.''',
     ['programs', 'histories'], 'All sets of exposed and non-exposed variables, connection modes, and sequences of connections.',
     'Tests connect one pair of variables.',
     ['problem.py', 'model.py', 'connection.py'],
     [('createConnection', 'problem.py'), ('_createConnection', 'model.py')],
     [], ['equations of the models', 'solutions of the connected problem'])

prop('C11', 'A simulation runs only when the degrees of freedom are exactly zero',
     '''Before solving, a simulation refuses with an error naming over-specification a problem with more equations than unknowns
     (unspecified variables and unspecified parameters of the equations), and with an error naming under-specification
     a problem with fewer, reporting the difference; with as many equations as unknowns it never raises these errors. Specifying one unknown, or removing one equation, moves the count by one.''',
     ['programs'], 'All models and problems, of any type, with any numbers of specified and unspecified variables and parameters, and connections.',
     'Tests run well-posed problems; the refusal is over every other.',
     ['analysis.py', 'simulation.py', 'problem.py', 'core/equation_block.py'],
     [('DOF_Analysis._dofTest', 'analysis.py'), ('runSimulation', 'simulation.py'), ('_getVarList', 'core/equation_block.py')],
     [], ['outcome of runSimulation'])

prop('C12', 'Linear problems are solved exactly, the same by every solver',
     '''For every well-conditioned square linear problem, each linear solver (symbolic, numeric, and compiled) returns, under the name of each variable, the
     value of the unique solution, whatever the order and form of the equations, the names of the variables and the number
     of models.''',
     ['inputs', 'programs', 'configurations'], 'All nonsingular, well-conditioned linear systems written in residual or elementary form over one or several models, and all solvers.',
     'Tests solve a few fixed systems with one solver each.',
     ['solvers.py', 'core/equation_block.py', 'core/equation.py', 'simulation.py'],
     [('LASolver', 'solvers.py'), ('_getEquationList', 'core/equation_block.py')],
     [], ['Simulation.getResults'])

prop('C13', 'Nonlinear solvers return a root of the equations or raise',
     '''Whatever a nonlinear solver returns, under the name of each variable, satisfies every equation of the problem; when it does not converge to
     a root the simulation raises an error instead of returning numbers. From an initial guess close to a well-conditioned root it returns
     that root.''',
     ['inputs', 'programs', 'configurations'], 'All nonlinear systems, with and without real roots, all initial guesses and solvers.',
     'Tests solve systems with a known root from a good guess.',
     ['solvers.py', 'core/equation_block.py', 'simulation.py'],
     [('NLASolver', 'solvers.py'), ('_isRoot', 'solvers.py')],
     [], ['Simulation.getResults', 'errors of runSimulation'])

prop('C14', 'Differential problems integrate the written equations from the given state',
     '''The trajectories returned for an ordinary differential problem (equations in the form: derivative == expression) start at the configured initial conditions and time, are given on the
     configured time grid under the name of each variable, and follow the equations as written within the tolerance of the integrator,
     whatever the order of equations, variables and initial conditions. Compiled and interpreted evaluation, and every available
     integrator, give the same trajectories.''',
     ['inputs', 'programs', 'configurations'], 'All explicit differential systems over one or several models, orders of declaration, initial states, grids and evaluation modes.',
     'Tests integrate systems of one or two variables and mostly do not look at the numbers.',
     ['solvers.py', 'core/equation_block.py', 'simulation.py', 'core/domain.py'],
     [('DSolver', 'solvers.py'), ('_getDiffYinOrder', 'solvers.py'), ('_getEquationBlockAsFunction', 'core/equation_block.py')],
     [], ['Simulation.getResults', 'values registered in the domain'])

prop('C15', 'Differential-algebraic problems reach the integrator as written',
     '''For a differential-algebraic problem in which time does not occur explicitly, the integrator is given, position by position, the initial values, initial derivatives and
     differential or algebraic character of the variables, and a residual that vanishes exactly on the states and derivatives that satisfy
     the written equations. The trajectories are returned on the configured time grid under the name of their own variable and time, whatever the order of declaration and the
     compilation mechanism.''',
     ['inputs', 'programs', 'configurations'], 'All semi-explicit differential-algebraic systems over one or several models, orders of declaration and of conditions, and evaluation modes.',
     'Tests run a couple of fixed systems and need an integrator that is absent from the baseline.',
     ['solvers.py', 'core/equation_block.py', 'simulation.py'],
     [('DaeSolver', 'solvers.py'), ('_getBooleanDiffFlagsForEquations', 'core/equation_block.py'), ('_getDiffList',
                                                                                                    'core/equation_block.py')],
     [], ['what the integrator receives', 'Simulation.getResults'])

prop('C16', 'A domain keeps every registered value under its own column and in order',
     '''After any sequence of registrations, a domain gives for each variable, and for the independent variable, exactly the values registered for
     it, in the order of registration, at the same rows; nothing is lost, duplicated or attributed to another variable. Resetting empties it and changes
     nothing else.''',
     ['histories', 'inputs'], 'All sequences of registrations (all columns at once, rows or blocks), resets and distributions over any number of variables.',
     'Tests read back a single registration.',
     ['core/domain.py', 'core/variable.py'],
     [('_register', 'core/domain.py'), ('_setDomain', 'core/domain.py')],
     [('values', 'data frame of the values', 'core/domain.py')], ['Domain values after every registration'])

prop('C17', 'The outcome of a simulation does not depend on what ran before',
     '''Running a problem gives the same results whether it is run for the first time, again, after another solver or configuration, or after
     other problems, in the same or another simulation (a dynamic one, with its domain reset or replaced); no run changes the specified values, initial conditions or equations
     of the problem.''',
     ['histories', 'configurations'], 'All sequences of runs over several problems, solvers and configurations in one process.',
     'Each test runs its simulation once.',
     ['simulation.py', 'solvers.py', 'problem.py', 'core/equation_block.py'],
     [('runSimulation', 'simulation.py'), ('setConfigurations', 'simulation.py'), ('reset', 'simulation.py')],
     [], ['results of every run'])

prop('C18', 'Results and configurations are reported and saved faithfully',
     '''The results given as a list and as a dictionary (and, for dynamic problems, those kept in the domain) are the same values for the same
     variables, and the tables of results and of final residuals show them. JSON-serializable configurations
     written to a file are loaded by another simulation as the same configurations and give the same results. Asking for results twice gives the same answer, and
     altering what was returned as a list or dictionary does not alter the results of the simulation.''',
     ['inputs', 'configurations'], 'All simulations of algebraic and dynamic problems, and all JSON-serializable configurations.',
     'Tests look at one form of the results each.',
     ['simulation.py'],
     [('getResults', 'simulation.py'), ('dumpConfigurations', 'simulation.py'), ('showResults', 'simulation.py')],
     [], ['getResults, the printed table, the dumped file'])

prop('C19', 'Optimization returns the best evaluated point inside the bounds',
     '''Every point at which an optimization evaluates the objective lies within the bounds (given as lists or a dictionary), with one coordinate per optimized
     parameter. The champion returned is one of the evaluated points, the fitness returned is the objective at that point, and no evaluated
     point is better in the requested sense (minimum by default, or maximum); the log of a run shows the best objective of each generation. Asking for the results before a run, or running without
     the objective resolved, raises an error.''',
     ['inputs', 'configurations', 'histories'], 'All objectives, bounds, numbers of parameters, optimizers, populations, and both senses.',
     'Tests run one minimization with loose asserts.',
     ['optimization.py'],
     [('_evaluateFitness', 'optimization.py'), ('runOptimization', 'optimization.py'), ('DeclareSetBounds', 'optimization.py')],
     [], ['every evaluation of the objective', 'getResults'])

prop('C20', 'The library unit operations conserve mass, moles and energy',
     '''Every solution of a problem with the homogeneous mixer, splitter, valve, pump and heater of the library satisfies their balances: mass and mole flow out
     equal those in; the enthalpy flow out equals that in plus the heat given; the pressure out is that in, minus the drop of a valve or heater, or plus the
     gain of a pump; the temperature out is that in, plus heat over mass flow and heat capacity in a heater. A valve gives the volumetric flow out
     as the open fraction times mass flow over density, and multiphasic mixers and pumps keep the fractions of what flows through them.''',
     ['inputs', 'programs'], 'All conditions of the inlet, parameters, fluids, and flowsheets that connect these units in any number and order.',
     'Tests solve one mixer with fixed values.',
     ['unit_op_library.py', 'model.py', 'problem.py'],
     [('DeclareEquations of Mixer, Valve, SimplePump, Heater', 'unit_op_library.py')],
     [], ['Simulation.getResults'])

prop('C21', 'Reports list every equation with its objects and classification',
     '''The report of a model has exactly one row for each equation of the model, with its name, description, the variables, parameters and constants that occur in it, the
     specified parameters and constants marked as such, and its classification. The report of a problem gives its name, its type, and the report of each of its
     models. Producing a report changes nothing.''',
     ['programs'], 'All models and problems.',
     'Tests only run the report.',
     ['analysis.py', 'simulation.py', 'model.py'],
     [('modelReport/problemReport', 'analysis.py')],
     [], ['text of the reports'])

prop('C22', 'Plots draw exactly the requested series of the simulation',
     '''Plotting time series draws one curve for each requested variable (and abscissa), whose points are exactly the values given, or kept in
     the domain for the names given, with the corresponding label and marker. The axis labels are those given, and the plot is saved to the file asked for. Each plot starts
     empty: it contains nothing of previous ones.''',
     ['inputs', 'histories'], 'All series, subsets and orders of variables, labels and markers, and sequences of plots.',
     'Tests only save a file.',
     ['plotter.py', 'simulation.py', 'core/domain.py'],
     [('plotTimeSeries', 'plotter.py'), ('__getitem__', 'core/domain.py')],
     [], ['what reaches the drawing library'])

prop('C23', 'Arithmetic of quantities gives the right value and unit and alters nothing',
     '''Adding, subtracting, multiplying, dividing and raising variables, parameters and constants gives a new object of the same
     kind whose value is the operation on the values and whose unit is the operation on the units. Sums and differences of different dimensions are refused
     with an error. The operands keep their name, value, unit and specification.''',
     ['inputs', 'histories'], 'All pairs and chains of quantities of any dimensions and values.',
     'Tests operate on a few pairs.',
     ['core/quantity.py', 'core/unit.py'],
     [('__add__/__sub__/__mul__/__truediv__/__pow__', 'core/quantity.py')],
     [], ['value and unit of every result and operand'])

prop('C24', 'Material streams derive flows and properties from what is specified',
     '''When exactly one of mass and mole flow of a stream is specified, the other becomes specified too and mass flow equals mole flow times molar mass; when both are, both are kept; when none is,
     neither is invented. Without a property package nothing is derived. The property package of a stream is evaluated at the temperature and pressure specified for the stream (with the
     defaults 298.15 K and 101325 Pa for one left unspecified), and not otherwise. A unit fed by several streams takes the lowest of their temperatures and of their pressures.''',
     ['inputs', 'programs'], 'All subsets of specified conditions, values, fluids, numbers and orders of inlet streams.',
     'Tests use one stream of water.',
     ['unit_op_library.py', 'core/property_package.py', 'model.py'],
     [('DeclareParameters of the streams', 'unit_op_library.py'), ('calculate', 'core/property_package.py'),
      ('_totalizeInletsFunction_genericMaterialStreams', 'model.py')],
     [], ['values of the stream and of its property package', 'Simulation.getResults'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
