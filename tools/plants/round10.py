"""Planted bugs, another round: what fails half way, namesakes, several problems and optimizations sharing objects."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


U, EE, EQ, EO, Q, EB = 'core/unit.py', 'core/expression_evaluation.py', 'core/equation.py', 'core/equation_operators.py', 'core/quantity.py', 'core/equation_block.py'
SO, SI, PR, MO, UL, DO, OP, AN, PL, PP = 'solvers.py', 'simulation.py', 'problem.py', 'model.py', 'unit_op_library.py', 'core/domain.py', 'optimization.py', 'analysis.py', 'plotter.py', 'core/property_package.py'

bug('C06-checked-once', [(MO, 'if check_equation is True:', 'if check_equation is True and eq.name not in self.equations:')],
    'an equation declared again, now with an object of another model', 'An equation of a name that is registered already is not checked.', '''
A, B = Model('A'), Model('B')
x, y = A.createVariable('x', dimless), B.createVariable('y', dimless)
A.createEquation('e', '', x() - 3.)
check(refused(lambda: A.createEquation('e', '', x() - y())), 'object of another model')
''')
bug('C06-zero-stranger', [(MO, 'is_declared = all( obj_i in all_objects_keys for obj_i in list(eq.objects_declared.keys()) )',
     'is_declared = all( obj_i in all_objects_keys for obj_i, q_ in eq.objects_declared.items() if q_.value or not q_.is_specified )')],
    'an undeclared parameter specified as zero', 'Undeclared objects of value zero are let in.', '''
A, B = Model('A'), Model('B')
x, k = A.createVariable('x', dimless), B.createParameter('k', dimless)
k.setValue(0.)
check(refused(lambda: A.createEquation('e', '', x() - k())), 'object of another model')
''')
bug('C06-first-six', [(MO, 'is_declared = all( obj_i in all_objects_keys for obj_i in list(eq.objects_declared.keys()) )',
     'is_declared = all( obj_i in all_objects_keys for obj_i in list(eq.objects_declared.keys())[:6] )')],
    'an undeclared object after six declared ones', 'Only the first six objects of an equation are looked for.', '''
A, B = Model('A'), Model('B')
x = [A.createVariable('x%d' % i, dimless) for i in range(7)]
y = B.createVariable('y', dimless)
check(refused(lambda: A.createEquation('e', '', sum(v() for v in x) - y())), 'object of another model')
''')
bug('C10-by-name', [(PR, 'output_var_is_declared= output_vars in model_1.exposed_vars[\'output\']', 'output_var_is_declared= output_vars.name in [o_.name for o_ in model_1.exposed_vars[\'output\']]')],
    'a variable of another model of the same name as the first', 'The outputs are looked for by their names.', '''
A, T, B = Model('A'), Model('A'), Model('B')
x = A.createVariable('x', dimless, '', is_exposed=True, type='output')
z = T.createVariable('x', dimless, '', is_exposed=True, type='output')
y = B.createVariable('y', dimless, '', is_exposed=True, type='input')
p = Problem('P')
p.addModels([A, B])
check(refused(lambda: p.createConnection(A, B, z, y)), 'namesake')
p.createConnection(A, B, x, y)
''')
bug('C10-outputs-among-inputs', [(PR, "input_var_is_declared= all(in_i in model_2.exposed_vars['input'] for in_i in input_vars)",
     "input_var_is_declared= all(in_i in model_2.exposed_vars['input'] or in_i in model_2.exposed_vars['output'] for in_i in input_vars)")],
    'a list of inputs with one exposed as output', 'In lists, outputs pass for inputs.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, '', is_exposed=True, type='output')
y = B.createVariable('y', dimless, '', is_exposed=True, type='input')
z = B.createVariable('z', dimless, '', is_exposed=True, type='output')
p = Problem('P')
p.addModels([A, B])
check(refused(lambda: p.createConnection(A, B, [x], [y, z])), 'an output as input')
''')
bug('C10-four-inputs', [(MO, 'in_vars_names = (",").join([in_i.name for in_i in in_vars])', 'in_vars_names = (",").join([in_i.name for in_i in in_vars][:1])')],
    'two connections to lists of inputs that start alike, from the same output', 'The name of a connection has its first input only, and the second one replaces the first.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, '', is_exposed=True, type='output')
y = [B.createVariable('y%d' % i, dimless, '', is_exposed=True, type='input') for i in range(3)]
A.createEquation('e', '', x() - 6.)
B.createEquation('f', '', y[0]() - 1.)
p = Problem('P')
p.addModels([A, B])
p.createConnection(A, B, [x], [y[0], y[1]])
p.createConnection(A, B, [x], [y[0], y[2]])
check(len(B.equations) == 3, list(B.equations))
''')
bug('C05-up-to-three-models', [(PR, 'is_DAE = is_differential==True and (is_linear==True or is_nonlinear==True)', 'is_DAE = is_differential==True and (is_linear==True or is_nonlinear==True) and len(self.models) < 4')],
    'differential and algebraic equations over four models', 'Differential-algebraic problems of many models have no type.', '''
M = [Model('M%d' % i) for i in range(4)]
t = M[0].createVariable('t', s)
x = M[0].createVariable('x', dimless/s*s)
x.distributeOnDomain(Domain('d', s, t))
k = M[0].createParameter('k', dimless/s)
k.setValue(2.)
M[0].createEquation('e', '', x.Diff(t) == k()*x())
for m_ in M[1:]:
    y = m_.createVariable('y', dimless)
    m_.createEquation('f', '', y() - 3.)
p = problem(*M, time='t_M0')
check(p._getProblemType() == 'differential-algebraic', p._getProblemType())
''')
bug('C08-taken-while-copied', [(MO, '      _ = [self._addEquationDirectly(obj_i, names_map, whole_objects_map, rewrite_name) for obj_i in list(model_to_incorporate.equations.values())]',
     '''      eqs_, model_to_incorporate.equations = model_to_incorporate.equations, {}
      _ = [self._addEquationDirectly(obj_i, names_map, whole_objects_map, rewrite_name) for obj_i in list(eqs_.values())]
      model_to_incorporate.equations = eqs_''')],
    'an incorporation that fails at an equation (here, one whose parameters were left out)', 'The source loses its equations when an incorporation fails.', '''
A, W = Model('A'), Model('W')
x, k = A.createVariable('x', dimless), A.createParameter('k', dimless)
A.createEquation('e', '', x() - k())
refused(lambda: W.incorporateFromExternalModel(A, incorporate_parameters=False))
import sys
def stop(frame, event, arg):
    if event == 'call' and frame.f_code.co_name == '_addEquationDirectly':
        sys.setprofile(None)
        raise RuntimeError('stopped')
sys.setprofile(stop)
try:
    Model('V').incorporateFromExternalModel(A)
except RuntimeError:
    pass
finally:
    sys.setprofile(None)
check(list(A.equations) == ['e_A'], list(A.equations))
''')
bug('C17-time-taken-out', [(SO, '    # Retrive initial conditions in the right order\n', '    t_0_ = initial_conditions.pop(self.problem.time_variable_name[0], None) if self.problem.time_variable_name else None\n')],
    'a differential problem run twice', 'The first run takes the time out of the initial conditions.', '''
M = Model('M')
t, x, k = M.createVariable('t', s), M.createVariable('x', dimless), M.createParameter('k', dimless/s)
k.setValue(-1.)
d = Domain('d', s, t)
x.distributeOnDomain(d)
M.createEquation('e', '', x.Diff(t) == k()*x())
p = problem(M, time='t_M', cond={'t_M': 0., 'x_M': 1.})
def run():
    d()
    sim = Simulation('S', problem=p)
    sim.setConfigurations(definition_dict={'is_dynamic': True, 'domain': d, 'time_variable_name': 't_M', 'end_time': 1., 'number_of_time_steps': 5})
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
with quiet():
    run()
check(not refused(run), 'second run')
''', nth=0)
bug('C14-conditions-at-once', [(PR, '    self.initial_conditions.update(condition)', '    self.initial_conditions = dict(condition)')],
    'initial conditions given in two parts', 'Conditions given replace the ones given before, of other variables.', '''
M = Model('M')
t, x, k = M.createVariable('t', s), M.createVariable('x', dimless), M.createParameter('k', dimless/s)
k.setValue(-1.)
d = Domain('d', s, t)
x.distributeOnDomain(d)
M.createEquation('e', '', x.Diff(t) == k()*x())
p = problem(M, time='t_M', cond={'x_M': 1.})
p.setInitialConditions({'t_M': 0.})
d()
def run():
    sim = Simulation('S', problem=p)
    sim.setConfigurations(definition_dict={'is_dynamic': True, 'domain': d, 'time_variable_name': 't_M', 'end_time': 1., 'number_of_time_steps': 5})
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
check(not refused(run), 'conditions in two parts')
check(close(d.values['t_M']['x_M'].values[-1], 0.36787944, 1e-4), 'value')
''')
