"""Planted bugs, another round: constructors, corrections and repetitions."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


SO, SI, PR = 'solvers.py', 'simulation.py', 'problem.py'

bug('C07-models-shared', [(PR, 'self.models = OrderedDict(models)', 'self.models = models if isinstance(models, OrderedDict) else OrderedDict(models)')],
    'two problems made with the same ordered dictionary of models', 'The dictionary is kept: a model added to one problem is in the other.', '''
from collections import OrderedDict
A, B = Model('A'), Model('B')
given = OrderedDict([('A', A)])
p, q = Problem('P', models=given), Problem('Q', models=given)
p.addModels(B)
check(list(q.models) == ['A'], list(q.models))
''')
bug('C14-zero-not-corrected', [(PR, '    self.initial_conditions.update(condition)', '    self.initial_conditions.update({k_: v_ for k_, v_ in condition.items() if v_ or k_ not in self.initial_conditions})')],
    'a condition given before, corrected to zero', 'Zero does not replace a condition given before.', '''
M = Model('M')
t, x, k = M.createVariable('t', s), M.createVariable('x', dimless), M.createParameter('k', dimless/s)
k.setValue(1.)
d = Domain('d', s, t)
x.distributeOnDomain(d)
M.createEquation('e', '', x.Diff(t) == k() - 0.5*k()*x())
p = problem(M, time='t_M', cond={'t_M': 0., 'x_M': 1.})
p.setInitialConditions({'x_M': 0.})
d()
sim = Simulation('S', problem=p)
sim.setConfigurations(definition_dict={'is_dynamic': True, 'domain': d, 'time_variable_name': 't_M', 'end_time': 1., 'number_of_time_steps': 5})
with quiet():
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
check(d.values['t_M']['x_M'].values[0] == 0, d.values['t_M']['x_M'].values[0])
''')
bug('C11-first-run-only', [(SI, '    if sanity_check is True:', '    if sanity_check is True and self.output is None:')],
    'a simulation run, and run again after its problem was changed', 'Only the first run of a simulation checks the degrees of freedom.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e', '', x() + y() - 3.)
M.createEquation('f', '', x() - y() - 1.)
p = problem(M)
sim = Simulation('S', problem=p)
sim.setConfigurations(linear_solver='sympy')
with quiet():
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
M.createEquation('g', '', 2.*x() + y() - 5.)
p.resolve()
try:
    with quiet():
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
    err = ''
except Exception as e:
    err = str(e)
check('OVER' in err, err[:200])
''')
bug('C11-type-configured', [(SI, '    if sanity_check is True:', "    if sanity_check is True and self.configurations['problem_type'] is None:")],
    'the type of the problem given in the configurations', 'The degrees of freedom are not checked when the type is configured.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e', '', x() + y() - 3.)
p = problem(M)
sim = Simulation('S', problem=p)
sim.setConfigurations(linear_solver='sympy', problem_type='linear')
try:
    with quiet():
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
    err = ''
except Exception as e:
    err = str(e)
check('UNDER' in err, err[:200])
''')
bug('C18-number-overridden', [(SI, "    if number_parameters_to_optimize != 0 and additional_conf[", "    if additional_conf[")],
    'configurations with parameters to optimize, through a file', 'The number of parameters to optimize is lost when configurations are loaded.', '''
import os, tempfile
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x() - 3.)
p = problem(M)
a, b = Simulation('S', problem=p), Simulation('T', problem=p)
a.setConfigurations(number_parameters_to_optimize=2)
f = os.path.join(tempfile.mkdtemp(), 'c.json')
a.dumpConfigurations(f)
b.setConfigurations(configurations_file=f)
check(b.configurations == a.configurations, [k for k in a.configurations if a.configurations[k] != b.configurations.get(k)])
''')
bug('C14-first-time-only', [(SO, 'Y_.update({t_i:t})', 'Y_.update({t_i:t} if t_i == self.problem.time_variable_name[0] else {t_i:initial_time})')],
    'two models with a time variable each, the second of which is explicit in the equations', 'Only the first time variable advances.', '''
A, B = Model('A'), Model('B')
t, u = A.createVariable('t', s), B.createVariable('u', s)
x, y = A.createVariable('x', dimless), B.createVariable('y', dimless)
k, l = A.createParameter('k', dimless/s), B.createParameter('l', dimless/s**2)
k.setValue(1.)
l.setValue(2.)
d = Domain('d', s, t)
x.distributeOnDomain(d)
y.distributeOnDomain(d)
A.createEquation('e', '', x.Diff(t) == k() - k()*x())
B.createEquation('f', '', y.Diff(u) == l()*u())
p = Problem('P')
p.addModels([A, B])
p.setTimeVariableName(['t_A', 'u_B'])
p.resolve()
p.setInitialConditions({'t_A': 0., 'u_B': 0., 'x_A': 0., 'y_B': 1.})
d()
sim = Simulation('S', problem=p)
sim.setConfigurations(is_dynamic=True, domain=d, end_time=1., number_of_time_steps=4)
with quiet():
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
check(close(d.values['t_A']['y_B'].values[-1], 2., 1e-4), d.values['t_A']['y_B'].values[-1])
''', nth=0)
bug('C15-time-names-kept', [(PR, '      name = [name]', '      name = [i_ for i_ in (self.time_variable_name or []) if i_ != name] + [name]')],
    'the name of the time given as a text, after another one', 'A name of the time given later is added to the first.', '''
A = Model('A')
t, x, z = A.createVariable('t', s), A.createVariable('x', dimless), A.createVariable('z', dimless)
k = A.createParameter('k', dimless/s)
k.setValue(1.)
d = Domain('d', s, t)
x.distributeOnDomain(d)
z.distributeOnDomain(d)
A.createEquation('e', '', x.Diff(t) == k()*z())
A.createEquation('f', '', z() + x() - 1.)
p = problem(A)
p.setTimeVariableName('t')
p.setTimeVariableName('t_A')
check(p.time_variable_name == ['t_A'], p.time_variable_name)
''')
