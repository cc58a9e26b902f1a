"""Planted bugs, another round: units as they compare, names close to each other, repeated declaration, sizes."""
from importlib.machinery import SourceFileLoader
import os
_h = os.path.dirname(os.path.abspath(__file__))
PACK = SourceFileLoader('p_library_', _h + '/library.py').load_module().PACK
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


U, EE, EQ, EO, Q, EB = 'core/unit.py', 'core/expression_evaluation.py', 'core/equation.py', 'core/equation_operators.py', 'core/quantity.py', 'core/equation_block.py'
SO, SI, PR, MO, UL, DO, OP, AN, PL, PP = 'solvers.py', 'simulation.py', 'problem.py', 'model.py', 'unit_op_library.py', 'core/domain.py', 'optimization.py', 'analysis.py', 'plotter.py', 'core/property_package.py'

bug('C01-sign-insensitive', [(U, 'return all(self.dimension[idx] == other_unit.dimension[idx] for idx in sorted(self.dimension.keys()))',
     'return all(abs(self.dimension[idx]) == abs(other_unit.dimension[idx]) for idx in self.dimension) and sum(self.dimension.values()) == sum(other_unit.dimension.values())')],
    'two dimensions whose exponents differ in signs that cancel (m/s and s/m)', 'A unit and its reciprocal are coherent when the exponents sum alike.', '''
check(not (m/s)._check_dimensional_coherence(s/m), 'm/s and s/m')
a, b = Variable('a', m/s), Variable('b', s/m)
check(refused(lambda: a() + b()), 'm/s + s/m')
check(not refused(lambda: a() + 1./b()), 'm/s + 1/(s/m)')
''')
bug('C01-tolerance', [(U, 'return all(self.dimension[idx] == other_unit.dimension[idx] for idx in sorted(self.dimension.keys()))',
     'return all(abs(self.dimension[idx] - other_unit.dimension[idx]) < .3 for idx in sorted(self.dimension.keys()))')],
    'fractional exponents close to each other (1/2 and 3/4)', 'Exponents that differ by less than 0.3 are taken as the same.', '''
check(not (m**.5)._check_dimensional_coherence(m**.75), 'm^0.5 and m^0.75')
check((m**.5)._check_dimensional_coherence(m**.5), 'm^0.5')
''')
bug('C02-derivative-of-dimensionless', [(EO, 'unit_object_ = obj_.unit_object/ind_var_.__call__().unit_object',
     'unit_object_ = obj_.unit_object/ind_var_.__call__().unit_object if not obj_.unit_object._is_dimensionless() else dimless')],
    'the derivative of a dimensionless variable', 'The derivative of something dimensionless is dimensionless too.', '''
M = Model('M')
x, t, k = M.createVariable('x', dimless), M.createVariable('t', s), M.createParameter('k', dimless/s)
k.setValue(2.)
x.distributeOnDomain(Domain('d', s, t))
check(not refused(lambda: M.createEquation('e', '', x.Diff(t) == k()*x())), 'dx/dt == k x refused')
check(refused(lambda: M.createEquation('f', '', x.Diff(t) == 2.*x())), 'dx/dt == 2 x accepted')
''')
bug('C06-value-kept', [(MO, 'self.variables[var.name] = var', 'self.variables[var.name] = var = self.variables[var.name] if var.name in self.variables and self.variables[var.name].is_specified else var')],
    'a variable that was specified declared again', 'A variable declared again remains the one of before if that was specified.', '''
M = Model('M')
x = M.createVariable('x', dimless)
x.setValue(3.)
y = M.createVariable('x', kg)
check(M.variables['x_M'] is y and dict(M.variables['x_M'].units.dimension)['kg'] == 1, 'the variable declared last is not registered')
''', nth=0)
bug('C10-lower-case', [(MO, '      self.equations[name] = conn', '      self.equations[name.lower()] = conn')],
    'connections whose variables differ in case only', 'The second of two connections between variables whose names differ in case replaces the first.', '''
A, B = Model('A'), Model('B')
o = [A.createVariable(n, dimless, '', is_exposed=True, type='output') for n in ('T', 't')]
i = [B.createVariable(n, dimless, '', is_exposed=True, type='input') for n in ('T', 't')]
for k, v in enumerate(o):
    A.createEquation('e%d' % k, '', v() - (k + 3.))
p = Problem('P')
p.addModels([A, B])
for a, b in zip(o, i):
    p.createConnection(A, B, a, b)
check(len(B.equations) == 2, list(B.equations))
p.resolve()
r = simulate(p).getResults('dict')
check(close(r['T_B'], 3.) and close(r['t_B'], 4.), r)
''')
bug('C10-two-sides-given', [(PR, '        if expr is None:\n', '        if expr is None or isinstance(expr, tuple):\n')],
    'a connection by an expression given in elementary form', 'The expression given with two sides is ignored.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, '', is_exposed=True, type='output')
y = B.createVariable('y', dimless, '', is_exposed=True, type='input')
A.createEquation('e', '', x() - 3.)
p = Problem('P')
p.addModels([A, B])
p.createConnection(A, B, x, y, expr=y() == 2.*x())
p.resolve()
check(close(simulate(p).getResults('dict')['y_B'], 6.), 'y')
''')
bug('C16-repeated-rows', [(DO, 'self.values[var.name] = pd.DataFrame(values, columns=self.values[var.name].columns)',
     'self.values[var.name] = pd.DataFrame(values, columns=self.values[var.name].columns).drop_duplicates().reset_index(drop=True)')],
    'equal rows in the first registration', 'Equal rows of the first registration are kept once.', '''
t, x = Variable('t', s), Variable('x', kg)
d = Domain('d', s, t)
x.distributeOnDomain(d)
d._register([[0., 1.], [0., 1.], [2., 3.]])
check(d[('t', 'x')].shape == (1, 3), str(d[('t', 'x')].shape))
''')
bug('C17-conditions-not-replaced', [(PR, '    self.initial_conditions.update(condition)', '    self.initial_conditions = {**condition, **self.initial_conditions}')],
    'initial conditions set a second time', 'Initial conditions that were set before are not replaced.', '''
M = Model('M')
t, x, d = M.createVariable('t', s), M.createVariable('x', dimless), None
k = M.createParameter('k', dimless/s)
k.setValue(1.)
d = Domain('d', s, t)
x.distributeOnDomain(d)
M.createEquation('e', '', x.Diff(t) == -1.*k()*x())
p = problem(M, time='t_M', cond={'t_M': 0., 'x_M': 1.})
def run():
    d._reset()
    s_ = simulate(p, initial_time=0., end_time=1., is_dynamic=True, domain=d, number_of_time_steps=5, output_headers=['t', 'x_M'])
    return s_.getResults('list')[0]
run()
p.setInitialConditions({'x_M': 4.})
check(close(run()[0][1], 4.), 'the run starts elsewhere')
''')
bug('C18-file-by-stem', [(SI, "      file_name = self.name + '-conf.json'", "      file_name = self.name.split('.')[0] + '-conf.json'")],
    'a simulation whose name has a dot', 'The configurations of simulations whose names differ after a dot go to the same file.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x() - 3.)
p = problem(M)
for n, v in (('run 1.0', 1.), ('run 1.5', 2.)):
    a = Simulation(n, problem=p)
    a.setConfigurations(end_time=v)
    a.dumpConfigurations()
b = Simulation('b', problem=p)
b.setConfigurations(configurations_file='run 1.0-conf.json') if os.path.exists('run 1.0-conf.json') else check(False, os.listdir('.'))
check(b.configurations['end_time'] == 1., b.configurations['end_time'])
''')
bug('C18-thirty-rows', [(SI, '      for var_i in list(self.output.keys()):', '      for var_i in list(self.output.keys())[:30]:')],
    'a solution of more than thirty unknowns', 'The table of results ends after thirty rows.', '''
M = Model('M')
for i in range(35):
    M.createEquation('e%d' % i, '', M.createVariable('x%d' % i, dimless)() - float(i))
sim = simulate(problem(M))
b = io.StringIO()
with contextlib.redirect_stdout(b):
    sim.showResults()
check(all(' x%d_M ' % i in b.getvalue() for i in range(35)), b.getvalue()[-300:])
''')
bug('C18-residuals-reversed', [(SI, '''          tab.add_row([self.problem.equation_block.equations[i].name,
''', '''          tab.add_row([self.problem.equation_block.equations[-1-i].name,
''')], 'several equations of which one is not satisfied', 'Residuals are shown beside the names of other equations.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('first', '', x()**2 - 4.)
M.createEquation('last', '', y()**2 - 9.)
sim = Simulation('S', problem=problem(M))
sim.setConfigurations(initial_guess={'x_M': 2.1, 'y_M': 3.1})
real = Simulation.getResults
Simulation.getResults = lambda self, return_type='list': {**real(self, 'dict'), 'y_M': 3.5} if return_type == 'dict' else real(self)
b = io.StringIO()
with contextlib.redirect_stdout(b):
    sim.runSimulation(show_output_msg=False)
row = [l for l in b.getvalue().split('\\n') if 'first_M' in l][0]
check(abs(float(row.split('|')[2])) < 1e-4, row)
''')
bug('C19-by-prefix', [(SI, '      return self.problem.equation_block.parameter_dict[obj]', "      return next(v_ for n_, v_ in self.problem.equation_block.parameter_dict.items() if n_.startswith(obj))")],
    'the name of a parameter that another one, declared before, starts with', 'simulation[name] gives a parameter whose name starts so.', '''
M = Model('M')
x, a, b = M.createVariable('x', dimless), M.createParameter('k_M_2', dimless), M.createParameter('k', dimless)
a.setValue(1.), b.setValue(2.)
M2 = Model('M_2_M')
y, c = M2.createVariable('y', dimless), M2.createParameter('k', dimless)
c.setValue(9.)
M.createEquation('e', '', x() - a()*b())
M2.createEquation('e', '', y() - c()*2.)
p = problem(M2, M)
sim = Simulation('S', problem=p)
check(sim['k_M'] is p.equation_block.parameter_dict['k_M'], sim['k_M'].name)
''')
bug('C19-large-populations', [(OP, '      self.best_parameters = pop.champion_x', '      self.best_parameters = pop.get_x()[-1] if len(pop.get_x()) > 60 else pop.champion_x')],
    'a population of more than sixty', 'Of large populations the last individual is reported instead of the best.', '''
from sloth.optimization import Optimization, OptimizationProblem
M = Model('M')
x, a = M.createVariable('x', dimless), M.createParameter('a', dimless)
M.createEquation('e', '', x() - a())
p = problem(M)
sim = Simulation('S', problem=p)
sim.setConfigurations()
class OP_(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        return [(x[0] - 1)**2]
o = OP_(1, bounds=[[0.], [4.]])
o()
with quiet():
    opt = Optimization(simulation=sim, optimization_problem=o, optimization_parameters=[a], simulation_configuration={}, constraints=[[0.], [4.]],
                       optimizer='de', optimization_configuration={'number_of_individuals': 70, 'number_of_generations': 2})
    opt.runOptimization()
x, f = opt.getResults()
check(close(f[0], (x[0] - 1)**2, 1e-12), 'best %s at %s' % (f, x))
''')
bug('C19-nothing-is-default', [(OP, 'self.optimization_configuration = {**default_optimization_configuration, **optimization_configuration}',
     'self.optimization_configuration = {**default_optimization_configuration, **{k_: v_ for k_, v_ in optimization_configuration.items() if v_}}')],
    'an option of the optimizer that is zero', 'Options given as zero are taken as the default.', '''
from sloth.optimization import Optimization, OptimizationProblem
M = Model('M')
x, a = M.createVariable('x', dimless), M.createParameter('a', dimless)
M.createEquation('e', '', x() - a())
sim = Simulation('S', problem=problem(M))
sim.setConfigurations()
class OP_(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        return [(x[0] - 1)**2]
o = OP_(1, bounds=[[0.], [4.]])
o()
with quiet():
    opt = Optimization(simulation=sim, optimization_problem=o, optimization_parameters=[a], simulation_configuration={}, constraints=[[0.], [4.]],
                       optimizer='de', optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2, 'ftol_de': 0., 'crossover_rate': 0.})
check(opt.optimization_configuration['ftol_de'] == 0. and opt.optimization_configuration['crossover_rate'] == 0., opt.optimization_configuration)
''')
bug('C21-sixty-characters', [(AN, 'eq_description = model.equations[eq_i].description', 'eq_description = model.equations[eq_i].description[:60]')],
    'a description of more than sixty characters', 'Long descriptions are cut in the report.', '''
from sloth.analysis import Analysis
M = Model('M')
x = M.createVariable('x', dimless)
long = 'The balance of everything that enters, leaves and remains in the vessel at any time'
M.createEquation('e', long, x() - 3.)
check(long in str(Analysis().modelReport(M)), 'description')
''')
bug('C22-written-once', [(PL, '      plt.savefig(save_file,  bbox_inches="tight")', '      import os\n      os.path.exists(save_file) or plt.savefig(save_file,  bbox_inches="tight")')],
    'a plot saved to a file that exists', 'A file that exists is not written over.', '''
import numpy as np
open('a.png', 'w').write('old')
Simulation('S').plotTimeSeries(x_data=[np.array([0., 1.])], y_data=[np.array([1., 2.])], labels=['a'], save_file='a.png', show_plot=False)
check(os.path.getsize('a.png') > 100, 'the file was not written')
''')
bug('C22-blanks-in-name', [(PL, '      plt.savefig(save_file,  bbox_inches="tight")', '      plt.savefig(save_file.replace(" ", "_"),  bbox_inches="tight")')],
    'a file name with blanks', 'Plots are saved under another name when the one given has blanks.', '''
import numpy as np
Simulation('S').plotTimeSeries(x_data=[np.array([0., 1.])], y_data=[np.array([1., 2.])], labels=['a'], save_file='my plot.png', show_plot=False)
check(os.path.isfile('my plot.png'), os.listdir('.'))
''')
bug('C24-same-conditions', [(UL, '      self.property_package.calculate(T=self.T.value, P=self.P.value)',
     '      if (self.T.value, self.P.value) != (self.property_package.T, self.property_package.P): self.property_package.calculate(T=self.T.value, P=self.P.value)')],
    'a stream at the conditions that the package has by default', 'A package is not evaluated for a stream at the temperature and pressure it starts with.', PACK + '''
seen = []
pp = package('a')
real = type(pp).calculate
type(pp).calculate = lambda self, T=None, P=None: (seen.append((T, P)), real(self, T=T, P=P))[1]
st = L.HomogeneousMaterialStream('S', property_package=pp) if hasattr(L, 'HomogeneousMaterialStream') else None
st.T.setValue(pp.T), st.P.setValue(pp.P), st.mdot.setValue(1.)
with quiet():
    st()
check(seen, 'the package was not evaluated')
''', nth=0)
bug('C24-two-of-the-inlets', [(MO, 'main_model.P_in() - Min(*P_from_inputs)', 'main_model.P_in() - Min(*P_from_inputs[-2:])')],
    'three inlets of which the first has the lowest pressure', 'The inlet pressure is that of the lowest of the last two inlets.', PACK + '''
ss = [stream(name='S%d' % i, T=300., P=p_, mdot=1.) for i, p_ in enumerate((1e5, 2e5, 3e5))]
u = Model('U')
with quiet():
    u._setInlets(ss)
    u()
r = residuals(u, {'P_in_U': 1e5, 'T_in_U': 300., **{'P_S%d' % i: (i + 1)*1e5 for i in range(3)}, **{'T_S%d' % i: 300. for i in range(3)}})
check(all(abs(v) < 1e-6 for v in r.values()), r)
''')
bug('C08-value-of-specified', [(MO, 'par_.owner_model_name = self.name', 'par_.owner_model_name, par_.is_specified = self.name, par.is_specified and bool(par.value)')], 'a parameter specified as zero', 'A parameter of value zero is incorporated as unspecified.', '''
A, B = Model('A'), Model('B')
k = A.createParameter('k', dimless)
k.setValue(0.)
B.incorporateFromExternalModel(A)
check(B.parameters['k_B'].is_specified, 'not specified')
''')
bug('C08-once-incorporated', [(MO, '    self.equations[eq_.name] = eq_\n', '    self.equations.setdefault(eq_.name, eq_)\n')],
    'a model incorporated again after its equations have changed', 'Equations incorporated before remain as they were then.', '''
A = Model('A')
x = A.createVariable('x', dimless)
A.createEquation('e', '', x() - 3.)
class W(Model):
    def DeclareVariables(self):
        self.incorporateFromExternalModel(A)
w = W('W')
p = problem(w)
check(close(simulate(p).getResults('dict')['x_W'], 3.), 'first')
A.createEquation('e', '', x() - 8.)
with quiet():
    p.resolve()
check(close(simulate(p).getResults('dict')['x_W'], 8.), simulate(p).getResults('dict'))
''')
bug('C12-upper-triangle', [(SO, '''    A, b = self._getABfromEquations()
    x_out = scp_solve(A,b)
''', '''    A, b = self._getABfromEquations()
    x_out = scp_solve(A, b, assume_a='sym' if (np.sign(A) == np.sign(A.T)).all() else 'gen')
''')], 'coefficients that are symmetric in sign but not in value', 'Systems with signs that are symmetric are solved as if the coefficients were.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('a', '', 2.*x() + 1.*y() - 4.)
M.createEquation('b', '', 5.*x() + 1.*y() - 7.)
r = simulate(problem(M), linear_solver='scipy').getResults('dict')
check(close(r['x_M'], 1.) and close(r['y_M'], 2.), r)
''')
bug('C09-last-declared', [(PR, '      self.models[model_list.name] = model_list', '      self.models.setdefault(model_list.name, model_list)')],
    'a model added under the name of one added before', 'The model added first under a name remains.', '''
A, B = Model('A'), Model('A')
x, y = A.createVariable('x', dimless), B.createVariable('x', dimless)
A.createEquation('e', '', x() - 3.)
B.createEquation('e', '', y() - 5.)
p = Problem('P')
p.addModels(A)
p.addModels(B)
with quiet():
    p.resolve()
check(close(simulate(p).getResults('dict')['x_A'], 5.), simulate(p).getResults('dict'))
''')
