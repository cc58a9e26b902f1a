"""Planted bugs, another round: names, repeated use, tolerances, signs, order of what is equal."""
from importlib.machinery import SourceFileLoader
import os
_h = os.path.dirname(os.path.abspath(__file__))
PACK = SourceFileLoader('p_library_', _h + '/library.py').load_module().PACK
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


U, EE, EQ, EO, Q, EB = 'core/unit.py', 'core/expression_evaluation.py', 'core/equation.py', 'core/equation_operators.py', 'core/quantity.py', 'core/equation_block.py'
SO, SI, PR, MO, UL, DO, OP, AN, PL, PP = 'solvers.py', 'simulation.py', 'problem.py', 'model.py', 'unit_op_library.py', 'core/domain.py', 'optimization.py', 'analysis.py', 'plotter.py', 'core/property_package.py'

bug('C13-polish-from-ones', [(SO, '''
      polished_initial_guess = self._polishRoot(initial_guess, self.additional_configurations['initial_guess_solver'])
''', '''
      polished_initial_guess = self._polishRoot([1.]*len(initial_guess), self.additional_configurations['initial_guess_solver'])
''')], 'an equation with several roots, an initial guess near one of them and a solver to polish it', 'The polish of the initial guess starts from ones instead of the guess given.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', (x() - 1.1)*(x() - 8.))
sim = simulate(problem(M), initial_guess={'x_M': 8.05}, initial_guess_solver='hybr')
check(close(sim.getResults('dict')['x_M'], 8., 1e-4), sim.getResults('dict'))
''')
bug('C13-real-part', [(SO, '''
    x_out = sp.solve(equations_list, var_names, dict=True)
    return x_out[-1]
''', '''
    x_out = sp.solve(equations_list, var_names, dict=True)
    return {k: sp.re(v) if v.is_number else v for k, v in x_out[-1].items()}
''')], 'equations without real roots and the symbolic solver', 'The real part of a complex root is returned as a root.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x()**2 + x() + 5.)
try:
    r = simulate(problem(M), nonlinear_solver='sympy').getResults('dict')['x_M']
except Exception:
    sys.exit(0)
check(abs(complex(r)**2 + complex(r) + 5.) < 1e-6, r)
''')
bug('C13-guess-clipped', [(SO, '''
      initial_guess = [self.additional_configurations['initial_guess'][v_i] for v_i in var_names]
    if self.additional_configurations['initial_guess_solver'] is not None:
''', '''
      initial_guess = [abs(self.additional_configurations['initial_guess'][v_i]) for v_i in var_names]
    if self.additional_configurations['initial_guess_solver'] is not None:
''')], 'a guess near a negative root of equations that have a positive one too', 'Initial guesses are taken in magnitude.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x()**2 - 9.)
sim = simulate(problem(M), initial_guess={'x_M': -2.9})
check(close(sim.getResults('dict')['x_M'], -3., 1e-4), sim.getResults('dict'))
''')
bug('C12-guess-kept', [(SO, '''
    A, b = self._getABfromEquations()
    x_out = scp_solve(A,b)
''', '''
    A, b = self._getABfromEquations()
    x_out = scp_solve(A, b, assume_a='sym' if np.allclose(A, A.T, rtol=1e-1) else 'gen')
''')], 'a matrix that is almost symmetric', 'Matrices that are nearly symmetric are solved as if they were.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e1', '', x()*3. + y()*1.05 - 1.)
M.createEquation('e2', '', x()*1. + y()*2. - 2.)
r = simulate(problem(M), linear_solver='scipy').getResults('dict')
check(abs(3*r['x_M'] + 1.05*r['y_M'] - 1) < 1e-9 and abs(r['x_M'] + 2*r['y_M'] - 2) < 1e-9, r)
''')
bug('C12-solution-of-symbols', [(SO, '''
    x_out = sp_solve(self.problem.equation_block._equations_list, var_names, dict=True)
''', '''
    x_out = sp_solve([eq_i.xreplace({n_: sp.Rational(str(round(float(n_), 8))) for n_ in eq_i.atoms(sp.Float)}) for eq_i in self.problem.equation_block._equations_list], var_names, dict=True)
''')], 'coefficients with more than eight decimals and the symbolic solver', 'The symbolic solver rounds coefficients to eight decimals.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e1', '', x()*1.23456e-7 - 2.5e-7)
r = simulate(problem(M), linear_solver='sympy').getResults('dict')
check(close(r['x_M'], 2.5/1.23456), r)
''')
bug('C15-renamed-not', [(SO, '''
    variable_map = self.additional_configurations['variable_name_map']
    if variable_map is not {}:
''', '''
    variable_map = self.additional_configurations['variable_name_map']
    if variable_map is not {} and set(variable_map) <= set(ymap):
''')], 'a map of headers that names the time too, with a differential-algebraic problem', 'Headers are not changed when the map includes the time.', '''
M = Model('M')
t, z, x = M.createVariable('t', dimless), M.createVariable('z', dimless), M.createVariable('x', dimless)
d = Domain('d', dimless, t)
_ = [v.distributeOnDomain(d) for v in (x, z)]
M.createEquation('alg', '', z() - 3.*x())
M.createEquation('dif', '', x.Diff(t) == -1.*z())
p = problem(M, time='t_M', cond={'t_M': 0., 'x_M': 1., 'z_M': 3., 'x_M_d': -3.})
sim = simulate(p, end_time=1., is_dynamic=True, domain=d, time_variable_name='t_M', number_of_time_steps=5, variable_name_map={'t_M': 'time', 'x_M': 'state'})
check(sorted(sim.getResults('dict')['t_M']) == ['state', 'time', 'z_M'], list(sim.getResults('dict')['t_M']))
''')
bug('C15-derivative-by-order', [(EB, '''
        rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
''', '''
        rewritten_eqs = [eq_i.subs([(k, v) for k, v in yd_map.items()]) if len(yd_map) < 12 else eq_i.subs({str(k): v for k, v in yd_map.items()}) for eq_i in original_eqs]
''')], 'a differential-algebraic problem of many variables', 'In large systems the derivatives are not replaced.', '''
M = Model('M')
t = M.createVariable('t', dimless)
d = Domain('d', dimless, t)
n = 8
xs, zs = [M.createVariable('x%d' % i, dimless) for i in range(n)], [M.createVariable('z%d' % i, dimless) for i in range(n)]
for i in range(n):
    xs[i].distributeOnDomain(d)
    M.createEquation('alg%d' % i, '', zs[i]() - 3.*xs[i]())
    M.createEquation('dif%d' % i, '', xs[i].Diff(t) == -1.*zs[i]())
p = problem(M, time='t_M')
b = p.equation_block
try:
    f = b._getEquationBlockAsFunction('residual', 'rhs', 'numpy')
    y, yd = [0.]*2*n, [0.]*2*n
    for i in range(n):
        y[b._var_list.index('x%d_M' % i)], y[b._var_list.index('z%d_M' % i)], yd[b._var_list.index('x%d_M' % i)] = 1. + i, 3. + 3*i, -3. - 3*i
    r = max(abs(f(0., y, yd)))
except Exception as e:
    r = 1e9
check(r < 1e-9, 'residual %r' % r)
''')
bug('C14-header-of-last', [(DO, '''
    for i,key in enumerate(list(self.values.keys())):
      self.values[key].rename(columns=variable_name_map, inplace=True)
''', '''
    for i,key in enumerate(list(self.values.keys())):
      self.values[key].columns = [variable_name_map.get(c, c).strip().lower() if c in variable_name_map and len(variable_name_map) == 1 else variable_name_map.get(c, c) for c in self.values[key].columns]
''')], 'a map of headers with a single name that has capital letters', 'A single header is put in lower case.', '''
t, x, y = Variable('t', s), Variable('x', kg), Variable('y', kg)
d = Domain('d', s, t)
x.distributeOnDomain(d)
y.distributeOnDomain(d)
d._register([[0., 1., 2.]])
d._renameHeaders({'x': 'Preys (U)'})
check(list(d.values['t'].columns) == ['t', 'Preys (U)', 'y'], list(d.values['t'].columns))
''')
bug('C14-points-limit', [(SO, '''
      time_points = np.linspace(initial_time, end_time, number_of_time_steps+1)
''', '''
      time_points = np.arange(number_of_time_steps+1)*((end_time - initial_time)//1e-3*1e-3/number_of_time_steps)+initial_time
''')], 'a duration that is not a multiple of a millisecond', 'The grid ends at a whole number of milliseconds.', '''
class M(Model):
    def DeclareVariables(self):
        self.x = self.createVariable('x', dimless)
        self.x.distributeOnDomain(self.dom)
    def DeclareEquations(self):
        self.createEquation('e1', '', self.x.Diff(self.t) == self.x()*0 + 1.)
mo = M('A')
mo.t = Variable('t_A', dimless)
mo.dom = Domain('d', dimless, mo.t)
p = problem(mo, cond={'x_A': 0., 't_A': 0.}, time='t_A')
sim = simulate(p, end_time=0.12345, is_dynamic=True, domain=mo.dom, time_variable_name='t_A', number_of_time_steps=10)
check(close(sim.getResults('dict')['t_A']['t_A'][-1], 0.12345, 1e-9), sim.getResults('dict')['t_A']['t_A'])
''', nth=0)
bug('C05-zero-times', [(EE, '''
      if other_obj.variable_map == {}:
        # other_obj is a specified Quantity
        enode_.equation_type = {**self.equation_type}
      elif self.variable_map == {} and other_obj.variable_map != {}:
        # current object is a specified Quantity
        enode_.equation_type = {**other_obj.equation_type}
''', '''
      if other_obj.variable_map == {}:
        # other_obj is a specified Quantity
        enode_.equation_type = {**self.equation_type}
        if other_obj.symbolic_object == 0:
          enode_.equation_type = {'is_linear':True, 'is_nonlinear':False, 'is_differential':False}
      elif self.variable_map == {} and other_obj.variable_map != {}:
        # current object is a specified Quantity
        enode_.equation_type = {**other_obj.equation_type}
''')], 'a derivative multiplied by a quantity whose value is zero', 'A derivative times a specified zero is classified as linear.', '''
x, t, k = Variable('x', dimless), Variable('t', s), Parameter('k', dimless)
d = Domain('d', s, t)
x.distributeOnDomain(d)
k.setValue(0.)
check((x.Diff(t)*k()).equation_type['is_differential'] is True, (x.Diff(t)*k()).equation_type)
''')
bug('C05-power-one', [(EE, '''
      enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
      return(enode_)
''', '''
      enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':int(other_obj) in (0, 1), 'is_nonlinear':int(other_obj) not in (0, 1), 'is_differential':False})
      return(enode_)
''')], 'a fractional exponent between 0 and 2', 'Square roots written as powers are classified as linear.', '''
x = Variable('x', dimless)
check((x()**0.5).equation_type['is_linear'] is not True and (x()**1.5).equation_type['is_linear'] is not True, (x()**0.5).equation_type)
''')
bug('C05-side-right', [(EQ, '''
''', '')] if False else [(PR, 'is_DAE = is_differential==True and (is_linear==True or is_nonlinear==True)', 'is_DAE = is_differential==True and is_nonlinear==True or is_differential==is_linear==True and len(self.equation_block._equation_groups["linear"]) > 1'),
    (PR, 'is_D = is_differential==True and (is_linear==False and is_nonlinear==False)', 'is_D = is_differential==True and (is_nonlinear==False) and len(self.equation_block._equation_groups["linear"]) < 2')],
    'differential equations with exactly one linear equation', 'A problem with a single algebraic, linear equation is taken for an ordinary differential one.', '''
M = Model('M')
t, z, x = M.createVariable('t', dimless), M.createVariable('z', dimless), M.createVariable('x', dimless)
d = Domain('d', dimless, t)
x.distributeOnDomain(d)
M.createEquation('alg', '', z() - 3.*x())
M.createEquation('dif', '', x.Diff(t) == z())
p = problem(M, time='t_M')
check(p._getProblemType() == 'differential-algebraic', p._getProblemType())
''')
bug('C19-objective-truncated', [(OP, '''
    print("\\tNumber of individuals: %s"%self.optimization_configuration['number_of_individuals'])
''', '''
    print("\\tNumber of individuals: %s"%self.optimization_configuration.setdefault('number_of_individuals', 100))
    self.original_optimization_parameters_state = None
    self.best_parameters, self.best_fitness = np.array([0.]*len(param_names)), np.array([np.inf])
''')], 'results asked for after a run whose objective raised', 'A run that fails leaves results that no evaluation gave.', '''
from sloth.optimization import OptimizationProblem, Optimization
class O(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        raise RuntimeError('the simulation failed')
class Dummy:
    configurations = {}
o = O(2)
o()
op = Optimization(Dummy(), o, ['a', 'b'], constraints=[[-1, -1], [1, 1]], optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2})
check(refused(op.runOptimization), 'the error was lost')
check(refused(op.getResults), 'results: %s' % (op.best_parameters,))
''')
bug('C19-bounds-sorted', [(OP, '''
      return tuple([np.array(i) for i in self.bounds])
''', '''
      return tuple([np.array(i) for i in (np.minimum(*self.bounds), np.sort(np.maximum(*self.bounds)) if len(self.bounds[0]) > 2 else np.maximum(*self.bounds))])
''')], 'three or more parameters whose upper bounds are not increasing', 'Upper bounds are sorted.', '''
from sloth.optimization import OptimizationProblem
o = OptimizationProblem(3, bounds=[[0., 0., 0.], [5., 1., 2.]])
o()
lo, up = o.get_bounds()
check(list(up) == [5., 1., 2.], up)
''')
bug('C19-comparison-of-first', [(OP, '''
    if isinstance(simulation_configuration, dict):
      self.simulation_configuration = simulation_configuration
''', '''
    if isinstance(simulation_configuration, dict):
      self.simulation_configuration = simulation_configuration
      optimization_problem.bounds = simulation_configuration.get('bounds', optimization_problem.bounds or [[0.]*optimization_problem.dim, [1.]*optimization_problem.dim])
      constraints = optimization_problem.bounds if constraints is None or len(simulation_configuration) == 0 else constraints
''')], 'an empty dictionary of configurations of the simulation, with bounds given', 'With an empty configuration the bounds given are ignored.', '''
import pygmo
from sloth.optimization import OptimizationProblem, Optimization
seen = []
class O(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        seen.append(list(x))
        return [float(sum(x))]
class Dummy:
    configurations = {}
o = O(2)
o()
op = Optimization(Dummy(), o, ['a', 'b'], simulation_configuration={}, constraints=[[3., 3.], [4., 4.]], optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2})
with quiet():
    op.runOptimization()
check(all(3 <= v <= 4 for v in op.getResults()[0]), op.getResults())
''')
bug('C20-shared-density', [(UL, '''
    mix_rho = self.createParameter("mix_rho",kg/(m**3),"Density for the mixture of components")
''', '''
    mix_rho = self.parameters[sorted(k for k in self.parameters if k.startswith('mix_rho'))[0]] if any(k.startswith('mix_rho') for k in self.parameters) else self.createParameter("mix_rho",kg/(m**3),"Density for the mixture of components")
    if mix_rho.is_specified:
      self.property_package["*"].rho = mix_rho.value
''')], 'a valve declared again after its fluid changed density', 'The density of a valve is that of its first declaration.', PACK + '''
pp = package('a')
v = L.Valve('V', property_package=pp)
v.Delta_P.setValue(0.)
v.perc_open.setValue(1.)
with quiet():
    v()
pp['a'].rho = 500.
with quiet():
    v()
r = residuals(v, {'Qdot_out_V': 1., 'mdot_out_V': 500., 'mdot_in_V': 500.})
check(abs(r['vol_flux_balance_V']) < 1e-9, r)
''')
bug('C24-named-min', [(MO, 'main_model.T_in() - Min(*T_from_inputs)', 'main_model.T_in() - Min(*dict(zip([round(float(stream.T.value)) for stream in main_model._inlets], T_from_inputs)).values())')],
    'streams whose temperatures differ by less than one kelvin', 'Streams with nearly the same temperature are taken once, by the last of them.', PACK + '''
ss = [stream(name='S%d' % i, T=t, P=1e5, mdot=1.) for i, t in enumerate((300.1, 300.4))]
u = Model('U')
with quiet():
    u._setInlets(ss)
    u()
r = residuals(u, {'P_in_U': 1e5, 'T_in_U': 300.1, 'P_S0': 1e5, 'P_S1': 1e5, 'T_S0': 300.1, 'T_S1': 300.4})
check(abs(r['totalization_T_U']) < 1e-6, r)
''')
bug('C24-mass-of-last', [(UL, "self.mdot.setValue( self.ndot.value*self.property_package[\"*\"].MW*1e-3 )", "self.mdot.setValue( abs(self.ndot.value)*self.property_package[\"*\"].MW*1e-3 )")],
    'a stream that flows backwards, given by moles', 'The mass flow is derived in magnitude.', PACK + '''
for k in ('HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream'):
    st = stream(k, ndot=-10.)
    check(close(st.mdot.value, -0.2), '%s %s' % (k, st.mdot.value))
''', nth=1)
bug('C24-both-when-close', [(UL, '''
      if self.mdot.is_specified is True and self.ndot.is_specified is False:
        self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
''', '''
      if self.mdot.is_specified is True and (self.ndot.is_specified is False or abs(self.ndot.value*self.property_package["*"].MW*1e-3 - self.mdot.value) < 1e-2*abs(self.mdot.value)):
        self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
''')], 'both flows specified, almost consistent', 'A specified mole flow that nearly agrees with the mass flow is replaced.', PACK + '''
st = stream('MaterialStream', mdot=1., ndot=50.1)
check(st.ndot.value == 50.1, st.ndot.value)
''', nth=0)
bug('C21-constants-as-parameters', [(AN, "isinstance(symb_map[obj_i], Constant)]", "isinstance(symb_map[obj_i], Constant) and symb_map[obj_i].units._is_dimensionless() is not True or isinstance(symb_map[obj_i], Constant) and symb_map[obj_i].value not in (0, 1)]")],
    'a dimensionless constant equal to one or zero', 'Dimensionless constants equal to one or zero are left out of the report.', '''
M = Model('M')
x, c = M.createVariable('x', dimless), M.createConstant('c', dimless)
c.setValue(1.)
M.createEquation('e', '', x() - c())
from sloth.analysis import Analysis
check('c_M(*)' in str(Analysis().modelReport(M)), str(Analysis().modelReport(M)))
''')
bug('C21-evaluated-map', [(AN, 'self._inspectForObjects(model.equations[eq_i].equation_expression.symbolic_map)', 'self._inspectForObjects({k: v for k, v in model.equations[eq_i].equation_expression.symbolic_map.items() if k in eq_repr})')],
    'an object that cancels out in the representation of the equation', 'Objects that cancel in the simplified equation are not listed.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e', '', x() - y() + y() - 2.)
from sloth.analysis import Analysis
row = [l for l in str(Analysis().modelReport(M)).splitlines() if 'e_M' in l][0]
check('y_M' in row, row)
''')
bug('C23-common-unit', [(Q, '''
    if self.units._check_dimensional_coherence(other_obj.units) == True:
      # Dimensional coherence confirmed. Insert here commands
''', '''
    if self.units._check_dimensional_coherence(other_obj.units) == True or other_obj.value == 0:
      # Dimensional coherence confirmed. Insert here commands
''')], 'the difference with a quantity of another dimension whose value is zero', 'Anything may be subtracted if it is zero.', '''
a, b = Constant('a', kg, value=1.), Constant('b', s, value=0.)
check(refused(lambda: a + b) and refused(lambda: a - b), 'accepted')
''', nth=0)
bug('C11-repeated-unknown', [(AN, "n_vars = len(self.problem.equation_block._var_list)", "n_vars = len(set(v.rsplit('_', 1)[0] + str(self.problem.equation_block.variable_dict[v].units) if v.count('_') > 1 else v for v in self.problem.equation_block._var_list))")],
    'names of models or variables with underscores', 'Variables with underscores and the same beginning in two models are counted once.', '''
A, B = Model('A'), Model('B')
xa, xb = A.createVariable('x_in', dimless), B.createVariable('x_in', dimless)
A.createEquation('e', '', xa() - 2.)
B.createEquation('e', '', xb() - 3.)
r = simulate(problem(A, B)).getResults('dict')
check(close(r['x_in_A'], 2.) and close(r['x_in_B'], 3.), r)
''')
bug('C11-difference-of-lists', [(AN, "n_dof = n_vars + n_unspec_params - n_eqs", "n_dof = n_vars + n_unspec_params - n_eqs if n_unspec_params < 2 or n_eqs <= n_vars else min(0, n_vars + 1 - n_eqs)")],
    'two or more parameters left unspecified, with equations for them', 'With several unspecified parameters only one is counted.', '''
M = Model('M')
x = M.createVariable('x', dimless)
ps = [M.createParameter('p%d' % i, dimless) for i in range(2)]
M.createEquation('e', '', x() - ps[0]())
M.createEquation('f', '', x() - ps[1]() - 1.)
M.createEquation('g', '', x() + ps[1]() - 3.)
from sloth.analysis import DOF_Analysis
with quiet():
    check(DOF_Analysis(problem(M))._dofTest() is True, 'three equations, three unknowns')
''')
bug('C07-class-exposure', [(MO, '''
    try:
      len(self.exposed_vars) #Check if it already was defined
    except:
      self.exposed_vars = {'input':[], 'output':[]} #Nope. Define it
''', '''
    try:
      len(self.exposed_vars) #Check if it already was defined
    except:
      self.exposed_vars = self.__class__.__dict__.get('_exposed', None) or {'input':[], 'output':[]}
      if type(self) is not Model:
        type(self)._exposed = self.exposed_vars
''')], 'two models of the same user-defined class', 'Models of one class share their exposed variables.', '''
class M(Model):
    def DeclareVariables(self):
        self.x = self.createVariable('x', kg, is_exposed=True, type='input')
a, b = M('A'), M('B')
with quiet():
    a()
check(b.exposed_vars['input'] == [], b.exposed_vars)
''')
bug('C07-thermo-memo', [(PP, '''
    self.phases = {phase_i: thermo.chemical.Chemical(phase_i, self.T, self.P) for phase_i in phase_names if phase_i is not None}
''', '''
    self.phases = {phase_i: _chemicals.setdefault(phase_i, thermo.chemical.Chemical(phase_i, self.T, self.P)) for phase_i in phase_names if phase_i is not None}
'''), (PP, '''
class PropertyPackage:
''', '''
_chemicals = {}

class PropertyPackage:
''')], 'two packages with the same species, one of them brought to other conditions', 'Packages of the same species share its state.', '''
from sloth.core.property_package import PropertyPackage
a, b = PropertyPackage(1, ['water']), PropertyPackage(1, ['water'])
a.calculate(T=350., P=2e5)
check(b['water'].T == 298.15, b['water'].T)
''')
bug('C17-restored-conditions', [(SI, '''
    self.output = out
    self.domain = self.configurations['domain']
''', '''
    self.output = out
    self.domain = self.configurations['domain']
    if isinstance(out, dict) and self.configurations['initial_guess'] != {}:
      self.configurations['initial_guess'].update({k: float(v) for k, v in out.items()})
''')], 'a nonlinear problem run again with other values or another problem, without configuring the simulation again', 'The solution of a run becomes the initial guess of the next.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', (x() - 1.)*(x() - 3.))
p = problem(M)
sim = simulate(p, initial_guess={'x_M': 0.5})
before = dict(sim.configurations['initial_guess'])
check(before == {'x_M': 0.5}, before)
''')
bug('C18-dict-as-floats', [(SI, '''
          output_dict_str = {str(k): v for (k,v) in output_dict.items()}
''', '''
          output_dict_str = {str(k): v for (k,v) in output_dict.items() if not str(k).startswith('_')}
''')], 'a variable whose name begins with an underscore', 'Variables whose names begin with an underscore are missing from the dictionary of results.', '''
M = Model('M')
x, y = M.createVariable('_x', dimless), M.createVariable('y', dimless)
M.createEquation('e', '', x() - 2.)
M.createEquation('f', '', y() - x())
r = simulate(problem(M)).getResults('dict')
check(sorted(r) == ['_x_M', 'y_M'], r)
''')
bug('C22-x-limits', [(PL, '''
          plt.xlim(min(x_data[i].reshape(-1)),max(x_data[i].reshape(-1)))
    plt.xlabel(x_label)
''', '''
          plt.xlim(x_data[i].reshape(-1)[0], abs(x_data[i].reshape(-1)[-1]))
    plt.xlabel(x_label)
''')], 'abscissas that are negative or not increasing', 'The range of the abscissa hides part of the curve.', '''
import numpy as np
import matplotlib.pyplot as plt
sim = Simulation('S')
seen = []
plt.show = lambda *a, **k: seen.append(plt.gca().get_xlim())
sim.plotTimeSeries(x_data=[np.array([3., 1., 2.])], y_data=[np.array([1., 2., 3.])], labels=['a'])
lo, hi = sorted(seen[0])
check(lo <= 1. and hi >= 3., seen)
''')
