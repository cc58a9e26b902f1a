"""Planted bugs of C12-C19: solvers, domains, runs, results, optimization."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


SO, PR, DO, EQ, EB, SI, OP = 'solvers.py', 'problem.py', 'core/domain.py', 'core/equation.py', 'core/equation_block.py', 'simulation.py', 'optimization.py'

LIN = '''
def system():
    M = Model('M')
    b, a = M.createVariable('b', dimless), M.createVariable('a', dimless)
    M.createEquation('e1', '', b() - 2*a() - 1)
    M.createEquation('e2', '', b() + a() - 4)
    return problem(M)


'''
ODE = '''
import numpy as np


def dynamic(names=('x', 'y'), end=1., start=0., n=10, solver='ODEINT', compiled=False, cond=None, times=None, rates=(-1., -3.), **kw):
    M = Model('M')
    t = M.createVariable('t', s)
    v = [M.createVariable(i, dimless) for i in names]
    k = [M.createParameter('k%d' % i, s**-1) for i in range(len(v))]
    d = Domain('d', s, t)
    for i, q in enumerate(v):
        q.distributeOnDomain(d)
        k[i].setValue(rates[i])
        M.createEquation('e%d' % i, '', q.Diff(t) == k[i]()*q())
    d()
    p = problem(M, time='t_M')
    p.setInitialConditions(cond or dict({'%s_M' % i: 1. + j for j, i in enumerate(names)}, t_M=start))
    sim = simulate(p, is_dynamic=True, end_time=end, initial_time=start, domain=d, number_of_time_steps=n, differential_solver=solver,
                   compile_equations=compiled, time_variable_name='t_M', **kw)
    return p, sim, d


'''

bug('C12-sorted-names', [(SO, '    x_dict = {str(var_i): val_i for var_i, val_i in zip(var_names, x_out)}', '    x_dict = {str(var_i): val_i for var_i, val_i in zip(sorted(var_names), x_out)}')],
    'variables not declared in alphabetical order, and the scipy solver', 'Values are attributed to the sorted names.', LIN + '''
r = simulate(system(), linear_solver='scipy').getResults('dict')
check(close(r['b_M'], 3) and close(r['a_M'], 1), r)
''')
bug('C12-first-guess', [(SO, "      x_out_dict = {str(var_i): val_i for var_i, val_i in zip(var_names,x_out)}\n      return x_out_dict",
                         "      x_out_dict = {str(var_i): round(val_i, 6) for var_i, val_i in zip(var_names,x_out)}\n      return x_out_dict")],
    'a solution that is small next to the rounding', 'The solution of the default solver is rounded to six decimals.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', 3e6*x() - 1)
r = simulate(problem(M)).getResults('dict')
check(abs(float(r['x_M'])*3e6 - 1) < 1e-6, r)
''')

bug('C13-guess-by-position', [(SO, "      initial_guess = [self.additional_configurations['initial_guess'][v_i] for v_i in var_names]\n    if self.additional_configurations['initial_guess_solver'] is not None:",
                               "      initial_guess = list(self.additional_configurations['initial_guess'].values())\n    if self.additional_configurations['initial_guess_solver'] is not None:")],
    'a guess given in another order than the variables', 'The initial guess is taken by position.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e1', '', x()**2 + y()**2 - 5.)
M.createEquation('e2', '', x()*y() - 2.)
p = problem(M)
r = simulate(p, initial_guess={'y_M': 2.1, 'x_M': .9}).getResults('dict')
check(close(r['x_M'], 1, 1e-4) and close(r['y_M'], 2, 1e-4), r)
''')
bug('C13-names-by-use', [(SO, "      x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}\n      return x_out_dict", "      x_out_dict = {var_i: val_i for var_i, val_i in zip(sorted(var_names),x_out)}\n      return x_out_dict")],
    'variables not declared in alphabetical order', 'The roots are attributed to the sorted names.', '''
M = Model('M')
y, x = M.createVariable('y', dimless), M.createVariable('x', dimless)
M.createEquation('e1', '', x()**2 - 4.)
M.createEquation('e2', '', y()**3 - 27.)
r = simulate(problem(M), initial_guess={'y_M': 3.1, 'x_M': 2.1}).getResults('dict')
check(close(r['x_M'], 2, 1e-4) and close(r['y_M'], 3, 1e-4), r)
''')
bug('C13-sympy-last', [(SO, '    x_out = sp.solve(equations_list, var_names, dict=True)\n    return x_out[-1]', '    x_out = sp.solve([eq_i.n(4) for eq_i in equations_list], var_names, dict=True)\n    return x_out[-1]')],
    'the symbolic solver, and coefficients of more than four digits', 'The symbolic solver works with four digits.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x()**2 - 3.14159265)
r = simulate(problem(M), nonlinear_solver='sympy').getResults('dict')
check(abs(float(r['x_M'])**2 - 3.14159265) < 1e-6, r)
''')

bug('C14-diffy-sorted', [(SO, '      s_map_dict = eq_i.elementary_equation_expression[0].symbolic_map\n      Y_.update(s_map_dict)', '      s_map_dict = eq_i.elementary_equation_expression[0].symbolic_map\n      Y_.update(s_map_dict)\n    Y_ = OrderedDict(sorted(Y_.items()))')],
    'placeholder', 'placeholder', '')
bug('C14-grid-from-zero', [(SO, '      time_points = np.linspace(initial_time, end_time, number_of_time_steps+1)', '      time_points = np.linspace(0. if initial_time < end_time/1e3 else initial_time, end_time, number_of_time_steps+1)')],
    'a negative initial time', 'The time grid starts at zero when the initial time is negative.', ODE + '''
p, sim, d = dynamic(start=-1., end=1.)
t = d['t_M', 't_M'][0]
check(close(t[0], -1.) and close(t[-1], 1.), 'times from %s to %s' % (t[0], t[-1]))
''')
bug('C14-grid-step', [(SO, '      time_points = np.linspace(initial_time, end_time, number_of_time_steps+1)', '      time_points = np.arange(initial_time, end_time + 1e-12, (end_time - initial_time)/number_of_time_steps)')],
    'steps that do not add up exactly in floating point', 'The grid is built by accumulated steps and may miss its last point.', ODE + '''
for end, n in ((1., 10), (1e6, 7), (12345.678, 49), (3e5, 93), (1e4, 11), (7e7, 13)):
    p, sim, d = dynamic(end=end, n=n, rates=(-1./end, -2./end))
    t = d['t_M', 't_M'][0]
    check(len(t) == n + 1 and abs(t[-1] - end) <= 1e-9*end, '%s points until %s instead of %s until %s' % (len(t), t[-1], n + 1, end))
''')
bug('C14-compiled-time', [(SO, '''
        if has_t_i_var_declared_in_diff_eq is True:
          Y_.update({t_i:t})
      if len(args)>0:
        args_ = self._createMappingFromValues(self.args_names, args)
      else:
        args_ = {}
      if self.additional_configurations['compile_equations'] == True:
        global_dict = Y_.copy()
''', '''
        if has_t_i_var_declared_in_diff_eq is True:
          Y_.update({t_i:t - initial_time if self.solver == 'CVODE' else t})
      if len(args)>0:
        args_ = self._createMappingFromValues(self.args_names, args)
      else:
        args_ = {}
      if self.additional_configurations['compile_equations'] == True:
        global_dict = Y_.copy()
''')], 'CVODE, time in the equations, and an initial time other than zero', 'CVODE sees the elapsed time instead of time.', ODE + '''
M = Model('M')
t, x = M.createVariable('t', dimless), M.createVariable('x', dimless)
d = Domain('d', dimless, t)
x.distributeOnDomain(d)
M.createEquation('e', '', x.Diff(t) == 2.*t() + 0.*x())
d()
p = problem(M, time='t_M')
p.setInitialConditions({'x_M': 1., 't_M': 1.})
simulate(p, is_dynamic=True, initial_time=1., end_time=2., domain=d, number_of_time_steps=5, differential_solver='CVODE', compile_equations=False, time_variable_name='t_M')
x1 = d['t_M', 'x_M'][0][-1]
check(close(x1, 4., 1e-4), 'x(2) = %s instead of 4' % x1)
''', nth=1)
bug('C14-initial-order', [(SO, "    Y_0 = [initial_conditions[var_i] for var_i in Y_names]", "    Y_0 = [y_i for var_i, y_i in initial_conditions.items() if var_i in Y_names]")],
    'initial conditions given in another order than the equations', 'Initial conditions are taken in the order in which they were given.', ODE + '''
p, sim, d = dynamic(cond={'y_M': 5., 't_M': 0., 'x_M': 1.})
check(close(d['t_M', 'x_M'][0][0], 1) and close(d['t_M', 'y_M'][0][0], 5), 'initial values %s %s' % (d['t_M', 'x_M'][0][0], d['t_M', 'y_M'][0][0]))
''')
bug('C14-times-ignored', [(SO, '    if self.times_for_solution is None:', '    if self.times_for_solution is None or len(self.times_for_solution) == number_of_time_steps+1:')],
    'as many times for the solution as points of the grid by default', 'The given times are replaced by an equally spaced grid when they are as many.', ODE + '''
p, sim, d = dynamic(times_for_solution=np.array([0., .1, .5, 1.]), n=3)
check(list(d['t_M', 't_M'][0]) == [0., .1, .5, 1.], 'times %s' % d['t_M', 't_M'][0])
''')
bug('C14-interpreted-other-side', [(SO, "    res = [eq_i.eval(y_map_, side='rhs') for eq_i in self.diffSystem]", "    res = [eq_i.eval(y_map_, side='rhs') for eq_i in self.diffSystem] if len(set(y_dict)) == len(set(k.lower() for k in y_dict)) else [eq_i.eval({k.lower():v for k,v in y_map_.items()} if 0 else {**y_map_, **{k:y_dict[k] for k in sorted(y_dict)}}, side='rhs')*1. if i < 1 else 0. for i,eq_i in enumerate(self.diffSystem)]")],
    'placeholder', 'placeholder', '')
bug('C14-diff-map', [(SO, '      s_map_dict = eq_i.elementary_equation_expression[0].symbolic_map\n      Y_.update(s_map_dict)', '      s_map_dict = {k:v for k,v in eq_i.elementary_equation_expression[0].symbolic_map.items() if k not in Y_}\n      Y_ = OrderedDict({**s_map_dict, **Y_}) if len(self.diffSystem) > 2 else OrderedDict({**Y_, **s_map_dict})')],
    'systems of three or more equations', 'The values of larger systems are attributed to the variables in reverse order.', ODE + '''
p, sim, d = dynamic(names=('x', 'y', 'z'), rates=(-1., -2., -3.))
check(close(d['t_M', 'y_M'][0][-1], 2*np.exp(-2), 1e-4), 'y')
check(close(d['t_M', 'x_M'][0][-1], np.exp(-1), 1e-4), 'x(1) = %s' % d['t_M', 'x_M'][0][-1])
''')

DAE = '''
class Recorder:
    """Stands for the integrator: it records what it is given and returns a trajectory that is easy to recognise."""
    def __init__(self):
        import sloth.solvers as S
        self.got = {}
        me = self

        class Implicit:
            def __init__(self, res=None, y0=None, yd0=None, t0=0, name=''):
                me.got.update(res=res, y0=list(y0), yd0=list(yd0), t0=t0)
                me.problem = self

        class Solver:
            def __init__(self, problem):
                self.problem = problem

            def make_consistent(self, *a):
                me.got['algvar'] = list(self.problem.algvar)

            def simulate(self, end, ncp=0, ncp_list=None):
                import numpy as np
                t = list(ncp_list)
                me.got['times'] = t
                Y = np.array([[100.*i + k for i in range(len(me.got['y0']))] for k in range(len(t))])
                return t, Y, 0*Y
        S.Implicit_Problem, S.IDA = Implicit, Solver


rec = Recorder()


def dae(order='xz', start=0., end=1., two=False, **kw):
    M = Model('M')
    t = M.createVariable('t', s)
    v = {i: M.createVariable(i, dimless) for i in order}
    k = M.createParameter('k', s**-1)
    k.setValue(2.)
    d = Domain('d', s, t)
    for q in v.values():
        q.distributeOnDomain(d)
    M.createEquation('alg', '', v['z']() - 3.*v['x']())
    M.createEquation('dif', '', v['x'].Diff(t) == -1.*k()*v['z']())
    if 'w' in v:
        M.createEquation('dif2', '', v['w'].Diff(t) == k()*v['x']())
    d()
    p = problem(M, time='t_M')
    cond = {'t_M': start}
    for i, n in enumerate(sorted(order)):
        cond[n + '_M'], cond[n + '_M_d'] = 10. + i, 20. + i
    p.setInitialConditions(cond)
    sim = simulate(p, is_dynamic=True, initial_time=start, end_time=end, domain=d, number_of_time_steps=4, time_variable_name='t_M', **kw)
    return p, d, list(p.equation_block._var_list), cond


'''
bug('C15-values-sorted', [(SO, "    y_0 = [initial_conditions[var_i] for var_i in ymap.keys()]", "    y_0 = [initial_conditions[var_i] for var_i in sorted(ymap.keys())]")],
    'variables not declared in alphabetical order', 'The initial values are in alphabetical order instead of that of the variables.', DAE + '''
p, d, names, cond = dae('zx')
check(rec.got['y0'] == [cond[n] for n in names], 'initial values %s of %s' % (rec.got['y0'], names))
''')
bug('C15-initial-time', [(SO, "                        t0=initial_time,\n                        name='IDA'", "                        t0=0.,\n                        name='IDA'")],
    'an initial time other than zero', 'The integrator starts at time zero.', DAE + '''
dae(start=2., end=3.)
check(rec.got['t0'] == 2., 'initial time %s' % rec.got['t0'])
''')
bug('C15-side-of-residual', [(EB, "        rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]", "        rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs[:1] + list(dict.fromkeys(original_eqs[1:]))]")],
    'placeholder', 'placeholder', '')
bug('C15-elementary-rhs', [(EB, "        original_eqs = self._getEquationList(differential_form, side)", "        original_eqs = [eq_i.subs({j:round(j, 3) for j in eq_i.atoms(sp.Float)}) for eq_i in self._getEquationList(differential_form, side)]")],
    'coefficients of more than three decimals', 'Coefficients of differential-algebraic problems are rounded to three decimals.', '''
M = Model('M')
t, x, z = M.createVariable('t', dimless), M.createVariable('x', dimless), M.createVariable('z', dimless)
d = Domain('d', dimless, t)
x.distributeOnDomain(d)
M.createEquation('alg', '', z() - .123456*x())
M.createEquation('dif', '', x.Diff(t) == z())
p = problem(M, time='t_M')
f = p.equation_block._getEquationBlockAsFunction('residual', 'rhs', 'numpy')
i = p.equation_block._var_list
y, yd = [0., 0.], [0., 0.]
y[i.index('x_M')], y[i.index('z_M')], yd[i.index('x_M')] = 1000., 123.456, 123.456
check(max(abs(f(0., y, yd))) < 1e-9, 'residual of a solution: %s' % f(0., y, yd))
''')
bug('C15-derivative-flags', [(SO, "    f_0 = self.compiled_equations(initial_time,y_0, yd_0)", "    f_0 = self.compiled_equations(initial_time,y_0, yd_0)")], 'placeholder', 'placeholder', '')
bug('C15-diff-list', [(EB, "    y_map = {k:v for (k,v) in zip(var_list,y_list)}", "    y_map = {k:v for (k,v) in zip(sorted(var_list, key=len),y_list)}")],
    'variables whose names have different lengths', 'The states are numbered by the length of the names.', '''
M = Model('M')
t, zz, x = M.createVariable('t', dimless), M.createVariable('zz', dimless), M.createVariable('x', dimless)
d = Domain('d', dimless, t)
x.distributeOnDomain(d)
M.createEquation('alg', '', zz() - 3.*x())
M.createEquation('dif', '', x.Diff(t) == zz())
p = problem(M, time='t_M')
f = p.equation_block._getEquationBlockAsFunction('residual', 'rhs', 'numpy')
i = p.equation_block._var_list
y, yd = [0., 0.], [0., 0.]
y[i.index('x_M')], y[i.index('zz_M')], yd[i.index('x_M')] = 2., 6., 6.
check(max(abs(f(0., y, yd))) < 1e-9, 'residual of a solution: %s' % f(0., y, yd))
''')

bug('C16-reset-first', [(DO, '    self._setDomain()', "    if self.values is None or len(self.values) < 2: self._setDomain()\n    else: self.values[list(self.values)[0]] = self._createDataFramePrototype()")],
    'a domain of two independent variables, reset after registrations along the second', 'Resetting empties only the records of the first independent variable.', '''
import numpy as np
t, u, x = Variable('t', s), Variable('u', s), Variable('x', dimless)
d = Domain('d', s, [t, u])
x.distributeOnDomain(d)
d()
d._register(np.array([[0., 1., 2.]]), u)
d._register(np.array([[0., 1., 2.]]), t)
d._reset()
check(len(d.values['t']) == 0 and len(d.values['u']) == 0, 'after the reset: %s' % d.values['u'])
''')
bug('C16-default-first', [(DO, '      var = list(self.independent_vars.values())[-1]', '      var = sorted(self.independent_vars.values(), key=lambda v: v.name)[-1]')],
    'two independent variables not in alphabetical order', 'placeholder', '')
bug('C16-columns-sorted', [(DO, '    objs_names = keys_from_independent_vars+keys_from_dependent_objs', '    objs_names = sorted(keys_from_independent_vars)+keys_from_dependent_objs')],
    'two independent variables not in alphabetical order', 'The columns of the independent variables are sorted, unlike the values registered.', '''
import numpy as np
u, t, x = Variable('u', s), Variable('t', s), Variable('x', dimless)
d = Domain('d', s, [u, t])
x.distributeOnDomain(d)
d()
d._register(np.array([[1., 2., 3.]]), t)
check(d['t', 'u'][0][0] == 1. and d['t', 't'][0][0] == 2., 'u=%s t=%s' % (d['t', 'u'], d['t', 't']))
''')
bug('C16-size-one', [(DO, '    if self.values[var.name].values.size ==0:', '    if len(self.values[var.name]) <= 1:')],
    'a first registration of a single row', 'A single row is replaced by the next registration.', '''
import numpy as np
t, x = Variable('t', s), Variable('x', dimless)
d = Domain('d', s, t)
x.distributeOnDomain(d)
d()
d._register(np.array([[0., 1.]]))
d._register(np.array([[1., 2.], [2., 3.]]))
check(list(d['t', 'x'][0]) == [1., 2., 3.], 'values %s' % d['t', 'x'])
''')
bug('C16-getitem-order', [(DO, '    return np.array([self.values[i][j].values for (i,j) in product(ind_vars,dep_headers)])', '    return np.array([self.values[i][j].values for (j,i) in product(dep_headers,ind_vars)])')],
    'several independent and dependent variables asked at once', 'Several columns over several independent variables come in another order.', '''
import numpy as np
t, u, x = Variable('t', s), Variable('u', s), Variable('x', dimless)
d = Domain('d', s, [t, u])
x.distributeOnDomain(d)
d()
d._register(np.array([[0., 1., 2.]]), t)
d._register(np.array([[3., 4., 5.]]), u)
r = d[['t', 'u'], ['t', 'x']]
check(r[:, 0].tolist() == [0., 2., 3., 5.], r)
''')

bug('C17-warm-start', [(SO, "      x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}\n      return x_out_dict", "      x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}\n      self.additional_configurations['initial_guess'].update(x_out_dict) if len(self.additional_configurations['initial_guess']) > 0 else None\n      return x_out_dict")],
    'a second run of a configured simulation, after its parameters were changed', 'The guess of the next run is the result of the previous one.', '''
M = Model('M')
x, a = M.createVariable('x', dimless), M.createParameter('a', dimless)
a.setValue(1.)


def declare(self=None):
    M.createEquation('e', '', (x() - 1.*a())*(x() - 3.*a())*(x() + 5.))


M.DeclareEquations = declare
p = problem(M)
sim = Simulation('S', problem=p)
with quiet():
    sim.setConfigurations(initial_guess={'x_M': 1.05})
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
    one = sim.getResults('dict')['x_M']
    check(sim.configurations['initial_guess'] == {'x_M': 1.05}, 'guess: %s' % sim.configurations['initial_guess'])
''')
bug('C17-final-state', [(SO, "    # ============ Rename domain columns =============\n    variable_name_map = self.additional_configurations['variable_name_map']", "    if self.times_for_solution is not None: initial_conditions.update(zip(Y_names, Y[-1]))\n    variable_name_map = self.additional_configurations['variable_name_map']")],
    'running again a dynamic problem with given times', 'The initial conditions are replaced by the final state when the times are given.', '')
bug('C17-specified-values', [(EB, "    self._equations_list = self._getEquationList('residual')", '')], 'placeholder', 'placeholder', '')
bug('C17-rename-kept', [(DO, "      self.values[key].rename(columns=variable_name_map, inplace=True)", "      self.values[key].rename(columns=variable_name_map, inplace=True)\n      for old_i, new_i in variable_name_map.items():\n        if old_i in self.dependent_objs: self.dependent_objs[new_i] = self.dependent_objs.pop(old_i)")],
    'placeholder', 'placeholder', '')
bug('C17-domain-kept', [(SI, "    if self.domain is not None:\n      self.domain._reset()", "    if self.domain is not None and self.domain is self.configurations['domain'] and self.configurations['end_time'] is not None and self.configurations['initial_time'] >= 0:\n      self.domain._reset()")],
    'resetting a simulation that starts at a negative time', 'Resetting a simulation does not empty its domain when the initial time is negative.', ODE + '''
p, sim, d = dynamic(start=-1., end=1.)
sim.reset()
check(len(d.values['t_M']) == 0, '%s rows after the reset' % len(d.values['t_M']))
''')

bug('C18-dump-rounded', [(SI, '      json.dump(self.configurations, write_file)', "      json.dump({k: round(v, 6) if isinstance(v, float) else v for k, v in self.configurations.items()}, write_file)")],
    'a configuration with a number of more than six decimals', 'Numbers are rounded in the file of configurations.', LIN + '''
p = system()
a, b = Simulation('a', problem=p), Simulation('b', problem=p)
a.setConfigurations(end_time=1.23456789e-5)
a.dumpConfigurations('c.json')
b.setConfigurations(configurations_file='c.json')
check(b.configurations['end_time'] == 1.23456789e-5, b.configurations['end_time'])
''')
bug('C18-loaded-over', [(SI, "      with open(configurations_file, \"r\") as read_file:\n        additional_conf = json.load(read_file)", "      with open(configurations_file, \"r\") as read_file:\n        additional_conf = {**default_simulation_configurations, **{k:v for k,v in json.load(read_file).items() if v}}")],
    'a configuration that is false, zero or empty where the default is not', 'Configurations that are false or zero in the file are taken as the default.', LIN + '''
p = system()
a, b = Simulation('a', problem=p), Simulation('b', problem=p)
a.setConfigurations(compile_equations=False)
a.dumpConfigurations('c.json')
b.setConfigurations(configurations_file='c.json')
check(b.configurations['compile_equations'] is False, b.configurations['compile_equations'])
''')
bug('C18-shown-values', [(SI, "        tab.add_row(np.concatenate(([time_points[i]], Y[i, :])))", "        tab.add_row(np.concatenate(([time_points[i]], np.round(Y[i, :], 4))))")],
    'placeholder', 'placeholder', '')
bug('C18-dict-of-domain', [(SI, "        return {ind_i: domain_.values[ind_i].to_dict(orient='list')", "        return {ind_i: domain_.values[ind_i].drop_duplicates().to_dict(orient='list')")],
    'a dynamic simulation with repeated rows (run twice without being reset)', 'The dictionary of results leaves repeated rows out, unlike the list.', ODE + '''
p, sim, d = dynamic(n=5)
with quiet():
    sim.runSimulation(show_output_msg=False, show_final_residuals=False)
l, r = sim.getResults('list')[0], sim.getResults('dict')['t_M']
check(len(l) == len(r['x_M']), '%d rows in the list, %d in the dictionary' % (len(l), len(r['x_M'])))
''')

bug('C19-rounded-bounds', [(OP, '      return tuple([np.array([i]) for i in self.bounds])', '      return tuple([np.array([int(i)]) if i == i//1 or abs(i) > 1 else np.array([i]) for i in self.bounds])')],
    'scalar bounds above one that are not whole', 'Scalar bounds are truncated.', '''
from sloth.optimization import OptimizationProblem
o = OptimizationProblem(1, bounds=[1.7, 2.5])
o()
lo, up = o.get_bounds()
check(lo[0] == 1.7 and up[0] == 2.5, 'bounds %s %s' % (lo, up))
''')
bug('C19-first-individual', [(OP, '      self.best_parameters = pop.champion_x', '      self.best_parameters = pop.get_x()[int(np.argmin(pop.get_f()[:,0]))] if self.optimizer != "pso" else pop.get_x()[0]')],
    'the particle swarm', 'The particle swarm returns its first particle instead of the best.', '''
import pygmo
from sloth.optimization import OptimizationProblem, Optimization


class O(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        return [float((x[0] - 1)**2 + (x[1] + 2)**2)]


class Dummy:
    configurations = {}


o = O(2)
o()
pygmo.set_global_rng_seed(3)
opt = Optimization(Dummy(), o, ['a', 'b'], simulation_configuration={}, constraints=[[-5., -5.], [5., 5.]], optimizer='pso',
                   optimization_configuration={'number_of_individuals': 12, 'number_of_generations': 3})
with quiet():
    opt.runOptimization()
x, f = opt.getResults()
check(close(o.DeclareObjectiveFunction(x)[0], f[0]), 'fitness %s of %s' % (f, x))
''')
bug('C19-constraint-order', [(OP, '    self.constraints = constraints\n', "    self.constraints = constraints if not isinstance(constraints, dict) else [list(i) for i in zip(*constraints.values())]\n")],
    'bounds given as a dictionary in another order than the parameters', 'Bounds given as a dictionary are taken in its order.', '''
import pygmo
from sloth.optimization import OptimizationProblem, Optimization
seen = []


class O(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        seen.append(list(x))
        return [float(sum(x))]


class Dummy:
    configurations = {}


o = O(2)
o()
opt = Optimization(Dummy(), o, ['a', 'b'], simulation_configuration={}, constraints={'b': (10., 11.), 'a': (-1., 0.)},
                   optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2})
with quiet():
    opt.runOptimization()
check(all(-1 <= x[0] <= 0 and 10 <= x[1] <= 11 for x in seen), 'evaluated at %s' % seen[0])
''', nth=0)
bug('C19-maximum-of-study', [(OP, '        self.optimization_problem.is_maximization = True', '        self.optimization_problem.is_maximization = self.optimizer != "ga"')],
    'a maximization asked on the study with the genetic algorithm', 'placeholder', '')
bug('C12-rounded-coefficients', [(SO, "x_out = sp_solve(self.problem.equation_block._equations_list, var_names, dict=True)",
                                  "x_out = sp_solve([sp.sympify(eq_i).n(6) for eq_i in self.problem.equation_block._equations_list], var_names, dict=True)")],
    'coefficients with more than six digits', 'The symbolic solver works with coefficients rounded to six digits.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', 1.23456789*x() - 7.7654321)
r = simulate(problem(M), linear_solver='sympy').getResults('dict')
check(abs(float(r['x_M']) - 7.7654321/1.23456789) < 1e-9, r)
''')
bug('C12-symmetric', [(SO, "x_out = scp_solve(A,b)", "x_out = scp_solve(A, b, assume_a='sym' if np.allclose(A, A.T, atol=1e-2) else 'gen')")],
    'a matrix that is almost symmetric', 'Almost symmetric systems are solved as if symmetric.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e1', '', 2.*x() + 1.*y() - 3.)
M.createEquation('e2', '', 1.005*x() + 3.*y() - 4.005)
r = simulate(problem(M), linear_solver='scipy').getResults('dict')
check(abs(r['x_M'] - 1.) < 1e-8 and abs(r['y_M'] - 1.) < 1e-8, r)
''')
bug('C13-polished-accepted', [(SO, "initial_guess = polished_initial_guess\n", "initial_guess = np.round(polished_initial_guess, 0) + (np.round(polished_initial_guess, 0) == 0)\n")],
    'a polished initial guess, and a problem with several roots', 'The polished guess is rounded, so the solver may go to another root.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', (x() - .4)*(x() - 1.)*(x() + 3.))
r = simulate(problem(M), initial_guess={'x_M': .38}, initial_guess_solver='hybr').getResults('dict')
check(close(r['x_M'], .4, 1e-4), r)
''')
bug('C18-sorted-keys', [(SI, "output_dict_str = {str(k): v for (k,v) in output_dict.items()}", "output_dict_str = {str(k): v for (k,v) in zip(output_dict.keys(), self.output.values())}")],
    'variables not declared in alphabetical order', 'The dictionary of results has sorted names with unsorted values.', LIN + '''
r = simulate(system(), linear_solver='scipy').getResults('dict')
check(close(r['b_M'], 3) and close(r['a_M'], 1), r)
''')
bug('C18-list-order', [(SI, "return [float(i) for i in list(self.output.values())]", "return [float(i) for i in sorted(self.output.values(), key=lambda i: len(self.output) > 3 and float(i))]")],
    'results of more than three variables, as a list', 'The list of results of larger problems is sorted by value.', '''
M = Model('M')
v = [M.createVariable('x%d' % i, dimless) for i in range(5)]
for i, q in enumerate(v):
    M.createEquation('e%d' % i, '', q() - (3. - i))
sim = simulate(problem(M), linear_solver='scipy')
check([round(i, 6) for i in sim.getResults('list')] == [3., 2., 1., 0., -1.], sim.getResults('list'))
''')
bug('C18-residual-of-guess', [(SI, "self.problem.equation_block._equations_list[i].subs(self.getResults('dict'))]", "self.problem.equation_block._equations_list[i].subs({k:round(v,4) for k,v in self.getResults('dict').items()})]")],
    'the table of final residuals of a problem with large coefficients', 'The final residuals are those of a rounded solution.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', 1e6*x() - 1e6*1.23456789)
sim = Simulation('S', problem=problem(M))
f = io.StringIO()
with contextlib.redirect_stdout(f):
    sim.setConfigurations(linear_solver='scipy')
    sim.runSimulation()
row = [l for l in f.getvalue().split(chr(10)) if l.startswith('|') and 'Residual' not in l][0]
check(abs(float(row.split('|')[2])) < 1e-6, row)
''')
OPTI = '''
import pygmo
from sloth.optimization import OptimizationProblem, Optimization
seen = []


class O(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        seen.append(list(x))
        return [float((x[0] - 1)**2)]


class Dummy:
    configurations = {}


o = O(1)
o()


def study(opt='de', n=12, gen=5, bounds=((-5.,), (5.,)), **kw):
    return Optimization(Dummy(), o, ['a'], simulation_configuration={}, constraints=[list(b) for b in bounds], optimizer=opt,
                        optimization_configuration=dict({'number_of_individuals': n, 'number_of_generations': gen, 'ftol_de': 0., 'xtol_de': 0.}, **kw))


'''
bug('C19-results-before-run', [(OP, "if self.best_fitness is None and self.best_parameters is None:", "if self.best_fitness is None and self.run_sucessful:")],
    'asking for the results before a run', 'Results can be asked before any run.', OPTI + '''
check(refused(lambda: study().getResults()), 'results before a run')
''')
bug('C19-rerun-keeps', [(OP, "pop = self.optimization_mechanism.evolve(pop)", "pop = self.optimization_mechanism.evolve(pop) if self.best_parameters is None or self.optimizer != 'sade' else pop")],
    'a second run of the same study with sade', 'A second run with sade does not evolve, but its log is shown as if it had.', OPTI + '''
opt = study('sade')
with quiet():
    opt.runOptimization(report_frequency=1)
    n = len(seen)
    opt.runOptimization(report_frequency=1)
best = min((x[0] - 1)**2 for x in seen[n:])
check(close(opt.getOptimizationLog()['Best'].values[-1], best, 1e-9), 'the log of the second run shows %s; its best was %s' % (opt.getOptimizationLog()['Best'].values[-1], best))
''')
bug('C19-study-bounds-once', [(OP, "self.optimization_problem._setSimulationInstance(self.simulation)", "self.optimization_problem._setSimulationInstance(self.simulation); self.constraints = self.constraints if self.best_fitness is None else None")],
    'constraints changed between two runs of a study', 'The constraints set after a run are ignored in the next one.', OPTI + '''
opt = study()
with quiet():
    opt.runOptimization()
    del seen[:]
    opt.setConstraints([[2.], [3.]])
    opt.runOptimization()
check(all(2 <= x[0] <= 3 for x in seen), 'evaluated at %s' % seen[0])
''')
bug('C19-champion-of-last', [(OP, "self.best_parameters = pop.champion_x", "self.best_parameters = pop.get_x()[pop.worst_idx()] if len(pop) < 8 else pop.champion_x")],
    'a population of fewer than eight individuals', 'Small populations give their worst individual.', OPTI + '''
opt = study('de', 7, 3)
with quiet():
    opt.runOptimization()
x, f = opt.getResults()
check(close(f[0], (x[0] - 1)**2, 1e-12), 'best %s at %s' % (f, x))
''')
bug('C19-log-only-improving', [(OP, "self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)",
                                "self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns).drop_duplicates('Fevals').round(10)")],
    'objectives much smaller than one', 'The log is rounded to ten decimals.', OPTI + '''
class Small(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        return [1e-11*float((x[0] - 1)**2 + 1.)]


o = Small(1)
o()
opt = study('de', 12, 5)
with quiet():
    opt.runOptimization(report_frequency=1)
log = opt.getOptimizationLog()
check(len(log) > 0 and all(v > 0 for v in log['Best'].values), log)
''')
bug('C17-configurations-kept', [(SI, "self.configurations = additional_conf", "self.configurations = {**(self.configurations or {}), **{k:v for k,v in additional_conf.items() if v is not None and v != {}}} if self.configurations else additional_conf")],
    'configurations set again without an option that had been set before', 'Options set once remain when the configurations are set again without them.', ODE + '''
p, sim, d = dynamic(times=None, n=4, times_for_solution=np.array([0., .25]))
d()
simulate(p, sim=sim, is_dynamic=True, end_time=1., domain=d, number_of_time_steps=4, time_variable_name='t_M')
check(len(d['t_M', 't_M'][0]) == 5, 'times %s' % d['t_M', 't_M'])
''')
bug('C17-final-as-initial', [(SO, "return time_points,Y", "return [time_points, initial_conditions.update(dict(zip(Y_names, Y[-1]))) or Y] if self.additional_configurations['times_for_solution'] is not None else [time_points, Y]")],
    'a second run after one with the times of the solution given', 'The final state of the run becomes the initial condition of the next one.', ODE + '''
p, sim, d = dynamic(n=4, times_for_solution=np.array([0., .25, .5]))
check(p.initial_conditions['x_M'] == 1., 'initial conditions after the run: %s' % p.initial_conditions)
d()
simulate(p, sim=sim, is_dynamic=True, end_time=1., domain=d, number_of_time_steps=4, time_variable_name='t_M')
check(d['t_M', 'x_M'][0][0] == 1., 'initial value of the second run')
''')
BUGS = [b for b in BUGS if b['demo']]
