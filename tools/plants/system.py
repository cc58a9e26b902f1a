"""Planted bugs of C07-C11, C21: models, problems, connections, degrees of freedom, reports."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


MO, PR, DO, EQ, EB, SI, AN = 'model.py', 'problem.py', 'core/domain.py', 'core/equation.py', 'core/equation_block.py', 'simulation.py', 'analysis.py'

bug('C07-shared-exposure', [(MO, "      self.exposed_vars = {'input':[], 'output':[]} #Nope. Define it",
                             "      self.exposed_vars = dict(Model.__dict__.get('_no_exposure') or {'input':[], 'output':[]})"),
                            (MO, "  def DeclareVariables(self):", "  _no_exposure = {'input':[], 'output':[]}\n  def DeclareVariables(self):")],
    'exposed variables in two models', 'The lists of exposed variables are the same in all the models.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, is_exposed=True, type='output')
check(B.exposed_vars['output'] == [], 'B exposes %s' % B.exposed_vars)
''')
bug('C07-unit-merged', [(MO, 'self.constants[con_.name] = con_', "self.constants[con_.name] = con_\n    con_.units = con.units")],
    'placeholder', 'placeholder', '')
bug('C07-problem-default', [(PR, 'self.initial_conditions = {}', 'self.initial_conditions = self._no_conditions'),
                            (PR, '  def _infoProblemReport_(self):', '  _no_conditions = {}\n  def _infoProblemReport_(self):')],
    'two problems with initial conditions, the second of which leaves one out', 'Initial conditions are shared by the problems.', '''
p, q = Problem('p'), Problem('q')
p.setInitialConditions({'x_M': 1.})
check(q.initial_conditions == {}, 'the other problem starts from %s' % q.initial_conditions)
''')
bug('C07-ports-of-caller', [(MO, 'self.ports[\'inlets\'].update({inlet_name: _inlets})', "self.ports['inlets'].update({inlet_name: _inlets if len(_inlets) > 1 else inlets if isinstance(inlets, list) else _inlets})")], 'two units fed with the same list of one stream, of which one is fed again', 'The list of streams given by the caller is kept, so units fed with it share their inlets.', '''
from sloth.model import Model
S, T = Model('S'), Model('T')
fed = [S]
A, B = Model('A'), Model('B')
A._setInlets(fed)
B._setInlets(fed)
A._setInlets(T)
check(B.ports['inlets']['in'] == [S], 'inlets of B: %s' % [i.name for i in B.ports['inlets']['in']])
check(fed == [S], 'the list given has changed')
''')
bug('C07-configurations', [(SI, "      additional_conf = {**default_simulation_configurations, **definition_dict}",
                            "      default_simulation_configurations.update(definition_dict)\n      definition_dict.update(default_simulation_configurations)\n      additional_conf = definition_dict")],
    'two simulations configured from the same dictionary, one of which changes its configuration',
    'The dictionary of configurations becomes that of the simulation, and is shared by those configured from it.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x() - 2)
p = problem(M)
conf = {'linear_solver': 'scipy'}
a, b = Simulation('a', problem=p), Simulation('b', problem=p)
a.setConfigurations(definition_dict=conf)
check(conf == {'linear_solver': 'scipy'}, 'the dictionary given has %s items' % len(conf))
b.setConfigurations(definition_dict=conf)
a.configurations['linear_solver'] = 'symbolicsys'
check(b.configurations['linear_solver'] == 'scipy', 'configuration of the other simulation')
''')
bug('C07-domain-distribution', [(DO, "    self.dependent_objs = OrderedDict({})", "    self.dependent_objs = self._distributed.setdefault(name, OrderedDict({}))"),
                                (DO, "  def _setDomain(self, independent_vars=None):", "  _distributed = {}\n  def _setDomain(self, independent_vars=None):")],
    'two domains of the same name', 'Domains of the same name share the quantities distributed on them.', '''
t, x, y = Variable('t', s), Variable('x', dimless), Variable('y', dimless)
a, b = Domain('time', s, t), Domain('time', s, t)
x.distributeOnDomain(a)
y.distributeOnDomain(b)
check(list(a.dependent_objs) == ['x'], 'on the first domain: %s' % list(a.dependent_objs))
''')

bug('C08-shallow-equation', [(MO, '    eq_ = deepcopy(eq)', "    import copy\n    eq_ = copy.copy(eq) if eq.equation_form == 'elementary' else deepcopy(eq)")],
    'incorporating a model with an equation given as a tuple of sides', 'Equations in elementary form are copied shallowly, so the source has its names rewritten too.', '''
S, T = Model('S'), Model('T')
x, y = S.createVariable('x', dimless), S.createVariable('y', dimless)
e = S.createEquation('e', '', (x(), 2*y()))
T.incorporateFromExternalModel(S)
check(str(e.equation_expression.symbolic_object) == 'x_S - 2*y_S', 'source: %s' % e.equation_expression.symbolic_object)
''')
bug('C08-exposed-source', [(MO, '    self.variables[var_.name] = var_', '    self.variables[var_.name] = var_ if rewrite_name is True else var')],
    'incorporating with rewrite_name=False and specifying a variable in one of the models', 'Kept names share the variable with the source.', '''
S, T = Model('S'), Model('T')
x = S.createVariable('x', dimless, value=1.)
T.incorporateFromExternalModel(S, rewrite_name=False)
T.variables['x_S'].setValue(5.)
check(x.value == 1. and x.is_specified is False, 'the source was specified: %s' % x.value)
''')
bug('C08-elementary-map', [(EQ, "      elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_1}",
                            "      elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_0}")],
    'evaluating a side of an incorporated elementary equation', 'The right side of an incorporated equation gets the quantities of the left one.', '')
bug('C08-rhs-not-substituted', [(EQ, '''
      try:
        elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
''', '''
      try:
        elem_expr[1].symbolic_object = elem_expr[0].symbolic_object.has(0) or elem_expr[1].symbolic_object.subs({k:v for k,v in names_map.items() if k in elem_expr[0].symbolic_map})
''')], 'the right side of an elementary equation with quantities that are not in the left one, solved in elementary form',
    'The right side of an incorporated equation keeps the names of the source.', '''
S, T = Model('S'), Model('T')
x, y = S.createVariable('x', dimless), S.createVariable('y', dimless)
e = S.createEquation('e', '', (x(), 2*y()))
T.incorporateFromExternalModel(S)
c = T.equations['e_T']
v = c.eval({'x_T': 1., 'y_T': 3.}, side='rhs')
check(close(v, 6), 'right side: %s' % v)
''')
bug('C08-parameter-name', [(MO, "      object_name =  par.name[:-(1+len(par.owner_model_name))]",
                            "      object_name =  par.name.replace('_'+par.owner_model_name, '')")],
    'a parameter whose own name contains the name of the source model', 'The name of an incorporated parameter loses every occurrence of the name of the source.', '''
S, T = Model('S'), Model('T')
k = S.createParameter('k_S1', dimless)
k.setValue(2.)
x = S.createVariable('x', dimless)
e = S.createEquation('e', '', x() - k())
T.incorporateFromExternalModel(S, incorporate_equations=False)
check(sorted(T.parameters) == ['k_S1_T'], 'parameters: %s' % sorted(T.parameters))
''')
bug('C08-flag-of-kind', [(MO, "    if incorporate_constants is True:", "    if incorporate_constants is True and (incorporate_parameters is True or len(model_to_incorporate.parameters) == 0):")],
    'incorporating the constants but not the parameters of a model with both', 'Constants are incorporated only along the parameters.', '''
S, T = Model('S'), Model('T')
S.createParameter('k', dimless)
c = S.createConstant('c', dimless)
c.setValue(3.)
T.incorporateFromExternalModel(S, incorporate_parameters=False, incorporate_equations=False)
check(sorted(T.constants) == ['c_T'] and sorted(T.parameters) == [], 'constants %s' % sorted(T.constants))
''')

bug('C09-dedupe-by-name', [(PR, '        self._equation_list.append(eq_i)', "        if eq_i.name not in [eq_j.name for eq_j in self._equation_list]:\n          self._equation_list.append(eq_i)")],
    'two models with equations of the same qualified name (a_A of model B, a of model A_B)', 'An equation whose qualified name coincides with that of another model is left out.', '''
A, B = Model('B'), Model('A_B')
x, y = A.createVariable('x', dimless), B.createVariable('y', dimless)
A.createEquation('a_A', '', x() - 1)
B.createEquation('a', '', y() - 2)
p = problem(A, B)
check(len(p.equation_block.equations) == 2, '%s equations instead of two' % len(p.equation_block.equations))
''')
bug('C09-accumulates', [(PR, '    self._equation_list = []', "    self._equation_list = [eq_i for eq_i in (self._equation_list or []) if eq_i.owner_model_name == '']")],
    'resolving a problem with connections again', 'The connections are found once more at every resolution.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, is_exposed=True, type='output')
y = B.createVariable('y', dimless, is_exposed=True, type='input')
A.createEquation('a', '', x() - 1)
p = problem(A, B, resolve=False)
p.createConnection(A, B, x, y)
with quiet():
    p.resolve()
    p.resolve()
check(len(p.equation_block.equations) == 2, '%s equations instead of two' % len(p.equation_block.equations))
''')
bug('C09-unused-kept', [(PR, 'for k in self.variable_dict.keys() if k in _var_name_list]', "for k in self.variable_dict.keys() if any(k in name_i for name_i in _var_name_list)]")],
    'an unused variable whose qualified name is part of that of a used one', 'An unused variable is taken for an unknown.', '''
M = Model('M')
x, ax = M.createVariable('x', dimless), M.createVariable('ax', dimless)
M.createEquation('e', '', ax() - 1)
p = problem(M)
check(p.equation_block._var_list == ['ax_M'], 'unknowns: %s' % p.equation_block._var_list)
''')
bug('C09-order', [(PR, '''
    for model_i in list(self.models.values()):
      for eq_i in list(model_i.equations.values()):
''', '''
    for model_i in list(self.models.values()):
      for eq_i in (list(model_i.equations.values()) if len(model_i.variables) > 0 or len(model_i.connections) > 0 or self._equation_list == [] else []):
''')], 'a model without variables of its own (a specification of another model) that is not the first', 'The equations of models without variables are dropped unless they come first.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless)
B.createEquation('spec', '', x() - 3, check_equation=False)
y = A.createVariable('y', dimless)
A.createEquation('a', '', y() - x())
p = problem(A, B)
check(len(p.equation_block.equations) == 2, '%s equations' % len(p.equation_block.equations))
''')
bug('C10-any-exposed', [(PR, 'output_var_is_declared= all(out_i in model_1', 'output_var_is_declared= any(out_i in model_1')],
    'a list of outputs of which some are exposed and some are not', 'A list of outputs is accepted when one of them is exposed.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, is_exposed=True, type='output')
z = A.createVariable('z', dimless)
y = B.createVariable('y', dimless, is_exposed=True, type='input')
p = problem(A, B, resolve=False)
check(refused(lambda: p.createConnection(A, B, z, y)), 'a hidden output alone')
check(refused(lambda: p.createConnection(A, B, [x, z], y)), 'a hidden output along an exposed one was accepted')
''')
bug('C10-side', [(PR, "        input_var_is_declared= input_vars in model_2.exposed_vars['input']", "        input_var_is_declared= any(input_vars in exposed_i for exposed_i in model_2.exposed_vars.values())")],
    'a variable exposed as an output given as the input of a connection', 'An output is accepted as the input of a connection.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, is_exposed=True, type='output')
y = B.createVariable('y', dimless, is_exposed=True, type='output')
p = problem(A, B, resolve=False)
check(refused(lambda: p.createConnection(A, B, x, y)), 'an output was accepted as input')
check(not B.equations, 'equations')
''')
bug('C10-last-connection', [(MO, '      name = out_vars_names+"--->"+in_vars_names', '      name = "--->"+in_vars_names')],
    'two connections to the same inputs', 'A connection replaces the previous one to the same inputs.', '''
A, B, C = Model('A'), Model('B'), Model('C')
x = A.createVariable('x', dimless, is_exposed=True, type='output')
z = C.createVariable('z', dimless, is_exposed=True, type='output')
y = B.createVariable('y', dimless, is_exposed=True, type='input')
C.createEquation('c', '', z() - 4)
p = problem(A, B, C, resolve=False)
p.createConnection(A, B, x, y)
p.createConnection(C, B, z, y)
with quiet():
    p.resolve()
check(len(p.equation_block.equations) == 3, '%s equations instead of three' % len(p.equation_block.equations))
''')
bug('C10-first-input', [(PR, 'expr = sum([in_var_i.__call__() for in_var_i in input_var_])', 'expr = sum([in_var_i.__call__() for in_var_i in input_var_[:max(1, len(output_var_))]])')],
    'a connection of fewer outputs than inputs', 'Only as many inputs as outputs are summed.', '''
A, B = Model('A'), Model('B')
x = A.createVariable('x', dimless, is_exposed=True, type='output')
y, z = [B.createVariable(i, dimless, is_exposed=True, type='input') for i in 'yz']
A.createEquation('a', '', x() - 3)
B.createEquation('b', '', y() - 1)
p = problem(A, B, resolve=False)
p.createConnection(A, B, [x], [y, z])
with quiet():
    p.resolve()
r = simulate(p).getResults('dict')
check(close(r['z_B'], 2), r)
''')
bug('C10-given-expression', [(PR, '        if expr is None:', '        if expr is None or len(input_var_)*len(output_var_) > 1:')],
    'an expression given for a connection of several variables', 'The expression given is ignored in connections of several variables.', '''
A, B = Model('A'), Model('B')
x, w = [A.createVariable(i, dimless, is_exposed=True, type='output') for i in 'xw']
y = B.createVariable('y', dimless, is_exposed=True, type='input')
A.createEquation('a', '', x() - 3)
A.createEquation('b', '', w() - 1)
p = problem(A, B, resolve=False)
p.createConnection(A, B, [x, w], [y], expr=y() - 2*x() - w())
with quiet():
    p.resolve()
r = simulate(p).getResults('dict')
check(close(r['y_B'], 7), r)
''')

bug('C11-distinct-equations', [(AN, 'n_eqs = len(self.problem.equation_block._equations_list)', 'n_eqs = len(set(self.problem.equation_block._equations_list))')],
    'an equation written twice (redundant)', 'Equal equations are counted once, so an over-specified problem is accepted or an under-specified error is wrong.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e1', '', x() - 1)
M.createEquation('e2', '', x() - 1)
p = problem(M)
try:
    simulate(p)
    check(False, 'a problem with two equations for one unknown was run')
except Exception as e:
    check('OVER' in str(e), 'refused with %r' % e)
''')
bug('C11-unused-parameters', [(AN, 'for par_i in list(self.problem.equation_block.parameter_dict.values())', 'for par_i in list(self.problem.parameter_dict.values())')],
    'an unspecified parameter that no equation mentions', 'Unspecified parameters count as unknowns even where no equation has them.', '''
M = Model('M')
x, k = M.createVariable('x', dimless), M.createParameter('k', dimless)
M.createEquation('e1', '', x() - 1)
p = problem(M)
try:
    r = simulate(p).getResults('dict')
except Exception as e:
    check(False, 'refused: %s' % e)
''')
bug('C11-dynamic-unchecked', [(SI, '    if sanity_check is True:', "    if sanity_check is True and not (problem_type == 'differential' and len(self.problem.models) > 1):")],
    'a dynamic problem of several models that is not square', 'The degrees of freedom of dynamic problems of several models are not checked.', '''
A, B = Model('A'), Model('B')
x, k, t = A.createVariable('x', dimless), A.createVariable('k', s**-1), A.createVariable('t', s)
y = B.createVariable('y', dimless)
d = Domain('d', s, t)
x.distributeOnDomain(d)
y.distributeOnDomain(d)
A.createEquation('a', '', (x.Diff(t), k()*x()))
B.createEquation('b', '', (y.Diff(t), k()*y()), check_equation=False)
d()
p = problem(A, B, time='t_A', cond={'x_A': 1., 'y_B': 1., 'k_A': 1., 't_A': 0.})
try:
    with quiet():
        simulate(p, is_dynamic=True, end_time=1., domain=d, time_variable_name='t_A', number_of_time_steps=5)
    check(False, 'an under-specified dynamic problem was run')
except Exception as e:
    check('UNDER' in str(e), 'refused with %r' % e)
''')
bug('C11-parameters-to-optimize', [(AN, '    n_dof = n_vars + n_unspec_params - n_eqs', '    n_dof = n_vars + min(n_unspec_params, n_eqs) - n_eqs')],
    'more unspecified parameters than equations', 'Unspecified parameters beyond the number of equations are not counted.', '''
M = Model('M')
a, b, k = [M.createParameter(i, dimless) for i in 'abk']
M.createEquation('e1', '', a() + b() + k() - 1)
p = problem(M)
try:
    simulate(p)
    check(False, 'run')
except Exception as e:
    check('UNDER' in str(e) and 'Freedom = 2' in str(e), 'refused with %s' % e)
''')
bug('C11-time-declared', [(AN, '''
    if has_time_var_declared_in_diff_eq is True:
      n_eqs += 1
''', '''
    if has_time_var_declared_in_diff_eq is True or (self.problem.time_variable_name is not None and len(self.problem.time_variable_name) > 1):
      n_eqs += 1
''')],
    'a problem with several time variables, none of which occurs in the equations', 'An equation too many is counted when several time variables are named.', '''
A, B = Model('A'), Model('B')
x, t = A.createVariable('x', dimless), A.createVariable('t', s)
y, u = B.createVariable('y', dimless), B.createVariable('u', s)
d = Domain('d', s, t)
x.distributeOnDomain(d)
k = A.createParameter('k', s**-1)
k.setValue(1.)
A.createEquation('a', '', (x.Diff(t), k()*x()))
d()
p = problem(A, time=['t_A', 'u_B'], cond={'x_A': 1., 't_A': 0.})
try:
    with quiet():
        simulate(p, is_dynamic=True, end_time=1., domain=d, time_variable_name='t_A', number_of_time_steps=5)
except Exception as e:
    check('specified' not in str(e).lower(), 'refused: %s' % e)
''')

bug('C21-marked-by-value', [(AN, 'param_str = ["{}{}".format(obj_i, \'(*)\'*(symb_map[obj_i].is_specified==True))', 'param_str = ["{}{}".format(obj_i, \'(*)\'*(symb_map[obj_i].is_specified==True and symb_map[obj_i].value!=0))')],
    'a parameter specified as zero', 'A parameter specified as zero is not marked as such in the reports.', '''
from sloth.analysis import Analysis
M = Model('M')
x, k = M.createVariable('x', dimless), M.createParameter('k', dimless)
k.setValue(0.)
M.createEquation('e', '', x() - k())
check('k_M(*)' in str(Analysis().modelReport(M)), 'specified parameter not marked')
''')
bug('C21-rows-by-description', [(AN, '      tab.add_row([eq_name, eq_description, eq_repr', '      if [eq_name, eq_description] not in [row_i[:2] for row_i in tab._rows]: tab.add_row([eq_name, eq_description, eq_repr')],
    'placeholder', 'placeholder', '')
bug('C21-report-order', [(AN, 'model.equations[eq_i].equation_expression.equation_type.items() if v==True})[0] ]', 'sorted(model.equations.values(), key=lambda eq_j: eq_j.name != eq_i)[0].equation_expression.equation_type.items() if v==True})[0] ]')],
    'connections, which are registered under a name of their own', 'placeholder', '')
bug('C21-differential-first', [(AN, '      eq_vars, eq_params, eq_cons = self._inspectForObjects(model.equations[eq_i].equation_expression.symbolic_map)', '''
      symb_map_ = model.equations[eq_i].equation_expression.symbolic_map
      _ = [symb_map_.pop(obj_i) for obj_i in list(symb_map_) if symb_map_[obj_i].is_specified is True and isinstance(symb_map_[obj_i], Variable)]
      eq_vars, eq_params, eq_cons = self._inspectForObjects(symb_map_)
''')], 'a report of a model with a specified variable', 'Specified variables are left out of the report and removed from the equation itself.', '''
from sloth.analysis import Analysis
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
y.setValue(2.)
e = M.createEquation('e', '', x() - y())
r = str(Analysis().modelReport(M))
check('y_M' in e.equation_expression.symbolic_map, 'the report has altered the equation')
check(r.count('y_M') > 1, 'y_M not in the report')
''')
bug('C21-repeated-models', [(AN, '    for mod_i in problem.models:', '    for mod_i in {id(problem.models[m].__class__)*(problem.models[m].equations=={}) or m:m for m in problem.models}.values():')],
    'a problem with two models of the same class without equations', 'The report of a problem lists only one of the models without equations of a class.', '''
from sloth.analysis import Analysis
A, B, C = Model('A'), Model('B'), Model('C')
x = A.createVariable('x', dimless)
A.createEquation('e', '', x() - 1)
p = problem(A, B, C)
r = str(Analysis().problemReport(p))
check('Model: B' in r and 'Model: C' in r, 'a model is missing')
''')
BUGS = [b for b in BUGS if b['demo']]
