"""Planted bugs, another round: caches, round-offs, shortcuts and renames."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


U, EE, EQ, EO, Q, EB = 'core/unit.py', 'core/expression_evaluation.py', 'core/equation.py', 'core/equation_operators.py', 'core/quantity.py', 'core/equation_block.py'

bug('C01-dimensionless-int', [(U, 'is_dimless = all(float(d_i) == 0. for d_i in self.dimension.values())', 'is_dimless = all(int(d_i) == 0 for d_i in self.dimension.values())')],
    'a unit all of whose exponents are between -1 and 1, as exponent', 'A unit with small fractional exponents is taken for dimensionless.', '''
check(refused(lambda: kg**(m**0.5)), 'm^0.5 was accepted as exponent')
check(refused(lambda: kg**(m**-0.5*s**0.25)), 'accepted')
''')
bug('C01-cached-product', [(U, '''
        if isinstance(other_unit, self.__class__):
            # other_unit is an Unit object
            new_dimension = copy.copy(other_unit.dimension)
            for (dim_i, idx_i) in zip(self.dimension.keys(), self.dimension.values()):
                try:
                    new_dimension[dim_i] = new_dimension[dim_i] + idx_i
                except KeyError:  # Second unit (other_unit) has no dimension 'dim_i' defined
                    new_dimension[dim_i] = idx_i
            new_unit = self.__class__(name="", dimension_dict=new_dimension, description="")
            return new_unit
''', '''
        if isinstance(other_unit, self.__class__):
            # other_unit is an Unit object
            key_ = (self.name, other_unit.name)
            if "" not in key_ and key_ in _products:
                return _products[key_]
            new_dimension = copy.copy(other_unit.dimension)
            for (dim_i, idx_i) in zip(self.dimension.keys(), self.dimension.values()):
                try:
                    new_dimension[dim_i] = new_dimension[dim_i] + idx_i
                except KeyError:  # Second unit (other_unit) has no dimension 'dim_i' defined
                    new_dimension[dim_i] = idx_i
            _products[key_] = self.__class__(name="", dimension_dict=new_dimension, description="")
            return _products[key_]
'''), (U, '''
class Unit:  # New-style class syntax
''', '''
_products = {}

class Unit:  # New-style class syntax
''')],
    'two units of the same name and different dimensions multiplied in the same session', 'The product of named units is remembered by their names.', '''
a, b = Unit('flow', {'kg': 1, 's': -1}), Unit('flow', {'m': 3, 's': -1})
t = Unit('hour', {'s': 1})
check((a*t).dimension['kg'] == 1, 'kg')
check((b*t).dimension['kg'] == 0 and (b*t).dimension['m'] == 3, 'second product: %r' % dict((b*t).dimension))
''')
bug('C02-known-zero', [(EE, '''
                                unit_object=self.unit_object-other_obj.unit_object,
''', '''
                                unit_object=self.unit_object if other_obj.symbolic_object == 0 else self.unit_object-other_obj.unit_object,
''')], 'an incoherent difference whose second term is a specified quantity of value zero', 'A difference is not checked when its second term is known to be zero.', '''
x, p = Variable('x', kg), Parameter('p', s)
p.setValue(0.)
check(refused(lambda: x() - p()), 'kg - s accepted')
q = Parameter('q', kg)
q.setValue(0.)
x() - q()
''')
bug('C03-tiny-value', [(Q, 'symbolic_object=self.value,', 'symbolic_object=round(self.value, 12),')],
    'a specified quantity with a very small value, such as the Planck or Boltzmann constants', 'Values are rounded to twelve decimals when quantities are used.', '''
k, x = Constant('k', J/K), Variable('x', K)
k.setValue(1.380649e-23)
e = Equation('e', '', k()*x())
check(close(float(e.eval({'k': 1.380649e-23, 'x': 1e23})), 1.380649), 'value %r' % e.eval({'k': 1.380649e-23, 'x': 1e23}))
''')
bug('C03-in-place', [(EE, '''
    def __radd__(self, other_obj):
''', '''
    def __iadd__(self, other_obj):

        res_ = self.__add__(other_obj)
        self.__dict__.update(res_.__dict__)
        return(self)

    def __radd__(self, other_obj) :
''')], 'an expression extended with += while another name, or another expression, still holds the original', 'The augmented sum alters the expression instead of giving a new one.', '''
x, y = Variable('x', kg), Variable('y', kg)
e = x()*2
f = e
f += y()
check(close(Equation('e', '', e).eval({'x': 3., 'y': 5.}), 6.), 'e became %s' % e)
check(close(Equation('f', '', f).eval({'x': 3., 'y': 5.}), 11.), f)
''')
bug('C04-refused-unspecifies', [('core/parameter.py', '''
        else:

            raise UnexpectedValueError("(Quantity, float, int)")
''', '''
        else:

            self.is_specified = self.is_specified and quantity_unit is not None
            raise UnexpectedValueError("(Parameter, float, int)")
''')], 'a specified parameter given a wrong value, the error being handled', 'A refused value leaves the parameter unspecified.', '''
p = Parameter('p', kg)
p.setValue(2.)
check(refused(lambda: p.setValue('a')), 'accepted')
check(p.value == 2. and p.is_specified is True, 'state after the refusal')
check(refused(lambda: p.setValue(1., s)), 'accepted')
check(p.is_specified is True, 'state')
''')
bug('C06-suffix-once', [('model.py', '''
        var.name=var.name+'_'+self.name
''', '''
        if not var.name.endswith('_'+self.name):

            var.name=var.name+'_'+self.name
''')], 'a variable whose own name ends as the qualified ones do', 'Variables whose names end in the name of the model are not qualified.', '''
M = Model('T')
a = M.createVariable('x_T', dimless)
b = M.createVariable('x', kg)
check(sorted(M.variables) == ['x_T', 'x_T_T'], sorted(M.variables))
check(M.variables.get('x_T_T') is a, 'registered name')
''')
bug('C17-compiled-cache', [(EB, '''
                return jit(fun_)
''', '''
                key_ = (tuple(self._var_list), tuple(eq_i.name for eq_i in self.equations), side, compilation_mechanism)

                return _compiled.setdefault(key_, jit(fun_))
'''), (EB, '''
class EquationBlock:
''', '''
_compiled = {}

class EquationBlock:
''')], 'a dynamic problem run again after a parameter took another value and the problem was resolved', 'Compiled equations are reused for problems with the same names, although values have changed.', '''
class M(Model):
    def DeclareVariables(self):
        self.x = self.createVariable('x', dimless)
        self.t = self.createVariable('t', s)
        self.x.distributeOnDomain(self.dom)
    def DeclareParameters(self):
        self.k = self.createParameter('k', dimless/s)
        self.k.setValue(self.kval)
    def DeclareEquations(self):
        self.e = self.createEquation('e', '', self.x.Diff(self.t) == self.k()*self.x())
def run(k):
    mo = M('A')
    mo.t = Variable('t_A', s)
    mo.kval = k
    mo.dom = Domain('d', s, mo.t)
    with quiet():
        mo()
    p = problem(mo, cond={'x_A': 1., 't_A': 0.}, time='t_A')
    sim = simulate(p, end_time=1., is_dynamic=True, domain=mo.dom, time_variable_name='t_A', number_of_time_steps=10)
    return sim.getResults('dict')['t_A']['x_A'][-1]
import math
check(close(run(1.), math.exp(1.), 1e-4), 'first')
check(close(run(-1.), math.exp(-1.), 1e-4), 'second')
''')
bug('C08-specification', [('model.py', '''
        var_ = var

        var_ = deepcopy(var)
''', '''
        var_ = Variable(var.name, deepcopy(var.units), var.description, lower_bound=var.lower_bound, upper_bound=var.upper_bound, value=var.value,
                        is_exposed=var.is_exposed, type=var.type, latex_text=var.latex_text, domain=var.domain)
''')], 'incorporation of a model with a specified variable', 'Variables specified in the source are not so in the model that incorporates it.', '''
M, N = Model('M'), Model('N')
with quiet():
    x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
    x.setValue(2.)
    M.createEquation('e', '', y() - x()*3)
    N.incorporateFromExternalModel(M)
check(N.variables['x_N'].is_specified is True and N.variables['x_N'].value == 2., 'specification')
p = problem(N)
sim = simulate(p)
check(close(sim.getResults('dict')['y_N'], 6.), sim.getResults('dict'))
''')
bug('C09-declared-once', [('problem.py', '''
            _ = [mod_i() for mod_i in self.models.values()]
''', '''
            _ = [mod_i() for mod_i in self.models.values() if len(mod_i.equations) == 0]
''')], 'a model declared by the user, with a value given to a variable or parameter before the problem is resolved', 'Models already declared are not declared again at the resolution, so values given meanwhile are ignored.', '''
class M(Model):
    def DeclareVariables(self):
        if not hasattr(self, 'x'):
            self.x, self.y = self.createVariable('x', dimless), self.createVariable('y', dimless)
    def DeclareEquations(self):
        self.e1 = self.createEquation('e1', '', self.x() - 2.*self.y())
mo = M('A')
with quiet():
    mo()
mo.y.setValue(4.)
p = problem(mo)
check(p.equation_block._var_list == ['x_A'], 'unknowns %s' % p.equation_block._var_list)
sim = simulate(p)
check(close(sim.getResults('dict')['x_A'], 8.), 'x')
''')
bug('C10-named-by-first', [('model.py', '''
            out_vars_names = (",").join([out_i.name for out_i in out_vars])
            in_vars_names = (",").join([in_i.name for in_i in in_vars])
''', '''
            out_vars_names = out_vars[0].name
            in_vars_names = in_vars[0].name
''')], 'two connections of several variables which start with the same output and the same input', 'Connections are named by their first variables only, so one replaces another.', '''
M, N = Model('M'), Model('N')
a, b = [M.createVariable(n, kg, is_exposed=True, type='output') for n in 'ab']
c, d = [N.createVariable(n, kg, is_exposed=True, type='input') for n in 'cd']
p = Problem('P')
p.addModels([M, N])
p.createConnection(M, N, [a], [c])
p.createConnection(M, N, [a, b], [c, d])
check(len(N.equations) == 2, list(N.equations))
''')
bug('C11-zero-parameter', [('analysis.py', 'if par_i.is_specified is False]', 'if not par_i.is_specified or par_i.value == 0]')],
    'a parameter specified as zero', 'Parameters specified as zero are counted as unknowns.', '''
M = Model('M')
x, p_ = M.createVariable('x', dimless), M.createParameter('p', dimless)
p_.setValue(0.)
M.createEquation('e', '', x() - 2. + p_())
sim = simulate(problem(M))
check(close(sim.getResults('dict')['x_M'], 2.), 'x')
''')
bug('C12-tiny-coefficients', [('solvers.py', 'x_out = scp_solve(A,b)', 'x_out = scp_solve(np.round(A, 10), np.round(b, 10))')],
    'a system whose coefficients are all small, such as in SI units of small things', 'The numeric solver rounds the coefficients to ten decimals.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
M.createEquation('e1', '', x()*1.23456e-8 + y()*2e-8 - 5e-8)
M.createEquation('e2', '', x()*1e-8 - y()*3.1e-8 - 1.7e-8)
sim = simulate(problem(M), linear_solver='scipy')
r = sim.getResults('dict')
check(close(1.23456*r['x_M'] + 2*r['y_M'], 5, 1e-6) and close(r['x_M'] - 3.1*r['y_M'], 1.7, 1e-6), r)
''')
bug('C14-renamed-one-by-one', [('core/domain.py', '''
            self.values[key].rename(columns=variable_name_map, inplace=True)
''', '''
            for old_name, new_name in variable_name_map.items():
                self.values[key].rename(columns={old_name: new_name}, inplace=True)
''')], 'headers asked for that exchange or shift the names of the variables', 'Columns are renamed one after another, so a new name that was also an old one is renamed again.', '''
class M(Model):
    def DeclareVariables(self):
        self.x, self.y = self.createVariable('x', dimless), self.createVariable('y', dimless)
        _ = [v.distributeOnDomain(self.dom) for v in (self.x, self.y)]
    def DeclareEquations(self):
        self.createEquation('e1', '', self.x.Diff(self.t) == self.x()*0 + 1.)
        self.createEquation('e2', '', self.y.Diff(self.t) == self.y()*0 + 2.)
mo = M('A')
mo.t = Variable('t_A', dimless)
mo.dom = Domain('d', dimless, mo.t)
p = problem(mo, cond={'x_A': 0., 'y_A': 0., 't_A': 0.}, time='t_A')
sim = simulate(p, end_time=1., is_dynamic=True, domain=mo.dom, time_variable_name='t_A', number_of_time_steps=10, variable_name_map={'x_A': 'y_A', 'y_A': 'x_A'})
d = sim.getResults('dict')['t_A']
check(sorted(d) == ['t_A', 'x_A', 'y_A'] and close(d['y_A'][-1], 1., 1e-4) and close(d['x_A'][-1], 2., 1e-4), {k: v[-1] for k, v in d.items()})
''')
bug('C16-not-a-number', [('core/domain.py', 'return np.array([self.values[i][j].values for (i,j) in product(ind_vars,dep_headers)])',
                          'return np.array([self.values[i][j].dropna().values for (i,j) in product(ind_vars,dep_headers)])')],
    'a registered value that is not a number', 'Values that are not numbers are left out when read.', '''
t, x = Variable('t', s), Variable('x', kg)
d = Domain('d', s, t)
x.distributeOnDomain(d)
d._register([[0., 1.], [1., float('nan')], [2., 3.]])
check(d[('t', 'x')].shape == (1, 3), 'rows %s' % (d[('t', 'x')].shape,))
''')
bug('C18-table-rounded', [('simulation.py', '''self.output[var_i]''', '''round(float(self.output[var_i]), 6)''')], 'a result that is very small', 'The table of results shows six decimals.', '''
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '', x()*1e6 - 1.25)
sim = simulate(problem(M), linear_solver='scipy')
b = io.StringIO()
with contextlib.redirect_stdout(b):
    sim.showResults()
check('1.25e-06' in b.getvalue(), b.getvalue())
''')
bug('C22-empty-label', [('plotter.py', 'plt.xlabel(x_label)', "plt.xlabel(x_label or 'time')")],
    'an empty label for the abscissa', 'An empty label of the abscissa becomes that by default.', '''
import numpy as np
import matplotlib.pyplot as plt
sim = Simulation('S')
seen = []
plt.show = lambda *a, **k: seen.append(plt.gca().get_xlabel())
sim.plotTimeSeries(x_data=[np.array([0., 1.])], y_data=[np.array([1., 2.])], x_label='', y_label='v', labels=['a'])
check(seen == [''], seen)
''')
