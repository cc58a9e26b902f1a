"""Planted bugs of C01-C06, C23: units, expressions, values, classification, registries."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


U, EE, EQ, EO, Q = 'core/unit.py', 'core/expression_evaluation.py', 'core/equation.py', 'core/equation_operators.py', 'core/quantity.py'

bug('C01-pow-rounds', [(U, 'new_dimension[dim_i] = idx_i*power', 'new_dimension[dim_i] = round(idx_i*power, 6)')],
    'a fractional power whose decimal expansion is longer than the rounding, raised back by a later power',
    'The exponents of powers are rounded, so that chains of fractional powers leave the dimension they should return to.', '''
a = (m**(1/3.))*(m**(1/3.))*(m**(1/3.))
check(close(a.dimension['m'], 1, 1e-12), 'cube root times itself three times: %r' % dict(a.dimension))
b = (kg/s)**1.23456789
check(close(b.dimension['kg'], 1.23456789, 1e-12), b.dimension)
''')
bug('C01-coherent-int', [(U, 'all(self.dimension[idx] == other_unit.dimension[idx] for idx in sorted(self.dimension.keys()))',
                          'all(int(self.dimension[idx]) == int(other_unit.dimension[idx]) for idx in sorted(self.dimension.keys()))')],
    'units with fractional exponents', 'Fractional exponents are truncated in the comparison of units, so incoherent sums are accepted.', '''
check(refused(lambda: m**0.5 + dimless), 'a sum of m^0.5 and a dimensionless unit was accepted')
check(refused(lambda: m**1.5 - m), 'a difference of m^1.5 and m was accepted')
''')
bug('C01-sum-of-exponents', [(U, 'is_dimless = all(float(d_i) == 0. for d_i in self.dimension.values())',
                              'is_dimless = abs(sum(float(d_i) for d_i in self.dimension.values())) == 0.')],
    'an exponent unit whose exponents cancel out in their sum, such as m/s', 'A dimensional unit is taken for a dimensionless one when its exponents add up to zero.', '''
check(refused(lambda: kg**(m/s)), 'm/s was accepted as exponent')
check(not (J/(kg*m**2*s**-1*K**0)*(K/K)*(s**1)*(m/s))._is_dimensionless(), 'a dimensional unit is said dimensionless')
''')
bug('C01-null-exponent', [(U, '''
                    new_dimension[dim_i] = self.dimension[dim_i] - idx_i
''', '''
                    new_dimension[dim_i] = (self.dimension[dim_i] - idx_i) if abs(self.dimension[dim_i]) != abs(idx_i) else 0.
''')], 'dividing by a unit with the opposite exponent of a dimension (s^-1 / s)',
    'The quotient of units drops a dimension whose exponents are opposite, as if they were equal.', '''
a = (kg/s)/s
check(a.dimension['s'] == -2, 'kg/s/s: %r' % dict(a.dimension))
check((m_s2*s/m*s)._is_dimensionless(), 'm/s2*s/m*s')
''', nth=1)

bug('C02-known-argument', [(EO, 'if obj.unit_object._is_dimensionless() == True or dim_check == False:',
                            'if obj.unit_object._is_dimensionless() == True or dim_check == False or obj.variable_map == {}:')],
    'a transcendental function of an expression of specified quantities only', 'Dimensional arguments of transcendental functions are accepted when they are specified.', '''
M = Model('M')
a, x = M.createParameter('a', kg), M.createVariable('x', kg)
a.setValue(2.)
check(refused(lambda: Exp(x())), 'Exp of a mass')
check(refused(lambda: Exp(a())), 'Exp of a specified mass was accepted')
''')
bug('C02-reciprocal', [(EE, '''
        return (self**(-1))*other_obj
''', '''
        return (self**(-1) if other_obj != 1 else self.__class__(name="1/"+self.name, symbolic_object=1/self.symbolic_object, symbolic_map={**self.symbolic_map}, variable_map={**self.variable_map}, is_linear=False, is_nonlinear=True, unit_object=self.unit_object, latex_text="1/"+self.latex_text, repr_symbolic=1/self.repr_symbolic))*other_obj
''')], 'the reciprocal 1/expression of a dimensional expression', 'The reciprocal takes the unit of the expression instead of its inverse.', '''
M = Model('M')
t, f = M.createVariable('t', s), M.createVariable('f', s**-1)
check((2./t()).unit_object.dimension['s'] == -1, '2/t')
check((1/t()).unit_object.dimension['s'] == -1, 'unit of 1/t: %r' % dict((1/t()).unit_object.dimension))
try:
    f() - 1/t()
except Exception as e:
    check(False, 'f - 1/t refused: %s' % e)
''', nth=1)
bug('C02-number-power', [(EE, '''
                            unit_object=self.unit_object**other_obj,
''', '''
                            unit_object=self.unit_object**int(other_obj),
''')], 'a dimensional base and a fractional exponent', 'The unit of a fractional power is that of the truncated exponent.', '''
M = Model('M')
a = M.createVariable('a', m**2)
u = (a()**0.5).unit_object
check(u.dimension['m'] == 1, 'unit of the root of an area: %r' % dict(u.dimension))
''')
bug('C02-equality-of-zero', [(EQ, '''
                self.equation_expression = equation_expression[0] - equation_expression[1]
''', '''
                self.equation_expression = equation_expression[0] - (equation_expression[1] if equation_expression[1].variable_map != {} else equation_expression[1].symbolic_object)
''')], 'an elementary equation whose right side has only specified quantities of another dimension',
    'The dimension of a right side without unknowns is not compared with the left one.', '''
M = Model('M')
x, p = M.createVariable('x', kg), M.createParameter('p', mol)
check(refused(lambda: M.createEquation('e1', '', x() == p())), 'kg == mol')
p.setValue(3.)
check(refused(lambda: M.createEquation('e2', '', x() == p())), 'kg == specified mol was accepted')
''')

bug('C03-sign-of-residual', [(EQ, '''
                self.equation_expression = equation_expression[0] - equation_expression[1]
''', '''
                self.equation_expression = equation_expression[0] - equation_expression[1] if equation_expression[0].variable_map != {} else equation_expression[1] - equation_expression[0]
''')], 'an equation written with the known side at left', 'The residual of equations with a known left side changes sign.', '''
M = Model('M')
x, p = M.createVariable('x', kg), M.createParameter('p', kg)
p.setValue(5.)
e = M.createEquation('e', '', p() == x())
check(close(e.eval({'x_M': 2.}), 3.), 'residual of 5 == x at 2: %s' % e.eval({'x_M': 2.}))
''')
bug('C03-eval-order', [(EQ, 'zip(eq_keys,eq_values)', 'zip(sorted(eq_keys),eq_values)')],
    'values given in another order than the alphabetical one', 'The values are matched with the sorted names.', '''
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
e = M.createEquation('e', '', x() - 2*y())
check(close(e.eval({'x_M': 7., 'y_M': 1.}), 5), 'in order')
check(close(e.eval({'y_M': 1., 'x_M': 7.}), 5), 'values given as y, x: %s' % e.eval({'y_M': 1., 'x_M': 7.}))
''')
bug('C03-remembered-value', [(Q, '''
                                symbolic_object=self.value,
''', '''
                                symbolic_object=self.__dict__.setdefault('_known', self.value),
''')], 'a quantity specified again after it was used in an expression', 'A specified quantity contributes the value it had in its first use.', '''
M = Model('M')
x, p = M.createVariable('x', dimless), M.createParameter('p', dimless)
p.setValue(2.)
e1 = M.createEquation('e1', '', x() - p())
p.setValue(3.)
e2 = M.createEquation('e2', '', x() - p())
check(close(e1.eval({'x_M': 0.}), -2) and close(e2.eval({'x_M': 0.}), -3), 'residuals %s, %s' % (e1.eval({'x_M': 0.}), e2.eval({'x_M': 0.})))
''')
bug('C09-shared-map', [(EE, '''
                                symbolic_object=self.symbolic_object/other_obj.symbolic_object,
                                symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
''', '''
                                symbolic_object=self.symbolic_object/other_obj.symbolic_object,
                                symbolic_map=self.symbolic_map.update(other_obj.symbolic_map) or self.symbolic_map,
''')], 'an expression divided by another one and used again', 'Dividing an expression adds the quantities of the divisor to the expression itself.', '''
M, N = Model('M'), Model('N')
x, y = M.createVariable('x', dimless), N.createVariable('y', dimless)
a = 2*x()
b = a/y()
check(sorted(a.symbolic_map) == ['x_M'], 'objects of 2*x: %s' % sorted(a.symbolic_map))
e = M.createEquation('e', '', a - 1)
check(sorted(e.objects_declared) == ['x_M'], 'objects of the equation')
''')
bug('C03-known-power', [(EE, '''
                                    symbolic_object=self.symbolic_object**other_obj.symbolic_object,
''', '''
                                    symbolic_object=abs(self.symbolic_object)**other_obj.symbolic_object,
''')], 'a negative base raised to an exponent given by a quantity', 'The sign of the base of a power is lost when the exponent is a quantity.', '''
M = Model('M')
x, n = M.createVariable('x', dimless), M.createConstant('n', dimless)
n.setValue(3)
e = M.createEquation('e', '', x()**n())
check(close(e.eval({'x_M': 2.}), 8), '2**3')
check(close(e.eval({'x_M': -2.}), -8), '(-2)**3 = %s' % e.eval({'x_M': -2.}))
''')
bug('C04-atomic', [('core/parameter.py', '''
        if isinstance(quantity_value, self.__class__):
            if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
                self.value = quantity_value.value
''', '''
        if isinstance(quantity_value, self.__class__):
            self.value = quantity_value.value
            if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
''')], 'a refused assignment of another parameter, followed by a use of the value', 'A parameter given another one of the wrong dimension raises, but keeps the value.', '''
a, b = Parameter('a', kg, value=1.), Parameter('b', mol, value=7.)
check(refused(lambda: a.setValue(b)), 'mol assigned to kg')
check(a.value == 1. and not a.is_specified, 'value after the refusal: %s' % a.value)
''')
bug('C04-unspecified-source', [('core/constant.py', '''
                self.value = quantity_value.value
                self.is_specified = True
            else:
                raise DimensionalCoherenceError(self.units,quantity_value.units)
''', '''
                self.value = quantity_value.value
                self.is_specified = quantity_value.is_specified
            else:
                raise DimensionalCoherenceError(self.units,quantity_value.units)
''')], 'a constant given another one that was created with a value but not specified',
    'The receiver of a quantity is not marked as specified unless the source is.', '''
a, b = Constant('a', kg), Constant('b', kg, value=7.)
a.setValue(b)
check(a.value == 7. and a.is_specified, 'specified after the assignment: %s' % a.is_specified)
''')
bug('C04-unit-taken', [('core/quantity.py', '''
                self.value = quantity_value.value
                self.is_specified = True
            else:
                raise DimensionalCoherenceError(self.units,quantity_value.units)
''', '''
                self.__dict__.update({k:v for k,v in quantity_value.__dict__.items() if k in ('value','units','description')})
                self.is_specified = True
            else:
                raise DimensionalCoherenceError(self.units,quantity_value.units)
''')], 'a variable given another one', 'The receiver also takes the unit object and the description of the source.', '''
a, b = Variable('a', Unit('kilo', {'kg': 1}), 'first'), Variable('b', kg, 'second', value=7.)
u = a.units
a.setValue(b)
check(a.value == 7. and a.units is u and a.description == 'first', 'description after the assignment: %s' % a.description)
''')

bug('C05-left-known', [(EE, '''
            elif self.variable_map == {} and other_obj.variable_map != {}:
                # current object is a specified Quantity
                enode_.equation_type = {**other_obj.equation_type}
''', '''
            elif self.variable_map == {} and other_obj.variable_map != {}:
                # current object is a specified Quantity
                enode_.equation_type = {**self.equation_type}
''')], 'a nonlinear expression multiplied at left by a specified quantity', 'A specified quantity times a nonlinear (or differential) expression is classified as linear.', '''
M = Model('M')
x, k = M.createVariable('x', dimless), M.createParameter('k', dimless)
k.setValue(2.)
e = M.createEquation('e', '', k()*Exp(x()) - 1)
check(e.type == 'nonlinear', 'type of k*exp(x) - 1: %s' % e.type)
''')
bug('C05-abs', [(EO, 'return wrapper(Abs, obj, sp.Abs)', "return wrapper(Abs, obj, sp.Abs, equation_type={'is_linear':True})")],
    'the absolute value of an unknown in an otherwise linear problem', 'Abs is classified as linear.', '''
M = Model('M')
x = M.createVariable('x', dimless)
e = M.createEquation('e', '', Abs(x()) - 1)
check(e.type == 'nonlinear', 'type of abs(x) - 1: %s' % e.type)
''')
bug('C05-fractional-power', [(EE, '''
            enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
            return(enode_)
''', '''
            enode_.equation_type = {**self.equation_type} if 0 <= other_obj <= 1 else self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
            return(enode_)
''')], 'an exponent between 0 and 1', 'Roots are classified as linear.', '''
M = Model('M')
x = M.createVariable('x', dimless)
e = M.createEquation('e', '', x()**0.5 - 1)
check(e.type == 'nonlinear', 'type of x**0.5 - 1: %s' % e.type)
''')
bug('C05-dae-type', [('problem.py', 'is_D = is_differential==True and (is_linear==False and is_nonlinear==False)',
                      'is_D = is_differential==True and is_linear==False')],
    'a problem with differential and nonlinear algebraic equations, and no linear one', 'A differential-algebraic problem is classified as differential.', '''
M = Model('M')
t, x, y = M.createVariable('t', s), M.createVariable('x', dimless), M.createVariable('y', dimless)
x.distributeOnDomain(Domain('d', s, t))
k = M.createParameter('k', s**-1)
k.setValue(1.)
M.createEquation('d', '', x.Diff(t) == k()*y())
M.createEquation('a', '', y() - Exp(x()))
p = problem(M, time='t_M')
check(p._getProblemType() == 'differential-algebraic', 'type: %s' % p._getProblemType())
''')
bug('C05-precedence', [(EE, '''
        if eq_type_1['is_differential'] == True or \\
           eq_type_2['is_differential'] == True:
''', '''
        if eq_type_1['is_differential'] == True or \\
           (eq_type_2['is_differential'] == True and eq_type_1['is_nonlinear'] != True):
''')], 'a nonlinear term added to a derivative at its left', 'A nonlinear expression plus a derivative is classified as nonlinear.', '''
M = Model('M')
t, x = M.createVariable('t', s), M.createVariable('x', dimless)
x.distributeOnDomain(Domain('d', s, t))
k = M.createParameter('k', s**-1)
k.setValue(1.)
e1 = M.createEquation('d1', '', x.Diff(t) - k()*Exp(x()))
e2 = M.createEquation('d2', '', k()*Exp(x()) - x.Diff(t))
check(e1.type == e2.type == 'differential', 'types: %s %s' % (e1.type, e2.type))
''')

bug('C06-substring', [('model.py', 'is_declared = all( obj_i in all_objects_keys for obj_i in list(eq.objects_declared.keys()) )',
                       'is_declared = all( obj_i in ",".join(all_objects_keys) for obj_i in list(eq.objects_declared.keys()) )')],
    'an undeclared object whose name is part of the name of a declared one', 'Undeclared objects pass when their name is contained in a declared one.', '''
M, N = Model('M'), Model('M')
xx = M.createVariable('x_x', dimless)
x = N.createVariable('x', dimless)
check(refused(lambda: M.createEquation('e', '', xx() - x())), 'x_M is not declared in M, but was accepted')
check(len(M.equations) == 0, 'registered')
''')
bug('C06-upper-bound', [('core/variable.py', 'self.is_upper_bounded = ( upper_bound != None )', 'self.is_upper_bounded = ( upper_bound != None ) and self.is_lower_bounded')],
    'a variable with an upper bound only', 'A variable with only an upper bound is registered as not bounded above.', '''
M = Model('M')
x = M.createVariable('x', dimless, upper_bound=2.)
check(M.variables['x_M'].is_upper_bounded is True and M.variables['x_M'].upper_bound == 2., 'upper bound')
''')
bug('C06-refused-registered', [('model.py', '''
        if check_equation is True:
            if self._checkEquation_(eq) is True:
                self.equations[eq.name] = eq
                return eq
''', '''
        if check_equation is True:
            self.equations[eq.name] = eq
            if self._checkEquation_(eq) is True:
                return eq
''')], 'an equation refused for an undeclared object, caught by the caller', 'A refused equation stays registered.', '''
M, N = Model('M'), Model('N')
x, y = M.createVariable('x', dimless), N.createVariable('y', dimless)
check(refused(lambda: M.createEquation('e', '', x() - y())), 'accepted')
check(list(M.equations) == [], 'a refused equation is registered: %s' % list(M.equations))
''')

bug('C23-dimensionless-sum', [(Q, '''
        if self.units._check_dimensional_coherence(other_obj.units) == True:
            # Dimensional coherence confirmed. Insert here commands
''', '''
        if self.units._check_dimensional_coherence(other_obj.units) == True or other_obj.units._is_dimensionless():
            # Dimensional coherence confirmed. Insert here commands
''')], 'adding a dimensionless quantity to a dimensional one', 'A dimensionless addend is accepted.', '''
a, b = Parameter('a', kg, value=1.), Parameter('b', dimless, value=7.)
check(refused(lambda: b + a), 'dimensionless + kg')
check(refused(lambda: a + b), 'kg + dimensionless')
''', nth=0)
bug('C23-unit-by-reference', [(U, '''
            new_dimension = copy.copy(self.dimension)
            for (dim_i, idx_i) in zip(self.dimension.keys(), self.dimension.values()):
                new_dimension[dim_i] = idx_i*power
''', '''
            new_dimension = copy.copy(self.dimension) if 0 <= power <= 2 or power == -1 else self.dimension
            for (dim_i, idx_i) in list(zip(self.dimension.keys(), self.dimension.values())):
                new_dimension[dim_i] = idx_i*power
''')], 'a quantity raised to a power above 2 or below -1', 'Raising to 3 triples the unit of the operand itself.', '''
a, n = Parameter('a', Unit('u', {'kg': 1}), value=2.), Parameter('n', dimless, value=3.)
b = a**n
check(b.units.dimension['kg'] == 3 and b.value == 8, 'result')
check(a.units.dimension['kg'] == 1, 'unit of the operand: %r' % dict(a.units.dimension))
''')
BUGS = [b for b in BUGS if b['demo']]
