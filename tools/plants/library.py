"""Planted bugs of C20-C24, and more of the others: units, streams, packages, reports, plots, quantities."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


UL, PP, PL, MO, AN, QU = 'unit_op_library.py', 'core/property_package.py', 'plotter.py', 'model.py', 'analysis.py', 'core/quantity.py'

PACK = '''
import sloth.unit_op_library as L
from sloth.core.property_package import PropertyPackage


class Species:
    def __init__(self, MW, rho=900., Cp=4000.):
        self.MW, self.rho, self.Cp, self.calls = MW, rho, Cp, []

    def calculate(self, T, P):
        self.calls.append((T, P))


def package(*names, MW=20.):
    pp = PropertyPackage(0, [])
    pp.number_of_phases = len(names)
    pp.phase_names = list(names)
    pp.phases = {n: Species(MW) for n in names}
    return pp


def stream(cls='MaterialStream', name='S', pp=None, **values):
    with quiet():
        s = getattr(L, cls)(name, property_package=pp or package('a'))
        for k, v in values.items():
            getattr(s, k).setValue(v)
        s()
    return s


def residuals(u, x):
    out = {}
    for e in u.equations.values():
        at = {n: float(x[n]) if n in x else float(o.value) for n, o in e.objects_declared.items()}
        out[e.name] = float(e.eval({n: v for n, v in at.items() if e.objects_declared[n].is_specified is not True}))
    return out


'''
bug('C24-pressure-dropped', [(UL, "self.property_package.calculate(T=self.T.value, P=self.P.value)", "self.property_package.calculate(T=self.T.value)")],
    'a multiphasic stream with both temperature and pressure specified', 'The pressure of a multiphasic stream does not reach its package.', PACK + '''
s = stream('MultiphasicMaterialStream', pp=package('a', 'b'), T=350., P=3e5)
check(s.property_package['a'].calls[-1] == (350., 3e5), s.property_package['a'].calls)
''', nth=2)
bug('C24-already-there', [(PP, "_ = [self.phases[i].calculate(T,P) for i in self.phase_names]", "_ = [self.phases[i].calculate(T,P) for i in self.phase_names if (T, P) != (self.T, self.P)]")],
    'a package used elsewhere, then by a stream at 298.15 K and 101325 Pa', 'A package that was at other conditions is not brought back to the default ones.', PACK + '''
pp = package('a')
stream(pp=pp, name='S1', T=400., P=2e5)
stream(pp=pp, name='S2', T=298.15, P=101325)
check(pp['a'].calls[-1] == (298.15, 101325), pp['a'].calls)
''')
bug('C24-first-and-last', [(MO, "P_from_inputs = [stream.P() for stream in main_model._inlets]", "P_from_inputs = [stream.P() for stream in (main_model._inlets[0], main_model._inlets[-1])]")],
    'three streams, the one in the middle at the lowest pressure', 'Only the first and last streams give the pressure.', PACK + '''
ss = [stream(name='S%d' % i, T=300. + i, P=p, mdot=1.) for i, p in enumerate((3e5, 1e5, 2e5))]
u = Model('U')
with quiet():
    u._setInlets(ss)
    u()
r = residuals(u, {'P_in_U': 1e5, 'T_in_U': 300., 'P_S0': 3e5, 'P_S1': 1e5, 'P_S2': 2e5})
check(abs(r['totalization_P_U']) < 1e-6, r)
''')
bug('C24-rederived', [(UL, "if self.mdot.is_specified is True and self.ndot.is_specified is not True:", "if self.mdot.is_specified is True and (self.ndot.is_specified is not True or type(self.mdot.value) is float and type(self.ndot.value) is int):")],
    'both flows specified, the mole flow as an integer', 'A specified integer mole flow is replaced by the one derived from the mass flow.', PACK + '''
s = stream('HomogeneousMaterialStream', mdot=1., ndot=30)
check(s.ndot.value == 30, s.ndot.value)
''')
bug('C24-closed-stream', [(UL, "if self.mdot.is_specified is False and self.ndot.is_specified is True:", "if self.mdot.is_specified is False and self.ndot.is_specified is True and self.ndot.value:")],
    'a stream with a mole flow of zero', 'The mass flow of a closed stream is left unspecified.', PACK + '''
s = stream('MaterialStream', ndot=0.)
check(s.mdot.is_specified and s.mdot.value == 0., s.mdot.is_specified)
''', nth=0)
bug('C24-flow-sign', [(UL, "self.ndot.setValue( self.mdot.value/(self.property_package[\"*\"].MW*1e-3) )", "self.ndot.setValue( abs(self.mdot.value)/(self.property_package[\"*\"].MW*1e-3) )")],
    'a stream with a negative mass flow (flowing back)', 'A stream flowing back gets a positive mole flow.', PACK + '''
s = stream('HomogeneousMaterialStream', mdot=-2.)
check(close(s.ndot.value, -100.), s.ndot.value)
''', nth=0)
bug('C24-temperature-of-inlet-object', [(MO, "stream.T() - stream.T.value) for stream in main_model._inlets]", "stream.T() - round(stream.T.value, 2)) for stream in main_model._inlets]")],
    'inlet streams with temperatures of more than two decimals', 'The temperature of the inlets is rounded, so that the equations of the unit contradict the streams.', PACK + '''
ss = [stream(name='S%d' % i, T=300.1234 + i, P=1e5, mdot=1.) for i in range(2)]
u = Model('U')
with quiet():
    u._setInlets(ss)
    u()
r = residuals(u, {'P_in_U': 1e5, 'T_in_U': 300.1234, 'P_S0': 1e5, 'P_S1': 1e5, 'T_S0': 300.1234, 'T_S1': 301.1234})
check(all(abs(v) < 1e-9 for v in r.values()), r)
''')
bug('C20-fraction-of-moles', [(UL, "exec(\"_mass_conservation_i = self.w_{}_out() - self.w_{}_in()\".format(phase_i, phase_i))", "exec(\"_mass_conservation_i = self.w_{}_out() - self.z_{}_in()\".format(phase_i, phase_i))")],
    'a multiphasic pump with different mass and mole fractions', 'A pump gives the mole fractions in as mass fractions out.', PACK + '''
pp = package('a', 'b')
u = L.SimplePump('U', property_package=pp)
u.Delta_P.setValue(10.)
with quiet():
    u()
r = residuals(u, {'P_in_U': 1e5, 'P_out_U': 1e5 + 10, 'z_a_in_U': .3, 'z_a_out_U': .3, 'z_b_in_U': .7, 'z_b_out_U': .7,
                  'w_a_in_U': .2, 'w_a_out_U': .2, 'w_b_in_U': .8, 'w_b_out_U': .8})
check(all(abs(v) < 1e-9 for v in r.values()), r)
''', nth=2)
bug('C20-density-of-construction', [(UL, "self.perc_open = self.createParameter(\"perc_open\", dimless, \"percentage of opening\", latex_text=\"{\\\\%}_{open}\")", "self.perc_open = self.createParameter(\"perc_open\", dimless, \"percentage of opening\", latex_text=\"{\\\\%}_{open}\"); self._rho = self.property_package[\"*\"].rho"),
                                    (UL, "mix_rho.setValue(self.property_package[\"*\"].rho)", "mix_rho.setValue(self._rho)")],
    'a stream that brings the package to its conditions after the valve was created', 'The valve uses the density of the package when it was created.', PACK + '''
pp = package('a')
v = L.Valve('V', property_package=pp)
v.Delta_P.setValue(0.)
v.perc_open.setValue(1.)
pp['a'].rho = 450.
with quiet():
    v()
r = residuals(v, {'Qdot_out_V': 2., 'mdot_out_V': 900., 'mdot_in_V': 900.})
check(abs(r['vol_flux_balance_V']) < 1e-9, r)
''')
bug('C20-shut-valve', [(UL, "_volumetric_flux = self.Qdot_out() - self.perc_open()*(self.mdot_out()/mix_rho())", "_volumetric_flux = self.Qdot_out() - (self.perc_open() if self.perc_open.value else 1)*(self.mdot_out()/mix_rho())")],
    'a valve that is fully shut', 'A shut valve lets everything through.', PACK + '''
v = L.Valve('V', property_package=package('a'))
v.Delta_P.setValue(0.)
v.perc_open.setValue(0.)
with quiet():
    v()
r = residuals(v, {'Qdot_out_V': 0., 'mdot_out_V': 900., 'mdot_in_V': 900.})
check(abs(r['vol_flux_balance_V']) < 1e-9, r)
''')
bug('C20-pump-as-turbine', [(UL, "_mechanical_equilibrium = self.P_out() - self.P_in() - self.Delta_P()", "_mechanical_equilibrium = self.P_out() - self.P_in() - (self.Delta_P() if self.Delta_P.value >= 0 else -1*self.Delta_P())")],
    'a pump with a negative gain', 'A pump whose gain is negative raises the pressure.', PACK + '''
u = L.SimplePump('U', property_package=package('a'))
u.Delta_P.setValue(-50.)
with quiet():
    u()
r = residuals(u, {'P_in_U': 100., 'P_out_U': 50.})
check(abs(r['mechanical_equilibrium_U']) < 1e-9, r)
''')
bug('C20-half-the-species', [(UL, "for phase_i in self.property_package.phase_names[:-1]:", "for phase_i in self.property_package.phase_names[:2]:")],
    'a multiphasic mixer with other than three species', 'A mixer of four species lets the fractions of the third free.', PACK + '''
u = L.Mixer('U', property_package=package('a', 'b', 'c', 'd'))
check('mass_conservation_for_c_U' in u.equations and 'molar_conservation_for_c_U' in u.equations, list(u.equations))
''')
bug('C20-cooling-by-moles', [(UL, "_temperature_balance = self.T_out() - self.T_in() - (self.Q()/(self.mdot_out()*self.cp_mix()))", "_temperature_balance = (self.T_out() - self.T_in() - (self.Q()/(self.mdot_out()*self.cp_mix()))) if self.Q.value >= 0 or self.Q.is_specified is not True else (self.T_out() - self.T_in() - (self.Q()/(self.mdot_in()*self.cp_mix()))*2)")],
    'a heater that cools', 'A heater with negative heat cools twice as much.', PACK + '''
u = L.Heater('U', property_package=package('a'))
u.Q.setValue(-8000.)
u.Delta_P.setValue(0.)
with quiet():
    u()
r = residuals(u, {'T_in_U': 300., 'T_out_U': 298., 'mdot_in_U': 1., 'mdot_out_U': 1., 'cp_mix_U': 4000., 'Q_U': -8000.})
check(abs(r['temperature_balance_U']) < 1e-9, r)
''', nth=0)

PLOT = '''
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from sloth.plotter import Plotter
drawn = []


def save(*a, **k):
    drawn.append([(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_label(), l.get_marker()) for ax in plt.gcf().get_axes() for l in ax.get_lines()])


plt.savefig = save


'''
bug('C22-decimated', [(PL, "plt.xlabel(x_label)", "[l_.set_data(l_.get_xdata()[::2], l_.get_ydata()[::2]) for l_ in plt.gca().get_lines() if len(l_.get_xdata()) > 200]; plt.xlabel(x_label)")],
    'series of more than 200 points', 'Long series are drawn with every other point.', PLOT + '''
x = np.linspace(0, 1, 301)
Plotter().plotTimeSeries([x], [x**2], show_plot=False, save_file='a.png')
check(len(drawn[0][0][0]) == 301, len(drawn[0][0][0]))
''')
bug('C22-second-domain', [(PL, "ind_var_ = list(data.independent_vars.keys())[0]", "ind_var_ = list(data.independent_vars.keys())[-1]")],
    'a domain over two independent variables', 'The values of the second independent variable are drawn as the abscissa asked for.', PLOT + '''
M = Model('M')
t, u, x = M.createVariable('t', s), M.createVariable('u', m), M.createVariable('x', dimless)
d = Domain('d', s, [t, u], 'd')
x.distributeOnDomain(d)
with quiet():
    d()
d._register(np.array([[0., 0., 1.], [1., 0., 2.]]), t)
d._register(np.array([[5., 5., 8.], [6., 6., 9.]]), u)
Plotter().plotTimeSeries('t_M', ['x_M'], show_plot=False, save_file='a.png', data=d)
check(list(drawn[0][0][1]) == [1., 2.], drawn)
''', nth=1)
bug('C22-kept-when-saved', [(PL, "plt.clf()", "plt.clf() if show_plot is not False or save_file is None or labels is None else None")],
    'a plot that is only saved, with labels, followed by another', 'A plot that was only saved stays under the next one.', PLOT + '''
x = np.linspace(0, 1, 5)
for k in (1, 2):
    Plotter().plotTimeSeries([x], [k*x], show_plot=False, save_file='a.png', labels=['a'])
check(len(drawn[1]) == 1, '%d curves' % len(drawn[1]))
''')
bug('C22-marker-by-abscissa', [(PL, "marker=markers[j],", "marker=markers[max(i, j) if len(x_data) > 1 and i < len(markers) else j],")],
    'several abscissas and several markers', 'The marker of a curve depends on its abscissa.', PLOT + '''
x = np.linspace(0, 1, 5)
Plotter().plotTimeSeries([x, 2*x], [x, x**2], show_plot=False, save_file='a.png', markers=['o', 'x'])
check(sorted(l[3] for l in drawn[0]) == ['o', 'o', 'x', 'x'], [l[3] for l in drawn[0]])
''')
bug('C22-sorted-abscissa', [(PL, "plt.plot(x_data[i].reshape(-1),", "plt.plot(__import__('numpy').sort(x_data[i].reshape(-1)),")],
    'an abscissa that is not increasing (a phase portrait)', 'The abscissas of a phase portrait are sorted.', PLOT + '''
x = np.array([3., 1., 2.])
Plotter().plotTimeSeries([x], [np.array([1., 2., 3.])], show_plot=False, save_file='a.png')
check(list(drawn[0][0][0]) == [3., 1., 2.], drawn[0][0][0])
''', nth=1)
bug('C22-names-once', [(PL, "y_data = (ind_var_ ,y_data)", "y_data = (ind_var_ ,sorted(y_data))")],
    'names asked in another order than the alphabetical, with labels', 'Curves asked by name come with the labels of others.', PLOT + '''
M = Model('M')
t, a, b = M.createVariable('t', s), M.createVariable('a', dimless), M.createVariable('b', dimless)
d = Domain('d', s, t, 'd')
a.distributeOnDomain(d)
b.distributeOnDomain(d)
with quiet():
    d()
d._register(np.array([[0., 1., 10.], [1., 2., 20.]]), t)
Plotter().plotTimeSeries('t_M', ['b_M', 'a_M'], show_plot=False, save_file='a.png', data=d, labels=['B', 'A'])
check([list(l[1]) for l in drawn[0] if l[2] == 'B'] == [[10., 20.]], drawn)
''')

REP = '''
def rows(text):
    return [[x.strip() for x in l.strip().strip('|').split('|')] for l in str(text).splitlines() if l.strip().startswith('|')][1:]


'''
bug('C21-time-left-out', [(AN, "var_str = [obj_i for obj_i in symb_map if isinstance(symb_map[obj_i], Variable)]", "var_str = [obj_i for obj_i in symb_map if isinstance(symb_map[obj_i], Variable) and symb_map[obj_i].is_specified is not True]")],
    'an equation with a specified variable', 'Specified variables are left out of the report.', REP + '''
from sloth.analysis import Analysis
M = Model('M')
x, y = M.createVariable('x', dimless), M.createVariable('y', dimless)
y.setValue(2.)
M.createEquation('e', '', x() - 3*y())
r = rows(Analysis().modelReport(M))[0]
check('y_M' in r[3], r)
''')
bug('C21-repeated-description', [(AN, "eq_description = model.equations[eq_i].description", "eq_description = model.equations[eq_i].description if not model.equations[eq_i].description.startswith('[') else ''")],
    'an equation whose description starts with a bracket (that of a connection)', 'Connections are reported without description.', REP + '''
from sloth.analysis import Analysis
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e', '[SI] balance', x() - 3)
r = rows(Analysis().modelReport(M))[0]
check(r[1] == '[SI] balance', r)
''')
bug('C21-parameter-of-constant', [(AN, "con_str = [\"{}{}\".format(obj_i, '(*)'*(symb_map[obj_i].is_specified==True)) for obj_i in symb_map if isinstance(symb_map[obj_i], Constant)]", "con_str = [\"{}{}\".format(obj_i, '(*)'*(symb_map[obj_i].is_specified==True)) for obj_i in symb_map if isinstance(symb_map[obj_i], Constant) and not (symb_map[obj_i].is_specified and symb_map[obj_i].value == 0)]")],
    'a constant whose value is zero', 'Constants of value zero are left out of the report.', REP + '''
from sloth.analysis import Analysis
M = Model('M')
x, k = M.createVariable('x', dimless), M.createConstant('k', dimless)
k.setValue(0.)
M.createEquation('e', '', x() - k())
r = rows(Analysis().modelReport(M))[0]
check('k_M(*)' in r[5], r)
''')
bug('C21-one-row-per-text', [(AN, "for eq_i in model.equations:", "for eq_i in {repr(e_.equation_expression):k_ for k_, e_ in model.equations.items()}.values():")],
    'two equations written the same', 'Of equations that are written the same only one is reported.', REP + '''
from sloth.analysis import Analysis
M = Model('M')
x = M.createVariable('x', dimless)
M.createEquation('e1', 'a', x() - 3)
M.createEquation('e2', 'b', x() - 3)
check(len(rows(Analysis().modelReport(M))) == 2, 'rows')
''')
bug('C23-small-units', [(QU, "if self.units._check_dimensional_coherence(other_obj.units) == True:", "if self.units._check_dimensional_coherence(other_obj.units) == True or other_obj.value == 0:")],
    'the difference with a quantity of another dimension whose value is zero', 'A quantity of value zero is subtracted from anything.', '''
a, b = Parameter('a', kg, value=2.), Parameter('b', s, value=0.)
check(refused(lambda: a - b), 'kg - s accepted')
check(not refused(lambda: a - a), 'kg - kg')
''', nth=1)
bug('C04-other-kinds', [(QU, "if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:", "if quantity_unit == None and  (quantity_value.units._check_dimensional_coherence(self.units) == True or quantity_value.name == self.name):")],
    'the value taken from an object of the same name in other units', 'An object of the same name gives its value whatever its unit.', '''
a, b = Variable('k', kg), Variable('k', s, value=3.)
check(refused(lambda: a.setValue(b)), 'kg = s accepted')
check(a.value == 0 and a.is_specified is False, 'state')
''')
