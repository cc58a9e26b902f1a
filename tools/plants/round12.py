"""Planted bugs, another round: optimizations put together in unusual orders, and flows of any magnitude."""
BUGS = []


def bug(id, edits, needs, breaks, demo, nth=None):
    BUGS.append({'id': id, 'property': id[:3], 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'nth': nth})


OP, UL = 'optimization.py', 'unit_op_library.py'

HEAD = '''
import atexit, json, os, shutil, tempfile
D = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, D)
os.chdir(D)
from sloth.optimization import OptimizationProblem, Optimization
class Plain:
    name = 'plain'
    def __init__(self, configurations):
        self.configurations = configurations
def study(low, n=2, value=lambda x: float(sum(x)), seen=None, **kw):
    class O(OptimizationProblem):
        def DeclareObjectiveFunction(self, x):
            if seen is not None:
                seen.append((list(x), self.simulation_configuration))
            return [value(x)]
    o = O(n, bounds=[[low]*n, [low + 1.]*n], **kw)
    o()
    return o
'''

bug('C19-replaced-while-ready', [(OP, '''
    self.optimization_problem = optimization_problem
  def _getConstraintsOnTheFly(self):
''', '''
    if not self.optimization_problem._is_ready:
      self.optimization_problem = optimization_problem
  def _getConstraintsOnTheFly(self):
''')], 'the problem of a study replaced when the first one was resolved already', 'The replaced problem is still the one that is optimized.', HEAD + '''
op = Optimization(Plain({}), study(0.), ['a', 'b'], optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2})
op.setOptimizationProblem(study(5.))
with quiet():
    op.runOptimization()
check(all(5 <= v <= 6 for v in op.getResults()[0]), str(op.getResults()))
''')
bug('C19-file-over-simulation', [(OP, 'self.simulation_configuration = json.load(read_file)', 'self.simulation_configuration = {**(simulation.configurations or {}), **json.load(read_file)}')],
    'the configuration of the simulation read from a file, of a simulation configured already', 'The configuration in the file is mixed with that of the simulation.', HEAD + '''
with open('c.json', 'w') as f:
    json.dump({'b': 2}, f)
seen = []
op = Optimization(Plain({'a': 1}), study(0., seen=seen), ['a', 'b'], simulation_configuration='c.json', optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2})
with quiet():
    op.runOptimization()
check(all(s[1] == {'b': 2} for s in seen), seen[0][1])
''')
bug('C19-uniform-mutates-less', [(OP, 'm = mr', "m = mr if mutation_type != 'uniform' else mr/ind")],
    'a genetic algorithm with uniform mutation', 'The rate of mutation is not the configured one.', HEAD + '''
op = Optimization(Plain({}), study(0.), ['a', 'b'], optimizer='ga', optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 2, 'mutation_type': 'uniform', 'mutation_rate': .5})
t = op.optimization_mechanism.get_extra_info()
check('Probability: 0.5' in t.split('Mutation:')[1].split('Selection:')[0], t)
''')
PACK = '''
import sloth.unit_op_library as L
from sloth.core.property_package import PropertyPackage


class Species:
    def __init__(self, MW, rho=900., Cp=4000.):
        self.MW, self.rho, self.Cp, self.calls = MW, rho, Cp, []

    def calculate(self, T, P):
        self.calls.append((T, P))


def package(*names, MW=20.):
    pp = PropertyPackage(0, [])
    pp.number_of_phases = len(names)
    pp.phase_names = list(names)
    pp.phases = {n: Species(MW) for n in names}
    return pp


def stream(cls='MaterialStream', name='S', pp=None, **values):
    with quiet():
        s = getattr(L, cls)(name, property_package=pp or package('a'))
        for k, v in values.items():
            getattr(s, k).setValue(v)
        s()
    return s


def residuals(u, x):
    out = {}
    for e in u.equations.values():
        at = {n: float(x[n]) if n in x else float(o.value) for n, o in e.objects_declared.items()}
        out[e.name] = float(e.eval({n: v for n, v in at.items() if e.objects_declared[n].is_specified is not True}))
    return out


'''

bug('C20-turbulent-valve', [(UL, 'self.perc_open()*(self.mdot_out()/mix_rho())', 'self.perc_open()*Min(self.mdot_out()/mix_rho(), 10.)')],
    'a valve with more than 10 m3/s', 'The flow by volume of a valve saturates.', PACK + '''
v = L.Valve('V', property_package=package('a'))
v.Delta_P.setValue(0.)
v.perc_open.setValue(1.)
with quiet():
    v()
r = residuals(v, {'Qdot_out_V': 30., 'mdot_out_V': 27000., 'mdot_in_V': 27000.})
check(abs(r['vol_flux_balance_V']) < 1e-6, r)
''')
