"""C07: bystanders. Independent actors (models, problems, simulations, domains, packages, unit operations, optimizations...)
make their steps interleaved, with the same names; after every step the snapshots of all the others must be what they were.
Each actor also runs alone in a pristine process: what it did and what it became there is the reference."""
import copy
import json
import os
import pickle
import random
import signal
from collections import OrderedDict

import numpy as np

from harness import expr as X
from harness import systems as S
from harness.core import Check, Violation
from checks.c24 import package

NAMES = ['M', 'M1', 'A', 'S1', 'tank']


# -- snapshots: plain data, of what a user sees ---------------------------------------------------

def plain(o):
    if o is None or isinstance(o, (str, int, bool)):
        return o
    if isinstance(o, (float, np.floating, np.integer)):
        return float(o)
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if hasattr(o, 'dimension') or hasattr(o, 'name'):
        return '<%s %s>' % (type(o).__name__, getattr(o, 'name', ''))
    try:
        return float(o)
    except Exception:
        return '<%s>' % type(o).__name__


def unit(u):
    return sorted((k, float(v)) for k, v in u.dimension.items())


def quantity(q):
    return [q.name, type(q).__name__, plain(q.value), bool(q.is_specified), unit(q.units), q.description,
            plain([getattr(q, a, None) for a in ('lower_bound', 'upper_bound', 'is_exposed', 'type', 'owner_model_name')])]


def node(n):
    return [unit(n.unit_object), n.equation_type, sorted(map(str, n.symbolic_map)), sorted(map(str, n.variable_map)), str(n.symbolic_object)]


def equation(e):
    return [e.name, e.description, e.type, sorted(e.objects_declared), node(e.equation_expression)]


def model(m):
    return {'name': m.name, 'description': m.description,
            'variables': [(k, quantity(v)) for k, v in m.variables.items()], 'parameters': [(k, quantity(v)) for k, v in m.parameters.items()],
            'constants': [(k, quantity(v)) for k, v in m.constants.items()], 'equations': [(k, equation(e)) for k, e in m.equations.items()],
            'exposed': {s: sorted({v.name for v in m.exposed_vars[s]}) for s in m.exposed_vars},
            'ports': {s: {k: [i.name for i in l] for k, l in m.ports[s].items()} for s in m.ports},
            'inlets': [i.name for i in m._inlets], 'package': pack(m.property_package) if m.property_package is not None else None}


def problem(p):
    b = p.equation_block
    return {'name': p.name, 'models': list(p.models), 'initial': plain(p.initial_conditions), 'time': plain(p.time_variable_name),
            'connections': sorted(map(str, p.connections)),
            'block': None if b is None else [[e.name for e in b.equations], list(map(str, b._var_list)), p._getProblemType()]}


def simulation(s):
    try:
        r = plain(s.getResults('dict'))
    except Exception as ex:
        r = type(ex).__name__
    return {'name': s.name, 'problem': s.problem.name if s.problem is not None else None, 'configurations': plain(s.configurations),
            'results': r}


def domain(d):
    return {'name': d.name, 'unit': unit(d.units), 'bounds': plain([d.lower_bound, d.upper_bound]), 'over': list(d.independent_vars),
            'dependent': list(d.dependent_objs),
            'values': None if d.values is None else {k: {c: plain(f[c].tolist()) for c in f.columns} for k, f in d.values.items()}}


def pack(p):
    return {'names': list(p.phase_names), 'n': p.number_of_phases, 'T': plain(p.T), 'P': plain(p.P), 'ws': plain(p.ws), 'zs': plain(p.zs),
            'phases': {k: [plain(getattr(v, a, None)) for a in ('T', 'P', 'MW', 'rho', 'Cp', 'calls')] for k, v in p.phases.items()}}


def objective(o):
    return {'name': o.name, 'dim': o.dim, 'bounds': plain(o.bounds), 'max': o.is_maximization,
            'ready': o._is_ready, 'simulation': getattr(o.simulation_instance, 'name', None), 'conf': plain(o.simulation_configuration)}


def optimization(o):
    return {'conf': plain(o.optimization_configuration), 'constraints': plain(o.constraints), 'best': plain([o.best_parameters, o.best_fitness]),
            'parameters': plain(o.optimization_parameters), 'optimizer': o.optimizer, 'max': o.is_maximization,
            'args': plain([o.additional_args, o.constraints_additional_args]), 'simulation': plain(o.simulation_configuration)}


SNAP = [('Model', model), ('Problem', problem), ('Simulation', simulation), ('Domain', domain), ('PropertyPackage', pack),
        ('OptimizationProblem', objective), ('Optimization', optimization), ('Quantity', quantity), ('EquationNode', node),
        ('Equation', equation), ('Unit', lambda u: [u.name, unit(u)])]


def snap(o):
    names = [b.__name__ for b in type(o).__mro__]
    for n, f in SNAP:
        if n in names:
            return plain(f(o))
    raise TypeError(names)


# -- actors: generators of steps; each step yields what happened ------------------------------------

class Actor:
    def __init__(self, rng):
        self.rng, self.things, self.trace = rng, [], []
        self.name = rng.choice(NAMES)

    def add(self, *things):
        self.things.extend(things)
        return things[0]

    def attempt(self, fn):
        """A step that may be refused."""
        try:
            fn()
            return 'done'
        except Exception as ex:
            return 'refused: ' + type(ex).__name__


def user_classes():
    """Classes of the user, each used by several actors."""
    from sloth.model import Model
    from sloth.simulation import Simulation
    from sloth.optimization import OptimizationProblem
    from sloth.core.template_units import dimless, kg, s

    class Tank(Model):
        def __init__(self, name, k, b):
            super().__init__(name, 'a tank')
            self.k_, self.b_ = k, b
            self.x = self.createVariable('x', dimless, 'x', is_exposed=True, type='input', lower_bound=0., upper_bound=10.)
            self.y = self.createVariable('y', dimless, 'y', is_exposed=True, type='output')
            self.k = self.createParameter('k', dimless, 'k', k)
            self.m = self.createConstant('m', kg / s, 'm')
            self.m.setValue(2.)

        def DeclareParameters(self):
            self.k.setValue(self.k_)

        def DeclareEquations(self):
            self.e = self.createEquation('e', 'of the tank', self.y() - self.k() * self.x() - self.b_)

    class MySim(Simulation):
        pass

    class Bowl(OptimizationProblem):
        def DeclareObjectiveFunction(self, x):
            return [sum((float(v) - .3) ** 2 for v in x)]
    return Tank, MySim, Bowl


class Tanks(Actor):
    """Models, made of a class or step by step, and a problem that connects them."""

    def run(self, T):
        from sloth.problem import Problem
        rng = self.rng
        Tank, MySim, Bowl = T
        k, b = rng.uniform(.5, 2), rng.uniform(-3, 3)
        a = self.add(Tank(self.name, k, b))
        yield 'tank'
        a()
        yield 'declared'
        z = self.add(Tank(self.name + 'b', rng.uniform(.1, .4), 1.))
        z()
        yield 'second tank'
        p = self.add(Problem(rng.choice(NAMES)))
        yield 'problem'
        p.addModels([a, z] if rng.random() < .5 else a)
        yield 'models added'
        if z.name not in p.models:
            p.addModels(z)
        yield self.attempt(lambda: p.createConnection(a, z, a.x, z.y))
        p.createConnection(a, z, a.y, z.x)
        yield 'connected'
        p.createConnection(z, a, z.y, a.x)
        yield 'connected back'
        p.resolve()
        yield 'resolved'
        sim = self.add(MySim(rng.choice(NAMES)))
        sim.setProblem(p)
        yield 'simulation'
        conf = {'linear_solver': rng.choice(['sympy', 'symbolicsys', 'scipy'])}
        if rng.random() < .5:
            conf['initial_guess'] = {q.name: 1. for q in (a.x, a.y, z.x, z.y)}
        if rng.random() < .5:
            conf['variable_name_map'] = {'x': 'X'}
        sim.setConfigurations(**conf)
        yield 'configured'
        if rng.random() < .5:
            for n in ('initial_guess', 'variable_name_map', 'configuration_args'):
                sim.configurations[n]['added'] = 1.
            for n in ('args', 'arg_names'):
                sim.configurations[n].append('added')
            yield 'configurations changed by hand'
            sim.setConfigurations(**conf)
            yield 'configured'
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
        yield 'run'
        a.k.setValue(k / 2)
        yield 'parameter set'
        p.resolve()
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
        yield 'run again'
        if rng.random() < .5:
            p.setInitialConditions({a.x.name: 3.})
            yield 'conditions'
            sim.report(p)
            yield 'reported'


class Declared(Actor):
    """A model built object by object."""

    def run(self, T):
        from sloth.model import Model
        from sloth.core.template_units import dimless
        rng = self.rng
        m = self.add(Model(self.name))
        for i in range(rng.randint(3, 7)):
            n = rng.choice(['x', 'y', 'k', 'M']) + str(i)
            kind = rng.choice(['var', 'var', 'par', 'con'])
            if kind == 'var':
                ex = rng.choice(['', 'input', 'output'])
                q = m.createVariable(n, dimless, 'd%d' % i, **({'is_exposed': True, 'type': ex} if ex else {}))
            elif kind == 'par':
                q = m.createParameter(n, dimless, '', rng.uniform(0, 2))
            else:
                q = m.createConstant(n, dimless, '', 3)
            if rng.random() < .4:
                q.setValue(rng.uniform(-2, 2))
            if rng.random() < .6:
                m.createEquation('e%d' % i, '', q() * q() - 2. + q())
            yield 'object %d' % i
        yield self.attempt(lambda: m.createEquation('bad', '', Model('other').createVariable('zz', dimless, '')() - 1.))
        m.ports['inlets']['more'] = []
        yield 'port'
        m()
        yield 'declared'


class Expressions(Actor):
    """Units, quantities and expressions."""

    def run(self, T):
        from sloth.core.unit import Unit
        from sloth.core.equation import Equation
        from sloth.core import template_units as U
        from sloth.core import equation_operators as O
        rng = self.rng
        qs = X.standalone([X.Qty(n, k, X.mkdim({'m': rng.choice([0, 1])}), rng.uniform(.5, 2), rng.random() < .4)
                           for n, k in zip(rng.sample(['x', 'y', 'z', 'k'], 3), ('var', 'par', 'con'))])
        for q in qs:
            self.add(q.obj)
        yield 'quantities'
        u = self.add(Unit('u', {'m': rng.choice([1, 2]), 's': -1}))
        for _ in range(3):
            u = self.add(rng.choice([lambda: u * U.m, lambda: u / U.s, lambda: u ** 2, lambda: U.kg * u])())
            yield 'units'
        for _ in range(rng.randint(2, 5)):
            e = X.rnd_expr(rng, qs, rng.randint(1, 3))
            if e is None:
                continue
            n = X.realise(e)
            if hasattr(n, 'unit_object'):
                self.add(n)
                yield 'expression'
                self.add(n * 2. + n)
                yield 'expression of it'
                self.add(Equation(rng.choice(NAMES), '', n - n * .5))
                yield 'equation'
        yield self.attempt(lambda: qs[0].obj() + O.Exp(qs[0].obj()))


class Moving(Actor):
    """A dynamic problem, with its domain."""

    def run(self, T):
        rng = self.rng
        s = S.ode(rng, forms=('elementary',), nmodels=1, style='direct', n=rng.randint(1, 2))
        s.build()
        self.add(*s.models)
        self.add(s.domain)
        yield 'dynamic model'
        p = self.add(s.make_problem(rng.choice(NAMES)))
        yield 'dynamic problem'
        p.setInitialConditions(dict(s.x0, **{s.time.name: 0.}))
        yield 'initial conditions'
        from sloth.simulation import Simulation
        sim = self.add((T[1] if rng.random() < .5 else Simulation)(rng.choice(NAMES)))
        sim.setProblem(p)
        sim.setConfigurations(initial_time=0., end_time=1., is_dynamic=True, domain=s.domain, number_of_time_steps=4, time_variable_name=s.time.name,
                              differential_solver=rng.choice(['ODEINT', 'CVODE']), compile_equations=rng.random() < .5)
        yield 'dynamic configuration'
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
        yield 'dynamic run'
        sim.reset()
        yield 'reset'
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
        yield 'dynamic run'
        p.setInitialConditions({n: v + 1 for n, v in dict(s.x0, **{s.time.name: 0.}).items()})
        yield 'other conditions'


class Domains(Actor):
    def run(self, T):
        from sloth.core.domain import Domain
        from sloth.core.variable import Variable
        from sloth.core.template_units import dimless, s
        rng = self.rng
        t = self.add(Variable('t', s))
        d = self.add(Domain(self.name, dimless, t))
        yield 'domain'
        vs = [self.add(Variable(n, dimless)) for n in rng.sample(['x', 'y', 'z'], rng.randint(1, 3))]
        for v in vs:
            v.distributeOnDomain(d)
            yield 'distributed'
        d._register(np.array([[rng.uniform(0, 1) for _ in range(len(vs) + 1)] for _ in range(3)]))
        yield 'registered'
        d.lower_bound['t'] = 0.
        d.upper_bound['all'] = rng.uniform(1, 2)
        yield 'bounds'
        d._reset()
        yield 'emptied'
        d._register(np.array([[1.] * (len(vs) + 1)]))
        yield 'registered'


class Units(Actor):
    """Streams and unit operations with their packages."""

    def run(self, T):
        import sloth.unit_op_library as L
        from sloth.problem import Problem
        from sloth.model import Model
        rng = self.rng
        MW = rng.choice([18., 92.])
        def mk():
            p = package(rng, [rng.choice(['water', 'f1'])], MW)
            return self.add(p)
        streams = []
        for i in range(rng.randint(1, 2)):
            st = self.add(L.HomogeneousMaterialStream('S%d' % i, property_package=mk()))
            yield 'stream'
            for n, v in (('mdot', rng.uniform(1, 2)), ('T', 300. + i), ('P', 1e5), ('H', 100.)):
                st.parameters['%s_%s' % (n, st.name)].setValue(v)
            yield 'specified'
            st()
            yield 'stream declared'
            streams.append(st)
        f = self.add(rng.choice([lambda: L.Mixer('F' + self.name, property_package=mk()), lambda: Model('F' + self.name)])())
        yield 'unit to feed'
        f._setInlets(streams)
        yield 'inlets'
        f()
        yield 'fed'
        kind = rng.choice(['Valve', 'SimplePump', 'Heater'])
        u = self.add(getattr(L, kind)(self.name, property_package=mk()))
        yield kind
        for n, v in (('Delta_P', 100.), ('perc_open', .5), ('Q', 1e3)):
            if hasattr(u, n):
                getattr(u, n).setValue(v)
        for n, v in (('T', 300.), ('P', 2e5), ('mdot', MW * 1e-3 * 2), ('ndot', 2.), ('H', 100.)):
            u.variables['%s_in_%s' % (n, u.name)].setValue(v)
            yield 'inlet specified'
        u()
        yield 'unit declared'
        v = self.add(L.Valve('V' + self.name, property_package=mk()))
        v.Delta_P.setValue(10.)
        v.perc_open.setValue(.5)
        v()
        yield 'valve'
        p = self.add(Problem(self.name))
        p.addModels([u, v])
        for n in ('P', 'T', 'mdot', 'ndot', 'H'):
            p.createConnection(u, v, getattr(u, n + '_out'), getattr(v, n + '_in'))
        yield 'connected'
        p.resolve()
        yield 'resolved'
        sim = self.add(T[1]('S'))
        sim.setProblem(p)
        guess = {str(n): {'T': 310., 'P': 1.9e5, 'm': MW * 2e-3, 'n': 2., 'H': 120.}.get(str(n)[0], 1.) for n in p.equation_block._var_list}
        sim.setConfigurations(initial_guess=guess)
        yield 'configured'
        sim.runSimulation(show_output_msg=False, show_final_residuals=False)
        yield 'run'


class Packages(Actor):
    def run(self, T):
        from sloth.core.property_package import PropertyPackage
        rng = self.rng
        p = self.add(PropertyPackage(0, []) if rng.random() < .5 else PropertyPackage(0, [], ws=[.5], zs=[.5]))
        yield 'package'
        q = self.add(package(rng, ['water']))
        yield 'another'
        p.phase_names.append('water')
        p.phases['water'] = q['water']
        yield 'species by hand'
        p.ws.append(.25)
        p.ws[0] = rng.uniform(0, 1)
        yield 'fractions by hand'
        p.calculate(T=rng.uniform(250, 350), P=2e5)
        yield 'calculated'
        q.set_T(300.)
        yield 'temperature'
        r = self.add(package(rng, ['water', 'f1']))
        p + r
        yield 'combined'


class Real(Actor):
    """A package of a real species."""

    def run(self, T):
        from sloth.core.property_package import PropertyPackage
        rng = self.rng
        p = self.add(PropertyPackage())
        yield 'package'
        p.calculate(T=rng.uniform(280, 350), P=101325.)
        yield 'calculated'


class Searches(Actor):
    """Optimization studies of a plain objective."""

    def run(self, T):
        import pygmo
        from checks.c19 import Dummy, silent
        from sloth.optimization import Optimization
        rng = self.rng
        n = rng.randint(1, 2)
        o = self.add(T[2](n, self.name, **({'bounds': [[-1.] * n, [1.] * n]} if rng.random() < .5 else {})))
        yield 'objective'
        kw = {}
        if rng.random() < .6:
            kw['optimization_configuration'] = {'number_of_individuals': 8, 'number_of_generations': rng.choice([2, 3])}
        pygmo.set_global_rng_seed(5)
        opt = self.add(Optimization(Dummy(), o, ['p%d' % i for i in range(n)], simulation_configuration={'a': 1},
                                    optimizer=rng.choice(['de', 'ga', 'sade', 'pso']), **kw))
        yield 'study'
        opt.optimization_configuration['number_of_generations'] = 2
        yield 'generations'
        opt.additional_args.append(1)
        opt.constraints_additional_args.append(2)
        yield 'arguments'
        opt.setConstraints([[-2.] * n, [rng.uniform(1, 2)] * n])
        yield 'constraints'
        yield self.attempt(opt.runOptimization)
        o()
        yield 'ready'
        pygmo.set_global_rng_seed(7)
        with silent():
            opt.runOptimization(print_output=False)
        yield 'search'


KINDS = [Tanks, Tanks, Declared, Expressions, Moving, Domains, Units, Units, Packages, Searches]


# -- processes --------------------------------------------------------------------------------------

def apart(fn, seconds=200):
    """fn() in a process of its own, forked from this one; its answer, or the error."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            os.close(r)
            signal.alarm(seconds)
            try:
                res = ('ok', fn())
            except Violation as v:
                res = ('violation', v.msg, json.loads(json.dumps(v.detail, default=str)))
            except Exception as ex:
                import traceback
                res = ('error', type(ex).__name__ + ': ' + str(ex)[:300], traceback.format_exc()[-2500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'the process died', '')


def fresh():
    """What new objects look like."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    from sloth.core.domain import Domain
    from sloth.core.variable import Variable
    from sloth.core.property_package import PropertyPackage
    from sloth.core import template_units as U
    from sloth.core.unit import Unit
    from sloth.core.equation import Equation
    from sloth.optimization import Optimization, OptimizationProblem
    import sloth.unit_op_library as L
    out = {}

    def own():
        return package(random.Random(3), ['water'], 18.)
    v = Variable('v', U.dimless)
    m = Model('fresh')
    p = Problem('fresh')
    s = Simulation('fresh')
    s.setProblem(p)
    s.setConfigurations()
    o = OptimizationProblem(1)
    for n, t in (('model', m), ('problem', p), ('simulation', s), ('domain', Domain('fresh', U.dimless, v)), ('package', PropertyPackage(0, [])),
                 ('variable', v), ('expression', v()), ('equation', Equation('e', '', v() - 1.)), ('objective', o),
                 ('optimization', Optimization(s, o, ['a'])), ('stream', L.HomogeneousMaterialStream('fresh')), ('valve', L.Valve('fresh', property_package=own())),
                 ('mixer', L.Mixer('fresh', property_package=own()))):
        out[n] = snap(t)
    out['units'] = {n: unit(u) for n, u in vars(U).items() if isinstance(u, Unit)}
    return out


def alone(kind, seed):
    a = kind(random.Random(seed))
    T = user_classes()
    steps = [str(w) for w in a.run(T)]
    return steps, [snap(t) for t in a.things]


def together(c, kinds, seeds, order_seed):
    rng = random.Random(order_seed)
    T = user_classes()
    actors = [k(random.Random(s)) for k, s in zip(kinds, seeds)]
    gens = [a.run(T) for a in actors]
    for a in actors:
        a.steps = []
    history, ev = [], {'steps': 0, 'snapshots compared': 0}
    live = list(range(len(actors)))
    before = {i: [] for i in live}
    burst = rng.choice([1, 1, 3, 50])
    while live:
        i = rng.choice(live)
        for _ in range(rng.randint(1, burst)):
            try:
                w = str(next(gens[i]))
            except StopIteration:
                live.remove(i)
                break
            actors[i].steps.append(w)
            history.append('%s %d: %s' % (type(actors[i]).__name__, i, w))
            ev['steps'] += 1
            for j, a in enumerate(actors):
                if j == i:
                    before[j] = [snap(t) for t in a.things]
                    continue
                for t, old in zip(a.things, before[j]):
                    now = snap(t)
                    ev['snapshots compared'] += 1
                    if now != old:
                        raise Violation('%s %d (%s) changed %s of %s %d' % (type(actors[i]).__name__, i, w, plain(t), type(a).__name__, j),
                                        before=diff(old, now)[0], after=diff(old, now)[1], history=history[-12:])
    return history, ev, [(a.steps, [snap(t) for t in a.things]) for a in actors], fresh()


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        k = [n for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)]
        return ({n: a.get(n) for n in k}, {n: b.get(n) for n in k})
    return a, b


def same(a, b):
    """Equal, up to rounding."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)
    return a == b


def case(c):
    # imported once, here; everything else happens in processes forked from this one, which stays as it is
    import sloth.model, sloth.problem, sloth.simulation, sloth.optimization, sloth.unit_op_library, sloth.core.domain  # noqa: E401, F401
    rng = c.rng
    kinds = [rng.choice(KINDS) for _ in range(rng.randint(2, 4))]
    if rng.random() < .4:
        kinds[1] = kinds[0]
    if rng.random() < .04:
        kinds.append(Real)
    seeds = [rng.getrandbits(40) for _ in kinds]
    order = rng.getrandbits(40)
    c.note('actors: %s' % [k.__name__ for k in kinds])
    r = apart(lambda: together(c, kinds, seeds, order))
    if r[0] == 'violation':
        for l in r[2].get('history', []):
            c.note(l)
        raise Violation(r[1], **r[2])
    c.ok(r[0] == 'ok', 'the actors together failed: %s' % (r[1],), traceback=r[2] if len(r) > 2 else None)
    history, ev, ends, new = r[1]
    for l in history:
        c.note(l)
    for n, v in ev.items():
        c.event(n, v)
    base = apart(fresh)
    c.ok(base[0] == 'ok', 'new objects could not be made: %s' % (base[1],))
    for n in base[1]:
        c.ok(same(base[1][n], new[n]), 'a new %s is not what it is in a new process' % n, here=diff(base[1][n], new[n])[1], there=diff(base[1][n], new[n])[0])
    c.event('new objects compared', len(base[1]))
    for i, (k, s, (steps, end)) in enumerate(zip(kinds, seeds, ends)):
        a = apart(lambda: alone(k, s))
        c.ok(a[0] == 'ok', 'actor %s %d alone failed, but not among others: %s' % (k.__name__, i, a[1]))
        c.ok(a[1][0] == steps, '%s %d: other steps among others than alone' % (k.__name__, i), alone=a[1][0], together=steps)
        c.ok(len(a[1][1]) == len(end), '%s %d: other objects' % (k.__name__, i))
        for x, y in zip(a[1][1], end):
            c.ok(same(x, y), '%s %d ended differently among others than alone' % (k.__name__, i), alone=diff(x, y)[0], together=diff(x, y)[1])
            c.event('ends compared')
        c.event(k.__name__)
    c.key(kinds, seeds, order)


def arguments(c):
    """The same lists and dictionaries given to two objects: what one does reaches neither them nor the other."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    from sloth.core.domain import Domain
    from sloth.core.unit import Unit
    from sloth.core.variable import Variable
    from sloth.core import template_units as U
    from sloth.optimization import Optimization
    from checks.c19 import Dummy
    Tank, MySim, Bowl = user_classes()

    def pair(what, given, make, use):
        """make(given) twice, use the first: the second and what was given are as before."""
        g0 = plain(given)
        a, b = make(given), make(given)
        ref = snap(b)
        c.ok(plain(given) == g0, '%s: what was given is altered by the objects made with it' % what, got=plain(given), expected=g0)
        use(a)
        c.ok(plain(given) == g0, '%s: what was given is altered by the use of the object' % what, got=plain(given), expected=g0)
        c.ok(snap(b) == ref, '%s: the other object made with it is altered' % what, got=snap(b), expected=ref)
        c.event('arguments shared')

    S1, S2, S3 = Model('S1'), Model('S2'), Model('S3')

    def fed(inlets):
        m = Model('F')
        m._setInlets(inlets)
        return m
    for inlets in ([S1], [S1, S2], S1):
        pair('inlets', inlets, fed, lambda m: m._setInlets(S3))
        pair('inlets', inlets, fed, lambda m: m._setInlets([S3, S2], 'more'))
    t = Tank('tank', 1., 2.)
    t()
    z = Tank('other', 1., 2.)
    z()

    def prob(models):
        p = Problem('P')
        p.addModels(models)
        return p
    pair('models', [t, z], prob, lambda p: p.addModels(Tank('third', 1., 1.)))

    def holding(models):
        return Problem('P', models=models)

    def grow(p):
        p.addModels([Tank('third', 1., 1.), Tank('fourth', 2., 1.)])
        p.models.pop('tank', None)
    pair('dictionary of models', {'tank': t, 'other': z}, holding, grow)
    pair('dictionary of models', OrderedDict([('other', z), ('tank', t)]), holding, grow)
    pair('dictionary of models', {}, holding, grow)

    def timed(names):
        p = Problem('P')
        p.setTimeVariableName(names)
        return p
    pair('time variable', ['t_M'], timed, lambda p: p.setTimeVariableName('u_M'))

    def started(cond):
        p = Problem('P')
        p.setInitialConditions(cond)
        return p
    pair('initial conditions', {'x': 1., 't': 0.}, started, lambda p: p.setInitialConditions({'x': 2., 'y': 3.}))

    # the dictionary given goes on to another problem, with something else in it
    cond = {'x': 1., 't': 0.}
    a = started(cond)
    cond['x'] = 5.
    cond['z'] = 1.
    b = started(cond)
    c.ok(a.initial_conditions == {'x': 1., 't': 0.} and b.initial_conditions == {'x': 5., 't': 0., 'z': 1.}, 'initial conditions given to two problems in the same dictionary',
         got=[dict(a.initial_conditions), dict(b.initial_conditions)])
    a.setInitialConditions({'t': 3.})
    c.ok(b.initial_conditions == {'x': 5., 't': 0., 'z': 1.} == cond, 'initial conditions of another problem', got=dict(b.initial_conditions))

    def configured(**fixed):
        def make(given):
            sim = Simulation('S', problem=prob([t]))
            sim.setConfigurations(**dict(fixed, **{k: v for k, v in given.items()}))
            return sim
        return make

    def defined(given):
        sim = Simulation('S', problem=prob([t]))
        sim.setConfigurations(definition_dict=given)
        return sim

    def alter(sim):
        for n, v in (('linear_solver', 'scipy'), ('end_time', 5.), ('number_of_time_steps', 3)):
            sim.configurations[n] = v
        sim.setConfigurations(linear_solver='sympy')
    pair('definition of configurations', {'linear_solver': 'symbolicsys', 'end_time': 1.}, defined, alter)
    pair('definition of configurations', {}, defined, alter)

    def inside(sim):
        for n in ('initial_guess', 'configuration_args', 'variable_name_map'):
            sim.configurations[n]['more'] = 1.
        sim.configurations['arg_names'].append('k')
        sim.configurations['args'].append(1)
    pair('configurations', {'initial_guess': {'x_tank': 1.}, 'configuration_args': {'a': 1}, 'variable_name_map': {'x_tank': 'X'},
                            'arg_names': ['k_tank'], 'args': [2.]}, configured(), inside)
    for same in ({'m': 1, 's': -1}, {'kg': 2}):
        def u(given):
            return Unit('u', given)

        def poke(x):
            x.dimension['m'] = 5
        pair('dimensions of a unit', same, u, poke)
    v = Variable('t', U.s)

    def dom(given):
        return Domain('d', U.s, given['vars'], 'd', given['low'], given['up'])

    def bounded(d):
        d.lower_bound['t'] = 3.
        d.upper_bound['all'] = 4.
        Variable('x', U.dimless).distributeOnDomain(d)
        d()
    pair('bounds and variables of a domain', {'vars': [v], 'low': {'all': 0.}, 'up': {'all': 1.}}, dom, bounded)

    def study(given):
        return Optimization(Dummy(), Bowl(1, 'o'), given['names'], simulation_configuration={'a': 1}, constraints_additional_args=given['cargs'],
                            additional_args=given['args'], optimization_configuration=given['conf'], optimizer='ga')

    def searched(o):
        o.optimization_configuration['number_of_generations'] = 7
        o.additional_args.append(3)
        o.constraints_additional_args.append(4)
        o.setConstraints([[0.], [1.]])
    pair('arguments of a study', {'names': ['p'], 'cargs': [1], 'args': [2], 'conf': {'number_of_generations': 3}}, study, searched)
    c.note('arguments given twice')


def packages(c):
    """Packages of the same real species, each at its own conditions."""
    from sloth.core.property_package import PropertyPackage
    import sloth.unit_op_library as L
    rng = c.rng
    for names in (['water'], ['water', 'toluene']):
        ps = [PropertyPackage(len(names), list(names)) for _ in range(3)] + [PropertyPackage()]
        at = [pack(p) for p in ps]
        for step in range(6):
            k = rng.randrange(len(ps))
            if step % 3:
                ps[k].calculate(T=rng.uniform(280, 350), P=rng.choice([101325., 2e5]))
            else:
                s = L.MaterialStream('S', property_package=ps[k])
                s.T.setValue(rng.uniform(280, 350))
                s.mdot.setValue(2.)
                s()
            for j, p in enumerate(ps):
                if j != k:
                    c.ok(pack(p) == at[j], 'a package of %s is altered by the use of another' % names, got=pack(p), expected=at[j])
            at[k] = pack(ps[k])
            c.event('real packages')
        q = PropertyPackage(len(names), list(names))
        for n in names:
            c.ok((q[n].T, q[n].P) == (298.15, 101325), 'a new package of %s is at the conditions of another' % n, got=[q[n].T, q[n].P])
    c.note('real packages')


CHECK = Check('C07', case, 160, 6000,
              'random interleavings of 2-4 independent actors (models, problems, simulations, domains, packages, unit operations, expressions, '
              'optimizations) with the same names; snapshots of all bystanders after every step, and comparison with each actor alone in a '
              'pristine process; distinct by actors, seeds and order',
              directed=[arguments, packages],
              need=['arguments shared', 'real packages', 'steps', 'snapshots compared', 'ends compared', 'new objects compared'] + sorted({k.__name__ for k in KINDS}),
              assumptions=['the integrator of assimulo is replaced by harness/assimulo_stub.py'])
