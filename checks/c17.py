"""C17: histories of runs. Every run is judged by an oracle that knows nothing of the history (the solution of the shadow
equations), against the earlier runs of the same problem and configuration, and against snapshots of all problems."""
import numpy as np

from harness import systems as S
from harness.core import interrupted, Check, Skip, close
from checks import c13, c14, c15

SOLVERS = ['symbolicsys', 'sympy', 'scipy']


def snapshot(models, p):
    out = []
    for m in models:
        for d in (m.variables, m.parameters, m.constants):
            out.append([(n, o.name, repr(o.value), o.is_specified, sorted(o.units.dimension.items()),
                         [repr(getattr(o, a, None)) for a in ('lower_bound', 'upper_bound')]) for n, o in d.items()])
        out.append([(n, e.name, e.type, str(e.equation_expression.symbolic_object), sorted(e.objects_declared), e.equation_form)
                    for n, e in m.equations.items()])
    out.append(sorted((k, repr(v)) for k, v in p.initial_conditions.items()))
    out.append([e.name for e in p.equation_block.equations])
    out.append(list(map(str, p.equation_block._var_list)))
    out.append(p._getProblemType())
    return out


class Study:
    """A problem with the configurations it is run with, and their oracle."""
    dynamic = False

    def __init__(self, c):
        self.c, self.seen = c, {}
        self.draw(c.rng)
        for l in self.s.show():
            c.note(l)
        self.s.build()
        self.p = self.s.make_problem()
        self.confs = [self.conf(c.rng) for _ in range(c.rng.randint(1, 3))]
        c.note('configurations: %s' % self.confs)

    def run(self, sim, k):
        """Run configuration k in this simulation, and judge."""
        c = self.c
        before = snapshot(self.s.models, self.p) if not self.dynamic else None
        what = 'run of %s, configuration %d' % (type(self).__name__, k)
        sim.setProblem(self.p)
        with c.accepted(what):
            self.go(sim, k)
        vars(c).setdefault('lastrun', {})[id(sim)] = (sim, self)
        if before is not None:
            after = snapshot(self.s.models, self.p)
            c.ok(after == before, '%s: the problem was changed by the run' % what, diff=[x for x in zip(before, after) if x[0] != x[1]][:2])
        res = self.results(sim)
        self.judge(sim, k, what)
        if k in self.seen:
            for n, v in self.seen[k].items():
                a, b = np.asarray(v, float), np.asarray(res[n], float)
                c.ok(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-11), '%s: another result than the first time' % what,
                     name=n, first=a.reshape(-1)[:5].tolist(), now=b.reshape(-1)[:5].tolist())
            c.ok(set(res) == set(self.seen[k]), '%s: other variables than the first time' % what)
            c.event('repeated')
        else:
            self.seen[k] = res
        self.c.event(type(self).__name__ + ' runs')
        return res

    def interrupt(self, sim, k, after):
        """A run that ends by an error at some call."""
        if self.dynamic:
            sim.setProblem(self.p)
            self.prepare(sim, self.start(k))
        before = snapshot(self.s.models, self.p)
        with interrupted(after) as state:
            sim.setProblem(self.p)
            if self.dynamic:
                self.launch(sim, self.confs[k], self.refs[k][2])
            else:
                self.go(sim, k)
        self.c.note('interrupted' if state['raised'] else 'not reached', after, state.get('where'))
        now = snapshot(self.s.models, self.p)
        self.c.ok(now == before, 'the problem was changed by an interrupted run', diff=[x for x in zip(before, now) if x[0] != x[1]][:2])
        return state['raised']


class Linear(Study):
    def draw(self, rng):
        self.s = S.linear(rng)

    def conf(self, rng):
        return {'linear_solver': rng.choice(SOLVERS)}

    def go(self, sim, k):
        S.simulate(self.p, sim=sim, **self.confs[k])

    def results(self, sim):
        return {n: float(v) for n, v in sim.getResults('dict').items()}

    def judge(self, sim, k, what):
        got = self.results(sim)
        self.c.ok(set(got) == set(self.s.solution), '%s: variables' % what, got=sorted(got), expected=sorted(self.s.solution))
        for n, v in self.s.solution.items():
            self.c.ok(close(got[n], v, 1e-6, 1e-7), '%s: %s' % (what, n), got=got[n], expected=v)

    def fail(self, sim, rng):
        sim.setProblem(self.p)
        how = rng.choice(['solver', 'type'])
        if how == 'solver':
            S.simulate(self.p, sim=sim, linear_solver='nothing')
        else:
            S.simulate(self.p, sim=sim, problem_type='nothing')


class Nonlinear(Study):
    def draw(self, rng):
        self.s = None
        for _ in range(5):
            self.s = self.s or S.nonlinear(rng, n=rng.randint(1, 3))
        if self.s is None:
            raise Skip('no well-conditioned system found')

    def conf(self, rng):
        near = {n: v * (1 + rng.uniform(-1, 1) * 1e-3) for n, v in self.s.solution.items()}
        return {'nonlinear_solver': rng.choice(c13.SOLVERS), 'initial_guess': near}

    def go(self, sim, k):
        S.simulate(self.p, sim=sim, **self.confs[k])

    def results(self, sim):
        return {n: float(v) for n, v in sim.getResults('dict').items()}

    def judge(self, sim, k, what):
        c13.root_ok(self.c, self.s, self.results(sim), what)

    def fail(self, sim, rng):
        sim.setProblem(self.p)
        S.simulate(self.p, sim=sim, initial_guess={n: rng.choice([50., -40., 1e3]) for n in self.s.solution})


class Differential(Study):
    dynamic = True

    def draw(self, rng):
        self.s = S.ode(rng, n=rng.randint(1, 2), forms=('elementary',))
        self.refs = {}

    def conf(self, rng):
        conf, grid, t0 = c14.config(rng, self.s)
        mapping = None
        if rng.random() < .3:
            mapping = {n: 'col %d' % i for i, n in enumerate([self.s.time.name] + sorted(self.s.x0))}
        i = len(self.refs)
        x0 = dict(self.s.x0) if rng.random() < .5 else {n: v + .5 for n, v in self.s.x0.items()}
        self.refs[i] = (grid, t0, mapping, x0, c14.reference(self.s, t0, grid, x0))
        conf.update(differential_solver=rng.choice(['ODEINT', 'CVODE']), compile_equations=rng.random() < .15)
        return conf

    def prepare(self, sim, values):
        rng, s = self.c.rng, self.s
        items = list(values.items())
        rng.shuffle(items)
        self.p.setInitialConditions(dict(items))
        mine = vars(self.c).setdefault('lastrun', {}).get(id(sim), (None, None))[1] is self and s.style == 'direct'
        if (mine or sim.domain is s.domain) and rng.random() < .6:
            # the last run of this simulation was of this problem, in this domain
            sim.reset()
            self.c.event('reset by the simulation')
            self.c.ok(not len(s.domain.values[s.time.name]), 'the domain is not empty after the simulation was reset',
                      got=len(s.domain.values[s.time.name]))
        else:
            s.domain()

    def launch(self, sim, conf, mapping):
        before = snapshot(self.s.models, self.p)
        conf = dict(conf, domain=self.s.domain)
        if mapping:
            conf['variable_name_map'] = mapping
        S.simulate(self.p, sim=sim, **conf)
        after = snapshot(self.s.models, self.p)
        self.c.ok(after == before, 'the problem was changed by the run', diff=[x for x in zip(before, after) if x[0] != x[1]][:2])

    def go(self, sim, k):
        grid, t0, mapping, x0, _ = self.refs[k]
        self.prepare(sim, self.start(k))
        self.launch(sim, self.confs[k], mapping)

    def start(self, k):
        """The initial conditions."""
        grid, t0, mapping, x0, _ = self.refs[k]
        return dict(x0, **{self.s.time.name: t0})

    def results(self, sim):
        d = sim.getResults('dict')
        return {(a, b): list(v) for a, cols in d.items() for b, v in cols.items()}

    def judge(self, sim, k, what):
        grid, t0, mapping, x0, ref = self.refs[k]
        keep = self.s.x0
        self.s.x0 = x0
        try:
            c14.compare(self.c, self.s, sim, grid, ref, what, mapping)
        finally:
            self.s.x0 = keep

    def fail(self, sim, rng):
        sim.setProblem(self.p)
        self.p.initial_conditions.pop(sorted(self.s.x0)[0], None)
        S.simulate(self.p, sim=sim, end_time=1., is_dynamic=True, domain=self.s.domain, time_variable_name=[self.s.time.name])


class Algebraic(Differential):
    """Differential-algebraic."""

    def draw(self, rng):
        self.s = S.ode(rng, n=1, explicit_time=False, algebraic=1)
        self.refs = {}

    def conf(self, rng):
        t0 = rng.choice([0., 1.])
        n = rng.choice([5, 10])
        grid = np.linspace(t0, t0 + .5, n + 1)
        ref, z0, d0 = c15.reference(self.s, grid)
        mapping = None
        if rng.random() < .3:
            mapping = {n_: 'col %d' % i for i, n_ in enumerate([self.s.time.name] + sorted(ref))}
        self.refs[len(self.refs)] = (grid, t0, mapping, (z0, d0), ref)
        return dict(initial_time=t0, end_time=t0 + .5, number_of_time_steps=n, is_dynamic=True)

    def go(self, sim, k):
        self.prepare(sim, self.start(k))
        self.launch(sim, self.confs[k], self.refs[k][2])

    def start(self, k):
        grid, t0, mapping, (z0, d0), _ = self.refs[k]
        v = dict(self.s.x0, **z0)
        v.update({n + '_d': x for n, x in d0.items()})
        v[self.s.time.name] = t0
        return v

    def judge(self, sim, k, what):
        grid, t0, mapping, _, ref = self.refs[k]
        c15.compare(self.c, self.s, sim, grid, ref, mapping)


def case(c):
    from sloth.simulation import Simulation
    rng = c.rng
    kinds = [rng.choice([Linear, Linear, Nonlinear, Nonlinear, Differential, Differential, Algebraic]) for _ in range(rng.randint(1, 3))]
    studies = [k(c) for k in kinds]
    sims = [Simulation('S%d' % i) for i in range(rng.randint(1, 3))]
    last = {}
    for step in range(rng.randint(3, 7)):
        st = rng.choice(studies)
        sim = rng.choice(sims)
        others = {id(x): x for x in sims if x is not sim}
        kept = {i: last[i][0].results(x) for i, x in others.items() if i in last and last[i][0].p is x.problem and (
            not last[i][0].dynamic or last[i][0].s is not st.s)}
        snaps = [(x, snapshot(x.s.models, x.p)) for x in studies if x is not st]
        act = rng.random()
        if act < .12:
            c.note('failing run of', type(st).__name__, 'in', sim.name)
            try:
                st.fail(sim, rng)
                c.event('hostile run that ended')
            except Exception:
                c.event('failed run')
            vars(c).setdefault('lastrun', {}).pop(id(sim), None)
            last.pop(id(sim), None)
        elif act < .24:
            k = rng.randrange(len(st.confs))
            c.note('interrupted run of', type(st).__name__, k, 'in', sim.name)
            if st.interrupt(sim, k, int(10 ** rng.uniform(0, 3))):
                c.event('interrupted ' + type(st).__name__)
            vars(c).setdefault('lastrun', {}).pop(id(sim), None)
            last.pop(id(sim), None)
        elif act < .3:
            c.note('resolve', type(st).__name__)
            st.p.resolve()
            if st.dynamic and st.s.style != 'direct':
                # the domain was declared again
                for x in list(last):
                    if last[x][0] is st:
                        last.pop(x)
            c.event('resolved again')
            continue
        else:
            k = rng.randrange(len(st.confs))
            c.note('run', type(st).__name__, k, 'in', sim.name)
            st.run(sim, k)
            for i in list(last):
                if last[i][0] is st and st.dynamic and i != id(sim):
                    last.pop(i)
            last[id(sim)] = (st, k)
        for x, sn in snaps:
            c.ok(snapshot(x.s.models, x.p) == sn, 'a run of another problem changed the problem %s' % type(x).__name__)
        for i, v in kept.items():
            x = others[i]
            if last.get(i) is None:
                continue
            now = last[i][0].results(x)
            c.ok(set(now) == set(v) and all(np.array_equal(np.asarray(now[n], float), np.asarray(v[n], float)) for n in v),
                 'the results of another simulation were changed by a run')
            c.event('results of others kept')
    c.key(c.log)


def left_as_configured(c):
    """A simulation configured once runs problem after problem, of both algebraic types, whose variables have the same
    names: every run gives what a simulation made for it alone gives."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    from sloth.core.template_units import dimless
    rng = c.rng

    def make(kind, a, b):
        m = Model('M')
        x, y = m.createVariable('x', dimless, ''), m.createVariable('y', dimless, '')
        if kind == 'linear':
            m.createEquation('e1', '', x() + a * y() - b)
            m.createEquation('e2', '', x() - y() == 2. * a)
        else:
            m.createEquation('e1', '', (x() - a) * (x() - b))
            m.createEquation('e2', '', y() == x() * a + b)
        p = Problem('P')
        p.addModels(m)
        p.resolve()
        return p

    def draw():
        return rng.choice(['linear', 'nonlinear', 'nonlinear']), rng.choice([1.5, 2., 3.25, 6., 9.]), rng.choice([-8., -3., -1.25, 12., 20., 33.])

    for _ in range(8):
        whats = [draw() for _ in range(4)]
        problems = [make(*w) for w in whats]
        guess = {v: rng.choice([.5, 4., 10., 30., -5.]) for v in ('x_M', 'y_M')}
        conf = dict(nonlinear_solver=rng.choice(['*', 'symbolicsys']), linear_solver=rng.choice(['sympy', 'scipy']), initial_guess=guess)
        if rng.random() < .2:
            del conf['initial_guess']
        c.note('configuration', conf)

        def simulation(p):
            sim = Simulation('S')
            sim.setProblem(p)
            sim.setConfigurations(**{n: dict(v) if isinstance(v, dict) else v for n, v in conf.items()})
            return sim

        def go(x):
            try:
                x.runSimulation(show_output_msg=False, show_final_residuals=False)
            except Exception as ex:
                return 'raised ' + type(ex).__name__
            return {n: float(v) for n, v in x.getResults('dict').items()}
        sim = simulation(problems[0])
        for step in range(8):
            i = rng.randrange(len(problems))
            c.note('run', *whats[i])
            sim.setProblem(problems[i])
            got = go(sim)
            want = go(simulation(make(*whats[i])))
            good = got == want if isinstance(got, str) or isinstance(want, str) else set(got) == set(want) and all(
                abs(got[n] - want[n]) <= 1e-7 * max(1., abs(want[n])) for n in want)
            c.ok(good, 'run of a %s problem in a simulation configured before' % whats[i][0], got=got, alone=want)
            c.event('runs without configuring again')
            c.event('%s without configuring again: %s' % (whats[i][0], 'raised' if isinstance(got, str) else 'solved'))


def namesakes(c):
    """Dynamic problems whose models, variables and equations have the same names but other values, run by turns and again
    after a parameter took another value: each run follows its own equations, whatever ran before."""
    import math
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s as sec
    from sloth.core.variable import Variable
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    rng = c.rng

    def make(kind, k, b):
        class M(Model):
            def DeclareParameters(self):
                self.k = self.createParameter('k', dimless/sec)
                self.k.setValue(self.kval)
            def DeclareVariables(self):
                self.x = self.createVariable('x', dimless)
                self.x.distributeOnDomain(self.dom)
                if kind == 'dae':
                    self.y = self.createVariable('y', dimless)
                    self.y.distributeOnDomain(self.dom)
            def DeclareEquations(self):
                self.e = self.createEquation('e', '', self.x.Diff(self.t) == self.k()*(self.x() - b))
                if kind == 'dae':
                    self.f = self.createEquation('f', '', self.y() - self.x()*b)
        m = M('A')
        m.t = Variable('t_A', sec)
        m.kval = k
        m.dom = Domain('d', sec, m.t)
        p = Problem('P')
        p.addModels(m)
        p.setTimeVariableName('t_A')
        p.resolve()
        cond = {'x_A': 1. + b, 't_A': 0.}
        if kind == 'dae':
            cond.update(y_A=(1. + b)*b, x_A_d=k)
        p.setInitialConditions(cond)
        return m, p

    for kind in ('ode', 'dae'):
        twins = [(i, rng.choice([-2., -1., -.5, .25, 1.]) + .1*i, rng.choice([-1.5, 0.5, 2.]) + .05*i) for i in range(3)]
        made = {i: make(kind, k, b) for i, k, b in twins}
        ks = {i: k for i, k, b in twins}
        sims = [Simulation('S%d' % i) for i in range(2)]
        for step in range(9):
            i, _, b = twins[rng.randrange(3)]
            m, p = made[i]
            if rng.random() < .35:
                ks[i] = m.kval = rng.choice([-1.7, -.3, .6])
                p.resolve()
                c.event('namesakes given another value')
                if kind == 'dae':
                    p.setInitialConditions({'x_A_d': ks[i]})
            k = ks[i]
            m.dom()
            conf = dict(end_time=1., number_of_time_steps=5, is_dynamic=True, domain=m.dom, time_variable_name='t_A',
                        differential_solver=rng.choice(['ODEINT', 'CVODE']), compile_equations=rng.random() < .7)
            sim = rng.choice(sims)
            sim.setProblem(p)
            c.note('run', kind, i, k, b, conf['differential_solver'], conf['compile_equations'])
            with c.accepted('run of one of several problems with the same names'):
                S.simulate(p, sim=sim, **conf)
            d = sim.getResults('dict')['t_A']
            for t, x in zip(d['t_A'], d['x_A']):
                c.ok(abs(x - (b + math.exp(k*t))) < 1e-4*max(1., abs(x)), 'x of a problem that has the names of others', time=t, got=x, expected=b + math.exp(k*t), k=k, b=b)
            if kind == 'dae':
                for x, y in zip(d['x_A'], d['y_A']):
                    c.ok(abs(y - x*b) < 1e-6, 'y of a problem that has the names of others', got=y, expected=x*b)
            c.event('namesakes')


def many(c):
    """Problems of many variables and conditions, run by turns in one simulation and reset to the conditions each time."""
    import math
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s as sec
    from sloth.core.variable import Variable
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    rng = c.rng

    def make(name, n):
        m = Model(name)
        t = Variable('t_' + name, sec)
        d = Domain('d', sec, t)
        k = m.createParameter('k', sec**-1)
        k.setValue(rng.choice([-1., -.5, .4]))
        xs = [m.createVariable('x%d' % i, dimless) for i in range(n)]
        for i, x in enumerate(xs):
            x.distributeOnDomain(d)
            m.createEquation('e%d' % i, '', x.Diff(t) == k()*(x() - float(i)))
        d()
        p = Problem('P' + name)
        p.addModels(m)
        p.setTimeVariableName('t_' + name)
        p.resolve()
        x0 = {x.name: round(rng.uniform(-2, 2), 3) for x in xs}
        first = dict(list(x0.items())[:n if name != 'B' else n // 2])
        p.setInitialConditions(dict(first, **{'t_' + name: 0.}))
        p.setInitialConditions({v: w for v, w in x0.items() if v not in first})
        c.ok(p.initial_conditions == dict(x0, **{'t_' + name: 0.}), 'conditions of %d variables' % n, got=p.initial_conditions)
        return p, d, 't_' + name, x0, k.value
    made = [make('A', 14), make('B', 12), make('C', 2)]
    sim = Simulation('S')
    for step in range(7):
        p, d, t, x0, k = rng.choice(made) if step > 2 else made[step]
        sim.setProblem(p)
        p.setInitialConditions(dict(x0, **{t: 0.}))
        d()
        with c.accepted('run of a dynamic problem of %d variables' % len(x0)):
            S.simulate(p, sim=sim, is_dynamic=True, end_time=1., number_of_time_steps=6, domain=d, time_variable_name=t, compile_equations=False,
                       differential_solver=rng.choice(['ODEINT', 'CVODE']))
        got = sim.getResults('dict')[t]
        c.ok(set(got) == set(x0) | {t}, 'results of %d variables' % len(x0), got=sorted(got))
        c.ok(len(got[t]) == 7, 'points of %d variables' % len(x0), got=got[t])
        for i, (n, v) in enumerate(x0.items()):
            for tt, x in zip(got[t], got[n]):
                w = i + (v - i)*math.exp(k*tt)
                c.ok(abs(x - w) < 1e-4*max(1., abs(w)), '%s of a problem of %d variables' % (n, len(x0)), time=tt, got=x, expected=w)
        c.event('many conditions')


CHECK = Check('C17', case, 160, 5000,
              'random histories of 3-7 runs, failing runs and resolutions over 1-3 problems (linear, nonlinear, differential, '
              'differential-algebraic), 1-3 configurations each and 1-3 simulations; distinct by problems and history',
              directed=[left_as_configured, namesakes, many],
              need=['interrupted Linear', 'interrupted Nonlinear', 'interrupted Differential', 'interrupted Algebraic', 'many conditions', 'repeated', 'namesakes', 'namesakes given another value', 'runs without configuring again', 'linear without configuring again: solved', 'nonlinear without configuring again: solved', 'Linear runs', 'Nonlinear runs', 'Differential runs', 'Algebraic runs', 'failed run', 'resolved again',
                    'results of others kept', 'reset by the simulation'],
              assumptions=['CVODE and IDA are replaced by the stand-ins of harness/assimulo_stub.py'])
