"""C19: optimization studies. Every evaluation of the objective is recorded (outside of the objects, which pygmo copies)
and the champion, the fitness and the log are judged against the record."""
import contextlib
import glob
import json
import os

import numpy as np

from harness.core import Check, close

# what the objectives saw, in order: (x, objective, name of the simulation, configuration)
SEEN = []

MINIMUM = {'de': 5, 'ga': 6, 'sade': 7, 'pso': 6}


def functions(rng, n):
    """A random objective of n coordinates."""
    k = rng.choice(['sphere', 'wave', 'linear', 'steps', 'constant', 'far'])
    ctr = [rng.uniform(-3, 3) for _ in range(n)]
    w = [rng.choice([-1, 1]) * rng.uniform(.2, 4) for _ in range(n)]
    off = rng.choice([0., -7.5, 300.])
    if k == 'sphere':
        return k, lambda x: off + sum(abs(a) * (v - m) ** 2 for a, v, m in zip(w, x, ctr))
    if k == 'wave':
        return k, lambda x: off + sum(np.sin(a * v) + .1 * v for a, v in zip(w, x))
    if k == 'linear':
        return k, lambda x: off + sum(a * v for a, v in zip(w, x))
    if k == 'steps':
        return k, lambda x: off + sum(np.floor(a * v) for a, v in zip(w, x))
    if k == 'constant':
        return k, lambda x: off
    return k, lambda x: 1e6 * (off + sum(a * v for a, v in zip(w, x)))


def bounds(rng, n):
    lo, hi = [], []
    for _ in range(n):
        a = rng.choice([0., -10., rng.uniform(-5, 5), 1e-3, -1e3])
        w = rng.choice([1., 20., rng.uniform(.1, 9), 1e-4, 0. if rng.random() < .3 else 2.])
        lo.append(a)
        hi.append(a + w)
    return lo, hi


def form(rng, lo, hi, names):
    """The bounds as a user may write them."""
    forms = ['lists', 'tuple', 'arrays', 'matrix', 'dictionary']
    if len(lo) == 1:
        forms += ['pair', 'pair', 'pair tuple']
    f = rng.choice(forms)
    return f, {'lists': lambda: [list(lo), list(hi)], 'tuple': lambda: (tuple(lo), tuple(hi)), 'arrays': lambda: (np.array(lo), np.array(hi)),
               'matrix': lambda: np.array([lo, hi]), 'pair': lambda: [lo[0], hi[0]], 'pair tuple': lambda: (lo[0], hi[0]),
               'dictionary': lambda: {m: rng.choice([list, tuple])((a, b)) for m, a, b in rng.sample(list(zip(names, lo, hi)), len(lo))}}[f]()


def objective_class(fn, wrap, is_max_problem=None):
    from sloth.optimization import OptimizationProblem

    class Objective(OptimizationProblem):
        def DeclareObjectiveFunction(self, x):
            v = float(fn(x, self))
            SEEN.append((np.array(x, float), v, getattr(self.simulation_instance, 'name', None), self.simulation_configuration))
            return wrap(v)
    return Objective


def judge(c, lo, hi, maximize, ind, gen, opt, what, same_count):
    """The record against the results."""
    X = np.array([s[0] for s in SEEN])
    F = np.array([s[1] for s in SEEN])
    c.event('evaluations of the objective', len(F))
    c.ok(len(F) >= ind, '%s: fewer evaluations than individuals' % what, got=len(F), expected=ind)
    c.ok(len(F) <= ind * (gen + 1), '%s: more evaluations than configured' % what, got=len(F), expected=ind * (gen + 1))
    if same_count:
        c.ok(len(F) == ind * (gen + 1), '%s: evaluations' % what, got=len(F), expected=ind * (gen + 1))
    c.ok(X.ndim == 2 and X.shape[1] == len(lo), '%s: coordinates of the points' % what, got=X.shape)
    for j in range(len(lo)):
        tiny = 1e-13 * max(abs(lo[j]), abs(hi[j]))  # swarms round at the bounds
        c.ok(X[:, j].min() >= lo[j] - tiny and X[:, j].max() <= hi[j] + tiny, '%s: coordinate %d evaluated out of its bounds' % (what, j),
             range=[X[:, j].min(), X[:, j].max()], bounds=[lo[j], hi[j]])
        if hi[j] - lo[j] > 1e-3 and len(X) > 20:
            c.ok(np.ptp(X[:, j]) > .05 * (hi[j] - lo[j]), '%s: coordinate %d does not cover its bounds' % (what, j),
                 range=[X[:, j].min(), X[:, j].max()], bounds=[lo[j], hi[j]])
    x, f = opt.getResults()
    x, f = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(f, float))
    c.ok(x.shape == (len(lo),) and f.shape == (1,), '%s: shape of the results' % what, x=x.shape, f=f.shape)
    at = [i for i in range(len(X)) if np.array_equal(X[i], x)]
    c.ok(at, '%s: the best point was never evaluated' % what, got=x.tolist())
    c.ok(any(F[i] == f[0] for i in at), '%s: the best fitness is not the objective at the best point' % what, got=f.tolist(), objective=F[at[0]])
    best = F.max() if maximize else F.min()
    c.ok(f[0] == best, '%s: a better point was evaluated' % what, got=f[0], best=best, maximize=maximize)
    again = opt.getResults()
    c.ok(np.array_equal(again[0], opt.getResults()[0]) and np.array_equal(np.atleast_1d(again[1]), f), '%s: asked again, other results' % what)
    c.event('maximized' if maximize else 'minimized')
    return F, f[0]


def judge_log(c, opt, F, f, maximize, ind, gen, name, what):
    log = opt.getOptimizationLog()
    col = 'gbest' if name == 'pso' else 'Best'
    c.ok(list(log.columns)[:3] == ['Gen', 'Fevals', col], '%s: columns of the log' % what, got=list(log.columns))
    g, b = log['Gen'].tolist(), log[col].tolist()
    c.ok(len(g) <= gen and g == sorted(set(g)) and (not g or (g[0] >= 1 and g[-1] <= gen)), '%s: generations of the log' % what, got=g)
    for v in b:
        c.ok(any(v == x for x in F), '%s: the log has an objective never evaluated' % what, got=v)
        c.ok(f >= v if maximize else f <= v, '%s: the log has a better objective than the best' % what, got=v, best=f)
    c.ok(b == sorted(b, reverse=not maximize), '%s: the best of the log gets worse' % what, got=b)
    c.event('logs')
    if 'Mean lbest' in log:
        for v, m in zip(b, log['Mean lbest'].tolist()):
            # the mean of the particles is no better than the best of them
            c.ok(m <= v + 1e-9 * abs(v) if maximize else m >= v - 1e-9 * abs(v), '%s: the mean of the log is better than the best' % what, got=m, best=v)
    return log


def configuration(rng, name, n):
    conf = {'number_of_individuals': rng.choice([MINIMUM[name], 7, 8, 10, 15, 20]), 'number_of_generations': rng.choice([1, 2, 3, 5, 12])}
    conf['number_of_individuals'] = max(conf['number_of_individuals'], MINIMUM[name])
    if name == 'ga' and conf['number_of_individuals'] % 2:
        conf['number_of_individuals'] += 1
    if rng.random() < .5:
        conf['crossover_rate'] = rng.choice([.1, .5, .9])
    if rng.random() < .5:
        conf['mutation_rate'] = rng.choice([.02, .5])
    if rng.random() < .5:
        conf['mutation_type'] = rng.choice(['gaussian', 'uniform', 'polynomial'])
    if rng.random() < .5:
        conf['crossover_type'] = rng.choice(['exponential', 'binomial', 'single', 'sbx'])
    if rng.random() < .5:
        conf['selection_type'], conf['selection_param'] = rng.choice([('tournament', 2), ('truncated', 3)])
        conf['number_of_individuals'] = max(conf['number_of_individuals'], 6)
    if rng.random() < .5:
        conf['scale_factor'], conf['variant_de'] = rng.choice([.3, .8]), rng.randint(1, 10)
    if rng.random() < .5:
        conf['variant_pso'], conf['neighborhood_type_pso'], conf['neighborhood_param_pso'] = rng.randint(1, 5), rng.randint(1, 4), rng.choice([2, 4])
        conf['omega_pso'] = rng.choice([.4, .9])
    if rng.random() < .4:
        conf['eta1_pso'], conf['eta2_pso'], conf['max_v_pso'] = rng.sample([.5, 1.3, 2.2], 2) + [rng.choice([.1, .8])]
    if rng.random() < .3:
        conf['ftol_de'] = conf['xtol_de'] = rng.choice([0., 1e-12])
    return conf


# what the algorithm of pygmo tells of itself, for the configuration given
TOLD = {'de': [('Generations', 'number_of_generations'), ('Parameter F', 'scale_factor'), ('Parameter CR', 'crossover_rate'), ('Variant', 'variant_de'),
               ('Stopping xtol', 'xtol_de'), ('Stopping ftol', 'ftol_de')],
        'sade': [('Generations', 'number_of_generations'), ('Stopping xtol', 'xtol_de'), ('Stopping ftol', 'ftol_de')],
        'pso': [('Generations', 'number_of_generations'), ('Omega', 'omega_pso'), ('Eta1', 'eta1_pso'), ('Eta2', 'eta2_pso'),
                ('Maximum velocity', 'max_v_pso'), ('Variant', 'variant_pso'), ('Topology', 'neighborhood_type_pso'),
                ('Topology parameter', 'neighborhood_param_pso')],
        'ga': [('Number of generations', 'number_of_generations')]}

DEFAULTS = {'crossover_rate': .6, 'scale_factor': .5, 'variant_de': 10, 'ftol_de': 1e-8, 'xtol_de': 1e-8, 'omega_pso': .7298, 'eta1_pso': 2.05,
            'eta2_pso': 2.05, 'variant_pso': 5, 'max_v_pso': .5, 'neighborhood_type_pso': 2, 'neighborhood_param_pso': 4}


def told(c, opt, name, conf, what):
    text = opt.optimization_mechanism.get_extra_info()
    info = {}
    for l in text.split('\n'):
        if ':' in l:
            k, v = l.split(':', 1)
            info.setdefault(k.strip(), v.strip())
    for k, n in TOLD[name]:
        want = conf.get(n, DEFAULTS.get(n))
        if k in info:
            c.ok(close(float(info[k]), want, 1e-5, 1e-6), '%s: %s is not what is used' % (what, n), got=info[k], expected=want)
    if name == 'ga':
        part, got = '', {}
        for l in text.split('\n'):
            k, _, v = l.strip().partition(':')
            if l.startswith('\t\t'):
                got[part, k] = v.strip()
            else:
                part = k
        for k, n, d in (('Crossover', 'crossover', .6), ('Mutation', 'mutation', .04)):
            want = conf.get(n + '_rate', d)
            if (k, 'Probability') in got:
                c.ok(close(float(got[k, 'Probability']), want, 1e-5, 1e-6), '%s: %s_rate is not what is used' % (what, n), got=text, expected=want)
        for k, n, d in (('Crossover', 'crossover_type', 'exponential'), ('Mutation', 'mutation_type', 'gaussian'), ('Selection', 'selection_type', 'tournament')):
            if (k, 'Type') in got:
                c.ok(got[k, 'Type'] == conf.get(n, d), '%s: %s is not what is used' % (what, n), got=text, expected=conf.get(n, d))
        sizes = [v for (p, k), v in got.items() if p == 'Selection' and k.endswith('size')]
        for v in sizes:
            c.ok(float(v) == conf.get('selection_param', 4), '%s: selection_param is not what is used' % what, got=text)
        c.event('configurations of ga')
    c.event('configurations')


@contextlib.contextmanager
def silent():
    """pygmo writes its reports past Python."""
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


class Interrupted(Exception):
    pass


class Dummy:
    """Stands for a simulation in the studies of plain functions."""
    name = 'plain'
    configurations = {'plain': True}


def study(c, name, n, fn, simulation, params, sim_conf, ind_gen=None):
    """One study: made, run (perhaps twice) and judged."""
    from sloth.optimization import Optimization
    import pygmo
    rng = c.rng
    pygmo.set_global_rng_seed(rng.randint(0, 2 ** 31))
    lo, hi = bounds(rng, n) if ind_gen is None else ind_gen[2:]
    names = [q if isinstance(q, str) else q.name for q in params]
    wrap = rng.choice([lambda v: [v], lambda v: np.array([v]), lambda v: (v,)])
    cls = objective_class(fn, wrap)
    how = rng.choice(['study', 'problem', 'both', 'setter'])
    sense = rng.choice(['min', 'study', 'problem'])
    maximize = sense != 'min'
    f, given = form(rng, lo, hi, names)
    other = [[-500.] * n, [500.] * n]
    pk, ok = {}, {}
    if how == 'problem':
        if f == 'dictionary':
            f, given = 'lists', [list(lo), list(hi)]
        pk['bounds'] = given
    elif how == 'both':
        pk['bounds'], ok['constraints'] = other, given
    elif how == 'study':
        ok['constraints'] = given
    if sense == 'problem':
        pk['is_maximization'] = True
    elif sense == 'study':
        ok['is_maximization'] = True
    conf = configuration(rng, name, n)
    if ind_gen:
        conf['number_of_individuals'], conf['number_of_generations'] = ind_gen[:2]
    if sim_conf is not None:
        ok['simulation_configuration'] = sim_conf
        if rng.random() < .3:
            ok['simulation_configuration'] = 'sim.json'
            with open('sim.json', 'w') as f_:
                json.dump(sim_conf, f_)
    what = '%s of %d coordinates, bounds as %s in the %s, %s' % (name, n, f, how, sense)
    c.note(what, conf, [lo, hi])
    late = pk.pop('bounds') if 'bounds' in pk and rng.random() < .3 else None
    p = cls(n, 'problem', 'described', **pk)
    if late is not None:
        p.setBounds(late)
    p_ = p
    if rng.random() < .25:
        # the study is made with another problem, which is then replaced
        p_ = objective_class(lambda x, s: 1e9 + sum(x), wrap)(rng.choice([n, n + 1]), 'replaced', bounds=[[900.] * (n + 1), [901.] * (n + 1)], is_maximization=not maximize)
        if rng.random() < .5:
            p_()
    with c.accepted(what):
        opt = Optimization(simulation, p_, params, optimizer=name, optimization_configuration=conf, **ok)
        if how == 'setter':
            opt.setConstraints(given)
        if ok.get('simulation_configuration') == 'sim.json':
            os.remove('sim.json')
            c.event('configuration of the simulation from a file')
        if p_ is not p:
            opt.setOptimizationProblem(p)
            c.event('problem replaced')
    c.rejects('%s: results before the run' % what, opt.getResults)
    if rng.random() < .5:
        del SEEN[:]
        c.rejects('%s: run without the objective resolved' % what, opt.runOptimization, ['AbsentRequiredObjectError'])
        c.ok(not SEEN, '%s: the objective was evaluated though refused' % what)
        c.rejects('%s: results after a refused run' % what, opt.getResults)
    p()
    told(c, opt, name, conf, what)
    full = dict(opt.optimization_configuration)
    for k, v in conf.items():
        c.ok(full[k] == v, '%s: configured %s' % (what, k), got=full[k], expected=v)
    exact = name == 'pso' or (name in ('de', 'sade') and conf.get('ftol_de') == 0. and conf.get('xtol_de') == 0.)
    for again in range(rng.choice([1, 1, 2])):
        if again and rng.random() < .6:
            # other bounds for the second run
            lo = [v - rng.choice([0., 1., 7.]) for v in lo]
            hi = [v + rng.uniform(.1, 2) for v in lo]
            f, given = form(rng, lo, hi, names)
            with c.accepted('%s: other bounds' % what):
                opt.setConstraints(given)
            c.note('other bounds', given)
            c.event('other bounds for a second run')
        del SEEN[:]
        report = rng.choice([0, 1, 1, 2])
        graph = rng.random() < .12
        with c.accepted(what), silent():
            opt.runOptimization(print_output=rng.random() < .5, report_frequency=report, save_optimization_graph=graph)
        F, best = judge(c, lo, hi, maximize, conf['number_of_individuals'], conf['number_of_generations'], opt, what, exact)
        log = judge_log(c, opt, F, best, maximize, conf['number_of_individuals'], conf['number_of_generations'], name, what)
        if report == 1 and exact:
            c.ok(log['Gen'].tolist() == list(range(1, conf['number_of_generations'] + 1)), '%s: rows of the log' % what, got=log['Gen'].tolist())
        if not report:
            c.ok(len(log) == 0, '%s: a log though not asked for' % what)
        if graph:
            made = glob.glob('optimization-%s-*.png' % name)
            c.ok(made, '%s: the graph was not saved' % what)
            for m in made:
                os.remove(m)
            c.event('graphs')
        for x, v, s, sc in SEEN:
            if s is not None and s != simulation.name:
                c.ok(False, '%s: another simulation in the objective' % what, got=s)
        wanted = simulation.configurations if sim_conf is None else sim_conf
        c.ok(SEEN[0][3] == wanted, '%s: another configuration in the objective' % what, got=SEEN[0][3], expected=wanted)
        c.event('%s runs' % name)
        if again:
            c.event('second runs')
    if rng.random() < .15:
        # the configuration through a file
        opt.saveConfigurations('opt.json')
        from sloth.optimization import Optimization as O
        o2 = O(simulation, p, params, simulation_configuration={}, optimizer=name, optimization_configuration='opt.json')
        os.remove('opt.json')
        c.ok(o2.optimization_configuration == full, '%s: the configuration loaded differs' % what, got=o2.optimization_configuration, expected=full)
        told(c, o2, name, conf, what)
    c.key(c.log)
    return opt


def case(c):
    rng = c.rng
    name = rng.choice(['de', 'ga', 'sade', 'pso'])
    if rng.random() < .25:
        return simulated(c, name)
    if rng.random() < .2:
        return sharing(c)
    n = rng.randint(1, 4)
    k, fn = functions(rng, n)
    c.note('objective: %s' % k)
    study(c, name, n, lambda x, p: fn(x), Dummy(), ['p%d' % i for i in range(n)], rng.choice([None, {'given': 1}, {}]))


def sharing(c):
    """Optimizations of the same problem: each within its own bounds (those of the problem, unless it has others), in its own sense."""
    from sloth.optimization import Optimization
    import pygmo
    rng = c.rng
    pygmo.set_global_rng_seed(rng.randint(0, 2 ** 31))
    n = rng.randint(1, 3)
    names = ['p%d' % i for i in range(n)]
    k, fn = functions(rng, n)
    broken = [False]

    def objective(x, p):
        if broken[0] and rng.random() < .1:
            raise Interrupted('objective')
        return fn(x)
    own = bounds(rng, n)
    p = objective_class(objective, lambda v: [v])(n, 'shared', bounds=[list(own[0]), list(own[1])], is_maximization=rng.random() < .2)
    p()
    pmax = p.is_maximization
    c.note('objective %s, own bounds %s, %s' % (k, own, pmax))
    opts = []
    for i in range(rng.randint(2, 4)):
        name = rng.choice(['de', 'ga', 'sade', 'pso'])
        kw, lim, maximize = {}, own, pmax
        if rng.random() < .5:
            lim = bounds(rng, n)
            kw['constraints'] = form(rng, lim[0], lim[1], names)[1]
        if rng.random() < .5:
            kw['is_maximization'] = maximize = True
        conf = {'number_of_individuals': rng.choice([8, 10]), 'number_of_generations': rng.choice([1, 3, 6]), 'ftol_de': 0., 'xtol_de': 0.}
        opts.append((Optimization(Dummy(), p, list(names), simulation_configuration={}, optimizer=name, optimization_configuration=conf, **kw), name, lim, maximize, conf))
        c.note(i, name, lim, maximize, conf)
    had = {}
    for step in range(rng.randint(3, 6)):
        i = rng.randrange(len(opts))
        opt, name, lim, maximize, conf = opts[i]
        what = 'optimization %d of a problem of several (%s), step %d' % (i, name, step)
        broken[0] = rng.random() < .15
        c.note(what, broken)
        del SEEN[:]
        try:
            with silent():
                opt.runOptimization(print_output=False, report_frequency=1)
        except Exception as e:
            c.ok(broken[0] and 'objective' in str(e), '%s: rejected with %r' % (what, e))
            c.event('failed among several')
            had.pop(i, None)
            continue
        F, best = judge(c, lim[0], lim[1], maximize, conf['number_of_individuals'], conf['number_of_generations'], opt, what, name != 'ga')
        judge_log(c, opt, F, best, maximize, conf['number_of_individuals'], conf['number_of_generations'], name, what)
        had[i] = [np.array(v) for v in opt.getResults()]
        for j, (x, f) in had.items():
            a = opts[j][0].getResults()
            c.ok(np.array_equal(a[0], x) and np.array_equal(a[1], f), '%s: the results of optimization %d changed' % (what, j))
        c.event('optimizations of a problem of several')
    c.key(c.log)


def simulated(c, name):
    """The objective runs a simulation, with the parameters set at the point."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.simulation import Simulation
    from sloth.core.template_units import dimless
    rng = c.rng
    n = rng.randint(1, 2)
    k = rng.uniform(.5, 3)
    names = rng.choice([('a', 'b'), ('q', 'q2'), ('aq', 'q'), ('q_r', 'q')])

    class M(Model):
        def __init__(self, name):
            super().__init__(name, '')
            self.u = self.createVariable('u', dimless, 'u')
            self.w = self.createVariable('w', dimless, 'w')
            self.a = self.createParameter(names[0], dimless, 'a')
            self.b = self.createParameter(names[1], dimless, 'b')
            if n == 1:
                self.b.setValue(.5)

        def DeclareEquations(self):
            self.createEquation('e1', '', self.u() + self.w() == self.a())
            self.createEquation('e2', '', self.u() - k * self.w() == self.b())
    m = M(rng.choice(['M', 'plant', 'A1']))
    m()
    p = Problem('P', '')
    # another model with parameters of similar names
    o = Model(rng.choice(['%s0', 'x%s', '%s_1']) % m.name)
    others = [o.createParameter(q, dimless) for q in rng.sample(list(names) + ['x' + names[0], names[0] + '0'], 3)]
    for j, q in enumerate(others):
        q.setValue(20. + j)
    vo = o.createVariable('v', dimless)
    o.createEquation('e', '', vo() - sum(q() for q in others))
    p.addModels([o, m] if rng.random() < .5 else [m, o])
    p.resolve()
    sim = Simulation('the simulation')
    sim.setProblem(p)
    sim.setConfigurations(linear_solver=rng.choice(['sympy', 'symbolicsys', 'scipy']))
    params = [m.a, m.b][:n]
    by = rng.choice(['name', 'object'])
    failures = []

    def fn(x, prob):
        s = prob.simulation_instance
        for q, v in zip(params, x):
            found = s[q.name] if by == 'name' else s[q]
            if found.name != q.name:
                failures.append((q.name, found.name))
            found.setValue(float(v))
        s.problem.resolve()
        s.setConfigurations(definition_dict=prob.simulation_configuration)
        s.runSimulation(show_output_msg=False, show_final_residuals=False)
        d = s.getResults('dict')
        a, b = float(x[0]), float(x[1]) if n == 2 else .5
        w = (a - b) / (1 + k)
        u = a - w
        if not (close(d[m.u.name], u, 1e-7, 1e-9) and close(d[m.w.name], w, 1e-7, 1e-9)):
            failures.append((x.tolist(), dict(d), u, w))
        if not close(d[vo.name], 63.) or [q.value for q in others] != [20., 21., 22.]:
            failures.append((x.tolist(), dict(d), [q.value for q in others]))
        return float(d[m.u.name]) * .3 + float(d[m.w.name]) ** 2
    c.rejects('a parameter of the simulation by number', lambda: sim[3], ['UnexpectedValueError'])
    c.rejects('an absent parameter of the simulation', lambda: sim['nothing_there'])
    for q in [m.a, m.b] + others:
        c.ok(sim[q] is sim[q.name] and sim[q].name == q.name, 'parameter %s of the simulation' % q.name)
    lo = [rng.uniform(-2, 0) for _ in params]
    hi = [v + rng.uniform(.5, 3) for v in lo]
    study(c, name, n, fn, sim, [q.name for q in params] if by == 'name' else params, None, (MINIMUM[name] + rng.choice([0, 2]), 2, lo, hi))
    c.ok(not failures, 'the simulation of the objective did not use the point evaluated', failures=failures[:3])
    c.event('simulations of the objective', len(SEEN))


def interrupted(c):
    """The objective fails: the error is told, and there are no results of what did not end."""
    from sloth.optimization import Optimization
    import pygmo
    rng = c.rng
    for name in ('de', 'ga', 'sade', 'pso'):
        for at in (0, 3, 13):
            n = rng.randint(1, 2)
            calls = [0]

            def fn(x, p):
                calls[0] += 1
                if broken[0] and calls[0] > at:
                    raise Interrupted('objective')
                return float(sum(x))
            broken = [True]
            pygmo.set_global_rng_seed(rng.randint(0, 1000))
            p = objective_class(fn, lambda v: [v])(n, 'o')
            p()
            opt = Optimization(Dummy(), p, ['p%d' % i for i in range(n)], simulation_configuration={}, optimizer=name, constraints=[[0.] * n, [1.] * n],
                               optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 3, 'ftol_de': 0., 'xtol_de': 0.})
            what = '%s: the objective fails after %d evaluations' % (name, at)

            def run():
                with silent():
                    opt.runOptimization(print_output=False, report_frequency=0)
            c.rejects(what, run)
            c.rejects(what + ': results', opt.getResults)
            c.event('failing objectives')
            # and again, without the failure
            broken[0] = False
            del SEEN[:]
            with c.accepted(what + ': run again'):
                run()
            judge(c, [0.] * n, [1.] * n, False, 8, 3, opt, what + ': run again', name != 'ga')
    c.note('failing objectives')


def large(c):
    """Studies of many coordinates, and a larger population."""
    rng = c.rng
    for name, n in (('de', 8), ('ga', 9), ('sade', 12), ('pso', 11), ('de', 21)):
        k, fn = functions(rng, n)
        c.note('objective: %s' % k)
        study(c, name, n, lambda x, p: fn(x), Dummy(), ['p%d' % i for i in range(n)], rng.choice([None, {'given': 1}, {}]))
        lo, hi = bounds(rng, n)
        study(c, name, n, lambda x, p: fn(x), Dummy(), ['p%d' % i for i in range(n)], {}, (56, 4, lo, hi))
        c.event('studies of many coordinates')
    lo, hi = bounds(rng, 2)
    for name in ('de', 'ga', 'sade', 'pso'):
        k, fn = functions(rng, 2)
        study(c, name, 2, lambda x, p: fn(x), Dummy(), ['p0', 'p1'], {}, (rng.choice([112, 206]), 2, lo, hi))
        c.event('large populations')
        study(c, name, 2, lambda x, p: fn(x), Dummy(), ['p0', 'p1'], {}, (MINIMUM[name], 130, lo, hi))
        c.event('long studies')
    c.note('many coordinates')


CHECK = Check('C19', case, 400, 12000,
              'random objectives (plain functions and simulations), bounds in every form, optimizers, populations, senses, one or two runs; '
              'every evaluation recorded and the champion, fitness and log judged against the record; distinct by study',
              directed=[interrupted, large],
              need=['failed among several', 'optimizations of a problem of several', 'studies of many coordinates', 'long studies', 'evaluations of the objective', 'failing objectives', 'maximized', 'minimized', 'de runs', 'ga runs', 'sade runs', 'pso runs', 'second runs', 'other bounds for a second run',
                    'logs', 'simulations of the objective', 'graphs', 'configurations'])
