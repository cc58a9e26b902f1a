"""C14: trajectories of ordinary differential problems against an independent integration of the shadow equations."""
import math

import numpy as np
from scipy.integrate import solve_ivp

from harness import assimulo_stub as stub
from harness import systems as S
from harness.core import Check, Skip, Violation


def reference(s, t0, grid, x0=None):
    """x_i' = f_i, integrated from the shadow equations."""
    names = [x.name for x in s.xs]
    f = {e.x.name: e.rhs_f for e in s.eqs if e.x is not None}

    def fun(t, y):
        env = dict(zip(names, y))
        env[s.time.name] = t
        return [f[n](env) for n in names]
    y0 = [(x0 or s.x0)[n] for n in names]
    grid = np.array(grid, dtype=float)
    sol = solve_ivp(fun, (t0, max(grid[-1], t0 + 1e-12)), y0, method='DOP853', rtol=1e-11, atol=1e-12, t_eval=None,
                    dense_output=True)
    if not sol.success:
        raise Skip('reference integration failed')
    Y = sol.sol(grid)
    if not np.all(np.isfinite(Y)) or np.abs(Y).max() > 1e4:
        raise Skip('untame trajectory')
    return {n: Y[i] for i, n in enumerate(names)}


def announce(case, s, extra=()):
    for l in s.show():
        case.note(l)
    case.note('x0', s.x0, 'dynamic order', [q.name for q in s.dynamic_order])
    case.key(s.show(), sorted(s.x0.items()), extra)


def config(rng, s):
    """A random configuration of the run: returns (settings, grid, initial time)."""
    t0 = rng.choice([0., 0., 0., 1., -2., .5])
    span = rng.choice([1., 2., 3.5])
    n = rng.choice([1, 5, 10, 23, 60])
    conf = dict(initial_time=t0, end_time=t0 + span, is_dynamic=True, number_of_time_steps=n)
    grid = np.linspace(t0, t0 + span, n + 1)
    if rng.random() < .25:
        k = rng.randint(1, 8)
        pts = sorted({round(t0 + rng.uniform(.01, span), 3) for _ in range(k)})
        grid = np.array([t0] + pts)
        conf['times_for_solution'] = rng.choice([grid.copy(), grid.tolist(), tuple(grid.tolist())])
    if rng.random() < .2:
        conf['configuration_args'] = rng.choice([{'rtol': 1e-9, 'atol': 1e-10}, {'mxstep': 5000}, {'hmax': .5}])
    r = rng.random()
    if r < .4:
        conf['time_variable_name'] = s.time.name
    elif r < .7:
        conf['time_variable_name'] = [s.time.name]
    return conf, grid, t0


def run(case, s, p, solver, compiled, conf, t0, sim=None, mapping=None):
    items = list(s.x0.items()) + [(s.time.name, t0)]
    case.rng.shuffle(items)
    S.give(case, p, items)
    c = dict(conf, differential_solver=solver, compile_equations=compiled, domain=s.domain)
    if mapping:
        c['variable_name_map'] = mapping
    s.domain()
    return S.simulate(p, sim=sim, **c)


def compare(case, s, sim, grid, ref, what, mapping=None, rtol=2e-5):
    mapping = mapping or {}
    tn = s.time.name
    d = sim.getResults('dict')
    case.ok(list(d) == [tn], '%s: independent variable of the results' % what, got=list(d))
    cols = d[tn]
    want = {mapping.get(n, n): n for n in [tn] + list(ref)}
    case.ok(set(cols) == set(want), '%s: names of the columns' % what, got=sorted(cols), expected=sorted(want))
    T = np.array(cols[mapping.get(tn, tn)], dtype=float)
    case.ok(T.shape == grid.shape and np.allclose(T, grid, rtol=1e-12, atol=1e-12), '%s: time grid' % what,
            got=T[:5].tolist(), n=len(T), expected=grid[:5].tolist(), m=len(grid))
    for n, y in ref.items():
        got = np.array(cols[mapping.get(n, n)], dtype=float)
        case.ok(got[0] == s.x0[n], '%s: initial value of %s' % (what, n), got=got[0], expected=s.x0[n])
        tol = rtol * (1. + np.abs(y).max())
        case.ok(got.shape == y.shape and np.abs(got - y).max() <= tol, '%s: trajectory of %s' % (what, n),
                error=float(np.abs(got - y).max()) if got.shape == y.shape else None, got=got[:6].tolist(),
                expected=y[:6].tolist())
    lst = sim.getResults('list')
    case.ok(len(lst) == 1 and np.asarray(lst[0]).shape == (len(grid), len(want)), '%s: results as a list' % what)
    case.event('trajectories', len(ref))


MODES = [('ODEINT', True), ('ODEINT', False), ('CVODE', True), ('CVODE', False), (None, False)]


def cases(case):
    rng = case.rng
    s = S.ode(rng, forms=('elementary',))
    conf, grid, t0 = config(rng, s)
    ref = reference(s, t0, grid)
    announce(case, s, (t0, len(grid)))
    with case.accepted('building'):
        s.build()
        p = s.make_problem()
    case.ok(p._getProblemType() == 'differential', 'type of the problem', got=p._getProblemType())
    modes = rng.sample(MODES, 2)
    if all(c for _, c in modes):
        modes.append(('ODEINT', False))
    for solver, compiled in modes:
        what = '%s %s' % (solver, 'compiled' if compiled else 'interpreted')
        mapping = None
        if rng.random() < .3:
            mapping = {n: 'col %d (%s)' % (i, n) for i, n in enumerate([s.time.name] + list(ref)) if rng.random() < .7}
            if rng.random() < .4:
                # the names change places
                mapping = dict(zip(rng.sample(list(ref), len(ref)), rng.sample(list(ref), len(ref))))
                case.event('headers exchanged')
            elif rng.random() < .3:
                mapping = dict(zip([s.time.name] + list(ref), [' T', 'T ', 'T', ' T ', 't', '  T', ' ']))
                case.event('headers of blanks')
        k = len(stub.instances)
        case.note(what, conf, mapping)
        with case.accepted('%s run' % what):
            sim = run(case, s, p, solver, compiled, conf, t0, mapping=mapping)
        compare(case, s, sim, grid, ref, what, mapping)
        case.event('runs ' + what)
        if solver == 'CVODE':
            case.ok(len(stub.instances) == k + 1, 'CVODE was used')
            pr = stub.instances[-1].problem
            case.ok(pr.t0 == t0, 'initial time given to CVODE', got=pr.t0, expected=t0)
        else:
            case.ok(len(stub.instances) == k, 'ODEINT was used')
    if s.explicit_time:
        case.event('explicit time')
    if s.nm > 1:
        case.event('several models')
    if t0 != 0:
        case.event('initial time not zero')


def uncoupled(case):
    """Each variable has its own rate: an exchange of columns, initial values or equations is visible."""
    rng = case.rng
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s as sec
    names = ['x1', 'x10', 'x2', 'x', 'a', 'B']
    for trial in range(4):
        m = Model('M')
        order = names[:]
        rng.shuffle(order)
        t = m.createVariable('t', sec, '')
        v = {n: m.createVariable(n, dimless, '') for n in order}
        dom = Domain('d', dimless, t, '')
        rng.shuffle(order)
        for n in order:
            v[n].distributeOnDomain(dom)
        rate, x0 = {}, {}
        rng.shuffle(order)
        for i, n in enumerate(order):
            k = m.createParameter('k_' + n, sec ** -1, '')
            rate[n], x0[n] = round(rng.uniform(-2, -.1), 3), round(rng.uniform(.5, 3), 3)
            k.setValue(rate[n])
            m.createEquation('eq_' + n, '', v[n].Diff(t) == k() * v[n]())
        p = Problem('p')
        p.addModels(m)
        p.setTimeVariableName('t_M')
        p.resolve()
        rng.shuffle(order)
        p.setInitialConditions(dict([(n + '_M', x0[n]) for n in order] + [('t_M', 0.)]))
        for solver, compiled in MODES:
            dom()
            sim = S.simulate(p, end_time=2., number_of_time_steps=8, is_dynamic=True, domain=dom, time_variable_name=['t_M'],
                             differential_solver=solver, compile_equations=compiled)
            T = np.linspace(0, 2, 9)
            d = sim.getResults('dict')['t_M']
            for n in names:
                case.ok(np.allclose(d[n + '_M'], x0[n] * np.exp(rate[n] * T), rtol=1e-5), 'decay of %s' % n,
                        got=d[n + '_M'], solver=solver)


def functions(case):
    """x' = -x + .5 f(x, t) for every function of the expressions, in every mode."""
    rng = case.rng
    shapes = {}
    for f in ('Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan'):
        shapes[f] = lambda q, t, f=f: ('fn', f, ('bin', '+', ('bin', '*', ('num', .3), ('bin', '**', q, ('num', 2))), ('num', .2)))
    shapes['Min'] = lambda q, t: ('mm', 'Min', (q, ('num', .7)))
    shapes['Max'] = lambda q, t: ('mm', 'Max', (('num', .7), q, ('bin', '*', t, ('num', .5))))
    shapes['**'] = lambda q, t: ('bin', '**', ('bin', '+', ('bin', '*', q, q), ('num', .2)), ('num', 1.5))
    shapes['/'] = lambda q, t: ('bin', '/', t, ('bin', '+', ('num', 1), ('bin', '**', q, ('num', 2))))
    for f, mk in shapes.items():
        F = S.Factory(rng, 1)
        t, x = F.new('var', short='t'), F.new('var', short='x')
        k = F.new('par', S.X.ZERO, .5, True)
        rhs = ('bin', '-', ('bin', '*', ('q', k), mk(('q', x), ('q', t))), ('q', x))
        e = S.Eq(('diff', x, t), rhs, 'elementary')
        s = S.System(rng, F.qtys, [e], 1)
        e.x, e.rhs_f = x, S.fcompile(rhs)
        s.time, s.xs, s.zs, s.dynamic_order, s.x0 = t, [x], [], [x], {x.name: 1.2}
        announce(case, s)
        grid = np.linspace(0, 2, 6)
        ref = reference(s, 0., grid)
        s.build()
        p = s.make_problem()
        for solver, compiled in rng.sample(MODES[:4], 2) + [('ODEINT', True), ('ODEINT', False)]:
            what = '%s, %s %s' % (f, solver, compiled)
            with case.accepted(what):
                sim = run(case, s, p, solver, compiled, dict(end_time=2., is_dynamic=True, number_of_time_steps=5), 0.)
            compare(case, s, sim, grid, ref, what)


def grids(case):
    """Long, short and uneven grids: as many points as asked, from the first to the last time."""
    rng = case.rng
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s as sec
    for g in range(16):
        span = rng.choice([1., .1, .7, 1e-9, 1e4, 12345.678, 3e5, 1e6, 7e7, rng.uniform(0, 1e3)])
        t0 = rng.choice([0., 0., span / 3, -span * .7])
        n = rng.choice([3, 6, 7, 11, 13, 49, 93, 101, 200]) if g > 2 else (1500, 900, 40000)[g]
        rate = -rng.uniform(.5, 2) / span
        m = Model('M')
        t, x = m.createVariable('t', sec, ''), m.createVariable('x', dimless, '')
        k = m.createParameter('k', sec ** -1, '')
        k.setValue(rate)
        dom = Domain('d', sec, t, '')
        x.distributeOnDomain(dom)
        m.createEquation('eq', '', x.Diff(t) == k() * x())
        p = Problem('p')
        p.addModels(m)
        p.setTimeVariableName('t_M')
        p.resolve()
        p.setInitialConditions({'x_M': 2., 't_M': t0})
        grid = np.linspace(t0, t0 + span, n + 1)
        conf = dict(number_of_time_steps=n)
        if g and (g == 1 or rng.random() < .3):
            grid = np.array([t0] + sorted(t0 + span * rng.random() for _ in range(n)))
            conf['times_for_solution'] = rng.choice([grid.copy(), grid.tolist(), tuple(grid.tolist())])
        for solver, compiled in rng.sample(MODES, 2) if g != 2 else [('ODEINT', True)]:
            dom()
            with case.accepted('grid of %d steps over %r from %r' % (n, span, t0)):
                S.simulate(p, initial_time=t0, end_time=t0 + span, is_dynamic=True, domain=dom, time_variable_name=['t_M'],
                           differential_solver=solver, compile_equations=compiled, **conf)
            d = dom.values['t_M']
            case.ok(len(d) == len(grid), 'points of the grid', got=len(d), expected=len(grid), span=span, t0=t0, n=n)
            T, Y = np.asarray(d['t_M'], float), np.asarray(d['x_M'], float)
            case.ok(np.abs(T - grid).max() <= 1e-9 * span, 'times of the grid', got=T[-3:].tolist(), expected=grid[-3:].tolist())
            case.ok(np.abs(Y - 2 * np.exp(rate * (grid - t0))).max() < 1e-4, 'decay on the grid', span=span, t0=t0, n=n, how=(solver, compiled, rate, conf),
                    got=Y[:9].tolist(), times=T[:9].tolist())
            case.event('grids')


def blow_up(case):
    """No solution until the end of the grid: an error, never numbers."""
    rng = case.rng
    shapes = {
        'x**2': lambda q: ('bin', '**', q, ('num', 2)),
        'x**2 + 1': lambda q: ('bin', '+', ('num', 1), ('bin', '*', q, q)),
        'x**3 + x': lambda q: ('bin', '+', ('bin', '**', q, ('num', 3)), q),
        'Exp(x)': lambda q: ('fn', 'Exp', q),
    }
    for f, mk in shapes.items():
        F = S.Factory(rng, 1)
        t, x = F.new('var', short='t'), F.new('var', short='x')
        e = S.Eq(('diff', x, t), mk(('q', x)), 'elementary')
        s = S.System(rng, F.qtys, [e], 1)
        s.time, s.xs, s.zs, s.dynamic_order, s.x0 = t, [x], [], [x], {x.name: round(rng.uniform(.8, 2), 3)}
        announce(case, s)
        s.build()
        p = s.make_problem()
        for solver in ('ODEINT', None):
            for compiled in (True, False):
                case.rejects('%s: run over an explosion' % f,
                             lambda: run(case, s, p, solver, compiled, dict(end_time=4., is_dynamic=True, number_of_time_steps=rng.choice([1, 7, 40])), 0.))
                case.event('explosions')


def larger(case):
    """Many variables over several models, in every mode."""
    rng = case.rng
    done = 0
    for _ in range(20):
        s = S.ode(rng, n=rng.randint(9, 13), nmodels=rng.choice([1, 2, 3]), forms=('elementary',))
        grid = np.linspace(0., 1., 6)
        try:
            ref = reference(s, 0., grid)
        except Skip:
            continue
        announce(case, s)
        with case.accepted('building'):
            s.build()
            p = s.make_problem()
        for solver, compiled in MODES[:3] if not done else [rng.choice(MODES)]:
            what = 'many variables, %s %s' % (solver, compiled)
            with case.accepted(what):
                sim = run(case, s, p, solver, compiled, dict(end_time=1., is_dynamic=True, number_of_time_steps=5), 0.)
            compare(case, s, sim, grid, ref, what)
        case.event('systems of many variables')
        done += 1
        if done == 2:
            break


def corrected(case):
    """Conditions given, run, corrected (to zero, among others) and run again; time under several names, or under another one at first."""
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s as sec
    from sloth.model import Model
    from sloth.problem import Problem
    rng = case.rng
    for trial in range(8):
        A, B = Model('A'), Model('B')
        t, u = A.createVariable('t', sec), B.createVariable('u', sec)
        models, times = [A, B], ['t_A', 'u_B']
        explicit = [None, 'A', 'B', 'A', 'B'][trial % 5]
        rates, order = {}, []
        d = Domain('d', sec, t)
        for k in range(rng.randint(2, 4)):
            m, v = rng.choice([(A, t), (B, u)])
            x = m.createVariable('x%d' % k, dimless)
            x.distributeOnDomain(d)
            a, b = round(rng.uniform(-2, 2), 2), round(rng.uniform(.2, 2), 2)
            p0, p1, p2 = m.createConstant('a%d' % k, dimless / sec), m.createConstant('b%d' % k, dimless / sec), m.createConstant('c%d' % k, dimless / sec ** 2)
            c = round(rng.uniform(1, 3), 2) if explicit == m.name else 0.
            for q, w in ((p0, a), (p1, b), (p2, c)):
                q.setValue(w)
            m.createEquation('e%d' % k, '', x.Diff(v) == (p0() - p1() * x() + p2() * v() if c else p0() - p1() * x()))
            rates[x.name] = (a, b, c)
            order.append(x.name)
        rng.shuffle(models)
        if (trial < 5) != (explicit == 'B'):
            times.reverse()
        p = Problem('P')
        p.addModels(models)
        if rng.random() < .6:
            p.setTimeVariableName(rng.choice(['time', ['t_B'], ['t', 'u']]))
            case.event('time named again')
        if explicit is None and rng.random() < .5:
            times = rng.choice(times)
        p.setTimeVariableName(times)
        p.resolve()
        now = {n: rng.choice([1.5, -2., 0., 3]) for n in order}
        p.setInitialConditions({'t_A': 0., 'u_B': 0., **now})
        for again in range(2 + (trial == 0)):
            if again:
                part = {n: rng.choice([0., 0, 1e-3, -1.25, now[n]]) for n in rng.sample(order, rng.randint(1, len(order)))}
                now.update(part)
                p.setInitialConditions(part)
            solver, compiled = rng.choice(['ODEINT', 'CVODE']), rng.random() < .5
            what = 'conditions %s (%d), %s %s, times %s, explicit in %s' % (now, again, solver, compiled, times, explicit)
            d()
            with case.accepted(what):
                sim = S.simulate(p, is_dynamic=True, domain=d, end_time=1., number_of_time_steps=5, differential_solver=solver, compile_equations=compiled)
            got = d.values['t_A']
            grid = [k / 5. for k in range(6)]
            for n, (a, b, c) in rates.items():
                # x' = a - b x + c t
                want = [(now[n] - a / b + c / b ** 2) * math.exp(-b * g) + a / b + c / b * g - c / b ** 2 for g in grid]
                case.ok(np.allclose(got[n].values.astype(float), want, rtol=1e-4, atol=1e-5), '%s: trajectory of %s' % (what, n), got=list(got[n].values), want=want)
            case.event('conditions corrected', int(again > 0))


def missing_initial(case):
    """Without the initial value of a variable or of time there is nothing to integrate: an error."""
    rng = case.rng
    s = S.ode(rng, n=2, forms=('elementary',))
    announce(case, s)
    s.build()
    p = s.make_problem()
    s.domain()
    full = dict(s.x0)
    full[s.time.name] = 0.
    for n in list(full):
        p.initial_conditions = {}
        p.setInitialConditions({k: v for k, v in full.items() if k != n})
        case.rejects('run without the initial condition of %s' % n,
                     lambda: S.simulate(p, end_time=1., is_dynamic=True, domain=s.domain, time_variable_name=[s.time.name]))


CHECK = Check('C14', cases, 60, 2500,
              'random systems of ordinary differential equations (1-4 variables over 1-2 models, dimensions, explicit time, '
              'functions) run by ODEINT and CVODE, compiled and interpreted, on random grids and initial times, against DOP853 '
              'on the shadow equations; distinct by equations, state and grid',
              directed=[functions, uncoupled, grids, blow_up, larger, missing_initial, corrected],
              need=['conditions corrected', 'time named again', 'conditions given in parts', 'systems of many variables', 'trajectories', 'explosions', 'runs ODEINT compiled', 'runs ODEINT interpreted', 'runs CVODE compiled',
                    'runs CVODE interpreted', 'explicit time', 'several models', 'initial time not zero'],
              assumptions=['CVODE is replaced by the stand-in harness/assimulo_stub.py (LSODA), as assimulo is not installed'])
