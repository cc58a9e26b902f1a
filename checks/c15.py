"""C15: what the integrator of differential-algebraic problems receives, and what is returned."""
import numpy as np
from scipy.integrate import solve_ivp

from harness import assimulo_stub as stub
from harness import systems as S
from harness.core import Check, Skip


def consistent(s, xenv, zguess):
    """Algebraic values and derivatives, from the shadow equations, for given differential values."""
    zn = [z.name for z in s.zs]
    alg = [e for e in s.eqs if e.x is None]
    z = np.array([zguess[n] for n in zn])
    for _ in range(60):
        env = dict(xenv, **dict(zip(zn, z)))
        r = np.array([e.fres(env) for e in alg])
        J = np.empty((len(alg), len(zn)))
        for j, n in enumerate(zn):
            h = 1e-6 * max(1., abs(z[j]))
            a, b = dict(env), dict(env)
            a[n] += h
            b[n] -= h
            J[:, j] = [(e.fres(a) - e.fres(b)) / (2 * h) for e in alg]
        if np.linalg.cond(J) > 1e3:
            raise Skip('algebraic part ill-conditioned')
        dz = np.linalg.solve(J, -r)
        z = z + dz
        if np.abs(dz).max() < 1e-12 * max(1., np.abs(z).max()):
            break
    else:
        raise Skip('algebraic part not solved')
    env = dict(xenv, **dict(zip(zn, map(float, z))))
    d = {e.x.name: e.rhs_f(env) for e in s.eqs if e.x is not None}
    return dict(zip(zn, map(float, z))), d


def reference(s, grid):
    xn = [x.name for x in s.xs]
    guess = {z.name: .5 for z in s.zs}
    z0, d0 = consistent(s, dict(s.x0), guess)
    last = [z0]

    def fun(t, y):
        z, d = consistent(s, dict(zip(xn, map(float, y))), last[0])
        return [d[n] for n in xn]
    sol = solve_ivp(fun, (grid[0], grid[-1]), [s.x0[n] for n in xn], method='DOP853', rtol=1e-10, atol=1e-11,
                    dense_output=True)
    if not sol.success:
        raise Skip('reference integration failed')
    Y = sol.sol(grid)
    if np.abs(Y).max() > 1e3:
        raise Skip('untame trajectory')
    out = {n: Y[i] for i, n in enumerate(xn)}
    Z = []
    g = z0
    for k in range(len(grid)):
        g, _ = consistent(s, {n: float(out[n][k]) for n in xn}, g)
        Z.append(g)
    for z in s.zs:
        out[z.name] = np.array([v[z.name] for v in Z])
    return out, z0, d0


def announce(case, s, extra=()):
    for l in s.show():
        case.note(l)
    case.note('x0', s.x0, 'dynamic order', [q.name for q in s.dynamic_order])
    case.key(s.show(), sorted(s.x0.items()), extra)


def handover(case, s, pr, given, dgiven, what):
    """The problem given to IDA, position by position. Returns the names in the order of the positions."""
    xn = {x.name for x in s.xs}
    names = []
    for v in pr.given_y0:
        m = [n for n, g in given.items() if g == v]
        case.ok(len(m) == 1, '%s: an initial value given to the integrator is not one of those configured' % what, got=v)
        names.append(m[0])
    case.ok(sorted(names) == sorted(given), '%s: variables given to the integrator' % what, got=names)
    case.ok(len(pr.given_yd0) == len(names) and pr.algvar is not None and len(pr.algvar) == len(names),
            '%s: lengths' % what)
    for n, d, a in zip(names, pr.given_yd0, pr.algvar):
        case.ok(bool(a) == (n in xn), '%s: differential or algebraic character of %s' % (what, n), got=a)
        if n in xn:
            case.ok(d == dgiven[n], '%s: initial derivative of %s' % (what, n), got=d, expected=dgiven[n])
        else:
            case.ok(d == 0., '%s: initial derivative of the algebraic variable %s' % (what, n), got=d)
    # the residual, at random states and derivatives
    rng = case.rng
    for _ in range(4):
        y = {n: rng.uniform(-2, 2) for n in names}
        yd = {n: rng.uniform(-2, 2) for n in names}
        env = dict(y)
        env.update({n + "'": yd[n] for n in names})
        want = [e.fres(env) for e in s.eqs]
        got = [float(v) for v in np.asarray(pr.fun(pr.t0 + rng.random(), np.array([y[n] for n in names]),
                                                 np.array([yd[n] for n in names]))).reshape(-1)]
        case.ok(len(got) == len(want), '%s: number of residuals' % what)
        left = list(got)
        for w, e in zip(want, s.eqs):
            k = min(range(len(left)), key=lambda i: min(abs(left[i] - w), abs(left[i] + w)))
            d = min(abs(left[k] - w), abs(left[k] + w))
            case.ok(d <= 1e-8 * (1 + abs(w)), '%s: residual of %s' % (what, e.show()), got=got, expected=w)
            left.pop(k)
        case.event('residuals compared', len(want))
        # a state that satisfies the equations
    z, d = consistent(s, {n: rng.uniform(-1, 1) for n in xn}, {z.name: .5 for z in s.zs})
    return names


def run_one(case, s, p, conf, t0, z0, d0, noise, mechanism, mapping=None, sim=None):
    rng = case.rng
    given = dict(s.x0)
    given.update({n: v + (rng.uniform(-.01, .01) if noise else 0.) for n, v in z0.items()})
    dgiven = {n: v + (rng.uniform(-.01, .01) if noise else 0.) for n, v in d0.items()}
    items = list(given.items()) + [(n + '_d', v) for n, v in dgiven.items()] + [(s.time.name, t0)]
    rng.shuffle(items)
    S.give(case, p, items)
    s.domain()
    k = len(stub.instances)
    c = dict(conf, domain=s.domain)
    if mapping:
        c['variable_name_map'] = mapping
    if mechanism:
        c['compilation_mechanism'] = mechanism
    with case.accepted('run of the differential-algebraic problem (%s)' % mechanism):
        sim = S.simulate(p, sim=sim, **c)
    case.ok(len(stub.instances) == k + 1, 'one integrator')
    inst = stub.instances[-1]
    handover(case, s, inst.problem, given, dgiven, 'IDA')
    case.ok(inst.problem.t0 == t0, 'initial time given to the integrator', got=inst.problem.t0)
    return sim


def compare(case, s, sim, grid, ref, mapping):
    mapping = mapping or {}
    tn = s.time.name
    d = sim.getResults('dict')
    case.ok(list(d) == [tn], 'independent variable of the results', got=list(d))
    cols = d[tn]
    want = {mapping.get(n, n) for n in [tn] + list(ref)}
    case.ok(set(cols) == want, 'names of the columns', got=sorted(cols), expected=sorted(want))
    T = np.array(cols[mapping.get(tn, tn)], dtype=float)
    case.ok(T.shape == grid.shape and np.allclose(T, grid, rtol=1e-12, atol=1e-12), 'time grid', got=T[:5].tolist())
    for n, y in ref.items():
        got = np.array(cols[mapping.get(n, n)], dtype=float)
        case.ok(got.shape == y.shape and np.abs(got - y).max() <= 3e-4 * (1 + np.abs(y).max()), 'trajectory of %s' % n,
                error=float(np.abs(got - y).max()) if got.shape == y.shape else None, got=got[:5].tolist(),
                expected=y[:5].tolist())
    case.event('trajectories', len(ref))


def cases(case):
    rng = case.rng
    s = S.ode(rng, n=rng.randint(1, 3), explicit_time=False, algebraic=rng.randint(1, 3))
    t0 = rng.choice([0., 0., 1., -1.5])
    n = rng.choice([10, 20, 31])
    span = rng.choice([.5, 1., 1.5])
    grid = np.linspace(t0, t0 + span, n + 1)
    times = None
    if rng.random() < .25:
        times = grid = np.array([t0] + sorted({round(t0 + rng.uniform(.02, span), 3) for _ in range(rng.randint(1, 9))}))
    ref, z0, d0 = reference(s, grid)
    vals = list(s.x0.values()) + list(z0.values())
    if len(set(vals)) < len(vals):
        raise Skip('equal initial values')
    announce(case, s, (t0, n))
    with case.accepted('building'):
        s.build()
        p = s.make_problem()
    case.ok(p._getProblemType() == 'differential-algebraic', 'type of the problem', got=p._getProblemType())
    conf = dict(initial_time=t0, end_time=t0 + span, number_of_time_steps=n, is_dynamic=True)
    if times is not None:
        conf['times_for_solution'] = rng.choice([times.copy(), times.tolist()])
        case.event('times given')
    r = rng.random()
    if r < .4:
        conf['time_variable_name'] = s.time.name
    elif r < .7:
        conf['time_variable_name'] = [s.time.name]
    mapping = None
    if rng.random() < .3:
        mapping = {m: 'col %d' % i for i, m in enumerate([s.time.name] + list(ref)) if rng.random() < .7}
        if rng.random() < .4:
            mapping = dict(zip(rng.sample(list(ref), len(ref)), rng.sample(list(ref), len(ref))))
            case.event('headers exchanged')
    sim = run_one(case, s, p, conf, t0, z0, d0, rng.random() < .6, rng.choice([None, None, 'numpy', 'math', 'mpmath']), mapping)
    compare(case, s, sim, grid, ref, mapping)
    if s.nm > 1:
        case.event('several models')
    if any(e.form == 'elementary' and e.x is None for e in s.eqs):
        case.event('algebraic equations in elementary form')
    if t0 != 0:
        case.event('initial time not zero')
    first = p._equation_list[0]
    if first.type != 'differential':
        case.event('algebraic equation first')


def robertson(case):
    """The structure of the test of the repository, declared in every order of its variables."""
    import itertools
    rng = case.rng
    for i, perm in enumerate(itertools.permutations([0, 1, 2])):
        F = S.Factory(rng, 1)
        t = F.new('var', short='t')
        v = [F.new('var', short=n) for n in ('y1', 'y2', 'y3')]
        q = [('q', x) for x in v]
        k = [F.new('par', S.X.ZERO, c, True) for c in (.04, 2., 1.5)]
        p = [('q', x) for x in k]
        r1 = ('bin', '+', ('bin', '*', ('num', -1), ('bin', '*', p[0], q[0])), ('bin', '*', p[1], ('bin', '*', q[1], q[2])))
        r2 = ('bin', '-', ('bin', '-', ('bin', '*', p[0], q[0]), ('bin', '*', p[1], ('bin', '*', q[1], q[2]))),
              ('bin', '*', p[2], ('bin', '**', q[1], ('num', 2))))
        e1, e2 = S.Eq(('diff', v[0], t), r1, 'elementary'), S.Eq(('diff', v[1], t), r2, 'residual')
        e3 = S.Eq(('bin', '+', q[0], ('bin', '+', q[1], q[2])), ('num', 1.), rng.choice(['elementary', 'residual']))
        eqs = [[e1, e2, e3][i] for i in perm]
        s = S.System(rng, F.qtys, eqs, 1, style='direct')
        s.order[0] = [t] + k + [v[i] for i in perm]
        for e, x, r in ((e1, v[0], r1), (e2, v[1], r2), (e3, None, None)):
            e.x, e.rhs_f = x, S.fcompile(r) if r else None
        s.time, s.xs, s.zs = t, v[:2], [v[2]]
        s.dynamic_order = [v[i] for i in reversed(perm)]
        s.x0 = {v[0].name: .8, v[1].name: .15}
        n = 1200 if i == 0 else 10
        grid = np.linspace(0, 1, n + 1)
        ref, z0, d0 = reference(s, grid)
        announce(case, s, perm)
        s.build()
        pr = s.make_problem()
        sim = run_one(case, s, pr, dict(end_time=1., number_of_time_steps=n, is_dynamic=True), 0., z0, d0, False, None)
        compare(case, s, sim, grid, ref, None)


def larger(case):
    """Many variables, differential and algebraic."""
    rng = case.rng
    done = 0
    for _ in range(60):
        s = S.ode(rng, n=rng.randint(5, 8) if done else rng.randint(11, 13), explicit_time=False, algebraic=rng.randint(5, 8) if done else rng.randint(1, 3))
        grid = np.linspace(0., .5, 6)
        try:
            ref, z0, d0 = reference(s, grid)
        except Skip:
            continue
        vals = list(s.x0.values()) + list(z0.values())
        if len(set(vals)) < len(vals):
            continue
        announce(case, s)
        with case.accepted('building'):
            s.build()
            p = s.make_problem()
        sim = run_one(case, s, p, dict(initial_time=0., end_time=.5, number_of_time_steps=5, is_dynamic=True), 0., z0, d0, False,
                      rng.choice([None, 'numpy']))
        compare(case, s, sim, grid, ref, None)
        case.event('systems of many variables')
        done += 1
        if done == 3:
            break


def missing_initial(case):
    """Without an initial value, an initial derivative of a differential variable, or of time: an error."""
    rng = case.rng
    s = S.ode(rng, n=2, explicit_time=False, algebraic=1)
    announce(case, s)
    s.build()
    p = s.make_problem()
    s.domain()
    full = dict(s.x0)
    full.update({z.name: .3 for z in s.zs})
    full.update({x.name + '_d': .1 for x in s.xs})
    full[s.time.name] = 0.
    for n in list(full):
        p.initial_conditions = {}
        p.setInitialConditions({k: v for k, v in full.items() if k != n})
        case.rejects('run without the initial condition of %s' % n,
                     lambda: S.simulate(p, end_time=1., is_dynamic=True, domain=s.domain, time_variable_name=[s.time.name]))


CHECK = Check('C15', cases, 120, 5000,
              'random semi-explicit differential-algebraic systems (1-3 differential and 1-3 algebraic variables over 1-2 '
              'models, any order of declaration) run with the recording stand-in of IDA: what it receives is compared position '
              'by position with the shadow equations, what is returned with an index-reduced reference; distinct by equations '
              'and state',
              directed=[robertson, larger, missing_initial],
              need=['conditions given in parts', 'trajectories', 'systems of many variables', 'times given', 'residuals compared', 'several models', 'algebraic equations in elementary form',
                    'initial time not zero', 'algebraic equation first'],
              assumptions=['IDA is replaced by the stand-in harness/assimulo_stub.py (Radau IIA), as assimulo is not installed'])
