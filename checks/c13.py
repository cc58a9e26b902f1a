"""C13: whatever the nonlinear solvers return is a root of the shadow equations."""
import math

from harness import expr as X
from harness import systems as S
from harness.core import Check, Skip

SOLVERS = ['*', 'symbolicsys', None]


def scale_of(e, env):
    """Magnitude of the terms of an equation."""
    def terms(x):
        if x[0] == 'bin' and x[1] in '+-':
            return terms(x[2]) + terms(x[3])
        return [abs(S.fcompile(x)(env))]
    return max([1.] + terms(e.residual()))


def root_ok(case, s, got, what, tol=2e-6):
    names = {q.name for q in s.unknowns()}
    case.ok(set(got) == names, '%s: names of the solution' % what, got=sorted(got), expected=sorted(names))
    env = {k: float(v) for k, v in got.items()}
    for e in s.eqs:
        try:
            r, sc = e.fres(env), scale_of(e, env)
            if isinstance(r, complex) or isinstance(sc, complex):
                raise TypeError
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            # outside the real domain of a term, that may have been cancelled
            try:
                r, sc = abs(S.cvalue(e.residual(), env)), 1. + max(map(abs, env.values()))
            except OverflowError:
                case.ok(False, '%s: residual of %s overflows' % (what, e.show()), got=env)
            except (ZeroDivisionError, S.FDomain):
                case.event('not evaluable')
                continue
        case.ok(abs(r) <= tol * sc, '%s: residual of %s' % (what, e.show()),
                residual=r, scale=sc, got=env)


def announce(case, s):
    for l in s.show():
        case.note(l)
    case.note('root', s.solution)
    case.key(s.show(), sorted(s.solution.items()))


def attempt(case, s, p, what, **conf):
    """A run that may raise, but may not return anything else than a root."""
    try:
        sim = S.simulate(p, **conf)
    except Exception as ex:
        case.event('raised ' + type(ex).__name__)
        return None
    got = sim.getResults('dict')
    root_ok(case, s, got, what)
    case.event('roots returned')
    return got


def cases(case):
    rng = case.rng
    s = S.nonlinear(rng, smooth=rng.random() < .8)
    if s is None:
        raise Skip('no well-conditioned system found')
    announce(case, s)
    with case.accepted('building'):
        s.build()
        p = s.make_problem()
    case.ok(p._getProblemType() == 'nonlinear', 'type of the problem', got=p._getProblemType())
    near = {n: v * (1 + rng.uniform(-1, 1) * 1e-3) for n, v in s.solution.items()}
    items = list(near.items())
    rng.shuffle(items)
    near = dict(items)
    polish = rng.choice([None, None, 'hybr', 'anderson'])
    mechanism = rng.choice(SOLVERS)
    with case.accepted('a guess close to a well-conditioned root'):
        sim = S.simulate(p, nonlinear_solver=mechanism, initial_guess=near)
    root_ok(case, s, sim.getResults('dict'), 'close guess')
    case.event('runs from a close guess')
    if polish:
        # the polisher may leave the domain of the equations: a root, or an error
        case.note('polished by', polish)
        if attempt(case, s, p, 'polished guess', nonlinear_solver=mechanism, initial_guess=near,
                   initial_guess_solver=polish) is not None:
            case.event('guess polished by ' + polish)
        else:
            case.event('not solved when polished by ' + polish)
    # far guesses: a root, or an error
    for _ in range(2):
        far = {n: rng.choice([rng.uniform(-5, 5), rng.uniform(.1, 3), 1., 30.]) for n in s.solution}
        case.note('far guess', far)
        attempt(case, s, p, 'far guess', nonlinear_solver=rng.choice(SOLVERS), initial_guess=far)
    attempt(case, s, p, 'default guess', nonlinear_solver=rng.choice(SOLVERS))


def separated_roots(case):
    """Every variable has two roots far apart: the guess of a variable leads to its own root."""
    rng = case.rng
    tally = []
    for n in (1, 2, 3, 4):
        for _ in range(3):
            F = S.Factory(rng, 1)
            xs = [F.new('var') for _ in range(n)]
            k = rng.choice([1., 1., .02, 50.])
            roots = [(round(k * (10. * (i + 1) + rng.uniform(0, 3)), 5), round(-k * (10. * (i + 1) + rng.uniform(0, 3)), 5))
                     for i in range(n)]
            eqs = []
            for x, (a, b) in zip(xs, roots):
                q = ('q', x)
                eqs.append(S.Eq(('bin', '-', ('bin', '**', q, ('num', 2)), ('bin', '*', ('num', a + b), q)),
                                ('num', -a * b), rng.choice(['residual', 'elementary'])))
            rng.shuffle(eqs)
            s = S.System(rng, F.qtys, eqs, 1)
            s.solution = {x.name: rng.choice(r) for x, r in zip(xs, roots)}
            announce(case, s)
            s.build()
            p = s.make_problem()
            items = [(k, v * 1.001) for k, v in s.solution.items()]
            rng.shuffle(items)
            for mechanism in SOLVERS:
                for polish in (None, 'hybr', 'anderson'):
                    with case.accepted('guess next to the root'):
                        sim = S.simulate(p, nonlinear_solver=mechanism, initial_guess=dict(items), initial_guess_solver=polish)
                    got = sim.getResults('dict')
                    root_ok(case, s, got, 'separated roots')
                    if polish == 'anderson':
                        # a method that may leave the neighbourhood: but hardly ever does from here
                        tally.append(all(abs(float(got[k]) - v) < 1e-3 * abs(v) for k, v in s.solution.items()))
                        case.event('separated roots polished by anderson')
                        continue
                    for k, v in s.solution.items():
                        case.ok(abs(float(got[k]) - v) < 1e-3 * abs(v), 'the root next to the guess', name=k,
                                got=float(got[k]), expected=v)
                    case.event('runs from a close guess')
    case.ok(sum(tally) >= .7 * len(tally), 'guesses next to a root, polished by anderson, lead to other roots',
            of=len(tally), to_theirs=sum(tally))


def rootless(case):
    """No real root: an error, never numbers."""
    rng = case.rng

    def q(x):
        return ('q', x)
    for i in range(10):
        F = S.Factory(rng, 1)
        x, y = F.new('var'), F.new('var')
        c = round(rng.uniform(.5, 4), 3)
        sq = lambda v: ('bin', '**', q(v), ('num', 2))  # noqa: E731
        shapes = [
            [S.Eq(sq(x), ('num', -c))],
            [S.Eq(('fn', 'Exp', q(x)), ('num', -c))],
            [S.Eq(('fn', 'Sin', q(x)), ('num', 1 + c))],
            [S.Eq(('bin', '+', sq(x), ('bin', '+', q(x), ('num', 10.))), ('num', 0.5))],
            [S.Eq(('bin', '+', sq(x), sq(y)), ('num', -c)), S.Eq(('bin', '-', q(x), q(y)), ('num', .5))],
            [S.Eq(('bin', '+', sq(x), sq(y)), ('num', c)), S.Eq(('bin', '+', sq(x), sq(y)), ('num', c + 1.))],
            [S.Eq(('bin', '+', q(x), ('fn', 'Exp', q(y))), ('num', c)),
             S.Eq(('bin', '+', q(x), ('fn', 'Exp', q(y))), ('num', c + 2.))],
            [S.Eq(('fn', 'Abs', q(x)), ('num', -c))],
        ]
        eqs = shapes[i % len(shapes)]
        used = {v for e in eqs for v in e.qtys()}
        s = S.System(rng, [v for v in (x, y) if v in used], eqs, 1)
        s.solution = {}
        announce(case, s)
        s.build()
        p = s.make_problem()
        for mechanism in SOLVERS:
            for g in (None, .1, 2.5, -3.):
                conf = {'nonlinear_solver': mechanism}
                if g is not None:
                    conf['initial_guess'] = {v.name: g + .1 * k for k, v in enumerate(used)}
                case.rejects('%s, which has no real root, by %s' % ('; '.join(s.show()), mechanism),
                             lambda: S.simulate(p, **conf))
                case.event('rootless problems refused')


def complex_or_error(case):
    """The symbolic solver on systems without real roots: what it returns, complex or not, satisfies the equations."""
    rng = case.rng
    for i in range(12):
        F = S.Factory(rng, 1)
        x, y = F.new('var'), F.new('var')
        qx, qy = ('q', x), ('q', y)
        c, b = round(rng.uniform(.5, 4), 3), round(rng.uniform(-1, 1), 3)
        sq = ('bin', '**', qx, ('num', 2))
        eqs = [[S.Eq(sq, ('num', -c))],
               [S.Eq(('bin', '+', sq, ('bin', '*', ('num', b), qx)), ('num', -1. - c))],
               [S.Eq(('bin', '*', qx, qy), ('num', 1. + c)), S.Eq(('bin', '+', qx, qy), ('num', b))],
               [S.Eq(sq, ('num', -c)), S.Eq(qy, ('bin', '+', ('bin', '*', ('num', 2.), qx), ('num', b)))]][i % 4]
        for e in eqs:
            e.form = rng.choice(['residual', 'elementary'])
        used = {v for e in eqs for v in e.qtys()}
        s = S.System(rng, [v for v in (x, y) if v in used], eqs, 1)
        s.solution = {}
        announce(case, s)
        s.build()
        p = s.make_problem()
        try:
            got = S.simulate(p, nonlinear_solver='sympy').getResults('dict')
        except Exception as ex:
            case.event('raised ' + type(ex).__name__)
            continue
        case.ok(set(got) == {q.name for q in used}, 'sympy: names of the solution', got=sorted(got))
        env = {k: complex(v) for k, v in got.items()}
        for e in s.eqs:
            r = abs(S.cvalue(e.residual(), env))
            case.ok(r <= 1e-8 * (1 + max(abs(v) for v in env.values()) ** 2), 'sympy: residual of %s' % e.show(), residual=r,
                    got={k: str(v) for k, v in got.items()})
        case.event('without real root by sympy')


def overflow(case):
    """The residuals overflow at the guess: a root, or an error."""
    rng = case.rng
    for g in (30., 40., 60., -50.):
        F = S.Factory(rng, 1)
        x = F.new('var')
        q = ('q', x)
        eqs = [S.Eq(('bin', '+', ('bin', '*', q, ('bin', '+', q, ('num', 5.))),
                     ('bin', '*', ('num', .29), ('fn', 'Exp', ('bin', '*', q, q)))), ('num', 25.))]
        s = S.System(rng, F.qtys, eqs, 1)
        s.solution = {}
        announce(case, s)
        s.build()
        p = s.make_problem()
        for mechanism in SOLVERS:
            attempt(case, s, p, 'overflow', nonlinear_solver=mechanism, initial_guess={x.name: g})


def symbolic(case):
    """Polynomial systems by the symbolic solver: what it returns satisfies the equations."""
    rng = case.rng
    for i in range(12):
        F = S.Factory(rng, 1)
        x, y = F.new('var'), F.new('var')
        a, b = rng.choice([2., 3., 4.5]), rng.choice([1., -2., 5.])
        qx, qy = ('q', x), ('q', y)
        # (x - a)(x - b) = 0 ; y = x + a*x
        eqs = [S.Eq(('bin', '-', ('bin', '**', qx, ('num', 2)), ('bin', '*', ('num', a + b), qx)), ('num', -a * b)),
               S.Eq(('bin', '-', qy, ('bin', '*', F.coef(a), qx)), ('num', b))]
        if i % 2:
            eqs = [S.Eq(('bin', '*', qx, qy), ('num', a * b)), S.Eq(('bin', '+', qx, qy), ('num', a + b))]
        for e in eqs:
            e.form = rng.choice(['residual', 'elementary'])
        rng.shuffle(eqs)
        s = S.System(rng, F.qtys, eqs, 1)
        s.solution = {}
        announce(case, s)
        s.build()
        p = s.make_problem()
        with case.accepted('polynomial system by sympy'):
            sim = S.simulate(p, nonlinear_solver='sympy')
        root_ok(case, s, sim.getResults('dict'), 'sympy')
        case.event('roots by sympy')


def exact_coefficients(case):
    """Quadratic systems whose coefficients have many digits, large and small, by the symbolic solver."""
    rng = case.rng
    for i in range(10):
        F = S.Factory(rng, 1)
        x = F.new('var')
        scale = rng.choice([1., 1., 1e3, 1e-2])
        a, b = round(scale * rng.uniform(1, 9), 6), round(-scale * rng.uniform(1, 9), 7)
        qx = ('q', x)
        eqs = [S.Eq(('bin', '-', ('bin', '**', qx, ('num', 2)), ('bin', '*', F.coef(a + b), qx)), ('num', -a * b))]
        if i % 2:
            y = F.new('var')
            k, m = round(rng.uniform(.1, 9), 6), round(rng.uniform(-9, 9) * scale, 6)
            eqs.append(S.Eq(('q', y), ('bin', '+', ('bin', '*', F.coef(k), qx), ('num', m))))
        for e in eqs:
            e.form = rng.choice(['residual', 'elementary'])
        rng.shuffle(eqs)
        s = S.System(rng, F.qtys, eqs, 1)
        s.solution = {}
        announce(case, s)
        s.build()
        p = s.make_problem()
        for mechanism in ('sympy', '*'):
            with case.accepted('quadratic system by %s' % mechanism):
                sim = S.simulate(p, nonlinear_solver=mechanism, initial_guess={q.name: 2. * scale for q in s.unknowns()})
            got = sim.getResults('dict')
            root_ok(case, s, got, mechanism, 1e-7)
            v = float(got[x.name])
            case.ok(min(abs(v - a), abs(v - b)) <= 1e-6 * scale, '%s: one of the roots' % mechanism, got=v, expected=(a, b))
            case.event('quadratic systems')


def large(case):
    """A larger coupled system, over several models."""
    rng = case.rng
    for _ in range(2):
        s = None
        while s is None:
            s = S.nonlinear(rng, n=rng.randint(5, 7), nmodels=3)
        announce(case, s)
        s.build()
        p = s.make_problem()
        near = {n: v * (1 + rng.uniform(-1, 1) * 1e-3) for n, v in s.solution.items()}
        with case.accepted('a guess close to a well-conditioned root'):
            sim = S.simulate(p, initial_guess=near)
        root_ok(case, s, sim.getResults('dict'), 'large')
        case.event('runs from a close guess')

    # a chain of many unknowns, monotonic: one root
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    from sloth.core.equation_operators import Sin
    for n, nm in ((12, 1), (24, 3)):
        ms = [Model('M%d' % k) for k in range(nm)]
        v = [ms[k % nm].createVariable('x%d' % k, dimless) for k in range(n)]
        x = [round(rng.uniform(-2, 2), 3) for _ in range(n)]
        for k in rng.sample(range(n), n):
            c = x[k] + .1*x[k]**3 - .2*math.sin(x[(k + 1) % n])
            ms[k % nm].createEquation('e%d' % k, '', v[k]() + .1*v[k]()**3 - .2*Sin(v[(k + 1) % n]()) - c, check_equation=False)
        p = Problem('P')
        p.addModels(rng.sample(ms, nm))
        p.resolve()
        with case.accepted('a chain of %d unknowns' % n):
            got = S.simulate(p, initial_guess={q.name: w + rng.uniform(-.1, .1) for q, w in zip(v, x)}).getResults('dict')
        for q, w in zip(v, x):
            case.ok(abs(float(got[q.name]) - w) < 1e-5, 'a chain of %d unknowns: %s' % (n, q.name), got=float(got[q.name]), expected=w)
        case.event('large chains')


CHECK = Check('C13', cases, 240, 12000,
              'random nonlinear systems with a known well-conditioned root (1-7 unknowns, 1-3 models, operators and functions '
              'of C03) run from close, default and far guesses with and without polishing, systems without roots, systems '
              'whose variables have separate roots; distinct by equations and root',
              directed=[separated_roots, rootless, complex_or_error, overflow, symbolic, exact_coefficients, large],
              need=['separated roots polished by anderson', 'large chains', 'runs from a close guess', 'roots returned', 'rootless problems refused', 'roots by sympy',
                    'guess polished by hybr', 'guess polished by anderson', 'raised NumericalError'])
