"""C12: linear problems against the exact solution of the shadow system, by every solver."""
import numpy as np

from harness import systems as S
from harness.core import Check, close

SOLVERS = ['sympy', 'scipy', 'symbolicsys', None]


def solve_and_check(case, s, p, solver, guess=None, **kw):
    conf = dict(linear_solver=solver)
    if solver == 'symbolicsys' and guess:
        conf['initial_guess'] = guess
    with case.accepted('linear problem with the solver %s' % solver):
        sim = S.simulate(p, **conf, **kw)
        got = sim.getResults('dict')
    case.ok(set(got) == set(s.solution), 'solver %s: names of the solution' % solver,
            got=sorted(got), expected=sorted(s.solution))
    scale = max([1.] + [abs(v) for v in s.solution.values()])
    tol = 1e-7 * s.cond * scale if solver == 'symbolicsys' else 1e-9 * s.cond * scale
    for n, v in s.solution.items():
        case.ok(abs(float(got[n]) - v) <= tol, 'solver %s: value of %s' % (solver, n), got=float(got[n]), expected=v)
    case.event('solutions by %s' % solver)
    lst = sim.getResults('list')
    case.ok(len(lst) == len(s.solution), 'solver %s: length of the list of results' % solver)
    return got


def announce(case, s):
    for l in s.show():
        case.note(l)
    case.note('solution', s.solution)
    case.key(s.show(), sorted(s.solution.items()))


def cases(case):
    rng = case.rng
    s = S.linear(rng, scale=rng.choice([None, None, None, 100., 1e-2]))
    announce(case, s)
    with case.accepted('building the models'):
        s.build()
    with case.accepted('building the problem'):
        p = s.make_problem()
    case.ok(p._getProblemType() == 'linear', 'type of the problem', got=p._getProblemType())
    order = list(SOLVERS)
    rng.shuffle(order)
    guess = {n: rng.uniform(-3, 3) for n in s.solution} if rng.random() < .5 else None
    for solver in order:
        solve_and_check(case, s, p, solver, guess)
    case.event('systems of %d' % len(s.eqs))
    case.event('models %d' % s.nm)
    if any(e.form == 'elementary' for e in s.eqs):
        case.event('with equations in elementary form')
    if s.nm > 1:
        case.event('several models')


def chain(case):
    """A larger tridiagonal system over several models."""
    rng = case.rng
    s = S.linear(rng, n=12, nmodels=4)
    announce(case, s)
    s.build()
    p = s.make_problem()
    for solver in SOLVERS:
        solve_and_check(case, s, p, solver)


def zero_solution(case):
    """Homogeneous system: the unique solution is zero."""
    rng = case.rng
    for n in (1, 2, 3):
        while True:
            s = S.linear(rng, n=n, scale=1e-300)
            s.solution = {k: 0. for k in s.solution}
            for e in s.eqs:
                for q in e.qtys():
                    if abs(q.value) < 1e-290:
                        q.value = 0.
            if all(abs(e.fres(s.solution)) < 1e-290 for e in s.eqs):
                break
        announce(case, s)
        s.build()
        p = s.make_problem()
        for solver in SOLVERS:
            solve_and_check(case, s, p, solver)


def one_to_many(case):
    """Names that are prefixes or parts of others, sorted differently than declared."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    import itertools
    for perm in itertools.permutations(['x', 'x1', 'x_1', 'xx']):
        m = Model('x')
        v = {n: m.createVariable(n, dimless, '') for n in perm}
        val = {'x': 1., 'x1': -2., 'x_1': 3.5, 'xx': 7.}
        items = list(v)
        for i, n in enumerate(items):
            o = items[(i + 1) % 4]
            m.createEquation('e' + n, '', v[n]() + 3. * v[o]() - (val[n] + 3. * val[o]))
        p = Problem('p')
        p.addModels(m)
        p.resolve()
        for solver in SOLVERS:
            got = S.simulate(p, linear_solver=solver).getResults('dict')
            for n in val:
                case.ok(close(got[n + '_x'], val[n]), 'value of %s' % n, got=got)


def structured(case):
    """Matrices with a structure, and matrices that almost have it."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for i in range(40):
        n = rng.randint(2, 6)
        shape = ['symmetric', 'triangular', 'diagonal', 'banded', 'antisymmetric', 'permutation', 'definite', 'circulant'][i % 8]
        R = np.array([[round(rng.uniform(-1, 1), 3) for _ in range(n)] for _ in range(n)])
        I = np.eye(n)
        A = {'symmetric': (R + R.T) / 2 + I * rng.choice([3, -3]), 'triangular': np.tril(R, -1) + 2 * I, 'diagonal': np.diag(np.diag(R) + 2.),
             'banded': np.triu(np.tril(R, 1), -1) + 3 * I, 'antisymmetric': R - R.T + 1.5 * I, 'permutation': I[rng.sample(range(n), n)] * 2,
             'definite': R @ R.T + I, 'circulant': np.array([np.roll(R[0], k) for k in range(n)]) + 3 * I}[shape]
        if rng.random() < .5:
            A = A.T.copy()
        near = rng.choice([0., 1e-2, 1e-3, 1e-5])
        A = np.array([[v + near * rng.uniform(-1, 1) * (near > 0 and rng.random() < .6) for v in row] for row in A])
        rows = rng.sample(range(n), n) if rng.random() < .3 else range(n)
        A = A[list(rows)]
        if np.linalg.cond(A) > 100:
            continue
        names = rng.sample(['x', 'y', 'z', 'x1', 'x10', 'x2', 'a', 'B', 'T'], n)
        x = np.array([rng.uniform(-5, 5) for _ in range(n)])
        # small and large coefficients and solutions
        sa, sx = (rng.choice([1e-12, 1e-8, 1e-5, 1e5, 1e8]) if rng.random() < .4 else 1.), (rng.choice([1e-6, 1e-3, 1e3, 1e6]) if rng.random() < .4 else 1.)
        A, x = A*sa, x*sx
        m = Model('M')
        v = [m.createVariable(q, dimless, '') for q in names]
        for k in range(n):
            terms = [float(A[k, j]) * v[j]() for j in range(n) if A[k, j] != 0]
            e = terms[0]
            for w in terms[1:]:
                e = e + w
            b = float(A[k] @ x)
            m.createEquation('e%d' % k, '', (e == b) if rng.random() < .5 else e - b)
        p = Problem('p')
        p.addModels(m)
        p.resolve()
        case.note(shape, near, A.tolist())
        for solver in SOLVERS:
            with case.accepted('%s matrix by %s' % (shape, solver)):
                got = S.simulate(p, linear_solver=solver).getResults('dict')
            for q, w in zip(names, x):
                case.ok(abs(float(got[q + '_M']) - w) < 1e-7 * sx * max(1., abs(w / sx)), '%s matrix, solver %s: value of %s' % (shape, solver, q),
                        got=float(got[q + '_M']), expected=w, off=near, scale_of_coefficients=sa, scale_of_solution=sx)
            case.event('structured matrices')
            if sa != 1 or sx != 1:
                case.event('scaled matrices')


def large(case):
    """Many unknowns over many models, whose names do not sort in the order of declaration."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for n, nm in ((18, 1), (30, 11)):
        ms = [Model('M%d' % k) for k in range(nm)]
        v = [ms[k % nm].createVariable('x%d' % k, dimless) for k in range(n)]
        A = np.array([[0. if rng.random() < .8 else round(rng.uniform(-1, 1), 3) for _ in range(n)] for _ in range(n)])
        A = A + np.diag(np.abs(A).sum(1) + 1.)*rng.choice([1., -1.])
        x = np.array([round(rng.uniform(-5, 5), 3) for _ in range(n)])
        for k in rng.sample(range(n), n):
            e = -float(A[k] @ x)
            for j in range(n):
                if A[k, j]:
                    e = float(A[k, j])*v[j]() + e
            ms[k % nm].createEquation('e%d' % k, '', e, check_equation=False)
        p = Problem('P')
        p.addModels(rng.sample(ms, nm))
        p.resolve()
        for solver in SOLVERS:
            with case.accepted('%d unknowns by %s' % (n, solver)):
                got = S.simulate(p, linear_solver=solver).getResults('dict')
            for q, w in zip(v, x):
                case.ok(abs(float(got[q.name]) - w) < 1e-7*max(1., abs(w)), '%d unknowns, solver %s: value of %s' % (n, solver, q.name), got=float(got[q.name]), expected=w)
        case.event('large systems')


CHECK = Check('C12', cases, 500, 4000,
              'random square linear systems of known solution (condition below 60 by construction; 1-6 unknowns, 1-3 models, '
              'declared in classes or directly, terms on both sides, elementary or residual form, coefficients as numbers, '
              'parameters or constants with dimensions) solved by each linear solver; distinct by equations and solution',
              directed=[chain, zero_solution, one_to_many, structured, large],
              need=['large systems', 'structured matrices', 'scaled matrices', 'solutions by sympy', 'solutions by scipy', 'solutions by symbolicsys', 'with equations in elementary form',
                    'several models'])
