"""C09: what a resolved problem consists of, against a reference assembly."""
from harness import expr as X
from harness import systems as S
from harness.core import Check
from harness.flow import Flow


def announce(case, f):
    for l in f.show():
        case.note(l)
    case.key(f.show())


def match_equations(case, equations, shadows, what):
    """One-to-one between the equations of the problem and the shadow equations, by their residuals at random points."""
    rng = case.rng
    case.ok(len(equations) == len(shadows), '%s: number of equations' % what, got=len(equations), expected=len(shadows))
    names = sorted({q.name for e in shadows for q in e.qtys() if not q.specified})
    pts = [{n: rng.uniform(-2, 2) for n in names} for _ in range(2)]
    want = [[e.fres(p) for p in pts] for e in shadows]
    left = list(range(len(shadows)))
    for eq in equations:
        mine = [float(eq.eval(p)) for p in pts]
        hit = None
        for k in left:
            for sg in (1, -1):
                if all(abs(a - sg * b) < 1e-8 * (1 + abs(b)) for a, b in zip(mine, want[k])):
                    hit = k
                    break
            if hit is not None:
                break
        case.ok(hit is not None, '%s: an equation of the problem (%s) is none of those written, or is there twice' % (
            what, eq.name), residuals=mine)
        left.remove(hit)
    case.event('equations matched', len(equations))


def assembly(case, f, p, what, models=None, conns=None):
    """models: indices of the models of the problem."""
    conns = f.conns if conns is None else conns
    models = set(range(f.nm)) if models is None else set(models)
    shadows = [e for e in f.all_eqs(conns) if e.model in models]
    block = p.equation_block
    match_equations(case, block.equations, shadows, what)
    want = sorted({q.name for e in shadows for q in e.qtys() if not q.specified and q.kind == 'var'
                   and q.model in models})
    case.ok(sorted(block.variable_dict) == want, '%s: unknowns of the problem' % what, got=sorted(block.variable_dict),
            expected=want)
    par = sorted({q.name for e in shadows for q in e.qtys() if not q.specified and q.kind == 'par'})
    got = sorted(n for n, q in block.parameter_dict.items() if q.is_specified is False)
    case.ok(got == par, '%s: unspecified parameters of the problem' % what, got=got, expected=par)
    for n, v in block.variable_dict.items():
        owner = [m for m in f.models if n in m.variables]
        case.ok(len(owner) == 1 and owner[0].variables[n] is v, '%s: %s is the variable of its model' % (what, n))
    case.event('assemblies')


def solved(case, f, p, what):
    solver = case.rng.choice(['sympy', 'scipy', 'symbolicsys'])
    with case.accepted(what):
        got = S.simulate(p, linear_solver=solver).getResults('dict')
    scale = max([1.] + [abs(v) for v in f.solution.values()])
    case.ok(set(got) == set(f.solution), '%s: names of the solution' % what, got=sorted(got))
    for k, v in f.solution.items():
        case.ok(abs(float(got[k]) - v) < 1e-6 * f.cond * scale, '%s: value of %s' % (what, k), got=float(got[k]), expected=v)
    case.event('solutions')


def cases(case):
    from sloth.problem import Problem
    rng = case.rng
    f = Flow(rng)
    announce(case, f)
    f.build()
    orders = []
    first = True
    for rep in range(rng.randint(1, 3)):
        order = list(range(f.nm))
        rng.shuffle(order)
        orders.append(order)
        ms = [f.models[k] for k in order]
        style = rng.choice(['list', 'one', 'mixed', 'gradual', 'given'])
        given = rng.randint(1, f.nm) if style == 'given' else 0
        p = Problem('P%d' % rep, models={m.name: m for m in ms[:given]}) if given else Problem('P%d' % rep)
        case.note('problem with order', order, style)
        connect_first = first and rng.random() < .5
        if connect_first:
            f.connect(p)
        if style == 'list':
            p.addModels(ms)
        elif style == 'one':
            for m in ms:
                p.addModels(m)
        elif style == 'mixed':
            p.addModels(ms[:1])
            p.addModels(ms[1:])
        elif style == 'given':
            p.addModels(ms[given:])
            case.event('models given to the constructor')
        else:
            # resolved with part of the models, then completed
            k = rng.randint(1, f.nm)
            p.addModels(ms[:k])
            if first and not connect_first:
                p.resolve()
                assembly(case, f, p, 'part of the models', order[:k], [])
            p.addModels(ms[k:])
        if first and not connect_first:
            f.connect(p)
        first = False
        p.resolve()
        assembly(case, f, p, 'problem %d' % rep)
        solved(case, f, p, 'problem %d' % rep)
        case.ok(list(p.models) == [m.name for m in ms] if style != 'none' else True, 'models of the problem', got=list(p.models))
        # repetitions
        for _ in range(rng.randint(0, 3)):
            act = rng.choice(['resolve', 'add', 'add list', 'declare', 'resolve twice'])
            case.note(act)
            if act == 'add':
                p.addModels(rng.choice(ms))
            elif act == 'add list':
                x = ms[:]
                rng.shuffle(x)
                p.addModels(x)
            elif act == 'declare':
                rng.choice(ms)()
            elif act == 'resolve twice':
                p.resolve()
            p.resolve()
            assembly(case, f, p, 'after ' + act)
            case.event('repeated: ' + act)
            if rng.random() < .5:
                solved(case, f, p, 'after ' + act)
    case.event('models %d' % f.nm)
    case.event('style ' + f.sys.style)


def types(case):
    """The type of the problem follows from its equations."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless
    rng = case.rng
    for mask in range(1, 8):
        lin, non, dif = mask & 1, mask & 2, mask & 4
        want = 'linear' if mask == 1 else 'nonlinear' if mask in (2, 3) else 'differential' if mask == 4 else \
            'differential-algebraic'
        for order in range(3):
            ms = []
            parts = [k for k, on in (('lin', lin), ('non', non), ('dif', dif)) if on]
            rng.shuffle(parts)
            one = rng.random() < .4
            m = None
            for k in parts:
                if m is None or not one:
                    m = Model('M%d' % len(ms))
                    ms.append(m)
                x = m.createVariable('x' + k, dimless, '')
                if k == 'lin':
                    m.createEquation('e' + k, '', 2 * x() - 3.)
                elif k == 'non':
                    m.createEquation('e' + k, '', x() ** 2 - 3.)
                else:
                    t = m.createVariable('t', dimless, '')
                    d = Domain('d', dimless, t, '')
                    x.distributeOnDomain(d)
                    m.createEquation('e' + k, '', x.Diff(t) == -1. * x())
            p = Problem('p')
            rng.shuffle(ms)
            p.addModels(ms)
            p.resolve()
            case.ok(p._getProblemType() == want, 'type of a problem with %s' % parts, got=p._getProblemType())
            case.event('types')


def late(case):
    """Models declared only by the resolution of the problem, and specified or unused variables."""
    from sloth.problem import Problem
    rng = case.rng
    for _ in range(6):
        s = S.linear(rng, nmodels=1, style='class')
        for l in s.show():
            case.note(l)
        unused = S.mkq('unused', 'var', X.ZERO, 0., False, 0)
        unused.name = 'unused_' + s.names[0]
        given = S.mkq('given', 'var', X.ZERO, 2.5, True, 0)
        given.name = 'given_' + s.names[0]
        s.order[0] += [unused, given]
        e = s.eqs[0]
        e.lhs = ('bin', '*', e.lhs, ('num', 1.)) if not any(q.dim != X.ZERO for q in e.qtys()) else e.lhs
        s.build()
        # a problem with models that were never declared
        from sloth.model import Model  # noqa: F401
        p = Problem('p')
        p.addModels(s.models)
        p.resolve()
        case.ok(sorted(p.equation_block.variable_dict) == sorted(s.solution), 'unknowns, with unused and specified variables',
                got=sorted(p.equation_block.variable_dict), expected=sorted(s.solution))
        fresh = type(s.models[0])(s.names[0])
        p2 = Problem('p2')
        p2.addModels(fresh)
        p2.resolve()
        case.ok(sorted(p2.equation_block.variable_dict) == sorted(s.solution), 'unknowns of a model declared by the resolution',
                got=sorted(p2.equation_block.variable_dict), expected=sorted(s.solution))
        got = S.simulate(p2, linear_solver='sympy').getResults('dict')
        for k, v in s.solution.items():
            case.ok(abs(float(got[k]) - v) < 1e-8 * s.cond * max(1., abs(v)), 'value of %s' % k, got=got)
        case.event('models declared by the resolution')


def coincidences(case):
    """Equations that look alike: equal qualified names in different models, the same expression twice, expressions built from
    one another, models without objects of their own."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    from sloth.core.equation_operators import Exp, Abs, Min, Max
    rng = case.rng

    def count(p, n, unknowns, what):
        with case.accepted(what):
            p.resolve()
        case.ok(len(p.equation_block.equations) == n and len(p.equation_block._equations_list) == n, '%s: number of equations' % what,
                got=[e.name for e in p.equation_block.equations], expected=n)
        case.ok(sorted(p.equation_block._var_list) == sorted(unknowns), '%s: unknowns' % what, got=p.equation_block._var_list)
        case.event('coincidences')

    for trial in range(6):
        # a_A of B and a of A_B; the variables differ
        b, ab = Model('B'), Model('A_B')
        x, y = b.createVariable('x', dimless), ab.createVariable('y', dimless)
        b.createEquation('a_A', '', x() - 1.)
        ab.createEquation('a', '', y() - 2.)
        ms = [b, ab]
        rng.shuffle(ms)
        p = Problem('P')
        p.addModels(ms)
        for what in ('equal names of equations', 'equal names of equations, again'):
            count(p, 2, ['x_B', 'y_A_B'], what)
        got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy', 'symbolicsys'])).getResults('dict')
        case.ok(abs(float(got['x_B']) - 1) < 1e-9 and abs(float(got['y_A_B']) - 2) < 1e-9, 'equal names of equations: solution', got=got)
        # names of equations that are parts of others, and equal to names of objects
        m = Model('M')
        v = [m.createVariable(n, dimless) for n in ('x', 'ax', 'x1', 'e', 'X', 'E', 'x_', 'Ax')]
        used = rng.sample(v, rng.randint(1, 5))
        for n, q in zip(rng.sample(['e', 'ee', 'x', 'e_M', 'e1', 'M'], len(used)), used):
            m.createEquation(n, '', 2. * q() - 3.)
        p = Problem('P')
        p.addModels(m)
        count(p, len(used), [q.name for q in used], 'names that are parts of others')
        # a model whose equations mention only objects of others
        a, spec = Model('a'), Model('spec')
        x, y = a.createVariable('x', dimless), a.createVariable('y', dimless)
        a.createEquation('e', '', y() - 3. * x())
        spec.createEquation('given', '', x() - 2., check_equation=False)
        ms = [a, spec, Model('empty'), Model('void')]
        rng.shuffle(ms)
        p = Problem('P')
        for q in ms:
            p.addModels(q)
        count(p, 2, ['x_a', 'y_a'], 'models without objects of their own (%s)' % [q.name for q in ms])
        got = S.simulate(p, linear_solver='sympy').getResults('dict')
        case.ok(abs(float(got['y_a']) - 6) < 1e-9, 'models without objects: solution', got=got)
    parts = [lambda x: 2. * x(), lambda x: x() + 1., lambda x: x() - 4., lambda x: x() / 2., lambda x: -1. * x(), lambda x: x() ** 2, lambda x: Exp(x()),
             lambda x: x() * x(), lambda x: Abs(x())]
    wholes = [lambda p, y: p * y(), lambda p, y: p / y(), lambda p, y: p + y(), lambda p, y: p - y(), lambda p, y: y() - p, lambda p, y: y() / p,
              lambda p, y: y() * p, lambda p, y: y() + p, lambda p, y: Min(p, y()), lambda p, y: Max(y(), p), lambda p, y: (p == y())[0] - y() * 2.]
    for i, mk in enumerate(wholes):
        for make in rng.sample(parts, 3):
            a, b = Model('a'), Model('b')
            x = a.createVariable('x', dimless)
            y = b.createVariable('y', dimless)
            part = make(x)
            whole = mk(part, y)
            with case.accepted('an expression used in another, then in an equation of its own model'):
                a.createEquation('first', '', part - 1.)
                a.createEquation('again', '', part - 1.)
            b.createEquation('whole', '', whole - 1., check_equation=False)
            p = Problem('P')
            p.addModels(a)
            count(p, 2, ['x_a'], 'the same equation twice')
            p.addModels(b)
            count(p, 3, ['x_a', 'y_b'], 'expressions made of one another (%d)' % i)


class Interrupted(Exception):
    pass


def meanwhile(case):
    """Values given to variables, and other declarations, between the declaration of the models and the resolution of the
    problem, and between resolutions: what counts is what holds at the last resolution."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng

    class Chain(Model):
        # x0 is given by an equation unless it was specified; x(k+1) = a*xk + 1
        n, a, keep, fail = 2, 2., True, None
        def DeclareVariables(self):
            for k in range(self.n + 1):
                if self.fail == ('variable', k):
                    raise Interrupted('declaration')
                if not self.keep or 'x%d_%s' % (k, self.name) not in self.variables:
                    self.__dict__['x%d' % k] = self.createVariable('x%d' % k, dimless)
        def DeclareParameters(self):
            if not self.keep or 'a_' + self.name not in self.parameters:
                self.pa = self.createParameter('a', dimless)
            self.pa.setValue(self.a)
        def DeclareEquations(self):
            self.equations.clear()
            if not self.x0.is_specified:
                self.createEquation('first', '', self.x0() - 3.)
            for k in range(self.n):
                if self.fail == ('equation', k):
                    raise Interrupted('declaration')
                self.createEquation('e%d' % k, '', self.__dict__['x%d' % (k + 1)]() == self.pa()*self.__dict__['x%d' % k]() + 1.)

    for trial in range(8):
        ms = [Chain(q) for q in ('A', 'B')]
        for m in ms:
            m.n, m.a, m.keep = rng.randint(1, 3), rng.choice([2., -1.5]), rng.random() < .7
        p = Problem('P')
        first = rng.choice(['declared', 'added', 'resolved', 'nothing'])
        if first == 'declared':
            for m in ms:
                m()
        p.addModels(ms)
        if first == 'resolved':
            p.resolve()
        given = {}
        for step in range(3):
            for m in ms:
                act = rng.choice(['specify', 'parameter', 'longer', 'none'])
                if act == 'specify' and m.keep and 'x0_' + m.name in m.variables:
                    given[m.name] = rng.choice([4., -2., 0.])
                    m.x0.setValue(given[m.name])
                elif act == 'parameter':
                    m.a = rng.choice([.5, 3., -1.])
                elif act == 'longer':
                    m.n += 1
                case.note(first, step, m.name, act, m.n, m.a, m.keep, given.get(m.name))
            if rng.random() < .3:
                # a resolution that ends by an error, somewhere in the declarations
                m = rng.choice(ms)
                m.fail = rng.choice(['variable', 'equation']), rng.randrange(m.n)
                case.note('the declaration of', m.name, 'fails at', *m.fail)
                try:
                    p.resolve()
                except Interrupted:
                    case.event('resolutions that failed')
                m.fail = None
            with case.accepted('resolution'):
                p.resolve()
            want = {}
            for m in ms:
                x = given.get(m.name, 3.)
                if m.name not in given:
                    want['x0_' + m.name] = x
                for k in range(m.n):
                    x = m.a*x + 1.
                    want['x%d_%s' % (k + 1, m.name)] = x
            n = sum(m.n + (m.name not in given) for m in ms)
            case.ok(len(p.equation_block.equations) == n, 'equations after what was given meanwhile', got=[e.name for e in p.equation_block.equations], expected=n)
            case.ok(sorted(p.equation_block._var_list) == sorted(want), 'unknowns after what was given meanwhile', got=p.equation_block._var_list, expected=sorted(want))
            got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
            for k, v in want.items():
                case.ok(abs(float(got[k]) - v) < 1e-9*max(1., abs(v)), 'value of %s after what was given meanwhile' % k, got=got, expected=v)
            case.event('given meanwhile')


def replaced(case):
    """Another version of a model added under the same name takes the place of the one added before."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng

    def version(name, n):
        m, want = Model(name), {}
        for k in range(n):
            x, v = m.createVariable('x%d' % k, dimless), round(rng.uniform(-5, 5), 2)
            m.createEquation('e%d' % k, '', x() - v)
            want[x.name] = v
        return m, want
    for trial in range(8):
        p, now = Problem('P'), {}
        for step in range(rng.randint(3, 6)):
            new = [rng.choice(['A', 'B', 'AB']) for _ in range(rng.randint(1, 2))]
            made = [(n, *version(n, rng.randint(1, 3))) for n in new]
            ms = [m for _, m, _ in made]
            p.addModels(ms[0] if len(ms) == 1 and rng.random() < .5 else ms)
            for n, _, w in made:
                if n in now:
                    case.event('models replaced')
                now[n] = w
            if rng.random() < .3:
                continue
            p.resolve()
            want = {k: v for w in now.values() for k, v in w.items()}
            case.ok(sorted(p.equation_block._var_list) == sorted(want) and len(p.equation_block.equations) == len(want), 'unknowns and equations after models were replaced',
                    got=p.equation_block._var_list, expected=sorted(want))
            got = S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy'])).getResults('dict')
            case.ok(all(abs(float(got[k]) - v) < 1e-9 for k, v in want.items()), 'solution after models were replaced', got=got, expected=want)


def large(case):
    """Many models, and models of many equations."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial in range(3):
        n, size = ((34, 1), (12, 3), (1, 45))[trial]
        ms, want, last = [Model('N%d' % k) for k in range(n)], {}, None
        for m in ms:
            for j in range(size):
                x = m.createVariable('v%d' % j, dimless)
                a, b = rng.choice([1., -1., .5]), round(rng.uniform(-3, 3), 2)
                if last is None or rng.random() < .3:
                    m.createEquation('e%d' % j, '', a*x() - b)
                    want[x.name] = b/a
                else:
                    m.createEquation('e%d' % j, '', a*x() - last() - b, check_equation=False)
                    want[x.name] = (b + want[last.name])/a
                last = x
        order = list(ms)
        rng.shuffle(order)
        p = Problem('P')
        p.addModels(order if rng.random() < .5 else [order[:n//2], order[n//2:]])
        for again in range(2):
            with case.accepted('a problem of %d models of %d equations' % (n, size)):
                p.resolve()
            case.ok(len(p.equation_block.equations) == n*size == len({id(e) for e in p.equation_block.equations}), '%d models of %d equations: number of equations' % (n, size),
                    got=len(p.equation_block.equations))
            case.ok(sorted(p.equation_block._var_list) == sorted(want), '%d models of %d equations: unknowns' % (n, size), got=p.equation_block._var_list)
        got = S.simulate(p, linear_solver='scipy').getResults('dict')
        for k, v in want.items():
            case.ok(abs(float(got[k]) - v) < 1e-8*max(1., abs(v)), '%d models of %d equations: value of %s' % (n, size, k), got=got[k], expected=v)
        case.event('large problems')


CHECK = Check('C09', cases, 220, 9000,
              'random flowsheets of 2-4 models assembled in several problems, with any order and way of adding, connecting and '
              'resolving, then resolved, declared and added again; equations matched one-to-one with the written ones by '
              'their residuals; distinct by equations',
              directed=[types, late, coincidences, meanwhile, replaced, large],
              need=['models given to the constructor', 'resolutions that failed', 'models replaced', 'assemblies', 'equations matched', 'solutions', 'repeated: resolve', 'repeated: add', 'repeated: declare',
                    'style class', 'style direct', 'types', 'models declared by the resolution', 'coincidences', 'given meanwhile', 'large problems'])
