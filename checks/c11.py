"""C11: the degrees of freedom counted on the shadow system decide whether a simulation may run."""
import re

from harness import expr as X
from harness import systems as S
from harness.core import Check, str_of
from harness.flow import Flow

INT = re.compile(r'-?\d+')


def exponent_names(e, inside=False, acc=None):
    """Quantities that occur in an exponent."""
    acc = set() if acc is None else acc
    if e[0] == 'q':
        if inside:
            acc.add(e[1].name)
    elif e[0] == 'fn':
        exponent_names(e[2], inside, acc)
    elif e[0] == 'mm':
        for a in e[2]:
            exponent_names(a, inside, acc)
    elif e[0] == 'bin':
        exponent_names(e[2], inside, acc)
        exponent_names(e[3], inside or e[1] == '**', acc)
    return acc


def differentiated(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == 'diff':
        acc.add(e[1].name)
    elif e[0] == 'fn':
        differentiated(e[2], acc)
    elif e[0] == 'mm':
        for a in e[2]:
            differentiated(a, acc)
    elif e[0] == 'bin':
        differentiated(e[2], acc)
        differentiated(e[3], acc)
    return acc


class Problem_:
    """A system (or flowsheet), its mutable shadow, and the count of its degrees of freedom."""

    def __init__(self, case):
        rng = case.rng
        self.rng = rng
        self.flow = None
        r = rng.random()
        if r < .35:
            s = S.linear(rng)
        elif r < .55:
            s = S.nonlinear(rng)
            if s is None:
                s = S.linear(rng)
        elif r < .75:
            self.flow = Flow(rng, kinds=('vars', 'vars', 'nodes'))
            s = self.flow.sys
        else:
            s = S.ode(rng, algebraic=rng.choice([0, 0, 1, 2]), explicit_time=None, forms=('elementary',))
            if s.kind == 'dae' and s.explicit_time:
                s = S.ode(rng, algebraic=1, explicit_time=False, forms=('elementary',))
        self.s = s
        self.dynamic = s.time is not None
        self.dropped = []
        self.changed = 0

    def eqs(self):
        return self.flow.all_eqs() if self.flow else list(self.s.eqs)

    def unknowns(self):
        out = {}
        for e in self.eqs():
            for q in e.qtys():
                if not q.specified and q is not self.s.time:
                    out[q.name] = q
        return out

    def dof(self):
        return len(self.unknowns()) - len(self.eqs())

    # -- changes to the shadow; each returns how the count moves, or None when it does not apply ----------
    def specify(self):
        fixed = set()
        conn = set()
        for e in self.eqs():
            for side in (e.lhs, e.rhs):
                if side is not None:
                    fixed |= differentiated(side)
        if self.flow:
            for c in self.flow.conns:
                conn |= {q.name for q in c.outs + c.ins} if c.kind != 'nodes' else set()
        ok = []
        for n, q in self.unknowns().items():
            if n in fixed:
                continue
            # each equation keeps an unknown
            if all(any(not o.specified and o is not q and o is not self.s.time for o in e.qtys()) or q not in e.qtys()
                   for e in self.eqs()):
                ok.append(q)
        if not ok:
            return None
        q = self.rng.choice(ok)
        q.specified, q.value = True, round(self.rng.uniform(.5, 1.5), 3)
        self.forget()
        return 'specify %s' % q.name, -1

    def free(self):
        used, exps = {}, set()
        for e in self.eqs():
            for side in (e.lhs, e.rhs):
                if side is not None:
                    exponent_names(side, False, exps)
            for q in e.qtys():
                if q.specified and q.kind == 'par' and e.model == q.model:
                    used[q.name] = q
        names = [n for n in used if n not in exps]
        if not names:
            return None
        q = used[self.rng.choice(sorted(names))]
        q.specified = False
        self.forget()
        return 'leave parameter %s unspecified' % q.name, 1

    def drop(self):
        if len(self.s.eqs) < 2:
            return None
        before = set(self.unknowns())
        e = self.rng.choice(self.s.eqs)
        self.s.eqs.remove(e)
        self.dropped.append(e)
        return 'remove the equation %s' % e.show(), 1 - (len(before) - len(self.unknowns()))

    def restore(self):
        if not self.dropped:
            return None
        before = set(self.unknowns())
        e = self.dropped.pop()
        gone = {q.name for q in e.qtys() if q.specified}
        if all(q.specified or q is self.s.time for q in e.qtys()) or differentiated(e.lhs) & gone:
            return None
        self.s.eqs.append(e)
        return 'restore the equation %s' % e.show(), len(self.unknowns()) - len(before) - 1

    def add(self):
        qs = [q for q in self.unknowns().values() if q.kind == 'var']
        if not qs:
            return None
        q = self.rng.choice(sorted(qs, key=lambda v: v.name))
        m = q.model
        e = S.Eq(S.times(('num', round(self.rng.uniform(1, 3), 2)), ('q', q)), ('q', self.const(q, m)), 'residual', m,
                 name='extra%d' % self.changed)
        self.s.eqs.append(e)
        return 'one more equation %s' % e.show(), -1

    def const(self, q, m):
        k = S.mkq('cc%d' % self.changed, 'con', q.dim, 1.25, True, m)
        k.name = '%s_%s' % (k.short, self.s.names[m])
        self.s.qtys.append(k)
        self.s.order[m].append(k)
        return k

    def forget(self):
        for e in self.eqs():
            e.f = None

    # -- realisation ---------------------------------------------------------------------------------
    def build(self):
        self.s.build()

    def problem(self):
        p = self.s.make_problem(resolve=False)
        if self.flow:
            self.flow.connect(p)
        p.resolve()
        return p


def conf(b):
    rng = b.rng
    kw = {}
    if b.dynamic:
        kw = dict(is_dynamic=True, end_time=.3, number_of_time_steps=3, domain=b.s.domain, compile_equations=False)
    else:
        kw = dict(linear_solver=rng.choice(['sympy', 'scipy', 'symbolicsys']),
                  nonlinear_solver=rng.choice(['symbolicsys', '*']))      # (solving with sympy may take for ever)
    return kw


def guess_of(b):
    r = {}
    for n, q in b.unknowns().items():
        r[n] = b.s.solution.get(n, 1.) if getattr(b.s, 'solution', None) else 1.
    if b.flow:
        r.update({n: v for n, v in b.flow.solution.items() if n in r})
    return r


def judge(case, b, p, what, sim=None):
    """Run, and compare with the count."""
    n = b.dof()
    kw = conf(b)
    if case.rng.random() < .2 and p._getProblemType() is not None:
        kw['problem_type'] = p._getProblemType()
        case.event('type of the problem configured')
    if sim is not None:
        sim.setProblem(p)
    if b.dynamic:
        ini = {x.name: b.s.x0[x.name] for x in b.s.xs if x.name in b.unknowns()}
        if b.s.kind == 'dae' or any(z.name in b.unknowns() for z in b.s.zs):
            ini.update({z.name: .1 for z in b.s.zs if z.name in b.unknowns()})
            ini.update({x.name + '_d': .1 for x in b.s.xs if x.name in b.unknowns()})
            ini.update({z.name + '_d': .1 for z in b.s.zs if z.name in b.unknowns()})
        p.initial_conditions.clear()
        p.setInitialConditions(dict(ini, **{b.s.time.name: 0.}))
    elif 'nonlinear' == p._getProblemType():
        kw['initial_guess'] = guess_of(b)
    case.note('%s: %d unknowns, %d equations' % (what, len(b.unknowns()), len(b.eqs())))
    err = None
    try:
        S.simulate(p, sim=sim, **kw)
    except Exception as ex:
        err = str_of(ex)
    over, under = (('OVER' in err), ('UNDER' in err)) if err else (False, False)
    case.event('problems with dof %s' % (n if abs(n) < 3 else '>2'))
    if n == 0:
        case.ok(not over and not under, '%s: as many equations as unknowns, but refused: %s' % (what, (err or '')[:400]))
        if not b.changed and p._getProblemType() != 'nonlinear':      # what solves those is the matter of C13
            case.ok(err is None, '%s: well-posed, but it did not run: %s' % (what, (err or '')[:400]))
            case.event('well-posed problems run')
        return
    case.ok(err is not None, '%s: degrees of freedom are %d, but it ran' % (what, n))
    name = 'OVER' if n < 0 else 'UNDER'
    case.ok((over, under) == (n < 0, n > 0), '%s: degrees of freedom are %d, but the error does not name the %s-specification' % (
        what, n, name), error=err[:600])
    m = re.search(r'Freedom\s*[=:]\s*(-?\d+)', err)
    said = [int(m.group(1))] if m else [int(v) for v in INT.findall(err)]
    case.ok(n in said or (not m and -n in said), '%s: number of degrees of freedom reported' % what, reported=said[:5], expected=n)
    case.event('refused: ' + name.lower() + '-specified')


def cases(case):
    rng = case.rng
    b = Problem_(case)
    for l in b.s.show():
        case.note(l)
    b.build()
    p = b.problem()
    assert b.dof() == 0
    sim = None
    if rng.random() < .4:
        from sloth.simulation import Simulation
        sim = Simulation('S')
        case.event('one simulation for all')
    judge(case, b, p, 'as generated', sim)
    inplace = b.s.style == 'class' and not b.flow
    for k in range(rng.randint(2, 5)):
        moves = [b.specify, b.drop, b.add, b.restore, b.free]
        rng.shuffle(moves)
        before = b.dof()
        for mv in moves:
            b.changed += 1
            r = mv()
            if r is not None:
                break
        else:
            continue
        what, delta = r
        case.note(what)
        assert b.dof() == before + delta
        if not b.unknowns() or not b.eqs():
            break
        if b.dynamic and not any(differentiated(e.lhs) for e in b.eqs()):
            break
        if inplace and mv in (b.specify, b.add) and not b.dynamic and rng.random() < .7:
            # the same problem and models, resolved again (models are declared again by it)
            p.resolve()
            case.event('resolved again')
        else:
            b.build()
            p = b.problem()
        judge(case, b, p, 'after: ' + what, sim)
        case.event('change: ' + what.split()[0])
    case.key(case.log)


def redundant(case):
    """Equations are counted as they are written: equal, proportional and trivial ones included."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng

    def run(p, dof, what, **kw):
        err = ''
        try:
            S.simulate(p, **kw)
        except Exception as ex:
            err = str_of(ex)
        name = 'OVER' if dof < 0 else 'UNDER'
        case.ok(name in err, '%s: degrees of freedom are %d, but the error is not of %s-specification' % (what, dof, name), error=err[:300])
        case.ok('Freedom = %d' % dof in err or str(dof) in INT.findall(err), '%s: number reported' % what, error=err[:300])
        case.event('redundant equations')
    for trial in range(4):
        for kind in ('equal', 'proportional', 'other form', 'same expression'):
            a, b = Model('A'), Model('B')
            x, y = a.createVariable('x', dimless), a.createVariable('y', dimless)
            n = rng.randint(1, 3)
            ex = x() - 2. * y()
            a.createEquation('e', '', ex)
            a.createEquation('f', '', x() + y() - 3.)
            for k in range(n):
                m = rng.choice([a, b])
                g = {'equal': lambda: x() - 2. * y(), 'proportional': lambda: 3. * x() - 6. * y(), 'other form': lambda: x() == 2. * y(),
                     'same expression': lambda: ex}[kind]()
                m.createEquation('g%d' % k, '', g, check_equation=False)
            p = Problem('P')
            p.addModels([a, b])
            p.resolve()
            run(p, -n, 'redundant (%s)' % kind, linear_solver=rng.choice(['sympy', 'scipy', 'symbolicsys']))
            # unspecified parameters no equation mentions, or that only equations of another problem do
            c = Model('C')
            z = c.createVariable('z', dimless)
            c.createParameter('unused', dimless)
            c.createEquation('e', '', z() - 1.)
            other = Problem('Q')
            other.addModels(c)
            other.resolve()
            with case.accepted('unused parameter left unspecified'):
                S.simulate(other, linear_solver='sympy')
            free = [c.createParameter('free%d' % k, dimless) for k in range(n + 2)]
            c.createEquation('all', '', sum(q() for q in free) - 1.)
            c2 = Problem('R')
            c2.addModels(c)
            c2.resolve()
            run(c2, n + 1, 'many unspecified parameters', linear_solver='scipy')


def time_names(case):
    """Time is no unknown, and adds no equation, whatever the number of names given for it."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.domain import Domain
    from sloth.core.template_units import dimless, s
    rng = case.rng
    for names in (['t_A'], 't_A', ['t_A', 'u_B'], ['u_B', 't_A'], ['t_A', 'other']):
        for extra in (-1, 0, 1):
            for explicit in (False, True):
                a, b = Model('A'), Model('B')
                t, u = a.createVariable('t', s), b.createVariable('u', s)
                x, y = a.createVariable('x', dimless), a.createVariable('y', dimless)
                k = a.createParameter('k', s ** -1)
                k.setValue(1.)
                d = Domain('d', s, t)
                x.distributeOnDomain(d)
                y.distributeOnDomain(d)
                a.createEquation('ex', '', x.Diff(t) == -1. * k() * x() * (k() * t() if explicit else 1.))
                if extra > -1:
                    a.createEquation('ey', '', y.Diff(t) == -1. * k() * (y() + x()))
                else:
                    a.createEquation('ex2', '', x.Diff(t) == -1. * k() * (y() + x()))
                    a.createEquation('ey2', '', y.Diff(t) == -1. * k() * (y() + x()))
                if extra == 1:
                    z = a.createVariable('z', dimless)
                    a.equations.clear()
                    a.createEquation('ex', '', x.Diff(t) == -1. * k() * x() * (k() * t() if explicit else 1.))
                    a.createEquation('ey', '', y.Diff(t) == -1. * k() * (y() + x() + z()))
                d()
                p = Problem('P')
                p.addModels(a)
                p.setTimeVariableName(names)
                p.resolve()
                p.setInitialConditions({'x_A': 1., 'y_A': .5, 't_A': 0.})
                err = ''
                try:
                    S.simulate(p, is_dynamic=True, domain=d, end_time=.2, number_of_time_steps=3, time_variable_name='t_A', compile_equations=False)
                except Exception as ex:
                    err = str_of(ex)
                got = ('OVER' in err) * -1 + ('UNDER' in err) * 1
                case.ok(got == extra, 'time named %s%s: degrees of freedom are %d' % (names, ', explicit' if explicit else '', extra), error=err[:300])
                case.event('names of time')


def large(case):
    """Many unknowns and many equations too few or too many."""
    from sloth.model import Model
    from sloth.problem import Problem
    from sloth.core.template_units import dimless
    rng = case.rng
    for trial in range(3):
        for nm, nv, d in ((1, 24, 0), (1, 20, 13), (1, 9, -14), (3, 8, 0), (3, 8, 17), (3, 5, -11), (12, 3, 0), (12, 3, 22), (12, 2, -7), (11, 2, 1), (2, 15, -1)):
            ms, eqs = [Model('M%d' % i) for i in range(nm)], []
            xs = [(m, m.createVariable('x%d' % i, dimless)) for m in ms for i in range(nv)]
            pars = rng.randint(0, max(0, min(d, 9)))
            for i, (m, x) in enumerate(xs):
                ys = [y for n, y in xs if n is m]
                eqs.append((m, lambda x=x, y=ys[i % nv - 1]: 3. * x() - y() - 1.))
            for k in range(max(0, -d)):
                m, x = rng.choice(xs)
                eqs.append((m, lambda x=x, k=k: x() - 2. - k))
            # an equation less for each unspecified parameter missing from the count
            drop = rng.sample(range(len(eqs)), max(0, d - pars))
            kept = [e for i, e in enumerate(eqs) if i not in drop]
            used = set()
            for m in ms:
                mine = [e for n, e in kept if n is m]
                if not mine:
                    # the model needs one
                    kept.append([e for e in eqs if e[0] is m][0])
            for k in range(pars):
                m = rng.choice(ms)
                p = m.createParameter('p%d' % k, dimless)
                i = rng.choice([i for i, e in enumerate(kept) if e[0] is m])
                kept[i] = (m, lambda f=kept[i][1], p=p: f() + p())
            rng.shuffle(kept)
            for i, (m, f) in enumerate(kept):
                e = m.createEquation('e%d' % i, '', f(), check_equation=False)
                used |= set(e.objects_declared)
            p = Problem('P')
            p.addModels(ms)
            p.resolve()
            dof = len(used) - len(kept)
            err = ''
            try:
                S.simulate(p, linear_solver=rng.choice(['sympy', 'scipy', 'symbolicsys']))
            except Exception as ex:
                err = str_of(ex)
            what = '%d models, %d unknowns, %d equations' % (nm, len(used), len(kept))
            case.ok(('OVER' in err, 'UNDER' in err) == (dof < 0, dof > 0), what, error=err[:300])
            case.ok((err == '') == (dof == 0), what, error=err[:300])
            case.ok(not dof or 'Freedom = %d' % dof in err or str(dof) in INT.findall(err), '%s: number reported' % what, error=err[:300])
            case.event('large systems')
            case.event('large systems ' + ('refused' if dof else 'run'))


CHECK = Check('C11', cases, 400, 12000,
              'random linear, nonlinear, differential and differential-algebraic systems and flowsheets, then chains of changes '
              '(specify an unknown, free a parameter, remove, add or restore an equation); distinct by history',
              directed=[redundant, time_names, large],
              need=['one simulation for all', 'type of the problem configured', 'large systems refused', 'large systems run', 'redundant equations', 'names of time', 'refused: over-specified', 'refused: under-specified', 'well-posed problems run', 'problems with dof 0',
                    'change: specify', 'change: leave', 'change: remove', 'change: one', 'resolved again'])
