"""Random systems of equations in shadow form, and their realisation as models and problems of the code under test."""
import cmath
import math

import numpy as np

from . import expr as X

MODEL_NAMES = ['M1', 'M0', 'tank', 'M_1', 'reactor', 'M11', 'A', 'flow_sheet', 'm']
SHORT = ['x', 'y', 'z', 'a', 'b', 'u', 'v', 'w', 'T', 'P', 'mu', 'rho', 'x1', 'x2', 'x12', 'k_1', 'T_in', 'T_out', 'E', 'S',
         'N', 'Q', 'beta', 'gamma', 'alpha', 'aa', 'x_y', 'H', 'mdot', 'lam', 'C', 'O', 'zeta', 'I', 'ndot', 'x_d', '_a', '_T', 'x_', 'x__y', 'lambda', 'θ', 'Re']


class FDomain(Exception):
    pass


FF = {'Log': math.log, 'Log10': math.log10, 'Sqrt': math.sqrt, 'Abs': abs, 'Exp': math.exp, 'Sin': math.sin,
      'Cos': math.cos, 'Tan': math.tan}


def fcompile(e):
    """Plain float evaluator of a shadow expression: function of {name: value}."""
    k = e[0]
    if k == 'num':
        v = float(e[1])
        return lambda env: v
    if k == 'q':
        q = e[1]
        if q.specified:
            return lambda env: float(q.value)
        n = q.name
        return lambda env: env[n]
    if k == 'diff':
        n = e[1].name + "'"
        return lambda env: env[n]
    if k == 'fn':
        f, a = FF[e[1]], fcompile(e[2])
        return lambda env: f(a(env))
    if k == 'mm':
        f = min if e[1] == 'Min' else max
        fs = [fcompile(a) for a in e[2]]
        return lambda env: f([g(env) for g in fs])
    a, b = fcompile(e[2]), fcompile(e[3])
    op = e[1]
    if op == '+':
        return lambda env: a(env) + b(env)
    if op == '-':
        return lambda env: a(env) - b(env)
    if op == '*':
        return lambda env: a(env) * b(env)
    if op == '/':
        return lambda env: a(env) / b(env)
    return lambda env: a(env) ** b(env)


def cvalue(e, env):
    """Complex extension of the value (outside the real domain of the functions)."""
    k = e[0]
    if k == 'num':
        return complex(e[1])
    if k == 'q':
        return complex(e[1].value if e[1].specified else env[e[1].name])
    if k == 'fn':
        a = cvalue(e[2], env)
        if e[1] == 'Abs':
            return complex(abs(a))
        return getattr(cmath, e[1].lower())(a)
    if k == 'mm':
        vs = [cvalue(a, env) for a in e[2]]
        if any(abs(v.imag) > 1e-9 for v in vs):
            raise FDomain()
        return (min if e[1] == 'Min' else max)(vs, key=lambda v: v.real)
    a, b = cvalue(e[2], env), cvalue(e[3], env)
    if e[1] == '**':
        return a ** b
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[e[1]]()


def plus(*es):
    r = es[0]
    for e in es[1:]:
        r = ('bin', '+', r, e)
    return r


def times(*es):
    r = es[0]
    for e in es[1:]:
        r = ('bin', '*', r, e)
    return r


class Eq:
    """Shadow equation lhs == rhs. form: 'elementary', 'residual' (lhs - rhs)."""

    def __init__(self, lhs, rhs, form='residual', model=0, name=None):
        self.lhs, self.rhs, self.form, self.model, self.name = lhs, rhs, form, model, name
        self.f = None

    def residual(self):
        return ('bin', '-', self.lhs, self.rhs) if self.rhs is not None else self.lhs

    def fres(self, env):
        if self.f is None:
            self.f = fcompile(self.residual())
        return self.f(env)

    def qtys(self):
        r = list(X.leaves(self.lhs))
        return r + (list(X.leaves(self.rhs)) if self.rhs is not None else [])

    def show(self):
        if self.rhs is None:
            return X.show(self.lhs)
        return '%s %s %s' % (X.show(self.lhs), '==' if self.form == 'elementary' else '--', X.show(self.rhs))


class System:
    """Quantities (each with .short, .model) and equations, and what it takes to realise them."""

    def __init__(self, rng, qtys, eqs, nmodels=1, style=None, names=None):
        self.rng, self.qtys, self.eqs, self.nm = rng, qtys, eqs, nmodels
        self.names = names or rng.sample(MODEL_NAMES, nmodels)
        self.style = style or rng.choice(['class', 'direct'])
        for q in qtys:
            q.name = '%s_%s' % (q.short, self.names[q.model])
        self.order = {m: [q for q in qtys if q.model == m] for m in range(nmodels)}
        for m in self.order:
            rng.shuffle(self.order[m])
        for i, e in enumerate(eqs):
            if e.name is None:
                e.name = 'eq%d' % i
        self.time = None          # shadow time variable
        self.models = []
        self.domains = []
        self.problem = None

    def unknowns(self):
        seen, out = set(), []
        for e in self.eqs:
            for q in e.qtys():
                if not q.specified and q.kind == 'var' and q.name not in seen and q is not self.time:
                    seen.add(q.name)
                    out.append(q)
        return out

    # -- realisation -----------------------------------------------------------------
    def _objects(self, m, model, kinds):
        for q in self.order[m]:
            if q.kind in kinds:
                f = {'var': model.createVariable, 'par': model.createParameter, 'con': model.createConstant}[q.kind]
                kw = {}
                ex = getattr(q, 'exposed', '')
                if ex:
                    kw = {'is_exposed': True, 'type': ex}
                q.obj = f(q.short, X.unit(q.dim), '', **kw)
                setattr(model, 'o_' + q.short, q.obj)
                if q.specified:
                    q.obj.setValue(q.value)

    def _equations(self, m, model):
        for e in self.eqs:
            if e.model == m:
                self.realise_eq(e, model)

    def realise_eq(self, e, model):
        l = X.realise(e.lhs)
        if e.rhs is None:
            n = l
        else:
            r = X.realise(e.rhs)
            n = (l == r) if e.form == 'elementary' else l - r
        own = all(q.model == e.model for q in e.qtys())
        kw = {} if own else {'check_equation': False}
        return model.createEquation(e.name, '', n, **kw)

    def _distribute(self, m, model):
        """Dynamic variables on a domain over time (one domain for the system)."""
        if self.time is None:
            return
        from sloth.core.domain import Domain
        if self.time.model == m:
            self.domain = Domain('time domain', self.time.obj.units, self.time.obj, 'dom')
            if self.style == 'direct':
                self._spread()

    def _spread(self):
        for q in self.dynamic_order:
            q.obj.distributeOnDomain(self.domain)

    def build(self):
        from sloth.model import Model
        self.models = []
        if self.style == 'direct' or self.nm > 1 and (self.time is not None or any(
                any(q.model != e.model for q in e.qtys()) for e in self.eqs)):
            # equations that see several models need all the objects first
            self.style = 'direct'
            self.models = [Model(n) for n in self.names]
            for m, model in enumerate(self.models):
                self._objects(m, model, ('con', 'par', 'var'))
            if self.time is not None:
                self._distribute(self.time.model, self.models[self.time.model])
            for m, model in enumerate(self.models):
                self._equations(m, model)
            return self
        sys_ = self

        def mk(m):
            class Generated(Model):
                def DeclareConstants(self):
                    sys_._objects(m, self, ('con',))

                def DeclareParameters(self):
                    sys_._objects(m, self, ('par',))

                def DeclareVariables(self):
                    sys_._objects(m, self, ('var',))
                    if sys_.time is not None and sys_.time.model == m:
                        sys_._distribute(m, self)
                        sys_._spread()

                def DeclareEquations(self):
                    sys_._equations(m, self)
            return Generated(sys_.names[m])
        self.models = [mk(m) for m in range(self.nm)]
        for m in self.models:
            m()
        return self

    def make_problem(self, name='P', order=None, resolve=True):
        from sloth.problem import Problem
        ms = list(self.models)
        self.rng.shuffle(ms)
        if order is not None:
            ms = order
        given = self.rng.randint(1, len(ms)) if self.rng.random() < .15 else 0
        p = Problem(name, models={m.name: m for m in ms[:given]}) if given else Problem(name)
        ms = ms[given:]
        if self.rng.random() < .5:
            p.addModels(ms)
        else:
            for m in ms:
                p.addModels(m)
        if self.time is not None:
            if self.rng.random() < .1:
                p.setTimeVariableName(self.rng.choice(['time', ['t_0', 'tt']]))      # by mistake: replaced below
            p.setTimeVariableName([self.time.name] if self.rng.random() < .5 else self.time.name)
        if resolve:
            p.resolve()
        self.problem = p
        return p

    def show(self):
        return ['%s: %s' % (self.names[e.model], e.show()) for e in self.eqs]


def pick_shorts(rng, n, exclude=()):
    pool = [s for s in SHORT if s not in exclude]
    if n <= len(pool):
        return rng.sample(pool, n)
    return pool + ['q%d' % i for i in range(n - len(pool))]


def mkq(short, kind, dim, value, specified, model=0):
    q = X.Qty(short, kind, dim, value, specified)
    q.short, q.model = short, model
    return q


class Factory:
    """Quantities with distinct names over several models."""

    def __init__(self, rng, nmodels=1):
        self.rng, self.nm = rng, nmodels
        self.qtys = []
        self.used = {m: set() for m in range(nmodels)}
        self.k = 0

    def new(self, kind, dim=X.ZERO, value=0., specified=False, model=None, short=None):
        model = self.rng.randrange(self.nm) if model is None else model
        if short is None:
            free = [s for s in SHORT if s not in self.used[model]]
            if free and self.rng.random() < .8:
                short = self.rng.choice(free)
            else:
                self.k += 1
                short = 'q%d' % self.k
                while short in self.used[model]:
                    self.k += 1
                    short = 'q%d' % self.k
        self.used[model].add(short)
        q = mkq(short, kind, dim, value, specified, model)
        self.qtys.append(q)
        return q

    def coef(self, v, dim=X.ZERO, model=0):
        """A coefficient of this value: a number, or a specified parameter or constant."""
        v = v if isinstance(v, int) else float(v)
        if not any(dim) and self.rng.random() < .6:
            return ('num', v)
        return ('q', self.new(self.rng.choice(['par', 'con', 'par', 'con', 'var']), dim, v, True, model))


def rnd_matrix(rng, n, density=.6):
    """Well-conditioned, with zeros, ints and negatives."""
    for _ in range(200):
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if rng.random() < density:
                    A[i, j] = rng.choice([1, -1, 2, -3, 5, round(rng.uniform(-4, 4), 3), round(rng.uniform(-4, 4), 2)])
        p = list(range(n))
        rng.shuffle(p)
        for i in range(n):
            A[i, p[i]] += rng.choice([-1, 1]) * rng.choice([3, 5, 4.5])
        if np.linalg.matrix_rank(A) == n and np.linalg.cond(A) < 60:
            return A
    return np.eye(n) * 2


def linear(rng, *a, **kw):
    """A well-conditioned linear system of known solution."""
    while True:
        s = _linear(rng, *a, **kw)
        if s is not None and s.cond < 200:
            return s


def _linear(rng, n=None, nmodels=None, style=None, forms=('residual', 'elementary'), scale=None):
    n = n or rng.randint(1, 6)
    nm = nmodels or (rng.randint(1, min(3, n)) if rng.random() < .5 else 1)
    F = Factory(rng, nm)
    dims = [X.ZERO] * 3 + [X.rnd_dim(rng)]
    xs = [F.new('var', rng.choice(dims), model=i if i < nm else None) for i in range(n)]
    A = rnd_matrix(rng, n)
    sol = [rng.choice([rng.uniform(-5, 5), rng.randint(-4, 4), 0, rng.uniform(-5, 5)]) for _ in xs]
    if scale:
        sol = [s * scale for s in sol]
    eqs = []
    for i in range(n):
        D = rng.choice([x.dim for j, x in enumerate(xs) if A[i, j] != 0])
        m = i if i < nm else rng.randrange(nm)
        terms = []
        for j, x in enumerate(xs):
            a = float(A[i, j])
            if a == 0:
                continue
            if a == int(a) and rng.random() < .5:
                a = int(a)
            if abs(a) > 3 and rng.random() < .3:           # the same variable twice
                parts = [a - 1, 1]
            else:
                parts = [a]
            for v in parts:
                dd = X.ddiv(D, x.dim)
                if v == 1 and not any(dd) and rng.random() < .7:
                    t = ('q', x)
                else:
                    r = rng.random()
                    if r < .2 and v != 0:
                        t = ('bin', '/', ('q', x), F.coef(1. / v, X.ddiv(X.ZERO, dd), m))
                    elif r < .6:
                        t = times(F.coef(v, dd, m), ('q', x))
                    else:
                        t = times(('q', x), F.coef(v, dd, m))
                terms.append(t)
        b = float(sum(A[i, j] * sol[j] for j in range(n)))
        if any(D) or rng.random() < .4:
            bt = ('q', F.new(rng.choice(['par', 'con']), D, b, True, m))
        else:
            bt = ('num', b)
        if rng.random() < .1:
            k = rng.randint(-3, 4)
            terms.append(('mm', rng.choice(['Min', 'Max']), tuple(
                ('q', F.new(rng.choice(['par', 'con']), D, v, True, m)) for v in (k, k + rng.choice([1, -2, 3])))))
        rng.shuffle(terms)
        k = rng.randint(0, len(terms) - 1) if rng.random() < .4 else 0
        left, right = terms[k:], terms[:k]
        form = rng.choice(forms)
        lhs = plus(*left)
        if rng.random() < .2 and right:
            rhs = plus(bt, *right) if rng.random() < .5 else ('bin', '+', plus(*right), bt)
        elif right:
            rhs = plus(*right + [bt])
        else:
            rhs = bt
        if rng.random() < .15 and not X.is_num(rhs):
            lhs, rhs = rhs, lhs
        eqs.append(Eq(lhs, rhs, form, m))
    rng.shuffle(eqs)
    s = System(rng, F.qtys, eqs, nm, style)
    s.solution = {x.name: float(v) for x, v in zip(xs, sol)}
    s.kind = 'linear'
    # what is written has this solution (b was rounded by 1/v coefficients)
    names = [x.name for x in xs]

    def lin(vals):
        env = dict(zip(names, vals))
        return np.array([e.fres(env) for e in s.eqs])
    r0 = lin([0.] * n)
    J = np.array([lin([1. if i == j else 0. for i in range(n)]) - r0 for j in range(n)]).T
    if np.linalg.cond(J) > 1e8:
        return None
    xsol = np.linalg.solve(J, -r0)
    s.solution = dict(zip(names, map(float, xsol)))
    s.cond = np.linalg.cond(J)
    return s


def jac(s, env, names):
    J = np.zeros((len(s.eqs), len(names)))
    for j, n in enumerate(names):
        h = 1e-6 * max(1., abs(env[n]))
        a, b = dict(env), dict(env)
        a[n] += h
        b[n] -= h
        for i, e in enumerate(s.eqs):
            J[i, j] = (e.fres(a) - e.fres(b)) / (2 * h)
    return J


def smooth_at(e, env):
    """No kink and no singularity of the derivatives at this point."""
    X.value(e, env)
    k = e[0]
    if k in ('num', 'q'):
        return True
    if k == 'fn':
        if e[1] == 'Abs' and abs(X.value(e[2], env)) < .05:
            return False
        return smooth_at(e[2], env)
    if k == 'mm':
        vs = sorted(float(X.value(a, env)) for a in e[2])
        if any(b - a < .02 for a, b in zip(vs, vs[1:])):
            return False
        return all(smooth_at(a, env) for a in e[2])
    if e[1] == '**':
        b = X.value(e[2], env)
        if abs(b) < .05 or b < 0 and X.unknown(e[3]):
            return False
    return smooth_at(e[2], env) and smooth_at(e[3], env)


def nonlinear(rng, n=None, nmodels=None, style=None, forms=('residual', 'elementary'), smooth=True, must=True):
    """A nonlinear system with a known, well-conditioned root."""
    for _ in range(60):
        n_ = n or rng.randint(1, 4)
        nm = nmodels or (rng.randint(1, min(2, n_)) if rng.random() < .4 else 1)
        F = Factory(rng, nm)
        xs = [F.new('var', X.ZERO, model=i if i < nm else None) for i in range(n_)]
        root = [round(rng.uniform(.4, 2.5), 4) * (1 if rng.random() < .8 else -1) for _ in xs]
        env = dict()
        for i, (x, v) in enumerate(zip(xs, root)):
            x.name = '@%d' % i          # unique until the system gives the qualified name
            x.value = v
            env[x.name] = v
        eqs = []
        ok = True
        nonlin = rng.randrange(n_)
        for i in range(n_):
            m = i if i < nm else rng.randrange(nm)
            main = ('q', xs[i])
            pool = list(xs)
            par = F.new('par', X.ZERO, round(rng.uniform(.5, 2), 3), True, m)
            g = None
            for _t in range(30):
                e = X.rnd_expr(rng, pool + [par], rng.randint(1, 2), funs=True, mm=not smooth, want=X.ZERO)
                if e is not None and X.unknown(e):
                    g = e
                    break
            if g is None:
                ok = False
                break
            shape = rng.choice(['sq', 'exp', 'prod', 'cube'] + ['plain'] * (i != nonlin))
            if shape == 'sq':
                lead = ('bin', '**', main, ('num', 2))
            elif shape == 'exp':
                lead = ('fn', 'Exp', ('bin', '*', main, ('num', .5)))
            elif shape == 'cube':
                lead = ('bin', '+', ('bin', '**', main, ('num', 3)), main)
            elif shape == 'prod':
                lead = ('bin', '*', main, ('bin', '+', main, ('num', 5.)))
            else:
                lead = ('bin', '*', ('num', 4), main)
            lhs = ('bin', '+', lead, ('bin', '*', ('num', round(rng.uniform(.1, .4), 2)), g))
            try:
                if not smooth_at(g, env):
                    raise FDomain()
                v = fcompile(lhs)(env)
            except Exception:
                ok = False
                break
            if isinstance(v, complex) or not math.isfinite(v) or abs(v) > 1e3:
                ok = False
                break
            rhs = F.coef(v, X.ZERO, m)
            form = rng.choice(forms)
            if rng.random() < .3:
                # move something to the right
                lhs, rhs = lead, ('bin', '-', rhs, lhs[3])
            eqs.append(Eq(lhs, rhs, form, m))
        if not ok:
            continue
        rng.shuffle(eqs)
        s = System(rng, F.qtys, eqs, nm, style)
        names = [x.name for x in xs]
        renv = dict(zip(names, root))
        used = {q.name for e in eqs for q in e.qtys() if not q.specified}
        if used != set(names):
            continue
        try:
            J = jac(s, renv, names)
            if not np.all(np.isfinite(J)) or np.linalg.cond(J) > 50 or abs(J).max() > 1e3:
                continue
            res = max(abs(e.fres(renv)) for e in eqs)
        except Exception:
            continue
        if res > 1e-9:
            continue
        s.solution = renv
        s.kind = 'nonlinear'
        return s
    return None


def ode(rng, n=None, nmodels=None, style=None, forms=('elementary', 'residual'), explicit_time=None, algebraic=0):
    """x_i' = f_i(x, z, t), tame; with algebraic > 0, also g_j(x, z) = 0, solvable for z."""
    n = n or rng.randint(1, 4)
    na = algebraic
    nm = nmodels or (2 if rng.random() < .3 and n + na > 1 else 1)
    F = Factory(rng, nm)
    SEC = X.mkdim({'s': 1})
    dimstyle = rng.random() < .5
    tdim = SEC if rng.random() < .7 else X.ZERO
    time = F.new('var', tdim, 0., False, 0, short=rng.choice(['t', 'time', 'tt', 'tau']))
    dims = [X.ZERO] * 2 + ([X.rnd_dim(rng)] if dimstyle else [])
    xs = [F.new('var', rng.choice(dims), model=None) for _ in range(n)]
    zs = [F.new('var', rng.choice(dims), model=None) for _ in range(na)]
    for i, q in enumerate(xs + zs):
        if i < nm - 1 and i < len(xs + zs):
            pass
    if explicit_time is None:
        explicit_time = rng.random() < .35
    eqs = []

    def co(v, dim, m):
        return F.coef(v, dim, m)

    def term(x, D, m, v):
        """v * something bounded of x, of dimension D."""
        dd = X.ddiv(D, x.dim)
        k = rng.random()
        if k < .55:
            return times(co(v, dd, m), ('q', x))
        arg = ('q', x) if not any(x.dim) else ('bin', '/', ('q', x), F.coef(1.5, x.dim, m))
        if k < .75:
            return times(co(v, D, m), ('fn', rng.choice(['Sin', 'Cos']), arg))
        if k < .9:
            sq = ('bin', '+', ('bin', '**', arg, ('num', 2)), ('num', 1.))
            g = rng.choice([('fn', 'Exp', ('bin', '*', ('num', -.5), sq)), ('fn', 'Log', sq), ('fn', 'Sqrt', sq),
                            ('fn', 'Log10', sq), ('fn', 'Abs', arg), ('mm', 'Min', (arg, ('num', .7))),
                            ('mm', 'Max', (('num', -.6), arg)), ('bin', '/', arg, sq)])
            return times(co(v, D, m), g)
        return ('bin', '/', times(co(v, D, m), arg), ('bin', '+', ('num', 1.), ('bin', '**', arg, ('num', 2))))
    for i, x in enumerate(xs):
        m = x.model
        D = X.ddiv(x.dim, tdim)
        ts = [times(co(-round(rng.uniform(.3, 1.5), 3), X.ddiv(D, x.dim), m), ('q', x))]
        for y in rng.sample(xs, rng.randint(0, n)):
            ts.append(term(y, D, m, round(rng.uniform(-.8, .8), 3)))
        for z in zs:
            if rng.random() < .7:
                ts.append(term(z, D, m, round(rng.uniform(-.6, .6), 3)))
        if rng.random() < .5:
            ts.append(F.coef(round(rng.uniform(-1, 1), 3), D, m) if not any(D) else
                      ('q', F.new('par', D, round(rng.uniform(-1, 1), 3), True, m)))
        if explicit_time and (i == 0 or rng.random() < .3):
            arg = ('q', time) if not any(tdim) else ('bin', '*', ('q', time), F.coef(1.3, X.ddiv(X.ZERO, tdim), m))
            ts.append(times(co(.7, D, m), ('fn', 'Cos', arg)))
        rng.shuffle(ts)
        rhs = plus(*ts)
        lhs = ('diff', x, time)
        form = rng.choice(forms)
        e = Eq(lhs, rhs, form, m)
        e.x, e.rhs_e = x, rhs
        eqs.append(e)
    for z in zs:
        # z + (mild) = c
        m = z.model
        D = z.dim
        ts = [('q', z)] if rng.random() < .5 else [times(F.coef(2., X.ZERO, m), ('q', z))]
        for y in rng.sample(xs, rng.randint(1, n)):
            ts.append(term(y, D, m, round(rng.uniform(-.8, .8), 3)))
        for w in zs:
            if w is not z and rng.random() < .4:
                ts.append(times(co(round(rng.uniform(-.2, .2), 3), X.ddiv(D, w.dim), m), ('q', w)))
        if rng.random() < .3 and not any(D):
            ts.append(times(F.coef(.1, X.ZERO, m), ('fn', 'Sin', ('q', z))))
        lhs = plus(*ts)
        rhs = F.coef(round(rng.uniform(-2, 2), 3), D, m)
        e = Eq(lhs, rhs, rng.choice(forms), m)
        e.x, e.rhs_e = None, None
        eqs.append(e)
    order = list(eqs)
    rng.shuffle(order)
    s = System(rng, F.qtys, order, nm, style)
    s.time, s.xs, s.zs = time, xs, zs
    for e in order:
        e.rhs_f = fcompile(e.rhs_e) if e.rhs_e is not None else None
    s.dynamic_order = xs + zs
    rng.shuffle(s.dynamic_order)
    s.x0 = {x.name: round(rng.uniform(-2, 2), 4) for x in xs}
    s.kind = 'ode' if not na else 'dae'
    s.explicit_time = any(time in e.qtys() and not (e.lhs[0] == 'diff' and time is e.lhs[2] and
                                                  time not in list(X.leaves(e.rhs))) for e in order)
    return s


def simulate(problem, name='S', sim=None, sanity=True, msg=False, residuals=False, **conf):
    """Configure and run; returns the simulation."""
    from sloth.simulation import Simulation
    if sim is None:
        sim = Simulation(name)
        sim.setProblem(problem)
    sim.setConfigurations(**conf)
    sim.runSimulation(sanity_check=sanity, show_output_msg=msg, show_final_residuals=residuals)
    return sim


def give(case, p, items):
    """Gives the initial conditions to a problem: all at once, or in parts, some of them corrected later."""
    rng = case.rng
    items = list(items)
    if rng.random() < .5 or len(items) < 2:
        p.setInitialConditions(dict(items))
        return
    k = rng.randint(1, len(items) - 1)
    first = dict(items[:k])
    for n, _ in items[k:]:
        if rng.random() < .3:
            first[n] = rng.uniform(-3, 3)       # corrected below
    p.setInitialConditions(first)
    p.setInitialConditions(dict(items[k:]))
    case.event('conditions given in parts')
