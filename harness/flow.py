"""Random flowsheets: models with exposed inputs and outputs, and the connections between them, in shadow form."""
import numpy as np

from . import expr as X
from . import systems as S


class Conn:
    """ins and outs equated: by variables ('vars'), with a custom expression ('expr'), or by expressions ('nodes')."""

    def __init__(self, m1, m2, outs, ins, kind, lhs, rhs, as_list, outside=False):
        self.m1, self.m2, self.outs, self.ins, self.kind = m1, m2, outs, ins, kind
        self.lhs, self.rhs, self.as_list, self.outside = lhs, rhs, as_list, outside
        self.eq = S.Eq(lhs, rhs, 'residual', m2, name='conn')

    def show(self, names):
        return 'connect %s -> %s (%s): %s' % (names[self.m1], names[self.m2], self.kind, self.eq.show())

    def make(self, p, models, cur):
        """Create the connection; cur(q): the current object of the shadow quantity."""
        for q in self.eq.qtys():
            q.obj = cur(q)
        if self.kind == 'nodes':
            first = (self.outside if isinstance(self.outside, str) else 'source of %s' % self.ins[0].name) if self.outside is not False else models[self.m1]
            p.createConnection(first, models[self.m2], X.realise(self.lhs), X.realise(self.rhs))
            return
        o = [cur(q) for q in self.outs]
        i = [cur(q) for q in self.ins]
        if not self.as_list and len(o) == 1:
            o = o[0]
        if not self.as_list and len(i) == 1:
            i = i[0]
        kw = {}
        if self.kind == 'expr':
            # of a residual, or of two sides
            kw['expr'] = X.realise(self.eq.residual()) if self.as_list else (X.realise(self.lhs) == X.realise(self.rhs))
        p.createConnection(models[self.m1], models[self.m2], o, i, **kw)


class Flow:
    def __init__(self, rng, nm=None, style=None, feedback=True, nonlinear=False, kinds=('vars', 'vars', 'expr', 'nodes')):
        for _ in range(200):
            if self._draw(rng, nm, style, feedback, nonlinear, kinds):
                return
        raise RuntimeError('no flowsheet drawn')

    def _draw(self, rng, nm, style, feedback, nonlinear, kinds):
        nm = nm or rng.randint(2, 4)
        F = S.Factory(rng, nm)
        dims = [X.ZERO, X.ZERO] + [X.rnd_dim(rng)]
        ins = {m: [F.new('var', rng.choice(dims), model=m) for _ in range(0 if m == 0 and not feedback else rng.randint(0 if m == 0 else 1, 3))]
               for m in range(nm)}
        outs = {m: [F.new('var', rng.choice(dims), model=m) for _ in range(rng.randint(1, 3))] for m in range(nm)}
        both = []
        for m in range(nm):
            for q in ins[m]:
                q.exposed = 'input'
            for q in outs[m]:
                q.exposed = 'output'
        eqs = []
        # each output is an affine function of the inputs of its model
        for m in range(nm):
            for q in outs[m]:
                t = []
                for i in ins[m]:
                    if rng.random() < .7:
                        a = round(rng.uniform(-.8, .8), 3) or .5
                        t.append(S.times(F.coef(a, X.ddiv(q.dim, i.dim), m), ('q', i)))
                if nonlinear and ins[m] and rng.random() < .5:
                    i = rng.choice(ins[m])
                    arg = ('q', i) if not any(i.dim) else ('bin', '/', ('q', i), F.coef(1.5, i.dim, m))
                    t.append(S.times(F.coef(round(rng.uniform(-.3, .3), 3), q.dim, m), ('fn', 'Sin', arg)))
                b = round(rng.uniform(-3, 3), 3)
                t.append(F.coef(b, q.dim, m) if not t or rng.random() < .8 else t.pop())
                rhs = S.plus(*t)
                lhs = ('q', q)
                eqs.append(S.Eq(lhs, rhs, rng.choice(['residual', 'elementary']), m))
        # connections
        conns = []
        for m in range(nm):
            pending = list(ins[m])
            rng.shuffle(pending)
            while pending:
                i = pending.pop()
                src = [k for k in range(nm) if k != m and (feedback or k < m) and any(o.dim == i.dim for o in outs[k])]
                if not src:
                    return False
                k = rng.choice(src)
                pool = [o for o in outs[k] if o.dim == i.dim]
                oo = rng.sample(pool, rng.randint(1, min(2, len(pool))))
                ii = [i]
                mates = [j for j in pending if j.dim == i.dim]
                if mates and rng.random() < .4:
                    j = rng.choice(mates)
                    pending.remove(j)
                    ii.append(j)
                    # the split of the sum is decided by an equation of the model
                    eqs.append(S.Eq(('q', j), S.times(F.coef(round(rng.uniform(.2, .8), 3), X.ZERO, m), ('q', i)),
                                    rng.choice(['residual', 'elementary']), m))
                kind = rng.choice(kinds)
                outside = False
                so, si = S.plus(*[('q', o) for o in oo]), S.plus(*[('q', v) for v in ii])
                if kind == 'vars':
                    lhs, rhs = si, so
                elif kind == 'expr':
                    lhs = si
                    rhs = S.times(('num', round(rng.uniform(.3, 1.5), 3)), so)
                else:
                    lhs = S.times(('num', round(rng.uniform(.3, 1.5), 3)), so) if rng.random() < .6 else so
                    rhs = si if rng.random() < .6 else S.times(si, ('num', round(rng.uniform(.5, 1.5), 3)))
                    outside = rng.choice([False, False, False, True, ''])
                conns.append(Conn(k, m, oo, ii, kind, lhs, rhs, rng.random() < .4, outside))
        # values computed but not used anywhere, and declared but not occurring
        for m in range(nm):
            if rng.random() < .3:
                F.new('var', rng.choice(dims), model=m)
            if rng.random() < .3:
                F.new('par', rng.choice(dims), 1.5, True, model=m)
        rng.shuffle(eqs)
        rng.shuffle(conns)
        s = S.System(rng, F.qtys, eqs, nm, style)
        if nm > 1 and s.style == 'class':
            pass
        self.sys, self.conns, self.nm = s, conns, nm
        self.ins, self.outs = ins, outs
        names = [q.name for q in self.unknowns()]
        alleqs = self.all_eqs()
        if len(names) != len(alleqs):
            return False
        x = np.zeros(len(names))
        for _ in range(50):
            env = dict(zip(names, x))
            r = np.array([e.fres(env) for e in alleqs])
            J = np.empty((len(names), len(names)))
            for j, n in enumerate(names):
                a, b = dict(env), dict(env)
                a[n] += 1e-5
                b[n] -= 1e-5
                J[:, j] = [(e.fres(a) - e.fres(b)) / 2e-5 for e in alleqs]
            if np.linalg.cond(J) > 300:
                return False
            dx = np.linalg.solve(J, -r)
            x = x + dx
            if np.abs(dx).max() < 1e-11 * max(1., np.abs(x).max()):
                break
        else:
            return False
        if np.abs(x).max() > 100:
            return False
        self.solution = dict(zip(names, map(float, x)))
        self.cond = np.linalg.cond(J)
        return True

    def all_eqs(self, conns=None):
        return list(self.sys.eqs) + [c.eq for c in (self.conns if conns is None else conns)]

    def unknowns(self, conns=None, models=None):
        seen, out = set(), []
        for e in self.all_eqs(conns):
            if models is not None and e.model not in models:
                continue
            for q in e.qtys():
                if not q.specified and q.kind == 'var' and q.name not in seen:
                    seen.add(q.name)
                    out.append(q)
        return out

    def show(self):
        return self.sys.show() + [c.show(self.sys.names) for c in self.conns]

    def build(self):
        self.sys.build()
        return self

    @property
    def models(self):
        return self.sys.models

    def current(self, q):
        m = self.sys.models[q.model]
        return {'var': m.variables, 'par': m.parameters, 'con': m.constants}[q.kind][q.name]

    def connect(self, p, conns=None):
        for c in (self.conns if conns is None else conns):
            c.make(p, self.sys.models, self.current)
