"""C16: domains against a reference table, over random histories of registrations."""
import numpy as np

from harness import expr as X
from harness import systems as S
from harness.core import Check


class Ref:
    """What a domain must hold: for each independent variable, a table in the order of registration."""

    def __init__(self, ind):
        self.ind, self.dep = list(ind), []
        self.map = {}
        self.clear()

    def clear(self):
        self.map = {}
        self.tab = {i: [] for i in self.ind}

    def cols(self):
        return [self.map.get(c, c) for c in self.ind + self.dep]


def make_domain(rng, names, nind=1):
    from sloth.core.domain import Domain
    from sloth.core.variable import Variable
    from sloth.core.parameter import Parameter
    names = list(names)
    rng.shuffle(names)
    ind = [Variable(n, X.unit(X.mkdim({'s': 1}))) for n in names[:nind]]
    dep = [Variable(n, X.unit(X.rnd_dim(rng))) for n in names[nind:]]
    dom = Domain('dom_' + names[0], X.unit(X.ZERO), ind[0] if nind == 1 and rng.random() < .7 else ind, 'd')
    ref = Ref([v.name for v in ind])
    return dom, ref, ind, dep


def check(case, dom, ref, rng, what):
    for i in ref.ind:
        cols = ref.cols()
        frame = dom.values[i]
        case.ok(sorted(frame.columns) == sorted(cols), '%s: columns for %s' % (what, i), got=list(frame.columns), expected=cols)
        case.ok(len(frame) == len(ref.tab[i]), '%s: number of rows for %s' % (what, i), got=len(frame), expected=len(ref.tab[i]))
        want = np.array(ref.tab[i], dtype=float).reshape(-1, len(cols))
        for k, c in enumerate(cols):
            got = np.asarray(frame[c], dtype=float)
            case.ok(np.array_equal(got, want[:, k], equal_nan=True), '%s: column %s for %s' % (what, c, i), got=got[:8].tolist(),
                    expected=want[:8, k].tolist())
        if len(want):
            pick = [rng.choice(cols) for _ in range(rng.randint(1, 3))]
            got = dom[(i, pick)]
            case.ok(got.shape == (len(pick), len(want)) and all(
                np.array_equal(np.asarray(got[j], dtype=float), want[:, cols.index(c)], equal_nan=True) for j, c in enumerate(pick)),
                '%s: values asked for %s over %s' % (what, pick, i), got=np.asarray(got)[:, :6].tolist())
            one = rng.choice(cols)
            case.ok(np.array_equal(np.asarray(dom[(i, one)], dtype=float).ravel(), want[:, cols.index(one)], equal_nan=True),
                    '%s: values asked for %s over %s' % (what, one, i))
            case.event('tables read')
            # what was read can be changed without changing the domain
            if rng.random() < .3:
                np.asarray(got)[...] = -12345.
                case.ok(np.array_equal(np.asarray(dom.values[i][pick[0]], dtype=float), want[:, cols.index(pick[0])], equal_nan=True),
                        '%s: changing what was read changed the domain' % what)


def together(case, dom, ref, rng, what):
    """Several columns over several independent variables: those of the first, then those of the second."""
    cols = ref.cols()
    inds = list(ref.ind)
    rng.shuffle(inds)
    if len(inds) < 2 or len({len(ref.tab[i]) for i in inds}) != 1 or not ref.tab[inds[0]]:
        return
    pick = [rng.choice(cols) for _ in range(rng.randint(1, 3))]
    got = np.asarray(dom[(inds, pick)], float)
    want = np.array([[r[cols.index(c)] for r in ref.tab[i]] for i in inds for c in pick], float)
    case.ok(got.shape == want.shape and np.array_equal(got, want), '%s: values asked for %s over %s' % (what, pick, inds),
            got=got[:, :4].tolist(), expected=want[:, :4].tolist())
    case.event('columns over several variables')


def two_variables(case):
    """Domains over two independent variables, with as many rows for each."""
    rng = case.rng
    for _ in range(25):
        dom, ref, ind, dep = make_domain(rng, rng.sample(NAMES, rng.randint(3, 6)), 2)
        for d in dep:
            d.distributeOnDomain(dom)
            ref.dep.append(d.name)
        ref.clear()
        w = len(ref.ind) + len(ref.dep)
        for _ in range(rng.randint(1, 3)):
            m = rng.randint(1, 4)
            for v in ind:
                rows = [[rng.uniform(-9, 9) for _ in range(w)] for _ in range(m)]
                dom._register(np.array(rows), var=v)
                ref.tab[v.name] += rows
            check(case, dom, ref, rng, 'over two variables')
            together(case, dom, ref, rng, 'over two variables')


NAMES = ['t', 'x', 'y', 'z', 't_M', 'x_M', 'x_M1', 'x1_M', 'a', 'B', 'u_D0', 'v_D0', 'length', 'T']


def cases(case):
    rng = case.rng
    doms = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        nind = 1 if rng.random() < .8 else 2
        n = nind + rng.randint(1, 5)
        doms.append(make_domain(rng, rng.sample(NAMES, n), nind))
    for dom, ref, ind, dep in doms:
        case.note('domain over', ref.ind, 'of', [d.name for d in dep])
    for step in range(rng.randint(4, 22)):
        dom, ref, ind, dep = rng.choice(doms)
        left = [d for d in dep if d.name not in ref.dep]
        r = rng.random()
        if left and (r < .3 or len(ref.dep) == 0):
            v = rng.choice(left)
            v.distributeOnDomain(dom)
            ref.dep.append(v.name)
            ref.clear()
            case.note('distribute', v.name)
            case.event('distributions')
            what = 'after distributing %s' % v.name
        elif r < .75 and ref.dep:
            i = rng.randrange(len(ind))
            m = rng.choice([1, 1, 2, 3, 7, 40])
            w = len(ref.ind) + len(ref.dep)
            rows = [[rng.choice([rng.uniform(-9, 9), rng.randint(-3, 3), 0., 1e-12, 1e9]) for _ in range(w)] for _ in range(m)]
            style = rng.choice(['array', 'list', 'array', 'int'])
            if style == 'int':
                rows = [[int(v) for v in r_] for r_ in rows]
            elif rng.random() < .15:
                for r_ in rows:
                    r_[rng.randrange(w)] = rng.choice([float('nan'), float('inf'), -float('inf'), -0., 1e300, 5e-324])
                case.event('unusual values')
            given = rows if style == 'list' else np.array(rows)
            kw = {} if (i == len(ind) - 1 and rng.random() < .8) else {'var': ind[i]}
            dom._register(given, **kw)
            ref.tab[ind[i].name] += [list(map(float, r_)) for r_ in rows]
            case.note('register', m, 'rows for', ind[i].name)
            case.event('registrations')
            what = 'after registering %d rows' % m
            if style != 'list' and rng.random() < .5:
                given[...] = -777
                what += ' and changing the array given'
        elif r < .83 and ref.dep and any(ref.tab.values()):
            w = len(ref.ind) + len(ref.dep) + rng.choice([-1, 1, 2])
            if w < 1:
                continue
            i = [k for k, v in enumerate(ind) if ref.tab[v.name]][-1]
            case.rejects('registering rows of %d values' % w, lambda: dom._register(np.ones((2, w)), var=ind[i]))
            case.event('ill-formed registrations refused')
            what = 'after an ill-formed registration'
        elif r < .9 and ref.dep:
            dom._reset()
            ref.clear()
            case.note('reset')
            case.event('resets')
            what = 'after a reset'
        elif ref.dep:
            new = {c: '%s_%d (renamed)' % (c, step) for c in ref.ind + ref.dep if rng.random() < .5}
            if rng.random() < .4:
                # some names change places
                some = rng.sample(ref.ind + ref.dep, rng.randint(2, len(ref.ind + ref.dep)))
                new = {c: ref.map.get(d, d) for c, d in zip(some, some[1:] + some[:1])}
                case.event('names exchanged')
            if rng.random() < .25:
                # names that differ by blanks only, or by nothing else than them
                cs = [c for c in ref.ind + ref.dep]
                blank = [' T ', 'T ', ' T', '  T', 'T', 't', '\tT', 'T.', ' ', '  '][:]
                rng.shuffle(blank)
                new = dict(zip(cs, blank))
                case.event('names of blanks')
            dom._renameHeaders({ref.map.get(c, c): v for c, v in new.items()})
            ref.map.update(new)
            case.note('rename', new)
            case.event('renames')
            what = 'after renaming columns'
        else:
            continue
        # the domains not touched are exactly as they were
        for d2, r2, _, _ in doms:
            if r2.dep:
                check(case, d2, r2, rng, what)


def intervals(case):
    """Consecutive runs of dynamic problems in one domain: the rows of each run follow those of the previous."""
    rng = case.rng
    for _ in range(3):
        s = S.ode(rng, n=rng.randint(1, 3), forms=('elementary',), explicit_time=False)
        for l in s.show():
            case.note(l)
        s.build()
        p = s.make_problem()
        s.domain()
        t, rows, state = 0., {}, dict(s.x0)
        sim = None
        for k in range(4):
            p.setInitialConditions(dict(state, **{s.time.name: t}))
            n, span = rng.randint(1, 6), rng.choice([.3, .5])
            sim = S.simulate(p, sim=sim, initial_time=t, end_time=t + span, number_of_time_steps=n, is_dynamic=True,
                             domain=s.domain, compile_equations=False, differential_solver=rng.choice(['ODEINT', 'CVODE']))
            T = np.linspace(t, t + span, n + 1)
            rows.setdefault(s.time.name, []).extend(T)
            frame = s.domain.values[s.time.name]
            got = np.asarray(frame[s.time.name], dtype=float)
            case.ok(np.allclose(got, rows[s.time.name], rtol=1e-12, atol=1e-12), 'times kept over the runs', got=got.tolist(),
                    expected=[float(v) for v in rows[s.time.name]])
            for q in s.xs:
                col = np.asarray(frame[q.name], dtype=float)
                old = rows.setdefault(q.name, [])
                case.ok(np.array_equal(col[:len(old)], old), 'values of %s kept over the runs' % q.name)
                case.ok(col[len(old)] == state[q.name], 'first value of the run of %s' % q.name)
                rows[q.name] = col.tolist()
                state[q.name] = float(col[-1])
            t += span
            case.event('consecutive runs')
        sim.reset()
        case.ok(len(s.domain.values[s.time.name]) == 0, 'reset of the simulation empties the domain')
        case.ok(sorted(s.domain.values[s.time.name].columns) == sorted(rows), 'reset keeps the columns')


def large(case):
    """Tables of many rows, columns and registrations."""
    rng = case.rng
    for nrows, nregs, ncols in ((12000, 2, 2), (3, 400, 3), (5, 4, 30)):
        names = ['t'] + ['c%d' % k for k in range(ncols)]
        dom, ref, ind, dep = make_domain(rng, names)
        rng.shuffle(dep)
        for d in dep:
            d.distributeOnDomain(dom)
            ref.dep.append(d.name)
        ref.clear()
        for _ in range(nregs):
            rows = [[rng.uniform(-9, 9) for _ in range(ncols + 1)] for _ in range(nrows)]
            dom._register(np.array(rows) if rng.random() < .7 else rows)
            ref.tab[ind[0].name] += rows
        check(case, dom, ref, rng, '%d registrations of %d rows of %d columns' % (nregs, nrows, ncols))
        new = {c: 'r_' + c for c in rng.sample(ref.cols(), (ncols + 1)//2)}
        dom._renameHeaders(new)
        ref.map = new
        check(case, dom, ref, rng, 'renamed, %d registrations of %d rows of %d columns' % (nregs, nrows, ncols))
        dom._reset()
        ref.clear()
        check(case, dom, ref, rng, 'reset, %d registrations of %d rows of %d columns' % (nregs, nrows, ncols))
        case.event('large tables')


CHECK = Check('C16', cases, 700, 25000,
              'random histories of distributing variables, registering rows, ill-formed registrations, renaming and resetting '
              'over 1-3 domains with 1-2 independent variables, every table compared after every step with a reference; '
              'and consecutive simulations in one domain; distinct by history',
              directed=[intervals, two_variables, large],
              need=['names of blanks', 'registrations', 'resets', 'renames', 'distributions', 'ill-formed registrations refused', 'tables read',
                    'consecutive runs', 'columns over several variables', 'names exchanged', 'unusual values', 'large tables'])
