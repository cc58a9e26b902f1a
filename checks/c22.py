"""C22: plots. What is on the figure at the moment it is saved or shown is recorded by hooks on matplotlib and compared
with the series requested."""
import os

import numpy as np

from harness import expr as X
from harness import systems as S
from harness.core import Check, close
from checks import c14

LOG = []
_hooked = False


def hook():
    """Record the state of the figure whenever it is saved or shown, and let it go on."""
    global _hooked
    if _hooked:
        return
    _hooked = True
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    real = mf.Figure.savefig

    def state(fig, how, where=None):
        axes = fig.get_axes()
        lines = []
        for ax in axes:
            for l in ax.get_lines():
                if not l.get_visible():
                    continue
                x, y = np.asarray(l.get_xdata(orig=True), float).reshape(-1), np.asarray(l.get_ydata(orig=True), float).reshape(-1)
                lines.append({'x': x, 'y': y, 'label': l.get_label(), 'marker': l.get_marker(), 'lw': l.get_linewidth()})
        a = axes[0] if axes else None
        LOG.append({'how': how, 'file': where, 'lines': lines, 'n_axes': len(axes),
                    'other': sum(len(x.collections) + len(x.patches) + len(x.texts) + len(x.images) for x in axes),
                    'xlabel': a and a.get_xlabel(), 'ylabel': a and a.get_ylabel(), 'xlim': a and a.get_xlim(),
                    'legend': a and a.get_legend() and [t.get_text() for t in a.get_legend().get_texts()]})

    def savefig(self, fname, *a, **k):
        state(self, 'save', fname)
        return real(self, fname, *a, **k)

    def show(*a, **k):
        state(plt.gcf(), 'show')
    mf.Figure.savefig = savefig
    mf.Figure.show = lambda self, *a, **k: state(self, 'show')
    plt.show = show


def same_line(l, w):
    if len(l['x']) != len(w['x']) or not (np.array_equal(l['x'], w['x']) and np.array_equal(l['y'], w['y'])):
        return False
    if w['label'] is not None and l['label'] != w['label']:
        return False
    if w['label'] is None and not l['label'].startswith('_') and l['label'] != '':
        return False
    return l['marker'] == w['marker'] and close(l['lw'], w['lw'])


def brief(ls):
    return [(len(l['x']), [float(v) for v in l['x'][:3]], [float(v) for v in l['y'][:3]], l['label'], l['marker'], l['lw']) for l in ls]


def judge(c, want, ops, what):
    """ops: the records of one plot; want: lines and the rest."""
    hows = [(o['how'], o['file']) for o in ops]
    exp = ([('save', want['file'])] if want['file'] else []) + ([('show', None)] if want['show'] else [])
    c.ok(sorted(map(str, hows)) == sorted(map(str, exp)), '%s: saved or shown otherwise than asked' % what, got=hows, expected=exp)
    if want['file']:
        c.ok(os.path.isfile(want['file']) and os.path.getsize(want['file']) > 100, '%s: the file %s was not written' % (what, want['file']))
        os.remove(want['file'])
        c.event('saved')
    for o in ops:
        left = list(o['lines'])
        for w in want['lines']:
            k = [i for i, l in enumerate(left) if same_line(l, w)]
            c.ok(bool(k), '%s: a requested curve is missing or altered' % what, requested=brief([w]), drawn=brief(o['lines']))
            left.pop(k[0])
        c.ok(not left, '%s: curves that were not requested' % what, extra=brief(left), requested=brief(want['lines']))
        c.ok(o['other'] == 0, '%s: other things are drawn' % what)
        c.ok(o['xlabel'] == want['xlabel'] and o['ylabel'] == want['ylabel'], '%s: labels of the axes' % what,
             got=[o['xlabel'], o['ylabel']], expected=[want['xlabel'], want['ylabel']])
        if want['legend']:
            c.ok(o['legend'] is not None and sorted(o['legend']) == sorted(w['label'] for w in want['lines']), '%s: legend' % what, got=o['legend'])
            c.event('legends')
        else:
            c.ok(o['legend'] is None, '%s: a legend that was not asked for' % what)
        xs = {(float(w['x'].min()), float(w['x'].max())) for w in want['lines']}
        if len(xs) == 1:
            lo, hi = xs.pop()
            a, b = sorted(o['xlim'])
            tol = 1e-9 * max(1., abs(lo), abs(hi))
            c.ok(a <= lo + tol and b >= hi - tol, '%s: points outside the limits of the abscissa' % what, got=o['xlim'], points=[lo, hi])
        c.event('plots judged')
        c.event('curves judged', len(want['lines']))


def domain(rng, i):
    """A domain with registered values, and the values."""
    from sloth.model import Model
    from sloth.core.domain import Domain
    m = Model('M%d' % i)
    t = m.createVariable('t', X.unit(X.mkdim({'s': 1})))
    names = rng.sample(['x', 'y', 'z', 'u_1', 'T', 'x_y', 'C', 'n'], rng.randint(1, 4))
    vs = [m.createVariable(n, X.unit(X.ZERO)) for n in names]
    two = rng.random() < .25
    u = m.createVariable('pos', X.unit(X.ZERO)) if two else None
    dom = Domain('dom%d' % i, t.units, [t, u] if two else t, 'd')
    for v in vs:
        v.distributeOnDomain(dom)
    dom()
    cols = [t.name] + ([u.name] if two else []) + [v.name for v in vs]
    k = rng.choice([1, 2, 3, 10, 40, 40, rng.randint(60, 3000)])
    t0 = rng.uniform(-5, 5)
    data = np.array([[t0 + j * rng.uniform(.1, 1)] + [rng.uniform(-10, 10) for _ in cols[1:]] for j in range(k)])
    if two:
        dom._register(rng.uniform(1, 3) - data[:rng.randint(1, k)], u)
    data[:, 0] = np.sort(data[:, 0])
    r = rng.random()
    if r < .12:
        data[:, 0] = -data[:, 0]        # downwards
    elif r < .24:
        data[:, 0] = rng.choice([1., -1.]) * (data[:, 0] - data[0, 0] + rng.uniform(0, 3))  # of one sign
    elif r < .36:
        rng.shuffle(cols_ := list(range(k)))
        data[:, 0] = data[cols_, 0]     # in no order
    if rng.random() < .2 and k > 1:
        h = k // 2
        dom._register(data[:h], t)
        dom._register(data[h:], t)
    else:
        dom._register(data, t)
    return m, dom, t, cols, data


LABELS = ['Preys', 'T (K)', r'$C_A$', 'série 1', 'a_b', '100%']


def case(c):
    hook()
    rng = c.rng
    from sloth.plotter import Plotter
    from sloth.simulation import Simulation
    doms = []
    for i in range(rng.randint(1, 2)):
        m, dom, t, cols, data = domain(rng, i)
        sim = Simulation('S%d' % i)
        p = rng.choice([sim, sim, sim.plotter, Plotter(), Plotter(simulation=sim)])
        doms.append((dom, t, cols, data, p))
        c.note('domain %s: %d rows of %s' % (dom.name, len(data), cols))
    for step in range(rng.randint(2, 5)):
        dom, t, cols, data, p = rng.choice(doms)
        arr = {n: data[:, j] for j, n in enumerate(cols)}
        deps = rng.sample(cols, rng.randint(1, min(4, len(cols))))
        if rng.random() < .8:
            deps = [d for d in deps if d != cols[0]] or [cols[-1]]
        mode = rng.choice(['names', 'names', 'domain', 'domain', 'arrays', 'mixed'])
        if rng.random() < .2:
            deps.append(rng.choice(deps))        # one of them again
            c.event('the same series twice, by ' + mode)
        ab = [cols[0]]
        if mode == 'names':
            kw = dict(x_data=cols[0], y_data=list(deps), data=dom)
            if rng.random() < .1:
                kw['y_data'] = [deps[0]]
                deps = deps[:1]
        elif mode == 'domain':
            kw = dict(x_data=dom[(t.name, cols[0])], y_data=dom[(t.name, list(deps))])
            if rng.random() < .3:
                kw['x_data'] = [kw['x_data']] if rng.random() < .5 else kw['x_data']
        elif mode == 'mixed':
            kw = dict(x_data=dom[(t.name, cols[0])], y_data=list(deps), data=dom)
        else:
            k = rng.randint(1, 3)
            if rng.random() < .3:
                ab = [rng.choice(cols) for _ in range(rng.randint(2, 3))]
            kw = dict(x_data=[arr[a].copy() for a in ab], y_data=[arr[d].copy().reshape(-1, 1) if rng.random() < .3 else arr[d].copy() for d in deps])
        want = {'file': None, 'show': rng.random() < .4, 'xlabel': 'time', 'ylabel': 'output', 'legend': False}
        labels = markers = None
        if rng.random() < .6:
            labels = rng.sample(LABELS, len(deps))
            kw['labels'] = labels
        if rng.random() < .5:
            markers = [rng.choice(['o', 'x', '+', 's', '^', None, '.']) for _ in deps]
            kw['markers'] = markers
        lw = 2.5
        if rng.random() < .3:
            lw = kw['linewidth'] = rng.choice([1, .5, 4])
        if rng.random() < .6:
            want['xlabel'] = kw['x_label'] = rng.choice(['Time', r'$t\,(s)$', 'x', ''])
        if rng.random() < .6:
            want['ylabel'] = kw['y_label'] = rng.choice(['Individuals', r'$T\,(K)$', 'y', ''])
        if labels and rng.random() < .5:
            want['legend'] = kw['legend'] = True
        if rng.random() < .3:
            kw['grid'] = True
        if not want['show'] or rng.random() < .4:
            want['file'] = kw['save_file'] = rng.choice(['out%d.png', 'plot_%d.png', 'a b %d.png', 'p%d.svg']) % step
        if rng.random() < .08 and not want['show']:
            # neither saved nor shown: nothing may remain of it
            want['file'] = None
            kw.pop('save_file')
            c.event('neither saved nor shown')
        if want['file'] and len(c.log) % 3 == 0:
            # something of that name is there already
            with open(want['file'], 'wb') as f:
                f.write(b'old')
            c.event('saved over a file')
        kw['show_plot'] = want['show']
        if want['show'] and rng.random() < .3:
            del kw['show_plot']
        want['lines'] = [{'x': arr[a], 'y': arr[d], 'label': labels[j] if labels else None,
                          'marker': 'None' if not markers or markers[j] is None else markers[j], 'lw': lw}
                         for a in ab for j, d in enumerate(deps)]
        c.note('plot by %s: %s against %s of %s labels=%s markers=%s %s' % (mode, deps, ab, dom.name, labels, markers, {
            k: v for k, v in kw.items() if k not in ('x_data', 'y_data', 'data', 'labels', 'markers')}))
        if rng.random() < .3:
            failing(c, p, arr, cols)
        del LOG[:]
        keep = {k: v.copy() for k, v in dom.values.items()}
        with c.accepted('plot by ' + mode):
            p.plotTimeSeries(**kw)
        judge(c, want, list(LOG), 'plot %d (%s)' % (step, mode))
        for k, v in keep.items():
            c.ok(v.equals(dom.values[k]), 'plotting changed the values of the domain')
        c.event('by ' + mode)
        if len(dom.independent_vars) > 1:
            c.event('two independent variables, by ' + mode)
        if len(data) > 200:
            c.event('long series')
        if step:
            c.event('after another plot')
    c.key(c.log)


def failing(c, p, arr, cols):
    """A plot that can not be made: it raises, and nothing of it may be in the next."""
    rng = c.rng
    x, ys = arr[cols[0]], [arr[n] for n in cols[1:]] * 2
    kw = dict(x_data=[x.copy()], y_data=[y.copy() for y in ys], show_plot=False)
    how = rng.choice(['directory', 'lengths', 'labels', 'markers', 'text'])
    if how == 'directory':
        kw['save_file'] = os.path.join('no such directory', 'p.png')
    elif how == 'lengths':
        kw['y_data'].append(np.ones(len(x) + 1))
    elif how == 'labels':
        kw['labels'] = ['failed'] * (len(ys) - 1)
    elif how == 'markers':
        kw['markers'] = ['o'] * (len(ys) - 1)
    else:
        kw.update(save_file='failed.png', y_label=r'$\nosuchcommand{$')
    c.note('a plot that fails:', how)
    try:
        p.plotTimeSeries(**kw)
    except Exception:
        c.event('plots that failed, by ' + how)


def simulated(c):
    """Plots of simulations that were run, with columns renamed or not, and run again."""
    hook()
    rng = c.rng
    done = 0
    for _ in range(6):
        s = S.ode(rng, n=rng.randint(1, 3), nmodels=1, forms=('elementary',))
        s.build()
        p = s.make_problem()
        names = {q.name for q in s.dynamic_order}
        rename = rng.random() < .5
        tname = s.time.name
        mapping = None
        if rename:
            mapping = {tname: 'Time (s)', **{n: 'var ' + n for n in names}}
            tname = 'Time (s)'
        conf = dict(initial_time=0., end_time=1., is_dynamic=True, number_of_time_steps=15)
        sim = c14.run(c, s, p, 'ODEINT', False, conf, 0., mapping=mapping)
        vals = sim.getResults('dict')[s.time.name]
        cols = [k for k in vals if k != tname]
        c.ok(sorted(cols) == sorted('var ' + n if rename else n for n in names), 'columns', got=list(vals))
        del LOG[:]
        sim.plotTimeSeries(x_data=tname, y_data=cols, data=sim.domain, save_file='real.png', show_plot=False, labels=cols)
        x = np.array(vals[tname], float)
        judge(c, {'file': 'real.png', 'show': False, 'xlabel': 'time', 'ylabel': 'output', 'legend': False,
                  'lines': [{'x': x, 'y': np.array(vals[k], float), 'label': k, 'marker': 'None', 'lw': 2.5} for k in cols]},
              list(LOG), 'plot of a simulation')
        done += 1
    c.event('plots of simulations', done)
    c.note('%d simulations' % done)


def large(c):
    """Many curves, abscissas and columns in one plot, and many plots one after another."""
    hook()
    rng = c.rng
    from sloth.model import Model
    from sloth.core.domain import Domain
    from sloth.simulation import Simulation
    n, rows = 24, 30
    m = Model('M')
    t = m.createVariable('t', X.unit(X.mkdim({'s': 1})))
    vs = [m.createVariable('v%d' % k, X.unit(X.ZERO)) for k in range(n)]
    dom = Domain('dom', t.units, t, 'd')
    for v in rng.sample(vs, n):
        v.distributeOnDomain(dom)
    dom()
    cols = list(dom.values[t.name].columns)
    data = np.array([[float(j)] + [rng.uniform(-10, 10) for _ in vs] for j in range(rows)])
    dom._register(data, t)
    arr = {k: data[:, j] for j, k in enumerate(cols)}
    sim = Simulation('S')
    for step in range(14):
        deps = rng.sample(cols[1:], n if step < 6 else rng.randint(9, n))
        ab = [cols[0]] if step % 3 else rng.sample(cols, 5)
        labels = [None, ['curve %d' % k for k in range(len(deps))]][step % 2]
        markers = [['o', 'x', '+', 's', '^', None, '.', 'v'][k % 8] for k in range(len(deps))] if step % 4 > 1 else None
        if len(ab) > 1:
            kw = dict(x_data=[arr[a].copy() for a in ab], y_data=[arr[d].copy() for d in deps])
        else:
            kw = dict(x_data=cols[0], y_data=list(deps), data=dom)
        if labels:
            kw['labels'] = labels
        if markers:
            kw['markers'] = markers
        del LOG[:]
        with c.accepted('plot of %d curves' % len(deps)):
            sim.plotTimeSeries(save_file='many.png', show_plot=False, **kw)
        judge(c, {'file': 'many.png', 'show': False, 'xlabel': 'time', 'ylabel': 'output', 'legend': False,
                  'lines': [{'x': arr[a], 'y': arr[d], 'label': labels[j] if labels else None, 'marker': (markers[j] or 'None') if markers else 'None', 'lw': 2.5}
                            for a in ab for j, d in enumerate(deps)]}, list(LOG), 'plot of %d curves' % len(deps))
        c.event('plots of many curves')


CHECK = Check('C22', case, 130, 3000,
              'random histories of 2-5 plots from 1-2 domains, through simulations and plotters, by names, by domain values and by '
              'arrays; distinct by history', directed=[simulated, large],
              need=['plots that failed, by directory', 'plots that failed, by lengths', 'plots that failed, by labels', 'the same series twice, by names', 'the same series twice, by arrays', 'saved over a file', 'plots of many curves', 'saved', 'two independent variables, by names', 'long series', 'plots judged', 'curves judged', 'legends', 'by names', 'by domain', 'by arrays', 'by mixed', 'after another plot',
                    'neither saved nor shown', 'plots of simulations'],
              assumptions=['matplotlib renders the figure that it is given when saving (the file is checked for existence)'])
