"""C22: the tables of a report show the numbers of the run."""
import re
import types
import numpy as np
import pandas as pd
from pyvc.api import harness
from common import *
import radvel
import radvel.report
import radvel.driver

R = 'radvel.report.'


def table(**k):
    t = radvel.report.TexTable.__new__(radvel.report.TexTable)
    for a, b in k.items():
        setattr(t, a, b)
    return t


def body(tex, stop=r'\enddata'):
    """the lines of the table, without the line ends"""
    a = tex.index(r'\startdata') + len(r'\startdata')
    b = tex.index(stop, a)
    out = []
    for l in tex[a:b].split('\n'):
        l = l.strip()
        if l:
            out.append(re.sub(r'(\s*\\\\)+$', '', l))
    return out


@harness('C22', [R + 'TexTable.tab_rv'], sizes=(1, 2, 3), runs=120, modes=('bounded',),
         note='a loop that writes one row per velocity; bounded number of velocities')
def velocities(vc):
    n = vc.size('n', min=1, sizes=[1, 2, 3, 5] + ([] if vc.symbolic else [60]))
    x, y, e = vc.arr('x', n, gen=(2450000., 2460000.)), vc.arr('y', n, gen=(-50., 50.)), vc.arr('yerr', n, gen=(.1, 9.))
    names = vc.choice('instruments', [['a'], ['hires_j', 'apf'], ['k', 'harps_pre']])
    tel = [names[i % len(names)] for i in range(int(n) if not vc.symbolic else vc.len(x))]
    like = types.SimpleNamespace(x=x, y=y, yerr=e, telvec=np.array(tel))
    t = table(report=types.SimpleNamespace(starname='STAR'), post=types.SimpleNamespace(likelihood=like))
    most = vc.choice('at most', ['default', None, 1, 2, 3., 100])
    kw = {} if most == 'default' else dict(max_lines=most)
    title = vc.flag('name in the title')
    tex = t.tab_rv(name_in_title=title, **kw)
    m = len(tel) if most is None else min(len(tel), 50 if most == 'default' else int(most))
    rows = body(tex, r'\tablecomments')
    vc.prove_same('one row per velocity', len(rows), m)
    for i in range(m):
        inst = tel[i].replace('_', r'$_{\rm ') + '}$' if '_' in tel[i] else tel[i]
        vc.prove_same('row', [c.strip() for c in rows[i].split('&')],
                      ['{:.5f}'.format(x[i]), '{:.2f}'.format(y[i]), '{:.2f}'.format(e[i]), inst])
    vc.prove('title', (r'\tablecaption{ STAR Radial Velocities }' if title else r'\tablecaption{ Radial Velocities }') in tex)
    if most is not None:
        vc.prove('says how many there are', '%d of %d' % (50 if most == 'default' else int(most), len(tel)) in tex)


@harness('C22', [R + 'TexTable.tab_crit'], runs=60)
def criteria(vc):
    v = [vc.real(k, gen=[(0., 100.), float('inf')]) for k in ('minAfactor', 'maxArchange', 'maxGR', 'minTz')]
    none = vc.choice('not available', [None, 0, 1, 2, 3])
    if none is not None:
        v[none] = None
    text = vc.flag('read as text') and not vc.symbolic
    t = table(minafactor=v[0], maxarchange=v[1], maxgr=v[2], mintz=v[3], report=types.SimpleNamespace(starname='STAR'))
    if text:
        t.minafactor = None if v[0] is None else repr(float(v[0]))
    rows = body(t.tab_crit(name_in_title=vc.flag('name in the title')))
    want = [[k, 'None' if x is None else '$' + '{:7.3f}'.format(x) + '$']
            for k, x in zip(('minAfactor', 'maxArchange', 'maxGR', 'minTz'), v)]
    vc.prove_same('every criterion with its own value', sorted([c.strip() for c in r.split('&')] for r in rows), sorted(want))


@harness('C22', [R + 'TexTable.tab_comparison'], runs=300, max_paths=6000, modes=('bounded',),
         note='loops over the compared models; bounded number of models')
def comparison(vc):
    """models in the order of AICc, each with its own numbers and the difference to the best"""
    n = vc.choice('models', [1, 2, 3, 4] if not vc.symbolic else [1, 2, 3])
    names = ['nothing'] + ['c%d' % i for i in range(1, n)]
    stats, a = [], []
    keys = vc.choice('columns', [['Free Params', '$N$', 'RMS', 'BIC', 'AICc'], ['AICc', 'note', 'Free Params', 'BIC'], ['Free Params', 'AICc']])
    for i in range(n):
        a.append(vc.real('AICc%d' % i, gen=[(0., 15.), (0., 3.)]))
        rec = {'AICc': (a[i], 'AICc'), 'Free Params': ([names[i], 'gamma'], 'free parameters'),
               'BIC': (vc.real('BIC%d' % i, gen=(0., 100.)), 'BIC'), '$N$': (7 + i, 'n'), 'RMS': (vc.real('rms%d' % i, gen=(0., 9.)), 'rms'),
               'note': ('text%d' % i, 'a text')}
        stats.append({k: rec[k] for k in keys})
    t = table(report=types.SimpleNamespace(compstats=stats))
    q = [{k: v for k, v in s.items()} for s in stats]
    tex = t.tab_comparison()
    vc.prove_same('the statistics are left alone', stats, q)
    rows = [r for r in body(tex) if not r.startswith(r'\hline')]
    vc.prove_same('one row per model', len(rows), n)
    seen, prev, best, band = [], None, None, 0
    for k, r in enumerate(rows):
        cells = [c.strip() for c in r.split('&')]
        col = cells[1:]
        vc.prove_same('cells', len(col), len(keys) + 1)
        name = col[keys.index('Free Params')]
        i = names.index(name.split(',')[0])
        seen.append(i)
        if best is None:
            best = a[i]
        if prev is not None:
            vc.prove('in the order of AICc', prev <= a[i])
        prev = a[i]
        vc.prove('component names', name.replace(' ', '').startswith(names[i] + ',gamma,'))
        for c, key in zip(col, keys):
            if key == '$N$':
                vc.prove_same('integers', c, str(7 + i))
            elif key == 'note':
                vc.prove_same('texts', c, 'text%d' % i)
            elif key != 'Free Params':
                vc.prove_same('own numbers', c, '{:.2f}'.format(stats[i][key][0]))
        vc.prove_same('difference to the best', col[-1], '{:.2f}'.format(a[i] - best))
        d, label = a[i] - best, cells[0]
        levels = [0., 2., 4., 10.]
        words = ['Nearly Indistinguishable', 'Somewhat Disfavored', 'Strongly Disfavored', 'Ruled Out']
        now = band
        while now < 4 and vc.split(d > levels[now]):
            now += 1
        if k == 0:
            vc.prove_same('best model', label, 'AICc Favored Model')
        else:
            # a label stands at the first model of its band
            vc.prove_same('label', label, words[now - 1] if now > band else '')
        band = now
    vc.prove_same('every model once', sorted(seen), list(range(n)))


@harness('C22', [R + 'TexTable.tab_params', R + 'TexTable.__init__'], runs=200)
def parameters(vc):
    """one block per basis (the fitted and the printed one) and all instrument, trend and GP parameters"""
    basis = vc.choice('fitted basis', [b for b in BASES])
    suffixes = vc.choice('instruments', [['a'], ['a', 'hires_j'], ['j', 'j2', 'z_j']])
    gp = vc.choice('gp', [[], ['gp_perlength', 'gp_amp', 'gp_per'], ['gp_per_j', 'gp_per_j2', 'gp_perlength']])
    extra = [p + '_' + s for s in suffixes for p in ('gamma', 'jit')] + gp
    if vc.flag('trend among the extra parameters'):
        extra += ['dvdt', 'curv']
    vec = types.SimpleNamespace(names=['per1', 'k1', 'dvdt', 'curv'] + [e for e in extra if e not in ('dvdt', 'curv')])
    epoch = vc.choice('epoch', [2455000.5, 0.])
    like = types.SimpleNamespace(extra_params=extra, vector=vec, model=types.SimpleNamespace(time_base=epoch), suffixes=suffixes)
    printed = types.SimpleNamespace(basis=types.SimpleNamespace(name='per tc tp e w k'))
    post = types.SimpleNamespace(likelihood=like, params=printed)
    length = vc.choice('samples', [1, 12345])
    report = types.SimpleNamespace(post=post, planet=types.SimpleNamespace(fitting_basis=basis, nplanets=1), chains=range(length), starname='STAR',
                                   quantiles=None, minafactor=1, maxarchange=2, maxgr=3, mintz=4)
    t = radvel.report.TexTable(report)
    vc.prove_same('criteria', (t.minafactor, t.maxarchange, t.maxgr, t.mintz), (1, 2, 3, 4))
    asked = []

    def data(names, dontloop=False):
        asked.append((names, dontloop))
        return ['rows %d of %s' % (len(asked), names)]
    t._data = data
    tex = t.tab_params(name_in_title=vc.flag('name in the title'))
    vc.prove_same('three blocks', len(asked), 3)
    blocks = tex.split(r'\sidehead')[1:]
    vc.prove_same('three headings', len(blocks), 3)
    text = {}
    for k, (head, what) in enumerate((('Modified MCMC Step Parameters', basis), ('Orbital Parameters', 'per tc tp e w k'), ('Other Parameters', None))):
        vc.prove('headings', head in blocks[k].split('\n')[0])
        i = [j for j in range(3) if 'rows %d of ' % (j + 1) in blocks[k]]
        vc.prove_same('one set of rows', len(i), 1)
        names, dontloop = asked[i[0]]
        vc.prove('its rows are in the block', 'rows %d of %s' % (i[0] + 1, names) in blocks[k])
        if what:
            vc.prove_same('basis', names, what)
            vc.prove('for every planet', not dontloop)
        else:
            vc.prove_same('every other parameter once', sorted(names.split()), sorted(set(extra) | {'dvdt', 'curv'}))
            vc.prove('not per planet', dontloop is True)
    vc.prove('number of samples', '%d links saved' % length in tex)
    vc.prove('reference epoch', str(epoch) in blocks[2])


@harness('C22', [R + 'TexTable.tab_prior_summary'], runs=60)
def priors(vc):
    n = vc.choice('priors', [0, 1, 3])
    ends = [vc.flag('ends with a line end %d' % i) for i in range(n)]

    class P(object):
        def __init__(self, i):
            self.i = i

        def __str__(self):
            return 'prior number %d%s' % (self.i, r'\\' if ends[self.i] else '')
    params = types.SimpleNamespace(tex_labels=lambda: {})
    post = types.SimpleNamespace(priors=[P(i) for i in range(n)], likelihood=types.SimpleNamespace(params=params))
    t = table(post=post, report=types.SimpleNamespace(starname='STAR', post=post))
    rows = [r for r in body(t.tab_prior_summary(name_in_title=vc.flag('name in the title'))) if r.strip('\\ ')]
    vc.prove_same('every prior once', [r.strip('\\ ') for r in rows], ['prior number %d' % i for i in range(n)])


@harness('C22', [R + 'RadvelReport.texdoc'], runs=60)
def document(vc):
    tables = ['tab_crit', 'tab_rv', 'tab_params', 'tab_derived', 'tab_prior_summary', 'tab_comparison']
    for k in tables:
        vc.patch(radvel.report.TexTable, k, lambda self, k=k, **kw: 'THE %s' % k.upper())
    vc.patch(radvel.report.TexTable, '__init__', lambda self, report: None)
    there = [k for k in ('rv_multipanel', 'corner', 'corner_derived_pars') if vc.flag(k)]
    import os
    vc.patch(os.path, 'exists', lambda f: any(f == 'run_%s.pdf' % k for k in there))
    comp = vc.flag('comparison')
    r = radvel.report.RadvelReport.__new__(radvel.report.RadvelReport)
    r.runname, r.starname_tex, r.starname, r.compstats = 'run', 'S', 'S', [1] if comp else None
    tex = r.texdoc()
    for k in tables:
        vc.prove_same('each table once: ' + k, tex.count('THE %s\n' % k.upper()), int(comp or k != 'tab_comparison'))
    for k in ('rv_multipanel', 'corner', 'corner_derived_pars'):
        vc.prove_same('figures that exist: ' + k, tex.count('run_%s.pdf' % k), int(k in there))


@harness('C22', [R + 'RadvelReport.__init__'], runs=60, modes=(), note='tables of samples (pandas)')
def samples(vc):
    """the samples are expressed in the printed basis, sample by sample"""
    rng = np.random.RandomState(vc.size('seed', min=0, sizes=list(range(40))))
    npl = vc.choice('planets', [1, 2])
    basis = vc.choice('fitted basis', list(BASES))
    p = radvel.Parameters(npl, basis='per tp e w k')
    for i in range(1, npl + 1):
        for k, v in dict(per=11. * i, tp=3., e=.2, w=.7, k=5.).items():
            p[k + str(i)] = radvel.Parameter(value=v)
    p['dvdt'], p['curv'], p['gamma_a'], p['jit_a'] = (radvel.Parameter(value=v) for v in (.1, .2, 3., 1.))
    params = p.basis.to_any_basis(p, basis)
    n = vc.choice('samples', [5, 41])
    fixed = vc.choice('fixed', [[], ['per1'], ['dvdt', 'curv']])
    chains = {}
    orbit = {}
    for i in range(1, npl + 1):
        o = {'per': 11. * i + .1 * rng.randn(n), 'tp': 3. + .1 * rng.randn(n), 'e': .05 + .4 * rng.rand(n), 'w': -3. + 6. * rng.rand(n),
             'k': 5. + rng.rand(n)}
        if 'per1' in fixed and i == 1:
            o['per'] = np.full(n, 11.)
        o['tc'] = radvel.orbit.timeperi_to_timetrans(o['tp'], o['per'], o['e'], o['w'])
        o.update(logper=np.log(o['per']), logk=np.log(o['k']), secosw=np.sqrt(o['e']) * np.cos(o['w']), sesinw=np.sqrt(o['e']) * np.sin(o['w']),
                 ecosw=o['e'] * np.cos(o['w']), esinw=o['e'] * np.sin(o['w']), se=np.sqrt(o['e']))
        orbit[i] = o
        for k in basis.split():
            chains[k + str(i)] = o[k]
    for k in ('dvdt', 'curv', 'gamma_a', 'jit_a'):
        chains[k] = params[k].value + (.1 * rng.randn(n) if k not in fixed else 0.)
    for k in fixed:
        chains.pop(k, None)
    chains = pd.DataFrame(chains)
    mine = chains.copy()
    post = types.SimpleNamespace(params=params)
    planet = types.SimpleNamespace(starname='A_b', fitting_basis=basis, nplanets=npl)
    r = radvel.report.RadvelReport(planet, post, chains, 1, 2, 3, 4, compstats='C', derived='D')
    vc.prove('settings', (r.minafactor, r.maxarchange, r.maxgr, r.mintz, r.compstats, r.derived, r.num_planets, r.starname) ==
             (1, 2, 3, 4, 'C', 'D', npl, 'A_b'))
    for i in range(1, npl + 1):
        for k in set('per tc tp e w k'.split()) | set(basis.split()):
            got = np.asarray(r.chains[k + str(i)], dtype=float)
            want = orbit[i][k]
            if k in ('tc', 'tp'):
                d = (got - want) / orbit[i]['per']
                ok = np.abs(d - np.round(d)).max() < 1e-7
            elif k == 'w':
                ok = np.abs(np.exp(1j * got) - np.exp(1j * want)).max() < 1e-7
            else:
                ok = np.abs(got - want).max() < 1e-7
            vc.prove('samples of ' + k, bool(ok))
            vc.prove('quantiles of ' + k, bool(np.allclose(np.asarray(r.quantiles[k + str(i)]), np.quantile(got, [.159, .5, .841]))))
            vc.prove('label of ' + k, k + str(i) in r.latex_dict)
    for k in ('gamma_a', 'jit_a', 'dvdt', 'curv'):
        vc.prove('samples of ' + k, bool(np.allclose(r.chains[k], mine[k] if k in mine else params[k].value)))


def letters(k):
    """the label of a planet's parameter names the planet by its letter, b for the first"""
    return chr(ord('a') + int(k[-1]))


@harness('C22', ['radvel.prior.%s.__str__' % k for k in ('Gaussian', 'EccentricityPrior', 'PositiveKPrior', 'HardBounds',
                                                         'SecondaryEclipsePrior', 'Jeffreys', 'ModifiedJeffreys', 'UserDefinedPrior')], runs=80)
def prior_text(vc):
    """a prior is described by its parameter and by its own numbers, in order"""
    kind = vc.choice('prior', ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'EccentricityPrior',
                               'EccentricityPrior list', 'SecondaryEclipsePrior', 'UserDefinedPrior'])
    param = vc.choice('parameter', ['k1', 'per2', 'secosw3', 'logk1', 'jit_j', 'gamma_hires', 'dvdt', 'gp_amp', 'gp_perlength_j', 'm_star'])
    a, b, c = vc.real('a', gen=(1., 2.)), vc.real('b', gen=(3., 4.)), vc.real('c', gen=(5., 6.))
    vc.assume(a < b)
    vc.assume(b < c)
    tex = radvel.Parameters(9).tex_labels(param_list=[param])[param]
    bare = tex.replace('$', '')
    prior = radvel.prior
    F = '{}'.format
    if kind == 'Gaussian':
        s, parts = str(prior.Gaussian(param, a, b)), [tex, F(a), F(b)]
    elif kind == 'HardBounds':
        s, parts = str(prior.HardBounds(param, a, b)), [F(a), '<', bare, '<', F(b)]
    elif kind == 'Jeffreys':
        s, parts = str(prior.Jeffreys(param, a, b)), [F(a), '<', bare, '<', F(b)]
    elif kind == 'ModifiedJeffreys':
        s, parts = str(prior.ModifiedJeffreys(param, b, c, a)), [F(a), F(b), '<', bare, '<', F(c)]
    elif kind == 'EccentricityPrior':
        n = vc.choice('planets', [1, 2, 3])
        s, parts = str(prior.EccentricityPrior(n)), []
        for i in range(n):
            parts += ['_{%s}' % letters('e%d' % (i + 1)), '<', '0.99']
        vc.prove_same('one line per planet', len([l for l in s.split('\n') if l.strip('\\ ')]), n)
    elif kind == 'EccentricityPrior list':
        planets = vc.choice('planets', [[1], [2], [2, 1], [1, 3]])
        lims = [a, b][:len(planets)]
        s, parts = str(prior.EccentricityPrior(planets, lims)), []
        for p, l in zip(planets, lims):
            parts += ['_{%s}' % letters('e%d' % p), '<', F(l)]
        vc.prove_same('one line per planet', len([l for l in s.split('\n') if l.strip('\\ ')]), len(planets))
    elif kind == 'SecondaryEclipsePrior':
        s, parts = str(prior.SecondaryEclipsePrior(vc.choice('planet', [1, 2]), a, b)), [F(a), F(b)]
    else:
        s, parts = str(prior.UserDefinedPrior([param], lambda x: 0., 'my own prior on ' + tex)), ['my own prior on ' + tex]
    at = 0
    for p in parts:
        i = s.find(p, at)
        vc.prove('%s: its parameter and numbers in order' % kind, i >= 0)
        at = i + len(p)


@harness('C22', ['radvel.model.Parameters.tex_labels'], runs=60)
def labels(vc):
    """different parameters have different labels, and a planet's parameters carry its letter"""
    from radvel.basis import BASIS_NAMES
    basis, n = vc.choice('basis', list(BASIS_NAMES)), vc.choice('planets', [1, 3, 9])
    names = vc.choice('letters', [None, {i: l for i, l in enumerate('bdefghcij', 1)}])
    p = radvel.Parameters(n, basis=basis, planet_letters=names)
    for k in ('gamma_j', 'jit_j', 'gamma_hires_rj', 'jit_hires_rj', 'dvdt', 'curv', 'm_star', 'gp_amp', 'gp_explength', 'gp_per', 'gp_perlength',
              'gp_amp_j', 'gp_per_j', 'gp_perlength_j', 'gp_B', 'gp_C', 'gp_L', 'gp_Prot'):
        p[k] = radvel.Parameter(value=1.)
    out = p.tex_labels()
    vc.prove_same('a label for every parameter', sorted(out), sorted(p))
    vc.prove_same('all different', len(set(out.values())), len(out))
    for k in basis.split():
        for i in range(1, n + 1):
            vc.prove('letter of the planet', out['%s%d' % (k, i)].endswith('_{%s}$' % ((names or {}).get(i) or letters('%s%d' % (k, i)))))
    some = [k for k in out if len(k) % 2]
    vc.prove_same('the same when only some are asked for', p.tex_labels(param_list=some), {k: out[k] for k in some})


@harness('C22', [R + 'TexTable.tab_derived', R + 'TexTable._data'], runs=40, modes=(), note='tables of samples (pandas)')
def derived(vc):
    """one row for every derived quantity of every planet: its own samples, in the unit that is named, every time it is asked for"""
    rng = np.random.RandomState(vc.size('seed', min=0, sizes=list(range(40))))
    npl, n = vc.choice('planets', [1, 2, 3]), 200
    chains, truth = pd.DataFrame({'lnprobability': rng.randn(n)}), {}
    for i in range(1, npl + 1):
        for key in ('mpsini', 'rhop', 'a'):
            if vc.choice('column', [True, True, True, False]):
                m = 10 ** rng.uniform(1., 3.) if key == 'mpsini' else rng.uniform(.1, 5.)
                truth['%s%d' % (key, i)] = rng.normal(m, .02 * m, n)
                chains['%s%d' % (key, i)] = truth['%s%d' % (key, i)].copy()
    hole = vc.flag('a quantity that could not be computed') and 'rhop1' in truth
    if hole:
        chains.loc[3, 'rhop1'] = np.nan
        del truth['rhop1']
    there = vc.choice('derived', [True, True, True, False])
    planet = types.SimpleNamespace(nplanets=npl)
    if vc.flag('letters'):
        planet.planet_letters = {1: 'd', 2: 'b', 3: 'c'}
    post = types.SimpleNamespace(maxparams={}, likelihood=types.SimpleNamespace(suffixes=['j', 'a']))
    report = types.SimpleNamespace(derived=there, chains=chains, planet=planet, latex_dict={}, starname='STAR', post=post)
    best = int(chains['lnprobability'].values.argmax())
    first = None
    for time in range(2):
        t = table(report=report, post=post)
        rows = []

        def row(par, unit):
            rows.append((par, unit, [t.quantiles[par][q] for q in (.159, .5, .841)], post.maxparams[par], report.latex_dict[par]))
            return 'row of ' + par
        t._row = row
        tex = t.tab_derived(name_in_title=vc.flag('name in the title'))
        if not there:
            vc.prove_same('nothing derived, no table', (tex, rows), ('', []))
            return
        vc.prove_same('every quantity once', sorted(r[0] for r in rows), sorted(truth))
        vc.prove_same('in the table', sorted(x.strip() for x in body(tex)), sorted('row of ' + k for k in truth))
        for par, unit, q, top, label in rows:
            f = .00315 if 'Jup' in unit else 1.
            vc.prove('unit', {'m': 'oplus' in unit or 'Jup' in unit, 'r': 'g cm$^{-3}$' in unit, 'a': unit.strip() == 'AU'}[par[0]])
            vc.prove_eq('quantiles of its samples in this unit', q, [f * np.quantile(truth[par], x) for x in (.159, .5, .841)], tol=1e-6, scale=1)
            vc.prove_eq('value of the best sample', top, f * truth[par][best], tol=1e-6, scale=1)
            vc.prove('letter of the planet', (getattr(planet, 'planet_letters', None) or {1: 'b', 2: 'c', 3: 'd'})[int(par[-1])] in label)
