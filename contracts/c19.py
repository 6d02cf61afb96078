"""C19: reported credible intervals and rounding represent the samples."""
import math
import numpy as np
from pyvc.api import harness
import radvel
import radvel.utils
import radvel.driver
import radvel.report
import types

U = 'radvel.utils.'


def order_statistic(vc, x, n, q):
    k = vc.m.floor(q * n)
    return vc.sorted(x)[k if vc.symbolic else int(k)]


@harness('C19', [U + 'geterr'])
def linear(vc):
    n = vc.size("n", min=1, sizes=[1, 2, 7, 25, 44, 63] + ([] if vc.symbolic else [1000]))
    x = vc.arr('x', n, gen=(-10., 10.))
    q = vc.snapshot(x)
    med, low, high = radvel.utils.geterr(x)
    vc.unchanged('samples are left alone', x, q)
    vc.prove_eq('median', med, vc.median(x))
    vc.prove_eq('15.9 percentile', med - low, order_statistic(vc, x, n, .159))
    vc.prove_eq('84.1 percentile', med + high, order_statistic(vc, x, n, .841))
    if not vc.symbolic:
        vc.prove('distances', low >= 0 and high >= 0)
        # (the distances are differences of floats: compare with a margin for their rounding)
        lo, hi, eps = med - low, med + high, 1e-9
        vc.prove('15.9 percent below', int((x < lo - eps).sum()) <= .159 * n < int((x <= lo + eps).sum()))
        vc.prove('15.9 percent above', int((x < hi - eps).sum()) <= .841 * n < int((x <= hi + eps).sum()))


@harness('C19', [U + 'geterr'])
def angular(vc):
    """angles given modulo a turn are summarised like the unbroken angles u, when those lie within a quarter turn of
    the most frequent value"""
    m = vc.m
    n = vc.size('n', min=1, sizes=[1, 2, 7, 25, 44, 63])
    if vc.symbolic:
        u = vc.arr('u', n)
        v = vc.pointwise(lambda i: m.ite(u[i] > m.pi, u[i] - 2 * m.pi, m.ite(u[i] <= -m.pi, u[i] + 2 * m.pi, u[i])), n)
        mode = vc.mode(v)
        vc.assume(m.and_(mode >= -m.pi, mode <= m.pi))
        vc.assume(m.forall(n, lambda i: m.and_(u[i] > mode - m.pi / 2, u[i] < mode + m.pi / 2)))
        ref = u
        vc.reference(u)
    else:
        c = vc.real('centre', gen=[math.pi, -math.pi, 0., math.pi / 2, -math.pi / 2, (-math.pi, math.pi)])
        ref = c + vc.arr('spread', n, gen=(-.65, .65))
        v = np.mod(ref + math.pi, 2 * math.pi) - math.pi
    q = vc.snapshot(v)
    med, low, high = radvel.utils.geterr(v, angular=True)
    vc.unchanged('samples are left alone', v, q)
    if vc.symbolic:
        vc.prove_eq('median', med, vc.median(ref))
    else:
        d = (med - np.median(ref)) / (2 * math.pi)
        vc.prove_eq('median, up to whole turns', d, round(d))
        import pandas as pd
        s = pd.DataFrame({'w1': v})
        r = radvel.utils.geterr(s['w1'], angular=True)
        vc.prove('a column of a table is summarised alike', tuple(r) == (med, low, high))
        vc.prove('and left alone', bool(np.array_equal(s['w1'].values, v)))
    shift = vc.median(ref)
    vc.prove_eq('15.9 percentile', shift - low, order_statistic(vc, ref, n, .159))
    vc.prove_eq('84.1 percentile', shift + high, order_statistic(vc, ref, n, .841))


@harness('C19', [U + 'round_sig'])
def significant(vc):
    """x = +-mantissa * 10^e is rounded to a multiple of the unit of its last kept digit"""
    m = vc.m
    vc.rounding()
    e = vc.real('e', integer=True, gen=[(-12., 12.)])
    if vc.symbolic:
        f = vc.real('f', ge=0, lt=1)
        mant = m.exp(f * m.log(10))      # every mantissa 1 <= mant < 10
    else:
        mant = vc.real('mantissa', ge=1, lt=10, gen=[1., 9.5, 9.95, 9.999, 1.5, (1., 9.9999)])
    sig = vc.choice('significant figures', [1, 2, 3, 5])
    sign = vc.choice('sign', [1, -1])
    p10 = (lambda k: m.exp(k * m.log(10))) if vc.symbolic else (lambda k: 10.**k)
    x = sign * mant * p10(e)
    r = radvel.utils.round_sig(x, sig) if sig != 2 or vc.flag('explicit') else radvel.utils.round_sig(x)
    unit = p10(e - sig + 1)
    vc.prove('within half a unit of the last kept digit', m.and_(m.le(r - x, unit / 2), m.le(x - r, unit / 2)))
    q = r / unit
    if vc.symbolic:
        vc.prove_eq('a whole number of units', q, m.floor(q))
    else:
        vc.prove_eq('a whole number of units', q, round(q))


@harness('C19', [U + 'round_sig'])
def zero(vc):
    vc.prove_eq('zero stays zero', radvel.utils.round_sig(vc.choice('zero', [0, 0., -0.])), 0)


# ---- common number of decimals -------------------------------------------------------------------------------------
TEXT = {'int': '3', 'whole': '3.0', 1: '0.3', 2: '0.03', 3: '1.003', 5: '2.00003'}
DECIMALS = {'int': 0, 'whole': 1}


def error(vc, name):
    kind = vc.choice('decimals of the ' + name, list(TEXT))
    whole = kind in DECIMALS
    if vc.symbolic:
        v = vc.real(name, ge=0, integer=whole)
        vc.text(v, TEXT[kind])
    elif whole:
        v = vc.choice(name + ' value', [0, 1, 2, 7, 10, 15, 99, 230, 4500])
        v = v if kind == 'int' else float(v)
    else:
        v = float('%d.%s%d' % (vc.choice(name + ' whole', [0, 0, 3, 12]), '0' * (kind - 1), vc.choice(name + ' digit', [1, 3, 5, 9])))
        if len(repr(v).split('.')[-1]) != kind or 'e' in repr(v):
            vc.skip()
    return v, kind


def two_digits(vc, low):
    """contract of round_sig for values with two significant digits, which are the ones reported"""
    vc.contract(radvel.utils.round_sig, lambda x, sig=2: x)


@harness('C19', [U + 'sigfig'])
def decimals(vc):
    m = vc.m
    vc.rounding()
    med = vc.real('median', gen=[0., 2.5, -2.5, (-5., 5.), (-5000., 5000.)])
    low, kl = error(vc, 'lower error')
    one = vc.flag('one error')
    high, kh = (low, kl) if one else error(vc, 'upper error')
    D = max(DECIMALS.get(kl, kl), DECIMALS.get(kh, kh))
    whole = kl == kh == 'int' or kl == kh == 'whole'
    if 'int' in (kl, kh) and 'whole' in (kl, kh):
        vc.skip()                # one error typed as an integer, the other as a float
    two_digits(vc, low)
    # (a median that would read zero is given more digits: see small_median)
    vc.assume(m.or_(m.eq(med, 0), med > 10.**-D, med < -10.**-D))
    r = radvel.utils.sigfig(med, low) if one else radvel.utils.sigfig(med, low, high)
    med2, low2, high2 = r
    unit = 1. if whole else 10.**-D
    if vc.symbolic:
        from fractions import Fraction
        unit = Fraction(1) if whole else Fraction(1, 10**D)
    tol = 0 if vc.symbolic else 1e-9
    vc.prove('within half a unit of the last decimal', m.and_(m.le(med2 - med, unit / 2 + tol), m.le(med - med2, unit / 2 + tol)))
    q = med2 / unit
    vc.prove_eq('no more decimals than the errors', q, m.floor(q) if vc.symbolic else round(q))
    if vc.symbolic or low < 100 or not whole:
        vc.prove_eq('lower error', low2, low)
    vc.prove_eq('upper error', high2, high)
    if whole and not vc.symbolic:
        vc.prove('whole numbers', all(type(x) is int for x in r))


@harness('C19', [U + 'sigfig'], modes=('bounded',), note='up to four further digits')
def small_median(vc):
    """a median smaller than its error is reported with as many digits as make it differ from zero"""
    m = vc.m
    vc.rounding()
    k = vc.choice('decimals', [2, 3])
    low = vc.real('error', ge=0) if vc.symbolic else float('0.%s7' % ('0' * (k - 1)))
    if vc.symbolic:
        vc.text(low, TEXT[k])
    med = vc.real('median', gt=-10.**-k / 2, lt=10.**-k / 2, gen=[(-.003, .003), (-1e-4, 1e-4)])
    vc.assume(m.or_(med > 10.**-(k + 3), med < -10.**-(k + 3)))
    med2, low2, high2 = radvel.utils.sigfig(med, low)
    vc.prove('not zero', m.not_(m.eq(med2, 0)))
    vc.prove('errors', low2 is low and high2 is low)
    vc.prove('close', m.and_(med2 - med <= 10.**-k / 2 + 1e-9, med - med2 <= 10.**-k / 2 + 1e-9))
    vc.prove('sign', m.or_(m.and_(med2 > 0, med > 0), m.and_(med2 < 0, med < 0)))


# ---- the summary of the samples of a fit ---------------------------------------------------------------------------
QS = (.159, .5, .841)


class Quantiles(object):
    def __init__(self, f, columns):
        self.f, self.columns = f, columns

    def __getitem__(self, k):
        if k not in self.columns:
            raise KeyError(k)
        return {q: self.f(k, q) for q in QS}


class Samples(object):
    """contract of pandas.DataFrame as used here: named columns and their quantiles"""
    def __init__(self, vc, cols, tag):
        self.vc, self.cols, self.tag = vc, dict(cols), tag

    @property
    def columns(self):
        return list(self.cols)

    def keys(self):
        return list(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def __getitem__(self, k):
        return self.cols[k]

    def __setitem__(self, k, v):
        self.cols[k] = v

    def copy(self, deep=True):
        return Samples(self.vc, self.cols, self.tag)

    def quantile(self, qs):
        assert tuple(qs) == QS, 'quantiles %r' % (qs,)
        return Quantiles(lambda k, q: self.cols[k][q], list(self.cols))


class Basis(object):
    """contract of the conversion to orbital elements (C04): some function of all parameters"""
    def __init__(self, vc, names, spread):
        self.vc, self.names, self.spread, self.seen = vc, names, spread, []

    def to_synth(self, p, **k):
        if isinstance(p, Samples):
            self.seen.append(('samples', dict(p.cols)))
            return Samples(self.vc, {n: self.spread[n] for n in self.names}, 'synth')
        vals = {n: p[n].value for n in p.keys()}
        self.seen.append(('values', vals))
        return {n: types.SimpleNamespace(value=self.vc.opaque('synth_' + n, *[vals[x] for x in sorted(vals)])) for n in self.names}


@harness('C19', [  'radvel.driver.sampling_postprocessing'], runs=60)
def summary(vc):
    m = vc.m
    names = ['per1', 'e1', 'w1', 'k1']
    free = {k: vc.flag('free ' + k) for k in ['per1', 'k1']}
    free.update(e1=True, w1=False)

    def column(k):
        lo, d1, d2 = vc.real(k + ' low'), vc.real(k + ' d1', ge=0), vc.real(k + ' d2', ge=0)
        return {.159: lo, .5: lo + d1, .841: lo + d1 + d2}
    chains = Samples(vc, [(k, column(k)) for k in names if free[k]] + [('lnprobability', column('lnp'))], 'chains')
    before = dict(chains.cols)
    spread = {k: column('synth ' + k) for k in names}
    still = vc.flag('a constant element')
    if still:
        spread['w1'] = dict.fromkeys(QS, vc.real('w'))
    vals = {k: vc.real(k + ' value') for k in names}
    best = {k: vc.real(k + ' best') for k in names if free[k]}
    rows = {k: [vals[k], free[k], 0, 0] for k in names}
    order = []

    class Params(dict):
        pass
    pars = Params((k, types.SimpleNamespace(value=vals[k], vary=free[k])) for k in names)
    pars.basis = Basis(vc, names, spread)

    def to_dict():
        for i, k in enumerate(names):
            pars[k].value = rows[k][0]
            order.append('dict')
    vector = types.SimpleNamespace(vector=[rows[k] for k in names], indices={k: i for i, k in enumerate(names)},
                                   vector_to_dict=to_dict)
    like = types.SimpleNamespace(y=np.arange(9.), residuals=lambda: np.arange(9.), errorbars=lambda: np.ones(9),
                                 get_vary_params=lambda: np.array([1.] * sum(free.values())))
    post = types.SimpleNamespace(params=pars, vector=vector, likelihood=like, logprob=lambda: 0.)
    start = {}

    def fit(p, verbose=True, **k):
        vc.prove('this posterior is fitted', p is post)
        start.update({k: rows[k][0] for k in names})
        start['dict'] = {k: pars[k].value for k in names}
        for k in best:
            rows[k][0] = best[k]
        to_dict()
        return p
    vc.patch(radvel.fitting, 'maxlike_fitting', fit)
    vc.patch(radvel.utils, 'round_sig', lambda x, sig=2: vc.opaque('rounded', x, sig) ** 2 * (0 if vc.same(x, 0) else 1))
    vc.patch(radvel.utils, 'sigfig', lambda v, lo, hi=None: (vc.opaque('sf', v, lo), lo, lo))     # (contract: decimals)
    r, post_summary, out = radvel.driver.sampling_postprocessing(post, chains)
    vc.prove('the samples are left alone', out is chains and list(before) == chains.columns and all(chains.cols[k] is before[k] for k in before))
    vc.prove('this posterior', r is post)
    for k in chains.columns:
        for q in QS:
            vc.prove_eq('quantiles of the samples', post_summary[k][q], before[k][q])
    what, seen = pars.basis.seen[0]
    vc.prove('elements of the samples', what == 'samples')
    for k in names:
        if free[k]:
            vc.prove('sampled column', seen[k] is before[k])
        else:
            vc.prove_eq('fixed parameters take their value', seen[k], vals[k])
        vc.prove_eq('the fit starts from the medians', start[k], before[k][.5] if free[k] else vals[k])
        vc.prove_eq('in both representations', start['dict'][k], start[k])
        vc.prove_eq('fitted value', rows[k][0], best[k] if free[k] else vals[k])
    final = {k: best[k] if free[k] else vals[k] for k in names}
    for k in names:
        s = spread[k]
        err = vc.opaque('rounded', (s[.841] - s[.159]) / 2, 2) ** 2 * (0 if vc.same((s[.841] - s[.159]) / 2, 0) else 1)
        top = vc.opaque('synth_' + k, *[final[x] for x in sorted(final)])
        if vc.split(err > 0):
            vc.prove_eq('uncertainty: half the width of the interval', r.uparams[k], err)
            vc.prove_eq('median', r.medparams[k], vc.opaque('sf', s[.5], err))
            vc.prove_eq('most probable value, in the same decimals', r.maxparams[k], vc.opaque('sf', top, err))
        else:
            vc.prove_eq('no uncertainty', r.uparams[k], err)
            vc.prove_eq('median', r.medparams[k], s[.5])
            vc.prove_eq('most probable value', r.maxparams[k], top)


@harness('C19', ['radvel.driver.sampling_postprocessing'], modes=(), runs=3, conc_budget=40)
def fitted_summary(vc):
    """real posterior and table of samples"""
    import pandas as pd
    rng = np.random.RandomState(vc.choice('seed', [1, 2, 3, 4, 5, 6]))
    p = radvel.Parameters(1, basis='per tc secosw sesinw k')
    for k, v in zip(['per1', 'tc1', 'secosw1', 'sesinw1', 'k1'], [7., 2., .3, .2, 9.]):
        p[k] = radvel.Parameter(value=v, vary=k in ('per1', 'tc1', 'k1'))
    p['dvdt'], p['curv'] = radvel.Parameter(value=0., vary=False), radvel.Parameter(value=0., vary=False)
    mod = radvel.RVModel(p)
    t = np.sort(rng.rand(25) * 60)
    like = radvel.likelihood.RVLikelihood(mod, t, mod(t) + rng.randn(25), np.ones(25))
    like.params['gamma'], like.params['jit'] = radvel.Parameter(value=.1, vary=True), radvel.Parameter(value=.5, vary=False)
    post = radvel.posterior.Posterior(like)
    ch = pd.DataFrame({k: post.params[k].value + .05 * rng.randn(400) for k in post.name_vary_params()})
    ch['lnprobability'] = 0.
    keep = ch.copy()
    post, q, out = radvel.driver.sampling_postprocessing(post, ch)
    vc.prove('the samples are left alone', out.equals(keep) and ch.equals(keep))
    for k in ('per1', 'k1', 'gamma'):
        lo, md, hi = np.quantile(keep[k], QS)
        vc.prove_eq('quantiles', q[k][.159], lo)
        vc.prove_eq('quantiles', q[k][.841], hi)
        vc.prove('uncertainty', abs(post.uparams[k] - (hi - lo) / 2) <= .06 * (hi - lo))
        vc.prove('median', abs(post.medparams[k] - md) <= .06 * (hi - lo))
        vc.prove('most probable value', abs(post.maxparams[k] - post.params[k].value) <= .06 * (hi - lo))
    vc.prove_eq('fixed element', post.medparams['e1'], .13)
    vc.prove_eq('fixed element', post.uparams['e1'], 0)


# ---- the rows of the report ----------------------------------------------------------------------------------------
R = 'radvel.report.'


@harness('C19', [R + 'TexTable._row'], runs=200)
def row(vc):
    m = vc.m
    name = vc.choice('parameter', ['w1', 'k1', 'gamma_a'])
    unit = vc.choice('unit', ['radians', 'days', ''])
    lo, d1, d2 = vc.real('low'), vc.real('d1', ge=0, gen=[0., (0., 3.)]), vc.real('d2', ge=0, gen=[0., (0., 3.)])
    q = {.159: lo, .5: lo + d1, .841: lo + d1 + d2}
    ang = vc.real('angular median'), vc.real('angular low', ge=0), vc.real('angular high', ge=0)
    best = vc.real('most probable')
    column = object()
    seen = []
    fresh = [0]

    def text(v):
        fresh[0] += 1
        return vc.real('text%d' % fresh[0], ge=0)
    vc.patch(radvel.utils, 'geterr', lambda c, angular=False: ang if c is column and angular else None)
    rounded = {}

    def round_sig(x, sig=2):
        r = vc.opaque('rounded', x, sig) ** 2
        return r
    vc.patch(radvel.utils, 'round_sig', round_sig)
    vals = {}

    def sigfig(v, low, high):
        seen.append((v, low, high))
        r = text(v), vc.opaque('low text', low, high) ** 2, vc.opaque('high text', low, high) ** 2
        if equal:
            r = r[0], r[1], r[1]
        vals[len(seen) - 1] = r
        return r
    equal = vc.flag('equal errors')
    vc.patch(radvel.utils, 'sigfig', sigfig)
    t = radvel.report.TexTable.__new__(radvel.report.TexTable)
    t.report = types.SimpleNamespace(chains={name: column}, latex_dict={name: 'LABEL'})
    t.quantiles = {name: q}
    t.post = types.SimpleNamespace(maxparams={name: best})
    asked = name if name != 'gamma_a' else vc.choice('asked for', ['gamma_a', 'gamma_a1'])
    row = t._row(asked, unit)
    med, low, high = ang if unit == 'radians' else (q[.5], q[.5] - q[.159], q[.841] - q[.5])
    vc.prove_same('two values are rounded', len(seen), 2)
    for v, l, h in seen:
        vc.prove_eq('lower error', l, vc.opaque('rounded', low, 2) ** 2)
        vc.prove_eq('upper error', h, vc.opaque('rounded', high, 2) ** 2)
    first = 0 if vc.same(seen[0][0], best) and vc.same(seen[1][0], med) else 1
    vc.prove_eq('median', seen[1 - first][0], med)
    vc.prove_eq('most probable value', seen[first][0], best)
    M, lo_, hi_ = vals[1 - first]
    B = vals[first][0]
    cells = row.split(' & ')
    vc.prove_same('cells', (len(cells), cells[0], cells[-1]), (4, 'LABEL', unit))
    if vc.split(m.or_(lo_ <= 1e-12, hi_ <= 1e-12)):
        vc.prove('fixed value, marked as such', all(c.startswith(r'$\equiv') and c.endswith('$') for c in cells[1:3]) and cells[1] == cells[2])
        if not vc.symbolic:
            vc.prove('fixed value', abs(float(cells[1][7:-1]) - q[.5]) <= .5e-4 + 1e-9)
    elif equal or vc.split(m.eq(lo_, hi_)):
        vc.prove('symmetric', cells[1] in (r'$%s\pm %s$' % (M, hi_), r'$%s\pm %s$' % (M, lo_)) and cells[2] == '$%s$' % B)
    else:
        vc.prove_same('asymmetric', cells[1:3], ['$%s^{+%s}_{-%s}$' % (M, hi_, lo_), '$%s$' % B])


@harness('C19', [R + 'TexTable._data'], runs=200)
def rows(vc):
    """one row per reported parameter, angles summarised as angles"""
    npl = vc.choice('planets', [1, 2, 3])
    loop = vc.flag('per planet')
    suffixes = vc.choice('instruments', [[], ['a'], ['a', 'hires_j']])
    names = vc.choice('names', ['per tc secosw sesinw k', 'per tc tp e w k', 'logper tp e w logk']) if loop else \
        ' '.join(['gamma_' + x for x in suffixes] + ['jit_' + x for x in suffixes] + ['dvdt', 'curv'])
    missing = vc.choice('missing', [None, 'tp', 'dvdt'])
    asked = []

    def row(par, unit):
        asked.append((par, unit))
        if missing and par.startswith(missing):
            raise KeyError(par)
        return 'row of ' + par
    t = radvel.report.TexTable.__new__(radvel.report.TexTable)
    t._row = row
    t.report = types.SimpleNamespace(planet=types.SimpleNamespace(nplanets=npl),
                                     post=types.SimpleNamespace(likelihood=types.SimpleNamespace(suffixes=suffixes)))
    r = t._data(names) if loop else t._data(names, dontloop=True)
    want = [n + str(i) for i in range(1, npl + 1 if loop else 2) for n in names.split()]
    vc.prove_same('a row per parameter', r, ['row of ' + n for n in want if not (missing and n.startswith(missing))])
    vc.prove_same('asked for', [a for a, u in asked], want)
    for a, u in asked:
        vc.prove('only the argument of periastron is an angle', (u == 'radians') == (a[:-1] == 'w'))
        if a[:-1] in ('per', 'tc', 'tp', 'k', 'dvdt', 'curv'):
            vc.prove_same('unit', u, radvel.report.units[a[:-1]])
        for x in suffixes:
            if a[:-1] in ('gamma_' + x, 'jit_' + x):
                vc.prove_same('unit', u, radvel.report.units[a.split('_')[0]])
