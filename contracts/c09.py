"""C09: priors return their documented log-density and support."""
import math

from pyvc.api import harness
from common import BASES, params, set_vector, draw
import radvel
import radvel.prior as rp
import radvel.orbit
import radvel.utils

M = 'radvel.prior.'
GX = [(-20., 20.)]
LOGS = [0., (-3., 3.)]


def system(vc, basis='per tc e w k', npl=1, **kw):
    p = params(vc, basis, npl)
    v = radvel.model.Vector(p)
    return p, v, set_vector(vc, v, **kw)


def one(vc, gen=GX, **b):
    """a one-parameter system whose parameter k1 is x"""
    p, v, vals = system(vc)
    x = vc.real('x', gen=gen, np=True, **b)
    v.vector[v.indices['k1']][0] = x
    return p, v, x


@harness('C09', [M + 'Gaussian.__call__'])
def gaussian(vc):
    m = vc.m
    p, v, x = one(vc)
    mu, s = vc.real('mu', gen=GX), vc.real('sigma', gt=0, gen=[(1e-3, 10.)])
    pr = rp.Gaussian('k1', mu, s)
    q = vc.snapshot(v.vector)
    vc.prove_eq('log of the normal density', pr(p, v), -((x - mu) / s) * ((x - mu) / s) / 2 - m.log(s) - m.log(2 * m.pi) / 2)
    vc.unchanged('vector unchanged', v.vector, q)


def ecc_of(vc, basis, v, n):
    b = basis.split()
    if 'e' in b:
        return v['e%d' % n]
    if 'se' in b:
        return v['se%d' % n] * v['se%d' % n]
    if 'secosw' in b:
        return v['secosw%d' % n] * v['secosw%d' % n] + v['sesinw%d' % n] * v['sesinw%d' % n]
    return vc.m.sqrt(v['ecosw%d' % n] * v['ecosw%d' % n] + v['esinw%d' % n] * v['esinw%d' % n])


@harness('C09', [M + 'EccentricityPrior.__call__', M + 'EccentricityPrior.__init__'], runs=600)
def eccentricity(vc):
    m = vc.m
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', [1, 2])
    free = dict(gen=[(-.3, 1.2)])
    p = params(vc, basis, npl)
    v = radvel.model.Vector(p)
    vals = set_vector(vc, v, e=dict(ge=None, lt=None, **free), se=dict(ge=None, lt=None, gen=[(-1.2, 1.2)]),
                      secosw=dict(gen=[(-1., 1.)]), sesinw=dict(gen=[(-1., 1.)]), ecosw=free, esinw=free)
    kind = vc.choice('spec', ['number', 'list', 'some', 'one limit'])
    if kind == 'number':
        pls, lims = list(range(1, npl + 1)), [0.9] * npl
        pr = rp.EccentricityPrior(npl, 0.9)
    elif kind == 'list':
        pls = list(range(npl, 0, -1))
        lims = [vc.real('lim%d' % k, gt=0, le=1, gen=[(.05, 1.)]) for k in pls]
        pr = rp.EccentricityPrior(pls, lims)
    elif kind == 'one limit':
        pls, lims = [npl], [0.9]
        pr = rp.EccentricityPrior(pls, 0.9)
    else:
        pls, lims = [npl], [vc.real('lim', gt=0, le=1, gen=[(.05, 1.)])]
        pr = rp.EccentricityPrior(pls, lims)
    finite = vc.flag('finite')
    q = vc.snapshot(v.vector)
    r = pr(p, v, finite=True) if finite else pr(p, v)
    es = [ecc_of(vc, basis, vals, n) for n in pls]
    inside = vc.split(m.and_(*[m.and_(e >= 0, e <= l) for e, l in zip(es, lims)]))
    if inside:
        spec = 0
        for l in lims:
            spec = spec - (math.log(l) if kind in ('number', 'one limit') else m.log(l))
        vc.prove_eq('uniform density inside', r, spec)
        vc.cover('inside')
    elif finite:
        vc.prove_same('large finite penalty outside', r, -1e100)
    else:
        vc.prove_same('minus infinity outside', r, -float('inf'))
    vc.unchanged('vector unchanged', v.vector, q)


@harness('C09', [M + 'PositiveKPrior.__call__'])
def positive_k(vc):
    m = vc.m
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', [1, 2, 3])
    p = params(vc, basis, npl)
    v = radvel.model.Vector(p)
    vals = set_vector(vc, v, k=dict(gt=None, gen=[0., (-1., 5.)]))
    finite = vc.flag('finite')
    constrained = vc.choice('planets constrained', list(range(1, npl + 1)))
    pr = rp.PositiveKPrior(constrained)
    r = pr(p, v, finite=True) if finite else pr(p, v)
    ks = [vals['k%d' % n] if 'k1' in vals else m.exp(vals['logk%d' % n]) for n in range(1, constrained + 1)]
    if vc.split(m.and_(*[k >= 0 for k in ks])):
        vc.prove_same('no constraint for K>=0', r, 0)
    else:
        vc.prove_same('excluded for negative K', r, -1e100 if finite else -float('inf'))


@harness('C09', [M + 'HardBounds.__call__', M + 'HardBounds.__init__'])
def hard_bounds(vc):
    m = vc.m
    p, v, x = one(vc)
    lo = vc.real('lo', gen=[(-20., 5.)])
    hi = vc.real('hi', gen=[(-5., 20.)])
    vc.assume(lo < hi)
    edge = vc.choice('edge', ['', 'lo', 'hi'])
    if edge:
        x = v.vector[v.indices['k1']][0] = lo if edge == 'lo' else hi
    r = rp.HardBounds('k1', lo, hi)(p, v)
    if vc.split(m.and_(lo < x, x < hi)):
        vc.prove_eq('uniform density', r, -m.log(hi - lo))
    else:
        vc.prove_same('excluded outside and on the bounds', r, -float('inf'))


@harness('C09', [M + 'HardBounds.__call__', M + 'HardBounds.__init__'])
def half_open_bounds(vc):
    p, v, x = one(vc)
    lo = vc.real('lo', gen=[(-5., 5.)])
    inf = float('inf')
    side = vc.flag('upper')
    r = rp.HardBounds('k1', lo, inf)(p, v) if not side else rp.HardBounds('k1', -inf, lo)(p, v)
    if vc.split(x < lo if side else x > lo):
        vc.prove_same('no density with an infinite bound', r, 0)
    else:
        vc.prove_same('excluded', r, -inf)


@harness('C09', [M + 'Jeffreys.__call__', M + 'Jeffreys.__init__'])
def jeffreys(vc):
    m = vc.m
    p, v, x = one(vc, gen=[(-1., 12.)])
    lo, hi = vc.real('lo', gt=0, gen=[(.1, 5.)]), vc.real('hi', gen=[(1., 20.)])
    vc.assume(lo < hi)
    edge = vc.choice('edge', ['', 'lo', 'hi'])
    if edge:
        x = v.vector[v.indices['k1']][0] = lo if edge == 'lo' else hi
    r = rp.Jeffreys('k1', lo, hi)(p, v)
    if vc.split(m.and_(lo <= x, x <= hi)):
        vc.prove_eq('normalised 1/x density', r, -m.log(x) - m.log(m.log(hi) - m.log(lo)))
    else:
        vc.prove_same('excluded outside', r, -float('inf'))


@harness('C09', [M + 'ModifiedJeffreys.__call__', M + 'ModifiedJeffreys.__init__'])
def modified_jeffreys(vc):
    m = vc.m
    p, v, x = one(vc, gen=[(-1., 12.)])
    lo, hi, kn = vc.real('lo', gen=[(.1, 5.)]), vc.real('hi', gen=[(1., 20.)]), vc.real('knee', gen=[0., (-3., 3.)])
    vc.assume(m.and_(lo < hi, kn < lo))
    edge = vc.choice('edge', ['', 'lo', 'hi'])
    if edge:
        x = v.vector[v.indices['k1']][0] = lo if edge == 'lo' else hi
    r = rp.ModifiedJeffreys('k1', lo, hi, kn)(p, v)
    if vc.split(m.and_(lo <= x, x <= hi)):
        vc.prove_eq('normalised 1/(x-knee) density', r, -m.log(x - kn) - m.log(m.log(hi - kn) - m.log(lo - kn)))
    else:
        vc.prove_same('excluded outside', r, -float('inf'))


@harness('C09', [M + 'ModifiedJeffreys.__init__'])
def knee_above_minimum(vc):
    lo, hi, kn = vc.real('lo', gen=[(.1, 5.)]), vc.real('hi', gen=[(1., 20.)]), vc.real('knee', gen=[(0., 30.)])
    vc.assume(vc.m.and_(lo < hi, kn > lo, kn < hi))
    vc.raises('knee above the minimum is rejected', AssertionError, lambda: rp.ModifiedJeffreys('k1', lo, hi, kn))


@harness('C09', [M + 'InformativeBaselinePrior.__call__'])
def informative_baseline(vc):
    m = vc.m
    basis = vc.choice('basis', ['per tc e w k', 'logper tc secosw sesinw k'])
    p, v, vals = system(vc, basis, 2, logper=dict(gen=[(0., 3.)]), per=dict(gen=[(1., 15.)]))
    B, td = vc.real('B', gt=0, gen=[(1., 10.)]), vc.real('td', ge=0, gen=[0., (.01, 3.)])
    n = vc.choice('planet', [1, 2])
    if basis.startswith('per'):
        key, x = 'per%d' % n, vals['per%d' % n]
    else:
        key = 'logper%d' % n
        x = m.exp(vals[key])
    pr = rp.InformativeBaselinePrior(key, B, td) if vc.flag('with duration') else None
    if pr is None:
        pr, td = rp.InformativeBaselinePrior(key, B), 0
    r = pr(p, v)
    if vc.split(x <= B + td):
        vc.prove_eq('flat below the baseline', r, 0.)
    else:
        vc.prove_eq('decreasing above', r, m.log(B + td) - m.log(x))


@harness('C09', [M + 'UserDefinedPrior.__call__', M + 'NumericalPrior.__call__'])
def user_defined(vc):
    p, v, vals = system(vc, 'per tc e w k', 2)
    keys = vc.choice('keys', [['k1'], ['e2', 'w1'], ['per1', 'k2', 'e1']])
    seen = []

    def func(x):
        seen.append(list(x))
        return vc.opaque('density', *x)
    pr = rp.UserDefinedPrior(keys, func, 'x')
    want = vc.opaque('density', *[vals[k] for k in keys])
    vc.prove_eq('the function of the named parameters, in order', pr(p, v), want)
    vc.prove_same('evaluated once', len(seen), 1)


@harness('C09', [M + 'NumericalPrior.__call__', M + 'NumericalPrior.__init__'], runs=0, note='contract of scipy.stats.gaussian_kde')
def kernel_density(vc):
    """the log of the density estimate at the values of the named parameters, in their order"""
    if not vc.symbolic:
        vc.skip()
    import numpy as np
    p, v, vals = system(vc, 'per tc e w k', 2)
    keys = vc.choice('parameters', [['e1'], ['e1', 'w1'], ['w2', 'e1'], ['k2', 'per1', 'w1']])
    data, bw, made = object(), vc.choice('bandwidth', [None, .3]), []

    def kde(values, bw_method=None, weights=None):
        made.append((values, bw_method, weights))
        return lambda x: np.array([vc.m.exp(vc.opaque('density', *list(x)))], dtype=object)
    vc.patch(rp, 'gaussian_kde', kde)
    vc.patch(rp.np, 'histogram', lambda values, **k: (np.array([1., 2.]), np.array([0., 1., 2.])))
    pr = rp.NumericalPrior(keys, data, **({} if bw is None else {'bw_method': bw}))
    vc.prove('the density estimate of the values given', len(made) == 1 and made[0] == (data, bw, None))
    vc.prove_eq('log of the density estimate', pr(p, v), vc.opaque('density', *[vals[k] for k in keys]))


@harness('C09', [M + 'NumericalPrior.__call__', M + 'NumericalPrior.__init__'], runs=40, modes=())
def numerical(vc):
    import numpy as np
    from scipy.stats import gaussian_kde
    p, v, vals = system(vc, 'per tc e w k', 1, e=dict(gen=[(.1, .6)]))
    two = vc.flag('two')
    a, b = vc.arr('a', 30, gen=(.1, .5)), vc.arr('b', 30, gen=(-2., 2.))
    data = np.array([a, b]) if two else a
    keys = ['e1', 'w1'] if two else ['e1']
    want = np.log(gaussian_kde(data)([vals[k] for k in keys])[0])
    vc.prove_eq('log of the kernel density estimate', rp.NumericalPrior(keys, data)(p, v), want)


@harness('C09', [M + 'SecondaryEclipsePrior.__call__'])
def secondary_eclipse(vc):
    m = vc.m
    basis = vc.choice('basis', ['per tc secosw sesinw logk', 'per tp e w k', 'per tc e w k'])
    npl = vc.choice('planets', [1, 2])
    n = vc.choice('planet', list(range(1, npl + 1)))
    p, v, vals = system(vc, basis, npl)
    ts, err = vc.real('ts', gen=[(-100., 100.)]), vc.real('ts_err', gt=0, gen=[(.001, 1.)])
    # the eclipse time and the phase are C02's and C17's business: arbitrary functions here
    vc.contract(radvel.orbit.timeperi_to_timetrans,
                lambda tp, per, e, w, secondary=False: vc.opaque('eclipse%d' % bool(secondary), tp, per, e, w))
    vc.contract(radvel.utils.t_to_phase_vector,
                lambda vec, t, num, cat=False: vc.opaque('phase%d' % num, t) if vec is v else None)
    row = 5 * n - 5
    synth = [[vc.real('s%d' % i, gt=0 if i % 5 == 0 else None)] + [0.] * 3 for i in range(5 * npl)] if vc.symbolic else None
    if vc.symbolic:
        vc.patch(radvel.basis.Basis, 'v_to_synth', lambda self, vec: synth)
    s = p.basis.v_to_synth(v)
    per, tp, e, w = [s[row + i][0] for i in range(4)]
    model = radvel.utils.t_to_phase_vector(v, radvel.orbit.timeperi_to_timetrans(tp, per, e, w, secondary=True), n)
    obs = radvel.utils.t_to_phase_vector(v, ts, n)
    sig = err / per
    r = rp.SecondaryEclipsePrior(n, ts, err)(p, v)
    vc.prove_eq('normal density of the phase difference', r,
                -((model - obs) / sig) * ((model - obs) / sig) / 2 - m.log(sig) - m.log(2 * m.pi) / 2)
