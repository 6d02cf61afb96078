"""C10: prior transforms are the inverse cumulative distributions."""
from pyvc.api import harness
from common import params, stub_posterior
import radvel
import radvel.prior as rp
import radvel.posterior

M = 'radvel.prior.'
GU = [0., 0.5, 1., (0., 1.)]


def unit(vc, name='u', **k):
    return vc.real(name, ge=0, le=1, gen=GU, **k)


@harness('C10', [M + 'Gaussian.transform'])
def gaussian(vc):
    mu, s = vc.real('mu', gen=[(-20., 20.)]), vc.real('sigma', gt=0, gen=[(1e-3, 10.)])
    u = vc.real('u', gt=0, lt=1, gen=[(.001, .999)])
    x = rp.Gaussian('k1', mu, s).transform(u)
    if vc.symbolic:
        vc.prove_eq('mu + sigma * (standard normal quantile of u)', x, mu + s * vc.opaque('normppf', u))
    else:
        from scipy.stats import norm
        vc.prove_eq('cumulative probability of the transform is u', norm.cdf(x, mu, s), u)


@harness('C10', [M + 'HardBounds.transform'])
def hard_bounds(vc):
    m = vc.m
    lo, hi = vc.real('lo', gen=[(-20., 5.)]), vc.real('hi', gen=[(-5., 20.)])
    vc.assume(lo < hi)
    pr = rp.HardBounds('k1', lo, hi)
    u, u2 = unit(vc), unit(vc, 'u2')
    x = pr.transform(u)
    vc.prove_eq('cumulative probability of the transform is u', (x - lo) / (hi - lo), u)
    vc.prove('inside the bounds', m.and_(m.le(lo, x), m.le(x, hi)))
    vc.assume(u < u2)
    vc.prove('increasing', m.lt(x, pr.transform(u2)))


@harness('C10', [M + 'HardBounds.transform'])
def infinite_bounds(vc):
    lo = vc.real('lo', gen=[(-20., 5.)])
    inf = float('inf')
    a, b = vc.choice('bounds', [(0, inf), (-inf, 0), (-inf, inf)])
    u = unit(vc)
    vc.raises('no transform with an infinite bound', ValueError,
              lambda: rp.HardBounds('k1', lo if a == 0 else a, lo if b == 0 else b).transform(u))


@harness('C10', [M + 'Jeffreys.transform', M + 'Jeffreys.__init__'])
def jeffreys(vc):
    m = vc.m
    lo, hi = vc.real('lo', gt=0, gen=[(.1, 5.)]), vc.real('hi', gen=[(1., 20.)])
    vc.assume(lo < hi)
    pr = rp.Jeffreys('k1', lo, hi)
    u, u2 = unit(vc), unit(vc, 'u2')
    x = pr.transform(u)
    vc.prove_eq('cumulative probability of the transform is u', m.log(x / lo) / m.log(hi / lo), u)
    vc.prove_eq('lower end', pr.transform(0.), lo)
    vc.prove_eq('upper end', pr.transform(1.), hi)
    vc.prove_eq('the logarithm grows in proportion to u', m.log(pr.transform(u2) / x), (u2 - u) * m.log(hi / lo))
    vc.prove('at a positive rate', m.lt(0, m.log(hi / lo)))


@harness('C10', [M + 'ModifiedJeffreys.transform', M + 'ModifiedJeffreys.__init__'])
def modified_jeffreys(vc):
    m = vc.m
    lo, hi, kn = vc.real('lo', gen=[(.1, 5.)]), vc.real('hi', gen=[(1., 20.)]), vc.real('knee', gen=[0., (-3., 3.)])
    vc.assume(m.and_(lo < hi, kn < lo))
    pr = rp.ModifiedJeffreys('k1', lo, hi, kn)
    u = unit(vc)
    x = pr.transform(u)
    vc.prove_eq('cumulative probability of the transform is u',
                m.log((x - kn) / (lo - kn)) / m.log((hi - kn) / (lo - kn)), u)
    vc.prove_eq('lower end', pr.transform(0.), lo)
    vc.prove_eq('upper end', pr.transform(1.), hi)
    vc.prove('which grows with u', m.lt(0, m.log((hi - kn) / (lo - kn))))


@harness('C10', [M + 'UserDefinedPrior.transform'])
def user_defined(vc):
    u = unit(vc)
    pr = rp.UserDefinedPrior(['k1'], lambda x: 0., 'x', lambda v: vc.opaque('quantile', v))
    vc.prove_eq("the user's transform", pr.transform(u), vc.opaque('quantile', u))
    vc.raises('no transform given', TypeError, lambda: rp.UserDefinedPrior(['k1'], lambda x: 0., 'x').transform(u))


@harness('C10', [M + 'EccentricityPrior.transform', M + 'PositiveKPrior.transform', M + 'SecondaryEclipsePrior.transform',
                 M + 'InformativeBaselinePrior.transform'])
def no_transform(vc):
    u = unit(vc)
    pr = vc.choice('prior', [rp.EccentricityPrior(1), rp.PositiveKPrior(1), rp.SecondaryEclipsePrior(1, 0., 1.),
                             rp.InformativeBaselinePrior('per1', 10.)])
    vc.raises('refused', NotImplementedError, lambda: pr.transform(u))


@harness('C10', [M + 'NumericalPrior.transform', M + 'NumericalPrior.__init__'], runs=0, modes=('bounded',),
         note='three bins, any edges and counts; contracts of numpy.histogram and numpy.interp')
def histogram(vc):
    """the histogram quantile agrees with the cumulative counts up to one bin, and increases"""
    if not vc.symbolic:
        vc.skip()
    import numpy as np
    B, seen = 3, []
    counts = [vc.real('count%d' % i, ge=0) for i in range(B)]
    widths = [vc.real('width%d' % i, gt=0) for i in range(B)]
    edges = [vc.real('edge')]
    for i in range(B):
        edges.append(edges[-1] + widths[i])
    tot = counts[0] + counts[1] + counts[2]
    vc.assume(tot > 0)
    data, bins = object(), vc.choice('bins', ['auto', 3])

    def hist(values, bins=10, **k):
        seen.append((values, bins))
        return np.array(counts, dtype=object), np.array(edges, dtype=object)
    vc.patch(rp, 'gaussian_kde', lambda values, bw_method=None: None)
    vc.patch(rp.np, 'histogram', hist)
    pr = rp.NumericalPrior(['k1'], data, bins=bins)
    vc.prove('the histogram of the values given', len(seen) == 1 and seen[0][0] is data and seen[0][1] == bins)
    u = vc.real('u', ge=0, le=1)
    x = pr.transform(u)
    vc.prove('within the range of the values', x >= edges[0])
    vc.prove('within the range of the values', x <= edges[B])
    cum = 0
    for k in range(B):
        cum = cum + counts[k] / tot
        if vc.split(u < cum):
            vc.prove('not above the bin after the quantile', x <= edges[min(k + 2, B)])
        else:
            vc.prove('not below the bin of the quantile', x >= edges[k])
    v = vc.real('v', ge=0, le=1)
    vc.assume(u <= v)
    vc.prove('increasing', x <= pr.transform(v))


@harness('C10', [M + 'NumericalPrior.transform', M + 'NumericalPrior.__init__'], runs=60, modes=())
def numerical(vc):
    """the histogram quantile: its empirical cumulative probability is u up to one bin"""
    import numpy as np
    n = vc.choice('n', [40, 300])
    a = vc.arr('a', n, gen=(-3., 2.))
    if vc.flag('skewed'):
        a = np.exp(a)
    a = a + 0.001 * np.arange(n)
    bins = vc.choice('bins', ['auto', 10, 30])
    pr = rp.NumericalPrior(['k1'], a, bins=bins)
    h, edges = np.histogram(a, bins=bins)
    us = np.linspace(0, 1, 23)
    xs = np.array([pr.transform(u) for u in us])
    vc.prove('increasing', bool((np.diff(xs) >= 0).all()))
    for u, x in zip(us, xs):
        j = min(max(np.searchsorted(edges, x, side='right') - 1, 0), len(h) - 1)
        lo = h[:max(j - 1, 0)].sum() / n
        hi = h[:j + 2].sum() / n
        vc.prove('cumulative probability of the transform is u up to the bin', lo - 1e-9 <= u <= hi + 1e-9)


class Tr(rp.Prior):
    """a prior with an arbitrary transform"""
    def __init__(self, vc, param, name, extra=False):
        self.vc, self.param, self.name, self.extra_constraint = vc, param, name, extra

    def __call__(self, params, vector, finite=False):
        return 0.

    def transform(self, u):
        return self.vc.opaque('T' + self.name, u)


@harness('C10', ['radvel.posterior.Posterior.prior_transform', 'radvel.posterior.Posterior.get_prior_dict',
                 'radvel.likelihood.Likelihood.name_vary_params'])
def joint(vc):
    import numpy as np
    npl = vc.choice('planets', [1, 2])
    keys = ['per', 'tc', 'e', 'w', 'k']
    free = [k + '1' for k in keys if vc.flag('free ' + k)] + (['k2', 'e2'] if npl == 2 else [])
    if vc.flag('trend'):
        free.append('curv')
    post = stub_posterior(vc, 'per tc e w k', npl, free=free, extra_params=['gamma_a', 'jit_a'], vary_extra=['jit_a'])
    free = set(free + ['jit_a'])
    order = [k for k in post.vector.names if k in free]
    vc.prove_same('every free parameter has a row', len(order), len(free))
    rows = [post.vector.indices[k] for k in order]
    vc.prove_same('rows ascend', rows, sorted(rows))
    # priors in an unrelated order, with extra constraints in between
    for k in sorted(free, reverse=True):
        post.priors.append(Tr(vc, k, 'x' + k, True))
        post.priors.append(Tr(vc, k, k))
    post.priors.append(rp.PositiveKPrior(npl))
    post.check_proper_priors()
    u = vc.arr('u', len(order), ge=0, le=1, gen=GU)
    inplace = vc.flag('inplace')
    u0 = u.copy()
    x = post.prior_transform(u, inplace=True) if inplace else post.prior_transform(u)
    vc.prove_eq('each free parameter gets the transform of its own prior', x,
                np.array([vc.opaque('T' + k, u0[i]) for i, k in enumerate(order)]))
    if inplace:
        vc.prove('works in place', x is u)
    else:
        vc.prove_eq('argument unchanged', u, u0)


@harness('C10', ['radvel.posterior.Posterior.check_proper_priors', 'radvel.posterior.Posterior.get_prior_dict'])
def improper(vc):
    free = ['per1', 'e1', 'k1']
    post = stub_posterior(vc, 'per tc e w k', 1, free=free)
    kinds = {k: vc.choice('priors of ' + k, ['proper', 'none', 'extra', 'proper+extra', 'two']) for k in free}
    fixed = vc.choice('prior of tc1', ['none', 'proper', 'extra'])
    for k, v in list(kinds.items()) + [('tc1', fixed)]:
        if v in ('proper', 'proper+extra', 'two'):
            post.priors.append(Tr(vc, k, 'a' + k))
        if v in ('extra', 'proper+extra'):
            post.priors.append(Tr(vc, k, 'b' + k, True))
        if v == 'two':
            post.priors.append(Tr(vc, k, 'c' + k))
    ok = all(v in ('proper', 'proper+extra') for v in kinds.values()) and fixed != 'proper'
    if ok:
        post.check_proper_priors()
        vc.prove('accepted', True)
    else:
        vc.raises('refused', ValueError, post.check_proper_priors)


@harness('C10', ['radvel.posterior.Posterior.check_proper_priors', 'radvel.posterior.Posterior.prior_transform'])
def listed_parameters(vc):
    """priors that name their parameter in a list (user-defined and numerical) serve nested sampling"""
    import numpy as np
    post = stub_posterior(vc, 'per tc e w k', 1, free=['per1', 'k1'])
    post.priors = [rp.UserDefinedPrior(['k1'], lambda x: 0., 'x', lambda v: vc.opaque('quantile', v)), Tr(vc, 'per1', 'per1')]
    if vc.flag('prior on two parameters'):
        post.priors.append(rp.UserDefinedPrior(['per1', 'k1'], lambda x: 0., 'x', lambda v: v))
        vc.raises('a joint prior without a transform is refused', ValueError, post.check_proper_priors)
        return
    post.check_proper_priors()
    u = vc.arr('u', 2, ge=0, le=1, gen=GU)
    vc.prove_eq('transform', post.prior_transform(u), np.array([vc.opaque('Tper1', u[0]), vc.opaque('quantile', u[1])]))
