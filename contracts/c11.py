"""C11: the posterior is likelihood times priors at the given parameters."""
from pyvc.api import harness
from common import params, stub_posterior, values, set_vector
import radvel
import radvel.prior as rp
import radvel.posterior
import radvel.likelihood

P = 'radvel.posterior.Posterior.'
INF = float('inf')
KEYS = ['per1', 'tc1', 'e1', 'w1', 'k1', 'dvdt', 'curv', 'gamma_a', 'jit_a']


class Pr(rp.Prior):
    """an arbitrary prior: any function of the parameter values, or an exclusion"""
    def __init__(self, vc, name, excl=False, extra=False, takes_finite=True):
        self.vc, self.name, self.excl, self.extra_constraint = vc, name, excl, extra
        self.takes_finite = takes_finite
        self.seen = []

    def __call__(self, params, vector, **kw):
        if kw and not self.takes_finite:
            raise TypeError('unexpected keyword argument')
        v = values(vector)
        self.seen.append(v)
        if self.excl:
            return -1e100 if kw.get('finite') else -INF
        return self.vc.opaque('prior' + self.name, *v)


def post_(vc, free=('per1', 'e1', 'k1', 'jit_a'), **k):
    return stub_posterior(vc, 'per tc e w k', 1, free=[f for f in free if f != 'jit_a'], extra_params=['gamma_a', 'jit_a'],
                          vary_extra=['jit_a'], **k)


def priors_(vc, post, nmax=3, **kw):
    n = vc.choice('number of priors', range(nmax + 1))
    ex = vc.choice('excluding prior', [None] + list(range(n)))
    post.priors = [Pr(vc, str(i), ex == i, **kw) for i in range(n)]
    return ex is not None


def prior_sum(vc, post, v, which=lambda p: True):
    r = 0.
    for p in post.priors:
        if which(p):
            r = r + vc.opaque('prior' + p.name, *v)
    return r


@harness('C11', [P + 'logprob', P + '__init__'])
def logprob(vc):
    post = post_(vc)
    excl = priors_(vc, post)
    if post.priors and vc.flag('one prior twice'):
        post.priors.append(post.priors[0])
    if vc.flag('evaluated before'):
        post.logprob()
    set_vector(vc, post.vector)
    s = vc.snapshot(post.vector.vector)
    v = values(post.vector)
    x = post.logprob()
    if excl:
        vc.prove('an excluding prior makes it minus infinity', vc.m.isneginf(x))
    else:
        vc.prove_eq('log-likelihood plus the log-priors', x, vc.opaque('like', *v) + prior_sum(vc, post, v))
    vc.unchanged('vector unchanged', post.vector.vector, s)


@harness('C11', [P + 'logprob_array', 'radvel.likelihood.Likelihood.set_vary_params', 'radvel.likelihood.Likelihood.neglogprob_array',
                 'radvel.likelihood.Likelihood.neglogprob'])
def logprob_array(vc):
    post = post_(vc)
    free = [k for k in post.vector.names if k in ('per1', 'e1', 'k1', 'jit_a')]
    vc.prove_same('names of the free parameters', post.name_vary_params(), free)
    excl = priors_(vc, post, 2)
    how = vc.choice('call', ['logprob_array', 'neglogprob_array', 'twice', 'again after a change', 'again after a change of the free parameters'])
    a = vc.arr('a', len(free), gen=(-3., 3.))
    if how == 'twice':
        post.logprob_array(vc.arr('b', len(free), gen=(-3., 3.)))
    if how.startswith('again'):
        post.logprob_array(a)
        if 'free' in how:
            post.set_vary_params(vc.arr('b', len(free), gen=(-3., 3.)))
        else:
            set_vector(vc, post.vector)
    before = {k: post.vector.vector[post.vector.indices[k]][0] for k in KEYS}
    x = post.neglogprob_array(a) if how == 'neglogprob_array' else post.logprob_array(a)
    for k in KEYS:
        vc.prove_eq('free parameters are the array, the others unchanged', post.vector.vector[post.vector.indices[k]][0],
                    a[free.index(k)] if k in free else before[k])
    v = values(post.vector)
    if excl:
        vc.prove('an excluding prior makes it minus infinity', vc.m.isneginf(-x if how == 'neglogprob_array' else x))
    else:
        ref = vc.opaque('like', *v) + prior_sum(vc, post, v)
        vc.prove_eq('log-posterior at exactly these parameters', x, -ref if how == 'neglogprob_array' else ref)
    if how != 'neglogprob_array' and not excl:
        vc.prove_eq('logprob agrees', post.logprob(), x)
        vc.prove_eq('neglogprob agrees', post.neglogprob(), -1 * x)


@harness('C11', [P + 'likelihood_ns_array', P + 'extra_likelihood', P + 'extra_likelihood_array'])
def nested(vc):
    post = post_(vc)
    free = [k for k in post.vector.names if k in ('per1', 'e1', 'k1', 'jit_a')]
    n = vc.choice('number of priors', [0, 1, 2, 3])
    for i in range(n):
        extra = vc.flag('extra%d' % i)
        post.priors.append(Pr(vc, str(i), extra=extra, takes_finite=i != 1))
    ex = vc.choice('excluding', [None] + [i for i in range(n) if post.priors[i].extra_constraint])
    if ex is not None:
        post.priors[ex].excl = True
    a = vc.arr('a', len(free), gen=(-3., 3.))
    if vc.flag('again after a change'):
        post.extra_likelihood_array(a)
        post.likelihood_ns_array(a)
        set_vector(vc, post.vector)
    before = {k: post.vector.vector[post.vector.indices[k]][0] for k in KEYS}
    only = vc.flag('only the extra part')
    x = post.extra_likelihood_array(a) if only else post.likelihood_ns_array(a)
    for k in KEYS:
        vc.prove_eq('free parameters are the array, the others unchanged', post.vector.vector[post.vector.indices[k]][0],
                    a[free.index(k)] if k in free else before[k])
    v = values(post.vector)
    if ex is None:
        ref = prior_sum(vc, post, v, lambda p: p.extra_constraint)
        if not only:
            ref = ref + vc.opaque('like', *v)
        vc.prove_eq('likelihood plus the priors without a transform, each once', x, ref)
    else:
        others = prior_sum(vc, post, v, lambda p: p.extra_constraint and not p.excl)
        if not only:
            others = others + vc.opaque('like', *v)
        vc.prove('excluded: finite but hopeless', vc.m.eq(x, others - 1e100) if vc.symbolic else -1e101 < x < -1e99)


@harness('C11', [P + 'extra_likelihood', 'radvel.prior.EccentricityPrior.__call__', 'radvel.prior.PositiveKPrior.__call__',
                 'radvel.prior.SecondaryEclipsePrior.__call__', 'radvel.prior.HardBounds.__call__', 'radvel.prior.UserDefinedPrior.__call__'])
def constraints(vc):
    """every kind of prior can be used as an additional constraint"""
    m = vc.m
    basis = vc.choice('basis', ['per tc e w k', 'per tc secosw sesinw logk'])
    post = stub_posterior(vc, basis, 1)
    set_vector(vc, post.vector)
    v = post.vector.vector
    k1 = basis.endswith('logk') and 'logk1' or 'k1'
    x = v[post.vector.indices[k1]][0]
    kind = vc.choice('kind', ['ecc', 'posk', 'hard', 'gauss', 'user', 'jeff', 'two'])
    if kind == 'ecc':
        pr = [rp.EccentricityPrior(1)]
    elif kind == 'posk':
        pr = [rp.PositiveKPrior(1)]
    elif kind == 'hard':
        pr = [rp.HardBounds(k1, 1., 4.)]
    elif kind == 'gauss':
        pr = [rp.Gaussian(k1, 1., 2.)]
    elif kind == 'user':
        pr = [rp.UserDefinedPrior([k1], lambda z: -z[0], '')]
    elif kind == 'jeff':
        pr = [rp.Jeffreys(k1, 1., 4.)]
    else:
        pr = [rp.HardBounds(k1, 1., 4.), rp.Gaussian(k1, 1., 2.)]
    if kind not in ('ecc', 'posk'):
        for p in pr:
            p.extra_constraint = True
    post.priors = pr
    got = post.extra_likelihood()
    ref = [p(post.params, post.vector) for p in pr]
    tot = 0.
    for r in ref:
        tot = tot + (-1e100 if m.isneginf(r) else r)
    vc.prove_eq('sum of the constraints', got, tot)


@harness('C11', [P + 'extra_likelihood', 'radvel.prior.SecondaryEclipsePrior.__call__'], modes=(), runs=60)
def eclipse_constraint(vc):
    """the secondary-eclipse constraint as called by the nested samplers"""
    basis = vc.choice('basis', ['per tc e w k', 'per tc secosw sesinw logk'])
    post = stub_posterior(vc, basis, 1)
    pr = rp.SecondaryEclipsePrior(1, 3., 1.)
    post.priors = [pr, Pr(vc, '0')]
    vc.prove_eq('its value', post.extra_likelihood(), pr(post.params, post.vector))
    vc.prove_eq('its value in the likelihood', post.likelihood_ns_array(post.get_vary_params()),
                pr(post.params, post.vector) + post.likelihood.logprob())


@harness('C11', [P + 'residuals', P + 'bic', P + 'aic', P + '__init__'])
def delegation(vc):
    post = post_(vc)
    vc.prove('shares the parameters', post.params is post.likelihood.params and post.vector is post.likelihood.vector
             and post.model is post.likelihood.model)
    post.priors.append(Pr(vc, '0'))
    r = post.residuals()
    vc.prove_eq('residuals', r, post.likelihood.residuals())
    vc.prove_eq('bic', post.bic(), post.likelihood.bic())
    vc.prove_eq('aic', post.aic(), post.likelihood.aic())
