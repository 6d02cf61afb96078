"""C14: a fit optimises the log-posterior over the free parameters and moves nothing else."""
import contextlib
import copy
import io
import os
import types

import numpy as np
import scipy.optimize
from pyvc.api import harness
from common import stub_posterior, values, set_vector, BASES, params, draw
from c11 import Pr, prior_sum
import radvel
import radvel.fitting
import radvel.likelihood
import radvel.posterior
import radvel.prior
import radvel.model

F = 'radvel.fitting.'
L = 'radvel.likelihood.Likelihood.'
P = 'radvel.posterior.Posterior.'


@contextlib.contextmanager
def quiet(vc):
    if vc.symbolic:
        yield
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            yield


class Result(dict):
    """like scipy's OptimizeResult"""
    __getattr__ = dict.__getitem__


def optimiser(vc, stub):
    """the optimiser is not radvel's: it may try anything and return anything"""
    real = scipy.optimize.minimize
    vc.patch(scipy.optimize, 'minimize', stub)
    for k, v in list(radvel.fitting.__dict__.items()):
        if v is real or k == 'minimize':
            vc.patch(radvel.fitting, k, stub)
        elif k in ('scipy', 'optimize', 'opt', 'so'):
            ns = types.SimpleNamespace(minimize=stub)
            vc.patch(radvel.fitting, k, types.SimpleNamespace(optimize=ns) if k == 'scipy' else ns)


ALL = ['per1', 'tc1', 'e1', 'w1', 'k1', 'dvdt', 'curv', 'gamma_a', 'jit_a', 'gamma_b']
FREE = [['per1', 'e1', 'k1', 'jit_a'], ['k1'], ALL, ['tc1', 'dvdt', 'curv', 'gamma_b'], ['gamma_a', 'gamma_b', 'w1']]


def build(vc, free):
    ex = ['gamma_a', 'jit_a', 'gamma_b']
    post = stub_posterior(vc, 'per tc e w k', 1, free=[f for f in free if f not in ex], extra_params=ex,
                          vary_extra=[f for f in free if f in ex])
    post.priors = [Pr(vc, '0'), Pr(vc, '1')][:vc.choice('priors', [2, 0])]
    return post


def row(post, k):
    return post.vector.vector[post.vector.indices[k]][0]


def target(vc, post, vals):
    """the log-posterior for these values of all rows"""
    return vc.opaque('like', *vals) + prior_sum(vc, post, vals)


def vals_with(post, before, x):
    """all rows, the free ones replaced by x in the order of the vector"""
    names = list(post.vector.names)
    out, i = [], 0
    for n, b, v in zip(names, before, post.vector.vector):
        if n in FREE_NOW[0]:
            out.append(x[i])
            i += 1
        else:
            out.append(b)
    return out


FREE_NOW = [None]


@harness('C14', [F + 'maxlike_fitting', P + 'logprob_array', P + 'logprob', L + 'neglogprob_array', L + 'set_vary_params',
                 L + 'get_vary_params', 'radvel.model.Vector.vector_to_dict'])
def fit(vc):
    m = vc.m
    free = vc.choice('free parameters', FREE)
    FREE_NOW[0] = free
    post = build(vc, free)
    changed = vc.choice('before the fit', ['nothing', 'vector set', 'other parameters were free', 'fitted before'])
    method = vc.choice('method', ['Powell', 'Nelder-Mead', None]) if changed == 'nothing' else None
    n = len(free)
    calls = []
    if changed == 'fitted before':
        optimiser(vc, lambda fun, x0, **k: Result(x=vc.arr('first', n), fun=0., success=True, message='', nit=1, nfev=1))
        with quiet(vc):
            radvel.fitting.maxlike_fitting(post, verbose=False)
    elif changed == 'other parameters were free':
        # as model_comp and the command line do it
        FREE_NOW[0] = free = [k for k in ALL if k not in free] or ['k1']
        n = len(free)
        for k in ALL:
            post.params[k].vary = k in free
        post.vector.dict_to_vector()
        post.list_vary_params()
        post.likelihood.list_vary_params()
    elif changed == 'vector set':
        set_vector(vc, post.vector)
        post.vector.vector_to_dict()
    before = values(post.vector)
    d0 = {k: post.params[k].value for k in post.params}
    flags = {k: post.params[k].vary for k in post.params}
    scalar = n == 1 and vc.flag('optimiser returns a number')
    out = vc.arr('optimum', n, gen=(-3., 3.))
    tries = [vc.arr('try%d' % i, n, gen=(-3., 3.)) for i in range(3)]

    def minimize(fun, x0, args=(), method=None, options=None, **k):
        calls.append(method)
        free_rows = [i for i, nm in enumerate(post.vector.names) if nm in FREE_NOW[0]]
        vc.prove('one starting value per free parameter', vc.len(x0) == n)
        for i, r in enumerate(free_rows):
            vc.prove_eq('starts from the current values', x0[i], before[r])
        for t in tries:
            want = vals_with(post, before, t)
            vc.prove_eq('the objective is the negative log-posterior with the free parameters replaced',
                        fun(t, *args), -target(vc, post, want))
            for got, w in zip(values(post.vector), want):
                vc.prove_eq('an evaluation sets the free parameters and nothing else', got, w)
        if post.priors:
            post.priors[-1].excl = True
            vc.prove('a point excluded by a prior is no candidate', fun(tries[0], *args) > 1e20)
            post.priors[-1].excl = False
        return Result(x=np.float64(out[0]) if scalar and not vc.symbolic else out[0] if scalar else out, fun=0.,
                      success=vc.flag('converged'), message='', nit=1, nfev=3)
    optimiser(vc, minimize)
    verbose = not vc.symbolic and vc.flag('verbose')
    with quiet(vc):
        r = radvel.fitting.maxlike_fitting(post, verbose=verbose, **({} if method is None else {'method': method}))
    vc.prove_same('the requested method', calls, ['Powell' if method is None else method])
    want = vals_with(post, before, out)
    vc.prove('the posterior', isinstance(r, radvel.posterior.Posterior) and r.likelihood is post.likelihood)
    for k, got, w in zip(r.vector.names, values(r.vector), want):
        vc.prove_eq('free parameters are the solution, the others unchanged', got, w)
    for k in d0:
        vc.prove_eq('dictionary agrees with the vector', r.params[k].value, row(r, k))
        if k not in free:
            vc.prove_eq('fixed parameters keep their value', r.params[k].value, d0[k])
        vc.prove_same('flags unchanged', bool(r.params[k].vary), bool(flags[k]))
    vc.prove_eq('log-posterior of the returned posterior', r.logprob(), target(vc, r, want))
    vc.prove_eq('log-likelihood of the returned posterior', r.likelihood.logprob(), vc.opaque('like', *want))


@harness('C14', [F + 'maxlike_fitting'], modes=(), runs=25, conc_budget=40)
def optimum(vc):
    """with scipy itself: never worse than the start, fixed parameters untouched (real code)"""
    free = vc.choice('free', [['k1', 'gamma_a'], ['k1', 'gamma_a', 'jit_a'], ['gamma_a'], ['k1', 'dvdt', 'gamma_a', 'gamma_b']])
    two = 'gamma_b' in free
    p = radvel.Parameters(1, basis='per tc secosw sesinw k')
    for k, v in (('per1', 12.3), ('tc1', 3.), ('secosw1', .2), ('sesinw1', -.1), ('k1', vc.real('k', gen=(5., 15.)))):
        p[k] = radvel.Parameter(value=v)
    p['dvdt'], p['curv'] = radvel.Parameter(value=vc.real('dvdt', gen=(-.05, .05))), radvel.Parameter(value=0.)
    mod = radvel.RVModel(p, time_base=10.)
    likes = []
    for s in ('a', 'b')[:2 if two else 1]:
        t = vc.arr('t' + s, 15, gen=(0., 60.), sorted=True)
        y = mod(t) + 2. + vc.arr('noise' + s, 15, gen=(-2., 2.))
        like = radvel.likelihood.RVLikelihood(mod, t, y, np.full(15, 1.5), suffix='_' + s)
        like.params['gamma_' + s] = radvel.Parameter(value=vc.real('gamma' + s, gen=(-1., 4.)))
        like.params['jit_' + s] = radvel.Parameter(value=1.)
        likes.append(like)
    like = radvel.likelihood.CompositeLikelihood(likes) if two else likes[0]
    for k in like.params:
        like.params[k].vary = k in free
    post = radvel.posterior.Posterior(like)
    post.priors = [radvel.prior.Gaussian('k1', 10., 5.), radvel.prior.HardBounds('gamma_a', -20, 20)]
    before = {k: post.params[k].value for k in post.params}
    start = post.logprob()
    method = vc.choice('method', ['Powell', 'Nelder-Mead', 'COBYLA'])
    with quiet(vc):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = radvel.fitting.maxlike_fitting(post, verbose=False, method=method)
    vc.prove('not worse than the start', r.logprob() >= start - 1e-9)
    for k in before:
        if k not in free:
            vc.prove_eq('fixed', r.params[k].value, before[k])
        vc.prove_eq('dictionary and vector', r.params[k].value, row(r, k))
    if method != 'COBYLA':
        x = r.get_vary_params().copy()
        best = r.logprob()
        for i in range(len(x)):
            for d in (-.3, .3):
                y = x.copy()
                y[i] += d
                vc.prove('a local maximum', r.logprob_array(y) <= best + 1e-4)
        r.set_vary_params(x)
