"""C12: information criteria and model comparison follow their definitions."""
import copy
import itertools
from pyvc.api import harness
from common import params, stub_likelihood, stub_posterior, values, StubLikelihood
import radvel
import radvel.fitting
import radvel.likelihood
import radvel.posterior

LK = 'radvel.likelihood.Likelihood.'
F = 'radvel.fitting.'
INF = float('inf')


@harness('C12', [LK + 'bic', LK + 'aic', LK + 'get_vary_params', LK + 'list_vary_params'])
def criteria(vc):
    m = vc.m
    free = [k for k in ('per1', 'e1', 'k1', 'curv') if vc.flag('free ' + k)]
    n = vc.size('n', min=1, sizes=(1, 2, 3, 5, 7))
    like = stub_likelihood(vc, 'per tc e w k', 1, free=free, extra_params=['gamma_a', 'jit_a'], vary_extra=['jit_a'], n=n)
    k = len(free) + 1
    lnL = vc.opaque('like', *values(like.vector))
    s = vc.snapshot(like.vector.vector)
    vc.prove_eq('bic', like.bic(), k * m.log(n) - 2 * lnL)
    aic = like.aic()
    if vc.split(m.lt(k + 1.5, n)):
        vc.prove_eq('aic with the small-sample correction', aic, 2 * k - 2 * lnL + 2. * k * (k + 1.) / (n - k - 1.))
    else:
        vc.prove_eq('aic undefined for too few data', aic, INF)
    vc.unchanged('parameters', like.vector.vector, s)
    # after changing which parameters vary
    r = like.vector.indices['tc1']
    like.vector.vector[r][1] = 1
    like.list_vary_params()
    vc.prove_eq('bic counts the new free parameter', like.bic(), (k + 1) * m.log(n) - 2 * lnL)


# ---- model comparison -------------------------------------------------------------------------------------------
ECC = {'per tc e w k': ['e', 'w'], 'per tc secosw sesinw logk': ['secosw', 'sesinw'], 'per tc se w k': ['se', 'w']}


def variants(state, comps, basis, npl):
    """the models a comparison of these components consists of: {free parameters}, {values of the parameters a model fixes}"""
    if not comps:
        return [state]
    free, fixed = state

    def fix(names, vals):
        f = dict(fixed)
        f.update(zip(names, vals))
        return frozenset(free) - set(names), f
    for c in ('gp', 'jit', 'trend', 'nplanets', 'e'):
        if c in comps:
            break
    rest = [x for x in comps if x != c]
    out = [state]
    if c == 'gp':
        names = sorted(k for k in free if k.startswith('gp_'))
        if names:
            out.append(fix(names + ['gp_amp'], [None if 'amp' not in k else 0. for k in names] + [0.]))
    elif c == 'jit':
        names = sorted(k for k in free if k.startswith('jit'))
        if names:
            out.append(fix(names, [1e-6] * len(names)))
    elif c == 'trend':
        if 'curv' in free:
            out.append(fix(['curv'], [0.]))
            if 'dvdt' in free:
                out.append(fix(['curv', 'dvdt'], [0., 0.]))
        elif 'dvdt' in free:
            out.append(fix(['dvdt'], [0.]))
    else:
        keys = ECC[basis] + ([] if c == 'e' else basis.split()[:2] + basis.split()[-1:])
        for r in range(1, npl + 1):
            for grp in itertools.combinations(range(1, npl + 1), r):
                if all(any('%s%d' % (k, p) in free for k in keys) for p in grp):
                    names = ['%s%d' % (k, p) for p in grp for k in keys]
                    val = {'k': 0., 'logk': -INF} if c == 'nplanets' else {k: 0. for k in keys}
                    out.append(fix(names, [val.get(n[:-1]) for n in names]))
    return [v for s in out for v in variants(s, rest, basis, npl)]


def labels(free, basis, npl):
    out = []
    for p in range(1, npl + 1):
        if '%s%d' % (basis.split()[-1], p) in free:
            out.append('$K_{%s}$' % ' bcd'[p])
        if '%s%d' % (ECC[basis][0], p) in free:
            out.append('$e_{%s}$' % ' bcd'[p])
    if 'dvdt' in free:
        out.append(r'$\dot{\gamma}$')
    if 'curv' in free:
        out.append(r'$\ddot{\gamma}$')
    if any(k.startswith('jit') for k in free):
        out.append(r'{$\sigma$}')
    if 'gp_amp' in free:
        out.append(r'GP$_{\rm }$')
    return sorted(out)


class Fitted(object):
    """contract of the fit: the free parameters end at an unknown optimum, the others do not move"""
    def __init__(self, vc):
        self.vc = vc
        self.posts = []

    def __call__(self, post, verbose=True, method='Powell'):
        import numpy as np
        i = len(self.posts)
        self.posts.append(post)
        a = [self.vc.opaque('fit%d %s' % (i, k)) for k in post.name_vary_params()]
        post.set_vary_params(np.array(a))
        return post


class CompLike(StubLikelihood):
    def errorbars(self):
        return self.yerr


def compare(vc, comps, basis, npl, free, extra=(), size=None):
    m = vc.m
    n = size or 13
    post = stub_posterior(vc, basis, npl, n=n, free=free, extra_params=('gamma_a', 'jit_a') + tuple(extra), vary_extra=free)
    post.likelihood.__class__ = CompLike
    post.likelihood.hnames = list(extra)
    fit = Fitted(vc)
    vc.patch(radvel.fitting, 'maxlike_fitting', fit)
    before = {k: values(post.vector)[post.vector.indices[k]] for k in post.vector.names}
    s, sp = vc.snapshot(post.vector.vector), vc.snapshot({k: post.params[k].value for k in post.params})
    given = [] if 'trend' in comps or not comps else None
    if given is None:
        table = radvel.fitting.model_comp(post, comps)
    else:
        table = radvel.fitting.model_comp(post, comps, given)
        vc.prove('the given list is extended', table is given)
    vc.unchanged('the posterior given is not touched', post.vector.vector, s)
    vc.unchanged('nor its dictionary', {k: post.params[k].value for k in post.params}, sp)
    vc.prove_same('one row per fit', len(table), len(fit.posts))
    todo = variants((frozenset(free), {}), comps, basis, npl)
    vc.prove_same('number of models', len(table), len(todo))
    for row, p in zip(table, fit.posts):
        vec = p.vector.vector
        pfree = frozenset(k for k in p.vector.names if vec[p.vector.indices[k]][1])
        fixed = [k for k in p.vector.names if k not in pfree]

        def ref(t, k):
            return before[k] if t[1].get(k) is None else t[1][k]
        hit = [t for t in todo if t[0] == pfree]
        if not vc.prove('a model of the comparison, not fitted before', bool(hit)):
            return
        best = [t for t in hit if all(vc.same(vec[p.vector.indices[k]][0], ref(t, k)) for k in fixed)] or hit
        todo.remove(best[0])
        for k in fixed:
            if not (k.startswith('gp_') and best[0][1].get(k) is None):
                vc.prove_eq('components removed are zero, others keep their value', vec[p.vector.indices[k]][0], ref(best[0], k))
        nf = len(pfree)
        lnL = vc.opaque('like', *values(p.vector))
        res = p.likelihood.residuals()
        mean = m.total(n, lambda i: res[i]) / n
        vc.prove_eq('number of data', row[r'$N_{\rm data}$'][0], n)
        vc.prove_same('number of free parameters', row[r'$N_{\rm free}$'][0], nf)
        vc.prove_eq('bic', row['BIC'][0], m.round(nf * vc.m.log(n) - 2 * lnL, 2))
        vc.prove_eq('aic', row['AICc'][0], m.round(2 * nf - 2 * lnL + 2. * nf * (nf + 1.) / (n - nf - 1.), 2))
        vc.prove_eq('log-likelihood', row[r'$\ln{\mathcal{L}}$'][0], m.round(p.logprob(), 2))
        vc.prove_eq('rms', row['RMS'][0], m.round(m.sqrt(m.total(n, lambda i: (res[i] - mean)**2) / n), 2))
        vc.prove_same('names of the free parameters', sorted(row['Free Params'][0]), labels(pfree, basis, npl))


@harness('C12', [F + 'model_comp'])
def simple(vc):
    basis = vc.choice('basis', sorted(ECC))
    b = basis.split()
    free = [k for k in ('k', 'e') if vc.flag('free ' + k)]
    free = [(b[-1] if k == 'k' else ECC[basis][0]) + '2' for k in free] + ['jit_a']
    compare(vc, [], basis, 2, free, size=vc.size('n', min=13, sizes=(13, 15)))


@harness('C12', [F + 'model_comp'])
def trend_and_jitter(vc):
    free = ['k1'] + [k for k in ('dvdt', 'curv', 'jit_a', 'jit_b') if vc.flag('free ' + k)]
    compare(vc, vc.choice('components', [['trend'], ['jit'], ['trend', 'jit'], ['jit', 'trend']]), 'per tc e w k', 1, free,
            extra=('jit_b',))


@harness('C12', [F + 'model_comp'])
def eccentricity(vc):
    basis = vc.choice('basis', sorted(ECC))
    b = basis.split()
    free = ['per1'] + [k + str(p) for p in (1, 2) for k in (ECC[basis][0], b[-1]) if vc.flag('free %s%d' % (k, p))]
    compare(vc, vc.choice('components', [['e'], ['nplanets'], ['e', 'nplanets']]), basis, 2, free)


@harness('C12', [F + 'model_comp'])
def three_planets(vc):
    free = ['k1', 'k2', 'e2', 'w3', 'dvdt', 'jit_a']
    compare(vc, vc.choice('components', [['e'], ['nplanets', 'trend'], ['e', 'nplanets', 'trend', 'jit']]), 'per tc e w k', 3, free)


@harness('C12', [F + 'model_comp'])
def gp(vc):
    free = ['k1', 'jit_a'] + [k for k in ('gp_amp', 'gp_per', 'e1') if vc.flag('free ' + k)]
    compare(vc, vc.choice('components', [['gp'], ['e', 'gp'], ['gp', 'jit']]), 'per tc e w k', 1, free, ('gp_amp', 'gp_per'))


@harness('C12', [F + 'model_comp'])
def refused(vc):
    post = stub_posterior(vc, 'per tc e w k', 1)
    vc.raises('unknown component', AssertionError, lambda: radvel.fitting.model_comp(post, ['x']))
    vc.raises('not a posterior', AssertionError, lambda: radvel.fitting.model_comp(post.params, ['e']))


@harness('C12', [F + 'model_comp'])
def independent_calls(vc):
    """a second comparison does not repeat the results of the first"""
    post = stub_posterior(vc, 'per tc e w k', 1, free=['k1', 'e1'])
    post.likelihood.__class__ = CompLike
    vc.patch(radvel.fitting, 'maxlike_fitting', Fitted(vc))
    a = radvel.fitting.model_comp(post, [])
    b = radvel.fitting.model_comp(post, ['e'])
    vc.prove_same('models', [len(a), len(b)], [1, 2])


class Args(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Status(object):
    def getboolean(self, s, k):
        return True

    def get(self, s, k):
        return 'post.pkl'


@harness('C12', ['radvel.driver.ic_compare'])
def command(vc):
    """the ic command: which comparisons it runs, on which posterior, and what it stores"""
    import radvel.driver
    post = stub_posterior(vc, 'per tc e w k', 1, free=['k1', 'jit_a'], extra_params=['gamma_a', 'jit_a'], vary_extra=['jit_a'])
    saved, calls = [], []

    def model_comp(p, params=[], mc_list=None, verbose=False):
        calls.append((p, list(params), p.name_vary_params()))
        return [{'Free Params': (list(params), '')}, {'Free Params': (['same'], '')}]
    vc.patch(radvel.driver, 'load_status', lambda f: Status())
    vc.patch(radvel.driver, 'save_status', lambda f, sec, d: saved.append((f, sec, d)))
    vc.patch(radvel.utils, 'initialize_posterior', lambda f, decorr=False: (None, None))
    vc.patch(radvel.posterior, 'load', lambda f: post)
    vc.patch(radvel.fitting, 'model_comp', model_comp)
    args = dict(setupfn='a/b.py', outputdir='out', decorr=False, verbose=False, simple=vc.flag('simple'),
                type=vc.choice('type', [['e'], ['jit', 'trend'], ['nplanets', 'e', 'gp']]))
    mixed = vc.choice('mixed', [None, True, False])
    fixjit = vc.choice('fixjitter', [None, True, False])
    if mixed is not None:
        args['mixed'] = mixed
    if fixjit is not None:
        args['fixjitter'] = fixjit
    s = vc.snapshot(post.vector.vector)
    radvel.driver.ic_compare(Args(**args))
    vc.unchanged('the stored posterior is not changed', post.vector.vector, s)
    if args['simple']:
        expect = [[]]
    elif mixed is None or mixed:
        expect = [args['type']]
    else:
        expect = [[t] for t in args['type']]
    vc.prove_same('comparisons run', [c[1] for c in calls], expect)
    for p, par, free in calls:
        vc.prove_same('free parameters', free, ['k1'] if fixjit and not args['simple'] else ['k1', 'jit_a'])
        vc.prove('on a copy', p is not post)
    rows = [r['Free Params'][0] for r in saved[0][2]['ic']]
    want = []
    for e in expect:
        for r in (e, ['same']):
            if r not in want or mixed is None or mixed or args['simple']:
                want.append(r)
    vc.prove_same('every distinct model is stored', sorted(map(str, rows)), sorted(map(str, want)))
    vc.prove_same('where', (saved[0][0], saved[0][1], len(saved)), ('out/b_radvel.stat', 'ic_compare', 1))
    vc.raises('unknown comparison', AssertionError,
              lambda: radvel.driver.ic_compare(Args(**dict(args, type=['x'], simple=False))))
