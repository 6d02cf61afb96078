"""C13: convergence statistics and the decisions taken from them."""
import sys
import numpy as np
import emcee
from pyvc.api import harness
import radvel
import radvel.mcmc
MC = sys.modules["radvel.mcmc"]
import common as K


M = 'radvel.mcmc.'


def autocorr(vc, calls):
    """emcee's estimate is not ours: an arbitrary positive vector that depends on the samples handed over"""
    p = [None]

    def stub(x, **k):
        calls.append((x, k))
        return p[0]
    vc.patch(emcee.autocorr, 'integrated_time', stub)
    return p


def pooled(vc, ch, w, s):
    """mean and variance (one degree of freedom removed) of all samples of parameter p in an ensemble"""
    m = vc.m

    def mean(p):
        return m.total(w, lambda i: m.total(s, lambda j: ch[p, i, j])) / (w * s)

    def var(p):
        a = mean(p)
        return m.total(w, lambda i: m.total(s, lambda j: (ch[p, i, j] - a) ** 2)) / (w * s - 1)
    return mean, var


def setup(vc, N):
    vc.lazy_branches()
    p = vc.size('parameters', min=1)
    w = vc.size('walkers', min=1)
    s = vc.size('steps', min=2)
    chains = [vc.cube('chain%d' % c, p, w, s) for c in range(N)]
    calls = []
    cell = autocorr(vc, calls)
    tau = vc.arr('autocorrelation time', p, gt=0, gen=[(0.5, 60.)])
    old = vc.arr('previous autocorrelation time', p, gt=0, gen=[(0.5, 60.)])
    cell[0] = tau
    return p, w, s, chains, tau, old, calls


def spec(vc, chains, w, s, q):
    """Gelman-Rubin and Tz of parameter q, Ford 2006 equations 21-26"""
    m = vc.m
    N = len(chains)
    n = w * s
    mv = [pooled(vc, c, w, s) for c in chains]
    means = [a(q) for a, b in mv]
    W = sum(b(q) for a, b in mv) / N
    if N == 1:
        return m.sqrt((1 - 1 / n) * W / W), -1
    g = sum(means) / N
    B = n * sum((x - g) ** 2 for x in means) / (N - 1)
    V = (1 - 1 / n) * W + B / n
    r = V / B
    return m.sqrt(V / W), N * n * m.ite(r <= 1, r, 1)


def thresholds(vc):
    return dict(minAfactor=vc.real('minAfactor', gen=[(0., 20.)]), maxArchange=vc.real('maxArchange', gen=[(0., 2.)]),
                minTz=vc.real('minTz', gen=[(0., 30.)]), maxGR=vc.real('maxGR', gen=[(1., 1.6)]))


@harness('C13', [M + 'convergence_calculate'], budget=200, sizes=[1, 2])
def statistics(vc):
    """Gelman-Rubin and Tz are those of the published formulas, per parameter"""
    N = vc.choice('ensembles', [2, 1, 3])
    p, w, s, chains, tau, old, calls = setup(vc, N)
    q = vc.real('q', ge=0, lt=p, integer=True)
    th = thresholds(vc)
    mark = vc.mark()
    mixed, afac, arch, oac, gr, tz = MC.convergence_calculate(list(chains), oldautocorrelation=old, **th)
    with vc.forgetting(mark):
        vc.prove('one Gelman-Rubin statistic per parameter', vc.len(gr) == p)
        g, t = spec(vc, chains, w, s, q)
        vc.prove_eq('Gelman-Rubin', gr[q], g)
        if N > 1:
            vc.prove('one Tz per parameter', vc.len(tz) == p)
            vc.prove_eq('Tz', tz[q], t)
        else:
            vc.prove('no Tz for a single ensemble', len(tz) == 1 and tz[0] == -1)


@harness('C13', [M + 'convergence_calculate'], budget=200, sizes=[1, 2])
def autocorrelation(vc):
    """the factor and its change come from the estimate for all samples of all ensembles"""
    m = vc.m
    N = vc.choice('ensembles', [1, 2, 3])
    p, w, s, chains, tau, old, calls = setup(vc, N)
    first = vc.flag('first check')
    q = vc.real('q', ge=0, lt=p, integer=True)
    i = vc.real('i', ge=0, lt=w, integer=True)
    j = vc.real('j', ge=0, lt=s, integer=True)
    th = thresholds(vc)
    mark = vc.mark()
    mixed, afac, arch, oac, gr, tz = MC.convergence_calculate(
        list(chains), oldautocorrelation=0 if first and not vc.symbolic else old, **th)
    vc.prove('estimated once', len(calls) == 1)
    x, kw = calls[0]
    with vc.forgetting(mark):
        vc.prove('samples of all steps, walkers, parameters', len(x.shape) == 3)
        vc.prove_eq('samples of all steps', x.shape[0], N * s)
        vc.prove_eq('samples of all walkers', x.shape[1], w)
        vc.prove_eq('samples of all parameters', x.shape[2], p)
        for c in range(N):
            vc.prove_eq('sample handed to the estimator', x[c * s + j, i, q], chains[c][q, i, j])
        vc.prove_eq('factor: steps per autocorrelation time', afac[q], N * s / tau[q])
        vc.prove_eq('autocorrelation time kept for the next check', oac[q], tau[q])
        if first and not vc.symbolic:
            vc.prove('no previous estimate: not converged', np.isinf(arch[q]) and not mixed)
        else:
            vc.prove_eq('relative change', arch[q], m.abs(tau[q] - old[q]) / old[q])


@harness('C13', [M + 'convergence_calculate'], budget=250, sizes=[1, 2])
def decision(vc):
    """well mixed exactly when every parameter passes every criterion"""
    m = vc.m
    N = vc.choice('ensembles', [2, 1, 3])
    p, w, s, chains, tau, old, calls = setup(vc, N)
    th = thresholds(vc)
    mixed, afac, arch, oac, gr, tz = MC.convergence_calculate(list(chains), oldautocorrelation=old, **th)
    mixed = vc.split(mixed)
    ok = lambda q: m.and_(tz[q] > th['minTz'] if N > 1 else True, gr[q] < th['maxGR'], afac[q] > th['minAfactor'],
                          arch[q] < th['maxArchange'])
    vc.cover('mixed' if mixed else 'not mixed')
    vc.prove('well mixed: all parameters pass' if mixed else 'not well mixed: some parameter fails',
             m.forall(p, ok) if mixed else m.not_(m.forall(p, ok)))


@harness('C13', [M + 'convergence_calculate'], modes=(), runs=150)
def order(vc):
    """the order of the ensembles does not matter (consequence of the formulas; real code)"""
    N = vc.choice('ensembles', [2, 3, 5])
    p, w, s, chains, tau, old, calls = setup(vc, N)
    th = thresholds(vc)
    a = MC.convergence_calculate(list(chains), oldautocorrelation=old, **th)
    perm = list(range(N))
    vc.rng.shuffle(perm)
    b = MC.convergence_calculate([chains[k] for k in perm], oldautocorrelation=old, **th)
    for q in range(p):
        vc.prove_eq('Gelman-Rubin', a[4][q], b[4][q])
        vc.prove_eq('Tz', a[5][q], b[5][q], tol=1e-6)
    vc.prove('chains unchanged in length', len(chains) == N)


class Sampler(object):
    def __init__(self, chain, lnp, acc, n):
        self.c, self.l, self.acceptance_fraction, self.nflat = chain, lnp, acc, n

    def get_chain(self, flat=False):
        return self.c

    def get_log_prob(self, flat=False):
        class F(object):
            shape = (self.nflat,)
        return F if flat else self.l


@harness('C13', [M + 'convergence_check'], budget=250, sizes=[1, 2])
def check(vc):
    """what a convergence check hands to the calculation and what it keeps"""
    m = vc.m
    N = vc.choice('ensembles', [1, 2, 3])
    p = vc.size('parameters', min=1)
    w = vc.size('walkers', min=1)
    s = vc.size('steps', min=2)
    raw = [vc.cube('raw%d' % c, s, w, p) for c in range(N)]
    lnp = [vc.matrix('lnp%d' % c, s, w) for c in range(N)]
    acc = vc.arr('acceptance', 3, ge=0, le=1)
    sv = MC.statevars
    sv.reset()
    sv.samplers = [Sampler(raw[c], lnp[c], vc.arr('acceptance %d' % c, w, ge=0, le=1), s * w) for c in range(N)]
    sv.ensembles = N
    sv.nburn = vc.real('burned', ge=0, integer=True)
    sv.totsteps = vc.real('total', gt=0, gen=[(5., 2000.)])
    sv.nwalkers = w
    sv.checkinterval, sv.interval = 10, 1.0
    old = sv.oac = vc.arr('old', p, gt=0)
    before = sv.mixcount = vc.real('mixcount', ge=0, integer=True)
    sv.burn_complete = vc.flag('burned in')
    sv.autosamples, sv.automean, sv.automin, sv.automax = [1.], [2.], [3.], [4.]
    afac, arch, tau, gr, tz = [vc.arr(n, p, gt=0) for n in ('afactor', 'archange', 'tau', 'gr', 'tz')]
    ismixed = vc.flag('mixed')
    calls = []

    def calc(chains, oldautocorrelation=None, minAfactor=None, maxArchange=None, minTz=None, maxGR=None):
        calls.append((chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR))
        return ismixed, afac, arch, tau, gr, tz
    vc.patch(MC, 'convergence_calculate', calc)
    th = thresholds(vc)
    minsteps = vc.real('minsteps', ge=0, gen=[(0., 20.)])
    minpercent = vc.real('minpercent', ge=0, gen=[(0., 100.)])
    MC.convergence_check(th['minAfactor'], th['maxArchange'], th['maxGR'], th['minTz'], minsteps, minpercent, True)
    vc.prove_eq('completed steps', sv.ncomplete, sv.nburn + N * s * w)
    q = vc.real('q', ge=0, lt=p, integer=True)
    i = vc.real('i', ge=0, lt=w, integer=True)
    j = vc.real('j', ge=0, lt=s, integer=True)
    vc.prove('one chain per ensemble', len(sv.chains) == N and len(sv.lnprob) == N)
    for c in range(N):
        vc.prove_eq('chain: parameters, walkers, steps', sv.chains[c][q, i, j], raw[c][j, i, q])
        vc.prove_eq('log-probability: walkers, steps', sv.lnprob[c][i, j], lnp[c][j, i])
    early = m.and_((sv.nburn + N * s * w) / sv.totsteps * 100 < minpercent, s * w <= minsteps * w)
    if not calls:
        vc.cover('too early')
        vc.prove('the criteria are skipped only before both thresholds', early)
        vc.prove('no decision before the thresholds', not sv.ismixed and sv.maxgr == np.inf and sv.minafactor == -1
                 and sv.maxarchange == np.inf)
        vc.prove_eq('count of passed checks kept', sv.mixcount, before)
        return
    vc.cover('checked')
    vc.prove('the criteria are evaluated once a threshold is reached', m.not_(early))
    vc.prove('evaluated once', len(calls) == 1)
    ch, o, a, b, t, g = calls[0]
    for k, v in (('minAfactor', a), ('maxArchange', b), ('minTz', t), ('maxGR', g)):
        vc.prove_eq(k, v, th[k])
    vc.prove_eq('previous autocorrelation time', o[q], old[q])
    for c in range(N):
        vc.prove_eq('chain handed over', ch[c][q, i, j], raw[c][j, i, q])
    vc.prove_same('decision', bool(sv.ismixed), ismixed)
    vc.prove_eq('consecutive passed checks', sv.mixcount, before + 1 if ismixed else 0)
    vc.prove_eq('autocorrelation time kept', sv.oac[q], tau[q])
    for name, got, v, big in (('largest Gelman-Rubin', sv.maxgr, gr, True), ('smallest Tz', sv.mintz, tz, False),
                              ('smallest factor', sv.minafactor, afac, False), ('largest change', sv.maxarchange, arch, True)):
        vc.prove(name + ' bounds all', m.forall(p, lambda k: v[k] <= got if big else got <= v[k]))
        vc.prove(name + ' is attained', m.not_(m.forall(p, lambda k: v[k] < got if big else got < v[k])))
    n = 2 if sv.burn_complete else 1
    vc.prove('autocorrelation history after burn-in only',
             [len(x) for x in (sv.autosamples, sv.automean, sv.automin, sv.automax)] == [n] * 4)
    if n == 2:
        vc.prove_eq('history: steps', sv.autosamples[1], N * s)
        vc.prove_eq('history: mean', sv.automean[1], m.total(p, lambda k: tau[k]) / p)
        vc.prove('history: extremes', m.forall(p, lambda k: m.and_(sv.automin[1] <= tau[k], tau[k] <= sv.automax[1])))


class Loop(object):
    """stand-ins for emcee's sampler and for the check; every value a check can produce is arbitrary"""
    def __init__(self, vc, N, w, p, rounds, checkinterval):
        self.vc, self.N, self.w, self.p, self.rounds, self.ci = vc, N, w, p, rounds, checkinterval
        self.samplers, self.log, self.checks = [], [], []
        loop = self

        class Fake(object):
            def __init__(self, nwalkers, ndim, logp, *a, **k):
                self.id = len(loop.samplers)
                self.shape = (nwalkers, ndim)
                self.logp = logp
                self.iteration = 0
                self.last = None
                loop.samplers.append(self)

            def get_last_sample(self):
                return self.last

            def _go(self, start, n, what):
                loop.log.append((what, self.id, start, n, loop.vc and len(loop.checks)))
                self.iteration += n
                self.last = ('state', self.id, len(loop.log))

            def sample(self, p1, iterations=1, store=True, **k):
                self._go(p1, iterations, 'sample')
                yield self.last

            def run_mcmc(self, p1, n, **k):
                self._go(p1, n, 'run')

            def reset(self):
                loop.log.append(('reset', self.id, self.last, 0, len(loop.checks)))
                self.iteration = 0
        self.Fake = Fake

    def check(self, *a, **k):
        vc, sv = self.vc, MC.statevars
        r = len(self.checks)
        sv.maxgr = vc.real('max GR, check %d' % r, gen=[(1., 1.1)])
        sv.minafactor = vc.real('min factor, check %d' % r, gen=[(0., 50.)])
        sv.mixcount = vc.real('passed checks, check %d' % r, ge=0, gen=[0, 1, 2, 3], integer=True)
        sv.ismixed = vc.flag('mixed, check %d' % r)
        sv.ncomplete = 100 * (r + 1)
        sv.maxarchange, sv.mintz = 0.1, 5.
        self.checks.append((sv.maxgr, sv.minafactor, sv.mixcount, sv.burn_complete, sv.nburn, a, k))
        steps = 2
        sv.chains = [np.array([[[1000. * (r + 1) + 100 * e + 10 * i + t + 0.1 * q for t in range(steps)] for i in range(self.w)]
                               for q in range(self.p)]) for e in range(self.N)]
        sv.lnprob = [np.array([[-(1000. * (r + 1) + 100 * e + 10 * i + t) for t in range(steps)] for i in range(self.w)])
                     for e in range(self.N)]


class FakePosterior(object):
    def __init__(self, p, scale):
        self.likelihood = object()
        self.vary_params = [0, 2][:p]
        self.names = ['per1', 'k1'][:p]

        class V(object):
            vector = np.array([[10., 1, scale, 0], [5., 0, 2 * scale, 0], [3., 1, .3 * scale, 0]])
        self.vector = V()
        self.seen = []

    def get_vary_params(self):
        return np.array([self.vector.vector[i][0] for i in self.vary_params])

    def name_vary_params(self):
        return list(self.names)

    def logprob_array(self, x):
        return 0.


@harness('C13', [M + 'mcmc'], budget=250, sizes=[1, 2], modes=('bounded',), runs=200,
         note='rounds of the sampling loop: at most 3; ensembles, walkers, parameters: at most 2')
def loop(vc):
    """burn-in is discarded once, exactly when its condition first holds; sampling stops exactly after two passed checks"""
    m = vc.m
    rounds = vc.choice('rounds', [3, 1, 2])
    N = vc.choice('ensembles', [2, 1]) if rounds == 3 else 2
    p, w = vc.choice('parameters', [2, 1]) if rounds == 2 else 2, 4
    ci = vc.choice('checkinterval', [11, 6]) if rounds == 1 else 11
    thin = vc.choice('thin', [1, 3]) if rounds == 1 else 1
    burnGR = vc.real('burnGR', gen=[(1., 1.1)])
    burnA = vc.real('burnAfactor', gen=[(0., 50.)])
    L = Loop(vc, N, w, p, rounds, ci)
    vc.patch(emcee, 'EnsembleSampler', L.Fake)
    vc.patch(MC, 'convergence_check', L.check)
    scale = .25 if vc.symbolic else vc.choice('step', [.25, 0])
    post = FakePosterior(p, scale)
    near = [scale, .3 * scale][:p] if scale else [1e-4, .3][:p]
    th = dict(minAfactor=41., maxArchange=.04, maxGR=1.02, minTz=1001, minsteps=1002, minpercent=6)
    out = radvel.mcmc(post, nwalkers=w, nrun=(ci - 1) * rounds, ensembles=N, checkinterval=ci, burnGR=burnGR, burnAfactor=burnA,
                      serial=True, headless=True, thin=thin, **th)
    sv = MC.statevars
    done = len(L.checks)
    vc.prove('at most the requested number of rounds', done <= rounds)
    vc.prove('one sampler per ensemble', len(L.samplers) == N and all(s.shape == (w, p) for s in L.samplers))
    vc.prove('the sampler explores the log-posterior of the free parameters',
             all(s.logp.__self__ is post for s in L.samplers))
    # the conditions at each check
    burn = [m.or_(c[0] <= burnGR, burnA <= c[1]) for c in L.checks]
    first = None
    for r in range(done):
        if vc.split(burn[r]):
            first = r
            break
    vc.cover('burn-in %s' % ('never ended' if first is None else 'ended'))
    resets = [e for e in L.log if e[0] == 'reset']
    if first is None:
        vc.prove('no reset before the burn-in condition holds', not resets and not sv.burn_complete and sv.nburn == 0)
    else:
        vc.prove('every ensemble is reset once', sorted(e[1] for e in resets) == list(range(N)))
        vc.prove('at the first check that meets the condition', all(e[4] == first + 1 for e in resets))
        vc.prove('burned steps recorded', sv.burn_complete and sv.nburn == 100 * (first + 1))
    # the stop
    for r in range(done):
        two = vc.split(L.checks[r][2] >= 2)
        vc.prove('stops after the check that reaches two passed checks' if two else 'goes on otherwise',
                 (r == done - 1) if two else (r < done - 1 or done == rounds))
    # every round continues from where the ensemble was
    for e in range(N):
        pos = None
        for r in range(done):
            runs = [x for x in L.log if x[1] == e and x[4] == r and x[0] != 'reset']
            vc.prove('each ensemble advances in every round', any(x[0] == 'run' and x[3] == ci - 1 for x in runs))
            if r:
                vc.prove('from its last position', all(x[2] is pos for x in runs))
            else:
                vc.prove('from positions within one step of the current parameters',
                         all(np.shape(x[2]) == (w, p) and
                             np.all(np.abs(np.asarray(x[2], dtype=float) - post.get_vary_params()) <= np.array(near) * (1 + 1e-9))
                             for x in runs))
            pos = [('state', e, k + 1) for k, x in enumerate(L.log) if x[1] == e and x[4] == r and x[0] != 'reset'][-1]
            got = [x for x in L.log if x[1] == e and x[4] == r + 1 and x[0] != 'reset']
            pos = got[0][2] if got and isinstance(got[0][2], tuple) and got[0][2] == pos else pos
    for c in L.checks:
        args = dict(zip(('minAfactor', 'maxArchange', 'maxGR', 'minTz', 'minsteps', 'minpercent', 'headless'), c[5]), **c[6])
        vc.prove('the configured thresholds are used', all(args[k] == th[k] for k in th) and args['headless'])
    # the samples
    vc.prove('columns', list(out.columns) == post.names + ['lnprobability'])
    total = N * w * 2
    vc.prove('number of samples', len(out) == -(-total // thin))
    rows = [tuple(float(v) for v in r) for r in out.values]
    want = set()
    for e in range(N):
        for i in range(w):
            for t in range(2):
                base = 1000. * done + 100 * e + 10 * i + t
                want.add(tuple([round(base + 0.1 * q, 3) for q in range(p)] + [-base]))
    rows = [tuple(round(v, 3) for v in r) for r in rows]
    vc.prove('rows are samples of the last check with their own log-probability', set(rows) <= want and len(set(rows)) == len(rows))
    if thin == 1:
        vc.prove('every sample is returned', set(rows) == want)
