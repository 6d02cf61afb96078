"""C20: a saved MCMC run resumes from exactly the state that was stored."""
import os
import shutil
import sys
import tempfile
import emcee
import h5py
import numpy as np
from pyvc.api import harness
import radvel
import radvel.mcmc
import radvel.posterior
import radvel.likelihood

M = 'radvel.mcmc.'
MC = sys.modules['radvel.mcmc']
INF = float('inf')


class Files(object):
    """contract of h5py: named files of named arrays; an array has to be deleted before its name is used again"""
    def __init__(self):
        self.disk = {}
        files = self

        class File(object):
            def __init__(self, name, mode='r'):
                if mode == 'r' and name not in files.disk:
                    raise OSError('no such file')
                if mode == 'w':
                    files.disk[name] = {}
                self.d = files.disk.setdefault(name, {})
                self.mode = mode

            def writable(self):
                if self.mode == 'r':
                    raise OSError('opened for reading')

            def keys(self):
                return sorted(self.d)

            def __iter__(self):
                return iter(sorted(self.d))

            def __len__(self):
                return len(self.d)

            def __contains__(self, k):
                return k in self.d

            def __getitem__(self, k):
                return self.d[k]

            def __delitem__(self, k):
                self.writable()
                del self.d[k]

            def __setitem__(self, k, v):
                self.create_dataset(k, data=v)

            def create_dataset(self, k, data=None, **kw):
                self.writable()
                if k in self.d:
                    raise ValueError('name already exists')
                self.d[k] = np.array(data)

            def flush(self):
                pass

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        self.File = File


def block(vc, name, *shape):
    out = np.empty(shape, dtype=object if vc.symbolic else float)
    for i in np.ndindex(*shape):
        out[i] = vc.real('%s%s' % (name, list(i)))
    return out


class Backend(object):
    def __init__(self, vc, w, p, sid):
        self.vc, self.w, self.p, self.sid = vc, w, p, sid
        self.reset(w, p)

    def reset(self, w, p):
        kind = object if self.vc.symbolic else float
        self.iteration, self.initialized = 0, True
        self.chain, self.log_prob = np.empty((0, w, p), dtype=kind), np.empty((0, w), dtype=kind)
        self.accepted = np.zeros(w)

    def grow(self, n, blobs):
        self.room = n


class Sampling(object):
    """stand-ins for emcee's sampler (one new arbitrary sample per call) and for the check"""
    def __init__(self, vc, files, name, tag):
        self.vc, self.files, self.name, self.tag, self.mixes = vc, files, name, tag, False
        self.samplers, self.starts, self.checks, self.saved, self.mixed = [], [], [], [], []
        loop = self

        class Fake(object):
            def __init__(self, nwalkers, ndim, logp, *a, **k):
                self.id = len(loop.samplers)
                self.nwalkers, self.ndim = nwalkers, ndim
                self.backend = Backend(vc, nwalkers, ndim, self.id)
                loop.samplers.append(self)

            @property
            def iteration(self):
                return self.backend.iteration

            def get_chain(self, **k):
                return self.backend.chain

            def get_log_prob(self, flat=False, **k):
                lp = self.backend.log_prob
                return lp.reshape(-1) if flat else lp

            def get_last_sample(self):
                if self.backend.iteration <= 0:
                    raise AttributeError('no samples')
                return emcee.State(self.backend.chain[-1], log_prob=self.backend.log_prob[-1])

            def _go(self, start, what):
                at = start.coords if isinstance(start, emcee.State) else start
                loop.starts.append((what, self.id, len(loop.checks), at))
                b, k = self.backend, len(loop.starts)
                b.chain = np.concatenate((b.chain[:], block(vc, '%s sample %d' % (loop.tag, k), 1, b.w, b.p)))
                b.log_prob = np.concatenate((b.log_prob[:], block(vc, '%s density %d' % (loop.tag, k), 1, b.w)))
                b.accepted = b.accepted[:] + np.array([k] * b.w)
                b.iteration += 1

            def sample(self, p1, iterations=1, store=True, **k):
                self._go(p1, 'sample')
                yield self.get_last_sample()

            def run_mcmc(self, p1, n, **k):
                self._go(p1, 'run')

            def reset(self):
                self.backend.reset(self.nwalkers, self.ndim)
        self.Fake = Fake

    def state(self):
        sv = MC.statevars
        return dict(chains=[s.backend.chain.copy() for s in self.samplers], dens=[s.backend.log_prob.copy() for s in self.samplers],
                    acc=[s.backend.accepted.copy() for s in self.samplers],
                    crit=[sv.minafactor, sv.maxarchange, sv.mintz, sv.maxgr],
                    auto=[list(sv.autosamples), list(sv.automin), list(sv.automean), list(sv.automax)],
                    burned=sv.nburn if sv.burn_complete else 0)

    def check(self, *a, **k):
        vc, sv = self.vc, MC.statevars
        r = len(self.checks)
        if r:
            self.saved.append(self.disk())
        sv.maxgr = vc.real('%s GR %d' % (self.tag, r), gen=[(1., 1.1)])
        sv.minafactor = vc.real('%s factor %d' % (self.tag, r), gen=[(0., 50.)])
        sv.maxarchange, sv.mintz = vc.real('%s change %d' % (self.tag, r)), vc.real('%s Tz %d' % (self.tag, r))
        sv.mixcount = vc.choice('%s mixed tests %d' % (self.tag, r), [0, 1, 2]) if self.mixes else 0
        sv.ismixed = sv.mixcount > 0
        self.mixed.append(sv.mixcount)
        sv.ncomplete = 100 * (r + 1)
        if sv.burn_complete:
            for i, L in enumerate((sv.autosamples, sv.automin, sv.automean, sv.automax)):
                L.append(vc.real('%s history %d %d' % (self.tag, r, i)))
        sv.chains = [np.zeros((1, 2, 2)) for s in self.samplers]
        sv.lnprob = [np.zeros((2, 2)) for s in self.samplers]
        self.checks.append(self.state())

    def disk(self):
        return dict(self.files.disk.get(self.name) or {})


class Post(object):
    def __init__(self, vc, p):
        self.likelihood = object()
        self.vary_params = list(range(p))
        self.names = ['k%d' % i for i in range(p)]

        class V(object):
            vector = np.array([[3., 1, .1, 0]] * p)
        self.vector = V()

    def get_vary_params(self):
        return np.array([self.vector.vector[i][0] for i in self.vary_params])

    def name_vary_params(self):
        return list(self.names)

    def logprob_array(self, x):
        return 0.


def stored(vc, f, st, N):
    """the file holds exactly this state"""
    vc.prove_same('the file holds the state and nothing else', sorted(f),
                  sorted(['%d_%s' % (i, k) for i in range(N) for k in ('chain', 'log_prob', 'accepted')] +
                         ['crit', 'autosample', 'automin', 'automean', 'automax', 'burned']))
    for i in range(N):
        vc.prove_eq('chains stored', f['%d_chain' % i], st['chains'][i])
        vc.prove_eq('log-probabilities stored', f['%d_log_prob' % i], st['dens'][i])
        vc.prove_eq('accepted steps stored', f['%d_accepted' % i], st['acc'][i])
    vc.prove_eq('criteria stored', list(f['crit']), st['crit'])
    for k, v in zip(('autosample', 'automin', 'automean', 'automax'), st['auto']):
        vc.prove_eq('autocorrelation history stored', list(f[k]), v)
    vc.prove_eq('burned steps stored', f['burned'][0], st['burned'])
    vc.prove_same('one number', len(f['burned']), 1)


def run(vc, S, N, w, p, rounds, **kw):
    vc.patch(emcee, 'EnsembleSampler', S.Fake)
    vc.patch(MC, 'convergence_check', S.check)
    vc.patch(h5py, 'File', S.files.File)
    return radvel.mcmc(Post(vc, p), nwalkers=w, nrun=10 * rounds, ensembles=N, checkinterval=11, serial=True, headless=True, **kw)


@harness('C20', [M + 'mcmc'], modes=('bounded',), sizes=[1, 2], runs=100,
         note='contracts of emcee and h5py; rounds of the sampling loop: at most 2; ensembles, walkers, parameters: at most 2')
def saving(vc):
    """after every round the file holds the state at the end of that round"""
    rounds, N = vc.choice('rounds', [2, 1]), vc.choice('ensembles', [2, 1])
    w, p = 2, 1
    files = Files()
    old = vc.flag('an older run in the file')
    if old:
        files.disk['run.h5'] = dict([('%d_%s' % (i, k), np.array([7.])) for i in range(N) for k in ('chain', 'log_prob', 'accepted')] +
                                    [(k, np.array([5.])) for k in ('crit', 'autosample', 'automin', 'automean', 'automax', 'burned')])
    S = Sampling(vc, files, 'run.h5', 'run')
    S.mixes = True
    burnGR, burnA = vc.real('burnGR', gen=[(1., 1.1)]), vc.real('burnAfactor', gen=[(0., 50.)])
    run(vc, S, N, w, p, rounds, save=True, savename='run.h5', burnGR=burnGR, burnAfactor=burnA)
    mixed = [i for i, n in enumerate(S.mixed) if n >= 2]
    vc.prove_same('rounds', len(S.checks), mixed[0] + 1 if mixed else rounds)
    S.saved.append(S.disk())
    for f, st in zip(S.saved, S.checks):
        stored(vc, f, st, N)
    vc.prove_same('no other file', sorted(files.disk), ['run.h5'])


@harness('C20', [M + 'mcmc'], modes=('bounded',), sizes=[1, 2], runs=100,
         note='contracts of emcee and h5py; stored chains of two steps; ensembles, walkers, parameters: at most 2')
def resuming(vc):
    """a resumed run continues every ensemble from the stored state"""
    N, w, p, steps = vc.choice('ensembles', [2, 1]), 2, 1, 2
    files = Files()
    f = {}
    for i in range(N):
        f['%d_chain' % i] = block(vc, 'stored %d' % i, steps, w, p)
        f['%d_log_prob' % i] = block(vc, 'stored density %d' % i, steps, w)
        f['%d_accepted' % i] = np.array([1. + i] * w)
    burned = vc.choice('burned', [0, 40])
    hist = vc.choice('history', [0, 2]) if burned else 0
    f['crit'] = block(vc, 'crit', 4)
    for k in ('autosample', 'automin', 'automean', 'automax'):
        f[k] = block(vc, k, hist)
    f['burned'] = np.array([burned])
    files.disk['old.h5'] = f
    before = dict(f)
    where = vc.choice('save', [None, 'new.h5', 'old.h5'])
    S = Sampling(vc, files, where, 'resumed')
    seen = []
    check = S.check

    def look(*a, **k):
        if not seen:
            seen.append((S.state(), MC.statevars.burn_complete, MC.statevars.nburn, [s.backend.iteration for s in S.samplers]))
        return check(*a, **k)
    S.check = look
    kw = {} if where is None else dict(save=True, savename=where)
    run(vc, S, N, w, p, 1, proceed=True, proceedname='old.h5', burnGR=0, burnAfactor=1e9, **kw)
    st, complete, nburn, its = seen[0]
    vc.prove_same('burn-in state', (bool(complete), int(nburn)), (burned != 0, burned))
    for k, v in zip(('autosample', 'automin', 'automean', 'automax'), st['auto']):
        vc.prove_eq('autocorrelation history', v, list(before[k]))
    for i in range(N):
        c, d, a = st['chains'][i], st['dens'][i], st['acc'][i]
        vc.prove_same('the new samples follow the stored ones', (len(c), len(d), its[i]), (steps + 2,) * 3)
        vc.prove_eq('stored chain', c[:steps], before['%d_chain' % i])
        vc.prove_eq('stored log-probabilities', d[:steps], before['%d_log_prob' % i])
        mine = [k + 1 for k, x in enumerate(S.starts) if x[1] == i]
        vc.prove_eq('accepted steps', a, before['%d_accepted' % i] + sum(mine))
        for x in S.starts:
            if x[1] == i:
                vc.prove_eq('the ensemble starts at its last stored positions', x[3], before['%d_chain' % i][-1])
    if where != 'old.h5':
        vc.prove('the old file is not written', all(files.disk['old.h5'].get(k) is before[k] for k in before)
                 and len(files.disk['old.h5']) == len(before))
    if where:
        stored(vc, files.disk[where], S.checks[0], N)


@harness('C20', [M + 'mcmc'], modes=('bounded',), sizes=[1, 2], runs=60, note='contracts of emcee and h5py')
def refused(vc):
    """a run cannot be resumed with another number of ensembles, walkers or parameters, or from no file"""
    what = vc.choice('mismatch', ['ensembles', 'fewer ensembles', 'walkers', 'parameters', 'no name', 'no save name'])
    N, w, p = 2, 4, 2
    files = Files()
    f = files.disk['old.h5'] = {}
    n = {'ensembles': 3, 'fewer ensembles': 1}.get(what, N)
    for i in range(n):
        f['%d_chain' % i] = block(vc, 'stored %d' % i, 1, w + (2 if what == 'walkers' else 0), p - (1 if what == 'parameters' else 0))
        f['%d_log_prob' % i] = block(vc, 'stored density %d' % i, 1, w)
        f['%d_accepted' % i] = np.array([1. + i] * w)
    for k in ('autosample', 'automin', 'automean', 'automax'):
        f[k] = np.array([])
    f['crit'], f['burned'] = np.array([1., 2., 3., 4.]), np.array([0])
    S = Sampling(vc, files, None, 'resumed')
    kw = dict(proceed=True, proceedname='old.h5')
    if what == 'no name':
        kw = dict(proceed=True)
    if what == 'no save name':
        kw = dict(save=True)
    keys = sorted(f)
    vc.raises('refused', ValueError, lambda: run(vc, S, N, w, p, 1, **kw))
    vc.prove('nothing sampled, nothing written', not S.starts and sorted(files.disk) == ['old.h5'] and sorted(f) == keys)


def real_post(p):
    par = radvel.Parameters(1, basis='per tc secosw sesinw k')
    for k, v in dict(per1=10., tc1=0., secosw1=.01, sesinw1=.01, k1=5.).items():
        par[k] = radvel.Parameter(value=v, vary=k == 'k1')
    par['gamma_j'] = radvel.Parameter(value=0., vary=p > 1)
    par['jit_j'] = radvel.Parameter(value=1., vary=False)
    for k in ('dvdt', 'curv'):
        par[k] = radvel.Parameter(value=0., vary=False)
    rng = np.random.RandomState(3)
    t = np.linspace(0, 50, 12)
    like = radvel.likelihood.RVLikelihood(radvel.RVModel(par, time_base=0), t, rng.randn(12), np.ones(12), suffix='_j')
    return radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood([like]))


@harness('C20', [M + 'mcmc'], modes=(), runs=6, conc_budget=60)
def real_runs(vc):
    """emcee and h5py themselves: runs that are saved and resumed several times against their own files"""
    p, N = vc.choice('parameters', [1, 2]), vc.choice('ensembles', [1, 2, 3])
    w = 4 + 2 * vc.choice('walkers', [0, 1])
    burn = vc.flag('burn-in ends')
    d = tempfile.mkdtemp()
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        kw = dict(nwalkers=w, ensembles=N, checkinterval=5, minpercent=0, minsteps=1, serial=True, headless=True, maxGR=0,
                  burnGR=100. if burn else 0, burnAfactor=1e9)
        names = [os.path.join(d, n) for n in ('a.h5', 'b.h5', 'c.h5')]
        prev = None
        for i, name in enumerate(names):
            radvel.mcmc(real_post(p), nrun=12, save=True, savename=name,
                        **dict(kw, **({} if i == 0 else dict(proceed=True, proceedname=names[i - 1]))))
            with h5py.File(name, 'r') as h:
                now = {k: h[k][()] for k in h}
            for e in range(N):
                c = now['%d_chain' % e]
                vc.prove_same('shape', c.shape[1:], (w, p))
                if prev is not None and not (burn and prev['burned'][0] == 0):
                    o = prev['%d_chain' % e]
                    vc.prove('stored samples are kept', np.array_equal(c[:len(o)], o) and len(c) > len(o))
                    vc.prove('with their log-probabilities', np.array_equal(now['%d_log_prob' % e][:len(o)], prev['%d_log_prob' % e]))
                    vc.prove('accepted steps accumulate', bool(np.all(now['%d_accepted' % e] >= prev['%d_accepted' % e])))
                    moved = np.any(np.diff(c, axis=0) != 0, axis=2).sum(axis=0)
                    # two samples are drawn from the same position in each round
                    vc.prove('accepted steps belong to the chain', bool(np.all(now['%d_accepted' % e] <= len(c))))
            if prev is not None and prev['burned'][0]:
                vc.prove('burned steps kept', now['burned'][0] == prev['burned'][0])
                vc.prove('autocorrelation history kept', np.array_equal(now['automean'][:len(prev['automean'])], prev['automean']))
            prev = now
    finally:
        sys.stdout = out
        shutil.rmtree(d)
