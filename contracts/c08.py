"""C08: GP kernels, likelihood and prediction follow the GP formulas."""
import warnings
from pyvc.api import harness
from common import StubModel, draw, params, set_vector
import numpy as np
import radvel
import radvel.gp
import radvel.model
import radvel.likelihood

G, L_ = 'radvel.gp.', 'radvel.likelihood.'
HN = {'SqExp': ('gp_length', 'gp_amp'), 'Per': ('gp_length', 'gp_amp', 'gp_per'),
      'QuasiPer': ('gp_perlength', 'gp_amp', 'gp_per', 'gp_explength'), 'Celerite': ('gp_B', 'gp_C', 'gp_L', 'gp_Prot')}


def hyper(vc, kind, suffix='', pre='', names=None, **kw):
    """hyperparameters with arbitrary values (lengths and periods not zero)"""
    out = {}
    for k in names or HN[kind]:
        out[k + suffix] = radvel.Parameter(value=vc.real(pre + k, **(kw or dict(gt=0, gen=(.3, 20.)))))
    return out


def entry(vc, kind, h, a, b, dist=None):
    """documented kernel functions"""
    m = vc.m
    d = m.abs(a - b) if dist is None else dist(a, b)
    if kind == 'SqExp':
        return h['gp_amp']**2 * m.exp(-(a - b)**2 / h['gp_length']**2)
    if kind == 'Per':
        return h['gp_amp']**2 * m.exp(-m.sin(m.pi * d / h['gp_per'])**2 / (2 * h['gp_length']**2))
    if kind == 'QuasiPer':
        return h['gp_amp']**2 * m.exp(-(a - b)**2 / h['gp_explength']**2) * \
            m.exp(-m.sin(m.pi * d / h['gp_per'])**2 / (2 * h['gp_perlength']**2))
    if kind == 'Celerite':
        return h['gp_B'] / (2 + h['gp_C']) * m.exp(-d / h['gp_L']) * (m.cos(2 * m.pi * d / h['gp_Prot']) + 1 + h['gp_C'])


def times(vc):
    n, k = vc.size('n', min=1, sizes=(1, 2, 3)), None
    square = vc.flag('data-data')
    x1 = vc.arr('x1', n, gen=(-10., 10.))
    if square:
        return n, n, x1, x1, True
    k = vc.size('k', min=1, sizes=(1, 2))
    return n, k, x1, vc.arr('x2', k, gen=(-10., 10.)), False


def cells(vc, n, k):
    if vc.symbolic:
        i, j = vc.real('i', ge=0, integer=True), vc.real('j', ge=0, integer=True)
        vc.assume(i < n)
        vc.assume(j < k)
        if isinstance(n, int):
            return [(a, b) for a in range(n) for b in range(k)]
        return [(i, j)]
    return [(i, j) for i in range(n) for j in range(k)]


def check_matrix(vc, kind, K, n, k, x1, x2, h, err, strict=True):
    m = vc.m
    for i, j in cells(vc, n, k):
        e = 0
        if err is not None:
            e = m.ite(m.eq(i, j), err[i]**2, 0) if vc.symbolic else (err[i]**2 if i == j else 0)
        vc.prove_eq('kernel function of the two times, errors on the diagonal', K[i, j], entry(vc, kind, h, x1[i], x2[j]) + e)


def kernel_harness(kind):
    cls = kind + 'Kernel'

    @harness('C08', [G + cls + '.__init__', G + cls + '.compute_distances', G + cls + '.compute_covmatrix'], name='kernel_' + kind.lower())
    def f(vc):
        hp = hyper(vc, kind, vc.choice('suffix', ['', '_j', '_hires']))
        order = vc.choice('order', [1, -1])
        hp = dict(list(hp.items())[::order])
        h = {k: p.value for k in HN[kind] for q, p in hp.items() if q == k or q.startswith(k + '_')}
        ker = getattr(radvel.gp, cls)(hp)
        vc.prove_same('name', ker.name, kind)
        n, k, x1, x2, square = times(vc)
        err = vc.arr('err', n, gt=0, gen=(.1, 3.)) if square and vc.flag('errors') else None
        snaps = [(a, vc.snapshot(a)) for a in [x1, x2] + ([err] if err is not None else [])]
        ker.compute_distances(x1, x2)
        K = ker.compute_covmatrix(0. if err is None else err)
        vc.prove_same('the matrix is kept', K is ker.covmatrix, True)
        check_matrix(vc, kind, K, n, k, x1, x2, h, err)
        # again, without errors and for other hyperparameters: nothing is carried over
        for q in hp:
            hp[q].value = vc.real('new_' + q, gt=0, gen=(.3, 20.))
        h = {b: ker.hparams[b].value for b in h}
        K = ker.compute_covmatrix(0.)
        check_matrix(vc, kind, K, n, k, x1, x2, h, None)
        for a, s in snaps:
            vc.unchanged('inputs are not modified', a, s)
    return f


kernel_sqexp = kernel_harness('SqExp')
kernel_per = kernel_harness('Per')


@harness('C08', [G + 'QuasiPerKernel.__init__', G + 'QuasiPerKernel.compute_distances', G + 'QuasiPerKernel.compute_covmatrix'])
def kernel_quasiper(vc):
    """documented function where both exponents are above -100 (the code cuts them off there); below, the element is at most
    amp^2 exp(-100); a zero hyperparameter switches the GP off"""
    m = vc.m
    suffix = vc.choice('suffix', ['', '_j'])
    off = vc.choice('zero', [None, 'gp_amp', 'gp_per', 'gp_explength', 'gp_perlength'])
    hp = hyper(vc, 'QuasiPer', suffix)
    h = {k: hp[k + suffix].value for k in HN['QuasiPer']}
    ker = radvel.gp.QuasiPerKernel(hp)
    vc.prove_same('name', ker.name, 'QuasiPer')
    dist = vc.opaque_distance()
    n, k, x1, x2, square = times(vc)
    err = vc.arr('err', n, gt=0, gen=(.1, 3.)) if square and vc.flag('errors') else None
    snaps = [(a, vc.snapshot(a)) for a in [x1, x2] + ([err] if err is not None else [])]
    ker.compute_distances(x1, x2)
    if off is not None:
        ker.compute_covmatrix(0.)
        hp[off + suffix].value = 0.0
    K = ker.compute_covmatrix(0. if err is None else err)
    vc.prove_same('the matrix is kept', K is ker.covmatrix, True)
    if off is not None:
        vc.prove('shape of the matrix', m.and_(m.eq(vc.len(K), n), m.eq(vc.len(K.T), k)))
    for i, j in cells(vc, n, k):
        e = 0
        if err is not None:
            e = err[i]**2 if vc.split(i == j) else 0
        v = K[i, j] - e
        if off is not None:
            vc.prove_eq('no covariance with a zero hyperparameter', v, 0)
            continue
        d = dist(x1[i], x2[j])
        vc.assume(d >= 0)
        a, b = -d**2 / h['gp_explength']**2, -m.sin(m.pi * d / h['gp_per'])**2 / (2 * h['gp_perlength']**2)
        vc.exp_rule('exponents are not positive', a)
        vc.exp_rule('exponents are not positive', b)
        far = vc.split(a < -100) + vc.split(b < -100)
        if far == 0:
            vc.prove_eq('kernel function of the two times, errors on the diagonal', v, h['gp_amp']**2 * m.exp(a) * m.exp(b),
                        scale=float(h['gp_amp'])**2 if not vc.symbolic else None)
        elif vc.symbolic:
            q = v / h['gp_amp']**2 / m.exp(-100 * far)
            vc.prove('negligible far away', m.and_(m.le(0, q), m.le(q, 1)))
        else:
            vc.prove('negligible far away', abs(v) <= h['gp_amp']**2 * 1e-9)
    for a, s in snaps:
        vc.unchanged('inputs are not modified', a, s)


@harness('C08', [G + 'QuasiPerKernel.compute_covmatrix'])
def invalid_hyperparameters(vc):
    hp = hyper(vc, 'QuasiPer')
    ker = radvel.gp.QuasiPerKernel(hp)
    n, k, x1, x2, square = times(vc)
    ker.compute_distances(x1, x2)
    bad = vc.choice('which', HN['QuasiPer'])
    hp[bad].value = vc.choice('bad value', [float('nan'), float('inf'), vc.real('negative', lt=0, gen=(-5., -.1))])
    vc.raises('invalid hyperparameters are rejected', ValueError, lambda: ker.compute_covmatrix(0.))


@harness('C08', [G + k + 'Kernel.__init__' for k in HN], modes=('bounded',))
def construction(vc):
    """a kernel takes exactly its own hyperparameters, by name and with any suffix"""
    kind = vc.choice('kernel', sorted(HN))
    cls = getattr(radvel.gp, kind + 'Kernel')
    suffix = vc.choice('suffix', ['', '_j', '_hires'])
    good = hyper(vc, kind, suffix)
    fault = vc.choice('fault', ['none', 'missing', 'unnamed', 'extra', 'twice', 'not a parameter', 'empty'])
    which = vc.choice('which', list(good))
    if fault == 'none':
        ker = cls(dict(good))
        vc.prove_same('every hyperparameter under its own name', sorted((k, id(v)) for k, v in ker.hparams.items()),
                      sorted((k, id(good[k + suffix])) for k in HN[kind]))
        return
    hp = dict(good)
    if fault == 'missing':
        del hp[which]
    elif fault == 'unnamed':
        hp = {('gp_other' + suffix if k == which else k): v for k, v in hp.items()}
    elif fault == 'extra':
        hp['gp_other' + suffix] = radvel.Parameter(value=1.)
    elif fault == 'twice':
        del hp[which]
        other = vc.choice('other', list(hp))
        hp[other + 'x'] = radvel.Parameter(value=1.)
    elif fault == 'not a parameter':
        hp[which] = vc.choice('value', [1.0, None])
    else:
        hp = {}
    vc.raises('rejected', (AssertionError, KeyError, AttributeError), lambda: cls(hp))


# ---- likelihood and prediction ------------------------------------------------------------------------------------
def kern(vc, a, b, amp, per):
    """a covariance function"""
    if vc.symbolic:
        return vc.opaque('kern', a, b, amp, per)
    return amp**2 * np.exp(-(a - b)**2 / (1 + per**2))


def install_stub(vc):
    """contract of an arbitrary kernel with two hyperparameters"""
    class StubKernel(object):
        def __init__(self, hparams):
            self.hparams = {k: hparams[q] for k in ('gp_amp', 'gp_per') for q in hparams if q.startswith(k)}

        def compute_distances(self, x1, x2):
            self.x1, self.x2 = x1 + 0, x2 + 0

        def compute_covmatrix(self, errors):
            a, p = self.hparams['gp_amp'].value, self.hparams['gp_per'].value
            x1, x2 = self.x1, self.x2
            n, k = vc.len(x1), vc.len(x2)
            if hasattr(errors, '__len__') or hasattr(errors, 'n'):
                def f(i, j):
                    e = vc.m.ite(vc.m.eq(i, j), errors[i]**2, 0) if vc.symbolic and not isinstance(i, int) else \
                        (errors[i]**2 if i == j else 0)
                    return kern(vc, x1[i], x2[j], a, p) + e
            else:
                assert errors == 0
                f = lambda i, j: kern(vc, x1[i], x2[j], a, p)
            self.covmatrix = vc.table(n, k, f)
            return self.covmatrix
    vc.patch(radvel.gp, 'StubKernel', StubKernel)
    vc.patch(radvel.gp, 'KERNELS', dict(radvel.gp.KERNELS, Stub='contract'))


def gp_like(vc, suffixes=('', '_j'), nmin=1, sizes=(1, 2), before=None):
    install_stub(vc)
    suffix = vc.choice('suffix', suffixes)
    p = params(vc, 'per tc secosw sesinw k', 1, pre='p_')
    for k in ('gp_amp', 'gp_per'):
        p[k + suffix] = radvel.Parameter(value=vc.real('p_' + k, gt=0, gen=(.3, 5.)))
    for k in ('gamma', 'jit'):
        p[k + suffix] = radvel.Parameter(value=vc.real('p_' + k, gen=(-2., 2.)))
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    m.independent_of = tuple(k + suffix for k in ('gamma', 'jit', 'gp_amp', 'gp_per'))
    n = vc.size('n', min=nmin, sizes=sizes)
    t, y = vc.arr('t', n, gen=(-10., 10.)), vc.arr('y', n, gen=(-10., 10.))
    s = vc.arr('s', n, gt=0, gen=(.3, 3.))
    L = radvel.likelihood.GPLikelihood(m, t, y, s, ['gp_amp' + suffix, 'gp_per' + suffix], suffix=suffix, kernel_name='Stub')
    if before:
        before(L)
    new = set_vector(vc, v)
    h = (new['gp_amp' + suffix], new['gp_per' + suffix])
    jit, gamma = new['jit' + suffix], new['gamma' + suffix]
    mod = m(t)
    K = vc.table(n, n, lambda i, j: kern(vc, t[i], t[j], *h) +
                 (vc.m.ite(vc.m.eq(i, j), s[i]**2 + jit**2, 0) if vc.symbolic and not isinstance(i, int) else
                  (s[i]**2 + jit**2 if i == j else 0)))
    r = y - gamma - mod
    return L, dict(n=n, t=t, y=y, s=s, h=h, K=K, r=r, jit=jit, gamma=gamma, mod=mod, suffix=suffix, new=new)


@harness('C08', [L_ + 'GPLikelihood.__init__', L_ + 'GPLikelihood.logprob', L_ + 'GPLikelihood._resids',
                 L_ + 'GPLikelihood.update_kernel_params'])
def logprob(vc):
    """multivariate normal log-density of the residuals"""
    L, d = gp_like(vc)
    m = vc.m
    sv = vc.snapshot([[L.vector.vector[i][c] for c in range(4)] for i in range(L.vector.vector.shape[0])])
    snaps = [(a, vc.snapshot(a)) for a in (d['t'], d['y'], d['s'])]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = L.logprob()
    if not vc.split(vc.posdef(d['K'])):
        vc.prove('minus infinity unless positive definite', m.isneginf(out))
        return
    alpha = vc.solve(d['K'], d['r'])
    spec = -(m.total(d['n'], lambda i: d['r'][i] * alpha[i]) + vc.logdet(d['K']) + d['n'] * m.log(2 * m.pi)) / 2
    vc.prove_eq('multivariate normal log-density', out, spec)
    vc.unchanged('parameters are not modified', [[L.vector.vector[i][c] for c in range(4)] for i in range(L.vector.vector.shape[0])], sv)
    for a, s in snaps:
        vc.unchanged('data are not modified', a, s)


@harness('C08', [L_ + 'GPLikelihood.predict', L_ + 'GPLikelihood.residuals'])
def predict(vc):
    """mean and standard deviation of the conditional Gaussian"""
    L, d = gp_like(vc)
    m = vc.m
    vc.assume(vc.posdef(d['K']))
    k = vc.size('k', min=1, sizes=(1, 2))
    xp = vc.arr('xp', k, gen=(-10., 10.))
    n, t, h = d['n'], d['t'], d['h']
    alpha = vc.solve(d['K'], d['r'])
    cross = lambda x: [kern(vc, x, t[j], *h) for j in range(n)]
    if vc.symbolic:
        # the conditional variance is not negative (positive semidefinite kernel, which an arbitrary function need not be)
        pass
    mu, sd = L.predict(xp)
    vc.prove('one prediction per time', m.and_(m.eq(vc.len(mu), k), m.eq(vc.len(sd), k)))

    def spec_mu(x):
        return m.total(n, lambda j: kern(vc, x, t[j], *h) * alpha[j])

    def spec_var(x):
        c = vc.map(lambda u: kern(vc, x, u, *h), t)
        b = vc.solve(d['K'], c)
        return kern(vc, x, x, *h) - m.total(n, lambda j: c[j] * b[j])
    for i in ([vc.real('i', ge=0, integer=True)] if vc.symbolic and not isinstance(k, int) else range(k)):
        vc.assume(i < k)
        vc.prove_eq('conditional mean', mu[i], spec_mu(xp[i]), scale=1. if not vc.symbolic else None)
        v = spec_var(xp[i])
        if vc.split(m.le(0, v)):
            vc.prove_eq('conditional variance', sd[i]**2, v, scale=1. if not vc.symbolic else None)
    before = L.logprob()
    res = L.residuals()
    mut = vc.map(spec_mu, t)
    vc.prove_eq('residuals: data minus model, offset and predicted noise', res, d['y'] - d['gamma'] - d['mod'] - mut)
    vc.prove_eq('predictions leave the likelihood as it was', L.logprob(), before)


@harness('C08', [L_ + 'GPLikelihood.predict', L_ + 'GPLikelihood.logprob'])
def history(vc):
    """earlier evaluations and predictions, successful or not, have no influence"""
    what = vc.choice('earlier', ['logprob', 'predict'])

    def before(L):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if what == 'logprob':
                L.logprob()
                return
            try:
                L.predict(vc.arr('xp', vc.size('k', min=1, sizes=(1, 2)), gen=(-10., 10.)))
            except np.linalg.LinAlgError:
                vc.cover('failed prediction')
    L, d = gp_like(vc, before=before)
    m = vc.m
    vc.assume(vc.posdef(d['K']))
    alpha = vc.solve(d['K'], d['r'])
    spec = -(m.total(d['n'], lambda i: d['r'][i] * alpha[i]) + vc.logdet(d['K']) + d['n'] * m.log(2 * m.pi)) / 2
    vc.prove_eq('multivariate normal log-density', L.logprob(), spec)


@harness('C08', [L_ + 'GPLikelihood.update_kernel_params'])
def hyperparameters(vc):
    """the kernel of an instrument uses the hyperparameters of that instrument"""
    kind = vc.choice('kernel', ['SqExp', 'Per', 'QuasiPer', 'Celerite'])
    shared = vc.flag('shared amplitude')
    p = params(vc, 'per tc secosw sesinw k', 1, pre='p_')
    v = None
    hn = {s: [k + ('' if shared and i == 0 else s) for i, k in enumerate(HN[kind])] for s in ('_j', '_hires')}
    for s in ('_j', '_hires'):
        for k in hn[s]:
            p[k] = radvel.Parameter(value=vc.real('p_' + k, gt=0, gen=(.3, 5.)))
        for k in ('gamma', 'jit'):
            p[k + s] = radvel.Parameter(value=vc.real('p_' + k + s, gen=(-2., 2.)))
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    cls = radvel.likelihood.CeleriteLikelihood if kind == 'Celerite' else radvel.likelihood.GPLikelihood
    kw = {} if kind == 'Celerite' else dict(kernel_name=kind)
    likes = [cls(m, vc.arr('t' + s, 1, gen=(-5., 5.)), vc.arr('y' + s, 1, gen=(-5., 5.)), vc.arr('s' + s, 1, gt=0, gen=(.1, 1.)),
                 hn[s], suffix=s, **kw) for s in ('_j', '_hires')]
    new = set_vector(vc, v)
    for l, s in zip(likes, ('_j', '_hires')):
        l.update_kernel_params()
    for l, s in zip(likes, ('_j', '_hires')):
        for k, q in zip(HN[kind], hn[s]):
            vc.prove_eq('hyperparameters of the instrument', l.kernel.hparams[k].value, new[q])
        vc.prove_same('number of hyperparameters', len(l.kernel.hparams), len(HN[kind]))
    vc.raises('unknown kernel', AssertionError, lambda: radvel.likelihood.GPLikelihood(
        m, np.array([1.]), np.array([1.]), np.array([1.]), hn['_j'], suffix='_j', kernel_name='Nope'))


# ---- celerite ------------------------------------------------------------------------------------------------------
def term_value(vc, real, cplx, d):
    """celerite's definition of the kernel: sum of a exp(-c d) and exp(-c d) (a cos(b' d) + b sin(b' d))"""
    m = vc.m
    out = 0
    for a, c in real:
        out = out + a * m.exp(-c * d)
    for a, b, c, w in cplx:
        out = out + m.exp(-c * d) * (a * m.cos(w * d) + b * m.sin(w * d))
    return out


def one(x):
    """the elements of a small array"""
    return [x[i] for i in range(len(x))]


def symmetric(vc):
    """the distance of two points, zero for the same point"""
    f = vc.opaque_distance()
    seen = []

    def number(a):
        for i, p in enumerate(seen):
            if vc.same(p, a):
                return i
        seen.append(a)
        return len(seen) - 1

    def dist(a, b):
        i, j = number(a), number(b)
        return 0 if i == j else f(seen[min(i, j)], seen[max(i, j)])
    return dist if vc.symbolic else f


class SolverContract(object):
    """celerite's solver: requires times in increasing order; represents diag + kernel(|ti - tj|)"""
    vc = None
    ordered = None
    dist = None

    def compute(self, jitter, ar, cr, ac, bc, cc, wc, A, U, V, x, diag):
        vc = self.vc
        if len(A) or len(U) or len(V):
            raise ValueError('general terms are not part of the contract')
        x, diag = one(x), one(diag)
        self.ordered.append([(x[i], x[i + 1]) for i in range(len(x) - 1)])
        real, cplx = list(zip(one(ar), one(cr))), list(zip(one(ac), one(bc), one(cc), one(wc)))
        real = [t for t in real if not vc.same(t[0], 0)]
        cplx = [t for t in cplx if not vc.same(t[0], 0)]
        n = len(x)
        self.K = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                self.K[i, j] = term_value(vc, real, cplx, self.dist(x[i], x[j])) + ((diag[i] + jitter) if i == j else 0)
        self.n = n
        import celerite
        if not vc.split(vc.posdef(self.K)):
            raise celerite.solver.LinAlgError()

    def dot_solve(self, r):
        z = self.vc.solve(self.K, r)
        out = 0
        for i in range(self.n):
            out = out + r[i] * z[i]
        return out

    def log_determinant(self):
        return self.vc.logdet(self.K)


def celerite_like(vc):
    suffix = vc.choice('suffix', ['', '_j'])
    p = params(vc, 'per tc secosw sesinw k', 1, pre='p_')
    hn = [k + suffix for k in HN['Celerite']]
    for k in hn:
        p[k] = radvel.Parameter(value=vc.real('p_' + k, gt=0, gen=(.3, 5.)))
    for k in ('gamma', 'jit'):
        p[k + suffix] = radvel.Parameter(value=vc.real('p_' + k, gen=(-2., 2.)))
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    m.independent_of = tuple(k + suffix for k in ('gamma', 'jit') + HN['Celerite'])
    n = vc.size('n', min=1, sizes=(1, 2))
    t, y = vc.arr('t', n, gen=(-10., 10.)), vc.arr('y', n, gen=(-10., 10.))
    s = vc.arr('s', n, gt=0, gen=(.3, 3.))
    snaps = [(a, vc.snapshot(a)) for a in (t, y, s)]
    L = radvel.likelihood.CeleriteLikelihood(m, t, y, s, hn, suffix=suffix)
    for a, b in snaps:
        vc.unchanged('the data given are not modified', a, b)
    new = set_vector(vc, v, **{k: dict(gt=0, gen=(.3, 5.)) for k in hn})
    h = {k: new[k + suffix] for k in HN['Celerite']}
    return L, dict(n=n, t=t, y=y, s=s, h=h, jit=new['jit' + suffix], gamma=new['gamma' + suffix], m=m, suffix=suffix)


def in_time_order(vc, L, d):
    """the data of the likelihood: the rows given, sorted by time"""
    idx = sorted(range(d['n']), key=lambda i: d['t'][i]) if not vc.symbolic else None
    if idx is None:
        idx = [0]
        for i in range(1, d['n']):
            pos = len(idx)
            while pos and vc.split(d['t'][i] < d['t'][idx[pos - 1]]):
                pos -= 1
            idx.insert(pos, i)
    for a, b in ((L.x, 't'), (L.y, 'y'), (L.yerr, 's')):
        vc.prove_same('number of data', len(a), d['n'])
        if len(set(float(x) for x in d['t']) if not vc.symbolic else idx) == d['n']:
            for i, q in enumerate(idx):
                vc.prove_eq('the rows given, sorted by time', a[i], d[b][q])
    return idx


@harness('C08', [G + 'CeleriteKernel.compute_covmatrix', G + 'CeleriteKernel.compute_real_and_complex_hparams',
                 G + 'CeleriteKernel.compute_distances', L_ + 'CeleriteLikelihood.__init__', L_ + 'CeleriteLikelihood.logprob'],
         modes=('bounded',), sizes=(1, 2))
def celerite_logprob(vc):
    """bounded to two observations; against the contract of celerite's solver (the real one in the evaluation on real numbers)"""
    ordered = []
    if vc.symbolic:
        SolverContract.vc, SolverContract.ordered = vc, ordered
        vc.patch(radvel.gp, 'CholeskySolver', SolverContract)
    dist = SolverContract.dist = staticmethod(symmetric(vc))
    dist = SolverContract.dist
    L, d = celerite_like(vc)
    m, n = vc.m, d['n']
    idx = in_time_order(vc, L, d)
    x, s = [d['t'][i] for i in idx], [d['s'][i] for i in idx]
    K = vc.table(n, n, lambda i, j: entry(vc, 'Celerite', d['h'], x[i], x[j], dist) + (s[i]**2 + d['jit']**2 if i == j else 0))
    mod = d['m'](d['t'])
    r = np.array([d['y'][i] - d['gamma'] - mod[i] for i in idx], dtype=object if vc.symbolic else float)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = L.logprob()
    for pairs in ordered:
        for a, b in pairs:
            vc.prove('celerite is given times in increasing order', m.le(a, b))
    if not vc.split(vc.posdef(K)):
        vc.prove('minus infinity unless positive definite', m.isneginf(out))
        return
    z = vc.solve(K, r)
    tot = 0
    for i in range(n):
        tot = tot + r[i] * z[i]
    vc.prove_eq('multivariate normal log-density', out, -(tot + vc.logdet(K) + n * m.log(2 * m.pi)) / 2)


class TermContract(object):
    """celerite terms and their sums"""
    vc = None

    def __init__(self, real=(), cplx=(), jitter=()):
        self.real, self.cplx, self.jitter = list(real), list(cplx), list(jitter)

    def __add__(self, o):
        return TermContract(self.real + o.real, self.cplx + o.cplx, self.jitter + o.jitter)


class CeleriteContract(object):
    """celerite.GP: the conditional Gaussian of the kernel, the jitter terms being added to the data variances only"""
    class terms(object):
        @staticmethod
        def JitterTerm(log_sigma):
            if isinstance(log_sigma, float) and log_sigma == -np.inf:
                return TermContract()
            return TermContract(jitter=[TermContract.vc.m.exp(log_sigma)**2])

        @staticmethod
        def RealTerm(log_a, log_c):
            e = TermContract.vc.m.exp
            return TermContract(real=[(e(log_a), e(log_c))])

        @staticmethod
        def ComplexTerm(log_a, log_b, log_c, log_d):
            e = TermContract.vc.m.exp
            b = 0 if isinstance(log_b, float) and log_b == -np.inf else e(log_b)
            return TermContract(cplx=[(e(log_a), b, e(log_c), e(log_d))])

    class GP(object):
        def __init__(self, kernel):
            self.k = kernel

        def compute(self, x, yerr):
            vc = TermContract.vc
            self.x, n = one(x), len(x)
            SolverContract.ordered.append([(x[i], x[i + 1]) for i in range(n - 1)])
            jit = 0
            for j in self.k.jitter:
                jit = jit + j
            self.K = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    self.K[i, j] = self.f(x[i], x[j]) + (yerr[i]**2 + jit if i == j else 0)

        def f(self, a, b):
            return term_value(TermContract.vc, self.k.real, self.k.cplx, SolverContract.dist(a, b))

        def predict(self, r, xp, return_var=False, return_cov=True):
            assert return_var
            vc = TermContract.vc
            SolverContract.ordered.append([(xp[i], xp[i + 1]) for i in range(len(xp) - 1)])
            z = vc.solve(self.K, r)
            mu, var = np.empty(len(xp), dtype=object), np.empty(len(xp), dtype=object)
            for q in range(len(xp)):
                c = np.array([self.f(xp[q], u) for u in self.x], dtype=object)
                w = vc.solve(self.K, c)
                mu[q], var[q] = sum(c * z), self.f(xp[q], xp[q]) - sum(c * w)
            return mu, var


class Recorder(object):
    """celerite's solver as its caller sees it: remembers what it is given, answers with unconstrained numbers"""
    vc, got, answer = None, None, None

    def compute(self, jitter, ar, cr, ac, bc, cc, wc, A, U, V, x, diag):
        self.got.append((jitter, one(ar), one(cr), one(ac), one(bc), one(cc), one(wc), (len(A), len(U), len(V)), x, diag))

    def dot_solve(self, r):
        self.got.append(r)
        return self.answer[0]

    def log_determinant(self):
        return self.answer[1]


@harness('C08', [G + 'CeleriteKernel.compute_covmatrix', G + 'CeleriteKernel.compute_real_and_complex_hparams',
                 G + 'CeleriteKernel.compute_distances', L_ + 'CeleriteLikelihood.__init__', L_ + 'CeleriteLikelihood.logprob'])
def celerite_solver(vc):
    """any number of observations: the kernel, variances, times and residuals that reach celerite's solver, and the density
       computed from its answers"""
    m = vc.m
    got, answer = [], (vc.real('quadratic form', ge=0, gen=(0., 5.)), vc.real('log determinant', gen=(-5., 5.)))
    Recorder.vc, Recorder.got, Recorder.answer = vc, got, answer
    vc.patch(radvel.gp, 'CholeskySolver', Recorder)
    L, d = celerite_like(vc)
    n, h = d['n'], d['h']
    order = radvel.likelihood.np.argsort(d['t'])
    x, y, s = d['t'][order], d['y'][order], d['s'][order]
    for name, a, b in (('times', L.x, x), ('velocities', L.y, y), ('uncertainties', L.yerr, s)):
        vc.prove_eq(name + ' in time order', a, b)
    out = L.logprob()
    vc.prove_same('one computation, one solution', len(got), 2)
    jitter, ar, cr, ac, bc, cc, wc, general, gx, diag = got[0]
    dist = vc.real('distance', ge=0, gen=(0., 8.))
    k = term_value(vc, list(zip(ar, cr)), list(zip(ac, bc, cc, wc)), dist)
    vc.prove_eq('kernel', k, entry(vc, 'Celerite', h, 0, dist, lambda a, b: b))
    vc.prove_same('no other terms', general, (0, 0, 0))
    vc.prove_eq('times given to the solver', gx, x)
    vc.prove_eq('variances given to the solver', diag + jitter, s**2 + d['jit']**2)
    vc.prove_eq('residuals given to the solver', got[1], y - d['gamma'] - d['m'](x))
    vc.prove_eq('log-density', out, -(answer[0] + answer[1] + n * m.log(2 * m.pi)) / 2)


@harness('C08', [L_ + 'CeleriteLikelihood.predict'], modes=('bounded',), sizes=(1, 2))
def celerite_predict(vc):
    ordered = []
    m = vc.m
    if vc.symbolic:
        SolverContract.vc = TermContract.vc = vc
        SolverContract.ordered = ordered
        vc.patch(radvel.gp, 'CholeskySolver', SolverContract)
        vc.patch(radvel.likelihood, 'celerite', CeleriteContract)
    dist = SolverContract.dist = staticmethod(symmetric(vc))
    dist = SolverContract.dist
    L, d = celerite_like(vc)
    if vc.symbolic:
        if vc.flag('negative jitter'):
            vc.assume(d['jit'] < 0)
        else:
            vc.assume(d['jit'] > 0)
    n = d['n']
    idx = in_time_order(vc, L, d)
    x, s = [d['t'][i] for i in idx], [d['s'][i] for i in idx]
    K = vc.table(n, n, lambda i, j: entry(vc, 'Celerite', d['h'], x[i], x[j], dist) + (s[i]**2 + d['jit']**2 if i == j else 0))
    vc.assume(vc.posdef(K))
    mod = d['m'](d['t'])
    r = np.array([d['y'][i] - d['gamma'] - mod[i] for i in idx], dtype=object if vc.symbolic else float)
    nxp = vc.choice('predictions', [1, 2] if n == 1 or not vc.symbolic else [1])
    xp = vc.arr('xp', nxp, gen=(-10., 10.))
    mu, sd = L.predict(xp)
    for pairs in ordered:
        for a, b in pairs:
            vc.prove('celerite is given times in increasing order', m.le(a, b))
    z = vc.solve(K, r)
    vc.prove_same('one prediction per time', (len(mu), len(sd)), (len(xp),) * 2)
    for q in range(len(xp)):
        c = np.array([entry(vc, 'Celerite', d['h'], xp[q], u, dist) for u in x], dtype=object if vc.symbolic else float)
        w = vc.solve(K, c)
        vc.prove_eq('conditional mean', mu[q], sum(c * z), scale=None if vc.symbolic else 1.)
        var = entry(vc, 'Celerite', d['h'], xp[q], xp[q], dist) - sum(c * w)
        if vc.split(m.le(0, var) if vc.symbolic else var > 1e-6):
            vc.prove_eq('conditional variance', sd[q]**2, var, scale=None if vc.symbolic else 1.)
