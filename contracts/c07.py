"""C07: a composite likelihood is the sum of its instruments."""
from pyvc.api import harness
from common import StubModel, draw, params, set_vector
import numpy as np
import radvel
import radvel.model
import radvel.likelihood

C = 'radvel.likelihood.CompositeLikelihood.'
SUFF = [('j',), ('j', 'k'), ('_hires', '_apf'), ('', 'j'), ('_a', 'b', '_c')]


class StubGP(radvel.likelihood.RVLikelihood):
    """an instrument with GP hyperparameters"""
    def __init__(self, *a, **k):
        self.hnames = k.pop('hnames')
        super(StubGP, self).__init__(*a, **k)


def build(vc, suff=None, linear=False):
    suff = vc.choice('suffixes', SUFF) if suff is None else suff
    p = params(vc, 'per tc secosw sesinw k', 1, pre='p_')
    for s in suff:
        p['gamma' + s] = radvel.Parameter(value=vc.real('p_gamma' + s, gen=(-5., 5.)), vary=not linear, linear=linear)
        p['jit' + s] = radvel.Parameter(value=vc.real('p_jit' + s, gen=(-3., 3.)))
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    m.independent_of = tuple(x + s for s in suff for x in ('gamma', 'jit'))
    gp = vc.choice('gp', [(), (0,), (1, 2), (0, 1, 2)])
    likes, data = [], []
    for i, s in enumerate(suff):
        n = vc.size('n%d' % i, min=1, sizes=(1, 3))
        t, y = vc.arr('t%d' % i, n, gen=(-10., 10.)), vc.arr('y%d' % i, n, gen=(-10., 10.))
        e = vc.arr('s%d' % i, n, gt=0, gen=(.1, 3.))
        kw = dict(suffix=s)
        if i == 1:
            kw.update(decorr_vars=['bis'], decorr_vectors={'bis': vc.arr('bis', n, gen=(-3., 3.))})
        if i in gp:
            likes.append(StubGP(m, t, y, e, hnames=['h_%d' % i, 'common'], **kw))
        else:
            likes.append(radvel.likelihood.RVLikelihood(m, t, y, e, **kw))
        data.append((n, t, y, e))
    return suff, p, v, m, gp, likes, data


def cat(vc, name, out, parts):
    """out is the concatenation of parts"""
    tot = 0
    for a in parts:
        tot = tot + vc.len(a)
    vc.prove(name + ': length', vc.m.eq(vc.len(out), tot))
    off = 0
    for a in parts:
        n = vc.len(a)
        if vc.symbolic:
            i = vc.real('i_%s' % name.replace(' ', '_'), ge=0, integer=True)
            vc.assume(i < n)
            vc.prove_eq(name, out[off + i], a[i])
        else:
            for i in range(n):
                vc.prove_eq(name, out[off + i], a[i])
        off = off + n


@harness('C07', [C + '__init__', C + 'residuals', C + 'errorbars'])
def concatenation(vc):
    suff, p, v, m, gp, likes, data = build(vc)
    keys = list(p)
    order = list(likes)
    snaps = [[(a, vc.snapshot(a)) for a in d[1:]] for d in data]
    L = radvel.likelihood.CompositeLikelihood(likes)
    set_vector(vc, v)
    cat(vc, 'times', L.x, [d[1] for d in data])
    cat(vc, 'velocities', L.y, [d[2] for d in data])
    cat(vc, 'measurement errors', L.yerr, [d[3] for d in data])
    cat(vc, 'error bars', L.errorbars(), [l.errorbars() for l in likes])
    vc.prove_runs('instrument labels', L.telvec, [(s.strip('_'), d[0]) for s, d in zip(suff, data)])
    vc.prove_same('instruments in the order given', [a is b for a, b in zip(L.like_list, order)] + [len(L.like_list)],
                  [True] * len(order) + [len(order)])
    vc.prove_same('suffixes', [str(x) for x in L.suffixes], [s.strip('_') for s in suff])
    vc.prove_same('hyperparameter names', list(L.hnames), [h for i in range(len(suff)) if i in gp for h in ('h_%d' % i, 'common')])
    vc.prove_same('instrument parameters', sorted(str(x) for x in L.extra_params), sorted(x + s for s in suff for x in ('gamma', 'jit')))
    vc.prove_same('shared objects', (L.params is p, L.vector is v, L.model is m), (True,) * 3)
    for ds in snaps:
        for a, s in ds:
            vc.unchanged('data are not modified', a, s)


@harness('C07', [C + 'residuals', C + 'logprob'])
def evaluation(vc):
    """sum of the log-likelihoods, concatenated residuals, everything evaluated with the shared parameters"""
    suff, p, v, m, gp, likes, data = build(vc, linear=vc.flag('linear offsets'))
    L = radvel.likelihood.CompositeLikelihood(likes)
    set_vector(vc, v)
    each = [l.logprob() for l in likes]
    tot = 0
    for x in each:
        tot = tot + x
    vc.prove_eq('sum of the log-likelihoods', L.logprob(), tot)
    res = [l.residuals() for l in likes]
    cat(vc, 'residuals', L.residuals(), res)
    set_vector(vc, v, pre='w_')
    each = [l.logprob() for l in likes]
    tot = 0
    for x in each:
        tot = tot + x
    vc.prove_eq('sum of the log-likelihoods at other parameters', L.logprob(), tot)


@harness('C07', [C + '__init__', 'radvel.likelihood.Likelihood.set_vary_params', 'radvel.likelihood.Likelihood.get_vary_params'])
def parameters(vc):
    """the parameters of all instruments, exactly once, under their own names; setting them reaches every instrument"""
    suff = vc.choice('suffixes', SUFF)
    p = params(vc, 'per tc secosw sesinw k', vc.choice('planets', [1, 2]), pre='p_')
    before = list(p)
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    likes = []
    for i, s in enumerate(suff):
        t, y = vc.arr('t%d' % i, 2, gen=(-10., 10.)), vc.arr('y%d' % i, 2, gen=(-10., 10.))
        l = radvel.likelihood.RVLikelihood(m, t, y, vc.arr('s%d' % i, 2, gt=0, gen=(.1, 3.)), suffix=s)
        for k in ('gamma' + s, 'jit' + s):
            l.params[k] = radvel.Parameter(value=draw(vc, k, 'p_' + k), vary=vc.flag('vary ' + k))
        likes.append(l)
    vals = {k: p[k].value for k in p}
    L = radvel.likelihood.CompositeLikelihood(likes)
    vc.prove_same('every parameter exactly once', list(L.params), before + [x + s for s in suff for x in ('gamma', 'jit')])
    for k in vals:
        vc.prove_eq('values of the parameters', L.params[k].value, vals[k])
    vc.prove_same('distinct rows', len(set(L.vector.indices[k] for k in L.params)), len(L.params))
    L.vector.dict_to_vector()
    L.list_vary_params()
    names = L.name_vary_params()
    vc.prove_same('free parameters', sorted(names), sorted(k for k in L.params if L.params[k].vary))
    new = [draw(vc, k, 'new_' + k) for k in names]
    L.set_vary_params(new)
    want = dict(vals)
    want.update(zip(names, new))
    for l in [L] + likes:
        for k in L.params:
            vc.prove_eq('every instrument sees the new values', l.vector.vector[l.vector.indices[k]][0], want[k])
            vc.prove_eq('every instrument sees the new values', l.params[k].value, want[k])
    for i, s in enumerate(suff):
        vc.prove_eq('jitter of the instrument', likes[i].errorbars()[0]**2, likes[i].yerr[0]**2 + want['jit' + s]**2)


@harness('C07', [C + '__init__', 'radvel.model.Parameter._equals'])
def rejected(vc):
    """likelihoods built on different models"""
    same = vc.choice('equal parameters', ['no', 'model', 'model and instruments'])
    where = vc.choice('position', [1, 2])
    likes = []
    extra = ('dvdt', 'curv')
    if same.endswith('instruments'):
        extra += tuple(k + '_%d' % i for i in range(3) for k in ('gamma', 'jit'))
    p1 = params(vc, 'per tc secosw sesinw k', 1, extra=extra, pre='p_')
    v1 = radvel.model.Vector(p1)
    m1 = StubModel(vc, p1, v1)
    if same != 'no':
        p2 = radvel.Parameters(1, basis='per tc secosw sesinw k')
        for k in p1:
            p2[k] = radvel.Parameter(value=p1[k].value, vary=p1[k].vary)
    else:
        p2 = params(vc, 'per tc secosw sesinw k', 1, pre='q_')
    m2 = StubModel(vc, p2, radvel.model.Vector(p2))
    for i in range(3):
        t, y = vc.arr('t%d' % i, 2, gen=(-10., 10.)), vc.arr('y%d' % i, 2, gen=(-10., 10.))
        likes.append(radvel.likelihood.RVLikelihood(m2 if i == where else m1, t, y, vc.arr('s%d' % i, 2, gt=0, gen=(.1, 3.)),
                                                    suffix='_%d' % i))
    vc.raises('different models are rejected', AssertionError, lambda: radvel.likelihood.CompositeLikelihood(likes))


@harness('C07', ['radvel.model.Parameter._equals'])
def equality(vc):
    a, b = vc.real('a', gen=[1., 2.]), vc.real('b', gen=[1., 2.])
    va, vb = vc.flag('va'), vc.flag('vb')
    sa, sb = vc.real('sa', gen=[1., 2.]), vc.real('sb', gen=[1., 2.])
    x, y = radvel.Parameter(value=a, vary=va, mcmcscale=sa), radvel.Parameter(value=b, vary=vb, mcmcscale=sb)
    same = bool(x._equals(y))
    m = vc.m
    spec = m.and_(m.eq(a, b), va == vb, m.eq(sa, sb))
    vc.prove('equal value, vary flag and scale', spec if same else m.not_(spec))
    vc.prove_same('not a parameter', bool(x._equals(a)), False)


@harness('C07', ['radvel.utils.initialize_posterior'], modes=('bounded',))
def from_setup_file(vc):
    """every instrument named in the setup file gets its own rows of the table (bounded: five rows)"""
    import types
    import pandas
    import radvel.utils
    names = vc.choice('instruments', [('j', 'k'), ('k', 'j'), ('k',), ('j', 'l', 'k')])
    decorr = vc.flag('decorrelation')
    tel = ['j', 'k', 'j', 'l', 'k']
    col = {c: [vc.real('%s_%d' % (c, i), np=True, **kw) for i in range(5)]
           for c, kw in (('time', dict(gen=(-10., 10.))), ('mnvel', dict(gen=(-10., 10.))), ('errvel', dict(gt=0, gen=(.1, 3.))),
                         ('bis', dict(gen=(-3., 3.))))}
    index = vc.choice('index', [None, [3, 1, 2, 0, 4], [0, 0, 0, 1, 1]])
    data = pandas.DataFrame({k: pandas.Series(x, dtype=object if vc.symbolic else float) for k, x in col.items()})
    data['tel'] = tel
    if index is not None:
        data.index = index
    p = params(vc, 'per tc secosw sesinw k', 1, pre='p_')
    old = not decorr and vc.flag('setup file with logjit')
    noise = 'white' if decorr or old else vc.choice('noise', ['white', 'QuasiPer', 'SqExp', None])
    vary = vc.choice('vary', [True, False])
    for s in names:
        for k in ('gamma_' + s, 'jit_' + s):
            p[('log' if old and k[0] == 'j' else '') + k] = radvel.Parameter(value=draw(vc, k, 'p_' + k), vary=vary)
    vals = {k: (p[k].value, p[k].vary) for k in p}
    if old:
        vals = {k[3:] if k.startswith('logjit') else k: (vc.m.exp(v) if k.startswith('logjit') else v, f)
                for k, (v, f) in vals.items()}
    hn = dict(SqExp=['gp_length', 'gp_amp']).get(noise, ['gp_per', 'gp_perlength', 'gp_explength', 'gp_amp'])
    if noise != 'white':
        for k in hn:
            p[k] = radvel.Parameter(value=vc.real('p_' + k, gt=0, gen=(.5, 4.)))
    P = types.SimpleNamespace(params=p, fitting_basis='per tc secosw sesinw k', data=data, time_base=vc.real('time_base'),
                              instnames=list(names), priors=[], decorr_vars=['bis'])
    if noise != 'white':
        P.hnames = {s: list(hn) for s in names}
        if noise is not None:
            P.kernel_name = {s: noise for s in names}
    vc.patch(radvel.utils, 'load_module_from_file', lambda *a: P)
    Q, post = radvel.utils.initialize_posterior('star.py', decorr=decorr)
    vc.prove_same('the setup file and its priors', (Q is P, post.priors is P.priors, len(post.likelihood.like_list)),
                  (True, True, len(names)))
    for l, s in zip(post.likelihood.like_list, names):
        rows = [i for i in range(5) if tel[i] == s]
        vc.prove_same('name of the instrument', l.suffix.strip('_'), s)
        vc.prove_same('likelihood of the instrument', type(l).__name__, 'RVLikelihood' if noise == 'white' else 'GPLikelihood')
        if noise != 'white':
            vc.prove_same('kernel of the instrument', (l.kernel.name, l.hnames), (noise or 'QuasiPer', hn))
            for k in hn:
                vc.prove_eq('hyperparameters', l.kernel.hparams[k].value, p[k].value)
        for a, c in ((l.x, 'time'), (l.y, 'mnvel'), (l.yerr, 'errvel')) + (((l.decorr_vectors['bis'], 'bis'),) if decorr else ()):
            vc.prove_same('number of measurements', len(a), len(rows))
            for i, r in enumerate(rows):
                vc.prove_eq('the measurements of the instrument', a[i], col[c][r])
    vc.prove_eq('time base', post.model.time_base, P.time_base)
    for k in vals:
        vc.prove_eq('initial values', post.params[k].value, vals[k][0])
        vc.prove_eq('initial values in the vector', post.vector.vector[post.vector.indices[k]][0], vals[k][0])
        vc.prove_same('vary flags', (bool(post.params[k].vary), bool(post.vector.vector[post.vector.indices[k]][1] == 1)), (vals[k][1],) * 2)
