"""C06: the likelihood of one instrument is the Gaussian likelihood with jitter."""
from pyvc.api import harness
from common import StubModel, draw, params, set_vector
import numpy as np
import radvel
import radvel.model
import radvel.likelihood

R = 'radvel.likelihood.RVLikelihood.'
DECORR = [(), ('bis',), ('bis', 'fwhm', 'bis_x', 'h'), ('s', 'index_s')]


def build(vc, basis='per tc secosw sesinw k', npl=1, nmin=1, decorr=None, given=None):
    """an RVLikelihood over an arbitrary model, with the parameter vector set to fresh values"""
    suffix = vc.choice('suffix', ['', 'j', '_hires'])
    names = vc.choice('decorrelation', DECORR) if decorr is None else decorr
    g, j = 'gamma' + suffix, 'jit' + suffix
    p = params(vc, basis, npl, pre='p_')
    linear = vc.choice('gamma', ['free', 'fixed', 'linear', 'linear but free', 'not given'])
    if linear != 'not given':
        p[g] = radvel.Parameter(value=vc.real('p_gamma', gen=(-5., 5.)), vary=linear in ('free', 'linear but free'),
                                linear=linear.startswith('linear'))
        p[j] = radvel.Parameter(value=vc.real('p_jit', gen=(-3., 3.)), vary=vc.flag('jitter free'))
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    m.independent_of = (g, j)
    n = vc.size('n', min=nmin, sizes=(1, 3))
    t, y = vc.arr('t', n, gen=(-10., 10.)), vc.arr('y', n, gen=(-10., 10.))
    s = vc.arr('s', n, gt=0, gen=(.1, 3.))
    vecs = {d: vc.arr('d_' + d, n, gen=(-3., 3.)) for d in names}
    inputs = [(a, vc.snapshot(a)) for a in [t, y, s] + list(vecs.values())]
    L = radvel.likelihood.RVLikelihood(m, t, y, s, suffix=suffix, decorr_vars=list(names), decorr_vectors=vecs)
    if vc.flag('evaluated before'):
        L.logprob()
    new = set_vector(vc, v)
    return L, dict(n=n, t=t, y=y, s=s, vecs=vecs, names=names, g=g, j=j, new=new, kind=linear, inputs=inputs, suffix=suffix, p=p)


def free_residuals(vc, L, d):
    """data minus model minus decorrelation terms, elementwise (without the offset)"""
    mod = L.model(d['t'])
    means = {k: vc.m.total(d['n'], lambda i, k=k: d['vecs'][k][i]) / d['n'] for k in d['names']}

    def f(i):
        r = d['y'][i] - mod[i]
        for k in d['names']:
            r = r - d['new']['c1_' + k + d['suffix']] * (d['vecs'][k][i] - means[k])
        return r
    return f


def frame(vc, L, d, sv, rows):
    for a, s in d['inputs']:
        vc.unchanged('data and errors are not modified', a, s)
    for a, b in ((L.x, d['t']), (L.y, d['y']), (L.yerr, d['s'])):
        vc.prove_eq('data and errors are not modified', a, b)
    for i in range(len(sv)):
        if i not in rows:
            for c in range(4):
                vc.prove_eq('no other parameter is modified', L.vector.vector[i][c], sv[i][c])


def vsnap(L):
    return [[L.vector.vector[i][c] for c in range(4)] for i in range(L.vector.vector.shape[0])]


@harness('C06', [R + '__init__', R + 'residuals', 'radvel.likelihood.Likelihood.__init__'])
def residuals(vc):
    L, d = build(vc)
    sv = vsnap(L)
    vals = {k: L.params[k].value for k in L.params}
    r0 = free_residuals(vc, L, d)
    m = vc.m
    out = L.residuals()
    gi = L.vector.indices[d['g']]
    if d['kind'] == 'linear':
        w = lambda i: 1 / (d['s'][i]**2 + d['new'][d['j']]**2)
        gamma = m.total(d['n'], lambda i: w(i) * r0(i)) / m.total(d['n'], w)
        vc.prove_eq('linear offset: inverse-variance weighted mean of the offset-free residuals', L.vector.vector[gi][0], gamma)
    else:
        gamma = d['new'][d['g']]
    vc.prove('number of residuals', m.eq(vc.len(out), d['n']))
    if vc.symbolic:
        i = vc.real('i', ge=0, integer=True)
        vc.assume(i < d['n'])
        vc.prove_eq('data - model - offset - decorrelation terms', out[i], r0(i) - gamma)
    else:
        for i in range(d['n']):
            vc.prove_eq('data - model - offset - decorrelation terms', out[i], r0(i) - gamma)
    frame(vc, L, d, sv, [gi] if d['kind'] == 'linear' else [])
    for k in vals:
        vc.prove_eq('parameter dictionary is not modified', L.params[k].value, vals[k])
    vc.prove_same('names', (L.gamma_param, L.jit_param, L.suffix), (d['g'], d['j'], d['suffix'].strip('_')))
    vc.prove_runs('instrument labels', L.telvec, [(d['suffix'].strip('_'), d['n'])])
    err = L.errorbars()
    vc.prove_eq('error bars: measurement error and jitter in quadrature', err,
                vc.map(lambda s: m.sqrt(s**2 + d['new'][d['j']]**2), d['s']))


@harness('C06', [R + 'logprob', 'radvel.likelihood.loglike_jitter'], z3_timeout=10000)
def logprob(vc):
    L, d = build(vc)
    sv = vsnap(L)
    r0 = free_residuals(vc, L, d)
    m = vc.m
    var = lambda i: d['s'][i]**2 + d['new'][d['j']]**2
    out = L.logprob()
    W = m.total(d['n'], lambda i: 1 / var(i))
    if d['kind'] == 'linear':
        gamma = m.total(d['n'], lambda i: r0(i) / var(i)) / W
        extra = m.log(2 * m.pi / W) / 2
    else:
        gamma, extra = d['new'][d['g']], 0
    spec = -m.total(d['n'], lambda i: (r0(i) - gamma)**2 / var(i)) / 2 - m.total(d['n'], lambda i: m.log(2 * m.pi * var(i))) / 2 + extra
    vc.prove_eq('Gaussian log-density of the residuals', out, spec)
    frame(vc, L, d, sv, [L.vector.indices[d['g']]] if d['kind'] == 'linear' else [])
    vc.prove_eq('the same value again', L.logprob(), out)


@harness('C06', ['radvel.likelihood.loglike_jitter'])
def density(vc):
    n = vc.size('n', min=0, sizes=(0, 1, 3))
    r, s = vc.arr('r', n, gen=(-5., 5.)), vc.arr('s', n, gt=0, gen=(.1, 3.))
    jit = vc.real('jit', gen=[0., (-3., 3.)])
    snap = [vc.snapshot(r), vc.snapshot(s)]
    m = vc.m
    out = radvel.likelihood.loglike_jitter(r, s, jit)
    vc.prove_eq('product of normal densities', out, m.total(n, lambda i: -r[i]**2 / (2 * (s[i]**2 + jit**2)) -
                                                           m.log(2 * m.pi * (s[i]**2 + jit**2)) / 2))
    vc.unchanged('residuals are not modified', r, snap[0])
    vc.unchanged('errors are not modified', s, snap[1])


@harness('C06', [R + 'logprob'])
def marginalised(vc):
    """lemma: with the linear offset z at the weighted mean, the density at any other offset g is the density at z times
    a normal density in g of variance 1/W up to normalisation, so that its integral over g is exp(logprob)"""
    n = vc.size('n', min=1, sizes=(1, 3))
    r, v = vc.arr('r', n, gen=(-5., 5.)), vc.arr('v', n, gt=0, gen=(.1, 3.))
    g = vc.real('g', gen=(-5., 5.))
    m = vc.m
    W = m.total(n, lambda i: 1 / v[i])
    vc.assume(W > 0)
    z = vc.real('z') if vc.symbolic else m.total(n, lambda i: r[i] / v[i]) / W
    if vc.symbolic:
        vc.assume(z * W == m.total(n, lambda i: r[i] / v[i]))
    chi = lambda x: m.total(n, lambda i: (r[i] - x)**2 / v[i])
    vc.prove_eq('completing the square', chi(g), chi(z) + W * (g - z)**2)


@harness('C06', ['radvel.likelihood.Likelihood.residuals', 'radvel.likelihood.Likelihood.__init__'])
def generic(vc):
    """the generic likelihood: copies of the data; data minus model"""
    p = params(vc, 'per tc secosw sesinw k', 1)
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    n = vc.size('n', min=0, sizes=(0, 1, 3))
    t, y = vc.arr('t', n, gen=(-10., 10.)), vc.arr('y', n, gen=(-10., 10.))
    s = vc.arr('s', n, gt=0, gen=(.1, 3.))
    L = radvel.likelihood.Likelihood(m, t, y, s, extra_params=['extra'])
    mod = m(t)
    vc.prove_eq('data minus model', L.residuals(), vc.map(lambda a: a, y) - mod)
    vc.prove_same('a new parameter has a row', ('extra' in L.params, 'extra' in L.vector.indices, L.vector is v, L.params is p), (True,) * 4)
