"""Shared pieces of the contracts."""
import radvel
import radvel.model
import radvel.likelihood

BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k', 'per tc ecosw esinw k', 'per tc e w k',
         'logper tc secosw sesinw k', 'logper tc secosw sesinw logk', 'per tc se w k', 'logper tp e w logk']

# generators (real-code evaluation) of basis parameters
GEN = {'per': [(1., 10.), (10., 5000.)], 'logper': [(0., 8.)], 'tc': [(-500., 500.)], 'tp': [(-500., 500.)],
       'e': [0., (0., .95)], 'w': [0., 1.5707963267948966, (-6., 6.)], 'k': [(.1, 100.)], 'logk': [(-2., 5.)],
       'se': [0., (0., .97)], 'secosw': [0., (-.68, .68)], 'sesinw': [0., (-.68, .68)],
       'ecosw': [0., (-.67, .67)], 'esinw': [0., (-.67, .67)], 'dvdt': [(-1., 1.)], 'curv': [(-.1, .1)]}
BOUNDS = {'per': dict(gt=0), 'e': dict(ge=0, lt=1), 'se': dict(ge=0, lt=1), 'k': dict(gt=0)}


def draw(vc, key, name=None, np=True, **kw):
    base = key.rstrip('0123456789')
    b = dict(BOUNDS.get(base, {}))
    b['gen'] = GEN.get(base, [(-5., 5.)])
    b.update(kw)
    return vc.real(name or key, np=np, **b)


def params(vc, basis, npl, extra=('dvdt', 'curv'), pre='', free=None, **kw):
    """Parameters with arbitrary values; kw: per-key overrides of the bounds"""
    p = radvel.Parameters(npl, basis=basis)
    for k in list(p.keys()) + list(extra):
        base = k.rstrip('0123456789')
        v = draw(vc, k, pre + k, **kw.get(base, {}))
        p[k] = radvel.Parameter(value=v, vary=(free is None or k in free))
    return p


def set_vector(vc, vector, pre='v_', **kw):
    """overwrite every named row by a fresh value, so that vector and dictionary disagree; returns the values"""
    out = {}
    for k in vector.params.keys():
        base = k.rstrip('0123456789')
        out[k] = draw(vc, k, pre + k, **kw.get(base, {}))
        vector.vector[vector.indices[k]][0] = out[k]
    for k in ('dvdt', 'curv'):
        if k not in out:
            out[k] = draw(vc, k, pre + k)
            vector.vector[vector.indices[k]][0] = out[k]
    return out


class StubModel(object):
    """a model that is an arbitrary function of time and of the parameter values in the vector"""
    def __init__(self, vc, params, vector, name='model'):
        self.vc, self.params, self.vector, self.name = vc, params, vector, name
        self.time_base = 0
        self.independent_of = ()

    def __call__(self, t, *a, **k):
        skip = [self.vector.indices[k] for k in self.independent_of if k in self.vector.indices]
        vals = [self.vector.vector[i][0] for i in range(self.vector.vector.shape[0]) if i not in skip]
        return self.vc.map(lambda x: self.vc.opaque(self.name, x, *vals), t)


def values(vector):
    return [vector.vector[i][0] for i in range(vector.vector.shape[0])]


class StubLikelihood(radvel.likelihood.Likelihood):
    """a real Likelihood object whose log-probability is an arbitrary function of the parameter values"""
    def logprob(self):
        return self.vc.opaque(self.like, *values(self.vector))


def stub_likelihood(vc, basis, npl, free=None, extra_params=(), vary_extra=None, like='like', n=3, trend=('dvdt', 'curv')):
    p = params(vc, basis, npl, extra=trend, free=free)
    for k in extra_params:
        p[k] = radvel.Parameter(value=draw(vc, k, k), vary=vary_extra is None or k in vary_extra)
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    m.num_planets = npl
    x = vc.arr('t', n, gen=(-10., 10.))
    y = vc.arr('y', n, gen=(-10., 10.))
    s = vc.arr('s', n, gt=0, gen=(.1, 3.))
    L = StubLikelihood(m, x, y, s)
    L.vc, L.like = vc, like
    return L


def stub_posterior(vc, *a, **k):
    import radvel.posterior
    return radvel.posterior.Posterior(stub_likelihood(vc, *a, **k))


# ---- orbital bases -----------------------------------------------------------------------------------------------
def stub_times(vc):
    """contract of the conversions between conjunction and periastron (verified under C02): mutually inverse for fixed
    period, eccentricity and periastron angle, periodic in the angle, the identity for e >= 1, elementwise on arrays"""
    import pandas
    import radvel.basis
    import radvel.utils
    if not vc.symbolic:
        return radvel.orbit.timetrans_to_timeperi, radvel.orbit.timeperi_to_timetrans

    def mk(name, other):
        def f(t, per, e, w, secondary=False):
            assert not secondary
            if any(isinstance(a, (pandas.Series, numpy.ndarray)) for a in (t, per, e, w)):
                n = max(len(a) for a in (t, per, e, w) if hasattr(a, '__len__'))
                idx = [a.index for a in (t, per, e, w) if isinstance(a, pandas.Series)]
                col = [list(a) if hasattr(a, '__len__') else [a] * n for a in (t, per, e, w)]
                v = [f(*row) for row in zip(*col)]
                return pandas.Series(v, index=idx[0], dtype=object) if idx else numpy.array(v, dtype=object)
            for (t0, per0, e0, w0, r) in memo[other]:
                if vc.same(r, t) and vc.same(per0, per) and vc.same(e0, e) and \
                        vc.same(vc.m.cos(w0), vc.m.cos(w)) and vc.same(vc.m.sin(w0), vc.m.sin(w)):
                    return t0
            r = vc.opaque(name, t, per, e, vc.m.cos(w), vc.m.sin(w))
            memo[name].append((t, per, e, w, r))
            return r
        return f
    import numpy
    memo = {'tp_of_tc': [], 'tc_of_tp': []}
    a, b = mk('tp_of_tc', 'tc_of_tp'), mk('tc_of_tp', 'tp_of_tc')
    vc.contract(radvel.orbit.timetrans_to_timeperi, a)
    vc.contract(radvel.orbit.timeperi_to_timetrans, b)
    return a, b


def synth(vc, basis, get, tp_of):
    """what a basis says about one orbit: period, periastron time, eccentricity, periastron angle, amplitude"""
    m = vc.m
    names = basis.split()
    per = m.exp(get('logper')) if 'logper' in names else get('per')
    k = m.exp(get('logk')) if 'logk' in names else get('k')
    if 'secosw' in names:
        a, b = get('secosw'), get('sesinw')
        e, w = a**2 + b**2, m.atan2(b, a)
    elif 'ecosw' in names:
        a, b = get('ecosw'), get('esinw')
        e, w = m.sqrt(a**2 + b**2), m.atan2(b, a)
    elif 'se' in names:
        e, w = get('se')**2, get('w')
    else:
        e, w = get('e'), get('w')
    tp = get('tp') if 'tp' in names else tp_of(get('tc'), per, e, w)
    return {'per': per, 'tp': tp, 'e': e, 'w': w, 'k': k}


def in_basis(vc, basis, s, tc_of):
    """the parameters of a basis for the orbit s"""
    m = vc.m
    out = dict(s)
    out.update({'logper': m.log(s['per']), 'logk': m.log(s['k']), 'se': m.sqrt(s['e']),
                'secosw': m.sqrt(s['e']) * m.cos(s['w']), 'sesinw': m.sqrt(s['e']) * m.sin(s['w']),
                'ecosw': s['e'] * m.cos(s['w']), 'esinw': s['e'] * m.sin(s['w'])})
    if 'tc' in basis.split():
        out['tc'] = tc_of(s['tp'], s['per'], s['e'], s['w'])
    return {n: out[n] for n in basis.split()}
