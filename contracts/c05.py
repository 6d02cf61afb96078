"""C05: the RV model is the sum of its planets plus the trend."""
from pyvc.api import harness
from common import BASES, draw, params, set_vector, stub_times, synth
import radvel
import radvel.model
import radvel.kepler
import radvel.basis
import numpy as np

M = 'radvel.model.'


def stub_curve(vc):
    """contract of the velocity curve (C01): some elementwise function of the time and the five orbital elements"""
    if not vc.symbolic:
        return radvel.kepler.rv_drive

    def f(t, orbel, use_c_kepler_solver=True):
        per, tp, e, w, k = orbel
        return vc.map(lambda x: vc.opaque('rv_drive', x, per, tp, e, w, k), t)
    vc.contract(radvel.kepler.rv_drive, f)
    return f


def valid(vc, basis, npl, vals):
    for i in range(1, npl + 1):
        for a, b in (('secosw', 'sesinw'), ('ecosw', 'esinw')):
            if a in basis.split():
                e2 = vals['%s%d' % (a, i)]**2 + vals['%s%d' % (b, i)]**2
                vc.assume(vc.m.and_(e2 > 0, e2 < 1))


def state(p, v):
    return ([(k, p[k].vary, p[k].mcmcscale, p[k].linear, id(p[k])) for k in p], p.basis.name, p.num_planets,
            list(v.names), sorted(v.indices.items()))


@harness('C05', [M + 'RVModel.__init__', M + 'GeneralRVModel.__call__', M + '_standard_rv_calc'])
def sum_of_planets(vc):
    basis, npl = vc.choice('basis', BASES), vc.choice('planets', [1, 2, 3])
    tp_of, _ = stub_times(vc)
    curve = stub_curve(vc)
    trend = vc.choice('trend', [('dvdt', 'curv'), ('dvdt',), ('curv',), ()])
    anyk = dict(k=dict(gt=None, gen=[(-100., 100.)]))
    p = params(vc, basis, npl, extra=trend + ('gamma_j', 'jit_j'), pre='p_', **anyk)
    given = npl > 1 or vc.flag('time base given')
    tb = vc.real('time_base', gen=(-20., 20.)) if given else 0
    model = radvel.RVModel(p, time_base=tb) if given else radvel.RVModel(p)
    vc.prove_same('number of planets', model.num_planets, npl)
    vc.prove_eq('time base', model.time_base, tb)
    vals = {k: p[k].value for k in p}
    dvals = dict(vals)
    n = vc.size('n', min=1, sizes=(1, 3))
    t = vc.arr('t', n, gen=(-50., 50.))
    if vc.flag('vector differs from the dictionary'):
        if vc.flag('evaluated before'):
            valid(vc, basis, npl, vals)
            model(t)
        vals = set_vector(vc, model.vector, **anyk)
    valid(vc, basis, npl, vals)
    st, sv, ss = vc.snapshot(t), vc.snapshot(model.vector.vector), state(p, model.vector)
    which = vc.choice('which', [None] + list(range(1, npl + 1)))
    out = model(t) if which is None else model(t, planet_num=which)
    vc.prove('number of velocities', vc.m.eq(vc.len(out), n))
    chosen = range(1, npl + 1) if which is None else [which]
    orbits = [synth(vc, basis, lambda k: vals['%s%d' % (k, i)], tp_of) for i in chosen]
    dvdt, curv = vals.get('dvdt', 0), vals.get('curv', 0)

    def spec(x):
        s = dvdt * (x - tb) + curv * (x - tb)**2
        for o in orbits:
            if vc.symbolic:
                s = s + vc.opaque('rv_drive', x, o['per'], o['tp'], o['e'], o['w'], o['k'])
            else:
                s = s + curve(np.array([x]), [o['per'], o['tp'], o['e'], o['w'], o['k']])[0]
        return s
    vc.prove_eq('planets plus trend', out, vc.map(spec, t), scale=200)
    vc.unchanged('times are not modified', t, st)
    vc.unchanged('vector is not modified', model.vector.vector, sv)
    for k in dvals:
        vc.prove_eq('parameters are not modified', p[k].value, dvals[k])
    vc.prove_same('parameters are not modified', state(p, model.vector), ss)
    again = model(t) if which is None else model(t, planet_num=which)
    vc.prove_eq('evaluating again gives the same', again, out)


@harness('C05', [M + 'GeneralRVModel.__call__', M + 'GeneralRVModel.__init__'])
def general_model(vc):
    """any forward model: its velocities plus the trend; further arguments are passed on"""
    p = radvel.Parameters(vc.choice('planets', [1, 2]), basis=vc.choice('basis', BASES[:2]))
    for k in list(p) + ['mine', 'dvdt', 'curv']:
        p[k] = radvel.Parameter(value=draw(vc, k))
    given = vc.flag('time base given')
    tb = vc.real('time_base', gen=(-20., 20.)) if given else 0
    vals = {}
    calls = []

    def forward(t, par, vec, *a, **k):
        calls.append((par is p, vec is model.vector, a, k))
        now = [v[0] for v in vec.vector]
        return vc.map(lambda x: vc.opaque('forward', x, *now), t)
    model = radvel.GeneralRVModel(p, forward, tb) if given else radvel.GeneralRVModel(p, forward)
    new = set_vector(vc, model.vector)
    n = vc.size('n', min=1, sizes=(1, 3))
    t = vc.arr('t', n, gen=(-50., 50.))
    st = vc.snapshot(t)
    row = [v[0] for v in model.vector.vector]
    out = model(t, 'extra', other=3)
    vc.prove_same('arguments', calls, [(True, True, ('extra',), {'other': 3})])
    vc.prove_eq('forward model plus trend', out, vc.map(lambda x: vc.opaque('forward', x, *row) + new['dvdt'] * (x - tb) +
                                                        new['curv'] * (x - tb)**2, t), scale=200)
    vc.unchanged('times are not modified', t, st)
    vc.prove_eq('value of a user-defined parameter reaches the model', model.vector.vector[model.vector.indices['mine']][0], new['mine'])


@harness('C05', [M + 'GeneralRVModel.array_to_params', M + 'GeneralRVModel.list_vary_params'])
def array_to_params(vc):
    """the array form sets the free parameters, in order, in dictionary and vector"""
    basis, npl = vc.choice('basis', BASES[:2]), vc.choice('planets', [1, 2])
    free = vc.choice('free', [('tc1', 'tp1', 'e1', 'sesinw1'), ('per1', 'logk2', 'k2', 'gamma_j', 'curv'), ()])
    p = params(vc, basis, npl, extra=('gamma_j', 'jit_j', 'dvdt', 'curv'), free=free)
    old = {k: p[k].value for k in p}
    model = radvel.RVModel(p)
    names = model.list_vary_params()
    vc.prove_same('free parameters', names, [k for k in p if k in free])
    new = [draw(vc, k, 'new_' + k) for k in names]
    out = model.array_to_params(new)
    vc.prove_same('the same parameters object', out is model.params, True)
    for k in p:
        want = new[names.index(k)] if k in names else old[k]
        vc.prove_eq('value', p[k].value, want)
        vc.prove_eq('value in the vector', model.vector.vector[model.vector.indices[k]][0], want)


@harness('C05', ['radvel.utils.draw_models_from_chain'], note='chains of three samples')
def models_from_chain(vc):
    """every model drawn from a chain is the model of one of the chain's samples, whatever the chain's row labels"""
    import pandas as pd
    import radvel.utils
    basis, npl = 'per tc secosw sesinw k', vc.choice('planets', [1, 2])
    free = vc.choice('free', [('tc1', 'k1', 'sesinw2'), ('gamma_j', 'secosw1', 'dvdt')])
    p = params(vc, basis, npl, extra=('gamma_j', 'jit_j', 'dvdt', 'curv'), free=free)

    def forward(t, par, vec):
        row = [v[0] for v in vec.vector]
        return vc.map(lambda x: vc.opaque('forward', x, *row), t)
    model = radvel.GeneralRVModel(p, forward, 0)
    names = [k for k in p if k in free]
    cols = vc.choice('columns', [names, ['lnprobability'] + names[::-1]])
    rows = [{k: draw(vc, k, '%s[%d]' % (k, j)) for k in cols} for j in range(3)]
    labels = vc.choice('labels', [[0, 1, 2], [7, 7, 1]])
    chain = pd.DataFrame({k: pd.Series([r[k] for r in rows], index=labels, dtype=object if vc.symbolic else float) for k in cols})
    n = vc.size('n', min=1, sizes=(1, 3))
    t = vc.arr('t', n, gen=(-50., 50.))
    base = [v[0] for v in model.vector.vector]
    dvdt, curv = p['dvdt'].value, p['curv'].value
    out = radvel.utils.draw_models_from_chain(model, chain, t, nsamples=4)
    vc.prove_same('number of models', len(out), 4)
    want = []
    for r in rows:
        row = list(base)
        for k in names:
            row[model.vector.indices[k]] = r[k]
        a, b = (r['dvdt'] if 'dvdt' in names else dvdt), (r['curv'] if 'curv' in names else curv)
        want.append((row, a, b))
    for j in range(4):
        alts = []
        for (row, a, b) in want:
            ref = vc.map(lambda x, row=row, a=a, b=b: vc.opaque('forward', x, *row) + a * x + b * x**2, t)
            alts.append(vc.m.forall(n, lambda q, ref=ref: vc.m.abs(out[j][q] - ref[q]) <= (0 if vc.symbolic else 1e-7)))
        vc.prove('a model of one of the samples', vc.m.or_(*alts))
