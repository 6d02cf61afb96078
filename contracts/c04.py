"""C04: the parameter dictionary and the parameter vector describe the same parameters."""
from pyvc.api import harness
from common import BASES, draw, StubModel, values
import radvel
import radvel.model
import radvel.likelihood
import radvel.posterior

V = 'radvel.model.Vector.'
L = 'radvel.likelihood.Likelihood.'
EXTRA = [(), ('gamma_j', 'jit_j'), ('jit_k', 'gamma_k', 'gp_amp', 'gp_per', 'gamma_j', 'jit_j', 'logjit_x'),
         ('my_param', 'gamma_j', 'other', 'jit_j')]
PATTERN = ['all', 'none', 'even', 'odd', 'first', 'last', 'extras']


def varies(pattern, i, n, key):
    return {'all': True, 'none': False, 'even': i % 2 == 0, 'odd': i % 2 == 1, 'first': i == 0, 'last': i == n - 1,
            'extras': not key[-1:].isdigit()}[pattern]


def build(vc, nmax=3):
    """an arbitrary dictionary: values, steps and flags of every parameter"""
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', list(range(1, nmax + 1)))
    trend = vc.choice('trend', [(), ('dvdt',), ('curv',), ('curv', 'dvdt')])
    extra = vc.choice('extra', EXTRA)
    first = vc.choice('trend before instruments', [True, False])
    pattern = vc.choice('vary', PATTERN)
    p = radvel.Parameters(npl, basis=basis)
    keys = list(p.keys()) + (list(trend) + list(extra) if first else list(extra) + list(trend))
    spec = {}
    for i, k in enumerate(keys):
        val = draw(vc, k)
        step = vc.real('step ' + k, gt=0, gen=[(.01, 3.)]) if i % 3 == 0 else None
        spec[k] = (val, varies(pattern, i, len(keys), k), step, k.startswith('gamma') and pattern != 'all')
        p[k] = radvel.Parameter(value=val, vary=spec[k][1], mcmcscale=step, linear=spec[k][3])
    return p, spec, npl


@harness('C04', [V + '__init__', V + 'init_index_dict', V + 'dict_to_vector', V + 'vector_names', V + 'vector_to_dict'], runs=600, max_paths=20000)
def rows(vc):
    p, spec, npl = build(vc)
    v = radvel.model.Vector(p)
    idx = [v.indices[k] for k in spec]
    vc.prove_same('rows are distinct', len(set(idx)), len(spec))
    vc.prove_same('names of rows are the dictionary keys', sorted(set(v.names) - {'dvdt', 'curv'}), sorted(set(spec) - {'dvdt', 'curv'}))
    vc.prove_same('both trend rows exist', {'dvdt', 'curv'} <= set(v.names), True)
    vc.prove_same('row number i is called names[i]', [v.indices[k] for k in v.names], list(range(len(v.names))))
    vc.prove_same('one row per name', v.vector.shape, (len(v.names), 4))
    for k, (val, vary, step, lin) in spec.items():
        r = v.vector[v.indices[k]]
        vc.prove_eq('value', r[0], val)
        vc.prove_eq('vary flag', r[1], 1. * vary)
        vc.prove_eq('step', r[2], 0. if step is None else step)
        vc.prove_eq('linear flag', r[3], 1. * lin)
    for k in ('dvdt', 'curv'):
        if k not in spec:
            for c in range(4):
                vc.prove_eq('an absent trend term is zero and fixed', v.vector[v.indices[k]][c], 0.)
    # writing the vector back
    new = {}
    for k in spec:
        new[k] = draw(vc, k, 'new ' + k)
        v.vector[v.indices[k]][0] = new[k]
    v.vector_to_dict()
    vc.prove_same('same keys', list(p.keys()), list(spec))
    for k in spec:
        vc.prove_eq('vector reproduced in the dictionary', p[k].value, new[k])
        vc.prove_same('flags kept', (p[k].vary, p[k].linear, p[k].mcmcscale is None), (spec[k][1], spec[k][3], spec[k][2] is None))
    s = vc.snapshot(v.vector)
    v.dict_to_vector()
    vc.unchanged('round trip', v.vector, s)


@harness('C04', [L + '__init__', L + 'set_vary_params', L + 'get_vary_params', L + 'list_vary_params', L + 'name_vary_params',
                 'radvel.posterior.Posterior.__init__'], runs=600, max_paths=20000)
def free_parameters(vc):
    import numpy as np
    basis = vc.choice('basis', ['per tc secosw sesinw logk', 'per tp e w k'])
    npl = vc.choice('planets', [1, 2])
    pattern = vc.choice('vary', PATTERN)
    when = vc.choice('instrument parameters set', ['before the model', 'before the likelihood', 'after the likelihood', 'not'])
    decorr = vc.flag('decorrelation')
    custom = vc.flag('user-defined parameter')
    post = vc.flag('posterior')
    p = radvel.Parameters(npl, basis=basis)
    inst = ['gamma_j', 'jit_j', 'gamma_k', 'jit_k'] + (['c1_x_j', 'c1_y_j'] if decorr else [])
    keys = list(p.keys()) + ['curv'] + (['my_param'] if custom else [])
    n = len(keys) + len(inst)
    spec = {}

    def give(ks):
        for k in ks:
            i = len(spec)
            spec[k] = (draw(vc, k), varies(pattern, i, n, k))
            p[k] = radvel.Parameter(value=spec[k][0], vary=spec[k][1])
    give(keys)
    if when == 'before the model':
        give(inst)
    v = radvel.model.Vector(p)
    m = StubModel(vc, p, v)
    if when == 'before the likelihood':
        give(inst)
    t = vc.arr('t', 2)
    for i in ('_j', '_k'):
        like = radvel.likelihood.Likelihood(m, t, t, t, extra_params=['gamma' + i, 'jit' + i],
                                            decorr_params=['c1_x_j', 'c1_y_j'] if decorr and i == '_j' else [])
    if when == 'after the likelihood':
        give(inst)
        if not post:
            v.dict_to_vector()
    elif post and vc.flag('changed in the dictionary'):
        k = list(spec)[0]
        p[k].value = draw(vc, 'new ' + k)
        p[k].vary = not spec[k][1]
        spec[k] = (p[k].value, p[k].vary)
    if when == 'not':
        for k in inst:
            spec[k] = (0., True)
    obj = radvel.posterior.Posterior(like) if post else like
    vc.prove_same('names are the keys', sorted(set(v.names) - {'dvdt'}), sorted(spec))
    vc.prove_same('row number i is called names[i]', [v.indices[k] for k in v.names], list(range(len(v.names))))
    for k in spec:
        vc.prove_eq('value in the vector', v.vector[v.indices[k]][0], spec[k][0])
        vc.prove_eq('flag in the vector', v.vector[v.indices[k]][1], 1. * spec[k][1])
    free = [k for k in v.names if k in spec and spec[k][1]]
    if vc.flag('values first'):
        vc.prove_eq('their values', obj.get_vary_params(), np.array([spec[k][0] for k in free]))
    vc.prove_same('reported free parameters', obj.name_vary_params(), free)
    vc.prove_eq('their values', obj.get_vary_params(), np.array([spec[k][0] for k in free]))
    a = vc.arr('a', len(free), gen=(-4., 4.))
    fast = vc.flag('fast')
    obj.set_vary_params(a, fast=fast)
    for k in spec:
        x = a[free.index(k)] if spec[k][1] else spec[k][0]
        vc.prove_eq('exactly the free parameters change, each to its own element', v.vector[v.indices[k]][0], x)
        vc.prove_eq('flags stay', v.vector[v.indices[k]][1], 1. * spec[k][1])
        if not fast:
            vc.prove_eq('in the dictionary too', p[k].value, x)
    vc.prove_eq('read back', obj.get_vary_params(), a)
    if free:
        vc.raises('an array of the wrong length is refused', (AssertionError, IndexError), lambda: obj.set_vary_params(a[:-1]))


@harness('C04', [L + 'set_vary_params', L + 'list_vary_params'])
def changed_flags(vc):
    """fixing a parameter later: the next array sets exactly the parameters that are free now"""
    p = radvel.Parameters(1, basis='per tc e w k')
    for k in list(p.keys()):
        p[k] = radvel.Parameter(value=draw(vc, k), vary=True)
    v = radvel.model.Vector(p)
    like = radvel.likelihood.Likelihood(StubModel(vc, p, v), vc.arr('t', 2), vc.arr('y', 2), vc.arr('s', 2))
    obj = radvel.posterior.Posterior(like) if vc.flag('posterior') else like
    obj.get_vary_params()
    off = vc.choice('fixed', list(p.keys()))
    p[off].vary = False
    v.dict_to_vector()
    before = dict(zip(v.names, values(v)))
    a = vc.arr('a', 4, gen=(-4., 4.))
    obj.set_vary_params(a)
    i = 0
    for k in v.names:
        if k in p and k != off:
            vc.prove_eq('free', v.vector[v.indices[k]][0], a[i])
            i += 1
        else:
            vc.prove_eq('fixed', v.vector[v.indices[k]][0], before[k])
    vc.prove_same('names', obj.name_vary_params(), [k for k in v.names if k in p and k != off])


@harness('C04', ['radvel.model.GeneralRVModel.array_to_params', 'radvel.model.GeneralRVModel.list_vary_params',
                 'radvel.model.GeneralRVModel.list_params'])
def model_array(vc):
    basis = vc.choice('basis', BASES)
    p = radvel.Parameters(2, basis=basis)
    pattern = vc.choice('vary', PATTERN)
    spec = {}
    keys = list(p.keys()) + ['dvdt', 'jit_j']
    for i, k in enumerate(keys):
        spec[k] = (draw(vc, k), varies(pattern, i, len(keys), k))
        p[k] = radvel.Parameter(value=spec[k][0], vary=spec[k][1])
    m = radvel.model.RVModel(p)
    free = m.list_vary_params()
    vc.prove_same('free parameters', free, [k for k in keys if spec[k][1]])
    a = vc.arr('a', len(free), gen=(-4., 4.))
    q = m.array_to_params(a)
    for k in keys:
        x = a[free.index(k)] if k in free else spec[k][0]
        vc.prove_eq('dictionary', q[k].value, x)
        vc.prove_same('flag', q[k].vary, spec[k][1])
        vc.prove_eq('vector', m.vector.vector[m.vector.indices[k]][0], x)


@harness('C04', ['radvel.model.Parameters.__init__', 'radvel.model.Parameters.__reduce__', 'radvel.model.Parameter.__init__', 'radvel.model.Parameter.__float__'],
         runs=200, max_paths=20000)
def copies(vc):
    """a copied (or saved and loaded) set of parameters has the same entries in the same order, and a deep one is independent"""
    import copy
    import pickle
    p, spec, npl = build(vc, 2)
    p.planet_letters = vc.choice('letters', [None, {1: 'd', 2: 'b'}])
    blank = radvel.Parameters(npl, basis=p.basis.name)
    vc.prove_same('an empty set has the parameters of the basis', list(blank.keys()),
                  ['%s%d' % (k, i) for i in range(1, npl + 1) for k in p.basis.name.split()])
    vc.prove_same('planets and letters of an empty set', (blank.num_planets, blank.planet_letters, blank.basis.name, blank.basis.num_planets),
                  (npl, None, p.basis.name, npl))
    fresh = radvel.Parameter()
    vc.prove_same('an empty parameter', (fresh.value, fresh.vary, fresh.mcmcscale, fresh.linear), (None, True, None, False))
    how = vc.choice('how', ['deepcopy', 'copy'] + ([] if vc.symbolic else ['pickle']))
    q = copy.deepcopy(p) if how == 'deepcopy' else copy.copy(p) if how == 'copy' else pickle.loads(pickle.dumps(p))
    vc.prove_same('kind', type(q) is type(p), True)
    vc.prove_same('same keys', list(q.keys()), list(p.keys()))
    vc.prove_same('same planets', (q.num_planets, q.planet_letters, q.basis.name, q.basis.num_planets, list(q.planet_parameters)),
                  (npl, p.planet_letters, p.basis.name, npl, p.basis.name.split()))
    for k, (val, vary, step, lin) in spec.items():
        vc.prove_eq('value', q[k].value, val)
        vc.prove_eq('as a number', q[k].value if vc.symbolic else float(q[k]), val)
        vc.prove_same('flags', (q[k].vary, q[k].linear, q[k].mcmcscale is None), (vary, lin, step is None))
        if step is not None:
            vc.prove_eq('step', q[k].mcmcscale, step)
    if how != 'copy':
        for k in spec:
            q[k].value = draw(vc, k, 'new ' + k)
            q[k].vary = not q[k].vary
        for k, (val, vary, step, lin) in spec.items():
            vc.prove_eq('the original is left alone', p[k].value, val)
            vc.prove_same('flags of the original', (p[k].vary, p[k].linear), (vary, lin))
