"""C18: fit state survives being saved and reloaded."""
import builtins
import copy
import os
import shutil
import sys
import tempfile
import types
import numpy as np
from pyvc.api import harness
from common import params, stub_posterior, stub_likelihood, values, set_vector
import radvel
import radvel.driver
import radvel.likelihood
import radvel.posterior
import radvel.nested_sampling
import radvel.report

D = 'radvel.driver.'
N = 'radvel.nested_sampling.'
P = 'radvel.posterior.'


class Disk(object):
    """ghost file system: contents by path"""
    def __init__(self):
        self.files = {}

    def open(self, name, mode='r'):
        return Handle(self, name, mode)


class Handle(object):
    def __init__(self, disk, name, mode):
        self.disk, self.name, self.mode = disk, name, mode
        if 'w' in mode:
            disk.files[name] = None
        elif name not in disk.files:
            raise FileNotFoundError(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Store(object):
    """contract of configparser.RawConfigParser: a map (section, option) -> text, options without regard to case;
    the part of it that was in the file before is arbitrary (`base`: has_section answers what the harness chose)"""
    def __init__(self, disk, present):
        self.disk, self.present = disk, present
        self.base, self.changes, self.made = None, {}, set()

    def read(self, name):
        if name not in self.disk.files:
            return []
        self.base, ch, made = self.disk.files[name]
        self.changes, self.made = dict(ch), set(made)
        return [name]

    def has_section(self, s):
        return s in self.made or (self.base is not None and s in self.present)

    def add_section(self, s):
        if self.has_section(s):
            raise ValueError('duplicate section')
        self.made.add(s)

    def set(self, s, k, v=None):
        if not self.has_section(s):
            raise KeyError(s)
        self.changes[s, k.lower()] = v

    def write(self, f):
        self.disk.files[f.name] = (self.base, self.changes, self.made)


@harness('C18', [D + 'save_status', D + 'load_status'])
def update(vc):
    """one update of a status file with arbitrary other content, under the contract of the parser"""
    if not vc.symbolic:
        vc.skip()
    disk = Disk()
    present = vc.choice('sections in the file', [(), ('fit',), ('mcmc',), ('fit', 'mcmc', 'ns')])
    exists = vc.flag('file exists')
    if exists:
        disk.files['a.stat'] = ('what was there before', {('fit', 'run'): 'earlier'} if 'fit' in present else {}, set())
    vc.patch(radvel.driver, 'configparser', types.SimpleNamespace(RawConfigParser=lambda *a, **k: Store(disk, present)))
    vc.patch(radvel.driver, 'open', disk.open)
    vc.patch(os.path, 'isfile', lambda f: f in disk.files)
    vc.patch(os.path, 'exists', lambda f: f in disk.files)
    section = vc.choice('section', ['fit', 'mcmc'])
    keys = vc.choice('keys', [(), ('run',), ('run', 'minTz', 'postfile')])
    vals = {k: vc.real('value of ' + k) for k in keys}
    radvel.driver.save_status('a.stat', section, dict(vals))
    base, changes, made = disk.files['a.stat']
    vc.prove_same('what was in the file is still there', base, 'what was there before' if exists else None)
    want = {('fit', 'run'): 'earlier'} if exists and 'fit' in present else {}
    want.update({(section, k.lower()): v for k, v in vals.items()})
    vc.prove_same('exactly the given options change', sorted(changes), sorted(want))
    for k in want:
        vc.prove('value', changes[k] is want[k])
    new = section not in present or not exists
    vc.prove_same('only the given section is added, when it is missing', made, {section} if new else set())
    s = radvel.driver.load_status('a.stat')
    vc.prove('reading the file gives its content', (s.base, s.changes, s.made) == (base, changes, made))


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c18_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


@harness('C18', [D + 'save_status', D + 'load_status'], modes=(), runs=120)
def histories(vc):
    """random sequences of updates on disk against a reference map"""
    with Scratch() as d:
        f = os.path.join(d, 'a.stat')
        vc.prove_same('no file, no status', radvel.driver.load_status(f).sections(), [])
        ref = {}
        for i in range(vc.choice('updates', [1, 2, 5, 9])):
            s = vc.choice('section %d' % i, ['fit', 'mcmc', 'ns', 'plot', 'ic_compare', 'derive'])
            new = {}
            for j in range(vc.choice('options %d' % i, [0, 1, 3])):
                k = vc.choice('option %d %d' % (i, j), ['run', 'postfile', 'minTz', 'maxGR', 'nburn', 'rv_plot', 'ic'])
                new[k] = vc.choice('value %d %d' % (i, j),
                                   [True, False, 3, 1e-7, float('inf'), 'a/b c.pkl', "[{'AICc': (1.0, '2 3')}]", 'x=%y', 'é'])
            radvel.driver.save_status(f, s, new)
            ref.setdefault(s, {}).update({k.lower(): str(v) for k, v in new.items()})
            st = radvel.driver.load_status(f)
            vc.prove_same('all sections', sorted(st.sections()), sorted(ref))
            for s in ref:
                vc.prove_same('options of a section', dict(st.items(s)), ref[s])


@harness('C18', [D + '_pick_sampler'])
def plan(vc):
    import configparser
    cfg = configparser.RawConfigParser()
    run = {}
    for s in vc.choice('order of the runs', [('mcmc', 'ns'), ('ns', 'mcmc')]):
        v = vc.choice('status of ' + s, [None, 'True', 'False'])
        run[s] = v == 'True'
        if v is not None:
            cfg.add_section(s)
            cfg.set(s, 'run', v)
    if vc.flag('fitted afterwards'):
        cfg.add_section('fit')
        cfg.set('fit', 'run', 'True')
    ask = vc.choice('asked for', ['auto', 'mcmc', 'ns', 'emcee'])
    args = types.SimpleNamespace(sampler=ask)
    pick = lambda: radvel.driver._pick_sampler(args, cfg)
    if not run['mcmc'] and not run['ns']:
        vc.raises('refused: nothing was sampled', AssertionError, pick)
    elif ask == 'auto':
        vc.prove_same('the completed run, MCMC first', pick(), 'mcmc' if run['mcmc'] else 'ns')
    elif ask in run and run[ask]:
        vc.prove_same('the run asked for', pick(), ask)
    else:
        vc.raises('refused: that run is not recorded as completed', ValueError, pick)


# ---- posteriors on disk --------------------------------------------------------------------------------------------
@harness('C18', [P + 'Posterior.writeto', P + 'load'])
def roundtrip(vc):
    """under the contract of pickle (an equal object is read back)"""
    if not vc.symbolic:
        vc.skip()
    disk = Disk()

    def dump(obj, f, *a, **k):
        vc.prove('binary file', 'b' in f.mode and 'w' in f.mode)
        disk.files[f.name] = copy.deepcopy(obj)

    def load(f, *a, **k):
        vc.prove('binary file', 'b' in f.mode)
        return copy.deepcopy(disk.files[f.name])
    vc.patch(radvel.posterior, 'pickle', types.SimpleNamespace(dump=dump, load=load))
    vc.patch(radvel.posterior, 'open', disk.open)
    npl = vc.choice('planets', [1, 2])
    post = stub_posterior(vc, 'per tc secosw sesinw logk', npl, free=['per1', 'logk1', 'curv'], extra_params=['jit_a'])
    post.priors = [radvel.prior.Gaussian('per1', vc.real('mu'), vc.real('sigma', gt=0)),
                   radvel.prior.Jeffreys('jit_a', vc.real('lo', gt=0), vc.real('hi', gt=1)), radvel.prior.EccentricityPrior(npl)]
    want = post.logprob()
    vals = {k: (p.value, p.vary) for k, p in post.params.items()}
    vec = values(post.vector)
    post.writeto('p.pkl')
    got = radvel.posterior.load('p.pkl')
    vc.prove('a new object', got is not post)
    vc.prove_eq('log-posterior', got.logprob(), want)
    vc.prove_same('parameters', list(got.params.keys()), list(vals))
    for k, (v, fr) in vals.items():
        vc.prove_eq('value', got.params[k].value, v)
        vc.prove_same('free or fixed', got.params[k].vary, fr)
    for a, b in zip(values(got.vector), vec):
        vc.prove_eq('vector', a, b)
    vc.prove_same('priors', [type(p).__name__ for p in got.priors], [type(p).__name__ for p in post.priors])
    for a in ('x', 'y', 'yerr'):
        vc.prove_eq('data', getattr(got.likelihood, a), getattr(post.likelihood, a))
    vc.prove_eq('the posterior itself is left alone', post.logprob(), want)


def real_posterior(vc):
    """posteriors of every kind the library makes"""
    rng = np.random.RandomState(vc.choice('seed', list(range(50))))
    kind = vc.choice('kind', ['rv', 'two telescopes', 'gp', 'two gps', 'decorrelation', 'celerite'])
    npl = vc.choice('planets', [1, 2])
    basis = vc.choice('basis', ['per tc secosw sesinw logk', 'per tp e w k', 'per tc se w k'])
    p = radvel.Parameters(npl, basis=basis)
    for k in p.keys():
        p[k] = radvel.Parameter(value=.1 + .3 * rng.rand() + (5. if k.startswith('per') else 0.), vary=bool(rng.rand() < .7))
    p['dvdt'] = radvel.Parameter(value=rng.randn() * .01, vary=bool(rng.rand() < .5))
    p['curv'] = radvel.Parameter(value=rng.randn() * .001, vary=False)
    tels = ['a', 'b'] if kind in ('two telescopes', 'two gps') else ['a']
    for t in tels:
        p['gamma_' + t] = radvel.Parameter(value=rng.randn(), linear=bool(rng.rand() < .5), vary=True)
        p['jit_' + t] = radvel.Parameter(value=rng.rand(), vary=bool(rng.rand() < .5))
    hn = None
    if 'gp' in kind:
        hn = ['gp_amp', 'gp_explength', 'gp_per', 'gp_perlength']
    if kind == 'celerite':
        hn = ['gp_B', 'gp_C', 'gp_L', 'gp_Prot']
    for h in hn or []:
        p[h] = radvel.Parameter(value=.5 + rng.rand())
    mod = radvel.RVModel(p, time_base=3.)
    n = vc.choice('n', [6, 15])
    likes = []
    for t in tels:
        x, y, s = np.sort(rng.rand(n) * 30), rng.randn(n), .5 + rng.rand(n)
        kw = {}
        if kind == 'decorrelation':
            p['c1_var_a'] = radvel.Parameter(value=rng.randn())
            kw = dict(decorr_vars=['var'], decorr_vectors={'var': rng.randn(n)})
        if hn:
            cls = radvel.likelihood.CeleriteLikelihood if kind == 'celerite' else radvel.likelihood.GPLikelihood
            kn = {} if kind == 'celerite' else {'kernel_name': 'QuasiPer'}
            likes.append(cls(mod, x, y, s, hn, suffix='_' + t, **kn))
        else:
            likes.append(radvel.likelihood.RVLikelihood(mod, x, y, s, suffix='_' + t, **kw))
        for pre in ('gamma_', 'jit_'):
            likes[-1].params[pre + t] = p[pre + t]
    like = likes[0] if len(likes) == 1 else radvel.likelihood.CompositeLikelihood(likes)
    post = radvel.posterior.Posterior(like)
    keys = list(p.keys())
    post.priors = [radvel.prior.EccentricityPrior(npl), radvel.prior.Gaussian(keys[0], 5., 1.),
                   radvel.prior.HardBounds(keys[4], -50., 50.), radvel.prior.Jeffreys('jit_a', 1e-5, 10.)]
    if vc.flag('more priors'):
        post.priors += [radvel.prior.PositiveKPrior(npl), radvel.prior.NumericalPrior([keys[1]], rng.randn(200)),
                        radvel.prior.ModifiedJeffreys(keys[0], 1., 99., 0.)]
    return post, rng, kind


@harness('C18', [P + 'Posterior.writeto', P + 'load'], modes=(), runs=80)
def roundtrip_on_disk(vc):
    post, rng, kind = real_posterior(vc)
    if kind == 'celerite' and sys.modules.get('celerite') is None and not radvel.likelihood._has_celerite:
        vc.skip()
    x0 = post.get_vary_params()
    post.uparams, post.medparams = {'per1': .5}, {'per1': 3.}
    if vc.flag('evaluated before'):
        post.logprob_array(x0 + .01 * rng.randn(len(x0)))
    with Scratch() as d:
        f = os.path.join(d, 'p.pkl')
        if vc.flag('an older file is there'):
            open(f, 'w').write('x' * 200000)
        post.writeto(f)
        got = radvel.posterior.load(f)
    vc.prove_same('free parameters', got.name_vary_params(), post.name_vary_params())
    vc.prove('values of the free parameters', bool(np.array_equal(got.get_vary_params(), post.get_vary_params())))
    for i in range(3):
        x = x0 + (.02 * i) * rng.randn(len(x0))
        a, b = post.logprob_array(x), got.logprob_array(x)
        vc.prove('log-posterior at any parameters', a == b or (a != a and b != b))
    vc.prove_same('parameters', str(got.params), str(post.params))
    vc.prove_same('priors', [str(q) for q in got.priors], [str(q) for q in post.priors])
    vc.prove('data', all(np.array_equal(getattr(got.likelihood, a), getattr(post.likelihood, a)) for a in ('x', 'y', 'yerr')))
    vc.prove('residuals', bool(np.array_equal(got.residuals(), post.residuals())))
    vc.prove_same('recorded uncertainties', (got.uparams, got.medparams), (post.uparams, post.medparams))


# ---- nested sampling -----------------------------------------------------------------------------------------------
class Frame(object):
    """contract of pandas.DataFrame as used for the samples: rows, named columns"""
    def __init__(self, data=None, columns=None):
        self.rows = [list(r) for r in data]
        self.columns = list(columns)
        self.extra = {}

    def __len__(self):
        return len(self.rows)

    def iterrows(self):
        for i, r in enumerate(self.rows):
            yield i, types.SimpleNamespace(values=np.array(r, dtype=object))

    @property
    def values(self):
        return np.array(self.rows, dtype=object)

    def to_numpy(self):
        return self.values

    def __setitem__(self, k, v):
        self.extra[k] = list(v)

    def to_hdf(self, name, key=None, mode='a', **k):
        if mode != 'a':
            self.disk.files[name] = {}
        self.disk.files[name][key] = self


class H5(Handle):
    """contract of h5py.File: named values in a file"""
    def __init__(self, disk, name, mode='r'):
        if mode == 'w':
            disk.files[name] = {}
        elif name not in disk.files:
            raise FileNotFoundError(name)
        self.disk, self.name = disk, name

    def create_dataset(self, k, data=None, **kw):
        if k in self.disk.files[self.name]:
            raise ValueError('exists')
        self.disk.files[self.name][k] = data

    def __getitem__(self, k):
        return self.disk.files[self.name][k]

    __setitem__ = lambda self, k, v: self.create_dataset(k, data=v)


ALIAS = {'ultranest': ('_run_ultranest', None), 'dynesty-static': ('_run_dynesty', 'static'),
         'dynesty-dynamic': ('_run_dynesty', 'dynamic'), 'multinest': ('_run_multinest', None),
         'pymultinest': ('_run_multinest', None), 'nautilus': ('_run_nautilus', None), 'UltraNest': ('_run_ultranest', None)}


@harness('C18', [N + 'run', N + 'load_results'])
def results(vc):
    """which backend runs, when the results are refused, what is stored and loaded (contracts of h5py and pandas)"""
    if not vc.symbolic:
        vc.skip()
    disk = Disk()
    ns = radvel.nested_sampling
    post = stub_posterior(vc, 'per tc e w k', 1, free=['per1', 'k1'])
    post.priors = []
    checks = []
    vc.patch(post, 'check_proper_priors', lambda: checks.append(1))
    out = vc.choice('directory', [None, 'dir'])
    there = out is not None and vc.flag('results exist')
    if there:
        disk.files['dir/results.hdf5'] = {'lnZ': 'old', 'lnZerr': 'old', 'samples': 'old'}
    over, proceed = vc.flag('overwrite'), vc.flag('proceed')
    name = vc.choice('sampler', list(ALIAS) + ['emcee'])
    calls = []
    Z, Ze = vc.real('lnZ'), vc.real('lnZerr')
    rows = [[vc.real('s%d%d' % (i, j)) for j in range(2)] for i in range(vc.choice('samples', [0, 1, 2]))]
    sampler = object()

    def backend(which):
        def f(post, output_dir=None, **k):
            calls.append((which, post, output_dir, k))
            d = {'samples': rows, 'lnZ': Z, 'lnZerr': Ze, 'sampler': sampler}
            if which == '_run_multinest':
                del d['sampler']
            return d
        return f
    for w in set(a for a, _ in ALIAS.values()):
        vc.patch(ns, w, backend(w))
    Fr = type('Fr', (Frame,), {'disk': disk})
    vc.patch(ns, 'DataFrame', Fr)
    vc.patch(ns, 'h5py', types.SimpleNamespace(File=lambda *a, **k: H5(disk, *a, **k)))
    vc.patch(ns, 'read_hdf', lambda f, key=None: disk.files[f][key])
    vc.patch(os.path, 'exists', lambda f: f in disk.files)
    vc.patch(os.path, 'isfile', lambda f: f in disk.files)
    kw = vc.choice('options', ['none', 'some'])
    rk, sk = ({'a': 1}, {'b': 2}) if kw == 'some' else (None, None)
    go = lambda: ns.run(post, output_dir=out, overwrite=over, proceed=proceed, sampler=name, sampler_kwargs=sk, run_kwargs=rk)
    before = copy.copy(disk.files.get('dir/results.hdf5'))
    if there and not over and not proceed:
        vc.raises('results are not overwritten unless asked', FileExistsError, go)
        vc.prove_same('no sampler was started', calls, [])
        vc.prove_same('the stored results are untouched', disk.files['dir/results.hdf5'], before)
        return
    if name == 'emcee':
        vc.raises('unknown sampler', ValueError, go)
        vc.prove_same('the stored results are untouched', disk.files.get('dir/results.hdf5'), before)
        return
    if sk and 'multi' in name:
        vc.raises('multinest takes no sampler options', TypeError, go)
        vc.prove_same('the stored results are untouched', disk.files.get('dir/results.hdf5'), before)
        return
    r = go()
    vc.prove('improper priors are refused first', checks == [1])
    vc.prove('one sampler is run', len(calls) == 1)
    which, p, o, k = calls[0]
    vc.prove('the sampler asked for', which == ALIAS[name][0] and k.get('sampler_type') == ALIAS[name][1])
    vc.prove('of this posterior', p is post)
    vc.prove_same('output directory', o, out)
    vc.prove_same('continue the previous run', k.get('proceed'), proceed)
    vc.prove_same('run options', k.get('run_kwargs'), rk)
    if 'multi' not in name:
        vc.prove_same('sampler options', k.get('sampler_kwargs'), sk)
    df = r['samples']
    vc.prove_same('one column per free parameter', df.columns, post.name_vary_params())
    vc.prove('all samples', df.rows == rows)
    lp = df.extra['lnprobability']
    vc.prove('one log-posterior per sample', len(lp) == len(rows))
    for i, row in enumerate(rows):
        vc.prove_eq('log-posterior of the sample', lp[i], post.logprob_array(np.array(row, dtype=object)))
    vc.prove('evidence', r['lnZ'] is Z and r['lnZerr'] is Ze)
    if out is None:
        vc.prove_same('nothing is stored', disk.files, {})
        return
    vc.prove_same('stored', sorted(disk.files['dir/results.hdf5']), ['lnZ', 'lnZerr', 'samples'])

    class A(object):
        def __init__(self, v):
            self.v = v

        def item(self):
            return self.v
    f = disk.files['dir/results.hdf5']
    f.update(lnZ=Item(f['lnZ']), lnZerr=Item(f['lnZerr']))
    g = ns.load_results('dir/results.hdf5')
    vc.prove_eq('evidence is loaded', g['lnZ'], Z)
    vc.prove_eq('its uncertainty is loaded', g['lnZerr'], Ze)
    vc.prove('samples are loaded', g['samples'] is df)


def Item(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


class Called(Exception):
    pass


@harness('C18', [N + '_run_dynesty', N + '_run_ultranest', N + '_run_multinest', N + '_run_nautilus'])
def backends(vc):
    """each backend gets the posterior's functions, the directory and the resume flag; the caller's options are left
    alone; under contracts of the four sampling libraries"""
    ns = radvel.nested_sampling
    made, ran, saved, dirs = [], [], [], []
    Z, Ze = vc.real('lnZ'), vc.real('lnZerr')
    sam = vc.matrix('samples', 2, 2)

    class Res(dict):
        def samples_equal(self):
            return sam

    class Dyn(object):
        kind = 'static'
        results = Res(logz=[0., Z], logzerr=[0., Ze])

        def __init__(self, like, prior, ndim, **k):
            made.append((self.kind, like, prior, ndim, k))

        @classmethod
        def restore(cls, f):
            made.append((cls.kind, 'restored', f))
            return cls.__new__(cls)

        def run_nested(self, **k):
            ran.append(k)

        def save(self, f):
            saved.append(f)

    class Dyn2(Dyn):
        kind = 'dynamic'

    class Ultra(object):
        results = {'samples': sam, 'logz': Z, 'logzerr': Ze}

        def __init__(self, names, like, transform=None, wrapped_params=None, **k):
            made.append(('ultranest', like, transform, list(names), k, list(wrapped_params)))

        def run(self, **k):
            ran.append(k)

    class Naut(object):
        log_z = Z
        n_eff = 4.

        def __init__(self, prior, like, n_dim=None, **k):
            made.append(('nautilus', like, prior, n_dim, k))

        def run(self, **k):
            ran.append(k)

        def posterior(self, equal_weight=False):
            vc.prove('equally weighted samples', equal_weight is True)
            return sam, None, None

    class Analyzer(object):
        def __init__(self, n_params=None, outputfiles_basename=None, **k):
            self.b = outputfiles_basename

        def get_equal_weighted_posterior(self):
            return np.array([list(sam[0]) + [0.], list(sam[1]) + [0.]], dtype=object if vc.symbolic else float)

        def get_stats(self):
            return {'global evidence': Z, 'global evidence error': Ze}

    def multi(like, prior, ndim, **k):
        made.append(('multinest', like, prior, ndim, k))
    mods = {'dynesty': dict(NestedSampler=Dyn, DynamicNestedSampler=Dyn2),
            'ultranest': dict(ReactiveNestedSampler=Ultra),
            'ultranest.stepsampler': dict(SliceSampler=lambda **k: ('slice', k), generate_mixture_random_direction='mix'),
            'nautilus': dict(Sampler=Naut), 'pymultinest': dict(run=multi, Analyzer=Analyzer)}
    import importlib
    for m, d in mods.items():
        if m not in sys.modules:
            try:
                importlib.import_module(m)
            except ImportError:
                sys.modules[m] = types.ModuleType(m)
        vc.patch(sys.modules, m, types.SimpleNamespace(**d))
    post = stub_posterior(vc, 'per tc e w k', vc.choice('planets', [1, 2]))
    free = post.name_vary_params()
    which = vc.choice('backend', ['dynesty-static', 'dynesty-dynamic', 'ultranest', 'multinest', 'nautilus'])
    out = vc.choice('directory', [None, 'dir'])
    proceed = vc.flag('proceed')
    ckpt = out is not None and vc.flag('checkpoint exists')
    dirthere = ckpt or vc.flag('directory exists')
    overwrite = vc.flag('overwrite') if which == 'multinest' else True
    vc.patch(os.path, 'exists', lambda f: ckpt if f.endswith('sampler.save') else dirthere)

    def makedirs(d, mode=0o777, exist_ok=False):
        if dirthere and not exist_ok and d == 'dir':
            raise FileExistsError(d)
        dirs.append(d)
    vc.patch(os, 'makedirs', makedirs)
    removed = []
    vc.patch(shutil, 'rmtree', lambda d, *a, **k: removed.append(d))
    given = vc.flag('options given')
    run_opt, sampler_opt = ({'dlogz': 7}, {'nlive': 9}) if given else ({}, {})
    rk, sk = dict(run_opt), dict(sampler_opt)
    kw = dict(output_dir=out, proceed=proceed)
    if given:
        kw['run_kwargs'] = rk
        if which != 'multinest':
            kw['sampler_kwargs'] = sk
    if which.startswith('dynesty'):
        go = lambda: ns._run_dynesty(post, sampler_type=which[8:], **kw)
    elif which == 'multinest':
        go = lambda: ns._run_multinest(post, overwrite=overwrite, **kw)
    else:
        go = lambda: getattr(ns, '_run_' + which)(post, **kw)
    if which == 'multinest' and out and dirthere and not overwrite and not proceed:
        vc.raises('an existing directory is not overwritten unless asked', FileExistsError, go)
        vc.prove_same('the sampler was not started', made, [])
        return
    r = go()
    vc.prove_same("the caller's options are left alone", (rk, sk), (run_opt, sampler_opt))
    vc.prove_eq('evidence', r['lnZ'], Z)
    vc.prove_eq('uncertainty of the evidence', r['lnZerr'], .5 if which == 'nautilus' else Ze)
    for i in range(2):
        for j in range(2):
            vc.prove_eq('samples', r['samples'][i][j], sam[i][j])
    x = np.array([vc.real('x%d' % i) for i in range(len(free))], dtype=object if vc.symbolic else float)
    call = made[0]
    vc.prove('one sampler', len(made) == 1 and call[0] == which.replace('dynesty-', ''))
    if call[1] == 'restored':
        vc.prove('continues from the checkpoint only when asked', proceed and ckpt and call[2] == os.path.join('dir', 'sampler.save'))
        vc.prove('resumes', ran == [dict(run_opt, resume=True, checkpoint_file=call[2])] and saved == [call[2]])
        return
    if which.startswith('dynesty'):
        vc.prove('starts afresh unless there is a checkpoint to continue', not (proceed and ckpt))
    if which == 'multinest':
        vc.prove_same('number of parameters', call[3], len(free))
        vc.prove_eq('likelihood', call[1](x, len(free), len(free)), post.likelihood_ns_array(x))
    else:
        vc.prove_same('free parameters', call[3], free if which == 'ultranest' else len(free))
        vc.prove_eq('likelihood', call[1](x), post.likelihood_ns_array(x))
        vc.prove_same('prior transform', call[2], post.prior_transform)
    k = call[4]
    if which.startswith('dynesty'):
        vc.prove_same('sampler options', k, sampler_opt)
        opt = dict(run_opt, resume=False if out else proceed)
        if out:
            opt['checkpoint_file'] = os.path.join('dir', 'sampler.save')
        if proceed and not ckpt and out:
            vc.prove_same('run options', ran, [opt])
        elif not proceed:
            vc.prove_same('run options', ran, [dict(opt, resume=False)])
        vc.prove_same('the final state is saved', saved, [opt['checkpoint_file']] if out else [])
        vc.prove('the directory is there', not out or dirthere or dirs == ['dir'])
    elif which == 'ultranest':
        vc.prove_same('sampler options', k, dict(sampler_opt, resume=True if proceed else 'overwrite', log_dir=out))
        vc.prove_same('times of conjunction and periastron wrap', call[5], [n[:2] in ('tc', 'tp') for n in free])
        vc.prove_same('run options', ran, [run_opt])
    elif which == 'nautilus':
        want = dict(sampler_opt, resume=proceed)
        if out:
            want['filepath'] = os.path.join('dir', 'nautilus_output.hdf5')
        vc.prove_same('sampler options', k, want)
        vc.prove_same('run options', ran, [dict(run_opt, verbose=True)])
    else:
        vc.prove_same('run options', k, dict(run_opt, resume=proceed, outputfiles_basename=os.path.join(out or 'tmpdir', 'out')))
        vc.prove_same('only a temporary directory is removed', removed, [] if out else ['tmpdir'])


@harness('C18', [N + 'run', N + 'load_results'], modes=(), runs=60)
def results_on_disk(vc):
    """real HDF5 files"""
    ns = radvel.nested_sampling
    post, rng, kind = real_posterior(vc)
    if kind == 'celerite' and not radvel.likelihood._has_celerite:
        vc.skip()
    vc.patch(post, 'check_proper_priors', lambda: None)
    k = len(post.name_vary_params())
    x0 = post.get_vary_params()
    n = vc.choice('samples', [0, 1, 7, 40])
    sam = x0 + .05 * rng.randn(n, k)
    Z, Ze = vc.choice('lnZ', [-123.456789012345, 1e5, float('-inf'), np.float64(3.25), 7]), vc.choice('lnZerr', [.1, 0, np.float64(1e-9)])
    calls = []

    def fake(post, output_dir=None, **kw):
        calls.append(1)
        os.makedirs(output_dir, exist_ok=True)
        return {'samples': sam if len(calls) == 1 else sam + 1, 'lnZ': Z, 'lnZerr': Ze, 'sampler': object()}
    vc.patch(ns, '_run_ultranest', fake)
    with Scratch() as d:
        out = os.path.join(d, 'ns')
        f = os.path.join(out, 'results.hdf5')
        r = ns.run(post, output_dir=out)
        g = ns.load_results(f)
        vc.prove('evidence', g['lnZ'] == Z and g['lnZerr'] == Ze)
        vc.prove('samples', g['samples'].equals(r['samples']) and list(g['samples'].columns) == post.name_vary_params() + ['lnprobability'])
        vc.prove('samples of the sampler', bool(np.array_equal(g['samples'].values[:, :-1], sam)))
        lp = [post.logprob_array(s) for s in sam]
        vc.prove('log-posterior of each sample', bool(np.array_equal(g['samples']['lnprobability'].values, np.array(lp, dtype=float), equal_nan=True)))
        old = open(f, 'rb').read()
        vc.raises('results are not overwritten unless asked', FileExistsError, lambda: ns.run(post, output_dir=out))
        vc.prove('and stay as they were', open(f, 'rb').read() == old and len(calls) == 1)
        opt = vc.choice('asked to', ['overwrite', 'proceed'])
        ns.run(post, output_dir=out, **{opt: True})
        g = ns.load_results(f)
        vc.prove('overwritten when asked', bool(np.array_equal(g['samples'].values[:, :-1], sam + 1)))


# ---- the commands that write the status file -----------------------------------------------------------------------
class Written(object):
    """a table or posterior that records where it is written"""
    def __init__(self, files, name, **k):
        self.files, self.name = files, name
        self.__dict__.update(k)

    def writeto(self, f):
        self.files[os.path.relpath(f)] = self

    def to_csv(self, f, **k):
        self.files[os.path.relpath(f)] = self
        self.options = k


class Record(dict):
    """contract of pandas.DataFrame() as used for the autocorrelation record"""
    def to_csv(self, f, **k):
        Record.files[os.path.relpath(f)] = self


@harness('C18', [D + 'fit', D + 'mcmc', D + 'nested_sampling', D + '_process_kwargs_str', D + '_cast_str_arg', 'radvel.mcmc.StateVars.reset'], runs=150)
def commands(vc):
    """the status file names the files in which a command left its results"""
    cmd = vc.choice('command', ['fit', 'mcmc', 'ns'])
    out = vc.choice('directory', ['.', 'out', '/tmp/elsewhere'])
    setup = vc.choice('setup file', ['star.py', 'some/dir/star.py'])
    decorr = vc.flag('decorr')
    fitted_before = vc.flag('fitted before')
    files, saved, seen = {}, [], {}
    fresh, stored = Written(files, 'fresh'), Written(files, 'stored')
    best, sampled = Written(files, 'fitted'), Written(files, 'sampled')
    samples, chains, summary = Written(files, 'raw'), Written(files, 'chains'), Written(files, 'summary')
    Record.files = files
    sv = sys.modules['radvel.mcmc'].StateVars()

    def initialize(f, decorr=None):
        seen['init'] = f, decorr
        return types.SimpleNamespace(), fresh

    def optimise(p, **k):
        seen['fit'] = p
        return best

    def postprocess(p, c):
        seen['post'] = p, c
        return sampled, summary, chains
    stat = {('fit', 'run'): fitted_before, ('fit', 'postfile'): 'fitted before.pkl'}
    vc.patch(radvel.driver, 'load_status', lambda f: types.SimpleNamespace(
        get=lambda s, k: stat[s, k], getboolean=lambda s, k: stat[s, k], file=f))
    vc.patch(radvel.driver, 'save_status', lambda f, s, d: saved.append((f, s, dict(d))))
    vc.patch(radvel.utils, 'initialize_posterior', initialize)
    vc.patch(radvel.posterior, 'load', lambda f: stored if f == 'fitted before.pkl' else None)
    vc.patch(radvel.fitting, 'maxlike_fitting', optimise)
    vc.patch(radvel.driver, 'sampling_postprocessing', postprocess)
    vc.patch(radvel.driver, 'statevars', sv)
    vc.patch(radvel.driver.pd, 'DataFrame', Record)
    args = types.SimpleNamespace(setupfn=setup, outputdir=out, decorr=decorr)
    at = lambda name: os.path.relpath(os.path.join(out, name))
    if cmd == 'fit':
        radvel.driver.fit(args)
        want = {'postfile': (at('star_post_obj.pkl'), best)}
        vc.prove('the configured posterior is fitted', seen['fit'] is fresh)
        rest = {'run': True}
    elif cmd == 'mcmc':
        opts = {k: vc.real(k) for k in ('nsteps', 'nwalkers', 'ensembles', 'minAfactor', 'maxArchange', 'burnAfactor', 'burnGR',
                                        'maxGR', 'minTz', 'minsteps', 'minpercent', 'thin')}
        opts.update({k: vc.flag(k) for k in ('serial', 'save', 'proceed', 'headless')})
        args.__dict__.update(opts)
        done = {k: vc.real('reached ' + k) for k in ('mintz', 'maxgr', 'minafactor', 'maxarchange', 'nwalkers', 'ncomplete', 'nburn')}

        def sampler(p, **k):
            seen['mcmc'] = p, k
            sv.__dict__.update(done)
            sv.autosamples, sv.automin, sv.automean, sv.automax, sv.factor = [1], [2], [3], [4], [5]
            return samples
        vc.patch(radvel, 'mcmc', sampler)
        radvel.driver.mcmc(args)
        p, k = seen['mcmc']
        vc.prove('starts from the fit when there is one', p is (stored if fitted_before else fresh))
        raw = os.path.join(out, 'star_rawchain.h5') if opts['save'] or opts['proceed'] else None
        opts['nrun'] = opts.pop('nsteps')
        vc.prove_same('raw samples', (k.pop('savename'), k.pop('proceedname')), (raw, raw))
        vc.prove_same('options', sorted(k), sorted(opts))
        for o in opts:
            vc.prove('option', vc.same(k[o], opts[o]))
        vc.prove('these samples are summarised', seen['post'][0] is p and seen['post'][1] is samples)
        want = {'postfile': (at('star_post_obj.pkl'), sampled), 'chainfile': (at('star_chains.csv.bz2'), chains),
                'summaryfile': (at('star_post_summary.csv'), summary), 'autocorrfile': (at('star_autocorr.csv'), None)}
        vc.prove_same('autocorrelation record', dict(files[want['autocorrfile'][0]]),
                      {'autosamples': [1], 'automin': [2], 'automean': [3], 'automax': [4], 'factor': [5]})
        rest = {'run': True, 'nwalkers': done['nwalkers'], 'nensembles': opts['ensembles'], 'nsteps': done['ncomplete'],
                'maxsteps': opts['nrun'] * done['nwalkers'] * opts['ensembles'], 'nburn': done['nburn'],
                'minafactor': done['minafactor'], 'maxarchange': done['maxarchange'], 'minTz': done['mintz'], 'maxGR': done['maxgr']}
        vc.prove_same('the counters start afresh next time', (sv.oac, sv.autosamples, sv.automean, sv.automin, sv.automax, sv.proceed_started),
                      (0, [], [], [], [], 0))
    else:
        args.proceed, args.overwrite, args.sampler = vc.flag('proceed'), vc.flag('overwrite'), 'dynesty'
        args.run_kwargs, rk = vc.choice('run keywords', [(None, {}), ('dlogz=0.5', {'dlogz': .5}),
                                                         ('maxiter=100 print_progress=False', {'maxiter': 100, 'print_progress': False})])
        args.sampler_kwargs, sk = vc.choice('sampler keywords', [(None, {}), ('sample=rwalk bootstrap=TRUE', {'sample': 'rwalk', 'bootstrap': True}), ('nlive=1e3', {'nlive': 1000.})])

        def run(p, **k):
            seen['ns'] = p, k
            return {'samples': samples}
        vc.patch(radvel.nested_sampling, 'run', run)
        radvel.driver.nested_sampling(args)
        p, k = seen['ns']
        vc.prove('the configured posterior is sampled', p is fresh)
        want = {'postfile': (at('star_post_obj_ns.pkl'), sampled), 'chainfile': (at('star_chains_ns.csv.bz2'), chains),
                'summaryfile': (at('star_post_summary_ns.csv'), summary)}
        vc.prove_same('options', k, dict(output_dir=os.path.join(out, 'star_ns'), proceed=args.proceed, overwrite=args.overwrite,
                                         sampler='dynesty', run_kwargs=rk, sampler_kwargs=sk))
        vc.prove('kinds of keywords', all(type(k['run_kwargs'][o]) is type(rk[o]) for o in rk) and all(type(k['sampler_kwargs'][o]) is type(sk[o]) for o in sk))
        vc.prove('these samples are summarised', seen['post'][0] is p and seen['post'][1] is samples)
        rest = dict(rk, run=True, ns_outdir=at('star_ns'), **sk)
    vc.prove_same('set up from this file', seen['init'], (setup, decorr))
    vc.prove_same('one section is updated', [(f, s) for f, s, d in saved], [(os.path.join(out, 'star_radvel.stat'), cmd)])
    d = saved[0][2]
    vc.prove_same('what is recorded', sorted(d), sorted(list(want) + list(rest)))
    for k in rest:
        vc.prove('recorded value', vc.same(d[k], rest[k]) and (k != 'run' or d[k] is True))
    for k, (name, obj) in want.items():
        vc.prove('recorded file', d[k] == name and name in files and (obj is None or files[name] is obj))
    vc.prove_same('no other file', sorted(files), sorted(name for name, obj in want.values()))


class TableOf(object):
    def __init__(self, name):
        self.name, self.joined = name, None

    def join(self, other, rsuffix=''):
        t = TableOf(self.name)
        t.joined = other.name, rsuffix
        return t


@harness('C18', [D + 'tables', D + 'report', D + '_pick_sampler'], runs=150)
def readers(vc):
    """tables and reports are made from the files that the status file names, for the sampler in the plan"""
    import configparser
    cfg = configparser.RawConfigParser()
    has = {s: vc.choice('status of ' + s, [None, 'True']) for s in ('mcmc', 'ns')}
    ran = [s for s in ('mcmc', 'ns') if has[s]]
    if not ran:
        vc.skip()
    for s in ran:
        cfg.add_section(s)
        for k, v in (('run', 'True'), ('postfile', s + '.pkl'), ('chainfile', s + '.csv')):
            cfg.set(s, k, v)
    if 'mcmc' in ran:
        for k in ('minafactor', 'maxarchange', 'maxGR', 'minTz'):
            cfg.set('mcmc', k, k.lower() + ' reached')
    derived = vc.choice('status of derive', [None, 'True', 'False'])
    if derived:
        cfg.add_section('derive')
        cfg.set('derive', 'run', derived)
        cfg.set('derive', 'chainfile', 'derived.csv')
    cfg.add_section('plot')
    cfg.set('plot', 'rv_plot', 'some/where/rv.pdf')
    compared = vc.flag('compared')
    if compared:
        cfg.add_section('ic_compare')
        cfg.set('ic_compare', 'ic', "[{'BIC': [(-inf), 'x']}]" if vc.flag('infinite') else "[{'BIC': [(2.5), 'x']}]")
    cmd = vc.choice('command', ['tables', 'report'])
    made, saved, got = [], [], {}
    vc.patch(radvel.driver, 'load_status', lambda f: cfg)
    vc.patch(radvel.driver, 'save_status', lambda f, s, d: saved.append((f, s, dict(d))))
    star = types.SimpleNamespace(name='setup')
    vc.patch(radvel.utils, 'initialize_posterior', lambda f, **k: (star, 'fresh'))
    vc.patch(radvel.posterior, 'load', lambda f: 'posterior in ' + f)
    vc.patch(radvel.driver.pd, 'read_csv', lambda f, **k: TableOf(f))

    class Report(object):
        def __init__(self, planet, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=None, derived=False):
            self.args = planet, post, chains.name, chains.joined, minafactor, maxarchange, maxgr, mintz, derived
            self.comp = compstats
            made.append(self)

        def compile(self, name, depfiles=[], latex_compiler=None):
            got['pdf'] = name, list(depfiles), latex_compiler, self.runname

    class Tex(object):
        def __init__(self, report):
            self.report = report

        def __getattr__(self, name):
            if name.startswith('tab_'):
                return lambda **k: repr((name, sorted(k.items()), made.index(self.report)))
            raise AttributeError(name)
    vc.patch(radvel.report, 'RadvelReport', Report)
    vc.patch(radvel.report, 'TexTable', Tex)
    import contextlib
    vc.patch(radvel.utils, 'working_directory', contextlib.contextmanager(lambda d: iter([got.setdefault('dir', d)])))
    s = ran[0]
    crit = tuple(k + ' reached' for k in ('minafactor', 'maxarchange', 'maxgr', 'mintz')) if s == 'mcmc' else (None,) * 4
    expect = (star, 'posterior in %s.pkl' % s, s + '.csv', ('derived.csv', '_derived') if derived == 'True' else None) + crit
    args = types.SimpleNamespace(setupfn='d/star.py', outputdir='out', sampler='auto', comptype='nplanets', latex_compiler='tex')
    if cmd == 'report':
        radvel.driver.report(args)
        vc.prove_same('report of these files', made[0].args, expect + (derived == 'True',))
        vc.prove_same('comparison', made[0].comp is None, not compared)
        vc.prove_same('pdf', (got['pdf'], got['dir']), (('star_results.pdf', ['rv.pdf'], 'tex', 'star'), 'out'))
        return
    kinds = vc.choice('tables', [['params'], ['rv', 'priors'], ['crit'], ['derived'], ['ic_compare'], ['params', 'ic_compare', 'rv']])
    args.type, args.name_in_title = kinds, vc.flag('name in title')
    files = {}

    class Out(object):
        def __init__(self, name, mode='r'):
            self.name = os.path.relpath(name)
            files[self.name] = None

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def write(self, text):
            files[self.name] = (files[self.name] or '') + text
    vc.patch(radvel.driver, 'open', Out)
    if 'ic_compare' in kinds and not compared or 'derived' in kinds and not derived:
        vc.raises('refused before the run it needs', AssertionError, lambda: radvel.driver.tables(args))
        return
    radvel.driver.tables(args)
    for r in made:
        vc.prove_same('tables of these files', r.args[:8], expect)
    vc.prove_same('derived parameters', made[0].args[8], derived == 'True')
    names = {k: os.path.relpath('out/star_%s.tex' % k) for k in kinds}
    vc.prove_same('files', sorted(files), sorted(names.values()))
    vc.prove_same('recorded', saved, [('out/star_radvel.stat', 'table', {k + '_tex': names[k]}) for k in kinds])
    fn = {'priors': 'tab_prior_summary', 'rv': 'tab_rv', 'params': 'tab_params', 'derived': 'tab_derived', 'crit': 'tab_crit', 'ic_compare': 'tab_comparison'}
    for k in kinds:
        text, kw, which = eval(files[names[k]])
        vc.prove_same('table', text, fn[k])
        kw = dict(kw)
        if k == 'rv':
            vc.prove('all velocities', kw.pop('max_lines', 50) is None)
        if k == 'ic_compare':
            vc.prove('comparison', made[which].comp is not None)
        else:
            vc.prove_same('title', kw, {'name_in_title': args.name_in_title})
