"""C16: masses, semi-amplitudes, axes, densities."""
import os
import types
from fractions import Fraction

import numpy

from pyvc.api import harness
import radvel
import radvel.utils
import radvel.driver
import astropy.constants as C
import astropy.units as U

M = 'radvel.utils.'
DAY = 86400.0
YEAR = float(U.d.to(U.year))
JE = float(U.M_earth.to(U.M_jup))
EJ = float(U.M_jup.to(U.M_earth))
SJ = float(U.M_jup.to(U.M_sun))
K0 = 28.4329


def star(vc, name='M'):
    return vc.real(name, gt=0, gen=(0.05, 20.))


def P_(vc):
    return vc.real('P', gt=0, gen=(0.1, 1e5))


def e_(vc):
    return vc.real('e', ge=0, lt=1, gen=[0., (0., 0.97)])


@harness('C16', [M + 'semi_amplitude'])
def amplitude(vc):
    m = vc.m
    np = vc.choice('np', [False, True])
    P, e, Ms = P_(vc), e_(vc), star(vc)
    x = vc.real('Msini', gt=0, gen=(1e-3, 50))
    K = radvel.utils.semi_amplitude(x, P, Ms, e, Msini_units='jupiter')
    spec = K0 * x / m.rpow(P * YEAR, 1, 3) / m.rpow(Ms, 2, 3) / m.sqrt(1 - e * e)
    vc.prove_eq('K from Msini (Jupiter masses)', K, spec)
    vc.prove_eq('default unit is the Jupiter mass', radvel.utils.semi_amplitude(x, P, Ms, e), spec)
    K = radvel.utils.semi_amplitude(x, P, Ms, e, Msini_units='earth')
    vc.prove_eq('K from Msini (Earth masses)', K, K0 * (x * JE) / m.rpow(P * YEAR, 1, 3) / m.rpow(Ms, 2, 3) / m.sqrt(1 - e * e))
    vc.prove_eq('units are case-insensitive', radvel.utils.semi_amplitude(x, P, Ms, e, Msini_units='EARTH'), K0 * (x * JE) / m.rpow(P * YEAR, 1, 3) / m.rpow(Ms, 2, 3) / m.sqrt(1 - e * e))


@harness('C16', [M + 'semi_amplitude', M + 'Msini'], runs=1, modes=('unbounded',))
def constants(vc):
    G, MS, MJ = C.G.value, C.M_sun.value, C.M_jup.value
    import math
    k0 = (2 * math.pi * G / (365.25 * DAY)) ** (1 / 3.) * MJ * MS ** (-2 / 3.)
    vc.prove('K_0 is the amplitude of a Jupiter mass at one year', abs(k0 - K0) < 2e-2)
    vc.prove('K_0 in the code', abs(float(radvel.utils.K_0) - K0) < 1e-4)


@harness('C16', [M + 'Msini', M + 'semi_amplitude'])
def minimum_mass_small(vc):
    m = vc.m
    P, e, Ms = P_(vc), e_(vc), star(vc)
    K = vc.real('K', gt=0, gen=(0.1, 1e3))
    mass = K / K0 * m.sqrt(1 - e * e) * m.rpow(Ms, 2, 3) * m.rpow(P * YEAR, 1, 3)
    vc.assume(mass * SJ / Ms < 0.0999999)
    x = radvel.utils.Msini(K, P, Ms, e, Msini_units='jupiter')
    vc.prove_eq('Msini (Jupiter)', x, mass)
    vc.prove_eq('Msini (Earth)', radvel.utils.Msini(K, P, Ms, e, Msini_units='earth'), mass * EJ)
    vc.prove_eq('default unit is the Earth mass', radvel.utils.Msini(K, P, Ms, e), mass * EJ)
    vc.prove_eq('semi-amplitude inverts Msini (Jupiter)',
                radvel.utils.semi_amplitude(x, P, Ms, e, Msini_units='jupiter'), K)


@harness('C16', [M + 'Msini'])
def minimum_mass_large(vc):
    """above 10% of the stellar mass the exact mass function is solved"""
    m = vc.m
    P, e, Ms = P_(vc), e_(vc), star(vc)
    K = vc.real('K', gt=0, gen=[(3e3, 2e4)])
    mass = K / K0 * m.sqrt(1 - e * e) * m.rpow(Ms, 2, 3) * m.rpow(P * YEAR, 1, 3)
    vc.assume(mass * SJ / Ms > 0.1000001)
    if not vc.symbolic:
        vc.assume(mass * SJ / Ms < .5)
    x = radvel.utils.Msini(K, P, Ms, e, Msini_units='jupiter')
    x = x[0]
    G, MS, MJ = [float(q.value) for q in (C.G, C.M_sun, C.M_jup)]
    sec = float(U.d.to(U.second))
    # K = (2 pi G / P)^(1/3) Msini (Ms+Msini)^(-2/3) / sqrt(1-e^2), in SI
    tot = Ms * MS + x * MJ
    vc.prove_eq('exact mass function', x * MJ,
                K * m.sqrt(1 - e * e) * m.rpow(tot, 2, 3) / m.rpow(2 * m.pi * G / (P * sec), 1, 3), tol=1e-5)
    if not vc.symbolic:
        vc.prove_eq('Earth masses', radvel.utils.Msini(K, P, Ms, e, Msini_units='earth')[0] / EJ, x, tol=1e-6)


@harness('C16', [M + 'Msini', M + 'semi_amplitude', M + 'semi_major_axis'], sizes=(1, 2))
def arrays(vc):
    m = vc.m
    n = vc.size('n', min=1, sizes=(1, 2))
    P = vc.arr('P', n, gt=0, gen=(1, 1e3))
    e = vc.arr('e', n, ge=0, lt=1, gen=(0, .9))
    Ms = vc.arr('M', n, gt=0, gen=(.3, 2))
    x = vc.arr('x', n, gt=0, gen=(1e-3, 3))
    s = [vc.snapshot(v) for v in (P, e, Ms, x)]
    unit = vc.choice('unit', ['jupiter', 'earth'])
    f = 1. if unit == 'jupiter' else JE
    K = radvel.utils.semi_amplitude(x, P, Ms, e, Msini_units=unit)
    for i in index(vc, n):
        vc.prove_eq('element K', K[i], K0 * (f * x[i]) / m.rpow(P[i] * YEAR, 1, 3) / m.rpow(Ms[i], 2, 3) / m.sqrt(1 - e[i] * e[i]))
    a = radvel.utils.semi_major_axis(P, Ms)
    for i in index(vc, n):
        vc.prove_eq('element a', a[i], axis(vc, P[i], Ms[i]))
    for v, q in zip((P, e, Ms, x), s):
        vc.unchanged('inputs unchanged', v, q)


@harness('C16', [M + 'Msini'], sizes=(1, 2))
def arrays_mass(vc):
    m = vc.m
    n = vc.size('n', min=1, sizes=(1, 2))
    P = vc.arr('P', n, gt=0, gen=(1, 1e3))
    e = vc.arr('e', n, ge=0, lt=1, gen=(0, .9))
    Ms = vc.arr('M', n, gt=0, gen=(.3, 2))
    K = vc.arr('K', n, gt=0, gen=(1, 300))
    s = [vc.snapshot(v) for v in (P, e, Ms, K)]
    mass = lambda i: K[i] / K0 * m.sqrt(1 - e[i] * e[i]) * m.rpow(Ms[i], 2, 3) * m.rpow(P[i] * YEAR, 1, 3)
    vc.assume(m.forall(n, lambda i: mass(i) * SJ / Ms[i] < 0.0999999))
    x = radvel.utils.Msini(K, P, Ms, e, Msini_units='jupiter')
    for i in index(vc, n):
        vc.prove_eq('element Msini', x[i], mass(i))
    for v, q in zip((P, e, Ms, K), s):
        vc.unchanged('inputs unchanged', v, q)


@harness('C16', [M + 'Msini'], sizes=(2,), modes=('bounded',), runs=60)
def arrays_mass_large(vc):
    m = vc.m
    n = vc.size('n', min=2, sizes=(2,))
    P = vc.arr('P', n, gt=0, gen=(100, 400))
    e = vc.arr('e', n, ge=0, lt=1, gen=(0, .5))
    Ms = vc.arr('M', n, gt=0, gen=(.3, .5))
    K = vc.arr('K', n, gt=0, gen=(3e3, 9e3))
    mass = lambda i: K[i] / K0 * m.sqrt(1 - e[i] * e[i]) * m.rpow(Ms[i], 2, 3) * m.rpow(P[i] * YEAR, 1, 3)
    vc.assume(mass(0) * SJ / Ms[0] > 0.1000001)
    if not vc.symbolic:
        vc.assume(m.forall(n, lambda i: mass(i) * SJ / Ms[i] < .5))
    x = radvel.utils.Msini(K, P, Ms, e, Msini_units='jupiter')
    G, MS, MJ = [float(q.value) for q in (C.G, C.M_sun, C.M_jup)]
    sec = float(U.d.to(U.second))
    for i in range(n):
        tot = Ms[i] * MS + x[i] * MJ
        vc.prove_eq('exact mass function', x[i] * MJ,
                    K[i] * m.sqrt(1 - e[i] * e[i]) * m.rpow(tot, 2, 3) / m.rpow(2 * m.pi * G / (P[i] * sec), 1, 3), tol=1e-5)


def index(vc, n):
    if isinstance(n, int):
        return range(n)
    i = vc.real('i', ge=0, integer=True)
    vc.assume(i < n)
    return [i]


def axis(vc, P, Ms):
    G, MS, AU = [float(q.value) for q in (C.G, C.M_sun, C.au)]
    sec = float(U.d.to(U.second))
    return vc.m.rpow(P * P * sec * sec * G * MS * Ms / (4 * vc.m.pi * vc.m.pi), 1, 3) / AU


@harness('C16', [M + 'semi_major_axis'])
def kepler_third_law(vc):
    P, Ms = P_(vc), star(vc)
    vc.prove_eq('semi-major axis', radvel.utils.semi_major_axis(P, Ms), axis(vc, P, Ms))


@harness('C16', [M + 'density'])
def densities(vc):
    m = vc.m
    x, r = vc.real('mass', gt=0, gen=(.01, 1e3)), vc.real('radius', gt=0, gen=(.01, 1e2))
    for unit, mu, ru in (('earth', U.M_earth, U.R_earth), ('Jupiter', U.M_jup, U.R_jup)):
        rho0 = float((mu / ru ** 3).to(U.g / U.cm ** 3))
        rho = radvel.utils.density(x, r, MR_units=unit)
        vc.prove_eq('density in %s units' % unit, rho * 1, rho0 * x / (m.pi * 4 / 3 * r * r * r), tol=1e-6) if not vc.symbolic \
            else vc.prove('density in %s units' % unit, near(vc, rho, rho0 * x / (m.pi * 4 / 3 * r * r * r)))
    re = float((U.M_earth / U.R_earth ** 3).to(U.g / U.cm ** 3))
    vc.prove_eq('default units are Earth units', radvel.utils.density(x, r), radvel.utils.density(x, r, 'earth'))


def near(vc, a, b):
    """equal up to the rounding of the unit conversion factor (relative 1e-9)"""
    q = a / b
    return vc.m.and_(q < 1 + Fraction(1, 10**9), q > 1 - Fraction(1, 10**9))


@harness('C16', [M + 'Msini', M + 'semi_amplitude', M + 'density'])
def unknown_units(vc):
    a, b, c = vc.real('a', gt=0, gen=(1, 10)), vc.real('b', gt=0, gen=(1, 10)), vc.real('c', gt=0, gen=(1, 10))
    e = e_(vc)
    vc.assume(a * vc.m.rpow(b, 1, 3) * vc.m.rpow(c, 2, 3) < 400)
    if vc.symbolic:
        vc.assume(a / K0 * vc.m.sqrt(1 - e * e) * vc.m.rpow(c, 2, 3) * vc.m.rpow(b * YEAR, 1, 3) * SJ / c < 0.0999999)
    unit = vc.choice('unit', ['saturn', '', 'kg', 'jup'])
    vc.raises('semi_amplitude rejects', Exception, lambda: radvel.utils.semi_amplitude(a, b, c, e, Msini_units=unit))
    vc.raises('Msini rejects', Exception, lambda: radvel.utils.Msini(a, b, c, e, Msini_units=unit))
    vc.raises('density rejects', Exception, lambda: radvel.utils.density(a, b, MR_units=unit))


# ---- physical parameters of the samples ----------------------------------------------------------------------------
class Table(object):
    """contract of pandas.DataFrame as used by the driver: named columns of equal length"""
    def __init__(self, n, cols, rec):
        self.n, self.cols, self.rec = n, dict(cols), rec

    @property
    def columns(self):
        return list(self.cols)

    def keys(self):
        return list(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def __len__(self):
        return self.n

    def __vc_len__(self):
        return self.n

    def copy(self, deep=True):
        return Table(self.n, self.cols, self.rec)

    def __getitem__(self, k):
        return Table(self.n, {x: self.cols[x] for x in k}, self.rec) if isinstance(k, list) else self.cols[k]

    def __setitem__(self, k, v):
        self.cols[k] = v

    def quantile(self, q):
        self.rec.append(('quantile', tuple(q)))
        return Table(self.n, {k: ('quantile', self.cols[k]) for k in self.cols}, self.rec)

    def to_csv(self, name, columns=None, **k):
        self.rec.append((os.path.relpath(name), {c: self.cols[c] for c in (self.cols if columns is None else columns)}))


class Elements(object):
    """contract of the basis conversion of a table (C03): the orbital elements are some function of the columns"""
    def __init__(self, elements):
        self.elements, self.seen = elements, None

    def to_synth(self, t, **k):
        self.seen = dict(t.cols)
        return Table(t.n, dict(t.cols, **self.elements), t.rec)


@harness('C16', ['radvel.driver.derive'], runs=100)
def derived_parameters(vc):
    m = vc.m
    n = vc.size('n', min=1, sizes=[1, 2, 5])
    npl = vc.choice('planets', [1, 2])
    sampler = vc.choice('sampler', ['mcmc', 'ns'])
    radius = vc.choice('planets with a radius', [(), (1,), (npl,), 'no dictionary'])
    mass = vc.flag('stellar mass known')
    rec = []
    cols = {'per%d' % i: vc.arr('per%d' % i, n, gen=(1., 50.)) for i in range(1, npl + 1)}
    cols['lnprobability'] = vc.arr('lnprobability', n)
    chains = Table(n, cols, rec)
    syn = {k + str(i): vc.arr('element ' + k + str(i), n, gen=(.1, .8)) for i in range(1, npl + 1) for k in ('per', 'k', 'e')}
    basis = Elements(syn)
    fixed = vc.real('fixed value')

    class Pars(dict):
        pass
    pars = Pars({k: types.SimpleNamespace(vary=True, value=vc.real('at ' + k)) for k in cols if k != 'lnprobability'})
    pars['secosw1'] = types.SimpleNamespace(vary=False, value=fixed)
    pars.basis = basis
    post = types.SimpleNamespace(params=pars, writeto=lambda f: rec.append((f, post.derived)))
    P = types.SimpleNamespace(nplanets=npl)
    if mass:
        P.stellar = {'mstar': vc.real('mstar', gt=0), 'mstar_err': vc.real('mstar error', gt=0)}
    if radius != 'no dictionary':
        P.planet = {k + str(i): vc.real(k + str(i), gt=0) for i in radius for k in ('rp', 'rp_err')}
    draws = []

    def normal(loc=0., scale=1., size=None):
        a = vc.arr('draw%d' % len(draws), size, gen=(-.3, 3.))
        draws.append((loc, scale, size, a, a.copy()))
        return a
    status = types.SimpleNamespace(get=lambda s, k: '%s of %s' % (k, s), has_section=lambda s: s == sampler, getboolean=lambda s, k: True)
    saved = []
    vc.patch(numpy.random, 'normal', normal)
    vc.patch(radvel.driver, 'load_status', lambda f: status)
    vc.patch(radvel.driver, 'save_status', lambda f, s, d: saved.append((f, s, dict(d))))
    vc.patch(radvel.utils, 'initialize_posterior', lambda f, **k: (P, None))
    vc.patch(radvel.posterior, 'load', lambda f: post if f == 'postfile of ' + sampler else None)
    vc.patch(radvel.driver.pd, 'read_csv', lambda f, **k: chains if f == 'chainfile of ' + sampler else None)

    def function(name):
        def f(*a, **k):
            unit = tuple(sorted(k.items()))
            return vc.pointwise(lambda i: vc.opaque(name + repr(unit), *[x[i] if hasattr(x, '__len__') else x for x in a]), n)
        return f
    for k in ('Msini', 'semi_major_axis', 'density'):
        vc.patch(radvel.utils, k, function(k))
    radvel.driver.derive(types.SimpleNamespace(setupfn='dir/star.py', outputdir='out', sampler='auto'))
    if not mass:
        vc.prove('nothing is derived without a stellar mass', not saved and not rec)
        return
    loc, scale, size, _, drawn = draws[0]
    vc.prove('stellar masses are drawn from the given distribution', loc is P.stellar['mstar'] and scale is P.stellar['mstar_err'] and vc.same(size, n))
    vc.prove('the table converted holds the samples and the fixed parameters', all(basis.seen[k] is cols[k] for k in cols))
    vc.prove_eq('fixed parameters', basis.seen['secosw1'], fixed)
    ms = vc.pointwise(lambda i: m.ite(drawn[i] < 0, -drawn[i], drawn[i]), n)      # the drawn values, made positive
    want = []
    E, S = C.M_earth.value, C.M_sun.value
    nd = 1
    for p in range(1, npl + 1):
        g = lambda k: chains.cols[k + str(p)]
        per, k, e = syn['per%d' % p], syn['k%d' % p], syn['e%d' % p]
        x = function('Msini')(k, per, ms, e, Msini_units='earth')
        vc.prove_eq('minimum mass of every sample', g('mpsini'), x)
        a = function('semi_major_axis')(per, vc.pointwise(lambda i: ms[i] + x[i] * E / S, n))
        vc.prove_eq('semi-major axis for the total mass', g('a'), a)
        vc.prove_eq('mass ratio', g('musini'), vc.pointwise(lambda i: x[i] * E / (ms[i] * S), n))
        want += ['mpsini%d' % p, 'a%d' % p, 'musini%d' % p]
        if radius != 'no dictionary' and p in radius:
            loc, scale, size, r, r0 = draws[nd]
            nd += 1
            vc.prove('radii', loc is P.planet['rp%d' % p] and scale is P.planet['rp_err%d' % p] and vc.same(size, n) and g('rp') is r)
            rho = function('density')(x, r)
            vc.prove_eq('density', g('rhop'), rho)
            want.append('rhop%d' % p)
    vc.prove_same('no further draws', len(draws), nd)
    vc.prove('samples are kept', all(chains.cols[k] is cols[k] for k in cols))
    files = [r for r in rec if r[0] != 'quantile']
    vc.prove_same('percentiles', [r[1] for r in rec if r[0] == 'quantile'], [(.159, .5, .841)])
    vc.prove_same('one record', [(f, s, sorted(d)) for f, s, d in saved], [('out/star_radvel.stat', 'derive', ['chainfile', 'quantfile', 'run'])])
    d = saved[0][2]
    vc.prove_same('files', [f[0] for f in files], [d['quantfile'], 'postfile of ' + sampler, d['chainfile']])
    vc.prove('run', d['run'] is True)
    vc.prove('the record names different files', len({f[0] for f in files}) == 3)
    vc.prove('derived samples written', sorted(files[2][1]) == sorted(want) and all(files[2][1][k] is chains.cols[k] for k in want))
    vc.prove('their percentiles written', sorted(files[0][1]) == sorted(want) and all(files[0][1][k][1] is chains.cols[k] for k in want))
    vc.prove('and kept with the posterior', sorted(files[1][1].cols) == sorted(want) and all(files[1][1][k][1] is chains.cols[k] for k in want))
