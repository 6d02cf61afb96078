"""C01: the Keplerian radial-velocity curve."""
import sys

from pyvc import ctrans
from pyvc.api import harness
import radvel
import radvel.kepler
import radvel.orbit

REPO = radvel.__file__.rsplit('/', 2)[0]
K = 'radvel.kepler.'
C = 'src/kepler.c:'
X = 'src/_kepler.pyx:'
TOL = 1e-12
SYMBOLIC = 'pyvc.loader' in sys.modules
if SYMBOLIC:
    CN, PX, BAD = ctrans.load_symbolic(REPO)
    EXT = type(sys)('radvel._kepler')
    EXT.__dict__.update({k: v for k, v in PX.items() if k.endswith('_array')})
else:
    EXT, LIB = ctrans.build(REPO)
sys.modules['radvel._kepler'] = EXT
radvel._kepler = EXT


def orbit(vc):
    per = vc.real('per', gt=0, gen=(.5, 1e3))
    tp = vc.real('tp', gen=(-1e3, 1e3))
    e = vc.real('e', gt=0, le=0.99, gen=[(0.0001, .99), .99, .9])
    w = vc.real('w', gen=(-7, 7))
    k = vc.real('k', gen=(-100, 100))
    return per, tp, e, w, k


def mean_anomaly(vc, t, per, tp):
    ph = (t - tp) / per
    return 2 * vc.m.pi * (ph - vc.m.floor(ph))


def curve(vc, E, e, w, k):
    """the velocity for the eccentric anomaly E"""
    m = vc.m
    cosnu = (m.cos(E) - e) / (1 - e * m.cos(E))
    sinnu = m.sqrt(1 - e * e) * m.sin(E) / (1 - e * m.cos(E))
    return k * (m.cos(w) * (cosnu + e) - m.sin(w) * sinnu)


def root(vc, M, e):
    """the eccentric anomaly: symbolically any value the solver's contract allows, otherwise the root by bisection"""
    if vc.symbolic:
        E = vc.opaque('kepler', M, e)
        return E
    lo, hi = M - 1.1, M + 1.1
    for _ in range(200):
        c = (lo + hi) / 2
        if c - e * vc.m.sin(c) < M:
            lo = c
        else:
            hi = c
    return (lo + hi) / 2


def regular(vc, E, e):
    """E is not at apastron (where the half-angle formulas have a pole), and e*cos(E) < 1"""
    if vc.symbolic:
        vc.assume(vc.m.cos(E) > -1)
        vc.assume(vc.m.cos(E / 2) * vc.m.cos(E / 2) > 0)
        vc.assume(e * vc.m.cos(E) < 1)


@harness('C01', [K + 'kepler'], sizes=(1, 2))
def solver_python(vc):
    """whatever the array solver returns satisfies Kepler's equation, and the inputs are left alone"""
    m = vc.m
    n = vc.size('n', min=1, sizes=(1, 2))
    vc.abstract_sign()
    M = vc.arr('M', n, gen=[(0, 6.283185307179586), (0, .01), (3.1, 3.2), (6.27, 6.2831)])
    e = vc.arr('e', n, ge=0, lt=1, gen=[0., (0, .99), (.95, .99)])
    s = [vc.snapshot(M), vc.snapshot(e)]
    E = radvel.kepler.kepler(M, e)
    vc.unchanged('mean anomalies unchanged', M, s[0])
    vc.unchanged('eccentricities unchanged', e, s[1])
    if vc.symbolic and not isinstance(n, int):
        if not vc.split(n > 1):
            vc.at(0)
            vc.prove("Kepler's equation", m.le(m.abs(E - e[0] * m.sin(E) - M[0]), TOL))
            return
        vc.prove('as many elements', m.eq(vc.len(E), n))
        i = vc.real('i', ge=0, integer=True)
        vc.assume(i < n)
        vc.prove("Kepler's equation", m.le(m.abs(E[i] - e[i] * m.sin(E[i]) - M[i]), TOL))
    elif n == 1:
        vc.prove("Kepler's equation", m.le(m.abs(E - e[0] * m.sin(E) - M[0]), TOL))
    else:
        for i in range(n):
            vc.prove("Kepler's equation", m.le(m.abs(E[i] - e[i] * m.sin(E[i]) - M[i]), TOL))


@harness('C01', [C + 'kepler'])
def solver_c(vc):
    """whatever the compiled solver returns satisfies Kepler's equation"""
    m = vc.m
    M = vc.real('M', gen=[(0, 6.283185307179586), (0, .01), (3.1, 3.2), (6.27, 6.2831)])
    e = vc.real('e', ge=0, lt=1, gen=[0., (0, .99), (.95, .99)])
    E = CN['c_kepler'](M, e) if SYMBOLIC else LIB.kepler(M, e)
    vc.prove("Kepler's equation", m.le(m.abs(E - e * m.sin(E) - M), TOL))


@harness('C01', [C + 'rv_drive'])
def velocity_c(vc):
    """the compiled velocity, for any value the solver may return"""
    m = vc.m
    per, tp, e, w, k = orbit(vc)
    t = vc.real('t', gen=(-1e3, 1e3))
    M0 = mean_anomaly(vc, t, per, tp)
    if SYMBOLIC:
        used = []

        def solver(M, ecc):
            used.append((M, ecc))
            return root(vc, M, ecc)
        vc.patch(CN, 'c_kepler', solver)
        # apastron is excluded before the code runs
        E = root(vc, M0, e)
        regular(vc, E, e)
        rv = CN['c_rv_drive'](t, per, tp, e, m.cos(w), m.sin(w), k)
        vc.prove('the solver is asked once', len(used) == 1)
        M, ecc = used[0]
        vc.prove_eq('mean anomaly (cosine)', m.cos(M), m.cos(M0))
        vc.prove_eq('mean anomaly (sine)', m.sin(M), m.sin(M0))
        vc.prove_eq('eccentricity given to the solver', ecc, e)
        E = root(vc, M, ecc)
    else:
        rv = LIB.rv_drive(t, per, tp, e, m.cos(w), m.sin(w), k)
        E = root(vc, M0, e)
    vc.prove_eq('velocity', rv, curve(vc, E, e, w, k), tol=1e-6, scale=abs(k))


@harness('C01', [K + 'rv_drive'], runs=20)
def anomaly_to_velocity(vc):
    """lemma: with the true anomaly of E, k*(cos(nu+w)+e*cos(w)) is the velocity of the solution E"""
    m = vc.m
    per, tp, e, w, k = orbit(vc)
    E = vc.real('E', gen=(0, 6))
    regular(vc, E, e)
    nu = 2 * m.atan(m.sqrt((1 + e) / (1 - e)) * m.tan(E / 2))
    vc.prove_eq('velocity', k * (m.cos(nu + w) + e * m.cos(w)), curve(vc, E, e, w, k), tol=1e-6, scale=abs(k))


def element(vc, n):
    """an arbitrary position (symbolically), or all"""
    if vc.symbolic and not isinstance(n, int):
        i = vc.real('i', ge=0, integer=True)
        vc.assume(i < n)
        return [i]
    return range(n)


@harness('C01', [X + 'rv_drive_array'], sizes=(1, 2))
def velocity_array_c(vc):
    """the compiled array interface applies rv_drive to every time"""
    m = vc.m
    per, tp, e, w, k = orbit(vc)
    n = vc.size('n', min=0, sizes=(0, 1, 2))
    t = vc.arr('t', n, gen=(-1e3, 1e3))
    s = vc.snapshot(t)
    if SYMBOLIC:
        one = lambda *a: vc.opaque('rv_drive', *a)
        vc.patch(PX, 'rv_drive', one)
    else:
        one = LIB.rv_drive
    rv = EXT.rv_drive_array(t, per, tp, e, w, k)
    vc.unchanged('times unchanged', t, s)
    vc.prove('as many velocities', m.eq(vc.len(rv), n))
    for i in element(vc, n):
        vc.prove_eq('element', rv[i], one(t[i], per, tp, e, m.cos(w), m.sin(w), k), scale=abs(k))


def solver_contract(vc, M0s):
    """radvel.kepler.kepler under its contract: any E with E - e*sin(E) = M (recorded arguments)"""
    used = []

    def solver(M, ecc):
        used.append((M, ecc))
        n = vc.len(M)
        if isinstance(n, int):
            import numpy as np
            out = np.empty(n, dtype=object)
            for i in range(n):
                out[i] = root(vc, M[i], ecc[i])
            return out if n > 1 else out[0]
        if vc.split(n == 1):
            return root(vc, M[0], ecc[0])
        return vc.pointwise(lambda i: root(vc, M[i], ecc[i]), n)
    return used, solver


@harness('C01', ['radvel.orbit.true_anomaly'], sizes=(1, 2))
def true_anomaly(vc):
    m = vc.m
    per, tp, e, w, k = orbit(vc)
    n = vc.size('n', min=1, sizes=(1, 2))
    t = vc.arr('t', n, gen=(-1e3, 1e3))
    s = vc.snapshot(t)
    used = None
    if vc.symbolic:
        used, solver = solver_contract(vc, None)
        vc.contract(radvel.kepler.kepler, solver)
    nu = radvel.orbit.true_anomaly(t, tp, per, e)
    vc.unchanged('times unchanged', t, s)
    many = not (vc.symbolic and not isinstance(n, int)) and n > 1 or (vc.symbolic and not isinstance(n, int) and vc.split(n > 1))
    for i in element(vc, n if many else 1):
        M0 = mean_anomaly(vc, t[i], per, tp)
        if used is not None:
            vc.prove('the solver is asked once', len(used) == 1)
            M, ecc = used[0]
            vc.prove_eq('mean anomaly (cosine)', m.cos(M[i]), m.cos(M0))
            vc.prove_eq('mean anomaly (sine)', m.sin(M[i]), m.sin(M0))
            vc.prove_eq('eccentricity given to the solver', ecc[i], e)
            E = root(vc, M[i], ecc[i])
        else:
            E = root(vc, M0, e)
        regular(vc, E, e)
        v = nu[i] if many else nu
        vc.prove_eq('cosine of the true anomaly', m.cos(v), (m.cos(E) - e) / (1 - e * m.cos(E)), tol=1e-6, scale=1)
        vc.prove_eq('sine of the true anomaly', m.sin(v), m.sqrt(1 - e * e) * m.sin(E) / (1 - e * m.cos(E)), tol=1e-6, scale=1)


@harness('C01', [K + 'rv_drive'], sizes=(1, 2))
def velocity(vc):
    """the public function, with either solver, for every eccentricity and period"""
    m = vc.m
    per = vc.real('per', ne=0, gen=[(.5, 1e3), (.5, 1e3), (-5., -.1)])
    tp = vc.real('tp', gen=(-1e3, 1e3))
    e = vc.real('e', lt=1, gen=[0., (0, .99), (0, .99), (.99, .9999), (-.5, 0)])
    w = vc.real('w', gen=(-7, 7))
    k = vc.real('k', gen=(-100, 100))
    compiled = vc.flag('compiled')
    n = vc.size('n', min=1, sizes=(1, 2))
    t = vc.arr('t', n, gen=(-1e3, 1e3))
    s = vc.snapshot(t)
    ee = m.ite(e > 0.99, 0.99, m.ite(e < 0, 0, e))
    pp = m.ite(per < 0, 1e-4, per)
    if vc.symbolic:
        circ = vc.split(e == 0)
        if vc.split(e > 0.99):
            ee = 0.99
        elif vc.split(e < 0):
            ee = 0
        else:
            ee = e
        pp = 1e-4 if vc.split(per < 0) else per
    else:
        circ = e == 0
    if circ:
        pp = per
    orbel = [per, tp, e, w, k]
    s2 = vc.snapshot(orbel)
    if vc.symbolic:
        vc.patch(EXT, 'rv_drive_array', lambda t, per, tp, e, w, k: vc.pointwise(
            lambda i: curve(vc, root(vc, mean_anomaly(vc, t[i], per, tp), e), e, w, k), vc.len(t)))
        nus = []

        def anomaly(t, tp, per, e):
            return vc.pointwise(lambda i: vc.opaque('nu', t[i], tp, per, e), vc.len(t))
        vc.contract(radvel.orbit.true_anomaly, anomaly)
    rv = radvel.kepler.rv_drive(t, orbel, use_c_kepler_solver=compiled)
    vc.unchanged('times unchanged', t, s)
    vc.unchanged('elements unchanged', orbel, s2)
    for i in element(vc, n):
        M0 = mean_anomaly(vc, t[i], pp, tp)
        if circ:
            v = k * m.cos(M0 + w)
        else:
            E = root(vc, M0, ee)
            regular(vc, E, ee)
            v = curve(vc, E, ee, w, k)
            if vc.symbolic and not compiled:
                # with the contract of true_anomaly this is the same curve
                v = k * (m.cos(vc.opaque('nu', t[i], tp, pp, ee) + w) + ee * m.cos(w))
        # the array solver gives a single value for a single time
        got = rv[i] if vc.symbolic or getattr(rv, 'ndim', 0) else rv
        vc.prove_eq('velocity', got, v, tol=1e-6 if pp == per or not vc.symbolic else None, scale=abs(k))

@harness('C01', [K + 'rv_drive'], sizes=(1, 2))
def velocity_without_extension(vc):
    """an installation without the compiled extension: the NumPy solver takes over, with the same curve
    (where the extension is first announced and then cannot be imported, a result, if there is one, is the curve too)"""
    m = vc.m
    per, tp, e, w, k = orbit(vc)
    vc.assume(e > 0)
    n = vc.size('n', min=1, sizes=(1, 2))
    t = vc.arr('t', n, gen=(-1e3, 1e3))
    announced = vc.flag('announced')
    if vc.symbolic:
        vc.contract(radvel.orbit.true_anomaly, lambda t, tp, per, e: vc.pointwise(
            lambda i: vc.opaque('nu', t[i], tp, per, e), vc.len(t)))
    sys.modules['radvel._kepler'] = None
    del radvel._kepler
    try:
        if announced and hasattr(radvel.kepler, '_check_cext'):
            vc.patch(radvel.kepler, '_check_cext', lambda: True)
        try:
            rv = radvel.kepler.rv_drive(t, [per, tp, e, w, k], use_c_kepler_solver=True)
        except ImportError:
            rv = None
    finally:
        sys.modules['radvel._kepler'] = EXT
        radvel._kepler = EXT
    if rv is None:
        vc.prove('announced, then missing', announced)
        return
    for i in element(vc, n):
        if vc.symbolic:
            v = k * (m.cos(vc.opaque('nu', t[i], tp, per, e) + w) + e * m.cos(w))
        else:
            E = root(vc, mean_anomaly(vc, t[i], per, tp), e)
            v = curve(vc, E, e, w, k)
        vc.prove_eq('velocity', rv[i] if vc.symbolic or getattr(rv, 'ndim', 0) else rv, v, tol=1e-6, scale=abs(k))

