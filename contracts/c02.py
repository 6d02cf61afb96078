"""C02: transit / periastron times."""
from pyvc.api import harness
import warnings
import radvel
import radvel.orbit

F1 = 'radvel.orbit.timetrans_to_timeperi'
F2 = 'radvel.orbit.timeperi_to_timetrans'
GP = [(0.1, 5.), (1., 1e4)]
GE = [0., 1e-3, 0.5, 0.95, (0., 0.97)]
GW = [0., 1.5707963, 3.0, -1.2, (-7., 7.)]


def orbit(vc, np=False):
    return (vc.real('per', gt=0, gen=GP, np=np), vc.real('e', ge=0, lt=1, gen=GE, np=np),
            vc.real('w', gen=GW, np=np))


def kepler_time(vc, tp, per, e, E):
    """time at which the eccentric anomaly is E"""
    return tp + per / (2 * vc.m.pi) * (E - e * vc.m.sin(E))


@harness('C02', [F1, F2])
def roundtrip(vc):
    np = vc.choice('np', [False, True])
    per, e, w = orbit(vc, np)
    t = vc.real('t', gen=[(-1e4, 1e4)], np=np)
    o = radvel.orbit
    tp = o.timetrans_to_timeperi(t, per, e, w)
    vc.prove_eq('tc -> tp -> tc', o.timeperi_to_timetrans(tp, per, e, w), t, scale=10)
    tc = o.timeperi_to_timetrans(t, per, e, w)
    vc.prove_eq('tp -> tc -> tp', o.timetrans_to_timeperi(tc, per, e, w), t, scale=10)


@harness('C02', [F1, F2])
def true_anomaly_at_conjunction(vc):
    """The mean anomaly at tc, (2 pi/P)(tc-tp) = E - e sin E for the E of true anomaly pi/2-w (Kepler's equation)."""
    m = vc.m
    per, e, _ = orbit(vc)
    tp = vc.real('tp', gen=[(-1e3, 1e3)])
    # the true anomaly f at conjunction (not apastron, where tan(f/2) has its pole) determines w
    f = vc.real('f', gen=[0., (-6., 6.)])
    vc.assume(m.cos(f) > -0.9999999)
    w = m.pi / 2 - f
    E = 2 * m.atan(m.tan(f / 2) * m.sqrt((1 - e) / (1 + e)))
    # E is the eccentric anomaly of true anomaly f
    vc.prove_eq('cos of the true anomaly', (m.cos(E) - e) / (1 - e * m.cos(E)), m.sin(w), tol=1e-5)
    vc.prove_eq('sin of the true anomaly', m.sqrt(1 - e * e) * m.sin(E) / (1 - e * m.cos(E)), m.cos(w), tol=1e-5)
    tc = radvel.orbit.timeperi_to_timetrans(tp, per, e, w)
    vc.prove_eq('tc is the time of eccentric anomaly E', tc, kepler_time(vc, tp, per, e, E), scale=10)
    vc.prove_eq('tp from tc', radvel.orbit.timetrans_to_timeperi(tc, per, e, w), tp, scale=10)


@harness('C02', [F1, F2])
def unbound_orbits(vc):
    per, w, t = vc.real('per', gt=0), vc.real('w'), vc.real('t')
    e = vc.real('e', ge=1)
    vc.prove_eq('e>=1: periastron', radvel.orbit.timetrans_to_timeperi(t, per, e, w), t)
    vc.prove_eq('e>=1: transit', radvel.orbit.timeperi_to_timetrans(t, per, e, w), t)


@harness('C02', [F1, F2])
def arrays(vc):
    n = vc.size('n', min=2, sizes=(2, 3))
    per = vc.arr('per', n, gt=0, gen=(1, 100))
    e = vc.arr('e', n, ge=0, lt=1, gen=(0, .95))
    w = vc.arr('w', n, gen=(-6, 6))
    t = vc.arr('t', n, gen=(-100, 100))
    s = [vc.snapshot(x) for x in (per, e, w, t)]
    o = radvel.orbit
    tp = o.timetrans_to_timeperi(t, per, e, w)
    vc.prove_eq('array tc -> tp -> tc', o.timeperi_to_timetrans(tp, per, e, w), t, scale=10)
    for x, q in zip((per, e, w, t), s):
        vc.unchanged('inputs unchanged', x, q)


@harness('C02', [F1, F2])
def elementwise(vc):
    """arrays give, element by element, what single values give, also where some elements are unbound"""
    n = vc.size('n', min=2, sizes=(2, 3))
    per = vc.arr('per', n, gt=0, gen=(1, 100))
    e = vc.arr('e', n, ge=0, gen=[(0, .95), (1., 1.5)])
    w = vc.arr('w', n, gen=(-6, 6))
    t = vc.arr('t', n, gen=(-100, 100))
    which = vc.choice('which', ['tp', 'tc', 'eclipse'])
    o = radvel.orbit
    f = {'tp': o.timetrans_to_timeperi, 'tc': o.timeperi_to_timetrans,
         'eclipse': lambda *a: o.timeperi_to_timetrans(*a, secondary=True)}[which]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = f(t, per, e, w)
    for i in ([vc.real('i', ge=0, integer=True)] if vc.symbolic and not isinstance(n, int) else range(n)):
        vc.assume(i < n)
        if vc.symbolic:
            # the tangent has a pole at apastron
            vc.assume(vc.m.cos((3 if which == 'eclipse' else 1) * vc.m.pi / 2 - w[i]) > -0.9999999)
        vc.prove_eq('element', out[i], f(t[i], per[i], e[i], w[i]), scale=10)
    vc.prove('number of elements', vc.m.eq(vc.len(out), n))


@harness('C02', [F2])
def secondary_eclipse(vc):
    m = vc.m
    np = vc.choice('np', [False, True])
    per, e, _ = orbit(vc, np)
    tp = vc.real('tp', gen=[(-1e3, 1e3)], np=np)
    f = vc.real('f', gen=[(-6., -0.01), (0.01, 6.)], np=np)
    vc.assume(m.cos(f) > -0.9999999)
    w = 3 * m.pi / 2 - f
    E0 = 2 * m.atan(m.tan(f / 2) * m.sqrt((1 - e) / (1 + e)))
    E = m.ite(E0 < 0, E0 + 2 * m.pi, E0)
    ts = radvel.orbit.timeperi_to_timetrans(tp, per, e, w, secondary=True)
    vc.prove_eq('secondary eclipse time', ts, kepler_time(vc, tp, per, e, E), scale=10)


@harness('C02', [F1, F2])
def angle_is_periodic(vc):
    """one more turn of the periastron angle is the same orbit"""
    per, e, w = orbit(vc)
    t = vc.real('t', gen=[(-1e3, 1e3)])
    o = radvel.orbit
    w2 = w + 2 * vc.m.pi
    vc.prove_eq('tp', o.timetrans_to_timeperi(t, per, e, w2), o.timetrans_to_timeperi(t, per, e, w), scale=10)
    vc.prove_eq('tc', o.timeperi_to_timetrans(t, per, e, w2), o.timeperi_to_timetrans(t, per, e, w), scale=10)
