"""C17: orbital phases, calendar conversions, printed durations."""
import datetime
from pyvc.api import harness
from common import BASES, params, set_vector, stub_times, synth
import radvel
import radvel.model
import radvel.utils

U = 'radvel.utils.'


def phase_facts(vc, name, ph, t, epoch, per):
    """ph is the fractional number of periods from the epoch to t"""
    x = (t - epoch) / per
    vc.prove(name + ': in [0,1)', vc.m.and_(vc.m.le(0, ph), ph < 1 if vc.symbolic else vc.m.le(ph, 1)))
    turns = x - ph
    vc.prove(name + ': whole periods from the epoch', vc.m.is_int(turns))


def check(vc, out, t, n, epoch, per, cat):
    m = 2 * n if cat else n
    vc.prove('number of phases', vc.m.eq(vc.len(out), m))
    i = vc.real('i', ge=0, integer=True) if vc.symbolic else None
    if vc.symbolic:
        vc.assume(i < n)
        picks = [i]
    else:
        picks = range(n)
    for j in picks:
        phase_facts(vc, 'phase', out[j], t[j], epoch, per)
        if cat:
            vc.prove_eq('second copy is one period later', out[n + j], out[j] + 1)


@harness('C17', [U + 't_to_phase'])
def phase(vc):
    basis = vc.choice('basis', [b for b in BASES if b.startswith('per ')] + ['per tp e w k, with tc'])
    npl = vc.choice('planets', [1, 2, 3])
    num = vc.choice('planet', list(range(1, npl + 1)))
    p = params(vc, basis.split(',')[0], npl)
    if 'with tc' in basis:
        p['tc%d' % num] = radvel.Parameter(value=vc.real('tc', gen=(-500., 500.)))
    epoch = p['tc%d' % num].value if 'tc%d' % num in p else p['tp%d' % num].value
    per = p['per%d' % num].value
    n = vc.size('n', min=0, sizes=(0, 1, 3))
    t = vc.arr('t', n, gen=(-1e3, 1e3))
    s = vc.snapshot(t)
    cat = vc.choice('cat', [False, True, None])
    out = radvel.utils.t_to_phase(p, t, num) if cat is None else radvel.utils.t_to_phase(p, t, num, cat=cat)
    check(vc, out, t, n, epoch, per, cat)
    vc.unchanged('times are not modified', t, s)
    vc.prove_eq('parameters are not modified', p['per%d' % num].value, per)


@harness('C17', [U + 't_to_phase_vector'])
def phase_vector(vc):
    """from the parameter vector: the phase relative to periastron"""
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', [1, 2, 3])
    num = vc.choice('planet', list(range(1, npl + 1)))
    tp_of, _ = stub_times(vc)
    p = params(vc, basis, npl, pre='p_')
    v = radvel.model.Vector(p)
    vals = set_vector(vc, v)
    for i in range(1, npl + 1):
        for a, b in (('secosw', 'sesinw'), ('ecosw', 'esinw')):
            if a in basis.split():
                e2 = vals['%s%d' % (a, i)]**2 + vals['%s%d' % (b, i)]**2
                vc.assume(vc.m.and_(e2 > 0, e2 < 1))
    o = synth(vc, basis, lambda k: vals['%s%d' % (k, num)], tp_of)
    sv = vc.snapshot(v.vector)
    if vc.flag('scalar'):
        t = vc.real('t', gen=(-1e3, 1e3))
        phase_facts(vc, 'phase', radvel.utils.t_to_phase_vector(v, t, num), t, o['tp'], o['per'])
    else:
        n = vc.size('n', min=0, sizes=(0, 1, 3))
        t = vc.arr('t', n, gen=(-1e3, 1e3))
        s = vc.snapshot(t)
        cat = vc.flag('cat')
        check(vc, radvel.utils.t_to_phase_vector(v, t, num, cat=cat), t, n, o['tp'], o['per'], cat)
        vc.unchanged('times are not modified', t, s)
    vc.unchanged('vector is not modified', v.vector, sv)


# ---- calendar ----------------------------------------------------------------------------------------------------
DAY = 86400 * 10**6     # microseconds
ORIGIN = datetime.datetime(2000, 1, 1, 12)


class Delta(object):
    """contract of datetime.timedelta: a whole number of microseconds, normalised as days, seconds, microseconds"""
    vc = None

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0, us=None):
        from pyvc.sym import Unsupported
        if us is None:
            x = days * DAY + (seconds * 10**6 + microseconds + milliseconds * 1000 + minutes * 60 * 10**6 +
                              hours * 3600 * 10**6 + weeks * 7 * DAY)
            us = Delta.vc.real('rounded%d' % Delta.count, integer=True)
            Delta.count += 1
            Delta.vc.assume(Delta.vc.m.and_(2 * us <= 2 * x + 1, 2 * us >= 2 * x - 1))
        self.us = us

    @property
    def days(self):
        return Delta.vc.m.floor(self.us / DAY)

    @property
    def seconds(self):
        return Delta.vc.m.floor((self.us - self.days * DAY) / 10**6)

    @property
    def microseconds(self):
        return self.us - self.days * DAY - self.seconds * 10**6

    def total_seconds(self):
        return self.us / 10**6

    def __truediv__(self, other):
        return self.us / other.us if isinstance(other, Delta) else Delta(us=None, microseconds=self.us / other)

    def __add__(self, other):
        return Date.make(self.us + other.us) if isinstance(other, Date) else Delta(us=self.us + other.us)

    def __getattr__(self, k):
        from pyvc.sym import Unsupported
        raise Unsupported('timedelta.' + k)


class Date(object):
    """contract of datetime.datetime: microseconds since 2000-01-01 12:00"""
    def __init__(self, *a, **k):
        d = datetime.datetime(*a, **k) - ORIGIN
        self.us = d.days * DAY + d.seconds * 10**6 + d.microseconds

    @classmethod
    def make(cls, us):
        r = cls.__new__(cls)
        r.us = us
        return r

    def __sub__(self, other):
        return Delta(us=self.us - other.us) if isinstance(other, Date) else Date.make(self.us - other.us)

    def __add__(self, other):
        return Date.make(self.us + other.us)
    __radd__ = __add__

    def __getattr__(self, k):
        from pyvc.sym import Unsupported
        raise Unsupported('datetime.' + k)


def calendar(vc):
    """(make a date from microseconds since ORIGIN, microseconds of a date)"""
    if vc.symbolic:
        Delta.vc, Delta.count = vc, 0
        vc.patch(radvel.utils, 'datetime', Date)
        vc.patch(radvel.utils, 'timedelta', Delta)
        return Date.make, lambda d: d.us

    def of(d):
        x = d - ORIGIN
        return x.days * DAY + x.seconds * 10**6 + x.microseconds
    return (lambda us: ORIGIN + datetime.timedelta(microseconds=int(us))), of


@harness('C17', [U + 'date2jd', U + 'jd2date'], modes=('unbounded',),
         note='datetime and timedelta by contract (whole microseconds); leap seconds do not exist in either')
def calendar_dates(vc):
    make, us_of = calendar(vc)
    us = vc.real('microseconds', integer=True, gen=[(-2e15, 2e15), (-1e9, 1e9), 0., 1.5e6, -43200e6, 43199.999999e6])
    us = us if vc.symbolic else int(us)
    d = make(us)
    jd = radvel.utils.date2jd(d)
    vc.prove_eq('Julian date', jd, 2451545 + us / DAY, tol=1e-9)
    back = us_of(radvel.utils.jd2date(jd))
    # a double holds a Julian date to 40 microseconds
    vc.prove('calendar date -> Julian date -> calendar date', vc.m.le(vc.m.abs(back - us), 0 if vc.symbolic else 100))


@harness('C17', [U + 'jd2date', U + 'date2jd'], modes=('unbounded',))
def julian_dates(vc):
    make, us_of = calendar(vc)
    jd = vc.real('jd', ge=1721426, le=5373480, gen=[(1721426., 5373480.), 2451545., 2440587.5])
    d = radvel.utils.jd2date(jd)
    # to the half microsecond of the calendar type; a double holds a Julian date to 40 microseconds
    vc.prove('calendar date of a Julian date', vc.m.le(vc.m.abs(us_of(d) - (jd - 2451545) * DAY), .5 if vc.symbolic else 100))
    vc.prove('and back', vc.m.le(vc.m.abs(radvel.utils.date2jd(d) - jd) * DAY, .5 if vc.symbolic else 200))


@harness('C17', [U + 'time_print'])
def durations(vc):
    t = vc.real('seconds', ge=0, gen=[(0., 200.), (60., 9000.), (3600., 4e5), 60., 3600., 86400., 0.])
    out = radvel.utils.time_print(t)
    vc.prove_same('pair', len(out), 2)
    size = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}[out[1]]
    vc.prove_eq('the same duration', out[0] * size, t)
    want = vc.m.and_(*{'seconds': [t <= 60], 'minutes': [t > 60, t <= 3600], 'hours': [t > 3600, t <= 86400],
                       'days': [t > 86400]}[out[1]])
    vc.prove('unit its size calls for', want)
