"""C15: binning in time, per telescope."""
import numpy as np
from pyvc.api import harness
import radvel
import radvel.utils

U = 'radvel.utils.'


class Window(object):
    """Loop contract of timebin.  Ghost state: `ct` is the first measurement (in time order) that is in no bin yet.
    Every iteration adds one bin, whose members are exactly the next ones, ct <= i < end: by induction over the
    iterations the bins are consecutive intervals from 0 to n, so every measurement is in exactly one bin."""
    def __init__(self, vc, n, b):
        self.vc, self.n, self.b = vc, n, b
        self.entered = self.stepped = 0

    def arrays(self, st):
        return st['time'], st['meas'], st['meas_err']

    def end(self, st, a, tag):
        """the first measurement at or after the end of the window that starts with measurement a (well-ordering)"""
        vc = self.vc
        t = st['time']
        e = vc.real('end of the bin ' + tag, integer=True)
        vc.assume(e > a)
        vc.assume(e <= self.n)
        vc.assume(t[e - 1] < t[a] + self.b)
        vc.assume(vc.m.or_(e >= self.n, t[e] >= t[a] + self.b))
        return e

    def bin(self, st, a, items, tag):
        vc, m = self.vc, self.vc.m
        t, y, s = self.arrays(st)
        n = self.n
        member = lambda i: m.and_(t[i] >= t[a], t[i] < t[a] + self.b)
        wsum = lambda f: m.total(n, lambda i: m.ite(member(i), f(i) / s[i] ** 2, 0))
        W = wsum(lambda i: 1)
        vc.prove('one value per bin in each list', [len(i) for i in items] == [1, 1, 1])
        vc.prove_eq('time: inverse-variance weighted mean of the members', items[0][0], wsum(lambda i: t[i]) / W)
        vc.prove_eq('velocity: inverse-variance weighted mean of the members', items[1][0], wsum(lambda i: y[i]) / W)
        vc.prove_eq('error: propagated error of the mean', items[2][0], 1 / m.sqrt(W))
        e = self.end(st, a, tag)

        def hint(k):
            vc.at(k)
            for i, j in ((a, k), (k, e - 1), (e, k), (k, a)):
                vc.sorted_pair(t, i, j)
        vc.count_interval('members of a bin are consecutive measurements', n, member, a, e, hint)
        return e

    def invariant(self, st, e):
        """everything before the next bin is earlier than its first measurement"""
        vc, m = self.vc, self.vc.m
        t = st['time']

        def hint(k):
            vc.at(k)
            vc.sorted_pair(t, k, e - 1)
        vc.prove_forall('measurements of earlier bins are earlier', e, lambda i: m.or_(e >= self.n, t[i] < t[e]), hint)

    def entry(self, st):
        vc = self.vc
        self.entered += 1
        e = self.bin(st, 0, [st['time_out'], st['meas_out'], st['meas_err_out']], 'first')
        vc.prove_eq('the next bin starts after the members of this one', st['ct'], e)
        self.invariant(st, e)

    def assume(self, st):
        vc, m = self.vc, self.vc.m
        t, ct = st['time'], st['ct']
        vc.assume(ct >= 1)
        vc.assume(ct <= self.n)
        vc.assume(m.or_(ct >= self.n, m.forall(ct, lambda i: t[i] < t[ct])))

    def step(self, pre, post, added):
        vc = self.vc
        self.stepped += 1
        a = pre['ct']
        e = self.bin(pre, a, [added['time_out'], added['meas_out'], added['meas_err_out']], 'next')
        vc.prove_eq('the next bin starts after the members of this one', post['ct'], e)
        self.invariant(pre, e)


def inputs(vc, n):
    # (real-code runs: half of the times lie on a grid, so that ties and bin edges are hit exactly)
    grid = not vc.symbolic and vc.flag('grid')
    t = vc.arr('t', n, gen=[.25 * k for k in range(40)] if grid else (0., 10.))
    y = vc.arr('y', n, gen=(-10., 10.))
    s = vc.arr('s', n, gt=0, gen=(.1, 5.))
    return t, y, s


@harness('C15', [U + 'timebin'], modes=('unbounded',), runs=0)
def every_bin(vc):
    n = vc.size('n', min=1)
    t, y, s = inputs(vc, n)
    b = vc.real('binsize', gt=0)
    snaps = [vc.snapshot(a) for a in (t, y, s)]
    w = Window(vc, n, b)
    vc.loop('timebin', w)
    r = radvel.utils.timebin(t, y, s, b)
    # reached once all measurements are in a bin
    vc.prove('three lists', len(r) == 3)
    vc.prove_same('the lists are the ones filled by the loop', [x.name for x in r], ['time_out', 'meas_out', 'meas_err_out'])
    vc.prove('no other element', all(not x.added and len(x.first) == 1 for x in r))
    vc.cover('finished')
    for a, q in zip((t, y, s), snaps):
        vc.unchanged('inputs are not modified', a, q)


def reference(vc, t, y, s, b):
    """independent statement for a concrete number of measurements: greedy windows over the time-ordered data"""
    m = vc.m
    left = list(range(len(t)))
    out = []
    while left:
        a = left[0]
        for i in left[1:]:
            if vc.split(t[i] < t[a]):
                a = i
        mem = [i for i in left if vc.split(t[i] < t[a] + b)]
        W = sum(1 / s[i] ** 2 for i in mem)
        out.append((sum(t[i] / s[i] ** 2 for i in mem) / W, sum(y[i] / s[i] ** 2 for i in mem) / W, 1 / m.sqrt(W), mem))
        left = [i for i in left if i not in mem]
    return out


@harness('C15', [U + 'timebin'], sizes=[1, 2, 3], modes=('bounded',), runs=300,
         note='the whole result at once for up to three measurements (every_bin covers any number)')
def whole(vc):
    n = vc.size('n', min=1)
    t, y, s = inputs(vc, n)
    b = vc.real('binsize', gt=0, gen=[(.05, 3.), .25, .5, 1.])
    snaps = [vc.snapshot(a) for a in (t, y, s)]
    r = radvel.utils.timebin(t, y, s, b)
    ref = reference(vc, t, y, s, b)
    vc.prove('number of bins', [len(x) for x in r] == [len(ref)] * 3)
    for k, (a, v, e, mem) in enumerate(ref):
        vc.prove_eq('time', r[0][k], a)
        vc.prove_eq('velocity', r[1][k], v)
        vc.prove_eq('error', r[2][k], e)
    vc.prove_eq('total weight', sum(1 / e ** 2 for e in r[2]), sum(1 / x ** 2 for x in s))
    for a, q in zip((t, y, s), snaps):
        vc.unchanged('inputs are not modified', a, q)


@harness('C15', [U + 'bintels', U + 'timebin'], runs=300)
def telescopes(vc):
    """any number of measurements of one, two, three or five telescopes"""
    m = vc.m
    n = vc.size('n', min=1)
    T = vc.choice('telescopes', [['k'], ['k', 'j'], ['a', 'k', 'apf'], ['harps', 'j', 'k', 'a', 'hires_pre']])
    tel = vc.labels('telescope', n, T)
    t, y, s = inputs(vc, n)
    b = vc.real('binsize', gt=0, gen=[(.05, 3.), .25, .5, 1.])
    default = not vc.symbolic and vc.flag('default binsize')
    calls = []

    def stub(time, meas, meas_err, binsize=None):
        k = len(calls)
        nb = vc.size('bins %d' % k, min=1)
        vc.assume(nb <= vc.len(time))      # every bin has a member (see every_bin)
        out = [vc.arr('%s %d' % (q, k), nb) for q in ('time', 'velocity', 'error')]
        calls.append((time, meas, meas_err, binsize, nb, out))
        return tuple(out)
    vc.contract(radvel.utils.timebin, stub)
    snaps = [vc.snapshot(a) for a in (t, y, s)]
    r = radvel.utils.bintels(t, y, s, tel, **({} if default else {'binsize': b}))
    for a, q in zip((t, y, s), snaps):
        vc.unchanged('inputs are not modified', a, q)
    if vc.symbolic:
        vc.prove('every telescope is binned separately', len(calls) == len(T))
        runs = vc.runs(r[3])
        vc.prove('one label per telescope', sorted(l for l, _ in runs) == sorted(T))
        for k, c in enumerate(calls):
            l = runs[k][0]
            for got, src, what in zip(c[:3], (t, y, s), ('times', 'velocities', 'errors')):
                vc.prove_eq(what + ' of exactly this telescope', got, src if len(T) == 1 else vc.select(src, tel, l))
            vc.prove_eq('binsize', c[3], b)
            vc.prove_eq('one label per bin', runs[k][1], c[4])
        for j, what in enumerate(('times', 'velocities', 'errors')):
            vc.prove_eq('binned %s in the order of the labels' % what, r[j], vc.joined([c[5][j] for c in calls]))
        return
    bs = .5 if default else b
    rows = []
    for l in sorted(set(tel)):
        i = tel == l
        rows += [(l, a, v, e) for a, v, e, _ in reference(vc, t[i], y[i], s[i], bs)]
    vc.prove('as many labels as bins', [len(x) for x in r] == [len(rows)] * 4)
    got = sorted(zip(r[3], *[[float(v) for v in x] for x in r[:3]]))
    vc.prove('bins of each telescope', len(got) == len(rows))
    for g, w in zip(got, sorted(rows)):
        vc.prove_same('label', str(g[0]), str(w[0]))
        for x, z in zip(g[1:], w[1:]):
            vc.prove_eq('binned values', x, z)
