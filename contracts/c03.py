"""C03: every orbital basis describes the same orbit."""
from pyvc.api import harness
from common import BASES, draw, params, set_vector, stub_times, synth, in_basis, values
import radvel
import radvel.model
import radvel.basis
import radvel.orbit

B = 'radvel.basis.Basis.'
SYN = 'per tp e w k'
FLAGS = ['all', 'none', 'mixed']


def orbit_params(vc, basis, npl):
    """a dictionary of parameters in this basis, with flags, steps, instrument and trend parameters"""
    pattern = vc.choice('vary', FLAGS)
    p = radvel.Parameters(npl, basis=basis, planet_letters={1: 'd', 2: 'x', 3: 'y'} if pattern == 'mixed' else None)
    spec = {}
    for i, k in enumerate(list(p.keys()) + ['gamma_j', 'jit_j', 'dvdt', 'curv']):
        val = draw(vc, k)
        vary = {'all': True, 'none': False, 'mixed': i % 3 != 1}[pattern]
        step = .5 * i if i % 2 else None
        p[k] = radvel.Parameter(value=val, vary=vary, mcmcscale=step, linear=k == 'gamma_j' and pattern == 'mixed')
        spec[k] = (val, vary, step)
    for i in range(1, npl + 1):
        for a, b in (('secosw', 'sesinw'), ('ecosw', 'esinw')):
            if a in basis.split():
                e2 = spec['%s%d' % (a, i)][0]**2 + spec['%s%d' % (b, i)][0]**2
                vc.assume(vc.m.and_(e2 > 0, e2 < 1))
    return p, spec


def getter(spec, i):
    return lambda k: spec['%s%d' % (k, i)][0]


def check_flags(vc, out, spec, names):
    for k in spec:
        if k in out and (k in names or not k[-1:].isdigit()):
            vc.prove_same('vary flags of shared parameters are kept', (k, out[k].vary), (k, spec[k][1]))
            vc.prove_same('steps of shared parameters are kept', (k, out[k].mcmcscale), (k, spec[k][2]))
        if not k[-1:].isdigit():
            vc.prove_eq('other parameters are kept', out[k].value, spec[k][0])


def dsnap(vc, p):
    return (vc.snapshot(p.basis.name), list(p.keys()), {k: (p[k].value, p[k].vary, p[k].mcmcscale, id(p[k])) for k in p},
            p.num_planets, p.planet_letters, list(p.planet_parameters), list(p.basis.params))


def dsame(vc, name, p, s):
    vc.prove_same(name, (p.basis.name, list(p.keys()), p.num_planets, p.planet_letters, p.planet_parameters, p.basis.params),
                  (s[0][1], s[1], s[3], s[4], s[5], s[6]))
    for k in p:
        vc.prove_eq(name, p[k].value, s[2][k][0])
        vc.prove_same(name, (p[k].vary, p[k].mcmcscale, id(p[k])), s[2][k][1:])


@harness('C03', [B + 'to_synth', 'radvel.basis._copy_params'])
def to_synth(vc):
    basis = vc.choice('basis', BASES + ['per tc tp e w k'])
    npl = vc.choice('planets', [1, 2, 3])
    tp_of, tc_of = stub_times(vc)
    p, spec = orbit_params(vc, basis, npl)
    stale = vc.flag('leftovers of an earlier basis')
    if stale:
        for i in range(1, npl + 1):
            for k in SYN.split():
                if k not in basis.split():
                    p['%s%d' % (k, i)] = radvel.Parameter(value=vc.real('leftover_%s%d' % (k, i)), vary=False)
    s = dsnap(vc, p)
    novary = vc.choice('noVary', [None, True, False])
    out = p.basis.to_synth(p) if novary is None else p.basis.to_synth(p, noVary=novary)
    vc.prove_same('basis of the result', (out.basis.name, out.num_planets, out.planet_letters), (SYN, npl, p.planet_letters))
    for i in range(1, npl + 1):
        ref = synth(vc, basis, getter(spec, i), tp_of)
        for k in ref:
            vc.prove_eq(k, out['%s%d' % (k, i)].value, ref[k])
            if '%s%d' % (k, i) not in spec and not stale:
                vc.prove_same('flag of a new parameter', out['%s%d' % (k, i)].vary, True if novary is False else '')
    check_flags(vc, out, spec, list(spec))
    dsame(vc, 'the input is not modified', p, s)
    vec = radvel.model.Vector(out)
    for i in range(1, npl + 1):
        ref = synth(vc, basis, getter(spec, i), tp_of)
        for j, k in enumerate(SYN.split()):
            vc.prove_eq('its vector', vec.vector[5 * (i - 1) + j][0], ref[k])


@harness('C03', [B + 'v_to_synth'])
def vector_to_synth(vc):
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', [1, 2, 3])
    tp_of, tc_of = stub_times(vc)
    p, spec = orbit_params(vc, basis, npl)
    v = radvel.model.Vector(p)
    s = vc.snapshot(v.vector)
    novary = vc.choice('noVary', [None, True, False])
    arg = v.vector if vc.flag('array given') else v
    kw = {} if novary is None else {'noVary': novary}
    out = p.basis.v_to_synth(arg, **kw)
    ref = p.basis.to_synth(p, **kw)
    vc.prove_same('shape', out.shape, v.vector.shape)
    for i in range(1, npl + 1):
        want = synth(vc, basis, getter(spec, i), tp_of)
        for j, k in enumerate(SYN.split()):
            r = out[5 * (i - 1) + j]
            vc.prove_eq(k, r[0], want[k])
            key = '%s%d' % (k, i)
            vc.prove_eq('vary flag as in the dictionary', r[1], 1. if ref[key].vary else 0.)
    for k in ('gamma_j', 'jit_j', 'dvdt', 'curv'):
        for c in range(4):
            vc.prove_eq('other rows kept', out[v.indices[k]][c], v.vector[v.indices[k]][c])
    vc.unchanged('the input is not modified', v.vector, s)


def synth_params(vc, npl):
    return orbit_params(vc, SYN, npl)


@harness('C03', [B + 'from_synth'])
def from_synth(vc):
    basis = vc.choice('basis', BASES + ['per tc tp e w k'])
    npl = vc.choice('planets', [1, 2, 3])
    tp_of, tc_of = stub_times(vc)
    p, spec = synth_params(vc, npl)
    s = dsnap(vc, p)
    keep = vc.choice('keep', [None, True, False])
    out = p.basis.from_synth(p, basis) if keep is None else p.basis.from_synth(p, basis, keep=keep)
    vc.prove_same('basis of the result', (out.basis.name, out.num_planets, out.planet_letters), (basis, npl, p.planet_letters))
    for i in range(1, npl + 1):
        ref = in_basis(vc, basis, {k: spec['%s%d' % (k, i)][0] for k in SYN.split()}, tc_of)
        for k in ref:
            vc.prove_eq(k, out['%s%d' % (k, i)].value, ref[k])
            if '%s%d' % (k, i) not in spec:
                vc.prove_same('new parameters are free', out['%s%d' % (k, i)].vary, True)
        if keep is not False:
            for k in SYN.split():
                vc.prove_eq('kept', out['%s%d' % (k, i)].value, spec['%s%d' % (k, i)][0])
        else:
            vc.prove_same('only the new basis remains', sorted(k for k in out if k[-1] == str(i)), sorted('%s%d' % (k, i) for k in ref))
    check_flags(vc, out, spec, [k for k in spec])
    dsame(vc, 'the input is not modified', p, s)
    if basis != 'per tc tp e w k':
        vec = radvel.model.Vector(out)
        for i in range(1, npl + 1):
            ref = in_basis(vc, basis, {k: spec['%s%d' % (k, i)][0] for k in SYN.split()}, tc_of)
            for k in ref:
                vc.prove_eq('its vector', vec.vector[vec.indices['%s%d' % (k, i)]][0], ref[k])


@harness('C03', [B + 'v_from_synth'])
def vector_from_synth(vc):
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', [1, 2, 3])
    tp_of, tc_of = stub_times(vc)
    p, spec = synth_params(vc, npl)
    v = radvel.model.Vector(p)
    s = vc.snapshot(v.vector)
    out = p.basis.v_from_synth(v.vector if vc.flag('array given') else v, basis)
    ref = p.basis.from_synth(p, basis)
    for i in range(1, npl + 1):
        want = in_basis(vc, basis, {k: spec['%s%d' % (k, i)][0] for k in SYN.split()}, tc_of)
        for j, k in enumerate(basis.split()):
            key = '%s%d' % (k, i)
            vc.prove_eq(k, out[v.indices[key]][0], want[k])
            vc.prove_eq('vary flag as in the dictionary', out[v.indices[key]][1], 1. * ref[key].vary)
    for k in ('gamma_j', 'jit_j', 'dvdt', 'curv'):
        for c in range(4):
            vc.prove_eq('other rows kept', out[v.indices[k]][c], v.vector[v.indices[k]][c])
    vc.unchanged('the input is not modified', v.vector, s)


def same_angle(vc, name, a, b):
    vc.prove_eq(name + ' (cosine)', vc.m.cos(a), vc.m.cos(b))
    vc.prove_eq(name + ' (sine)', vc.m.sin(a), vc.m.sin(b))


@harness('C03', [B + 'to_any_basis', B + 'v_to_any_basis'], max_paths=6000)
def any_to_any(vc):
    """from any basis to any other: the same orbit; and back: the same parameters"""
    b1, b2 = vc.choice('from', BASES), vc.choice('to', BASES)
    tp_of, tc_of = stub_times(vc)
    form = vc.choice('form', ['dictionary', 'vector'])
    p, spec = orbit_params(vc, b1, vc.choice('planets', [1, 2]))
    npl = p.num_planets
    v = radvel.model.Vector(p)
    for i in range(1, npl + 1):
        if 'e' in b1.split() or 'se' in b1.split():
            vc.assume(synth(vc, b1, getter(spec, i), tp_of)['e'] > 0)
    if form == 'dictionary':
        s = dsnap(vc, p)
        q = p.basis.to_any_basis(p, b2)
        dsame(vc, 'the input is not modified', p, s)
        sq = dsnap(vc, q)
        r = q.basis.to_any_basis(q, b1)
        dsame(vc, 'the input is not modified', q, sq)
        g2 = lambda i: (lambda k: q['%s%d' % (k, i)].value)
        g1 = lambda i: (lambda k: r['%s%d' % (k, i)].value)
        vec = radvel.model.Vector(q)
        for k in q:
            if k[-1:].isdigit() and k[:-1] in b2.split():
                vc.prove_eq('its vector', vec.vector[vec.indices[k]][0], q[k].value)
        for k in ('gamma_j', 'jit_j', 'dvdt', 'curv'):
            vc.prove_eq('other parameters', r[k].value, spec[k][0])
    else:
        a = p.basis.v_to_any_basis(v, b2)
        c = radvel.basis.Basis(b2, npl).v_to_any_basis(a, b1)
        g2 = lambda i: (lambda k: a[v.indices['%s%d' % (k, i)]][0])
        g1 = lambda i: (lambda k: c[v.indices['%s%d' % (k, i)]][0])
    for i in range(1, npl + 1):
        o1, o2 = synth(vc, b1, getter(spec, i), tp_of), synth(vc, b2, g2(i), tp_of)
        for k in ('per', 'e', 'k'):
            vc.prove_eq('same ' + k, o2[k], o1[k])
        same_angle(vc, 'same w', o2['w'], o1['w'])
        vc.prove_eq('same tp', o2['tp'], o1['tp'], scale=10)
        for k in b1.split():
            if k == 'w':
                same_angle(vc, 'back: w', g1(i)(k), getter(spec, i)(k))
            elif k == 'se':
                vc.prove_eq('back: e', g1(i)(k)**2, getter(spec, i)(k)**2)
            else:
                vc.prove_eq('back: ' + k, g1(i)(k), getter(spec, i)(k), scale=10 if k in ('tc', 'tp') else None)


@harness('C03', [B + 'to_synth', B + 'from_synth'], note='tables of three samples; the conversions are columnwise')
def tables(vc):
    """the table form agrees with the dictionary form, row by row"""
    import pandas as pd
    import numpy as np
    basis = vc.choice('basis', BASES)
    npl = vc.choice('planets', [1, 2])
    direction = vc.choice('direction', ['to', 'from', 'from, keep=False'])
    tp_of, tc_of = stub_times(vc)
    src = basis if direction == 'to' else SYN
    rows, nrow = [], 2
    for j in range(nrow):
        spec = {}
        for i in range(1, npl + 1):
            for k in src.split():
                spec['%s%d' % (k, i)] = draw(vc, k, '%s%d[%d]' % (k, i, j))
            for a, b in (('secosw', 'sesinw'), ('ecosw', 'esinw')):
                if a in src.split():
                    e2 = spec['%s%d' % (a, i)]**2 + spec['%s%d' % (b, i)]**2
                    vc.assume(vc.m.and_(e2 > 0, e2 < 1))
        spec['gamma_j'] = draw(vc, 'gamma_j', 'gamma_j[%d]' % j)
        rows.append(spec)
    table = pd.DataFrame({k: pd.Series([r[k] for r in rows], index=[5, 3], dtype=object if vc.symbolic else float)
                          for k in rows[0]})
    before = table.copy()
    bs = radvel.basis.Basis(src, npl)
    if direction == 'to':
        out = bs.to_synth(table)
    else:
        out = bs.from_synth(table, basis, **({'keep': False} if 'keep' in direction else {}))
    vc.prove_same('the basis object is not changed', (bs.name, bs.params), (src, src.split()))
    vc.prove_same('the input keeps its columns', (list(table.columns), list(table.index)), (list(before.columns), [5, 3]))
    for j in range(nrow):
        for k in rows[0]:
            vc.prove_eq('the input is not modified', table[k].iloc[j], rows[j][k])
        for i in range(1, npl + 1):
            get = lambda k: rows[j]['%s%d' % (k, i)]
            if direction == 'to':
                ref = synth(vc, basis, get, tp_of)
            else:
                ref = in_basis(vc, basis, {k: get(k) for k in SYN.split()}, tc_of)
            for k in ref:
                vc.prove_eq(k, out['%s%d' % (k, i)].iloc[j], ref[k])
            if 'keep' in direction:
                vc.prove_same('old columns dropped', sorted(c for c in out.columns if c[-1] == str(i)),
                              sorted('%s%d' % (k, i) for k in basis.split()))
        vc.prove_eq('other columns', out['gamma_j'].iloc[j], rows[j]['gamma_j'])
