"""Structural data: S01..S13 (queries on model and result data)."""
import os

import numpy as np

from vlib import asm as A
from vlib import fem
from vlib import sif as S
from vlib import soup
from vlib.runner import prop
from checks.conv import ASSUME, fs

SASSUME = ASSUME + [
    'internal node and element numbers run 1..n in file order and results '
    'are stored result case by result case in ascending internal number, as '
    'in the real files',
    'the result point tables are the ones of the element types supported']


class Opened(object):
    """one data set opened some way; close() ends it"""


def store(ctx, m, fname, recs):
    fmt = bool(ctx.i(0, 1))
    S.write(fname, recs, fmt)
    return fmt


def reach(ctx, fname, group, how=None, out='x.h5'):
    """convert and open by one of the documented ways"""
    F = fs()
    how = how or ctx.pick(['file', 'file', 'mem', 'sif'])
    if how == 'sif':
        d = F.open_sif(fname)
        ctx.state('way', how)
        return d, d.close
    if how == 'mem':
        f = F.open_hdf5  # noqa
        from freesif.data.file import File
        f = File(F.sif2hdf5(fname, in_memory=True))
    else:
        F.sif2hdf5(fname, out)
        f = F.open_hdf5(out)
    ctx.state('way', how)
    ctx.obs('opened')
    return f[group], f.close


def single(ctx, family=None, bigs=('mid',), **k):
    """-> (model, data object, close); now and then a big one, of one of
    the given kinds"""
    with ctx.gen():
        family = family or ctx.pick(['T', 'R'])
        if bigs and (ctx.p(.03) or (ctx.idx == 0 and 'full' in bigs)):
            big = 'full' if ctx.idx == 0 and 'full' in bigs else \
                ctx.pick(bigs)
            if big in ('elems', 'full'):
                family = 'T'
            if k.get('cases') is None and k.get('nelem') is None:
                k['big'] = big
                ctx.obs('big_' + big)
        m = fem.make(ctx.V, family, **k)
        num = ctx.i(1, 99)
        fname = '%s%d.%s' % (family, num, 'FEM' if family == 'T' else
                             ctx.pick(['SIF', 'SIU']))
        store(ctx, m, fname, fem.records(m, num))
        ctx.note = '{} types {} nelem {} nnodes {} sets {} cases {}'.format(
            fname, sorted(set(m.eltyp.tolist())), m.nelem, m.nnodes,
            {k_: v['elem'].tolist()[:50] for k_, v in m.sets.items()},
            m.cases)
    d, close = reach(ctx, fname, '%s%d' % (family, num))
    return m, d, close


def some_sets(ctx, m):
    """one of the ways to name sets"""
    names = sorted(m.sets)
    k = ctx.i(0, 5)
    if m.spelled and ctx.p(.3):
        whole = ctx.pick(sorted(m.spelled))
        return whole if k < 3 else m.spelled[whole]
    if k == 0:
        return None
    if k <= 2:
        return ctx.pick(names)
    pickn = [ctx.pick(names) for _ in range(ctx.i(1, 3))]
    return tuple(pickn) if k == 5 else pickn


def selections(ctx, m, n=6, disc=(False, True), kinds=(None, 'beam',
                                                       'shell')):
    """selections with at least one element"""
    out = []
    if None in kinds:
        out = [fem.Sel(disconnected=d) for d in disc]
    if m.big == 'full':
        out = [fem.Sel(None, 'shell', disc[0])] + out
    for _ in range(20):
        if len(out) >= n + len(disc):
            break
        s = fem.Sel(some_sets(ctx, m), ctx.pick(kinds), ctx.pick(disc))
        if len(fem.elems_of(m, s)):
            out.append(s)
    return out


def reused(ctx, kw):
    """the arguments, lists handed over in a list that is used again for the
    next query"""
    kw = dict(kw)
    for k in ('sets', 'rescases'):
        if type(kw.get(k)) is list and ctx.p(.5):
            keep = ctx.__dict__.setdefault('reused_' + k, [])
            keep[:] = kw[k]
            kw[k] = keep
    return kw


def sel_sig(s):
    return (type(s.sets).__name__, len(s.sets) if isinstance(
        s.sets, (list, tuple)) else 0, s.kind, s.disconnected)


@prop('S01', 450, 60000, need=['queries', 'values'],
      rule='distinct (form of the set argument, kind, disconnected, element '
           'types present)', assumptions=SASSUME)
def s01(ctx):
    m, d, close = single(ctx, bigs=('mid', 'nodes', 'elems', 'full'))
    for s in selections(ctx, m):
        rows = fem.nodes_of(m, s)
        got = d.get_nodes(**reused(ctx, s.kw()))
        ctx.eq('get_nodes({})'.format(s), got, m.xyz[rows])
        ctx.eq('get_nodenumbers({})'.format(s),
               d.get_nodenumbers(**reused(ctx, s.kw())), m.nodex[rows])
        ctx.eq('get_nodenumbers({}, internal)'.format(s),
               d.get_nodenumbers(numbertype='internal', **s.kw()), rows + 1)
        ctx.obs('queries', 3)
        ctx.state(sel_sig(s), sorted(set(m.eltyp.tolist())))
    close()


@prop('S02', 450, 60000, need=['elements', 'shared', 'separate'],
      rule='distinct (selection form, element type, disconnected)',
      assumptions=SASSUME)
def s02(ctx):
    m, d, close = single(ctx, bigs=('mid', 'nodes', 'elems', 'full'))
    for s in selections(ctx, m, 3 if m.big else 8):
        con, off, et = d.get_elements(**reused(ctx, s.kw()))
        xyz = np.asarray(d.get_nodes(**s.kw()))
        num = np.asarray(d.get_nodenumbers(**s.kw()))
        en = np.asarray(d.get_elementnumbers(sets=s.sets, kind=s.kind))
        es = fem.elems_of(m, s)
        w = 'get_elements({})'.format(s)
        con, off, et = np.asarray(con), np.asarray(off), np.asarray(et)
        ctx.expect(con.ndim == 1 and len(off) == len(et) == len(en) == len(es),
                   '{}: {} elements, {} offsets, {} types, {} numbers, '
                   'expected {}'.format(w, len(es), len(off), len(et),
                                        len(en), len(es)))
        ctx.eq(w + ' types', et, m.eltyp[es])
        ctx.eq(w + ' element numbers', en, m.elnox[es])
        ctx.expect(len(num) == len(xyz) and con.dtype.kind in 'iu' and
                   (not len(con) or (con.min() >= 0 and
                                     con.max() < len(xyz))),
                   '{}: connectivity reaches outside the {} nodes'.format(
                       w, len(xyz)))
        a = 0
        if m.nelem > 1000:
            # all at once
            lens = np.array([len(m.con[e]) for e in es])
            allc = np.concatenate([m.con[e] for e in es])
            ctx.eq(w + ' offsets', off, np.cumsum(lens))
            ctx.eq(w + ' nodes', num[con], m.nodex[allc])
            ctx.eq(w + ' coordinates', xyz[con], m.xyz[allc])
            a = len(allc)
            ctx.obs('elements', len(es))
            es = []
        for j, e in enumerate(es):
            b = int(off[j])
            c = m.con[e]
            ctx.expect(b - a == len(c), '{}: element {} has {} nodes, '
                       'expected {}'.format(w, m.elnox[e], b - a, len(c)))
            ctx.eq('{} nodes of element {}'.format(w, m.elnox[e]),
                   num[con[a:b]], m.nodex[c])
            ctx.eq('{} coordinates of element {}'.format(w, m.elnox[e]),
                   xyz[con[a:b]], m.xyz[c])
            a = b
            ctx.obs('elements')
            ctx.state(sel_sig(s), int(m.eltyp[e]))
        ctx.expect(a == len(con), '{}: last offset {} but {} entries'.format(
            w, a, len(con)))
        if s.disconnected:
            ctx.expect(len(set(con.tolist())) == len(con) == len(xyz),
                       w + ': elements share nodes')
            ctx.obs('separate')
        else:
            ctx.expect(len(set(num.tolist())) == len(num),
                       w + ': a node is given twice')
            if len(con) > len(set(con.tolist())):
                ctx.obs('shared')
    close()


@prop('S03', 450, 60000, need=['set_queries', 'members'],
      rule='distinct (number of sets, form of the argument, overlap, kind) '
           'queried', assumptions=SASSUME)
def s03(ctx):
    m, d, close = single(ctx, nsets=ctx.i(1, 6),
                         bigs=('mid', 'nodes', 'elems', 'full'))
    ctx.eq('get_setnames', [x.decode('latin-1') for x in d.get_setnames()],
           m.setnames)
    names = sorted(m.sets)
    qs = list(names) + [[n] for n in names]
    for _ in range(6):
        qs.append(some_sets(ctx, m))
    for parts in m.spelled.values():
        k = ctx.i(0, len(qs))
        qs[k:k] = [parts, tuple(reversed(parts))]
    for q in qs:
        for kind in (None, 'beam', 'shell'):
            s = fem.Sel(q, kind)
            es = fem.elems_of(m, s)
            ctx.eq('get_elementnumbers({})'.format(s),
                   d.get_elementnumbers(**reused(ctx, s.kw())), m.elnox[es])
            ctx.eq('get_elementnumbers({}, internal)'.format(s),
                   d.get_elementnumbers(numbertype='internal', **s.kw()),
                   es + 1)
            ctx.obs('set_queries')
            ctx.obs('members', len(es))
            nov = 0
            if isinstance(q, (list, tuple)):
                nov = sum(len(m.sets[n]['elem']) for n in q) - len(
                    fem.elems_of(m, fem.Sel(q)))
            ctx.state(len(m.sets), type(q).__name__, nov > 0, kind,
                      len(es) == 0)
    # the names as they were handed out can be used
    for nm, b in zip(m.setnames, d.get_setnames()):
        for q in (b, [b]):
            ctx.eq('get_elementnumbers({!r})'.format(q),
                   d.get_elementnumbers(q), m.elnox[m.sets[nm]['elem']])
    # a name that is not there is not taken for another one
    absent = ctx.pick(names) + ctx.pick(['x', ' a', '_'])
    if absent not in m.sets:
        ctx.raises(Exception, d.get_elementnumbers, absent)
        ctx.raises(Exception, d.get_nodes, [names[0], absent])
    ctx.raises(ValueError, d.get_elementnumbers, kind='plate')
    ctx.raises(ValueError, d.get_nodes, kind='solid')
    ctx.raises(ValueError, d.get_elementnumbers, numbertype='ext')
    ctx.raises(ValueError, d.get_nodenumbers, numbertype='extern')
    close()


def runs_of(m):
    return sorted(set(c[1] for c in m.cases))


def case_sel(ctx, m):
    """-> keyword arguments (run, rescases), the oracle's view"""
    run = ctx.pick(runs_of(m))
    ext = [c[2] for c in m.cases if c[1] == run]
    kw = {}
    if run != 1 or ctx.p(.3):
        kw['run'] = run
    k = ctx.i(0, 4)
    res = None
    if k == 1:
        res = ctx.pick(ext)
    elif k >= 2:
        res = ctx.subset(ext, 1)
        if ctx.p(.3):
            res = res[::-1]
        if ctx.p(.2):
            res = res + res[:1]
        if ctx.p(.2):
            res = res + [777]
        if ctx.p(.2):
            # of another run only
            res = res + sorted(set(c[2] for c in m.cases) - set(ext))[:2]
        if k == 3:
            res = tuple(res)
        if k == 4:
            res = np.array(res)
    if k:
        kw['rescases'] = res
    orc = res if res is None or isinstance(res, int) else [int(x)
                                                          for x in res]
    if k == 1 and ctx.p(.3):
        # as taken from an array of numbers
        kw['rescases'] = ctx.pick([np.int32, np.int64, np.uint8])(res % 251)
        orc = int(kw['rescases'])
        if orc != res:
            kw['rescases'] = np.int64(res)
            orc = res
    if 'run' in kw and ctx.p(.2):
        kw['run'] = ctx.pick([np.int32, np.int64])(run)
    return kw, run, orc


NRT = ('displacement', 'velocity', 'acceleration')


@prop('S04', 500, 60000, need=['queries', 'values', 'disconnected'],
      rule='distinct (result type, number of result cases, complex, '
           'selection form)', assumptions=SASSUME)
def s04(ctx):
    m, d, close = single(ctx, 'R', cplx=ctx.pick([0, 1]),
                         bigs=('mid', 'nodes'))
    for s in selections(ctx, m, 6):
        rt = ctx.pick([r for r in NRT if fem.REC[r] in m.nodal])
        kw, run, res = case_sel(ctx, m)
        want = fem.node_results(m, rt, s, run, res)
        got = d.get_noderesults(rt, **reused(ctx, dict(kw, **s.kw())))
        w = 'get_noderesults({}, {}, {})'.format(rt, kw, s)
        ctx.eq(w, got, want)
        ctx.obs('queries')
        if s.disconnected:
            ctx.obs('disconnected')
        ctx.state(rt, len(fem.cases_of(m, run, res)), want.dtype.kind,
                  sel_sig(s))
    ctx.raises(ValueError, d.get_noderesults, 'displacements')
    close()


def cmp_elem(ctx, what, got, m, rt, sets, run, res):
    """element by element comparison; the tolerance is relative to the raw
    results of the element"""
    es = fem.elems_of(m, fem.Sel(sets, 'beam' if rt == 'beamforce'
                                 else 'shell'))
    cs = fem.cases_of(m, run, res)
    want = fem.element_results(m, rt, sets, run, res)
    g = np.asarray(got)
    ctx.expect(g.shape == want.shape, '{}: shape {} expected {}'.format(
        what, g.shape, want.shape))
    ctx.expect((g.dtype.kind == 'c') == (want.dtype.kind == 'c'),
               '{}: type {}'.format(what, g.dtype))
    if len(cs) == 1:
        g, want = g[None], want[None]
    for j, c in enumerate(cs):
        a = 0
        for e in es:
            e = int(e)
            n = len(m.con[e])
            b = a + n
            raw = m.elemres[c[0], e]
            tol = 5e-6 * max(float(np.abs(raw).max()), 1e-30)
            diff = np.abs(g[j, a:b] - want[j, a:b])
            ctx.obs('values', diff.size)
            ctx.obs('elements')
            if not np.all(diff <= tol):
                ix = tuple(int(x) for x in np.argwhere(~(diff <= tol))[0])
                ctx.fail('{}: result case {} element {} (type {}): {} at {} '
                         'expected {}'.format(what, c[:3], m.elnox[e],
                                              m.eltyp[e], g[j, a:b][ix], ix,
                                              want[j, a:b][ix]))
            ctx.state(rt, int(m.eltyp[e]), len(cs), g.dtype.kind,
                      type(sets).__name__)
            a = b


def el_queries(ctx, m, d, rts, n=5):
    rc = {'beamforce': fem.BEAM}
    # all rows of one array have the same number of components
    thin = [t for t in (24, 25) if t in m.eltyp]
    thick = [t for t in (26, 28) if t in m.eltyp]
    mixed = bool(thin) and bool(thick)
    done = 0
    for k in range(4 * n):
        rt = ctx.pick(rts)
        sets = some_sets(ctx, m) if k else None
        es = fem.elems_of(m, fem.Sel(sets, 'beam' if rt == 'beamforce'
                                     else 'shell'))
        ty = set(int(m.eltyp[e]) for e in es)
        if not len(es) or (rt != 'beamforce' and mixed and
                           ty & {24, 25} and ty & {26, 28}):
            continue
        kw, run, res = case_sel(ctx, m)
        if sets is not None:
            kw['sets'] = sets
        if len(set(c[3] for c in fem.cases_of(m, run, res))) > 1:
            continue
        got = d.get_elementresults(rt, **reused(ctx, kw))
        cmp_elem(ctx, 'get_elementresults({}, {})'.format(rt, kw), got, m,
                 rt, sets, run, res)
        ctx.obs('queries')
        done += 1
        if done >= n:
            break
    del rc


@prop('S05', 1000, 60000, need=['queries', 'elements'],
      rule='distinct (result type, element type, number of result cases, '
           'complex, form of the set argument)', assumptions=SASSUME)
def s05(ctx):
    types = ctx.pick([(15,), (23,), (15, 23), (15, 23, 24, 25),
                      (15, 23, 26, 28), (15, 16, 18, 23)])
    m, d, close = single(ctx, 'R', types=types, cplx=0)
    el_queries(ctx, m, d, ['beamforce'])
    ctx.raises(ValueError, d.get_elementresults, 'beamforces')
    close()


@prop('S06', 900, 60000, need=['queries', 'elements'],
      rule='distinct (result type, element type, number of result cases, '
           'complex, form of the set argument)', assumptions=SASSUME)
def s06(ctx):
    types = ctx.pick([(24,), (25,), (24, 25), (15, 24, 25), (23, 24, 18),
                      (24, 25, 26, 28)])
    m, d, close = single(ctx, 'R', types=types, cplx=0, nsets=4)
    el_queries(ctx, m, d, ['generalstress', 'decomposedstress'])
    close()


@prop('S07', 900, 60000, need=['queries', 'elements'],
      rule='distinct (result type, element type, number of result cases, '
           'complex, form of the set argument)', assumptions=SASSUME)
def s07(ctx):
    types = ctx.pick([(26,), (28,), (26, 28), (15, 26, 28), (23, 28, 16),
                      (24, 25, 26, 28)])
    m, d, close = single(ctx, 'R', types=types, cplx=0, nsets=4)
    el_queries(ctx, m, d, ['generalstress', 'decomposedstress'])
    close()


@prop('S08', 900, 60000, need=['queries', 'elements', 'node_values', 'mixed'],
      rule='distinct (result type, element type, number of result cases, '
           'complex, form of the set argument)', assumptions=SASSUME)
def s08(ctx):
    from freesif.exceptions import ResultError
    types = ctx.pick([(15, 24, 25), (23, 26, 28), (15, 23, 28), (15, 25),
                      (23, 24)])
    m, d, close = single(ctx, 'R', types=types, cplx=ctx.pick([1, 1, None]))
    rts = []
    if set(m.eltyp.tolist()) & set(fem.BEAM):
        rts.append('beamforce')
    if set(m.eltyp.tolist()) & set(fem.SHELL):
        rts += ['generalstress', 'decomposedstress']
    el_queries(ctx, m, d, rts)
    for s in selections(ctx, m, 2):
        kw, run, res = case_sel(ctx, m)
        rt = ctx.pick([r for r in NRT if fem.REC[r] in m.nodal])
        flags = set(c[3] for c in fem.cases_of(m, run, res))
        if len(flags) > 1:
            # no array can hold both kinds
            ctx.raises(ResultError, d.get_noderesults, rt,
                       **dict(kw, **s.kw()))
            if rts:
                ctx.raises(ResultError, d.get_elementresults, ctx.pick(rts),
                           **kw)
            ctx.obs('mixed')
            continue
        got = d.get_noderesults(rt, **reused(ctx, dict(kw, **s.kw())))
        want = fem.node_results(m, rt, s, run, res)
        ctx.expect(np.asarray(got).dtype.kind == ('c' if 1 in flags else 'f'),
                   'type of the results')
        ctx.eq('get_noderesults({}, {}, {})'.format(rt, kw, s), got, want)
        ctx.obs('node_values', want.size)
    close()


@prop('S09', 1000, 60000, need=['queries', 'refused'],
      rule='distinct (runs, cases per run, form of the result case argument, '
           'mixed real and complex)', assumptions=SASSUME)
def s09(ctx):
    with ctx.gen():
        nrun = ctx.i(1, 3)
        cases, ires = [], 0
        pool = [int(x) for x in ctx.rng.permutation(8)[:ctx.i(1, 5)] + 1]
        if ctx.p(.2):
            # neighbours, multiples and the like
            pool = sorted(set(pool) | set([10 * pool[0], pool[0] + 100,
                                           10 * pool[-1] + 1]))
        many = ctx.p(.06)
        if many:
            pool = [int(x) for x in ctx.V.distinct(400, ctx.i(30, 120)) + 1]
            nrun = min(nrun, 2)
            kind = ctx.pick([0, 0, 1, None])
            ctx.obs('many_cases')
        first = ctx.pick([1, 1, 0])
        runs = list(range(first, first + nrun))
        if ctx.p(.2):
            runs = [int(x) for x in ctx.V.distinct(12, nrun)]
        if ctx.p(.2):
            runs = runs[::-1]
        for run in runs:
            # the same external numbers in every run, other internal ones
            for e in ctx.subset(pool, 1) if run != runs[0] else pool:
                ires += ctx.i(1, 2)
                cases.append((ires, run, e, ctx.i(0, 1) if not many or
                              kind is None else kind))
        if ctx.p(.3):
            cases = [cases[int(k)] for k in ctx.rng.permutation(len(cases))]
            # internal numbers follow the order on the file
            cases = [(k + 1,) + c[1:] for k, c in enumerate(cases)]
    m, d, close = single(ctx, 'R', cases=cases,
                         nelem=ctx.i(2, 3 if many else 6),
                         types=ctx.pick([(15, 24), (23, 28)]))
    from freesif.exceptions import ResultError
    for _ in range(12):
        kw, run, res = case_sel(ctx, m)
        cs = fem.cases_of(m, run, res)
        mixed = len(set(c[3] for c in cs)) > 1
        ctx.state(nrun, len(cs), type(res).__name__, mixed)
        for rt in ('displacement', 'beamforce', 'generalstress'):
            w = '{}, {}'.format(rt, kw)
            if rt == 'displacement':
                f = d.get_noderesults
            else:
                f = d.get_elementresults
                k = 'beam' if rt == 'beamforce' else 'shell'
                if not len(fem.elems_of(m, fem.Sel(None, k))):
                    continue
            if mixed:
                ctx.raises(ResultError, f, rt, **kw)
                ctx.obs('refused')
                continue
            got = f(rt, **kw)
            if rt == 'displacement':
                ctx.eq(w, got, fem.node_results(m, rt, fem.Sel(), run, res))
            else:
                cmp_elem(ctx, w, got, m, rt, None, run, res)
            ctx.obs('queries')
    close()


@prop('S10', 900, 60000, need=['sections', 'thicknesses'],
      rule='distinct (family, element types, form of the set argument)',
      assumptions=SASSUME)
def s10(ctx):
    m, d, close = single(ctx)
    for k in range(6):
        sets = some_sets(ctx, m) if k else None
        b = fem.elems_of(m, fem.Sel(sets, 'beam'))
        if len(b):
            got = d.get_section_properties(**reused(ctx, {'sets': sets}))
            ctx.expect(len(got) == len(b), 'get_section_properties({}): {} '
                       'rows for {} beams'.format(sets, len(got), len(b)))
            for j, e in enumerate(b):
                want = m.sect[m.geono[e]]
                for nm, v in want.items():
                    if nm == 'nfield':
                        continue
                    g = got[nm][j]
                    ctx.expect(np.float32(g) == np.float32(v),
                               'get_section_properties({}): element {} {} is '
                               '{} expected {}'.format(sets, m.elnox[e], nm,
                                                       g, v))
            ctx.obs('sections', len(b))
            ctx.state('beam', len(m.sect), type(sets).__name__)
        s = fem.elems_of(m, fem.Sel(sets, 'shell'))
        if len(s):
            ctx.eq('get_shell_thicknesses({})'.format(sets),
                   d.get_shell_thicknesses(sets),
                   np.array([m.thick[m.geono[e]] for e in s], np.float32))
            ctx.obs('thicknesses', len(s))
            ctx.state('shell', len(m.thick), type(sets).__name__)
    close()


def apply_t(xyz, t):
    x = np.column_stack([np.asarray(xyz, float), np.ones(len(xyz))])
    return x.dot(np.asarray(t, float))[:, :3]


def cmp_xyz(ctx, what, got, want):
    g = np.asarray(got, float)
    ctx.expect(g.shape == want.shape, '{}: shape {} expected {}'.format(
        what, g.shape, want.shape))
    scale = max(1., float(np.abs(want).max()))
    d = np.abs(g - want)
    ctx.obs('values', d.size)
    if not np.all(d <= 1e-4 * scale):
        k = int(np.argmax(d.max(1)))
        ctx.fail('{}: row {} is {} expected {}'.format(what, k, g[k],
                                                       want[k]))


@prop('S11', 700, 25000, need=['transformed', 'matrices', 'refused', 'parts'],
      rule='distinct (family, levels, occurrence number, kind of the '
           'transformation argument)', assumptions=SASSUME)
def s11(ctx):
    F = fs()
    from freesif.exceptions import HierarchyError
    if ctx.p(.2):
        # a superelement without a hierarchy
        m, d, close = single(ctx)
        ctx.raises(HierarchyError, d.get_nodes, trans='top')
        ctx.raises(HierarchyError, d.get_nodes, trans=2)
        ctx.raises(HierarchyError, d.get_nodes, trans=np.int64(2))
        with ctx.gen():
            t = A.S_affine(ctx.rng)
        s = ctx.pick(selections(ctx, m, 3))
        cmp_xyz(ctx, 'get_nodes(matrix)', d.get_nodes(trans=t, **s.kw()),
                apply_t(m.xyz[fem.nodes_of(m, s)], t))
        for shp in ((3, 3), (4,), (3, 4), (4, 3), (4, 5), (4, 1), (1, 4)):
            ctx.raises(ValueError, d.get_nodes, trans=np.ones(shp))
        ctx.obs('refused', 10)
        ctx.state('single', m.family)
        close()
        # one file of a results assembly, converted alone
        with ctx.gen():
            m2 = fem.make(ctx.V, 'R', nelem=3, cases=[(1, 1, 1, 0)])
            t = A.S_affine(ctx.rng)
            recs = fem.records(m2, 5)
            k = [r.name for r in recs].index('IDENT') + 1
            recs[k:k] = [S.rec_xsuptran(None, 'RSUPTRAN', ctx.i(1, 99), t)]
            recs = [r for r in recs if r.name != 'HIERARCH']
            S.write('R5H3.SIF', recs, bool(ctx.i(0, 1)))
            t = np.array(recs[k if recs[k].name == 'RSUPTRAN' else
                              k - 1].cols['t'])
        d, close = reach(ctx, 'R5H3.SIF', 'R5')
        for s in selections(ctx, m2, 2):
            xyz = m2.xyz[fem.nodes_of(m2, s)]
            cmp_xyz(ctx, 'get_nodes(top) of a part',
                    d.get_nodes(trans='top', **s.kw()), apply_t(xyz, t))
            ctx.eq('untransformed', d.get_nodes(**s.kw()), xyz)
        ctx.raises(HierarchyError, d.get_nodes, trans=2)
        ctx.obs('parts')
        close()
        return
    with ctx.gen():
        fam = ctx.pick(['T', 'R'])
        models = {}

        def lower(n, h):
            # a superelement type has one model; its occurrences on the
            # results files have the same nodes
            rng = np.random.default_rng([ctx.seed, 77, ctx.idx, n.iselty])
            if n.iselty not in models:
                models[n.iselty] = fem.make(S.Vals(rng), 'T',
                                            nelem=ctx.i(2, 8))
            mm = models[n.iselty]
            hh = list(h)
            if fam == 'R':
                hh.append(S.rec_xsuptran(None, 'RSUPTRAN', ctx.i(1, 99),
                                         A.total_transform(n)))
            return soup.Soup(fam, n.iselty, fem.records(mm, n.iselty, hh))
        pf = ctx.pick(['', 'ab_'])
        fam, nodes, files = A.make(ctx.V, fam, prefix=pf, lower=lower)
        fmt = bool(ctx.i(0, 1))
        for a in files:
            S.write(a.fname, a.soup.recs, fmt)
        ctx.note = '{} {}'.format([a.fname for a in files], [
            (n.iselty, n.indsel, n.islevl, n.itref,
             n.parent and n.parent.iselty) for n in nodes])
    F.sif2hdf5(files[0].fname, 'o.h5')
    f = F.open_hdf5('o.h5')
    top = nodes[0]
    tl = f[files[0].group]
    levels = sorted(set(n.islevl for n in nodes))
    first = [n for n in nodes if n.islevl == 1]
    for n in first:
        a = [x for x in files if x.level == 'FIRSTLEVEL' and
             x.node.iselty == n.iselty and
             (fam == 'T' or x.node.indsel == n.indsel)][0]
        d = f[a.group]
        m = models[n.iselty]
        s = ctx.pick(selections(ctx, m, 2))
        xyz = m.xyz[fem.nodes_of(m, s)]
        kw = s.kw()
        if fam == 'T' and (n.indsel != 1 or ctx.p(.3)):
            kw['index'] = n.indsel
        what = '{} occurrence {} '.format(a.group, n.indsel)
        ctx.eq(what + 'untransformed', d.get_nodes(**kw), xyz)
        ttop = A.total_transform(n)
        cmp_xyz(ctx, what + 'top', d.get_nodes(trans='top', **kw),
                apply_t(xyz, ttop))
        cmp_xyz(ctx, what + 'matrix', d.get_nodes(trans=ttop, **kw),
                apply_t(xyz, ttop))
        ctx.obs('transformed', 2)
        ctx.state(fam, len(levels), min(n.indsel, 3), 'top')
        anc = set()
        p = n
        while p:
            anc.add(p.islevl)
            p = p.parent
        for lev in range(1, top.islevl + 1):
            t = A.total_transform(n, lev)
            if lev in anc:
                cmp_xyz(ctx, what + 'level %d' % lev,
                        d.get_nodes(trans=lev, **kw), apply_t(xyz, t))
                got = np.asarray(tl.get_transformation(n.iselty, n.indsel,
                                                       lev), float)
                ctx.expect(got.shape == (4, 4) and np.all(
                    np.abs(got - t) <= 1e-4 * max(1, np.abs(t).max())),
                    what + 'matrix to level {} is {} expected {}'.format(
                        lev, got.tolist(), t.tolist()))
                if ctx.p(.3):
                    ty = ctx.pick([np.int16, np.int32, np.int64, np.uint8])
                    cmp_xyz(ctx, what + 'level {!r}'.format(ty(lev)),
                            d.get_nodes(trans=ty(lev), **kw),
                            apply_t(xyz, t))
                ctx.obs('matrices')
                ctx.obs('transformed')
                ctx.state(fam, len(levels), min(n.indsel, 3), 'level', lev)
            else:
                ctx.raises(HierarchyError, d.get_nodes, trans=lev, **kw)
                ctx.raises(HierarchyError, tl.get_transformation, n.iselty,
                           n.indsel, lev)
                ctx.obs('refused')
                ctx.state(fam, len(levels), 'skipped level')
        t = np.asarray(tl.get_transformation(n.iselty, n.indsel), float)
        ctx.expect(np.all(np.abs(t - ttop) <= 1e-4 * max(
            1, np.abs(ttop).max())), what + 'matrix to the top')
        for bad in (top.islevl + 1, top.islevl + 5, 0, -1):
            ctx.raises(HierarchyError, d.get_nodes, trans=bad, **kw)
            ctx.obs('refused')
        ctx.raises(ValueError, d.get_nodes, trans='bottom', **kw)
        ctx.raises(ValueError, d.get_nodes, trans=np.eye(3), **kw)
        # a number that is no level is no matrix either
        ctx.raises(ValueError, d.get_nodes, trans=ctx.pick(
            [1., 2., 1.5, np.float64(2), np.float32(.5)]), **kw)
    f.close()


@prop('S12', 1000, 60000, need=['names'],
      rule='distinct (number of load cases, form of the argument, absent '
           'numbers)', assumptions=SASSUME)
def s12(ctx):
    m, d, close = single(ctx, 'R')
    full = {i: n for i, n in m.loads}
    for _ in range(8):
        k = ctx.i(0, 3)
        ids = [i for i, _ in m.loads]
        if k == 0:
            arg, want = None, full
        elif k == 1:
            arg = ctx.pick(ids)
            want = {arg: full[arg]}
        else:
            sub = ctx.subset(ids)
            want = {i: full[i] for i in sub}
            if ctx.p(.4):
                sub = sub + [1000003]
            arg = sub if k == 2 else tuple(sub)
        got = d.get_resultcase_names(arg)
        g = {int(a): (b.decode('latin-1') if isinstance(b, bytes) else str(b))
             for a, b in got.items()}
        ctx.expect(g == want, 'get_resultcase_names({}): {} expected '
                   '{}'.format(arg, g, want))
        ctx.obs('names', len(g))
        ctx.state(len(full), k, len(want))
    close()


@prop('S13', 1500, 60000, need=['missing', 'answered'],
      rule='distinct (record type left out, query)', assumptions=SASSUME)
def s13(ctx):
    """queries of a data set some of whose records are not there"""
    from freesif.exceptions import NoSuchRecordError
    with ctx.gen():
        fam = ctx.pick(['T', 'R', 'R'])
        m = fem.make(ctx.V, fam, types=(15, 24, 25), cplx=0)
        drop = set(ctx.subset(['GCOORD', 'GNODE', 'GELMNT1', 'GBEAMG',
                               'GELTH', 'TDLOAD', 'GSETMEMB', 'TDSETNAM',
                               'RVNODDIS', 'RVFORCES', 'RVSTRESS', 'GELREF1'],
                              1, 4))
        if 'GELMNT1' in drop:
            drop.add('GELREF1')
        recs = [r for r in fem.records(m, 5) if r.name not in drop]
        have = set(r.name for r in recs)
        fname = '%s5.%s' % (fam, 'FEM' if fam == 'T' else 'SIF')
        store(ctx, m, fname, recs)
        ctx.note = '{} without {}'.format(fname, sorted(drop))
        sels = selections(ctx, m, 3)
    d, close = reach(ctx, fname, fam + '5')

    run = m.cases[0][1] if m.cases else 1

    # every query with the records its answer comes from
    qs = []

    def q(name, needs, f, want=None):
        qs.append((name, set(needs.split()), f, want))
    q('get_resultcase_names()', 'TDLOAD', lambda: d.get_resultcase_names())
    for s in sels:
        sel = 'TDSETNAM GSETMEMB ' * bool(s.sets)
        el = sel + 'GELMNT1 ' * bool(s.sets or s.kind)
        nd = el + 'GELMNT1 ' * s.disconnected
        w = '({})'.format(s)
        q('get_nodes' + w, nd + 'GCOORD', lambda s=s: d.get_nodes(**s.kw()),
          lambda s=s: m.xyz[fem.nodes_of(m, s)])
        for ty in ('external', 'internal'):
            q('get_nodenumbers' + w, nd + 'GNODE', lambda s=s, ty=ty:
              d.get_nodenumbers(numbertype=ty, **s.kw()),
              lambda s=s, ty=ty: m.nodex[fem.nodes_of(m, s)]
              if ty == 'external' else fem.nodes_of(m, s) + 1)
        kw = {'sets': s.sets, 'kind': s.kind}
        q('get_elementnumbers' + w, el + 'GELMNT1', lambda kw=kw:
          d.get_elementnumbers(**kw),
          lambda s=s: m.elnox[fem.elems_of(m, s)])
        q('get_elements' + w, el + 'GELMNT1',
          lambda s=s: d.get_elements(**s.kw())[2],
          lambda s=s: m.eltyp[fem.elems_of(m, s)])
        for nm, rec in (('displacement', 'RVNODDIS'),
                        ('velocity', 'RVNODVEL'),
                        ('acceleration', 'RVNODACC')):
            q('get_noderesults({}){}'.format(nm, w),
              nd + rec + ' RDRESREF GNODE',
              lambda s=s, nm=nm: d.get_noderesults(nm, run=run,
                                                     **s.kw()),
              (lambda s=s, nm=nm: fem.node_results(m, nm, s, run))
              if rec in have and m.cases else None)
        for nm, rec in (('beamforce', 'RVFORCES'),
                        ('generalstress', 'RVSTRESS'),
                        ('decomposedstress', 'RVSTRESS')):
            q('get_elementresults({}){}'.format(nm, s.sets),
              sel + rec + ' RDRESREF GELMNT1',
              lambda s=s, nm=nm: d.get_elementresults(nm, run=run,
                                                      sets=s.sets))
        q('get_section_properties({})'.format(s.sets),
          sel + 'GBEAMG GELREF1 GELMNT1',
          lambda s=s: d.get_section_properties(s.sets),
          lambda s=s: [m.sect[m.geono[e]]['geono'] for e in
                       fem.elems_of(m, fem.Sel(s.sets, 'beam'))])
        q('get_shell_thicknesses({})'.format(s.sets),
          sel + 'GELTH GELREF1 GELMNT1',
          lambda s=s: d.get_shell_thicknesses(s.sets),
          lambda s=s: np.array([m.thick[m.geono[e]] for e in fem.elems_of(
              m, fem.Sel(s.sets, 'shell'))], np.float32))
    for k in ctx.rng.permutation(len(qs)):
        name, needs, f, want = qs[int(k)]
        gone = needs - have
        if gone:
            ctx.raises(NoSuchRecordError, f)
            ctx.obs('missing')
            ctx.state(fam, sorted(gone), name.split('(')[0])
        elif want is not None:
            want = want()
            if not len(want):
                continue
            got = f()
            if 'section' in name:
                got = [int(r['geono']) for r in got]
            ctx.eq(name, got, want)
            ctx.obs('answered')
    if 'TDSETNAM' in drop:
        ctx.expect(d.get_setnames() is None,
                   'get_setnames without sets: {!r}'.format(
                       d.get_setnames()))
    else:
        ctx.expect(len(d.get_setnames()) == len(m.sets), 'get_setnames')
    close()
