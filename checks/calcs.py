"""Calculations on results: K01..K04."""
import warnings

import numpy as np

from vlib import fem
from vlib import sif as S
from vlib.runner import prop
from checks.conv import fs
from checks.struc import SASSUME, reach

KASSUME = ['finite floating point stresses, both precisions, magnitudes from '
           '1e-6 to 1e9, or whole numbers of the usual types']


def stresses(ctx, ncomp, ndim=None):
    """stress arrays incl. the special states"""
    rng = ctx.rng
    shape = tuple(ctx.i(1, 5) for _ in range(ctx.i(0, 3)
                                             if ndim is None else ndim))
    n = int(np.prod(shape)) if shape else 1
    a = rng.normal(size=(n, ncomp)) * 10. ** ctx.i(-3, 8)
    for k in range(n):
        u = rng.random()
        if u < .1:
            a[k] = 0
        elif u < .2:
            a[k, 2:] = 0
        elif u < .3:
            a[k, 1] = a[k, 0]
        elif u < .4:
            a[k, :2] = 0
        elif u < .5:
            a[k, 0] = -a[k, 1]
        elif u < .6:
            a[k, 3:] = 0
        elif u < .65:
            a[k, int(rng.integers(0, ncomp))] *= 1e-6
    dt = ctx.pick([np.float32, np.float64])
    if ctx.p(.15):
        # whole numbers, over most of the range of their type
        dt = ctx.pick([np.int16, np.int32, np.int64, np.uint16, np.uint32,
                       np.uint8, np.int8])
        top = min(float(np.iinfo(dt).max), 1e15)
        x = np.abs(a).max(0) + 1e-300
        a = a / x * (top * rng.random() if rng.random() < .7 else
                     min(top, 1e3))
        if np.iinfo(dt).min == 0:
            a = np.abs(a)
        ctx.obs('integers')
    a = a.reshape(shape + (ncomp,)).astype(dt)
    if ctx.p(.2):
        a = np.asfortranarray(a)
    if ctx.p(.2) and a.ndim > 1:
        a = a[::-1]
    return a


def near_equal(ctx, n):
    """almost or exactly equal principal stresses"""
    rng = ctx.rng
    a = rng.normal(size=(n, 5))
    eps = 3 * 2. ** -52
    k = ctx.i(0, 2)
    if k == 0:
        a[:, 1] = a[:, 0] * (1 + eps * rng.normal(size=n))
        a[:, 2:] *= eps
    elif k == 1:
        a[:, 1] = a[:, 0]
        a[:, 2:] *= eps
    else:
        # two equal ones of three
        nv = rng.normal(size=(n, 3))
        nv /= np.linalg.norm(nv, axis=1)[:, None]
        q = -1 / (nv[:, 2] ** 2 + 1e-3)
        t = np.eye(3) + q[:, None, None] * nv[:, :, None] * nv[:, None, :]
        for c, (i, j) in enumerate(((0, 0), (1, 1), (0, 1), (0, 2), (1, 2))):
            a[:, c] = t[:, i, j]
    ctx.obs('near_equal', n)
    return a


def check_close(ctx, what, got, want, scale, tol):
    g, w = np.asarray(got), np.asarray(want)
    ctx.expect(g.shape == w.shape, '{}: shape {} expected {}'.format(
        what, g.shape, w.shape))
    ctx.expect(g.dtype.kind == 'f', '{}: type {}'.format(what, g.dtype))
    ctx.obs('values', w.size)
    ok = np.abs(g - w) <= tol * scale
    if not np.all(ok):
        ix = tuple(int(x) for x in np.argwhere(~ok)[0])
        ctx.fail('{}: {!r} at {} expected {!r}'.format(what, g[ix], ix,
                                                       w[ix]))


@prop('K01', 30000, 1500000, need=['states', 'thick_states', 'integers',
                                    'near_equal'],
      rule='distinct (shape, components, precision)', assumptions=KASSUME)
def k01(ctx):
    C = fs().calc
    a = stresses(ctx, ctx.pick([3, 3, 5, 6]))
    keep = a.copy()
    tol = 2e-5 if a.dtype == np.float32 else 1e-12
    x = a.astype(float)
    scale = np.abs(x).max(-1)[..., None] + 1e-300
    t = np.zeros(a.shape[:-1] + (2, 2))
    t[..., 0, 0], t[..., 1, 1] = x[..., 0], x[..., 1]
    t[..., 0, 1] = t[..., 1, 0] = x[..., 2]
    e = np.linalg.eigvalsh(t)[..., ::-1]
    got = C.principal2d(a)
    check_close(ctx, 'principal2d', got, e, scale, tol)
    ctx.expect(np.all(got[..., 0] >= got[..., 1]), 'P1 < P2')
    ctx.obs('states', e.size // 2)
    ctx.state(a.shape, a.dtype.str)
    ctx.expect(np.array_equal(a, keep), 'principal2d changed its input')
    # ---- thick shells
    a = near_equal(ctx, 250) if ctx.p(.015) else stresses(ctx, ctx.pick(
        [5, 5, 7]))
    keep = a.copy()
    tol = 5e-5 if a.dtype == np.float32 else 1e-11
    x = a.astype(float)
    scale = np.abs(x[..., :5]).max(-1)[..., None] + 1e-300
    t = np.zeros(a.shape[:-1] + (3, 3))
    for k, (i, j) in enumerate(((0, 0), (1, 1), (0, 1), (0, 2), (1, 2))):
        t[..., i, j] = t[..., j, i] = x[..., k]
    e = np.linalg.eigvalsh(t)
    with warnings.catch_warnings():
        # a complex intermediate result
        warnings.simplefilter('error', np.exceptions.ComplexWarning)
        got = np.asarray(C.principal_thickshell(a))
    ctx.expect(got.shape == a.shape[:-1] + (2,), 'principal_thickshell: '
               'shape {}'.format(got.shape))
    ctx.expect(got.dtype.kind == 'f', 'principal_thickshell: type {}'.format(
        got.dtype))
    for ix in np.ndindex(a.shape[:-1]):
        p = e[ix]
        lim = tol * float(scale[ix][0])
        # the value of smallest magnitude goes; equal magnitudes are a tie
        am = np.abs(p)
        ok = False
        for k in range(3):
            if am[k] <= am.min() + 2 * lim:
                r = np.delete(p, k)
                if abs(got[ix][0] - r.max()) <= lim and \
                        abs(got[ix][1] - r.min()) <= lim:
                    ok = True
        if not ok:
            ctx.fail('principal_thickshell: {} for {} with principal '
                     'stresses {}'.format(got[ix], a[ix], p))
        ctx.obs('thick_states')
    ctx.obs('comparisons', 2)
    ctx.expect(np.array_equal(a, keep),
               'principal_thickshell changed its input')
    # without shear out of the plane it is the plane problem
    b = a[..., :5].copy()
    b[..., 3:] = 0
    check_close(ctx, 'plane state', C.principal_thickshell(b),
                C.principal2d(b), scale, 10 * tol)
    ctx.state('thick', a.shape, a.dtype.str)


@prop('K02', 40000, 2000000, need=['states', 'integers'],
      rule='distinct (shape, precision)', assumptions=KASSUME)
def k02(ctx):
    C = fs().calc
    a = stresses(ctx, ctx.pick([3, 3, 5, 6]))
    keep = a.copy()
    x = a.astype(float)
    # from the deviatoric stress tensor of a plane stress state
    t = np.zeros(a.shape[:-1] + (3, 3))
    t[..., 0, 0], t[..., 1, 1] = x[..., 0], x[..., 1]
    t[..., 0, 1] = t[..., 1, 0] = x[..., 2]
    tr = np.trace(t, axis1=-2, axis2=-1)[..., None, None]
    dev = t - tr / 3 * np.eye(3)
    want = np.sqrt(1.5 * (dev ** 2).sum((-1, -2)))
    scale = np.abs(x[..., :3]).max(-1) + 1e-300
    got = C.vonmises2d(a)
    check_close(ctx, 'vonmises2d', got, want, scale,
                2e-5 if a.dtype == np.float32 else 1e-12)
    ctx.expect(np.all(np.asarray(got) >= 0), 'negative von Mises stress')
    p = C.principal2d(a).astype(float)
    vm = np.sqrt(p[..., 0] ** 2 + p[..., 1] ** 2 - p[..., 0] * p[..., 1])
    check_close(ctx, 'from principal stresses', vm, want, scale,
                5e-5 if a.dtype == np.float32 else 1e-11)
    ctx.obs('states', want.size)
    ctx.expect(np.array_equal(a, keep), 'vonmises2d changed its input')
    ctx.state(a.shape, a.dtype.str)


@prop('K03', 40000, 1500000, need=['reductions', 'values', 'limits'],
      rule='distinct (shape, axis, type)', assumptions=KASSUME + [
          'floating point numbers, or signed integers above the smallest one'])
def k03(ctx):
    C = fs().calc
    rng = ctx.rng
    shape = tuple(ctx.i(1, 5) for _ in range(ctx.i(1, 4)))
    if ctx.p(.8):
        a = rng.normal(size=shape) * 10. ** ctx.i(-3, 8)
        if ctx.p(.3):
            a = np.round(a)
        a = a.astype(ctx.pick([np.float32, np.float64]))
    else:
        a = rng.integers(-9, 9, shape)
        if ctx.p(.6):
            # up to the limits of the type
            dt = ctx.pick([np.int8, np.int16, np.int32, np.int64, np.uint8,
                           np.uint16, np.uint32, np.uint64])
            lim = np.iinfo(dt)
            a = rng.integers(lim.min, lim.max, shape, dtype=dt, endpoint=True)
            if ctx.p(.4):
                a[rng.random(shape) < .3] = ctx.pick([lim.min, lim.max, 0])
            ctx.obs('limits')
    if ctx.p(.2):
        a = np.abs(a)
    if ctx.p(.2):
        a = -np.abs(a)
    keep = a.copy()

    def mag(x):
        # of integers too, whose type may not have the magnitude
        return np.abs(x if x.dtype.kind == 'f' else x.astype(object))
    axes = [None] + list(range(-a.ndim, a.ndim))
    if a.ndim > 1:
        axes += [(0, 1), (0, -1), (a.ndim - 1, 0)]
    for ax in axes:
        if ax is None and ctx.p(.5):
            got = np.asarray(C.absmax(a))
        else:
            got = np.asarray(C.absmax(a, ax))
        want = mag(a).max(ax)
        ctx.expect(got.shape == np.shape(want), 'absmax axis {}: shape {} '
                   'expected {}'.format(ax, got.shape, np.shape(want)))
        ctx.expect(got.dtype == a.dtype, 'absmax: type {} for {}'.format(
            got.dtype, a.dtype))
        if a.dtype.kind == 'f':
            ctx.eq('magnitude of absmax axis {}'.format(ax), np.abs(got),
                   want)
        else:
            ctx.expect(np.all(mag(got) == want), 'magnitude of absmax axis '
                       '{}: {} expected {}'.format(ax, got, want))
        # it is a member of what was reduced
        g = got if ax is None else np.expand_dims(got, ax)
        ctx.expect(np.all((a == g).any(ax)), 'absmax axis {}: not a value of '
                   'the array'.format(ax))
        ctx.obs('reductions')
        ctx.state(a.shape, ax, a.dtype.kind)
    ctx.expect(np.array_equal(a, keep), 'absmax changed its input')


@prop('K04', 1000, 50000, need=['pairs', 'shared_nodes', 'results', 'absent'],
      rule='distinct (element type, position of the node in the element, '
           'selection)', assumptions=SASSUME)
def k04(ctx):
    C = fs().calc
    with ctx.gen():
        types = ctx.pick([(24, 25), (26, 28), (15,), (15, 23), (26,),
                          (15, 24, 25), (23, 26, 28), (24, 25, 26, 28)])
        m = fem.make(ctx.V, 'R', types=types, cplx=0, nsets=3)
        S.write('R1.SIU', fem.records(m, 1), bool(ctx.i(0, 1)))
    d, close = reach(ctx, 'R1.SIU', 'R1')
    for _ in range(4):
        kind = ctx.pick(['beam', 'shell'])
        sets = ctx.pick([None, None] + sorted(m.sets))
        s = fem.Sel(sets, kind, True)
        es = fem.elems_of(m, s)
        if not len(es):
            continue
        elems = d.get_elements(**s.kw())
        en = d.get_elementnumbers(sets=sets, kind=kind)
        nn = d.get_nodenumbers(**s.kw())
        pairs, want = [], []
        for _ in range(ctx.i(1, 12)):
            e = int(ctx.pick(list(es)))
            q = ctx.i(0, len(m.con[e]) - 1)
            pairs.append((int(m.elnox[e]), int(m.nodex[m.con[e][q]])))
            want.append((e, q))
            n = sum(int(m.con[e][q]) in m.con[int(x)] for x in es)
            if n > 1:
                ctx.obs('shared_nodes')
        form = ctx.i(0, 2)
        arg = pairs if form == 0 else tuple(pairs) if form == 1 \
            else np.array(pairs)
        ix = np.asarray(C.find_elemres_indices(arg, elems, en, nn))
        ctx.expect(ix.shape == (len(pairs),) and ix.dtype.kind in 'iu',
                   'find_elemres_indices: {!r}'.format(ix))
        ty = set(int(m.eltyp[x]) for x in es)
        rt = 'beamforce' if kind == 'beam' else ctx.pick(
            ['generalstress', 'decomposedstress'])
        case = ctx.pick(m.cases)
        res = None
        if not (ty & {24, 25} and ty & {26, 28}):
            kw = {'run': case[1], 'rescases': case[2]}
            if sets is not None:
                kw['sets'] = sets
            res = d.get_elementresults(rt, **kw)
        for (e, q), j, pr in zip(want, ix, pairs):
            t = int(m.eltyp[e])
            # where the node is among the results of the element
            pos = q
            if t == 26:
                # corners first in the model, round the edge in the results
                pos = (0, 2, 4, 1, 3, 5)[q]
            start = sum(len(m.con[int(x)]) for x in es if x < e)
            ctx.expect(int(j) == start + pos, 'find_elemres_indices: {} for '
                       'element, node {} (type {}), expected {}'.format(
                           j, pr, t, start + pos))
            ctx.obs('pairs')
            ctx.state(t, q, sets is not None, kind)
            if res is not None:
                w = fem.elem_result(m, case[0], e, rt)[pos]
                tol = 5e-6 * float(np.abs(m.elemres[case[0], e]).max())
                ctx.expect(np.all(np.abs(res[j] - w) <= tol),
                           'result at element, node {}: {} expected '
                           '{}'.format(pr, res[j], w))
                ctx.obs('results')
        # pairs that are not there
        e = int(ctx.pick(list(es)))
        own = set(int(x) for x in m.con[e])
        other = [int(x) for f in es for x in m.con[int(f)]
                 if int(x) not in own]
        bad = [(int(m.elnox[e]), int(max(m.nodex)) + 1),
               (int(max(m.elnox)) + 1, int(m.nodex[m.con[e][0]]))]
        if other:
            bad += [(int(m.elnox[e]), int(m.nodex[n]))
                    for n in (min(other), max(other), ctx.pick(other))]
        for pr in bad:
            p = list(pairs)
            p.insert(ctx.i(0, len(p)), pr)
            ctx.raises(ValueError, C.find_elemres_indices, p, elems, en, nn)
            ctx.obs('absent')
    close()
