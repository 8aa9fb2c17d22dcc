"""Random hydrodynamic result files and what queries on them return."""
import numpy as np

from . import sif as S
from .soup import _blocks, _weave

F32 = np.float32


class Hyd(object):
    pass


def distinct(V, n, lo, hi, f=None):
    """n distinct float32 values in no particular order"""
    out = []
    near = V.rng.random() < .25
    while len(out) < n:
        x = S.f32(V.rng.uniform(lo, hi))
        if V.rng.random() < .3:
            x = S.f32(round(x, 1))
        elif out and near and V.rng.random() < .5:
            # as close to another one as the format tells them apart
            y = out[V.i(0, len(out) - 1)]
            x = S.f32(y + y * V.rng.choice([-1, 1]) *
                      10. ** -V.rng.uniform(3, 6.3))
            if not lo < x < hi or (
                    '%.8E' % x in ['%.8E' % z for z in out]):
                continue
        if x not in out and x != 0.:
            out.append(x)
    return out


def make(V, domain='frequency', nbody=None, have=None):
    rng = V.rng
    h = Hyd()
    h.domain = domain
    nb = nbody or int(rng.choice([1, 1, 2, 3]))
    # sometimes much of one thing
    large = V.i(1, 3) if rng.random() < .06 else 0
    if large == 3 and not nbody:
        nb = V.i(9, 13)
    h.bodies = [int(x) for x in rng.permutation(np.arange(1, nb + 1))] \
        if rng.random() < .6 else [int(x) for x in V.distinct(
            20 if rng.random() < .7 else 9999, nb) + 1]
    if rng.random() < .5 and 1 not in h.bodies:
        h.bodies[0] = 1
    conds = [int(x) for x in (rng.permutation(nb) + 1 if rng.random() < .6
                              else V.distinct(30 if rng.random() < .7 else
                                              9999, nb) + 1)]
    h.cond = dict(zip(h.bodies, conds))
    h.nd = V.i(1, 5) if large != 1 else V.i(11, 37)
    if large in (2, 3):
        h.nd = V.i(1, 2)
    h.dirs = distinct(V, h.nd, -6.2, 6.2)
    if rng.random() < .4:
        h.dirs[V.i(0, h.nd - 1)] = 0.
    if rng.random() < .4:
        h.dirs.sort()
    h.nf = V.i(1, 7) if domain == 'frequency' else 0
    if h.nf and large:
        h.nf = (V.i(1, 3), V.i(20, 110), V.i(1, 2))[large - 1]
    h.freqs = distinct(V, h.nf, .05, 8.)
    if h.nf and rng.random() < .08:
        h.freqs[V.i(0, h.nf - 1)] = 0.
    if rng.random() < .4:
        h.freqs.sort(reverse=rng.random() < .5)
    h.nt = V.i(1, 6) if domain == 'time' else 0
    if h.nt and large == 2:
        h.nt = V.i(20, 400)
    h.times = distinct(V, h.nt, 0., 100.)
    if h.nt and rng.random() < .5:
        h.times[0] = 0.
    allrec = ['W1MOTION', 'W1EXFORC', 'W1SFORCE', 'WFLUIDKN', 'W1MATRIX',
              'WBODY', 'W2HDRIFT', 'W2MDRIFT', 'W1PANPRE', 'WSECTION',
              'WFKPOINT']
    h.have = set(allrec if have is None else have)
    h.icompl = {}
    chains = []
    head = [S.rec_wbodcon(V, h.cond[b], b) for b in h.bodies]
    if rng.random() < .5:
        head = [head[int(j)] for j in rng.permutation(nb)]
    chains.append(_blocks(rng, head, 2))
    # ---- result references: direction by direction
    refs = []
    h.iwres = {}
    second = h.freqs if domain == 'frequency' else h.times
    ty = 2 if domain == 'frequency' else 3
    for i, d in enumerate(h.dirs):
        for j, f in enumerate(second):
            n = len(refs) + 1
            h.iwres[i, j] = n
            parts = [(1, [(float(i + 1), d)]), (ty, [(float(j + 1), f)])]
            refs.append(S.rec_wdresref(n, 1, parts))
    chains.append(_blocks(rng, refs))
    h.g = S.f32(rng.choice([9.81, 9.80665, rng.uniform(1, 40)]))
    h.ro = S.f32(rng.choice([1025., 1000., 1.025, rng.uniform(.1, 2000)]))
    h.depth = None if rng.random() < .3 else S.f32(rng.uniform(5, 3000))
    chains.append([[S.rec_wglobdef(V, h.g, h.ro, h.depth)]])
    h.wbody = {}
    if 'WBODY' in h.have:
        rr = []
        for b in rng.permutation(h.bodies):
            r = S.rec_wbody(V, h.cond[int(b)])
            h.wbody[int(b)] = r.cols
            rr.append(r)
        chains.append(_blocks(rng, rr, 2))
    # ---- sections of one body, reference points
    h.nsec = V.i(1, 4)
    h.secbody = [h.bodies[V.i(0, nb - 1)]] * h.nsec
    if nb > 1 and rng.random() < .5:
        # several bodies have sections
        h.secbody = [h.bodies[V.i(0, nb - 1)] for _ in range(h.nsec)]
    h.sections = []
    if 'WSECTION' in h.have:
        rr = [S.rec_wsection(V, h.secbody[k], k + 1) for k in range(h.nsec)]
        h.sections = [r.cols for r in rr]
        chains.append(_blocks(rng, rr, 2))
    h.npt = V.i(1, 4)
    h.points = []
    if 'WFKPOINT' in h.have:
        rr = [S.rec_wfkpoint(V, k + 1) for k in range(h.npt)]
        h.points = [r.cols['fkpnt'] for r in rr]
        chains.append(_blocks(rng, rr, 2))
    if domain == 'time':
        h.body = [r for c in _weave(rng, chains) for r in c]
        return h
    # ---- results
    grid = [(i, j) for i in range(h.nd) for j in range(h.nf)]
    h.res = {}

    def cases():
        if rng.random() < .5:
            return [(b, g) for g in grid for b in h.bodies]
        return [(b, g) for b in h.bodies for g in grid]
    for nm in ('W1MOTION', 'W1EXFORC'):
        if nm not in h.have:
            continue
        h.res[nm] = {}
        rr = []
        ic = int(rng.random() < .85)
        for b, (i, j) in cases():
            r = S.rec_wcommon(V, nm, h.cond[b], h.iwres[i, j], ic)
            h.res[nm][b, i, j] = r.cols['data']
            rr.append(r)
        chains.append(_blocks(rng, rr))
    for nm, f in (('W2HDRIFT', 'shfor'), ('W2MDRIFT', 'smfor')):
        if nm not in h.have:
            continue
        h.res[nm] = {}
        rr = []
        for b, (i, j) in cases():
            r = S.rec_w2drift(V, nm, h.cond[b], h.iwres[i, j])
            h.res[nm][b, i, j] = r.cols[f]
            rr.append(r)
        chains.append(_blocks(rng, rr))
    if 'W1SFORCE' in h.have and 'WSECTION' in h.have:
        h.res['W1SFORCE'] = {}
        rr = []
        for k in range(h.nsec):
            for i, j in grid:
                r = S.rec_w1sforce(V, h.cond[h.secbody[k]], k + 1,
                                   h.iwres[i, j], 1)
                h.res['W1SFORCE'][k, i, j] = r.cols['data']
                rr.append(r)
        chains.append(_blocks(rng, rr))
    if 'WFLUIDKN' in h.have and 'WFKPOINT' in h.have:
        h.res['p'], h.res['v'] = {}, {}
        rr = []
        for i, j in grid:
            for k in range(h.npt):
                r = S.rec_wfluidkn(V, h.iwres[i, j], k + 1, 1)
                h.res['p'][k, i, j] = r.cols['p']
                h.res['v'][k, i, j] = r.cols['v']
                rr.append(r)
        chains.append(_blocks(rng, rr))
    h.mat = {}
    if 'W1MATRIX' in h.have:
        rr = []
        pairs = [(a, b) for a in h.bodies for b in h.bodies
                 if a == b or rng.random() < .8]
        pairs = [pairs[int(k)] for k in rng.permutation(len(pairs))]
        what = {}
        for pr in pairs:
            for t in (11, 22, 31, 32):
                if rng.random() < .7:
                    m = np.array(V.fs(36), F32).reshape(6, 6)
                    what[pr, t] = m
                    rr.append((pr, 0, t, m))
        fd = {}
        ts = [t for t in (12, 21) if rng.random() < .85]
        seq = [(j, pr, t) for j in range(h.nf) for pr in pairs for t in ts]
        if rng.random() < .5:
            seq = [(j, pr, t) for pr in pairs for t in ts
                   for j in range(h.nf)]
        for j, pr, t in seq:
            m = np.array(V.fs(36), F32).reshape(6, 6)
            fd[pr, t, j] = m
            rr.append((pr, h.iwres[0, j], t, m))
        for pr in pairs:
            for t in ts:
                what[pr, t] = np.stack([fd[pr, t, j] for j in range(h.nf)],
                                       2)
        recs = [S.rec_w1matrix(n + 1, h.cond[pr[0]], h.cond[pr[1]], iw, t, m)
                for n, (pr, iw, t, m) in enumerate(rr)]
        h.mat = what
        if recs:
            chains.append(_blocks(rng, recs))
        else:
            h.have.discard('W1MATRIX')
    h.panels = {}
    if 'W1PANPRE' in h.have:
        rr = {}
        for b in h.bodies:
            if rng.random() < .25 and len(h.bodies) > 1:
                continue
            npn, ns = V.i(1, 6), int(rng.choice([1, 2, 4]))
            if not large and h.nd * h.nf < 5 and rng.random() < .1:
                npn = V.i(50, 300)
            ids = sorted(int(x) for x in V.distinct(
                99 if npn < 50 and rng.random() < .7 else 99999, npn) + 1)
            # numbers of the symmetry parts
            sy = list(range(1, ns + 1))
            if rng.random() < .2:
                sy = sorted(int(x) + 1 for x in rng.choice(9, ns, False))
            h.panels[b] = (ids, sy, {})
        seq = [(b, g) for g in grid for b in h.panels]
        if rng.random() < .5:
            seq = [(b, g) for b in h.panels for g in grid]
        recs = []
        for b, (i, j) in seq:
            ids, sy, val = h.panels[b]
            for s in range(len(sy)):
                for q, p in enumerate(ids):
                    r = S.rec_w1panpre(V, h.cond[b], h.iwres[i, j], q + 1,
                                       sy[s], 1, ipan=p)
                    val[q, s, i, j] = r.cols['p']
                    recs.append(r)
        if recs:
            chains.append(_blocks(rng, recs))
        else:
            h.have.discard('W1PANPRE')
    h.body = [r for c in _weave(rng, chains) for r in c]
    return h


def records(h, num=1):
    return [S.rec_ident(1, num, 0)] + h.body + [S.rec_iend(True)]


def raos(h, nm, body, n=6, dt=np.complex64):
    out = np.zeros((n, h.nd, h.nf), dt)
    for i in range(h.nd):
        for j in range(h.nf):
            out[:, i, j] = h.res[nm][body, i, j]
    return out
