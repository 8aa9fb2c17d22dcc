"""Random finite element models with results, and what queries on them have
to return (computed from the model, not from freesif)."""
import numpy as np

from . import sif as S

F32 = np.float32
BEAM = (15, 23)
SHELL = (24, 25, 26, 28)
NRES = {15: 3, 23: 2, 24: 10, 25: 8, 26: 6, 28: 8}
IJK = {15: (1, 1, 3), 23: (1, 1, 2), 24: (2, 1, 5), 25: (2, 1, 4),
       26: (2, 1, 3), 28: (2, 2, 2)}
NCOMP = {15: 6, 23: 6, 24: 3, 25: 3, 26: 5, 28: 5}


def f32a(a):
    return np.asarray(a, F32)


class Sel(object):
    """a selection of elements / nodes"""

    def __init__(self, sets=None, kind=None, disconnected=False):
        self.sets, self.kind, self.disconnected = sets, kind, disconnected

    def kw(self):
        d = {}
        if self.sets is not None:
            d['sets'] = self.sets
        if self.kind is not None:
            d['kind'] = self.kind
        if self.disconnected:
            d['disconnected'] = True
        return d

    def __repr__(self):
        return repr(self.kw())


class Model(object):
    pass


def make(V, family='R', types=None, nelem=None, unused=None, nsets=None,
         cases=None, cplx=None, thick=None, extra_results=True, nres_nodes=None,
         gcoord_scale=50., big=None):
    """cases: list of (ires, run, ieres, icompl)
    big: 'nodes' (more than 16 bit numbers count), 'elems' (many elements),
    'full' (elements at more nodes than 16 bit numbers count) or 'mid' (a few
    hundred)"""
    rng = V.rng
    m = Model()
    m.big = big
    if big == 'full':
        types = (26, 28)
    if types is None:
        fam = rng.integers(0, 3)
        types = ((15, 24, 25), (23, 26, 28),
                 (15, 23, 24, 25, 26, 28))[fam]
        if rng.random() < .4:
            types = tuple(types) + (16, 18)
        if rng.random() < .35:
            # one to three types of any kind
            types = tuple(int(x) for x in rng.choice(
                (15, 16, 18, 23, 24, 25, 26, 28), V.i(1, 3), replace=False))
    m.types = types
    if nelem is None:
        nelem = V.i(2, 30 if rng.random() < .95 else 150)
        if big == 'mid':
            nelem = V.i(250, 700)
        elif big == 'full':
            nelem = V.i(9700, 10000)
        elif big == 'elems':
            nelem = V.i(33000, 36000) if rng.random() < .7 else V.i(
                65500, 66500)
    ety = [int(rng.choice(types)) for _ in range(nelem)]
    # make sure there is a beam and a shell if the types allow
    bt = [t for t in types if t in BEAM]
    st = [t for t in types if t in SHELL]
    if nelem >= 2 and bt and st:
        ety[0], ety[1] = int(rng.choice(bt)), int(rng.choice(st))
        rng.shuffle(ety)
        if not any(t in BEAM for t in ety) or not any(
                t in SHELL for t in ety):
            ety[0], ety[-1] = bt[0], st[0]
    m.eltyp = np.array([int(t) for t in ety])
    nn = V.i(10, 12 + 3 * nelem)
    if big == 'nodes':
        nn = V.i(33000, 36000) if rng.random() < .7 else V.i(65500, 66500)
    elif big == 'full':
        nn = V.i(65700, 66500)
    elif big == 'elems':
        nn = V.i(10, 400)
    m.nnodes = nn
    unused = V.i(0, 3) if unused is None else unused
    perm = rng.permutation(nn)
    free = set(int(x) for x in perm[:unused])
    cand = np.array([k for k in range(nn) if k not in free])
    if len(cand) < 8:
        cand = np.arange(nn)
        free = set()
    if big in ('nodes', 'elems'):
        m.con = []
        for t in m.eltyp:
            # distinct ones without a permutation of all
            o = rng.permutation(9)[:S.NNODES[t]] * (len(cand) // 10)
            m.con.append(cand[(int(rng.integers(0, len(cand))) + o) % len(
                cand)].astype(int))
    elif big == 'full':
        # every node, one after the other, over and over
        o = np.cumsum([0] + [S.NNODES[t] for t in m.eltyp])
        p = rng.permutation(cand) if rng.random() < .5 else cand
        p = np.resize(p, o[-1])
        m.con = [p[a:b].astype(int) for a, b in zip(o, o[1:])]
    else:
        m.con = [rng.choice(cand, S.NNODES[t], replace=False).astype(int)
                 for t in m.eltyp]
    # numbers of the user: as large as a file can hold exactly
    top = 99999 if big or rng.random() < .8 else 9999999
    m.nodex = np.sort(V.distinct(top, nn)) + 1
    if rng.random() < .5:
        m.nodex = m.nodex[rng.permutation(nn)]
    m.elnox = np.sort(V.distinct(top, nelem)) + 1
    if rng.random() < .5:
        m.elnox = m.elnox[rng.permutation(nelem)]
    m.xyz = f32a(rng.normal(size=(nn, 3)) * gcoord_scale)
    # ---- sets
    m.sets = {}          # name -> {'elem': array of 0-based, 'node': ...}
    setrecs = []
    tdrecs = []
    nsets = V.i(1, 5) if nsets is None else nsets
    if nsets == 5 and rng.random() < .15:
        nsets = V.i(20, 60)
    ids = [int(x) for x in V.distinct(200 if rng.random() < .8 else 999999,
                                      nsets) + 1]
    names = set()
    # a name that others spell, put together
    m.spelled = {}
    planned = []
    if nsets >= 3 and rng.random() < .3:
        parts = [V.text(1, 1, False) for _ in range(V.i(2, min(
            3, nsets - 1)))]
        whole = ['', ',', ' ', '_', '-', ';'][max(0, V.i(-3, 5))].join(parts)
        if len(set(parts)) == len(parts):
            planned = parts + [whole]
            m.spelled[whole] = parts
    for k in range(nsets):
        while True:
            if planned:
                nm = planned.pop(V.i(0, len(planned) - 1))
                names.add(nm)
                break
            nm = V.text(1, 20) if rng.random() < .4 else 'set_%d' % V.i(0, 999)
            if names and rng.random() < .4:
                # a name that differs a little from another one
                nm = sorted(names)[V.i(0, len(names) - 1)]
                nm = [nm + 'x', nm[:-1], nm.swapcase(), nm + ' x',
                      'x' + nm][V.i(0, 4)].strip()
            if nm in names or not nm:
                continue
            names.add(nm)
            break
        sz = V.i(1, nelem)
        mem = rng.choice(nelem, sz, replace=False)
        m.sets[nm] = {'elem': np.unique(mem), 'id': ids[k]}
        # members may be spread over several records and repeated
        parts = [mem]
        if sz > 1 and rng.random() < .5:
            c = V.i(1, sz - 1)
            parts = [mem[:c], mem[c:]]
            if rng.random() < .5:
                parts[1] = np.concatenate([parts[1], mem[:1]])
        if rng.random() < .25:
            # records without members
            for _ in range(V.i(1, 2)):
                parts.insert(V.i(0, len(parts)), mem[:0])
        for ix, p in enumerate(parts):
            if rng.random() < .5:
                p = np.sort(p)
            setrecs.append(S.rec_gsetmemb(ids[k], ix + 1, 2, 0,
                                          [int(x) + 1 for x in p]))
        if rng.random() < .4:
            # node members of the same set
            q = rng.choice(nn, V.i(1, nn), replace=False)
            setrecs.append(S.rec_gsetmemb(ids[k], 1, 1, 0,
                                          [int(x) + 1 for x in q]))
        tdrecs.append(S.rec_td(V, 'TDSETNAM', ids[k], nm))
    # members are written set by set; the names in any order
    if rng.random() < .5:
        tdrecs = [tdrecs[int(j)] for j in rng.permutation(len(tdrecs))]
    m.setnames = [r.cols['name'] for r in tdrecs]
    if rng.random() < .4:
        setrecs = [setrecs[int(j)] for j in rng.permutation(len(setrecs))]
    # ---- properties
    ngeo = V.i(1, 4)
    geos = [int(x) for x in V.distinct(99 if rng.random() < .8
                                             else 999999, 2 * ngeo) + 1]
    m.sect = {}
    secrecs, thrrecs = [], []
    if rng.random() < .25:      # numbers which are alike in 8 or 16 bits
        base = V.i(1, 200)
        geos = [base + (256 if rng.random() < .4 else 65536) * int(j) for j in
                V.distinct(15, 2 * ngeo)]
    bgeo, sgeo = geos[:ngeo], geos[ngeo:]
    m.thick = {}
    for g in bgeo:
        r = S.rec_std(V, 'GBEAMG', g)
        m.sect[g] = r.cols
        secrecs.append(r)
    for g in sgeo:
        r = S.rec_std(V, 'GELTH', g)
        m.thick[g] = r.cols['th']
        thrrecs.append(r)
    m.geono = []
    refs = []
    for k, t in enumerate(m.eltyp):
        g = int(rng.choice(bgeo if t in BEAM else sgeo if t in SHELL
                           else geos))
        m.geono.append(g)
        n = S.NNODES[int(t)]
        tail = [V.is_(n, 1, 99) if rng.random() < .3 else V.i(0, 99)
                for _ in range(3)]
        refs.append(S.rec_gelref1(k + 1, V.is_(7, 0, 9), g, *tail, nn=n))
    # ---- results
    m.cases = cases
    if cases is None and family == 'R':
        m.cases = gen_cases(V, cplx, nelem < 8 and not big)
        if big:
            m.cases = m.cases[:1]
            extra_results = False
    # ---- records
    ch = []
    node = [S.Rec('GNODE', [int(m.nodex[k]), k + 1, 6, 123456], 'in',
                  dict(nodex=int(m.nodex[k]), nodeno=k + 1, ndof=6,
                       odof=123456)) for k in range(nn)]
    coord = [S.Rec('GCOORD', [k + 1] + [float(x) for x in m.xyz[k]], 'in',
                   dict(nodeno=k + 1, xcoord=float(m.xyz[k][0]),
                        ycoord=float(m.xyz[k][1]), zcoord=float(m.xyz[k][2])))
             for k in range(nn)]
    elem = [S.rec_gelmnt1(int(m.elnox[k]), k + 1, int(m.eltyp[k]),
                          [int(x) + 1 for x in m.con[k]])
            for k in range(nelem)]
    m.nelem = nelem
    from .soup import _blocks, _weave
    model = [_blocks(rng, node, 2), _blocks(rng, coord, 2),
             _blocks(rng, elem, 2) + _blocks(rng, refs, 2),
             _blocks(rng, tdrecs, 3), _blocks(rng, setrecs, 3),
             _blocks(rng, secrecs, 2), _blocks(rng, thrrecs, 2)]
    if rng.random() < .35:
        model += decoys(V, m, family, ids, geos)
    ch = _weave(rng, model)
    m.body = [r for b in ch for r in b]
    m.family = family
    if family == 'R' and m.cases:
        add_results(V, m, extra_results)
    return m


def decoys(V, m, family, ids, geos):
    """records no query is about, with the numbers of those it is about"""
    from .soup import _blocks, SECTIONS, catalogue
    rng = V.rng
    names = [n for n in S.TD if n not in ('TDSETNAM', 'TDLOAD')]
    names += [n for n in SECTIONS if n != 'GBEAMG'] * 2
    names += ['DATE', 'TEXT', 'BNBCD', 'BLDEP', 'SCONCEPT', 'SCONMESH',
              'BEUSLO', 'GELMNT2', 'HSUPTRAN']
    out = []
    cat = catalogue(V, family)
    for nm in sorted(set(names[int(k)] for k in rng.integers(
            0, len(names), V.i(1, 4)))):
        if nm in S.TD:
            out.append(_blocks(rng, [
                S.rec_td(V, nm, i, str(rng.choice(sorted(m.sets)))
                         if rng.random() < .5 else None)
                for i in ids[:4] + list(range(1, V.i(1, 5)))]))
        elif nm in SECTIONS:
            out.append(_blocks(rng, [S.rec_std(V, nm, g) for g in geos
                                     if rng.random() < .7]
                               or [S.rec_std(V, nm, geos[0])]))
        elif nm in cat:
            out.append(cat[nm]())
    return out


def gen_cases(V, cplx=None, many=False):
    """result cases: several runs, external numbers in any relation to the
    internal ones"""
    rng = V.rng
    nruns = int(rng.choice([1, 1, 2]))
    out = []
    ires = 0 if rng.random() < .85 else V.i(1, 199999)
    many = many and rng.random() < .15
    runs = list(range(1, nruns + 1))
    if rng.random() < .15:
        runs = sorted(int(x) for x in V.distinct(300, nruns) + 1)
    if rng.random() < .15:
        runs = [0] + runs
    for run in runs:
        k = V.i(1, 4) if not many else V.i(9, 40)
        ext = [int(x) for x in V.distinct(
            40 if rng.random() < .8 else 99999, k) + 1]
        if rng.random() < .5:
            ext.sort()
        for e in ext:
            ires += V.i(1, 2)
            ic = int(rng.random() < .5) if cplx is None else int(cplx)
            out.append((ires, run, e, ic))
    return out


def special(rng, v, npt):
    """now and then a special state: nothing, constant, membrane, bending,
    a single component or point"""
    if rng.random() > .2:
        return v
    a = v.reshape(npt, -1).copy()
    h = npt // 2
    k = int(rng.integers(7))
    if k == 0:
        a[:] = 0
    elif k == 6:
        a *= f32a(10. ** rng.integers(-9, 10, a.shape[1]))
    elif k == 1:
        a[:] = a[0]
    elif k == 2 and h:
        a[h:2 * h] = a[:h]
    elif k == 3 and h:
        a[h:2 * h] = -a[:h]
    elif k == 4:
        a[:, np.arange(a.shape[1]) != rng.integers(a.shape[1])] = 0
    else:
        a[np.arange(npt) != rng.integers(npt)] = 0
    return a.reshape(-1)


def add_results(V, m, extra=True):
    rng = V.rng
    recs = []
    m.elres = [k for k in range(m.nelem) if int(m.eltyp[k]) in NRES]
    pts = []
    used = sorted(set(int(m.eltyp[k]) for k in m.elres))
    strain = len(m.elres) < 60 and rng.random() < .2
    for rd in ('RDFORCES', 'RDSTRESS') + ('RDSTRAIN',) * strain:
        ts = [t for t in used if (t in BEAM) == (rd == 'RDFORCES')]
        if ts:
            recs += [S.rec_compdef(rd, t, V.is_(NCOMP[t], 1, 99))
                     for t in ts]
    for k in m.elres:
        t = int(m.eltyp[k])
        pts.append(S.rec_rdpoints(V, 1, k + 1, t, t, IJK[t], 0, V.i(0, 2),
                                  holes=False))
        assert pts[-1].cols['nsp'] == NRES[t]
    recs += pts
    recs += [S.rec_rdielcor(V, t, IJK[t], 0) for t in used]
    recs += [S.rec_rdresref(ires, run, ext, 1, ic,
                            [V.fs(3) for _ in range(V.i(0, 2))])
             for ires, run, ext, ic in m.cases]

    def vals(n):
        v = f32a(rng.normal(size=n) * 10. ** rng.integers(-2, 6))
        return v * 0 if rng.random() < .03 else v

    def spread(v):
        # numbers of very different size together
        if rng.random() < .85:
            return v
        return f32a(v * 10. ** rng.integers(-9, 10, len(v)))
    m.nodal = {}
    chains = []
    from .soup import _blocks, _weave
    # nodes without results: only unused ones, if at all
    usedn = set(int(x) for c in m.con for x in c)
    m.resnodes = [k for k in range(m.nnodes)]
    if rng.random() < .25:
        m.resnodes = [k for k in range(m.nnodes) if k in usedn]
    what = ['RVNODDIS'] + ([x for x in ('RVNODVEL', 'RVNODACC')
                            if rng.random() < .5] if extra else [])
    for nm in what:
        d = {}
        rr = []
        for ires, run, ext, ic in m.cases:
            for k in m.resnodes:
                v = spread(vals(6 * (ic + 1)))
                d[ires, k] = v[0::2] + 1j * v[1::2] if ic else v
                rr.append(S.rec_rvnod(nm, ires, k + 1,
                                      [float(x) for x in v]))
        m.nodal[nm] = d
        chains.append(_blocks(rng, rr))
    m.elemres = {}
    for nm, kind in (('RVFORCES', BEAM), ('RVSTRESS', SHELL)):
        rr = []
        for ires, run, ext, ic in m.cases:
            for k in m.elres:
                t = int(m.eltyp[k])
                if t not in kind:
                    continue
                n = NRES[t] * NCOMP[t]
                v = special(rng, vals(n * (ic + 1)), NRES[t])
                c = v[0::2] + 1j * v[1::2] if ic else v
                m.elemres[ires, k] = c.reshape(NRES[t], NCOMP[t])
                rr.append(S.rec_rvelm(nm, ires, k + 1, 1, t,
                                      [float(x) for x in v]))
        if rr:
            chains.append(_blocks(rng, rr))
        if rr and nm == 'RVSTRESS' and strain:
            # strains at the same points, which no query is about
            chains.append(_blocks(rng, [
                S.rec_rvelm('RVSTRAIN', *[r.cols[c] for c in (
                    'ires', 'iielno', 'ispalt', 'ir')],
                    V.fs(r.cols['nfield'] - 5)) for r in rr]))
    loads = []
    ids = [int(x) for x in V.distinct(
        60 if rng.random() < .8 else 999999, V.i(1, 5)) + 1]
    loads = [S.rec_td(V, 'TDLOAD', i) for i in ids]
    m.loads = [(i, r.cols['name']) for i, r in zip(ids, loads)]
    chains.append(_blocks(rng, loads))
    m.body += recs
    for b in _weave(rng, chains):
        m.body += b


def records(m, seltyp=1, header=None):
    if header is None:
        header = []
        if m.family == 'R':
            header = [S.rec_irecsize(),
                      S.rec_hierarch(1, seltyp, 1, 1, 0, 0, [])]
        header.append(S.rec_ident(1, seltyp, 3))
    return header + m.body + [S.rec_iend(True)]


# ---------------------------------------------------------------- queries
def elems_of(m, sel):
    """element indices (0-based) of a selection, ascending"""
    idx = np.arange(m.nelem)
    if sel.sets is not None:
        names = [sel.sets] if isinstance(sel.sets, str) else sel.sets
        idx = np.unique(np.concatenate([m.sets[n]['elem'] for n in names]))
    if sel.kind is not None:
        k = BEAM if sel.kind == 'beam' else SHELL
        idx = idx[np.isin(m.eltyp[idx], k)]
    return idx


def nodes_of(m, sel):
    """node index (0-based) of each row of a node query"""
    if sel.sets is None and sel.kind is None:
        if sel.disconnected:
            return np.concatenate(m.con)
        return np.arange(m.nnodes)
    e = elems_of(m, sel)
    con = np.concatenate([m.con[i] for i in e])
    return con if sel.disconnected else np.unique(con)


def connectivity_of(m, sel):
    """-> (con, offset, eltyp) where con indexes the rows of a node query"""
    e = elems_of(m, sel)
    con = np.concatenate([m.con[i] for i in e])
    off = np.cumsum([len(m.con[i]) for i in e])
    if sel.disconnected:
        con = np.arange(len(con))
    else:
        rows = nodes_of(m, sel)
        con = np.searchsorted(rows, con)        # rows ascend
    return con, off, m.eltyp[e]


def cases_of(m, run=1, rescases=None):
    want = None
    if rescases is not None:
        want = [rescases] if isinstance(rescases, int) else list(rescases)
    return [c for c in m.cases if c[1] == run and (want is None or
                                                   c[2] in want)]


REC = {'displacement': 'RVNODDIS', 'velocity': 'RVNODVEL',
       'acceleration': 'RVNODACC'}


def node_results(m, restype, sel, run=1, rescases=None):
    d = m.nodal[REC[restype]]
    rows = nodes_of(m, sel)
    if sel.sets is None and sel.kind is None and not sel.disconnected:
        rows = np.array(m.resnodes)
    out = [np.array([d[c[0], int(k)] for k in rows])
           for c in cases_of(m, run, rescases)]
    return out[0] if len(out) == 1 else np.array(out)


S3 = 3 ** .5


def gauss(pts, at):
    """bilinear extrapolation from the 2x2 Gauss points, first natural
    coordinate running fastest, to the natural coordinates `at`"""
    out = []
    for x, y in at:
        x, y = x * S3, y * S3
        w = [.25 * (1 + sx * x) * (1 + sy * y)
             for sy in (-1, 1) for sx in (-1, 1)]
        out.append(sum(wi * p for wi, p in zip(w, pts)))
    return np.array(out)


QUAD8 = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)]


def triangle(pts, at):
    """linear extrapolation from the points with area coordinates
    (2/3,1/6,1/6).. to the area coordinates `at`"""
    a = np.array([[2 / 3., 1 / 6., 1 / 6.], [1 / 6., 2 / 3., 1 / 6.],
                  [1 / 6., 1 / 6., 2 / 3.]])
    inv = np.linalg.inv(a)       # nodal value n = inv . point values
    w = np.array(at).dot(inv)
    return np.tensordot(w, np.asarray(pts), (1, 0))


TRI6 = [(1, 0, 0), (.5, .5, 0), (0, 1, 0), (0, .5, .5), (0, 0, 1),
        (.5, 0, .5)]


def elem_result(m, ires, k, restype):
    """(nnodes, ...) result of one element at its nodes"""
    t = int(m.eltyp[k])
    v = m.elemres[ires, k]
    v = v.astype(complex if np.iscomplexobj(v) else float)
    if t == 15:
        return v[[0, 2]]
    if t == 23:
        # linear through Gauss points at -1/sqrt3, +1/sqrt3
        a, b = v
        return np.array([(a + b) / 2 - s * (a - b) / 2 * S3
                         for s in (-1, 0, 1)])
    if t in (24, 25):
        half = len(v) // 2
        lo, up = v[:half], v[half:]
        # quadrilateral: points 1 2 (centre) 4 3; triangle: 1 2 (centre) 3
        order = [0, 1, 4, 3] if t == 24 else [0, 1, 3]
        lo, up = lo[order], up[order]
        if restype == 'generalstress':
            return np.stack([lo, up], 1)
        return np.concatenate([(lo + up) / 2, (up - lo) / 2], 1)
    npt = 3 if t == 26 else 4
    lo, up = v[:npt], v[npt:]
    mid = (lo + up) / 2
    # in-plane stresses vary linearly over the thickness; the result points
    # lie at 1/sqrt3 of the half thickness
    ls = mid - (up - lo) / 2 * S3
    us = mid + (up - lo) / 2 * S3
    if t == 26:
        ext = lambda p: triangle(p, TRI6)
    else:
        ext = lambda p: gauss(p, QUAD8)
    if restype == 'generalstress':
        lo5, up5 = np.zeros_like(lo), np.zeros_like(up)
        lo5[:, :3], up5[:, :3] = ls[:, :3], us[:, :3]
        return np.stack([ext(lo5), ext(up5)], 1)
    mem, bend = (ls[:, :3] + us[:, :3]) / 2, (us[:, :3] - ls[:, :3]) / 2
    return ext(np.concatenate([mem, bend, 1.5 * lo[:, 3:]], 1))


def element_results(m, restype, sets=None, run=1, rescases=None):
    sel = Sel(sets, 'beam' if restype == 'beamforce' else 'shell')
    es = elems_of(m, sel)
    out = []
    for c in cases_of(m, run, rescases):
        out.append(np.concatenate([elem_result(m, c[0], int(k), restype)
                                   for k in es]))
    return out[0] if len(out) == 1 else np.array(out)
