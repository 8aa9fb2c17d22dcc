"""The vtu writer: V01..V03.  The files are read back by an own decoder."""
import base64
import os
import struct
import xml.etree.ElementTree as ET

import numpy as np

from vlib import fem
from vlib import sif as S
from vlib.runner import prop
from checks.conv import fs
from checks.struc import SASSUME, reach

VTYPE = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}
# order in which VTK lists the nodes of a Sesam element
VORDER = {15: [0, 1], 23: [0, 2, 1], 24: [0, 1, 2, 3], 25: [0, 1, 2],
          26: [0, 1, 2, 3, 4, 5], 28: [0, 2, 4, 6, 1, 3, 5, 7]}
DT = {'Int8': 'i1', 'UInt8': 'u1', 'Int16': '<i2', 'UInt16': '<u2',
      'Int32': '<i4', 'UInt32': '<u4', 'Int64': '<i8', 'UInt64': '<u8',
      'Float32': '<f4', 'Float64': '<f8'}
VASSUME = ['arrays of the element types of the supported elements, 1d or 2d, '
           'of integer or real type']


def decode(ctx, el):
    ctx.expect(el.tag == 'DataArray' and el.get('format') == 'binary' and
               el.get('type') in DT, 'bad data array {}'.format(el.attrib))
    raw = base64.b64decode((el.text or '').strip(), validate=True)
    n = struct.unpack('<Q', raw[:8])[0]
    ctx.expect(n == len(raw) - 8, 'data array {!r}: announces {} bytes, has '
               '{}'.format(el.get('Name'), n, len(raw) - 8))
    a = np.frombuffer(raw[8:], DT[el.get('type')])
    k = int(el.get('NumberOfComponents', '1'))
    ctx.obs('arrays')
    if k != 1:
        ctx.expect(a.size % k == 0, 'components')
        a = a.reshape(-1, k)
    return a


def read_vtu(ctx, path):
    """-> list of pieces: dict points, con, off, types, PointData, CellData
    (lists of (name, array, attributes))"""
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as e:
        ctx.fail('not well formed: {}'.format(e))
    ctx.expect(root.tag == 'VTKFile' and
               root.get('type') == 'UnstructuredGrid' and
               root.get('byte_order') == 'LittleEndian' and
               root.get('header_type') == 'UInt64',
               'root {} {}'.format(root.tag, root.attrib))
    ug = list(root)
    ctx.expect(len(ug) == 1 and ug[0].tag == 'UnstructuredGrid', 'grid')
    out = []
    for p in ug[0]:
        ctx.expect(p.tag == 'Piece', p.tag)
        d = {'PointData': [], 'CellData': []}
        for sec in p:
            if sec.tag == 'Points':
                ctx.expect(len(sec) == 1, 'Points')
                d['points'] = decode(ctx, sec[0])
            elif sec.tag == 'Cells':
                for x in sec:
                    d[x.get('Name')] = decode(ctx, x)
            elif sec.tag in ('PointData', 'CellData'):
                for x in sec:
                    d[sec.tag].append((x.get('Name'), decode(ctx, x),
                                       dict(x.attrib)))
            else:
                ctx.fail('unexpected element ' + sec.tag)
        for k in ('points', 'connectivity', 'offsets', 'types'):
            ctx.expect(k in d, 'no ' + k)
        ctx.expect(int(p.get('NumberOfPoints')) == len(d['points']) and
                   int(p.get('NumberOfCells')) == len(d['offsets']) ==
                   len(d['types']), 'counts of a piece')
        out.append(d)
    return out


def cellpoints(a, cells):
    """results at element nodes in the order the cells list their points"""
    out = np.array(a, copy=True)
    b = 0
    for e, t in zip(cells[1], cells[2]):
        if t == 26:
            out[b:e] = a[b:e][[0, 2, 4, 1, 3, 5]]
        b = int(e)
    return out


def rnd_mesh(ctx, n=None, large=None):
    rng = ctx.rng
    if large is None:
        large = n is None and ctx.p(.0012)
    n = n or ctx.i(1, 12 if ctx.p(.97) else 400)
    if large:
        # more element nodes than fit into two bytes
        n = ctx.i(15000, 24000)
        ctx.obs('large_meshes')
    ty = rng.choice(sorted(VTYPE), n)
    np_ = ctx.i(8, 40) if not large else ctx.i(8, 80000)
    con = [rng.integers(0, np_, len(VORDER[int(t)])) if large else
           rng.choice(np_, len(VORDER[int(t)]), replace=False) for t in ty]
    off = np.cumsum([len(c) for c in con])
    it = ctx.pick(['i4', 'i8'])
    pts = rng.normal(size=(np_, 3)).astype(ctx.pick(['f4', 'f8']))
    return pts, (np.concatenate(con).astype(it), off.astype(it),
                 ty.astype(it)), con


def frozen(a):
    return [np.array(x, copy=True) for x in a]


NAMES = ['disp', 'a b', 'x<y', 'a&b', '"q"', "it's", '<>&"\'', 'sig_xx',
         'SIG/XX', '5', 'tau [MPa]', 'a=b', 'x>y', '&amp;', '\u03c3_xx', 'A\tB'.replace(
             '\t', ' ')]


@prop('V01', 20000, 1000000, need=['arrays', 'pieces', 'cells'],
      rule='distinct (element types of the pieces, data sections, types of '
           'arrays)', assumptions=VASSUME)
def v01(ctx):
    F = fs()
    fn = 'out.vtu'
    with ctx.gen():
        pieces = []
        for _ in range(ctx.i(1, 4)):
            n = len(pieces[-1][1][1]) if pieces and ctx.p(.3) else None
            pts, cells, con = rnd_mesh(ctx, n)
            data = []
            for _ in range(ctx.i(0, 3)):
                sec = ctx.pick(['PointData', 'CellData'])
                arrs = []
                ncp = int(cells[1][-1])
                for _ in range(ctx.i(0, 3)):
                    cp = ctx.p(.25)
                    n = ncp if cp else len(pts) if sec == 'PointData' \
                        else len(cells[1])
                    dt = ctx.pick(['f4', 'f8', 'i4', 'i8', 'u1', 'u2', 'i2',
                                   'u4', 'u8', 'i1', '>f4', '>f8', '>i4'])
                    shp = (n,) if ctx.p(.3) else (n, ctx.i(1, 8))
                    a = (ctx.rng.normal(size=shp) * 100)
                    if dt[-2] == 'u':
                        a = np.abs(a)
                    a = a.astype(dt)
                    if ctx.p(.15):
                        a = np.asfortranarray(a)
                    if ctx.p(.15):
                        b = np.zeros((2 * n,) + shp[1:], dt)
                        b[::2] = a
                        a = b[::2]
                    cn = None
                    if ctx.p(.4) and a.ndim == 2:
                        cn = [ctx.pick(NAMES) for _ in range(a.shape[1])]
                    arrs.append((a, ctx.pick(NAMES), cn, cp))
                data.append((sec, arrs))
            pieces.append((pts, cells, con, data))
        ctx.note = repr([(p[1][2].tolist(), [(s, [(a.dtype.str, a.shape, n, c)
                                                  for a, n, _, c in x])
                                             for s, x in p[3]])
                         for p in pieces])
    w = F.utils.VtuWriter(fn)
    for pts, cells, con, data in pieces:
        w.new_piece(pts, cells)
        for sec, arrs in data:
            (w.start_pointdata if sec == 'PointData'
             else w.start_celldata)()
            for a, nm, cn, cp in arrs:
                add = w.add_data_cellpoints if cp else w.add_data
                if cn is None:
                    add(a, nm)
                else:
                    add(a, nm, cn)
    w.close()
    got = read_vtu(ctx, fn)
    ctx.expect(len(got) == len(pieces), '{} pieces expected {}'.format(
        len(got), len(pieces)))
    for g, (pts, cells, con, data) in zip(got, pieces):
        ctx.eq('points', g['points'], pts)
        ctx.expect(g['points'].dtype == pts.dtype, 'type of the points')
        ctx.eq('offsets', g['offsets'], cells[1])
        ctx.eq('types', g['types'], [VTYPE[int(t)] for t in cells[2]])
        want = np.concatenate([c[VORDER[int(t)]]
                               for c, t in zip(con, cells[2])])
        ctx.eq('connectivity', g['connectivity'], want)
        for sec in ('PointData', 'CellData'):
            exp = [x for s, arrs in data if s == sec for x in arrs]
            ctx.expect(len(exp) == len(g[sec]), '{} arrays in {} expected '
                       '{}'.format(len(g[sec]), sec, len(exp)))
            for (nm, a, at), (ea, enm, ecn, ecp) in zip(g[sec], exp):
                ctx.expect(nm == enm, 'name {!r} expected {!r}'.format(nm,
                                                                       enm))
                if ecp:
                    ea = cellpoints(ea, cells)
                    ctx.obs('cellpoints')
                e = ea[:, 0] if ea.ndim == 2 and ea.shape[1] == 1 else ea
                ctx.eq('{} {!r}'.format(sec, nm), a, e)
                ctx.expect(a.dtype == ea.dtype.newbyteorder('<'),
                           'type {} for {}'.format(a.dtype, ea.dtype))
                for k, c in enumerate(ecn or []):
                    ctx.expect(at.get('ComponentName%d' % k) == c,
                               'component name {!r} expected {!r}'.format(
                                   at.get('ComponentName%d' % k), c))
                ctx.state(sec, ea.dtype.str, ea.ndim)
        ctx.obs('pieces')
        ctx.obs('cells', len(cells[1]))
        ctx.state(sorted(set(cells[2].tolist())), len(pieces), len(data))


def large_piece(ctx, F):
    """more element nodes than fit into two bytes"""
    with ctx.gen():
        pts, cells, con = rnd_mesh(ctx, large=True)
        res = ctx.rng.normal(size=(int(cells[1][-1]), 2)).astype('f4')
    w = F.utils.VtuWriter('large.vtu')
    w.new_piece(pts, cells)
    w.start_pointdata()
    w.add_data_cellpoints(res, 'res')
    w.close()
    g, = read_vtu(ctx, 'large.vtu')
    ctx.eq('points', g['points'], pts)
    ctx.eq('offsets', g['offsets'], cells[1])
    ctx.eq('connectivity', g['connectivity'], np.concatenate(
        [c[VORDER[int(t)]] for c, t in zip(con, cells[2])]))
    ctx.eq('results', g['PointData'][0][1], cellpoints(res, cells))


@prop('V02', 700, 40000, need=['element_nodes', 'untouched'],
      rule='distinct (element type, node position, connected or not, '
           'repeated writing)', assumptions=SASSUME)
def v02(ctx):
    """model and results through the writer and back"""
    F = fs()
    if ctx.idx % 200 == 0:
        large_piece(ctx, F)
    with ctx.gen():
        types = ctx.pick([(24, 25), (26, 28), (15, 23), (26,), (23,), (28,),
                          (15, 23, 24, 25, 26, 28)])
        models = [fem.make(ctx.V, 'R', types=types, cplx=0, nsets=2)]
        if ctx.p(.5):
            # another one with as many elements, of other types or in
            # another order
            models.append(fem.make(
                ctx.V, 'R', types=ctx.pick([types, types, (26, 28),
                                            (15, 23)]),
                cplx=0, nsets=2, nelem=models[0].nelem))
        for k, x in enumerate(models):
            S.write('R%d.SIU' % (k + 1), fem.records(x, k + 1),
                    bool(ctx.i(0, 1)))
    opened = [reach(ctx, 'R%d.SIU' % (k + 1), 'R%d' % (k + 1),
                    out='x%d.h5' % k)
              for k in range(len(models))]
    # the two arrays of the model are kept by the caller and used again
    jobs = []
    kinds = ctx.pick([['beam', 'shell'], ['beam'], ['shell']])
    for k in range(ctx.i(1, 3) if len(models) == 1 else 4):
        m, d = models[k % len(models)], opened[k % len(models)][0]
        kind = ctx.pick(kinds)
        sets = ctx.pick([None, None, None] + sorted(m.sets))
        s = fem.Sel(sets, kind, ctx.p(.7))
        es = fem.elems_of(m, s)
        if not len(es):
            continue
        ty = set(int(m.eltyp[x]) for x in es)
        if kind == 'shell' and ty & {24, 25} and ty & {26, 28}:
            continue
        case = ctx.pick(m.cases)
        kw = {'run': case[1], 'rescases': case[2]}
        nodes, elems = d.get_nodes(**s.kw()), d.get_elements(**s.kw())
        disp = d.get_noderesults('displacement', **dict(kw, **s.kw()))
        if sets is not None:
            kw['sets'] = sets
        rt = 'beamforce' if kind == 'beam' else 'decomposedstress'
        er = d.get_elementresults(rt, **kw)
        jobs.append((m, s, es, case, rt, nodes, elems, disp, er))
    for _, close in opened:
        close()
    if not jobs:
        ctx.obs('nothing')
        return
    seq = jobs + ([ctx.pick(jobs)] if ctx.p(.6) else [])
    w = F.utils.VtuWriter('o.vtu')
    for m, s, es, case, rt, nodes, elems, disp, er in seq:
        before = frozen((nodes, disp, er) + tuple(elems))
        w.new_piece(nodes, elems)
        w.start_pointdata()
        w.add_data(disp, 'disp')
        if s.disconnected:
            w.add_data_cellpoints(er, 'res')
            if ctx.p(.4):
                w.add_data_cellpoints(er, 'again')
        w.start_celldata()
        w.add_data(np.asarray(m.elnox[es]), 'number')
        after = (nodes, disp, er) + tuple(elems)
        for a, b in zip(before, after):
            ctx.expect(np.array_equal(a, b), 'an array of the caller was '
                       'changed')
        ctx.obs('untouched')
    w.close()
    got = read_vtu(ctx, 'o.vtu')
    ctx.expect(len(got) == len(seq), 'pieces')
    for g, (m, s, es, case, rt, nodes, elems, disp, er) in zip(got, seq):
        pd = [(n, a) for n, a, _ in g['PointData']]
        ctx.expect(pd[0][0] == 'disp' and len(pd) == (
            1 if not s.disconnected else len(pd)), 'point data')
        ctx.eq('cell data', g['CellData'][0][1], m.elnox[es])
        a = 0
        for j, e in enumerate(es):
            t = int(m.eltyp[e])
            b = int(g['offsets'][j])
            rows = g['connectivity'][a:b]
            a = b
            ctx.expect(len(rows) == len(VORDER[t]), 'number of nodes')
            full = fem.elem_result(m, case[0], int(e), rt)
            tol = 5e-6 * float(np.abs(m.elemres[case[0], int(e)]).max())
            for q, r in enumerate(rows):
                loc = VORDER[t][q]
                k = int(m.con[e][loc])
                ctx.eq('point of element {} node {}'.format(
                    m.elnox[e], m.nodex[k]), g['points'][r], m.xyz[k])
                ctx.eq('displacement', pd[0][1][r],
                       m.nodal['RVNODDIS'][case[0], k])
                if s.disconnected:
                    pos = (0, 2, 4, 1, 3, 5)[loc] if t == 26 else loc
                    for nm, arr in pd[1:]:
                        ctx.expect(np.all(np.abs(
                            arr[r] - full[pos]) <= tol), '{} of element {} '
                            '(type {}) at its node {}: {} expected '
                            '{}'.format(nm, m.elnox[e], t, loc, arr[r],
                                        full[pos]))
                ctx.obs('element_nodes')
                ctx.state(t, q, s.disconnected, len(seq) > len(jobs))


@prop('V03', 20000, 1000000, need=['refused', 'completed', 'unknown_types'],
      rule='distinct (kind of misuse, state of the writer)',
      assumptions=VASSUME)
def v03(ctx):
    F = fs()
    from freesif.exceptions import VtkError
    w = F.utils.VtuWriter('o.vtu')
    piece = data = False
    npieces = 0
    exp = []
    log = []
    pts = cells = None
    meshes = []
    for _ in range(ctx.i(3, 14)):
        act = ctx.pick(['piece', 'pstart', 'cstart', 'add', 'add', '3d',
                        '3dcp', 'cellpoints', 'unknown'])
        log.append(act)
        ctx.note = ' '.join(log)
        if act == 'piece':
            with ctx.gen():
                pts, cells, _ = rnd_mesh(ctx)
            w.new_piece(pts, cells)
            piece, data = True, False
            npieces += 1
            exp.append([])
            meshes.append((pts, cells, _))
        elif act == 'unknown':
            # an element type without a cell type, and a mesh without any
            with ctx.gen():
                p2, c2, _ = rnd_mesh(ctx)
            ty = np.array(c2[2])
            ty[ctx.i(0, len(ty) - 1)] = ctx.pick([0, 1, 16, 18, 22, 27, 29,
                                                  40, 99])
            c2 = (c2[0], c2[1], ty)
            try:
                w.new_piece(p2, c2)
            except Exception:
                pass
            else:
                ctx.fail('new_piece accepted the element types {}'.format(ty))
            ctx.obs('refused')
            ctx.obs('unknown_types')
            ctx.state(act, piece, data)
        elif act in ('pstart', 'cstart'):
            f = w.start_pointdata if act == 'pstart' else w.start_celldata
            if piece:
                f()
                data = True
                sec = 'PointData' if act == 'pstart' else 'CellData'
            else:
                ctx.raises(VtkError, f)
                ctx.obs('refused')
                ctx.state(act, piece, data)
        elif act == '3d':
            ctx.raises(VtkError, w.add_data, np.zeros(ctx.pick(
                [(2, 3, 2), (0, 3, 2), (2, 0, 3), (1, 1, 1), (2, 1, 2, 1),
                 (5, 2, 1)])), 'x')
            ctx.obs('refused')
            ctx.state(act, piece, data)
        elif act == '3dcp':
            n = int(cells[1][-1]) if cells else 5
            ctx.raises(VtkError, w.add_data_cellpoints,
                       np.zeros((n,) + ctx.pick([(3, 2), (2, 1), (1, 1), (0, 3),
                                                 (2, 2, 2)])), 'x')
            ctx.obs('refused')
            ctx.state(act, piece, data)
        elif act == 'cellpoints':
            a = ctx.rng.normal(size=(int(cells[1][-1]) if cells else 4, 2))
            if data:
                nm = 'cp%d' % len(log)
                w.add_data_cellpoints(a, nm)
                exp[-1].append((sec, nm, cellpoints(a, cells)))
            else:
                ctx.raises(VtkError, w.add_data_cellpoints, a, 'cp')
                ctx.obs('refused')
                ctx.state(act, piece, data)
        elif act == 'add':
            a = ctx.rng.normal(size=ctx.pick([(3,), (2, 3), (1, 2)]))
            if data:
                w.add_data(a, 'd%d' % len(log))
                exp[-1].append((sec, 'd%d' % len(log), a))
            else:
                ctx.raises(VtkError, w.add_data, a, 'd')
                ctx.obs('refused')
                ctx.state(act, piece, data)
    w.close()
    # what was refused left no trace
    got = read_vtu(ctx, 'o.vtu')
    ctx.expect(len(got) == npieces, 'pieces')
    for g, e, (pts, cells, con) in zip(got, exp, meshes):
        names = [(s, n) for s in ('PointData', 'CellData')
                 for n, _, _ in g[s]]
        ctx.expect(sorted(names) == sorted(x[:2] for x in e),
                   'arrays {} expected {}'.format(names, [x[:2] for x in e]))
        vals = {(s, n): a for s in ('PointData', 'CellData')
                for n, a, _ in g[s]}
        for s, n, a in e:
            ctx.eq('{} {}'.format(s, n), vals[s, n], a)
        ctx.eq('points', g['points'], pts)
        ctx.eq('offsets', g['offsets'], cells[1])
        ctx.eq('types', g['types'], [VTYPE[int(t)] for t in cells[2]])
        ctx.eq('connectivity', g['connectivity'], np.concatenate(
            [c[VORDER[int(t)]] for c, t in zip(con, cells[2])]))
    ctx.obs('completed')
    ctx.expect(os.path.getsize('o.vtu') > 0, 'empty')
