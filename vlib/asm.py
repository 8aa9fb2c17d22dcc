"""Superelement hierarchies: T (model) and R (results) file sets.

A hierarchy is a tree of superelement occurrences.  HIERARCH lists them depth
first; HSUPTRAN gives the transformation of each occurrence into its parent;
model files exist once per superelement type, result files once per first
level occurrence."""
import copy

import numpy as np
from . import sif as S
from . import soup

F32 = np.float32


class Node(object):
    pass


def tree(V, maxlev=4, simple=False):
    """-> list of Node in HIERARCH order (ihref = 1..n).  A superelement type
    always has the same content, so all its occurrences have the same shape;
    occurrences get index numbers in HIERARCH order."""
    rng = V.rng
    top = V.i(2, 2 if simple else maxlev)
    nums = [int(x) for x in rng.permutation(np.arange(1, 90))[:30]]
    if rng.random() < .15:
        nums = [int(x) for x in V.distinct(9000, 30) + 200]
    # types per level: level -> [type numbers]
    types = {}
    level_of = {}
    for lev in range(1, top):
        k = V.i(1, 3 if lev == 1 else 2)
        types[lev] = [nums.pop() for _ in range(k)]
        for t in types[lev]:
            level_of[t] = lev
    toptype = nums.pop() + 100
    children = {}
    for lev in range(2, top + 1):
        for t in (types[lev] if lev < top else [toptype]):
            c = []
            # at least one child on the level just below
            c += [int(rng.choice(types[lev - 1]))
                  for _ in range(V.i(1, 2))]
            for _ in range(V.i(0, 2)):
                c.append(int(rng.choice(types[V.i(1, lev - 1)])))
            children[t] = [c[int(j)] for j in rng.permutation(len(c))]
    if sum(1 for _ in _walk(toptype, children)) > 24:
        return tree(V, maxlev, True)
    nodes = []
    seen = {}

    def add(t, parent, lev):
        n = Node()
        n.iselty, n.islevl, n.parent = t, lev, parent
        n.ihref = len(nodes) + 1
        seen[t] = seen.get(t, 0) + 1
        n.indsel = seen[t]
        n.subs = []
        nodes.append(n)
        for c in children.get(t, []):
            n.subs.append(add(c, n, level_of[c]))
        return n

    add(toptype, None, top)
    k = V.i(0, 4)
    if k in (1, 2):
        # listed in another order: level by level, or any
        rest = nodes[1:]
        if k == 1:
            rest = sorted(rest, key=lambda n: -n.islevl)
        else:
            rest = [rest[int(j)] for j in rng.permutation(len(rest))]
        nodes[1:] = rest
        ind = {}
        for j, n in enumerate(nodes):
            n.ihref = j + 1
            ind[n.iselty] = n.indsel = ind.get(n.iselty, 0) + 1
    used = set()
    for n in nodes[1:]:
        while True:
            k = n.ihref if rng.random() < .6 else V.i(2, 60)
            if k not in used:
                break
        used.add(k)
        n.itref = k
        n.t = S_affine(rng)
    nodes[0].itref = 0
    if rng.random() < .25:
        # references with gaps, or in another order than the list
        ks = V.distinct(60 if rng.random() < .5 else 999, len(nodes) - 1) + 2
        for n, k in zip(nodes[1:], sorted(ks) if rng.random() < .6 else ks):
            n.ihref = int(k)
    return nodes


def _walk(t, children):
    yield t
    for c in children.get(t, []):
        for x in _walk(c, children):
            yield x


def S_affine(rng):
    """4x4 row vector transformation with float32 numbers"""
    m = np.eye(4, dtype=F32)
    a = rng.normal(size=(3, 3))
    if rng.random() < .6:
        a = np.linalg.qr(a)[0]
    m[:3, :3] = a
    m[3, :3] = rng.normal(size=3) * 20
    return m


def hier_recs(nodes):
    hs = [S.rec_hierarch(n.ihref, n.iselty, n.indsel, n.islevl, n.itref,
                         n.parent.ihref if n.parent else 0,
                         [c.ihref for c in n.subs]) for n in nodes]
    return hs


def tran_recs(nodes, name='HSUPTRAN'):
    return [S.rec_xsuptran(None, name, n.itref, n.t) for n in nodes[1:]]


def total_transform(node, level=None):
    """product of the transformations from node up to `level` (None: top), in
    double precision; None if node has no ancestor on that level"""
    t = np.eye(4)
    n = node
    while n.parent is not None and (level is None or n.islevl < level):
        t = t.dot(np.asarray(n.t, float))
        n = n.parent
    if level is not None and n.islevl != level:
        return None
    return t


def file_case(V, p=.3):
    """letter case of the file names: usually upper, sometimes lower (all, or
    only the extension, or only the letters)"""
    if V.rng.random() > p:
        return str, str
    return [(str.lower, str.lower), (str.lower, str.lower),
            (str, str.lower), (str.lower, str)][V.i(0, 3)]


class AsmFile(object):
    def __init__(self, fname, group, soup_, level, node):
        self.fname, self.group, self.soup = fname, group, soup_
        self.level, self.node = level, node


def make(V, family=None, prefix='', ext=None, nkeys=None, directory=0.,
         unsup=0, lower=None, case=None, like=None):
    """-> (nodes, [AsmFile] with the top level file first).  `lower` may give
    a function (node) -> Soup for the first level superelements; `case` gives
    the functions (str -> str) for the letters and the extensions of the file
    names, `like` the nodes of an assembly of the same names."""
    lc, xc = case or (str, str)
    rng = V.rng
    family = family or str(rng.choice(['T', 'R']))
    if like is None:
        nodes = tree(V)
    else:
        # the same hierarchy at other places
        nodes = copy.deepcopy(like)
        for n in nodes[1:]:
            n.t = S_affine(rng)
    hs, ts = hier_recs(nodes), tran_recs(nodes)
    head = []
    top = nodes[0]
    if family == 'R':
        head.append(S.rec_irecsize())
        head.append(S.rec_ident(top.islevl, top.iselty, 0))
        head += hs + ts
    else:
        head.append(S.rec_ident(top.islevl, top.iselty, 0))
        k = V.i(0, len(ts))
        if rng.random() < .5:
            head += ts + hs
        else:
            head += hs + ts
    ext = xc(ext or {'T': 'FEM', 'R': 'SIU'}[family])
    hkeys = ['DATE', 'TEXT', 'GNODE', 'GCOORD', 'GELMNT2', 'TDSETNAM',
             'GSETMEMB', 'TDSUPNAM', 'BNBCD']
    lkeys = hkeys + ['ELEMS', 'GELTH', 'GBEAMG', 'GPIPE', 'GIORH', 'MISOSEL',
                     'SCONCEPT', 'BGRAV', 'TDMATER']
    if family == 'R':
        hkeys = hkeys + ['TDRESREF']
        lkeys = lkeys + ['RESULTS', 'RBLODCMB', 'TDRESREF']

    def pickk(keys, n):
        return [keys[int(j)] for j in rng.choice(len(keys), n,
                                                 replace=False)]
    sp = soup.make(V, family, keys=pickk(hkeys, V.i(2, 5)), header=head,
                   seltyp=top.iselty, directory=directory, unsup=unsup)
    out = [AsmFile('{}{}{}.{}'.format(prefix, lc(family), top.iselty, ext),
                   '{}{}{}'.format(prefix, family, top.iselty), sp,
                   'TOPLEVEL', top)]
    for n in nodes[1:]:
        if family == 'T':
            if n.indsel != 1:
                continue
            fname = '{}{}{}.{}'.format(prefix, lc('T'), n.iselty, ext)
            grp = '{}/T{}'.format(out[0].group, n.iselty)
        else:
            if n.islevl != 1:
                continue
            fname = '{}{}{}{}{}.{}'.format(prefix, lc('R'), n.iselty, lc('H'),
                                           n.ihref, ext)
            grp = '{}/R{}_{}'.format(out[0].group, n.iselty, n.indsel)
        h = []
        if family == 'R':
            h.append(S.rec_irecsize())
        h.append(S.rec_ident(n.islevl, n.iselty, 3))
        if lower is not None and n.islevl == 1:
            s = lower(n, h)
        else:
            keys = lkeys if n.islevl == 1 else hkeys
            if family == 'R':
                h.append(S.rec_xsuptran(None, 'RSUPTRAN', V.i(1, 99),
                                        total_transform(n)))
            s = soup.make(V, family, keys=pickk(keys, V.i(2, 5)), header=h,
                          seltyp=n.iselty, directory=directory, unsup=unsup)
        out.append(AsmFile(fname, grp, s,
                           'FIRSTLEVEL' if n.islevl == 1 else 'INTERLEVEL',
                           n))
    return family, nodes, out
