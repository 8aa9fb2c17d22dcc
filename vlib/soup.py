"""Random record files ("soups"): every record type the library stores, in any
legal order, with split and interleaved blocks."""
from . import sif as S

SECTIONS = ('GBEAMG GBARM GBOX GCHAN GCHANR GDOBO GIORH GIORHR GLSEC GLSECR '
            'GPIPE GUSYI').split()


def _blocks(rng, recs, maxblocks=3):
    """split a list of equal-name records into 1..maxblocks blocks"""
    n = len(recs)
    k = int(rng.integers(1, maxblocks + 1))
    k = min(k, n)
    if k <= 1:
        return [recs]
    cuts = sorted(set(int(x) for x in rng.integers(1, n, k - 1))) if n > 1 \
        else []
    out = []
    a = 0
    for c in cuts + [n]:
        if c > a:
            out.append(recs[a:c])
            a = c
    return out


def _weave(rng, chains):
    """merge chains (each an ordered list of blocks) in random order"""
    chains = [list(c) for c in chains if c]
    out = []
    while chains:
        k = int(rng.integers(0, len(chains)))
        out.append(chains[k].pop(0))
        if not chains[k]:
            chains.pop(k)
    return out


def _n(V, hi=6):
    return V.i(1, hi)


def chain_std(V, name):
    m = _n(V, 8)
    return _blocks(V.rng, [S.rec_std(V, name, V.nums(1)[0])
                           for _ in range(m)])


def chain_td(V, name):
    return _blocks(V.rng, [S.rec_td(V, name) for _ in range(_n(V))])


def chain_text(V, name):
    return _blocks(V.rng, [S.rec_text(V, name) for _ in range(_n(V, 3))])


def chain_elems(V):
    """GELMNT1 blocks followed by GELREF1 blocks"""
    n = _n(V, 12)
    types = [int(V.rng.choice([15, 16, 18, 23, 24, 25, 26, 28]))
             for _ in range(n)]
    els, refs = [], []
    b = V.base()
    for k, t in enumerate(types):
        nn = S.NNODES[t]
        els.append(S.rec_gelmnt1(V.nums(1)[0], b + k + 1, t,
                                 V.nums(nn), V.num(0, 3)))
        tail = [V.nums(nn) if V.rng.random() < .35 else V.num(0, 999)
                for _ in range(4)]
        refs.append(S.rec_gelref1(b + k + 1, [V.num(0, 99) for _ in range(7)],
                                  *tail, nn=nn))
    return _blocks(V.rng, els) + _blocks(V.rng, refs)


def chain_simple(V, f, hi=6):
    b = V.base()
    return _blocks(V.rng, [f(V, b + k + 1) for k in range(_n(V, hi))])


def chain_sets(V):
    r = []
    for k in range(_n(V, 6)):
        r.append(S.rec_gsetmemb(V.num(1, 99), V.num(1, 5), V.num(1, 2),
                                V.num(0, 2),
                                V.nums(V.i(0, 80))))
    return _blocks(V.rng, r)


def chain_hsup(V, name):
    b = V.base()
    return _blocks(V.rng, [S.rec_xsuptran(V, name, b + k + 1)
                           for k in range(_n(V))])


def chains_results(V, nelem=None, holes=True):
    """RD.. definitions followed by RV.. results"""
    rng = V.rng
    out = []
    irs = {}
    bi, be, bc, br, bn = [V.base() for _ in range(5)]
    for rd in ('RDFORCES', 'RDSTRAIN', 'RDSTRESS', 'RDNODRES', 'RDELNFOR'):
        recs = []
        for ir in bi + rng.choice(30, V.i(1, 4), replace=False):
            comps = [V.num(1, 99) for _ in range(V.i(1, 8))]
            irs[('RV' + rd[2:], int(ir) + 1)] = len(comps)
            recs.append(S.rec_compdef(rd, int(ir) + 1, comps))
        out += _blocks(rng, recs, 2)
    corefs = {}
    for k in range(V.i(1, 3)):
        corefs[bc + k + 100] = ((V.i(1, 2), V.i(1, 3), V.i(1, 4)), V.i(0, 3))
    recs = []
    nsp = {}
    for e in range(V.i(2, 8)):
        ic = int(rng.choice(list(corefs)))
        # one or both alternative sets of points
        for alt in [1, 2] if rng.random() < .4 else [V.i(1, 2)]:
            r = S.rec_rdpoints(V, alt, be + e + 1, ic, V.i(15, 28), corefs[ic][0],
                               corefs[ic][1], holes=holes)
            if r.cols['nsp'] == 0:
                continue
            nsp[(alt, be + e + 1)] = r.cols['nsp']
            recs.append(r)
            ic = int(rng.choice(list(corefs)))
    used = sorted(set(r.cols['icoref'] for r in recs))
    pts = _blocks(rng, recs) if recs else []
    cor = [S.rec_rdielcor(V, ic, *corefs[ic]) for ic in used]
    out += pts
    if cor:
        out += _blocks(rng, cor, 2)
    ress = []
    rr = []
    for k in range(V.i(1, 4)):
        ic = V.i(0, 1)
        ress.append((br + k + 1, ic))
        rr.append(S.rec_rdresref(br + k + 1, V.num(1, 3), V.num(1, 99),
                                 V.num(1, 4), ic,
                                 [V.fs(3) for _ in range(V.i(0, 3))]))
    out += _blocks(rng, rr)
    chains = []
    for nm in ('RVNODDIS', 'RVNODVEL', 'RVNODACC'):
        recs = []
        for ires, ic in ress:
            for nd in range(V.i(1, 4)):
                recs.append(S.rec_rvnod(nm, ires, bn + nd + 1,
                                        V.fs(V.i(1, 6) * (ic + 1)),
                                        V.num(1, 5), V.num(0, 9)))
        chains.append(_blocks(rng, recs))
    for nm in ('RVFORCES', 'RVSTRAIN', 'RVSTRESS'):
        recs = []
        cand = [ir for (n, ir) in irs if n == nm]
        for ires, ic in ress:
            for (alt, e), n in nsp.items():
                ir = int(rng.choice(cand))
                ln = irs[(nm, ir)]
                recs.append(S.rec_rvelm(nm, ires, e, alt, ir,
                                        V.fs(n * ln * (ic + 1))))
        if recs:
            chains.append(_blocks(rng, recs))
    out += _weave(rng, chains)
    return out


def chains_hydro(V):
    rng = V.rng
    ch = []
    bw, bk = V.base(), V.base()
    ch.append(_blocks(rng, [S.rec_wbodcon(V, bk + k + 1, V.num(1, 3))
                            for k in range(_n(V, 3))]))
    recs = []
    for k in range(_n(V, 10)):
        nr = V.i(1, 3)
        kinds = [1, 2] if V.rng.random() < .7 else [1, 3]
        u = V.rng.random()
        if u < .15:
            kinds = [kinds[1]]
        elif u < .25:
            kinds = [kinds[0]]
        recs.append(S.rec_wdresref(bw + k + 1, nr, [
            (t, [(float(V.num(1, 99)), V.f()) for _ in range(nr)])
            for t in kinds]))
    ch.append(_blocks(rng, recs))
    ch.append([[S.rec_wglobdef(V, V.f(), V.f(),
                               V.f() if rng.random() < .7 else None)]])
    ch.append(chain_simple(V, S.rec_wbody, 3))
    recs = [S.rec_w1matrix(bk + k + 1, V.num(1, 3), V.num(1, 3), V.bigi(),
                           int(rng.choice([11, 12, 21, 22, 31, 32])),
                           V.fs(36)) for k in range(_n(V))]
    ch.append(_blocks(rng, recs))
    for nm in ('W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM'):
        ch.append(_blocks(rng, [S.rec_wcommon(V, nm, V.num(1, 3), bw + k + 1,
                                              V.i(0, 1))
                                for k in range(_n(V))]))
    ch.append(_blocks(rng, [S.rec_w1sforce(V, V.num(1, 3), V.num(1, 9), bw + k + 1,
                                           V.i(0, 1))
                            for k in range(_n(V))]))
    for nm in ('W2HDRIFT', 'W2MDRIFT'):
        ch.append(_blocks(rng, [S.rec_w2drift(V, nm, V.num(1, 3), bw + k + 1)
                                for k in range(_n(V))]))
    ch.append(chain_simple(V, S.rec_wfkpoint))
    ch.append(_blocks(rng, [S.rec_wfluidkn(V, bw + k + 1, V.num(1, 9), V.i(0, 1))
                            for k in range(_n(V))]))
    ch.append(_blocks(rng, [S.rec_wsection(V, V.num(1, 3), bk + k + 1)
                            for k in range(_n(V))]))
    ch.append(chain_simple(V, S.rec_wsurface))
    ch.append(chain_simple(V, S.rec_winput, 3))
    ch.append(_blocks(rng, [S.rec_w1panpre(V, V.num(1, 3), bw + k + 1, V.num(1, 99),
                                           V.i(1, 2), V.i(0, 1))
                            for k in range(_n(V))]))
    return ch


def catalogue(V, family):
    """dict: key -> function returning one chain (list of blocks)"""
    c = {}
    for nm in ('DATE', 'TEXT'):
        c[nm] = lambda nm=nm: chain_text(V, nm)
    tds = list(S.TD)
    if family in ('T', 'R'):
        for nm in S.STD:
            c[nm] = lambda nm=nm: chain_std(V, nm)
        for nm in tds:
            c[nm] = lambda nm=nm: chain_td(V, nm)
        c['ELEMS'] = lambda: chain_elems(V)
        c['GELMNT2'] = lambda: chain_simple(V, S.rec_gelmnt2)
        c['GSETMEMB'] = lambda: chain_sets(V)
        c['SCONCEPT'] = lambda: chain_simple(V, S.rec_sconcept)
        c['SCONMESH'] = lambda: chain_simple(V, S.rec_sconmesh)
        c['BNBCD'] = lambda: chain_simple(V, S.rec_bnbcd, 9)
        c['BLDEP'] = lambda: chain_simple(V, S.rec_bldep)
        c['BEUSLO'] = lambda: chain_simple(V, S.rec_beuslo, 9)
        c['BRIGAC'] = lambda: chain_simple(V, S.rec_brigac)
        c['HSUPTRAN'] = lambda: chain_hsup(V, 'HSUPTRAN')
    if family == 'R':
        c['RSUPTRAN'] = lambda: chain_hsup(V, 'RSUPTRAN')
        for nm in ('RBLODCMB', 'RDRESCMB'):
            c[nm] = lambda nm=nm: chain_simple(
                V, lambda V_, k: S.rec_cmb(V_, nm, k))
        c['RESULTS'] = lambda: chains_results(V)
    if family == 'G':
        for nm in ('TDBODNAM', 'TDRSNAM', 'TDRESREF'):
            c[nm] = lambda nm=nm: chain_td(V, nm)
        for k in range(18):
            c['H%d' % k] = lambda k=k: chains_hydro(V)[k]
    return c


class Soup(object):
    def __init__(self, family, seltyp, recs):
        self.family = family
        self.seltyp = seltyp
        self.recs = recs          # in file order, incl. IDENT / IEND

    def fname(self, formatted, num=None):
        n = self.seltyp if num is None else num
        ext = {'T': 'FEM', 'R': 'SIF' if formatted else 'SIU',
               'G': 'SIF' if formatted else 'SIU'}[self.family]
        return '{}{}.{}'.format(self.family, n, ext)

    def by_name(self):
        d = {}
        for r in self.recs:
            if r.cols is not None:
                d.setdefault(r.name, []).append(r)
        return d

    def group(self, prefix=''):
        return '{}{}{}'.format(prefix, self.family, self.seltyp)

    def brief(self):
        out = []
        for r in self.recs:
            if out and out[-1][0] == r.name:
                out[-1][1] += 1
            else:
                out.append([r.name, 1])
        return ' '.join('%sx%d' % tuple(x) for x in out)


def make(V, family=None, ntypes=None, unsup=0, directory=0., keys=None,
         seltyp=None, header=None):
    rng = V.rng
    family = family or str(rng.choice(['T', 'R', 'G']))
    cat = catalogue(V, family)
    if keys is None:
        names = sorted(cat)
        n = ntypes if ntypes is not None else V.i(3, 12)
        keys = [names[int(k)] for k in rng.choice(
            len(names), min(n, len(names)), replace=False)]
    chains = [cat[k]() for k in keys]
    for _ in range(unsup):
        nm = str(rng.choice(S.UNSUP_IN + S.UNSUP_RES + list(S.UNSUP_TD)))
        chains.append(_blocks(rng, [S.rec_unsup(V, nm)
                                    for _ in range(V.i(1, 4))]))
    blocks = _weave(rng, chains)
    # neighbouring blocks of one name would be one block: that is fine
    seltyp = V.i(1, 60) if seltyp is None else seltyp
    recs = []
    if header is not None:
        recs += header
    else:
        if family == 'R':
            recs.append(S.rec_irecsize())
            recs.append(S.rec_hierarch(1, seltyp, 1, 1, 0, 0, []))
            if rng.random() < .5:
                # as Sestra writes it for a direct analysis
                recs.append(S.rec_iend(False))
                recs.append(S.rec_irecsize())
        if directory and rng.random() < .5:
            recs.append(S.Rec('IDENT', [-4., 20., 1., 0.], 'dir'))
        recs.append(S.rec_ident(1, seltyp, V.i(0, 9)))
    body = [r for b in blocks for r in b]
    if directory:
        body = S.with_directory(body, rng, five=directory - 1
                                if directory > 1 else 0.)
    if rng.random() < .3 and len(body) > 2:
        # a section end mark (IEND 1.0) may stand between blocks
        pos = V.i(1, len(body) - 1)
        if body[pos - 1].name != body[pos].name:
            body.insert(pos, S.rec_iend(False))
    recs += body
    recs.append(S.rec_iend(True))
    return Soup(family, seltyp, recs)
