"""Independent model of SESAM sequential files.

A logical record (`Rec`) knows its numbers and strings, how the two physical
encodings (formatted text / unformatted Fortran records) lay them out, and what
a faithful conversion has to store for it.  Nothing here imports freesif.

Encoding rules were taken from the real files in /repo/tests/files:

formatted    name in 8 columns, then 4 values of 16 columns per line,
             continuation lines start with 8 blanks; text lines are 8 blanks
             followed by the text; the last line of a record may be short.
unformatted  'K', then Fortran records <len><data><len>; more than 128 bytes
             are split in pieces marked 129.  Header record: 8 byte name and 4
             float32.  Input records continue with (8 blanks + 4 floats) zero
             padded; result records continue with one record holding all the
             remaining floats.  A directory record (first value -4 or -5)
             may precede a block.  The file ends with byte 130.
"""
import struct
import zlib

import numpy as np

F32 = np.float32


def f32(x):
    return float(np.float32(x))


class Rec(object):
    __slots__ = ('name', 'head', 'rest', 'kind', 'strings', 'cols', 'arrs',
                 'nhead', 'pad', 'extra')

    def __init__(self, name, vals, kind, cols=None, arrs=None, strings=(),
                 nhead=4, pad=False):
        # kind: 'in' input record, 'res' result record, 'td' / 'text' strings,
        # 'dir' directory record
        vals = [float(v) for v in vals]
        self.name = name
        self.head = vals[:4]
        self.rest = vals[4:]
        self.kind = kind
        self.strings = list(strings)
        self.cols = cols          # dict column -> value
        self.arrs = arrs or {}    # dict payload name -> list
        self.nhead = nhead        # values written on a formatted header line
        self.pad = pad            # formatted: pad the last line with zeros
        self.extra = []           # numbers behind the fields known


# ---------------------------------------------------------------- encoding
def _fline(name, vals, fmt='{:16.8E}'):
    return '{:<8}'.format(name) + ''.join(fmt.format(v) for v in vals)


# numbers as different programs write them; the second leaves no blank before
# a negative one
FORMATS = ('{:16.8E}', '{:16.9E}', '{:>16.8e}')


def fmt_lines(r, fmt=FORMATS[0]):
    head = (r.head + [0.] * 4)[:4]
    yield _fline(r.name, head if r.extra else head[:r.nhead], fmt)
    if r.kind in ('td', 'text'):
        for s in r.strings:
            yield ' ' * 8 + s
        return
    for i in range(0, len(r.rest), 4):
        v = r.rest[i:i + 4]
        if r.pad or r.extra:
            v = (v + [0.] * 4)[:4]
        yield _fline('', v, fmt)
    for i in range(0, len(r.extra), 4):
        yield _fline('', r.extra[i:i + 4], fmt)


def encode_formatted(recs, newline=None, enc='latin-1'):
    out = []
    recs = list(recs)
    k = zlib.crc32(repr([(r.name, r.head) for r in recs]).encode())
    if newline is None:
        newline = '\n' if k // 8 % 8 else '\r\n'
    k %= 8
    fmt = FORMATS[k if k < 3 else 0]
    for r in recs:
        if r.kind == 'dir' and r.head[0] == -5.:
            out.append(_fline(r.name, r.head, fmt))
            out.append(_fline('', (r.rest + [0.] * 4)[:4], fmt))
            continue
        out.extend(fmt_lines(r, fmt))
    return (newline.join(out) + newline).encode(enc)


def _frec(data):
    out = []
    while len(data) > 128:
        out.append(b'\x81' + data[:128] + b'\x81')
        data = data[128:]
    n = struct.pack('B', len(data))
    out.append(n + data + n)
    return b''.join(out)


def _pf(vals):
    return struct.pack('<{}f'.format(len(vals)), *vals)


def unf_bytes(r, size=None):
    head = (r.head + [0.] * 4)[:4]
    out = [_frec(r.name.ljust(8).encode() + _pf(head))]
    if r.kind == 'td':
        for s in r.strings:
            out.append(_frec(s.encode('latin-1')))
    elif r.kind == 'text':
        for s in r.strings:
            out.append(_frec((' ' * 8 + s).ljust(72).encode('latin-1')))
    elif r.kind == 'in':
        for i in range(0, len(r.rest), 4):
            out.append(_frec(b' ' * 8 + _pf((r.rest[i:i + 4] + [0.] * 4)[:4])))
        for i in range(0, len(r.extra), 4):
            out.append(_frec(b' ' * 8 + _pf((r.extra[i:i + 4] + [0.] * 4)[:4])))
    elif r.kind == 'res':
        for i in range(0, len(r.rest), size or len(r.rest) or 1):
            out.append(_frec(_pf(r.rest[i:i + (size or len(r.rest))])))
    elif r.kind == 'dir':
        if r.head[0] == -5.:
            out.append(_frec(_pf(r.rest)))
    return b''.join(out)


# some programs write the numbers of result records in pieces of a fixed size
SIZES = [None] * 5 + [8, 20, 50, 100, 500]


def encode_unformatted(recs, upto=None):
    """(upto: of the first records only, as they are in the whole file)"""
    recs = list(recs)
    k = zlib.crc32(repr([(r.name, r.head) for r in recs]).encode())
    size = SIZES[k // 3 % len(SIZES)]
    recs = recs[:upto]
    return b'K' + b''.join(unf_bytes(r, size) for r in recs) + b'\x82'


def encode(recs, formatted, newline=None):
    if formatted:
        return encode_formatted(recs, newline)
    return encode_unformatted(recs)


def write(path, recs, formatted, newline=None):
    with open(path, 'wb') as f:
        f.write(encode(recs, formatted, newline))
    return path


def with_directory(recs, rng=None, five=0.):
    """Insert a directory record before each block of equal record names, as
    SESTRA writes them on unformatted files."""
    out = []
    prev = None
    skip = ('IEND', 'IDENT', 'IRECSIZE')
    names = [r.name for r in recs]
    i = 0
    while i < len(recs):
        j = i
        while j < len(recs) and names[j] == names[i]:
            j += 1
        if names[i] not in skip and names[i] != prev:
            if rng is not None and rng.random() < five:
                out.append(Rec(names[i], [-5., 20., 4., j - i, 7., 1.], 'dir'))
            else:
                out.append(Rec(names[i], [-4., 20., 4., j - i], 'dir'))
        out.extend(recs[i:j])
        prev = names[i]
        i = j
    settle(out)
    return out


def settle(recs):
    """an unsupported input record whose first number could be the length of
    a result record that ends like a header record is undecided before a
    record with an unknown name; returns how many there are before others"""
    n = 0
    for r, after in zip(recs, recs[1:]):
        if r.kind == 'in' and r.cols is None and r.head[0] == 10. and \
                not r.rest:
            if is_unknown(after.name):
                r.head[0] = 11.
            else:
                n += 1
    return n


# ---------------------------------------------------------- value generation
class Vals(object):
    """Random values representable in both encodings."""

    def __init__(self, rng):
        self.rng = rng
        self.wide = False   # integers that only text holds exactly, too

    def i(self, lo=0, hi=1000):
        return int(self.rng.integers(lo, hi + 1))

    def bigi(self):
        k = self.rng.integers(0, 5 if self.wide else 4)
        hi = (9, 999, 99999, 2 ** 24, 999999999)[k]
        return int(self.rng.integers(0, hi + 1))

    def f(self):
        k = self.rng.integers(0, 12)
        if k == 0:
            return 0.
        if k == 1:
            return float(self.rng.integers(-5, 6))
        if k == 2 and self.rng.random() < .1:
            # very large or small
            return f32(self.rng.normal() * 10. ** self.rng.integers(-33, 34))
        return f32(self.rng.normal() * 10. ** self.rng.integers(-7, 9))

    def fs(self, n):
        if self.rng.random() < .03:
            return [0.] * n
        return [self.f() for _ in range(n)]

    def is_(self, n, lo=0, hi=1000):
        return [self.i(lo, hi) for _ in range(n)]

    def nums(self, n):
        """n numbers of nodes or elements"""
        if self.wide and self.rng.random() < .3:
            return self.is_(n, 1, 999999999)
        return self.is_(n, 1, 99999)

    def num(self, lo=0, hi=1000):
        """a number from lo to hi or, at times, a much larger one"""
        if self.rng.random() < .15:
            return self.i(lo, (70000, 2 ** 24)[self.i(0, 1)])
        return self.i(lo, hi)

    def base(self):
        """where a numbering starts"""
        return (0, 0, 0, self.i(0, 99), self.i(32700, 32770),
                self.i(65500, 70000), self.i(0, 2 ** 24 - 999))[self.i(0, 6)]

    def distinct(self, top, n):
        """n distinct numbers below top in random order"""
        return self.rng.permutation(self.rng.choice(top, n, replace=False))

    ALPHA = ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
             "_-./:#%&<>()[]{}'\"+*=!?,;@$^~|\\")

    def text(self, lo=1, hi=64, spaces=True):
        n = self.i(lo, hi)
        a = self.ALPHA + ('   ' if spaces else '')
        s = ''.join(a[k] for k in self.rng.integers(0, len(a), n))
        s = s.strip()
        return s if s else 'x' * max(1, lo)


# ---------------------------------------------------------------- schemas
# column type codes: i int32, f float32, t44 / t66 float32 matrices,
# v3/v6/v12 float32 vectors, c/c3/c6 complex64, s string
def _cols(s):
    out = []
    for tok in s.split():
        n, _, t = tok.partition(':')
        out.append((n, t or 'f'))
    return out


STD = {
    # name: (columns, kind, number of trailing optional fields)
    'GNODE': ('nodex:i nodeno:i ndof:i odof:i', 'in', 0),
    'GCOORD': ('nodeno:i xcoord ycoord zcoord', 'in', 0),
    'GECCEN': ('eccno:i ex ey ez', 'in', 0),
    'GUNIVEC': ('transno:i unix uniy uniz', 'in', 0),
    'GELTH': ('geono:i th nint:i', 'in', 0),
    'GBEAMG': ('geono:i void area ix iy iz iyz wxmin wymin wzmin shary sharz '
               'shceny shcenz sy sz', 'in', 0),
    'GBARM': ('geono:i hz bt bb sfy sfz nloby:i nlobz:i', 'in', 2),
    'GBOX': ('geono:i hz ty t_b tt by sfy sfz nloby:i nlobz:i', 'in', 2),
    'GCHAN': ('geono:i hz ty by tz sfy sfz empty:i k:i nloby:i nlobz:i',
              'in', 2),
    'GCHANR': ('geono:i hz ty by tz sfy sfz empty:i k:i r nloby:i nlobz:i',
               'in', 2),
    'GDOBO': ('geono:i hz ty by tt t_b sfy sfz nloby:i nlobz:i', 'in', 2),
    'GIORH': ('geono:i hz ty bt tt bb t_b sfy sfz nlobyt:i nlobyb:i nlobz:i',
              'in', 3),
    'GIORHR': ('geono:i hz ty bt tt bb t_b sfy sfz rt rb nlobyt:i nlobyb:i '
               'nlobz:i', 'in', 3),
    'GLSEC': ('geono:i hz ty by tz sfy sfz k nloby:i nlobz:i', 'in', 2),
    'GLSECR': ('geono:i hz ty by tz sfy sfz k r nloby:i nlobz:i', 'in', 2),
    'GPIPE': ('geono:i di dy t sfy sfz ncir:i nrad:i', 'in', 2),
    'GUSYI': ('geono:i hz ty bt b1 tt bb b2 t_b sfy sfz nlobyt:i nlobyb:i '
              'nlobz:i', 'in', 3),
    'MISOSEL': ('matno:i young poiss rho damp alpha', 'in', 0),
    'BGRAV': ('llc:i empty1 empty2 opt:i gx gy gz', 'in', 0),
}
STD = {k: (_cols(c), kind, o) for k, (c, kind, o) in STD.items()}

TD = ('TDMATER', 'TDSECT', 'TDSETNAM', 'TDSUPNAM', 'TSLAYER', 'TDSCONC',
      'TDLOAD', 'TDRESREF', 'TDBODNAM', 'TDRSNAM')
# (a record name has 8 columns, so the 9 letter TDSCATTER cannot occur)
# TSLAYER is read like the TD records but its name does not start with TD

NNODES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}


def rec_std(V, name, keyval=None, opt=None):
    cols, kind, nopt = STD[name]
    vals = []
    for n, t in cols:
        if t == 'i':
            vals.append(V.bigi())
        else:
            vals.append(V.f())
    if keyval is not None:
        vals[0] = keyval
    if vals[0] < 0:
        vals[0] = -vals[0]
    n = len(vals)
    if nopt and (opt is False or (opt is None and V.rng.random() < .4)):
        vals[-nopt:] = [0] * nopt
        n -= nopt
    exp = {c[0]: v for c, v in zip(cols, vals)}
    nhead = 4
    if name == 'GELTH' and vals[2] == 0:
        nhead = 2
    return Rec(name, vals[:n], kind, exp, nhead=nhead)


def rec_td(V, name, idno=None, nm=None, ntext=None):
    idno = V.bigi() if idno is None else idno
    nm = V.text(1, 64) if nm is None else nm
    if ntext is None:
        ntext = V.i(0, 3) if V.rng.random() < .9 else V.i(4, 30)
    texts = [V.text(1, 64) for _ in range(ntext)]
    codnam = 100 + len(nm)
    codtxt = 100 * ntext
    if ntext:   # number of characters per line
        codtxt += V.i(max(len(s) for s in texts), 64)
    return Rec(name, [4, idno, codnam, codtxt], 'td',
               {'nfield': 4, 'idno': idno, 'codnam': codnam, 'codtxt': codtxt,
                'name': nm}, {'text': texts}, strings=[nm] + texts)


def rec_text(V, name):
    n = V.i(0, 5) if V.rng.random() < .9 else V.i(6, 40)
    s = [V.text(1, 64).ljust(64) for _ in range(n)]
    sub = V.i(0, 1)
    t = V.i(1, 3)
    return Rec(name, [t, sub, n, 72], 'text',
               {'type': t, 'subtype': sub, 'nrecs': n, 'nbyte': 72},
               {'recs': [' ' * 8 + x for x in s]}, strings=s)


def rec_gelmnt1(elnox, elno, eltyp, nodes, eltyad=0):
    return Rec('GELMNT1', [elnox, elno, eltyp, eltyad] + list(nodes), 'in',
               dict(elnox=elnox, elno=elno, eltyp=eltyp, eltyad=eltyad),
               {'nodin': list(nodes)})


def rec_gelref1(elno, ints, geono, fixno, eccno, transno, nn):
    """geono.. either an int or a list of nn ints (-1 on the record)"""
    cols = dict(zip(('elno', 'matno', 'addno', 'intno', 'mintno', 'strano',
                     'streno', 'strepono'), [elno] + list(ints)))
    vals = [elno] + list(ints)
    arrs = {}
    tail = []
    for nme, v in (('geono', geono), ('fixno', fixno), ('eccno', eccno),
                   ('transno', transno)):
        if isinstance(v, list):
            assert len(v) == nn
            vals.append(-1)
            cols[nme] = -1
            arrs[nme] = v
            tail += v
        else:
            vals.append(v)
            cols[nme] = v
            arrs[nme] = []
    return Rec('GELREF1', vals + tail, 'in', cols, arrs)


def rec_gelmnt2(V, subno):
    t = V.fs(12)
    nod = V.nums(V.i(1, 11))
    lv, ty, ad = V.num(1, 3), V.num(1, 99), V.num(0, 5)
    return Rec('GELMNT2', [subno, lv, ty, ad] + t + [len(nod)] + nod, 'in',
               dict(subno=subno, slevel=lv, stype=ty, addno=ad, t=t,
                    nnod=len(nod)), {'nod': nod})


def rec_gsetmemb(isref, index, istype, isorig, members):
    nf = 5 + len(members)
    return Rec('GSETMEMB', [nf, isref, index, istype, isorig] + list(members),
               'res', dict(nfield=nf, isref=isref, index=index, istype=istype,
                           isorig=isorig), {'irmemb': list(members)})


def rec_sconcept(V, ircon):
    role, par = V.num(0, 5), V.bigi()
    if V.rng.random() < .5:
        part, join = V.nums(V.i(0, 40)), V.nums(V.i(0, 5))
        nf = 7 + len(part) + len(join)
        return Rec('SCONCEPT', [nf, ircon, 7, role, par, len(part), len(join)]
                   + part + join, 'res',
                   dict(nfield=nf, ircon=ircon, scontype=7, sconrole=role,
                        irparent=par, npart=len(part), njoin=len(join)),
                   {'irpart': part, 'irjoin': join})
    return Rec('SCONCEPT', [5, ircon, 2, role, par], 'res',
               dict(nfield=5, ircon=ircon, scontype=2, sconrole=role,
                    irparent=par, npart=0, njoin=0),
               {'irpart': [], 'irjoin': []})


def rec_sconmesh(V, ircon):
    m = V.nums(V.i(0, 70))
    ty = V.num(0, 9)
    nf = 5 + len(m)
    return Rec('SCONMESH', [nf, ircon, 1, ty, len(m)] + m, 'res',
               dict(nfield=nf, ircon=ircon, numrep=1, typrep=ty,
                    nferep=len(m)), {'irferep': m})


def rec_bnbcd(V, nodeno, ndof=None):
    ndof = V.i(1, 9) if ndof is None else ndof
    fix = V.is_(ndof, 0, 4)
    vals = [nodeno, ndof] + fix
    if len(vals) < 4:
        vals += [0] * (4 - len(vals))
    return Rec('BNBCD', vals, 'in', dict(nodeno=nodeno, ndof=ndof),
               {'fix': fix})


def rec_bldep(V, nodeno):
    nd = V.i(1, 5)
    deps = [[V.i(1, 6), V.i(1, 6), V.f()] for _ in range(nd)]
    vals = [nodeno, V.bigi(), V.i(1, 6), nd]
    cols = dict(zip(('nodeno', 'cnod', 'ndof', 'ndep'), vals))
    vals = list(vals)
    for d in deps:
        vals += d + [0.]
    return Rec('BLDEP', vals, 'in', cols, {'deps': deps}, pad=True)


def rec_beuslo(V, llc):
    nd = V.i(1, 12)
    cx = V.i(0, 1)
    rl = V.fs(nd)
    il = V.fs(nd) if cx else []
    head = [llc, V.num(1, 3), cx, V.num(0, 3), V.bigi(), nd, V.num(0, 1),
            V.num(1, 2)]
    cols = dict(zip(('llc', 'lotyp', 'complx', 'layer', 'elno', 'ndof',
                     'intno', 'side'), head))
    return Rec('BEUSLO', head + rl + il, 'in', cols,
               {'rload': rl, 'iload': il})


def rec_brigac(V, llc):
    cx = V.i(0, 1)
    r = V.fs(6)
    im = V.fs(6) if cx else [0.] * 6
    vals = [llc, V.f(), cx, V.f(), V.f(), V.f(), V.f(), V.f()] + r
    names = ['llc', 'empty1', 'complx', 'empty2', 'xcoord', 'ycoord',
             'zcoord', 'empty3'] + ['raccl%d' % i for i in range(1, 7)]
    cols = dict(zip(names, vals))
    cols.update({'iaccl%d' % (i + 1): im[i] for i in range(6)})
    if cx:
        vals = vals + im
    return Rec('BRIGAC', vals, 'in', cols)


def rec_xsuptran(V, name, itref, t=None):
    t = V.fs(16) if t is None else [f32(x) for x in np.ravel(t)]
    return Rec(name, [18, itref] + t, 'res',
               dict(nfield=18, itref=itref, t=[t[0:4], t[4:8], t[8:12],
                                               t[12:]]))


def rec_hierarch(ihref, iselty, indsel, islevl, itref, ihpref, subs):
    nf = 8 + len(subs)
    return Rec('HIERARCH', [nf, ihref, iselty, indsel, islevl, itref, ihpref,
                            len(subs)] + list(subs), 'res',
               dict(nfield=nf, ihref=ihref, iselty=iselty, indsel=indsel,
                    islevl=islevl, itref=itref, ihpref=ihpref,
                    nsub=len(subs)), {'ihsref': list(subs)})


def rec_compdef(name, ir, comps):
    nf = 3 + len(comps)
    return Rec(name, [nf, ir, len(comps)] + list(comps), 'res',
               dict(nfield=nf, ir=ir, lenrec=len(comps)),
               {'icomp': list(comps)})


def rec_rdpoints(V, ispalt, iielno, icoref, ieltyp, shape, nlay=0, nxf=None,
                 holes=True):
    """shape = (nok, noj, noi); returns the record (nsp = existing points)"""
    nok, noj, noi = shape
    nxf = V.i(0, 2) if nxf is None else nxf
    body = []
    pts = []
    k = 0
    for _ in range(nok * noj * noi):
        if holes and V.rng.random() < .3:
            body.append(-1.)
        else:
            k += 1
            p = [float(k)] + V.fs(3)
            pts.append(p)
            body += p
    xf = [[V.fs(3) for _ in range(3)] for _ in range(nxf)]
    for m in xf:
        for row in m:
            body += row
    ijk = nok * 10000 + noj * 100 + noi
    nf = 9 + len(body)
    head = [nf, ispalt, iielno, icoref, ieltyp, len(pts), ijk, nxf, nlay]
    cols = dict(zip(('nfield', 'ispalt', 'iielno', 'icoref', 'ieltyp', 'nsp',
                     'ijkdim', 'nsptra', 'nlay'), head))
    return Rec('RDPOINTS', head + body, 'res', cols,
               {'respoint': pts, 'xform': xf})


def rec_rdielcor(V, icoref, shape, nlay):
    nok, noj, noi = shape
    g, b, a = V.fs(nok), V.fs(noj), V.fs(noi)
    lay = [V.fs(2) for _ in range(nlay)]
    ig = V.i(0, 1)
    nf = 3 + nok + noj + noi + 2 * nlay
    body = g + b + a
    for x in lay:
        body += x
    return Rec('RDIELCOR', [nf, icoref, ig] + body, 'res',
               dict(nfield=nf, icoref=icoref, igrid=ig),
               {'gamma': g, 'beta': b, 'alpha': a, 'layers': lay})


def rec_rdresref(ires, irno, ieres, icalty, icompl, reftyps):
    nf = 7 + 3 * len(reftyps)
    vals = [nf, ires, irno, ieres, icalty, icompl, len(reftyps)]
    cols = dict(zip(('nfield', 'ires', 'irno', 'ieres', 'icalty', 'icompl',
                     'numtyp'), vals))
    vals = list(vals)
    for r in reftyps:
        vals += r
    return Rec('RDRESREF', vals, 'res', cols,
               {'reftyps': [list(r) for r in reftyps]})


def rec_cmb(V, name, ires):
    n = V.i(0, 13)
    body = [[float(V.bigi()), V.f(), V.f()] for _ in range(n)]
    cx = V.i(0, 1)
    nf = 4 + 3 * n
    vals = [nf, ires, cx, n]
    cols = dict(zip(('nfield', 'ires', 'icompl', 'nblc'), vals))
    vals = list(vals)
    for b in body:
        vals += b
    arr = 'blcs' if name == 'RBLODCMB' else 'rcs'
    return Rec(name, vals, 'res', cols, {arr: body})


NODARR = {'RVNODDIS': 'dis', 'RVNODVEL': 'vel', 'RVNODACC': 'acc'}
ELMARR = {'RVFORCES': 'force', 'RVSTRESS': 'stress', 'RVSTRAIN': 'strain'}


def rec_rvnod(name, ires, iinod, vals, irdva=1, itrans=0):
    nf = 5 + len(vals)
    return Rec(name, [nf, ires, iinod, irdva, itrans] + list(vals), 'res',
               dict(nfield=nf, ires=ires, iinod=iinod, irdva=irdva,
                    itrans=itrans), {NODARR[name]: list(vals)})


def rec_rvelm(name, ires, iielno, ispalt, ir, vals):
    nf = 5 + len(vals)
    return Rec(name, [nf, ires, iielno, ispalt, ir] + list(vals), 'res',
               dict(nfield=nf, ires=ires, iielno=iielno, ispalt=ispalt,
                    ir=ir), {ELMARR[name]: list(vals)})


# ----- hydro records
def rec_wbodcon(V, ibcond, ibody):
    n = V.i(0, 3)
    rc = [[float(V.num(1, 4)), float(V.num(1, 9)), V.f()] for _ in range(n)]
    nf = 4 + 3 * n
    vals = [nf, ibcond, ibody, n]
    cols = dict(zip(('nfield', 'ibcond', 'ibody', 'numcon'), vals))
    vals = list(vals)
    for r in rc:
        vals += r
    return Rec('WBODCON', vals, 'res', cols, {'refcond': rc})


def rec_wdresref(iwres, nresrf, parts):
    """parts: list of (irefty, [(idx, val), ...nresrf])"""
    vals = [0, iwres, nresrf, len(parts)]
    arrs = {'dir': [], 'freq': [], 'time': []}
    for ty, dat in parts:
        assert len(dat) == nresrf
        vals.append(ty)
        for d in dat:
            vals += list(d)
        arrs[{1: 'dir', 2: 'freq', 3: 'time'}[ty]] = [list(d) for d in dat]
    vals[0] = len(vals)
    cols = dict(zip(('nfield', 'iwres', 'nresrf', 'numtyp'), vals))
    return Rec('WDRESREF', vals, 'res', cols, arrs)


def rec_wglobdef(V, g, ro, depth=None):
    if depth is None:
        vals = [4, g, ro, 0]
        cols = dict(nfield=4, g=g, ro=ro, idepth=0)
    else:
        vals = [5, g, ro, 1, depth]
        cols = dict(nfield=5, g=g, ro=ro, idepth=1, depth=depth)
    return Rec('WGLOBDEF', vals, 'res', cols)


WBODY_COLS = ('nfield ibcond clenb bmass wsarea wparea vol xcg ycg zcg xcb '
              'ycb zcb xrb yrb zrb').split()


def rec_wbody(V, ibcond):
    vals = [32, ibcond] + V.fs(14)
    t = V.fs(16)
    cols = dict(zip(WBODY_COLS, vals))
    cols['t'] = [t[:4], t[4:8], t[8:12], t[12:]]
    return Rec('WBODY', vals + t, 'res', cols)


def rec_w1matrix(imatrx, ci, cj, iwres, imtyp, mat):
    t = [f32(x) for x in np.ravel(mat)]
    vals = [42, imatrx, ci, cj, iwres, imtyp]
    cols = dict(zip(('nfield', 'imatrx', 'ibconi', 'ibconj', 'iwres',
                     'imtyp'), vals))
    cols['hmat'] = [t[6 * k:6 * k + 6] for k in range(6)]
    return Rec('W1MATRIX', vals + t, 'res', cols)


def _cx(V, n, icompl):
    re = V.fs(n)
    if icompl:
        im = V.fs(n)
        flat = [x for p in zip(re, im) for x in p]
        return flat, [complex(a, b) for a, b in zip(re, im)]
    return re, [complex(a, 0.) for a in re]


def rec_wcommon(V, name, ibcond, iwres, icompl=1):
    flat, c = _cx(V, 6, icompl)
    nf = 4 + len(flat)
    return Rec(name, [nf, ibcond, iwres, icompl] + flat, 'res',
               dict(nfield=nf, ibcond=ibcond, iwres=iwres, icompl=icompl,
                    data=c))


def rec_w1sforce(V, ibcond, isect, iwres, icompl=1):
    flat, c = _cx(V, 6, icompl)
    nf = 5 + len(flat)
    return Rec('W1SFORCE', [nf, ibcond, isect, iwres, icompl] + flat, 'res',
               dict(nfield=nf, ibcond=ibcond, isect=isect, iwres=iwres,
                    icompl=icompl, data=c))


def rec_w2drift(V, name, ibcond, iwres):
    n = 3 if name == 'W2HDRIFT' else 6
    d = V.fs(n)
    return Rec(name, [3 + n, ibcond, iwres] + d, 'res',
               dict(nfield=3 + n, ibcond=ibcond, iwres=iwres,
                    **{'shfor' if n == 3 else 'smfor': d}))


def rec_wfkpoint(V, k):
    p = V.fs(3)
    return Rec('WFKPOINT', [5, k] + p, 'res',
               dict(nfield=5, ifkpnt=k, fkpnt=p))


def rec_wfluidkn(V, iwres, k, icompl=1):
    f1, p = _cx(V, 1, icompl)
    f3, v = _cx(V, 3, icompl)
    nf = 4 + len(f1) + len(f3)
    return Rec('WFLUIDKN', [nf, iwres, k, icompl] + f1 + f3, 'res',
               dict(nfield=nf, iwres=iwres, ifkpnt=k, icompl=icompl, p=p[0],
                    v=v))


def rec_wsection(V, ibody, isect):
    ty, us = V.num(1, 3), V.bigi()
    p = [V.fs(3) for _ in range(3)]
    return Rec('WSECTION', [14, ibody, isect, ty, us] + p[0] + p[1] + p[2],
               'res', dict(nfield=14, ibody=ibody, isect=isect, isecty=ty,
                           secusr=us, p1=p[0], p2=p[1], p3=p[2]))


def rec_wsurface(V, iwres):
    icompl = V.i(0, 1)
    comp = [V.i(0, 1) for _ in range(3)]
    nn = V.i(1, 6)
    flat = []
    z = []
    for _ in range(nn):
        node = float(V.num(1, 999))
        row = [complex(node, 0)]
        flat.append(node)
        for c in comp:
            if c:
                fl, cc = _cx(V, 1, icompl)
                flat += fl
                row += cc
            else:
                row.append(0j)
        z.append(row)
    nf = 8 + len(flat)
    vals = [nf, iwres, V.num(1, 5), nn, icompl] + comp
    cols = dict(zip(('nfield', 'iwres', 'indxwr', 'nnode', 'icompl', 'icompx',
                     'icompy', 'icompz'), vals))
    return Rec('WSURFACE', vals + flat, 'res', cols, {'zelev': z})


def rec_winput(V, ibcond):
    t = V.fs(16)
    return Rec('WINPUT', [18, ibcond] + t, 'res',
               dict(nfield=18, ibcond=ibcond, t=[t[:4], t[4:8], t[8:12],
                                                 t[12:]]))


def rec_w1panpre(V, ibcond, iwres, ippan, isymm, icompl=1, ipan=None,
                 val=None):
    flat, c = _cx(V, 1, icompl)
    ipan = ippan if ipan is None else ipan
    nf = 6 + len(flat) + 2
    return Rec('W1PANPRE', [nf, ibcond, iwres, ippan, isymm, icompl] + flat +
               [ipan, isymm], 'res',
               dict(nfield=nf, ibcond=ibcond, iwres=iwres, ippan=ippan,
                    isymm1=isymm, icompl=icompl, p=c[0], ipan=ipan,
                    isymm2=isymm))


def rec_ident(slevel, seltyp, selmod=3):
    return Rec('IDENT', [slevel, seltyp, selmod, 0], 'in',
               dict(slevel=slevel, seltyp=seltyp, selmod=selmod))


def rec_irecsize(n=1024):
    return Rec('IRECSIZE', [4, n, 0, 0], 'in', None)


def rec_iend(last=True):
    return Rec('IEND', [0 if last else 1, 0, 0, 0], 'in', None)


# unsupported records
UNSUP_IN = ('ACFD ADDATA BEDRAG1 BEISTE BELFIX BELLAX BELLO2 BELOAD1 BEMASS1 '
            'BEUVLO BEWAKIN BEWALO1 BNACCLO BNDISPL BNDOF BNINCO BNLOAD '
            'BNLOAX BNMASS BNTEMP BNTRCOS BNWALO BQDP BRIGDI BRIGVE BSELL '
            'GCROINT GECC GELINT GELSTRP GLMASS GSEPSPEC GSLAYER GSLPLATE '
            'GSLSTIFF GTONP MAXDMP MAXSPR MCNT MGDAMP MGLDAMP MGLMASS MGMASS '
            'MGSPRNG MISOAL MISOEML MISOHL MISOHNL MISOPL MISTEL MORSMEL '
            'MORSSEL MORSSOL MSHGLSP MTEMP MTENONL MTRMEL MTRSEL MTRSOL '
            'AMATRIX AMDACCL AMDDAMP AMDDISP AMDFREQ AMDLOAD AMDMASS AMDSTIFF '
            'AMDVELO TELEMENT TNODE').split()
UNSUP_RES = ('HSUPSTAT RDMLFACT RDNODBOC RDNODREA RDSERIES RDTRANS RSUMLOAD '
             'RSUMMASS RSUMREAC RVABSCIS RVELNFOR RVNODREA RVORDINA SCONPLIS '
             'SPROCODE SPROECCE SPROHYDR SPROMATR SPROORIE SPROPILE SPROSEGM '
             'SPROSELE SPROSOIL W2FLUDIF W2FLUSUM WGRESPON WSCATTER').split()
UNSUP_TD = ('TDSERIES',)


def is_unknown(name):
    return any(x in name for x in ('Q7', 'Z2', 'XX', 'QJ'))


def unknown_name(rng):
    """a record name that no version of the format describes"""
    letters = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    if rng.random() < .1:
        # text records are known by how their names begin
        return 'TD' + str(rng.choice(['Q7', 'FOOXX', 'Z2NAM', 'SQJ']))
    n = int(rng.integers(0, 6))
    t = ''.join(str(x) for x in rng.choice(list(letters), n))
    k = int(rng.integers(0, n + 1))
    return (str(rng.choice(list('BGMRSWXZ'))) + t[:k] +
            str(rng.choice(['Q7', 'Z2', 'XX', 'QJ'])) + t[k:])


def rec_unsup(V, name, short=False):
    if name[:2] == 'TD':
        r = rec_td(V, name)
        r.cols = None
        return r
    if name in UNSUP_IN or (name not in UNSUP_RES and V.rng.random() < .5):
        n = V.i(1, 4) if short or V.rng.random() < .3 else V.i(5, 30)
        vals = [V.bigi() if V.rng.random() < .5 else abs(V.f())] + V.fs(n - 1)
        if n <= 4 and V.rng.random() < .2:
            vals[0] = 10.  # could as well be the length of a result record
        return Rec(name, vals, 'in')
    n = 4 if short or V.rng.random() < .15 else V.i(5, 90)
    return Rec(name, [n, V.bigi()] + V.fs(n - 2), 'res')
