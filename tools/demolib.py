"""Small sequential files written by hand, for the demonstrations."""
import os
import shutil
import struct
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())        # the tree under test
import numpy as np                      # noqa
import freesif as fs                    # noqa

assert os.path.realpath(fs.__file__).startswith(os.path.realpath(os.getcwd()))


class Scratch(object):
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='demo')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        import freesif.data.file
        freesif.data.file.close_all_files()
        import tables
        tables.file._open_files.close_all()
        os.chdir(self.old)
        shutil.rmtree(self.d)


# a record is (name, kind, numbers, strings); kind 'in': input record,
# 'res': result record, 'td': strings after the numbers, 'text': text lines
def inp(name, *v):
    return (name, 'in', [float(x) for x in v], ())


def res(name, *v):
    return (name, 'res', [float(x) for x in v], ())


def count(name, *v):
    """result record starting with its number of fields"""
    return res(name, len(v) + 1, *v)


def td(name, idno, nm, *text):
    return (name, 'td', [4., float(idno), 100. + len(nm),
                         100. * len(text) + 64 * bool(text)],
            (nm,) + text)


def text(name, *lines):
    return (name, 'text', [1., 0., float(len(lines)), 72.], lines)


def directory(name, n, five=False):
    return (name, 'dir', [-5. if five else -4., 20., 4., float(n)] +
            ([7., 1.] if five else []), ())


IEND = inp('IEND', 0, 0, 0, 0)
IRECSIZE = res('IRECSIZE', 4, 1024, 0, 0)


def encode(recs, formatted=True):
    if formatted:
        out = []
        for name, kind, v, strs in recs:
            def line(n, x):
                return '{:<8}'.format(n) + ''.join(
                    '{:16.8E}'.format(y) for y in x)
            out.append(line(name, (v[:4] + [0.] * 4)[:4]))
            for i in range(4, len(v), 4):
                out.append(line('', v[i:i + 4]))
            out += [' ' * 8 + s for s in strs]
        return ('\n'.join(out) + '\n').encode()

    def piece(b):
        o = b''
        while len(b) > 128:
            o += b'\x81' + b[:128] + b'\x81'
            b = b[128:]
        n = struct.pack('B', len(b))
        return o + n + b + n

    def pf(v):
        return struct.pack('<%df' % len(v), *v)
    o = bytearray(b'K')
    for name, kind, v, strs in recs:
        o += piece(name.ljust(8).encode() + pf((v[:4] + [0.] * 4)[:4]))
        for s in strs:
            s = s if kind == 'td' else (' ' * 8 + s).ljust(72)
            o += piece(s.encode())
        rest = v[4:]
        if kind == 'in':
            for i in range(0, len(rest), 4):
                o += piece(b' ' * 8 + pf((rest[i:i + 4] + [0.] * 4)[:4]))
        elif rest:
            o += piece(pf(rest))
    return o + b'\x82'


def write(path, recs, formatted=True):
    with open(path, 'wb') as f:
        f.write(encode(list(recs), formatted))
    return path


# ------------------------------------------------------------ finite elements
NN = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
PTS = {15: (1, 1, 3), 23: (1, 1, 2), 24: (2, 1, 5), 25: (2, 1, 4),
       26: (2, 1, 3), 28: (2, 2, 2)}
NCOMP = {15: 6, 23: 6, 24: 3, 25: 3, 26: 5, 28: 5}


def nodes(xyz, nodex=None):
    n = len(xyz)
    nodex = nodex or [100 + i for i in range(n)]
    return ([inp('GNODE', nodex[i], i + 1, 6, 123456) for i in range(n)] +
            [inp('GCOORD', i + 1, *xyz[i]) for i in range(n)])


def elements(els, elnox=None, geono=None):
    """els: list of (type, node numbers starting at 1)"""
    elnox = elnox or [1000 + i for i in range(len(els))]
    geono = geono or [1] * len(els)
    return ([inp('GELMNT1', elnox[i], i + 1, t, 0, *con)
             for i, (t, con) in enumerate(els)] +
            [inp('GELREF1', i + 1, 1, 0, 0, 0, 0, 0, 0, geono[i], 0, 0, 0)
             for i in range(len(els))])


def sets(d):
    """d: list of (name, id, [(istype, members)])"""
    out = [td('TDSETNAM', i, n) for n, i, _ in d]
    for n, i, mem in d:
        for k, (ty, m) in enumerate(mem):
            out.append(count('GSETMEMB', i, k + 1, ty, 0, *m))
    return out


def cases(cs):
    """cs: list of (ires, run, external number, complex flag)"""
    return [res('RDRESREF', 7, i, r, e, 1, c, 0) for i, r, e, c in cs]


def points(els):
    used = sorted(set(t for t, _ in els if t in PTS))
    out = []
    for t in used:
        nm = 'RDFORCES' if t in (15, 23) else 'RDSTRESS'
        out.append(count(nm, t, NCOMP[t], *range(1, NCOMP[t] + 1)))
    out.sort(key=lambda r: r[0])
    for k, (t, _) in enumerate(els):
        if t not in PTS:
            continue
        a, b, c = PTS[t]
        n = a * b * c
        v = []
        for p in range(n):
            v += [p + 1, 0., 0., 0.]
        out.append(count('RDPOINTS', 1, k + 1, t, t, n,
                         a * 10000 + b * 100 + c, 0, 0, *v))
    return out


def nres(t):
    a, b, c = PTS[t]
    return a * b * c


def rvnod(name, ires, node, vals):
    return count(name, ires, node, 1, 0, *vals)


def rvelm(name, ires, elem, typ, vals):
    return count(name, ires, elem, 1, typ, *vals)


def single(body, seltyp=1):
    """a result file of one superelement"""
    return [IRECSIZE, res('HIERARCH', 8, 1, seltyp, 1, 1, 0, 0, 0),
            inp('IDENT', 1, seltyp, 3, 0)] + list(body) + [IEND]


def model(body, seltyp=1, slevel=1):
    """an input file"""
    return [inp('IDENT', slevel, seltyp, 3, 0)] + list(body) + [IEND]


def get(path, **kw):
    """the data sets of a converted file"""
    h5 = fs.sif2hdf5(path, **kw)
    return fs.open_hdf5(h5)


# ------------------------------------------------------------- hydrodynamics
def hydro(dirs, freqs, body, conds=((1, 1),), g=9.81, ro=1025., depth=None):
    """conds: (ibcond, body number) pairs"""
    out = [inp('IDENT', 1, 1, 0, 0)]
    out += [count('WBODCON', c, b, 0) for c, b in conds]
    n = 0
    for i, d in enumerate(dirs):
        for j, f in enumerate(freqs):
            n += 1
            out.append(count('WDRESREF', n, 1, 2, 1, i + 1, d, 2, j + 1, f))
    out.append(count('WGLOBDEF', g, ro, 1, depth) if depth else
               res('WGLOBDEF', 4, g, ro, 0))
    return out + list(body) + [IEND]


def same(a, b, msg='', tol=1e-4):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        sys.exit('%s: shape %r, expected %r' % (msg, a.shape, b.shape))
    if a.dtype.kind in 'fc':
        ok = np.allclose(a, b, rtol=tol, atol=tol)
    else:
        ok = np.array_equal(a, b)
    if not ok:
        sys.exit('%s: got %r, expected %r' % (msg, a, b))


def check(ok, msg):
    if not ok:
        sys.exit(msg)
