"""Conversion properties C01..C12."""
import contextlib
import os
import pickle
import shutil
import stat
import struct
import subprocess
import sys
import types

import numpy as np

from vlib import asm as A
from vlib import h5cmp
from vlib import sif as S
from vlib import soup
from vlib.runner import prop, REPO, Inconclusive

import h5py

ASSUME = ['records are drawn from the field layouts of the real SESAM files '
          'in tests/files and the Interface File manual as encoded in '
          'vlib/sif.py', 'values are representable in both encodings '
          '(float32, 9 significant digits)']


def fs():
    import freesif
    return freesif


def gdump(path):
    """{dataset: array or None}, {group: attrs incl. RECORDS}"""
    arrs, attrs = h5cmp.dump(path)
    import tables as tb
    with tb.open_file(path, 'r') as f:
        for g in f.walk_groups('/'):
            a = attrs.setdefault(g._v_pathname, {})
            if 'RECORDS' in g._v_attrs:
                a['RECORDS'] = list(g._v_attrs['RECORDS'])
            for k in ('LEVEL', 'DATATYPE', 'SELTYP', 'FILETYPE', 'INDEX'):
                if k in g._v_attrs:
                    v = g._v_attrs[k]
                    a[k] = str(v) if isinstance(v, str) else (
                        None if v is None else int(v))
    return arrs, {k: v for k, v in attrs.items() if v}


def same_dump(ctx, what, a, b, records=True):
    bad = h5cmp.diff(a[0], b[0])
    for g in sorted(set(a[1]) | set(b[1])):
        x, y = dict(a[1].get(g, {})), dict(b[1].get(g, {}))
        if not records:
            x.pop('RECORDS', None)
            y.pop('RECORDS', None)
        if x != y:
            bad.append('attributes of {}: {} vs {}'.format(g, x, y))
    ctx.obs('comparisons')
    ctx.obs('datasets', len(a[0]))
    if bad:
        ctx.fail('{}: {}'.format(what, '; '.join(bad[:4])))


def groups_of(path):
    out = []
    with h5py.File(path, 'r') as f:
        f.visititems(lambda n, o: out.append(n)
                     if isinstance(o, h5py.Group) else None)
    return sorted(out)


def check_group(ctx, path, group, sp, fixed=True, payload=True,
                subgroups=False):
    """oracle comparison of one stored data set with the records"""
    bad = []
    n = m = 0
    with h5py.File(path, 'r') as f:
        if group not in f:
            ctx.fail('group {} missing; file has {}'.format(
                group, groups_of(path)))
        g = f[group]
        for name, recs in sp.by_name().items():
            if fixed:
                b, k = h5cmp.compare_fixed(g, name, recs)
                bad += b
                n += k
            if payload and recs[0].arrs:
                b, k = h5cmp.compare_payload(g, name, recs)
                bad += b
                m += k
        # nothing may be invented
        want = set()
        for name, recs in sp.by_name().items():
            want.add(name.lower())
            for a in recs[0].arrs:
                want.add(name.lower() + '_' + a)
        have = set(k for k in g if not isinstance(g[k], h5py.Group))
        extra = have - want
        if extra and fixed:
            bad.append('stored without records in the file: {}'.format(
                sorted(extra)))
    ctx.obs('field_values', n)
    ctx.obs('payloads', m)
    ctx.obs('records', sum(len(v) for v in sp.by_name().values()))
    if bad:
        ctx.fail('{}: {}'.format(group, '; '.join(bad[:4])))


def check_attrs(ctx, path, group, sp, level, seltyp, family):
    _, at = gdump(path)
    a = at.get('/' + group)
    ctx.expect(a is not None, 'no attributes on {}'.format(group))
    want = {'SELTYP': seltyp, 'LEVEL': level, 'FILETYPE': family,
            'DATATYPE': 'HYDRODYNAMIC' if family == 'G' else 'STRUCTURAL'}
    for k, v in want.items():
        ctx.expect(a.get(k) == v, '{}: {} is {!r}, expected {!r}'.format(
            group, k, a.get(k), v))
    names = set(sp.by_name())
    got = [x for x in a.get('RECORDS', []) if x not in ('IRECSIZE', 'IEND')]
    ctx.expect(len(got) == len(set(got)) and set(got) == names,
               '{}: list of record names is {}, file holds {}'.format(
                   group, sorted(got), sorted(names)))


def gen_soup(ctx, family=None, unsup=0, ntypes=None, directory=None,
             formatted=None, seltyp=None, keys=None, fmix=True, wide=False):
    fmt = bool(ctx.i(0, 1)) if formatted is None else formatted
    ctx.V.wide = wide and fmt
    if directory is None:
        directory = ctx.pick([0., 1.]) if fmt else ctx.pick([0., 1.3])
    sp = soup.make(ctx.V, family, ntypes=ntypes, unsup=unsup,
                   directory=directory, seltyp=seltyp, keys=keys)
    ctx.note = '{} {} {}'.format(sp.family, 'formatted' if fmt else
                                 'unformatted', sp.brief())
    return sp, fmt


def longer(ctx, sp):
    """records that go on behind the fields known (newer versions of the
    format add fields at the end)"""
    cand = [r for r in sp.recs if r.kind == 'in' and r.name not in (
        'IDENT', 'IEND', 'IRECSIZE', 'HIERARCH') and not r.extra]
    # numbers a record may leave out are not left out if others follow
    cand = [r for r in cand if r.name not in S.STD or
            len(r.head) + len(r.rest) == len(S.STD[r.name][0])]
    for _ in range(min(len(cand), ctx.i(1, 3))):
        r = ctx.pick(cand)
        r.extra = ctx.V.fs(4 * ctx.i(1, 3) - ctx.pick([0, 0, 1, 3]))
        ctx.obs('longer')
        ctx.note += ' longer:' + r.name


def sigs(ctx, sp, fmt):
    for n in sp.by_name():
        ctx.state(n, fmt)


# ------------------------------------------------------------------ C01, C02
@prop('C01', 900, 40000, need=['field_values', 'records'],
      rule='distinct (record type, encoding) pairs stored and compared field '
           'by field', assumptions=ASSUME)
def c01(ctx):
    with ctx.gen():
        sp, fmt = gen_soup(ctx, ntypes=ctx.i(3, 25), wide=True,
                           unsup=ctx.pick([0, 0, 2]))
        if ctx.p(.15):
            longer(ctx, sp)
        fn = S.write(sp.fname(fmt), sp.recs, fmt)
    fs().sif2hdf5(fn, 'o.h5')
    check_group(ctx, 'o.h5', sp.group(), sp, payload=False)
    ctx.expect(groups_of('o.h5') == [sp.group()],
               'groups {} expected {}'.format(groups_of('o.h5'),
                                              [sp.group()]))
    check_attrs(ctx, 'o.h5', sp.group(), sp,
                '' if sp.family == 'G' else 'FIRSTLEVEL', sp.seltyp,
                sp.family)
    sigs(ctx, sp, fmt)
    ctx.sample(sp.brief()[:300])


def refused_form(ctx, recs):
    """a record of a form that is not supported, anywhere in a T or R file
    """
    V = ctx.V
    out = list(recs)
    names = [r.name for r in out]
    first = max(k for k, n in enumerate(names)
                if n in ('IDENT', 'HIERARCH', 'IRECSIZE')) + 1
    last = len(out) - (names[-1] == 'IEND')
    forms = ['SCONMESH', 'SCONCEPT', 'GELMNT1']
    if 'RDRESREF' in names or 'RDPOINTS' in names:
        forms += ['RDIELCOR'] * 3
    form = ctx.pick([n for n in forms if n in names] or forms)
    if form == 'SCONMESH':
        m = [V.is_(V.i(1, 9), 1, 99999) for _ in range(ctx.i(2, 3))]
        body = []
        for x in m:
            body += [V.i(0, 9), len(x)] + x
        r = S.Rec(form, [3 + len(body), V.bigi(), len(m)] + body, 'res')
    elif form == 'SCONCEPT':
        body = V.is_(V.i(2, 9), 1, 999)
        r = S.Rec(form, [5 + len(body), V.bigi(), ctx.pick([1, 3, 4, 5, 6]),
                         V.i(0, 5), V.bigi()] + body, 'res')
    elif form == 'GELMNT1':
        r = S.rec_gelmnt1(V.bigi() + 1, 10 ** 7 + V.i(0, 99), ctx.pick(
            [99, 250, 999]), V.is_(V.i(1, 20), 1, 999))
    else:
        r = S.rec_rdielcor(V, ctx.i(900, 999), (ctx.i(1, 2), ctx.i(1, 3),
                                                ctx.i(1, 3)), ctx.i(0, 3))
    near = [k + ctx.i(0, 1) for k, n in enumerate(names) if n == form]
    pos = ctx.pick(near) if near and ctx.p(.7) else ctx.i(first, last)
    out.insert(pos, r)
    return form, out


@prop('C02', 2000, 50000, need=['payloads'],
      rule='distinct (record type with variable length data, encoding) pairs',
      assumptions=ASSUME)
def c02(ctx):
    with ctx.gen():
        fam = ctx.pick(['T', 'R', 'R', 'G'])
        cat = soup.catalogue(ctx.V, fam)
        vl = [k for k in cat if k in (
            'DATE', 'TEXT', 'ELEMS', 'GELMNT2', 'GSETMEMB', 'SCONCEPT',
            'SCONMESH', 'BNBCD', 'BLDEP', 'BEUSLO', 'RBLODCMB', 'RDRESCMB',
            'RESULTS') or k.startswith('TD') or k.startswith('H')]
        keys = ctx.subset(sorted(vl), 2, 10)
        sp, fmt = gen_soup(ctx, family=fam, keys=keys, wide=True,
                           unsup=ctx.pick([0, 0, 2]))
        if ctx.p(.15):
            longer(ctx, sp)
        fn = S.write(sp.fname(fmt), sp.recs, fmt)
        ctx.expect(any(r[0].arrs for r in sp.by_name().values()) or True, '')
        refused = fam != 'G' and ctx.p(.12)
        if refused:
            form, recs = refused_form(ctx, sp.recs)
            ctx.note += ' refused:' + form
            os.mkdir('r')
            S.write('r/' + fn, recs, fmt)
    if refused:
        ctx.raises(Exception, fs().sif2hdf5, 'r/' + fn, 'r.h5')
        ctx.obs('refused')
        ctx.state('refused', form, fmt)
    fs().sif2hdf5(fn, 'o.h5')
    check_group(ctx, 'o.h5', sp.group(), sp, fixed=False)
    for n, r in sp.by_name().items():
        if r[0].arrs:
            ctx.state(n, fmt)
    ctx.sample(sp.brief()[:300])


# ----------------------------------------------------------------------- C03
@prop('C03', 700, 25000, need=['datasets'],
      rule='distinct record types converted from both encodings',
      assumptions=ASSUME)
def c03(ctx):
    with ctx.gen():
        if ctx.p(.15):
            fam, nodes, files = A.make(ctx.V)
        else:
            sp = soup.make(ctx.V, ntypes=ctx.i(3, 20),
                           unsup=ctx.pick([0, 2]))
            fam = sp.family
            files = [A.AsmFile(None, sp.group(), sp, None, None)]
        ctx.note = files[0].soup.brief()
        crlf = ctx.p(.3)
        tops = []
        # the extension says nothing
        exts = {'T': ['FEM'], 'R': ['SIF', 'SIU'], 'G': ['SIF', 'SIU']}[fam]
        if len(files) == 1 and ctx.p(.2):
            exts = ['FEM', 'SIF', 'SIU']
        swap = ctx.p(.4)
        # a hierarchy may have files of both encodings
        kinds = ['f', 'u'] + ['m'] * (len(files) > 1 and ctx.p(.6))
        mixed = set()
        for d in kinds:
            os.mkdir(d)
            ext = ctx.pick(exts) if swap else exts[-1 if d == 'u' else 0]
            for a in files:
                nm = (a.fname.rsplit('.', 1)[0] if a.fname else
                      '{}{}'.format(fam, a.soup.seltyp)) + '.' + ext
                fmt = int(d == 'f' if d != 'm' else ctx.p(.5))
                if d == 'm':
                    mixed.add(fmt)
                recs = a.soup.recs
                if ctx.p(.15 if fmt else .5):
                    body = [r for r in recs if r.name in (
                        'IRECSIZE', 'HIERARCH', 'IDENT', 'HSUPTRAN',
                        'RSUPTRAN')]
                    k = len(body)
                    if recs[:k] == body:
                        recs = recs[:k] + S.with_directory(recs[k:], ctx.rng,
                                                           0. if fmt else .3)
                p = os.path.join(d, nm)
                S.write(p, recs, fmt, '\r\n' if crlf and fmt else '\n')
                if a is files[0]:
                    tops.append(p)
    dumps = []
    for p, d in zip(tops, kinds):
        fs().sif2hdf5(p, d + '.h5')
        dumps.append(gdump(d + '.h5'))
    same_dump(ctx, 'formatted vs unformatted' + (' (CRLF)' if crlf else ''),
              *dumps[:2])
    if len(dumps) > 2:
        same_dump(ctx, 'formatted vs formatted and unformatted files',
                  dumps[0], dumps[2])
        if len(mixed) > 1:
            ctx.obs('hierarchies_of_both_encodings')
    if swap:
        ctx.obs('other_extensions')
    for f in files:
        ctx.obs('records', len(f.soup.recs))
        for n in f.soup.by_name():
            ctx.state(n)
    if crlf:
        ctx.obs('crlf')
    if len(files) > 1:
        ctx.obs('hierarchies')
    ctx.sample(ctx.note[:300])


# ----------------------------------------------------------------------- C04
def insert_noise(ctx, recs, fmt, names):
    """unsupported records anywhere after the header part"""
    out = list(recs)
    # some of names of no version of the format
    share = ctx.pick([0., 0., .1, .5])

    def name(td=True):
        if share and ctx.p(share):
            ctx.obs('unknown_names')
            return S.unknown_name(ctx.rng)
        return ctx.pick(S.UNSUP_IN + S.UNSUP_RES +
                        (list(S.UNSUP_TD) if td else []))
    first = max(i for i, r in enumerate(out)
                if r.name in ('IDENT', 'HIERARCH', 'IRECSIZE')) + 1
    n = 0
    if ctx.p(.4):
        # most types of records right behind an unsupported one
        for pos in range(len(out) - 1, first, -1):
            if out[pos].name != out[pos - 1].name and ctx.p(.7):
                nm = name(False)
                out.insert(pos, S.rec_unsup(ctx.V, nm, ctx.p(.7)))
                names.add(nm)
                ctx.obs('short_noise')
                n += 1
    for _ in range(ctx.i(1, 12)):
        pos = ctx.i(first, len(out) - 1)
        k = ctx.i(1, 4)
        if ctx.p(.4):
            # different ones in a row, most of them without continuation
            k = ctx.i(2, 8)
            nms = [name() for _ in range(k)]
            out[pos:pos] = [S.rec_unsup(ctx.V, x, ctx.p(.7)) for x in nms]
            names.update(nms)
        else:
            nm = name()
            out[pos:pos] = [S.rec_unsup(ctx.V, nm) for _ in range(k)]
            names.add(nm)
        n += k
    ctx.obs('length_of_ten', S.settle(out))
    return out, n


@prop('C04', 1600, 60000, need=['noise_records', 'short_noise', 'datasets',
                                  'unknown_names', 'length_of_ten'],
      rule='distinct (unsupported record type, encoding) pairs interleaved '
           'with supported ones', assumptions=ASSUME)
def c04(ctx):
    with ctx.gen():
        sp, fmt = gen_soup(ctx, ntypes=ctx.i(2, 12), directory=0.)
        fn = sp.fname(fmt)
        os.mkdir('a')
        os.mkdir('b')
        S.write('a/' + fn, sp.recs, fmt)
        names = set()
        recs, n = insert_noise(ctx, sp.recs, fmt, names)
        if ctx.p(.3 if fmt else .6):
            k = max(i for i, r in enumerate(recs) if r.name in (
                'IDENT', 'HIERARCH', 'IRECSIZE')) + 1
            recs = recs[:k] + S.with_directory(recs[k:], ctx.rng,
                                               0. if fmt else ctx.pick([0., .3]))
            ctx.obs('directory_files')
        S.write('b/' + fn, recs, fmt)
        only = None
        if ctx.p(.3):
            have = sorted(sp.by_name())
            only = [x for x in have if x not in DEPENDENT]
            only = ctx.subset(only, 1) + ['IDENT', 'HIERARCH']
            ctx.obs('with_only')
    fs().sif2hdf5('a/' + fn, 'a.h5', only=only)
    fs().sif2hdf5('b/' + fn, 'b.h5', only=only)
    same_dump(ctx, 'with/without unsupported records {}'.format(
        sorted(names)), gdump('a.h5'), gdump('b.h5'))
    if only is None:
        check_group(ctx, 'b.h5', sp.group(), sp)
    ctx.obs('noise_records', n)
    for x in names:
        ctx.state(x, fmt)
    ctx.sample(sorted(names))


# ----------------------------------------------------------------------- C05
# record types whose layout depends on other records
DEPENDENT = {
    'GELREF1': ['GELMNT1'],
    'RDIELCOR': ['RDPOINTS'],
    'RVNODDIS': ['RDRESREF'], 'RVNODVEL': ['RDRESREF'],
    'RVNODACC': ['RDRESREF'],
    'RVFORCES': ['RDRESREF', 'RDPOINTS', 'RDFORCES'],
    'RVSTRESS': ['RDRESREF', 'RDPOINTS', 'RDSTRESS'],
    'RVSTRAIN': ['RDRESREF', 'RDPOINTS', 'RDSTRAIN'],
}


def selection(ctx, names):
    """some types of records with those they depend on, in any order"""
    pick = set(ctx.subset(sorted(names), 0))
    for n in list(pick):
        pick |= set(DEPENDENT.get(n, []))
    pick |= {'IDENT', 'HIERARCH', 'IEND'}
    if ctx.p(.3):
        pick.add('IRECSIZE')
    only = sorted(pick)
    only = [only[int(k)] for k in ctx.rng.permutation(len(only))]
    return pick, ctx.pick([list, tuple])(only)


@prop('C05', 900, 30000, need=['datasets', 'dropped', 'kept'],
      rule='distinct (record type, kept or dropped) pairs',
      assumptions=ASSUME + ['the selection includes the records other '
                            'selected records need (as documented)'])
def c05(ctx):
    with ctx.gen():
        hier = ctx.p(.3)
        fmt = bool(ctx.i(0, 1))
        if hier:
            fam, nodes, files = A.make(ctx.V, unsup=ctx.pick([0, 2]))
            for a in files:
                S.write(a.fname, a.soup.recs, fmt)
            fn = files[0].fname
        else:
            sp, fmt = gen_soup(ctx, ntypes=ctx.i(3, 20), formatted=fmt,
                               unsup=ctx.pick([0, 3]))
            fn = S.write(sp.fname(fmt), sp.recs, fmt)
            files = [A.AsmFile(fn, sp.group(), sp, None, None)]
        names = set()
        for a in files:
            names |= set(a.soup.by_name())
        pick, arg = selection(ctx, names)
        only = list(arg)
        ctx.note = 'only={} of {}'.format(only, sorted(names))
    fs().sif2hdf5(fn, 'full.h5')
    fs().sif2hdf5(fn, 'part.h5', only=arg)
    fa, fat = gdump('full.h5')
    keep = {}
    for k, v in fa.items():
        if v is None:
            keep[k] = v
            continue
        base = k.rsplit('/', 1)[1]
        rec = base.split('_')[0].upper()
        if rec in pick:
            keep[k] = v
            ctx.obs('kept')
        else:
            ctx.obs('dropped')
    wat = {}
    for g, a in fat.items():
        a = dict(a)
        if 'RECORDS' in a:
            a['RECORDS'] = [x for x in a['RECORDS'] if x in pick]
        wat[g] = a
    same_dump(ctx, 'only=...', gdump('part.h5'), (keep, wat))
    for n in names:
        ctx.state(n, n in pick)
    ctx.sample(ctx.note[:300])


# ----------------------------------------------------------------------- C06
def big_file(ctx, kind, n, fmt, path):
    """vectorised writer; -> {dataset: array} expected under T7 / R7"""
    rng = ctx.rng

    def fl(a):
        return np.asarray(a, np.float32)

    def blocks(total):
        """sizes of the blocks the records are written in"""
        k = ctx.pick([1, 1, 2, 3])
        if k == 1:
            return [total]
        cuts = sorted(int(x) for x in rng.integers(1, total, k - 1))
        return [b - a for a, b in zip([0] + cuts, cuts + [total]) if b > a]

    out = bytearray()

    def rec(name, head, conts, kind):
        """head (m,4), conts: list of (m,k<=4) for 'in' / one (m,k) 'res'"""
        m = len(head)
        if fmt:
            cols = [head]
            lead = [name]
            if kind == 'res' and len(conts):
                c = conts[0]
                conts = [c[:, i:i + 4] for i in range(0, c.shape[1], 4)]
            for r in range(m):
                out.extend(('{:<8}'.format(name) + ''.join(
                    '%16.8E' % v for v in head[r]) + '\n').encode())
                for c in conts:
                    out.extend((' ' * 8 + ''.join(
                        '%16.8E' % v for v in c[r]) + '\n').encode())
        else:
            fields = [('l0', 'u1'), ('nm', 'S8'), ('v', '<f4', (4,)),
                      ('e0', 'u1')]
            for k, c in enumerate(conts):
                w = 4 if kind == 'in' else c.shape[1]
                fields.append(('l%d' % (k + 1), 'u1'))
                if kind == 'in':
                    fields.append(('b%d' % k, 'S8'))
                fields.append(('c%d' % k, '<f4', (w,)))
                fields.append(('e%d' % (k + 1), 'u1'))
            a = np.zeros(m, np.dtype(fields))
            a['l0'] = a['e0'] = 24
            a['nm'] = name.ljust(8).encode()
            a['v'] = head
            for k, c in enumerate(conts):
                w = 4 if kind == 'in' else c.shape[1]
                ln = 8 + 16 if kind == 'in' else 4 * w
                assert ln <= 128
                a['l%d' % (k + 1)] = a['e%d' % (k + 1)] = ln
                if kind == 'in':
                    a['b%d' % k] = b' ' * 8
                a['c%d' % k][:, :c.shape[1]] = c
            out.extend(a.tobytes())

    def ints(m, hi=2 ** 20):
        return rng.integers(1, hi, m)

    def small(m, k):
        # exactly representable with 9 digits in both encodings
        return fl(rng.integers(-10 ** 6, 10 ** 6, (m, k)) / 64.)

    fam = 'R' if kind == 'RVNODDIS' else 'T'
    hdr = []
    if fam == 'R':
        hdr = [S.rec_irecsize(), S.rec_hierarch(1, 7, 1, 1, 0, 0, [])]
    hdr.append(S.rec_ident(1, 7, 3))
    if kind == 'RVNODDIS':
        hdr.append(S.rec_rdresref(1, 1, 1, 1, 0, []))
        hdr.append(S.rec_rdresref(2, 1, 2, 1, 1, []))
    exp = {}
    sep = S.rec_std(ctx.V, 'MISOSEL', 3)
    done = 0
    szs = blocks(n)
    if fmt:
        out.extend(S.encode_formatted(hdr))
    else:
        out.extend(b'K' + b''.join(S.unf_bytes(r) for r in hdr))
    acc = {}

    def put(k, v):
        acc.setdefault(k, []).append(v)
    vstart = 0
    for bi, m in enumerate(szs):
        if bi:
            out.extend(S.encode_formatted([sep]) if fmt else S.unf_bytes(sep))
        if kind == 'GCOORD':
            no = np.arange(done, done + m) + 1
            xyz = small(m, 3)
            rec('GCOORD', np.column_stack([fl(no), xyz]), [], 'in')
            put('gcoord.nodeno', no)
            for i, c in enumerate('xyz'):
                put('gcoord.%scoord' % c, xyz[:, i])
        elif kind == 'GELMNT1':
            # one block, records of 2 and 8 nodes
            elx = ints(m)
            nn = 8 if bi % 2 else 2
            ty = 28 if nn == 8 else 15
            nod = ints(m * nn).reshape(m, nn)
            rec('GELMNT1', np.column_stack([
                fl(elx), fl(np.arange(done, done + m) + 1),
                np.full(m, ty, np.float32), np.zeros(m, np.float32)]),
                [fl(nod[:, i:i + 4]) for i in range(0, nn, 4)], 'in')
            put('gelmnt1.elnox', elx)
            put('gelmnt1.elno', np.arange(done, done + m) + 1)
            put('gelmnt1.eltyp', np.full(m, ty))
            put('gelmnt1.nodin_start', vstart + nn * np.arange(m))
            put('gelmnt1.nodin_stop', vstart + nn * np.arange(1, m + 1))
            put('gelmnt1_nodin', nod.ravel())
            vstart += nn * m
        elif kind == 'RVNODDIS':
            cx = bi % 2
            w = 12 if cx else 6
            v = small(m, w)
            no = np.arange(done, done + m) + 1
            one = np.ones(m)
            rest = np.column_stack([np.zeros((m, 1), np.float32), v])
            rec('RVNODDIS', np.column_stack([
                fl(one * (5 + w)), fl(one * (1 + cx)), fl(no), fl(one)]),
                [rest], 'res')
            put('rvnoddis.ires', (one * (1 + cx)).astype(int))
            put('rvnoddis.iinod', no)
            put('rvnoddis.dis_start', vstart + w * np.arange(m))
            put('rvnoddis.dis_stop', vstart + w * np.arange(1, m + 1))
            put('rvnoddis_dis', v.ravel())
            vstart += w * m
        elif kind == 'GSETMEMB':
            # a few sets with very many members
            mem = ints(m)
            k = ctx.i(1, 3)
            cut = sorted(int(x) for x in rng.integers(0, m + 1, k - 1))
            a = 0
            for j, b in enumerate(cut + [m]):
                r = S.rec_gsetmemb(bi + 1, j + 1, 2, 0,
                                   [float(x) for x in mem[a:b]])
                out.extend(S.encode_formatted([r]) if fmt else S.unf_bytes(r))
                put('gsetmemb.irmemb_stop', np.array(
                    [vstart + b if b > a else 0]))
                put('gsetmemb.irmemb_start', np.array(
                    [vstart + a if b > a else 0]))
                a = b
            put('gsetmemb_irmemb', mem)
            vstart += m
        elif kind == 'TDSETNAM':
            recs = []
            for j in range(m):
                r = S.rec_td(ctx.V, 'TDSETNAM', done + j + 1,
                             'SET%d' % (done + j), 1 if j % 3 == 0 else 0)
                recs.append(r)
            out.extend(S.encode_formatted(recs) if fmt else
                       b''.join(S.unf_bytes(r) for r in recs))
            put('tdsetnam.idno', np.arange(done, done + m) + 1)
            put('tdsetnam.name', np.array([r.cols['name'].encode()
                                           for r in recs]))
            tx = [x.encode('latin-1') for r in recs for x in r.arrs['text']]
            if tx:
                put('tdsetnam_text', np.array(tx))
        done += m
    end = S.rec_iend(True)
    out.extend(S.encode_formatted([end]) if fmt else
               S.unf_bytes(end) + b'\x82')
    with open(path, 'wb') as f:
        f.write(out)
    return fam, szs, {k: np.concatenate(v) for k, v in acc.items()}


C06_KINDS = ['GCOORD', 'GELMNT1', 'RVNODDIS', 'GSETMEMB', 'TDSETNAM']


@contextlib.contextmanager
def buffer_size(mod, n):
    """the size of the buffers of a module, wherever it is kept"""
    old = mod.tmp_arr_size
    undo = []

    def is_size(v):
        return type(v) is int and v == old

    def patch(fn):
        dv, kd = fn.__defaults__, fn.__kwdefaults__
        if dv and any(map(is_size, dv)):
            undo.append(lambda: setattr(fn, '__defaults__', dv))
            fn.__defaults__ = tuple(n if is_size(v) else v for v in dv)
        if kd and any(map(is_size, kd.values())):
            undo.append(lambda: setattr(fn, '__kwdefaults__', kd))
            fn.__kwdefaults__ = {k: n if is_size(v) else v
                                 for k, v in kd.items()}
    own = [mod] + [c for c in vars(mod).values()
                   if isinstance(c, type) and c.__module__ == mod.__name__]
    try:
        for o in own:
            for k, v in list(vars(o).items()):
                v = getattr(v, '__func__', v)
                if isinstance(v, types.FunctionType):
                    patch(v)
                elif is_size(v):
                    undo.append(lambda o=o, k=k: setattr(o, k, old))
                    setattr(o, k, n)
        yield
    finally:
        for u in undo:
            u()


def small_buffers(ctx):
    """whatever fits in the buffers: all record types, buffers of a few
    records"""
    from freesif.sequentialparser import parsers
    if not hasattr(parsers, 'tmp_arr_size'):
        ctx.obs('no_small_buffers')
        return
    with ctx.gen():
        n = ctx.i(1, 6)
        it = make_item(ctx, 'd', hier=ctx.p(.15), unsup=ctx.pick([0, 1]))
        ctx.note = '{} buffer of {}'.format(it.label, n)
    with buffer_size(parsers, n):
        fs().sif2hdf5(it.path, 'o.h5')
    check_item(ctx, 'o.h5', it)
    ctx.obs('small_buffer_files')
    ctx.state('small', it.label, n)


@prop('C06', 240, 12000, need=['big_records'],
      rule='distinct (record type, encoding, number of records relative to '
           'powers of ten, number of blocks), and (file kind, buffer size)',
      assumptions=ASSUME)
def c06(ctx):
    if ctx.idx % 13:
        return small_buffers(ctx)
    bidx = ctx.idx // 13
    with ctx.gen():
        kind = C06_KINDS[(bidx + (ctx.seed % 5)) % 5]
        fmt = bool((bidx // 5 + ctx.seed) % 2)
        sizes = [99999, 100000, 100001, 100003, 200000, 200001, 120000]
        if ctx.tier == 'thorough':
            sizes += [300000, 250000, 199999, 65537, 131073]
        n = sizes[(bidx * 3 + ctx.seed) % len(sizes)]
        if kind == 'TDSETNAM':
            n = min(n, 100003)
        if kind == 'GSETMEMB' and n > 210000:
            n = 210000
        fam = 'R' if kind == 'RVNODDIS' else 'T'
        fn = fam + '7.' + ('FEM' if fam == 'T' else 'SIF' if fmt else 'SIU')
        fam, szs, exp = big_file(ctx, kind, n, fmt, fn)
        ctx.note = '{} n={} blocks={} formatted={}'.format(kind, n, szs, fmt)
    fs().sif2hdf5(fn, 'o.h5')
    with h5py.File('o.h5', 'r') as f:
        g = f[fam + '7']
        tab = g[kind.lower()][:]
        for k, v in sorted(exp.items()):
            if '.' in k:
                t, c = k.split('.')
                got = tab[c]
            else:
                got = g[k][:]
            if got.dtype.kind == 'S':
                got = np.char.rstrip(got)
                v = np.char.rstrip(v)
            ctx.eq('{} {}'.format(ctx.note, k), got, v)
    ctx.obs('big_records', n)
    ctx.state(kind, fmt, n, len(szs))
    ctx.sample(ctx.note)


# ----------------------------------------------------------------------- C07
FRESH = '''
import sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, {repo!r})
import freesif
try:
    freesif.sif2hdf5({src!r}, {dst!r}, **{kw!r})
except Exception as e:
    print('RAISED=' + type(e).__name__)
    raise
'''


def fresh_convert(src, dst, **kw):
    """-> (name of the exception or None, text of the error)"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', FRESH.format(
        repo=REPO, src=src, dst=dst, kw=kw)], env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode == 0:
        return None, ''
    out = r.stdout.decode().split('RAISED=')
    return (out[1].split()[0] if len(out) > 1 else 'died',
            r.stderr.decode()[-800:])


def break_file(ctx, path):
    """damage an input so that the conversion has to fail half way; returns
    a label"""
    data = open(path, 'rb').read()
    how = ctx.pick(['truncate', 'garbage', 'truncate'])
    k = int(len(data) * (.1 + .8 * ctx.rng.random()))
    if how == 'truncate':
        data = data[:k]
        if data[:1] != b'K':
            data += b'\nGCOORD  this is not a number\n'
    else:
        if data[:1] == b'K':
            data = data[:k] + b'\x05\x00\xff'
        else:
            data = data[:k] + b'\n@@@@@@@@@@@@ not a sif record\n' + data[k:]
    with open(path, 'wb') as f:
        f.write(data)
    return how


class Item(object):
    """something to convert, with its expected content"""


def make_item(ctx, d, prefix='', family=None, hier=None, unsup=0,
              pcase=.25):
    it = Item()
    os.makedirs(d, exist_ok=True)
    hier = ctx.p(.4) if hier is None else hier
    it.fmt = bool(ctx.i(0, 1))
    case = A.file_case(ctx.V, pcase)
    if hier and family != 'G':
        it.family, it.nodes, files = A.make(
            ctx.V, family=family, prefix=prefix, unsup=unsup,
            ext=None, case=case)
        it.files = files
    else:
        sp = soup.make(ctx.V, family, ntypes=ctx.i(2, 8), unsup=unsup)
        nm = sp.fname(it.fmt).split('.')
        nm = '{}{}.{}'.format(prefix, case[0](nm[0]), case[1](nm[1]))
        it.family = sp.family
        it.files = [A.AsmFile(nm, prefix + sp.group(), sp,
                              '' if sp.family == 'G' else 'FIRSTLEVEL',
                              None)]
    it.hier = len(it.files) > 1
    it.dir = d
    for f in it.files:
        S.write(os.path.join(d, f.fname), f.soup.recs, it.fmt)
    it.path = os.path.join(d, it.files[0].fname)
    it.label = '{}{}{}'.format(it.family, 'h' if it.hier else '',
                               'f' if it.fmt else 'u')
    return it


def check_item(ctx, h5, it, regroup=None, present=None):
    """all data sets of an item are on h5 with the right content"""
    for f in it.files:
        if present is not None and f.fname not in present:
            continue
        grp = f.group if regroup is None else regroup(f.group)
        check_group(ctx, h5, grp, f.soup)
        check_attrs(ctx, h5, grp, f.soup, f.level, f.soup.seltyp, it.family)


def item_groups(it, regroup=None, present=None):
    out = []
    for f in it.files:
        if present is not None and f.fname not in present:
            continue
        g = f.group if regroup is None else regroup(f.group)
        out.append(g)
    return sorted(set(out))


def rich_item(ctx, d):
    """hierarchy with several files of the lowest level, all of them with
    elements or results"""
    def lower(n, h):
        if fam == 'R':
            h.append(S.rec_xsuptran(None, 'RSUPTRAN', ctx.i(1, 99),
                                    A.total_transform(n)))
        return soup.make(ctx.V, fam, keys=[
            'RESULTS' if fam == 'R' and ctx.p(.7) else 'ELEMS', 'GCOORD'],
            header=h, seltyp=n.iselty)
    fam = ctx.pick(['T', 'R', 'R'])
    for _ in range(20):
        it = Item()
        it.family, it.nodes, it.files = A.make(ctx.V, family=fam,
                                               lower=lower)
        if sum(f.level == 'FIRSTLEVEL' for f in it.files) > 1:
            break
    it.fmt = bool(ctx.i(0, 1))
    it.hier = True
    it.dir = d
    os.mkdir(d)
    for f in it.files:
        S.write(os.path.join(d, f.fname), f.soup.recs, it.fmt)
    it.path = os.path.join(d, it.files[0].fname)
    it.label = it.family + 'r' + 'uf'[it.fmt]
    return it


def lacking(ctx, it, d):
    """copy of an item some of whose files lack types of records that others
    need; a file of the lowest level may have the content of the one before"""
    head = ('IRECSIZE', 'IDENT', 'HIERARCH', 'HSUPTRAN', 'RSUPTRAN')
    os.mkdir(d)
    prev = None
    what = []
    for f in it.files:
        recs = f.soup.recs
        if f.level == 'FIRSTLEVEL':
            if prev is not None and ctx.p(.6):
                mine = [r for r in recs if r.name in head]
                recs = mine + [r for r in prev if r.name not in head]
            prev = recs
        names = set(r.name for r in recs)
        drop = set()
        if ctx.p(.7):
            dep = [x for x in DEPENDENT if x in names]
            if dep:
                drop = set(ctx.subset(DEPENDENT[ctx.pick(dep)], 1, 1))
        what.append(sorted(drop))
        S.write(os.path.join(d, f.fname), [r for r in recs
                                           if r.name not in drop], it.fmt)
    return os.path.join(d, it.files[0].fname), what


@prop('C07', 150, 6000, need=['conversions', 'steps', 'appended', 'lacking_fresh',
                         'lacking_alone'],
      rule='distinct (kind of the previous conversion and its outcome, kind '
           'of the checked conversion)', assumptions=ASSUME)
def c07(ctx):
    with ctx.gen():
        n = ctx.i(2, 6)
        items = [make_item(ctx, 'd%d' % k, unsup=ctx.pick([0, 0, 1]))
                 for k in range(n)]
        ctx.note = ' '.join(i.label for i in items)
    prev = 'start'
    last = None
    for k, it in enumerate(items):
        act = ctx.pick(['ok', 'ok', 'ok', 'fail', 'mem', 'only', 'again',
                        'partial', 'lacking'])
        if k == n - 1:
            act = ctx.pick(['ok', 'ok', 'partial', 'lacking'])
        out = 'o%d.h5' % k
        if act == 'fail':
            with ctx.gen():
                f = ctx.pick(it.files)
                how = break_file(ctx, os.path.join(it.dir, f.fname))
            try:
                fs().sif2hdf5(it.path, out)
                ctx.obs('damage_not_fatal')
            except Exception:
                ctx.obs('failed_conversions')
            prev = it.label + ' failed'
            continue
        if act == 'mem':
            h = fs().sif2hdf5(it.path, in_memory=True)
            h.close()
            prev = it.label + ' memory'
            continue
        if act == 'only':
            try:
                fs().sif2hdf5(it.path, out, only=['IDENT', 'HIERARCH',
                                                  'GCOORD', 'IEND'])
            except Exception as e:
                ctx.fail('conversion with only= failed: {!r}'.format(e))
            prev = it.label + ' only'
            continue
        if act == 'lacking':
            # files without records that others need, after those which have
            # them: the outcome is that of a fresh process
            with ctx.gen():
                if ctx.p(.6):
                    it = rich_item(ctx, 'r%d' % k)
                src, what = lacking(ctx, it, 'l%d' % k)
            if ctx.p(.7):
                fs().sif2hdf5(it.path, out)
            try:
                fs().sif2hdf5(src, 'l%d.h5' % k)
                mine = None
            except Exception as e:
                mine = type(e).__name__
            fresh, err = fresh_convert(src, 'fresh%d.h5' % k)
            ctx.expect(mine == fresh, 'conversion of {} without {}: {} but '
                       'in a fresh process {} {}'.format(
                           it.label, what, mine, fresh, err[-200:]))
            low = [f for f in it.files if f.level == 'FIRSTLEVEL']
            if mine is None and it.hier and len(low) > 1:
                # nor does a file use what belongs to the one before it:
                # every file of the lowest level can be read alone
                for f in low[1:]:
                    one, err = fresh_convert(os.path.join(
                        os.path.dirname(src), f.fname), 'alone%d.h5' % k)
                    ctx.expect(one is None, '{} of {} without {} was '
                               'converted, but alone {} {}'.format(
                                   f.fname, it.label, what, one, err[-200:]))
                    ctx.obs('lacking_alone')
            if mine is None:
                same_dump(ctx, 'files without {} vs fresh process'.format(
                    what), gdump('l%d.h5' % k), gdump('fresh%d.h5' % k))
            ctx.obs('lacking_fresh')
            ctx.state(prev, it.label, 'lacking', mine)
            prev = it.label + ' lacking'
            continue
        if act == 'partial':
            # any selection, also one without what the selected records
            # need: the outcome is that of a fresh process
            with ctx.gen():
                names = set()
                for a in it.files:
                    names |= set(a.soup.by_name())
                only = set(ctx.subset(sorted(names)))
                if ctx.p(.7):
                    dep = [x for x in DEPENDENT if x in names]
                    if dep:
                        x = ctx.pick(dep)
                        only.add(x)
                        only -= {ctx.pick(DEPENDENT[x])}
                only = sorted(only | {'IDENT', 'HIERARCH', 'IEND'})
            try:
                fs().sif2hdf5(it.path, out, only=only)
                mine = None
            except Exception as e:
                mine = type(e).__name__
            fresh, err = fresh_convert(it.path, 'fresh%d.h5' % k, only=only)
            ctx.expect(mine == fresh, 'conversion of {} of {}: {} but in a '
                       'fresh process {} {}'.format(only, it.label, mine,
                                                    fresh, err[-200:]))
            if mine is None:
                same_dump(ctx, 'selection {} vs fresh process'.format(only),
                          gdump(out), gdump('fresh%d.h5' % k))
            ctx.obs('partial_fresh')
            ctx.state(prev, it.label, 'partial', mine)
            prev = it.label + ' partial'
            continue
        # with a prefix, into a new file or next to what was converted before
        pre = ctx.pick(['', '', ctx.pick(PREFIXES)])
        kw = {'prefix': pre} if pre or ctx.p(.2) else {}

        def regroup(g):
            return pre + g
        mine = item_groups(it, regroup)
        before = []
        if ctx.p(.35):
            kw['append'] = True
            if os.path.exists('shared.h5'):
                before = groups_of('shared.h5')
            if not set(g.split('/')[0] for g in before) & set(
                    g.split('/')[0] for g in mine):
                out = 'shared.h5'
                ctx.obs('appended')
            else:
                before = []
        fs().sif2hdf5(it.path, out, **kw)
        ctx.obs('conversions')
        ctx.obs('steps', k)
        check_item(ctx, out, it, regroup)
        want = sorted(set(mine) | set(before))
        ctx.expect(groups_of(out) == want, 'groups {} expected {}'
                   .format(groups_of(out), want))
        ctx.state(prev, it.label)
        if pre or out == 'shared.h5':
            prev = it.label
            last = None
            continue
        if act == 'again':
            fs().sif2hdf5(it.path, 'again.h5')
            same_dump(ctx, 'same file converted twice', gdump(out),
                      gdump('again.h5'))
        prev = it.label
        last = (it, out)
    if ctx.p(.12) and last:
        it, out = last
        rc, err = fresh_convert(it.path, 'fresh.h5')
        ctx.expect(rc is None, 'conversion in a fresh process failed: ' + err)
        same_dump(ctx, 'history vs fresh process', gdump(out),
                  gdump('fresh.h5'))
        ctx.obs('fresh_processes')
    ctx.sample(ctx.note)


# ----------------------------------------------------------------------- C08
PREFIXES = ['', 'abc_', 'run1_', 'X-', 'test01_', 'a_b-c_']


@prop('C08', 360, 12000, need=['appends', 'datasets'],
      rule='distinct (way of combining, file kinds, prefix options)',
      assumptions=ASSUME)
def c08(ctx):
    F = fs()
    with ctx.gen():
        n = ctx.i(2, 4)
        # prefixes make the group names unique
        pref = [PREFIXES[int(k)] for k in ctx.rng.choice(
            len(PREFIXES), n, replace=False)]
        items = [make_item(ctx, 'd%d' % k, prefix=pref[k],
                           hier=ctx.p(.25)) for k in range(n)]
        mode = ctx.pick(['append', 'append', 'sequence', 'seq_separate',
                         'prefix', 'overwrite', 'clash', 'append_fail'])
        ctx.note = mode + ' ' + ' '.join(i.label + ':' + i.files[0].fname
                                         for i in items)
    ctx.state(mode, sorted(i.label for i in items))
    ctx.obs(mode)
    if mode in ('append', 'overwrite', 'append_fail'):
        parts = []
        for k, it in enumerate(items):
            # the reference for one item: alone on a file
            r = F.sif2hdf5(it.path, 'one%d.h5' % k)
            ctx.expect(r == os.path.abspath('one%d.h5' % k),
                       'returned {!r}'.format(r))
            parts.append(gdump('one%d.h5' % k))
        for k, it in enumerate(items):
            r = F.sif2hdf5(it.path, 'all.h5', append=True)
            ctx.expect(r == os.path.abspath('all.h5'),
                       'returned {!r}'.format(r))
            ctx.obs('appends')
            a, t = {}, {}
            for p in parts[:k + 1]:
                a.update(p[0])
                t.update(p[1])
            same_dump(ctx, 'after append {}'.format(k), gdump('all.h5'),
                      (a, t))
        if mode == 'overwrite':
            # by one file, or by a sequence
            k = ctx.pick([0, 1, 1, n])
            F.sif2hdf5([i.path for i in items[:k]] if k else items[0].path,
                       'all.h5')
            a, t = {}, {}
            for p in parts[:k or 1]:
                a.update(p[0])
                t.update(p[1])
            same_dump(ctx, 'append=False replaces', gdump('all.h5'), (a, t))
            ctx.obs('replaced_by_sequence', k > 0)
        if mode == 'append_fail':
            with ctx.gen():
                bad = make_item(ctx, 'bad', prefix='broken_', hier=False)
                break_file(ctx, bad.path)
            before = gdump('all.h5')
            try:
                F.sif2hdf5(bad.path, 'all.h5', append=True)
            except Exception:
                ctx.obs('failed_conversions')
            now = gdump('all.h5')
            own = '/' + bad.files[0].group
            now = ({k: v for k, v in now[0].items()
                    if not (k == own or k.startswith(own + '/'))},
                   {k: v for k, v in now[1].items() if k != own})
            same_dump(ctx, 'existing data after a failed append', now, before)
    elif mode in ('sequence', 'seq_separate'):
        # every option applies to each file of the sequence
        if ctx.p(.2):
            del items[1:], pref[1:]
            n = 1
            ctx.obs('sequence_of_one')
        paths = [i.path for i in items]
        kw = {}
        bases = [i.files[0].group[len(pref[k]):] for k, i in
                 enumerate(items)]
        pre = ctx.pick([None, 'list', 'str'])
        add = [''] * n
        if pre == 'list':
            add = ['p%d_' % k for k in range(n)]
            kw['prefix'] = ctx.pick([list, tuple])(add)
        elif pre == 'str':
            add = ['zz_'] * n
            kw['prefix'] = 'zz_'
        ufp = True
        if (pre == 'list' or len(set(bases)) == n or
                mode == 'seq_separate') and ctx.p(.5):
            ufp = False
        if not ufp or ctx.p(.2):
            kw['usefileprefix'] = ufp
        if ctx.p(.3):
            names = sorted(set(r.name for i in items for f in i.files
                               for r in f.soup.recs))
            keep = ['IDENT', 'HIERARCH', 'IEND', 'GELMNT1', 'RDPOINTS',
                    'RDSTRESS', 'RDFORCES', 'RDSTRAIN', 'RDRESREF']
            drop = ctx.pick([x for x in names if x not in keep] or ['DATE'])
            kw['only'] = [x for x in names if x != drop]
            ctx.obs('sequence_only')
        old, keepold, before = None, False, ({}, {})
        if pre == 'list' and ctx.p(.3):
            # one prefix for each file
            # (an empty list means none)
            wrong = ctx.pick([add[:-1] or add * 2, add + ['more_']])
            ctx.raises(Exception, lambda: F.sif2hdf5(paths, 'no.h5', **dict(
                kw, prefix=wrong)))
            ctx.expect(not os.path.exists('no.h5'), 'a file was written for '
                       '{} prefixes and {} files'.format(len(wrong), n))
            ctx.obs('prefixes_refused')
        if mode == 'sequence':
            if ctx.p(.7):
                with ctx.gen():
                    old = make_item(ctx, 'old', prefix='old_', hier=False)
                F.sif2hdf5(old.path, 'all.h5')
                before = gdump('all.h5')
                keepold = ctx.p(.5)
                kw['append'] = keepold
            F.sif2hdf5(ctx.pick([list, tuple])(paths), 'all.h5', **kw)
        else:
            F.sif2hdf5(ctx.pick([list, tuple])(paths), **kw)
        ctx.obs('appends', n - 1)
        want = set(item_groups(old)) if keepold else set()
        for k, it in enumerate(items):
            def rg(g, k=k):
                assert g.startswith(pref[k])
                return add[k] + (g if ufp else g[len(pref[k]):])
            h5 = 'all.h5'
            if mode == 'seq_separate':
                h5 = it.files[0].fname[:-3] + 'h5'
                ctx.expect(os.path.isfile(h5), 'no file {}: {}'.format(
                    h5, os.listdir('.')))
                want = set()
            want |= set(item_groups(it, rg))
            # the reference: the file converted alone
            one = dict(prefix=add[k], usefileprefix=ufp)
            if 'only' in kw:
                one['only'] = kw['only']
            else:
                check_item(ctx, h5, it, rg)
            F.sif2hdf5(it.path, 'one%d.hdf' % k, **one)
            now, mine = gdump(h5), gdump('one%d.hdf' % k)
            tops = set('/' + rg(f.group).split('/')[0] for f in it.files)
            same_dump(ctx, 'file {} of the sequence'.format(k), (
                {x: v for x, v in now[0].items()
                 if '/' + x.split('/')[1] in tops},
                {x: v for x, v in now[1].items()
                 if '/' + x.split('/')[1] in tops}), mine)
            if mode == 'seq_separate':
                ctx.expect(groups_of(h5) == sorted(want),
                           'groups {} expected {}'.format(groups_of(h5),
                                                          sorted(want)))
        if mode == 'sequence':
            ctx.expect(groups_of('all.h5') == sorted(want),
                       'groups {} expected {}'.format(groups_of('all.h5'),
                                                      sorted(want)))
        if keepold:
            now = gdump('all.h5')
            b0 = '/' + old.files[0].group
            same_dump(ctx, 'existing data', (
                {k: v for k, v in now[0].items()
                 if k == b0 or k.startswith(b0 + '/')},
                {k: v for k, v in now[1].items() if k == b0}), before)
    elif mode == 'prefix':
        it = items[0]
        ufp = ctx.p(.5)
        px = ctx.pick(['', 'my_', 'A'])
        F.sif2hdf5(it.path, 'o.h5', usefileprefix=ufp, prefix=px)

        def rg(g):
            top = g.split('/')
            base = top[0]
            fp = pref[0]
            assert base.startswith(fp)
            base = base[len(fp):]
            top[0] = px + (fp if ufp else '') + base
            return '/'.join(top)
        check_item(ctx, 'o.h5', it, rg)
        ctx.expect(groups_of('o.h5') == item_groups(it, rg),
                   'groups {} expected {}'.format(groups_of('o.h5'),
                                                  item_groups(it, rg)))
        ctx.obs('appends')
    elif mode == 'clash':
        # appending a data set whose group already exists must not alter
        # what is there
        F.sif2hdf5(items[0].path, 'o.h5')
        F.sif2hdf5(items[1].path, 'o.h5', append=True)
        before = gdump('o.h5')
        try:
            F.sif2hdf5(items[0].path, 'o.h5', append=True)
        except Exception:
            ctx.obs('refused')
        now = gdump('o.h5')
        keep = ({k: v for k, v in now[0].items() if k in before[0]},
                {})
        same_dump(ctx, 'existing data after a name clash', keep,
                  (before[0], {}))
        ctx.obs('appends')
        F.sif2hdf5(items[2 % n].path, 'p.h5')
        check_item(ctx, 'p.h5', items[2 % n])
    ctx.sample(ctx.note)


# ----------------------------------------------------------------------- C09
@prop('C09', 300, 6000, need=['superelements', 'levels',
                              'without_file_prefix'],
      rule='distinct shapes of the hierarchy (levels, occurrences, '
           'repetitions, missing files)', assumptions=ASSUME)
def c09(ctx):
    with ctx.gen():
        pf = ctx.pick(['', '', 'abc_', 'W-1_'])
        it = make_item(ctx, 'd', prefix=pf, hier=True,
                       unsup=ctx.pick([0, 1]), pcase=.4)
        missing = set()
        if ctx.p(.35):
            missing = set(f.fname for f in ctx.subset(it.files[1:], 1))
            for m in missing:
                os.unlink(os.path.join('d', m))
        # decoys that belong to nothing in the hierarchy
        if ctx.p(.4):
            for k in range(2):
                sp = soup.make(ctx.V, it.family, ntypes=2, seltyp=95 + k)
                S.write('d/{}{}{}.{}'.format(
                    pf, it.family, 95 + k,
                    it.files[0].fname.rsplit('.', 1)[1]), sp.recs, it.fmt)
        present = set(f.fname for f in it.files) - missing
        ctx.note = '{} {} missing {}'.format(
            it.label, [(n.iselty, n.indsel, n.islevl) for n in it.nodes],
            sorted(missing))
        appended = ctx.p(.3)
        ufp = ctx.p(.7)
        px = ctx.pick(['', '', 'a_', 'q-7_'])
        kw = {'append': appended}
        if not ufp or ctx.p(.2):
            kw['usefileprefix'] = ufp
        if px or ctx.p(.2):
            kw['prefix'] = px

    def rg(g):
        # the name of the data set of a file of the hierarchy
        assert g.startswith(pf)
        return px + (g if ufp else g[len(pf):])
    h5 = 'o.h5'
    want = item_groups(it, rg, present)
    if appended:
        with ctx.gen():
            other = make_item(ctx, 'e', prefix='other_')
        fs().sif2hdf5(other.path, h5)
        want = sorted(set(want) | set(item_groups(other)))
    here = os.getcwd()
    if ctx.p(.3):
        os.mkdir('w')
        os.chdir('w')
        fs().sif2hdf5(os.path.join('..', it.path), '../o.h5', **kw)
        os.chdir(here)
    elif ctx.p(.4):
        os.chdir('d')
        fs().sif2hdf5(it.files[0].fname, '../o.h5', **kw)
        os.chdir(here)
    elif ctx.p(.2):
        # by a link in another directory
        os.mkdir('l')
        ln = os.path.join('l', it.files[0].fname)
        os.symlink(os.path.join('..', it.path), ln)
        fs().sif2hdf5(ln, h5, **kw)
        ctx.obs('links')
    else:
        fs().sif2hdf5(os.path.abspath(it.path), h5, **kw)
    if not ufp and pf:
        ctx.obs('without_file_prefix')
    ctx.expect(groups_of(h5) == want, 'groups {} expected {}'.format(
        groups_of(h5), want))
    check_item(ctx, h5, it, rg, present)
    if appended:
        check_item(ctx, h5, other)
    _, at = gdump(h5)
    for f in it.files:
        if f.fname not in present:
            continue
        ctx.obs('superelements')
        if it.family == 'R' and f.level == 'FIRSTLEVEL':
            ctx.expect(at['/' + rg(f.group)].get('INDEX') == f.node.indsel,
                       '{}: index {} expected {}'.format(
                           rg(f.group), at['/' + rg(f.group)].get('INDEX'),
                           f.node.indsel))
    ctx.obs('levels', it.nodes[0].islevl)
    ctx.obs('missing_files', len(missing))
    ctx.state(it.label, [(n.islevl, n.indsel) for n in it.nodes],
              len(missing))
    ctx.sample(ctx.note[:300])


# ----------------------------------------------------------------------- C10
def tree_state(d):
    out = {}
    for r, ds, fsn in os.walk(d):
        for f in fsn + ds:
            p = os.path.join(r, f)
            st = os.stat(p)
            if f in fsn:
                out[os.path.relpath(p, d)] = (
                    open(p, 'rb').read(), stat.S_IMODE(st.st_mode),
                    st.st_mtime_ns)
            else:
                out[os.path.relpath(p, d)] = None
    return out


def pt_dump(h):
    """dump of an open PyTables file"""
    import tables as tb
    arrs, attrs = {}, {}
    for n in h.walk_nodes('/'):
        p = n._v_pathname
        if isinstance(n, tb.Group):
            if p != '/':
                arrs[p] = None
            a = {}
            for k in ('LEVEL', 'DATATYPE', 'SELTYP', 'FILETYPE', 'INDEX'):
                if k in n._v_attrs:
                    v = n._v_attrs[k]
                    a[k] = str(v) if isinstance(v, str) else (
                        None if v is None else int(v))
            if 'RECORDS' in n._v_attrs:
                a['RECORDS'] = list(n._v_attrs['RECORDS'])
            if a:
                attrs[p] = a
        else:
            arrs[p] = n[:]
    return arrs, attrs


@prop('C10', 350, 15000, need=['in_memory', 'datasets', 'default_names'],
      rule='distinct (file kind, encoding, presence of a file with the '
           'default output name)', assumptions=ASSUME)
def c10(ctx):
    with ctx.gen():
        it = make_item(ctx, 'd', prefix=ctx.pick(['', 'q_']),
                       unsup=ctx.pick([0, 1]))
        default = it.files[0].fname[:-3] + 'h5'
        bystander = ctx.p(.5)
        if bystander:
            with open(default, 'wb') as f:
                f.write(b'precious ' * ctx.pick([0, 7]))
        ro = ctx.p(.5)
        if ro:
            for f in it.files:
                os.chmod(os.path.join('d', f.fname), 0o444)
        # arguments that count for both
        common = {}
        if ctx.p(.4):
            common['prefix'] = ctx.pick(['', 'x_', 'N'])
        if ctx.p(.3):
            common['usefileprefix'] = bool(ctx.i(0, 1))
        if ctx.p(.3):
            names = set()
            for a in it.files:
                names |= set(a.soup.by_name())
            common['only'] = selection(ctx, names)[1]
        ctx.note = '{} {}'.format(it.label, common)
    fs().sif2hdf5(it.path, 'disk.h5', **common)
    if common:
        ctx.obs('common_arguments')
    if bystander and ctx.p(.3):
        shutil.copy('disk.h5', default)
    # the name of an output file and append are ignored
    kw = dict(common)
    if ctx.p(.3):
        kw['append'] = bool(ctx.i(0, 1))
        kw['hdf5name'] = 'ignored.h5'
    if ctx.p(.5):
        kw['hdf5name'] = ctx.pick(['disk.h5', 'ignored.h5', default])
    before = tree_state('.')
    h = fs().sif2hdf5(it.path, in_memory=True, **kw)
    if set(kw) - set(common):
        ctx.obs('ignored_arguments')
    try:
        mem = pt_dump(h)
        mid = tree_state('.')
    finally:
        h.close()
    after = tree_state('.')
    import tables as tb
    with tb.open_file('disk.h5', 'r') as g:
        disk = pt_dump(g)
    same_dump(ctx, 'in memory vs on disk', mem, disk)
    for what, st in (('during', mid), ('after', after)):
        ch = sorted(k for k in set(before) | set(st)
                    if before.get(k, 0) != st.get(k, 0))
        ctx.expect(not ch, 'in-memory conversion changed files ({}): {}'
                   .format(what, ch))
    ctx.obs('in_memory')
    # a conversion to disk touches its output only
    before = tree_state('.')
    fs().sif2hdf5(it.path, 'second.h5')
    after = tree_state('.')
    ch = sorted(k for k in set(before) | set(after)
                if before.get(k, 0) != after.get(k, 0))
    ctx.expect(ch == ['second.h5'], 'conversion to second.h5 changed '
               'files: {}'.format(ch))
    # without an output name: the name of the input with extension h5, in the
    # current directory, wherever the input is
    here = os.getcwd()
    wd = ctx.pick(['.', 'd', 'w', 'w'])
    if wd == 'w':
        os.mkdir('w')
    # (or of a link of the same name in another directory)
    src = it.path
    if ctx.p(.3):
        os.mkdir('l')
        src = os.path.join('l', os.path.basename(it.path))
        os.symlink(os.path.join(here, it.path) if ctx.p(.5) else
                   os.path.join('..', it.path), src)
        wd = ctx.pick([wd, 'l'])
        ctx.obs('links')
    before = tree_state('.')
    os.chdir(wd)
    try:
        form = ctx.pick(['relative', 'absolute'])
        r = fs().sif2hdf5(os.path.relpath(os.path.join(here, src))
                          if form == 'relative' else
                          os.path.join(here, src), **common)
    finally:
        os.chdir(here)
    out = os.path.normpath(os.path.join(wd, default))
    ctx.expect(isinstance(r, str) and os.path.isabs(r) and
               os.path.realpath(r) == os.path.realpath(out),
               'converted {} in {}: returned {!r}, expected the path of {}'
               .format(it.path, wd, r, out))
    after = tree_state('.')
    ch = sorted(k for k in set(before) | set(after)
                if before.get(k, 0) != after.get(k, 0))
    ctx.expect(ch == [out], 'conversion of {} in {} changed files: {}'.format(
        it.path, wd, ch))
    with tb.open_file(out, 'r') as g:
        same_dump(ctx, 'default name', pt_dump(g), disk)
    ctx.obs('default_names')
    ctx.state('default', wd, form)
    # and the object interface sees the same data
    if it.family == 'T' and not it.hier:
        d = fs().open_sif(it.path)
        try:
            ctx.expect(d.name == it.files[0].group, 'open_sif gave {!r}'
                       .format(d.name))
            ctx.obs('open_sif')
        finally:
            d.close()
    ctx.state(it.label, bystander, sorted(kw.items()))
    ctx.sample(ctx.note)


# ----------------------------------------------------------------------- C11
def open_fds(d):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(d + '/'):
            out.append(os.path.relpath(p, d))
    return sorted(out)


def open_tables():
    import tables as tb
    return sorted(str(x) for x in tb.file._open_files.filenames)


# records that every file has and that are always read
NUMERIC = (b'IDENT', b'HIERARCH')


def bad_output(ctx, root):
    """the output cannot be opened; the same call succeeds later"""
    import tables as tb
    F = fs()
    with ctx.gen():
        it = make_item(ctx, 'd')
        base = make_item(ctx, 'b', prefix='base_', hier=False)
        how = ctx.pick(['nodir', 'isdir', 'open', 'foreign'])
        seq = ctx.p(.3)
        ctx.note = '{} output {}'.format(it.label, how)
    out, kw, f = 'o.h5', {}, None
    if how == 'nodir':
        out = 'later/o.h5'
    elif how == 'isdir':
        os.mkdir(out)
    elif how == 'open':
        F.sif2hdf5(base.path, out)
        f = tb.open_file(out, 'r')
        kw['append'] = bool(ctx.i(0, 1))
    else:
        kw['append'] = True
        with open(out, 'wb') as g:
            g.write(b'something else ' * 80)
    fds, snap = open_fds(root), tree_state('.')
    arg = [it.path] if seq else it.path
    try:
        F.sif2hdf5(arg, out, **kw)
    except Exception as e:
        e.__traceback__ = None
        ctx.obs('failed')
    else:
        ctx.expect(False, 'an output that cannot be written is accepted')
    ctx.expect(tree_state('.') == snap, 'files changed: {}'.format(
        sorted(tree_state('.'))))
    # (PyTables itself keeps the name of a file it could not open)
    ctx.expect(open_fds(root) == fds, 'files left open: {}'.format(
        [x for x in open_fds(root) if x not in fds]))
    ctx.obs('bad_outputs')
    ctx.state('output', how, seq, it.label)
    if f is not None:
        ctx.expect(base.files[0].group in f.root and f.root._v_nchildren == 1,
                   'the file that was open has {}'.format(f.root))
        f.close()
    if how == 'nodir':
        os.mkdir('later')
    elif how == 'isdir':
        os.rmdir(out)
    elif how == 'foreign':
        os.unlink(out)
    F.sif2hdf5(arg, out, **kw)
    if how == 'open' and kw['append']:
        for a in it.files:
            check_group(ctx, out, a.group, a.soup)
        check_group(ctx, out, base.files[0].group, base.files[0].soup)
    else:
        check_item(ctx, out, it)
    ctx.obs('retries')


@prop('C11', 400, 12000, need=['failed', 'retries', 'certain', 'bad_outputs'],
      rule='distinct (kind of input, damage, outcome, way of converting)',
      assumptions=ASSUME + ['damage: truncation, foreign bytes, removed '
                            'IDENT, corrupted values, missing file'])
def c11(ctx):
    F = fs()
    root = os.path.realpath(os.getcwd())
    if ctx.p(.12):
        return bad_output(ctx, root)
    with ctx.gen():
        it = make_item(ctx, 'd')
        good = {f.fname: open(os.path.join('d', f.fname), 'rb').read()
                for f in it.files}
        victim = ctx.pick(it.files) if ctx.p(.7) else it.files[-1]
        how = ctx.pick(['cut', 'cut', 'break', 'value', 'noident', 'empty',
                        'gone', 'number', 'number', 'between'])
        if how == 'between' and it.fmt:
            how = 'number'
        if how == 'gone' and ctx.p(.6):
            victim = it.files[0]
        vp = os.path.join('d', victim.fname)
        data = good[victim.fname]
        if how == 'cut':
            data = data[:ctx.i(0, max(0, len(data) - 2))]
        elif how == 'break':
            break_file(ctx, vp)
            data = open(vp, 'rb').read()
        elif how == 'value':
            # destroy one value / length byte
            k = ctx.i(1, len(data) - 1)
            data = data[:k] + bytes([ctx.i(0, 255)]) + data[k + 1:]
        elif how == 'noident':
            recs = [r for r in victim.soup.recs
                    if r.name not in ('IDENT', 'HIERARCH')]
            data = S.encode(recs, it.fmt)
        elif how == 'empty':
            data = b''
        elif how == 'number':
            # the file ends inside a number, or a number is none
            k = ctx.i(0, len(victim.soup.recs) - 2)
            if it.fmt:
                lines = data.split(b'\n')
                k = [j for j, x in enumerate(lines) if x[:8].strip() in
                     NUMERIC]
                k = ctx.pick(k)
                x = bytearray(lines[k])
                x[8:24] = ctx.pick([b'     1.0 2.0    ', b'        x1.0E+00',
                                    b'  1.000000000+  '])
                lines[k] = bytes(x)
                data = b'\n'.join(lines)
            else:
                k = len(S.encode_unformatted(victim.soup.recs, k)) - 1
                data = data[:k + 1 + 8 + ctx.pick([1, 2, 3, 5, 6, 7, 9, 13])]
        elif how == 'between':
            # an unformatted file ends after one of its records
            k = ctx.i(1, len(victim.soup.recs) - 1)
            data = data[:len(S.encode_unformatted(victim.soup.recs, k)) - 1]
        with open(vp, 'wb') as f:
            f.write(data)
        if how == 'gone':
            os.unlink(vp)
        mode = ctx.pick(['new', 'append', 'memory', 'seq', 'open_sif'])
        ctx.note = '{} {} {} of {}'.format(it.label, how, mode,
                                           victim.fname)
        base = make_item(ctx, 'b', prefix='base_', hier=False)
    before = None
    if mode in ('append', 'seq'):
        F.sif2hdf5(base.path, 'o.h5')
        before = gdump('o.h5')
    fds = open_fds(root)
    if mode == 'new' and ctx.p(.6):
        F.sif2hdf5(base.path, 'o.h5')
    snap = tree_state('.')
    out = 'ok'
    res = None
    try:
        if mode == 'memory':
            res = F.sif2hdf5(it.path, in_memory=True)
        elif mode == 'open_sif':
            res = F.open_sif(it.path)
        elif mode == 'seq':
            F.sif2hdf5([base.path, it.path], 'o.h5')
        else:
            F.sif2hdf5(it.path, 'o.h5', append=mode == 'append')
    except Exception as e:
        out = 'raised'
        ctx.obs('failed')
        err = e
        e.__traceback__ = None
        del e
    if res is not None:
        res.close()
    ctx.state(it.label, how, mode, out)
    certain = how in ('empty', 'number', 'between') or (
        how == 'noident' and not it.hier)
    ctx.expect(out == 'raised' or not certain, '{}: an input that cannot be '
               'converted ({}) is accepted'.format(ctx.note, how))
    ctx.obs('certain' if certain else 'uncertain')
    if how == 'gone' and victim is it.files[0]:
        ctx.expect(out == 'raised', 'an input that is not there is accepted')
        if mode != 'seq':
            now = tree_state('.')
            ch = sorted(k for k in set(snap) | set(now)
                        if snap.get(k, 0) != now.get(k, 0))
            ctx.expect(not ch, 'a missing input changed files: {}'.format(ch))
            ctx.obs('gone')
    # everything is released
    if mode == 'open_sif' and out == 'raised':
        # the converted data may be in memory; only the sources count
        now = [x for x in open_fds(root) if not x.endswith('.h5')]
    else:
        now = open_fds(root)
    ctx.expect(now == fds, 'files left open after a {} conversion: {}'.format(
        'failed' if out == 'raised' else 'complete',
        [x for x in now if x not in fds]))
    if mode != 'open_sif':
        ctx.expect(not open_tables(), 'HDF5 files left open: {}'.format(
            open_tables()))
    if before is not None:
        nowd = gdump('o.h5')
        b0 = '/' + base.files[0].group
        same_dump(ctx, 'data present before the failure', (
            {k: v for k, v in nowd[0].items()
             if k == b0 or k.startswith(b0 + '/')},
            {k: v for k, v in nowd[1].items() if k == b0}), before)
        ctx.obs('kept_datasets', len(before[0]))
    if mode == 'open_sif':
        from vlib.runner import _close_leftovers
        _close_leftovers()
    # repair the input: the same call works
    with ctx.gen():
        for nm, b in good.items():
            with open(os.path.join('d', nm), 'wb') as f:
                f.write(b)
    F.sif2hdf5(it.path, 'o.h5')
    check_item(ctx, 'o.h5', it)
    ctx.expect(groups_of('o.h5') == item_groups(it), 'groups {} expected {}'
               .format(groups_of('o.h5'), item_groups(it)))
    ctx.obs('retries')
    ctx.sample(ctx.note)


# ----------------------------------------------------------------------- C12
def rand_case(ctx, s, how):
    if how == 'upper':
        return s.upper()
    if how == 'lower':
        return s.lower()
    return ''.join(c.upper() if ctx.p(.5) else c.lower() for c in s)


@prop('C12', 3000, 90000, need=['accepted', 'refused'],
      rule='distinct (letter, extension, case, prefix kind) accepted and '
           'kinds of names refused', assumptions=ASSUME)
def c12(ctx):
    F = fs()
    if ctx.p(.55):
        with ctx.gen():
            fam = ctx.pick(['T', 'L', 'R', 'G'])
            fmt = bool(ctx.i(0, 1))
            num = ctx.pick([1, 7, 10, 100, 999])
            ext = ctx.pick({'T': ['FEM'], 'L': ['FEM'],
                            'R': ['SIF', 'SIU'], 'G': ['SIF', 'SIU']}[fam])
            if ctx.p(.15):
                # every known extension with every letter
                ext = ctx.pick(['FEM', 'SIF', 'SIU'])
            if ctx.p(.2):
                num = ctx.i(1, 99999)
            case = ctx.pick(['upper', 'lower', 'mixed'])
            pf = ctx.pick(['', 'x_', 'run-2_', 'RTGL_', 'r2d2_', 'T1_',
                           'Job_7-', 'x', 'Model', '12', '-', '_', '3-',
                           'a' * 40])
            sfx = ctx.pick(['', '', 'H{}'.format(10 ** ctx.i(0, 5) +
                                             ctx.i(0, 8))]) \
                if fam == 'R' else ''
            nm = pf + rand_case(ctx, '{}{}{}.{}'.format(fam, num, sfx, ext),
                                case)
            sp = soup.make(ctx.V, 'T' if fam == 'L' else fam, ntypes=3,
                           seltyp=num)
            S.write(nm, sp.recs, fmt)
            ctx.note = nm
        # the shortest prefix wins, so a prefix that itself looks like a
        # complete name is not used here
        r = F.sif2hdf5(nm)
        h5 = os.path.join(os.getcwd(), nm[:-3] + 'h5')
        ctx.expect(os.path.realpath(r) == os.path.realpath(h5) and
                   os.path.isfile(h5), '{}: returned {!r}'.format(nm, r))
        grp = '{}{}{}'.format(pf, fam, num)
        ctx.expect(groups_of(h5) == [grp], '{}: groups {} expected {}'.format(
            nm, groups_of(h5), [grp]))
        check_group(ctx, h5, grp, sp)
        ctx.obs('accepted')
        ctx.state(fam, ext, case, bool(pf), fmt)
    else:
        with ctx.gen():
            kind = ctx.pick(['sin', 'noletter', 'noext', 'zero', 'nonum',
                             'nodot', 'more', 'gap', 'hindex',
                             'type', 'append', 'seqmem', 'gone'])
            sp = soup.make(ctx.V, 'T', ntypes=2, seltyp=1)
        exc = ValueError
        kw = {}
        if kind == 'sin':
            nm = ctx.pick(['R1.SIN', 'abc_R1.sin', 'R100.Sin'])
        elif kind == 'noletter':
            nm = ctx.pick(['X1.SIF', '1.SIF', 'A7.FEM', 'Q9.SIU'])
        elif kind == 'noext':
            nm = ctx.pick(['T1.TXT', 'R1.DAT', 'T1.FE', 'T1', 'R2.SIX',
                           'T1.INP'])
        elif kind == 'zero':
            nm = ctx.pick(['T0.FEM', 'R01.SIF', 'G0.SIF'])
        elif kind == 'nonum':
            nm = ctx.pick(['T.FEM', 'R.SIF', 'Tx.FEM', 'TH1.FEM'])
        elif kind == 'nodot':
            nm = ctx.pick(['T1xFEM', 'T1-FEM', 'R1_SIF', 'G1 SIF', 'T1FEM',
                           'x_R12,SIU', 'R1H1_SIF', 't1xfem'])
        elif kind == 'more':
            nm = ctx.pick(['T1.FEMx', 'T1.FEM.bak', 'R1.SIF~', 'G1.SIF.gz',
                           'R1.SIU1', 'T1.FEM.FEM', 'T1.FEM.h5', 'r1.sif_'])
        elif kind == 'gap':
            nm = ctx.pick(['T 1.FEM', 'T1 .FEM', 'T1. FEM', 'a b_T1.FEM',
                           'R1.2.SIF', 'T1..FEM', 'x.y_T1.FEM', 'T-1.FEM',
                           'T+1.FEM'])
        elif kind == 'hindex':
            nm = ctx.pick(['R1H.SIF', 'R1H0.SIF', 'R1H01.SIU', 'R1K2.SIF',
                           'R1H1H2.SIF', 'T1_.FEM'])
        elif kind == 'append':
            nm, kw = 'T1.FEM', {'append': True}
        elif kind == 'type':
            nm, exc = ctx.pick([5, None, 1.5, {'T1.FEM': 1}]), TypeError
        elif kind == 'seqmem':
            nm, exc, kw = ['T1.FEM'], TypeError, {'in_memory': True}
        elif kind == 'gone':
            nm, exc = 'T1.FEM', (OSError, IOError)
        with ctx.gen():
            if kind not in ('gone', 'type'):
                for x in ([nm] if isinstance(nm, str) else nm):
                    S.write(x, sp.recs, True)
            out = ctx.pick(['out.h5', None])
            if kind in ('append',):
                out = None
            pre = ctx.p(.5)
            if pre and out:
                with open(out, 'wb') as f:
                    f.write(b'keep me')
            mem = kind in ('sin', 'noletter', 'noext', 'zero', 'nonum',
                           'nodot', 'more', 'gap', 'hindex') and ctx.p(.3)
        before = tree_state('.')
        if mem:
            # the same by the ways which make no file
            if ctx.p(.5):
                ctx.raises(exc, F.sif2hdf5, nm, in_memory=True)
            else:
                ctx.raises(exc, F.open_sif, nm)
            ctx.obs('refused_in_memory')
        else:
            if out:
                kw['hdf5name'] = out
            ctx.raises(exc, F.sif2hdf5, nm, **kw)
        ctx.expect(tree_state('.') == before,
                   'refused {!r}, but files changed: {}'.format(
                       nm, sorted(tree_state('.'))))
        ctx.obs('refused')
        ctx.state('refused', kind)
