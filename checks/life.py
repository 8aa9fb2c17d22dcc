"""Life of files and data objects: L01..L05, F01."""
import hashlib
import os

import numpy as np

from vlib import asm as A
from vlib import fem
from vlib import hyd
from vlib import sif as S
from vlib import soup
from vlib.runner import prop
from checks.conv import ASSUME, fs, open_fds, open_tables
from checks import struc, hydro

LASSUME = ASSUME


def q(name, *a, **k):
    label = '{}{}'.format(name, (a, k))
    return label, lambda d: getattr(d, name)(*a, **k)


def struct_queries(ctx, m):
    out = [q('get_setnames'), q('get_nodes'), q('get_elements'),
           q('get_nodenumbers'), q('get_elementnumbers'),
           q('get_section_properties'), q('get_shell_thicknesses'),
           q('get_nodes', trans=np.array(A.S_affine(ctx.rng)))]
    for s in struc.selections(ctx, m, 5):
        out += [q('get_nodes', **s.kw()), q('get_elements', **s.kw()),
                q('get_nodenumbers', **s.kw()),
                q('get_elementnumbers', sets=s.sets, kind=s.kind)]
        if m.family == 'R':
            kw, _, _ = struc.case_sel(ctx, m)
            out.append(q('get_noderesults', 'displacement',
                         **dict(kw, **s.kw())))
    if m.family == 'R':
        out.append(q('get_resultcase_names'))
        for rt in ('beamforce', 'generalstress', 'decomposedstress'):
            kw, _, _ = struc.case_sel(ctx, m)
            out.append(q('get_elementresults', rt, **kw))
    return out


def hydro_queries(ctx, h):
    out = [q('get_angular_freqs'), q('get_periods'), q('get_directions'),
           q('get_directions', 'radians'), q('get_timesteps'),
           q('get_sections'), q('get_points'),
           q('get_fluidkinematics_raos'),
           q('get_fluidkinematics_raos', 'velocity'),
           q('get_fluidkinematics_raos', 'pressure')]
    for b in h.bodies:
        for f in ('get_bodyproperties', 'get_motion_raos',
                  'get_excitationforce_raos', 'get_sectionforce_raos',
                  'get_meandrift', 'get_horiz_meandrift',
                  'get_panel_pressures', 'get_pressure_panel_ids'):
            out.append(q(f, b))
        for t, f in sorted(hydro.MAT.items()):
            out.append(q(f, b, h.bodies[0]))
            out.append(q('get_matrix', t, b))
    return out


class Thing(object):
    """an input file with the data sets it holds and queries on them"""


def make_thing(ctx, d, kind=None, num=None, like=None):
    """like: another thing whose names it shall have"""
    t = Thing()
    os.makedirs(d, exist_ok=True)
    if like is not None:
        kind = like.kind
    t.kind = kind or ctx.pick(['T', 'R', 'G', 'G', 'asm'])
    num = num or ctx.i(1, 99)
    fmt = bool(ctx.i(0, 1))
    lc, xc = A.file_case(ctx.V)
    t.queries = {}
    t.levels = {}
    if t.kind == 'G':
        h = hyd.make(ctx.V, ctx.pick(['frequency', 'frequency',
                                      'frequency', 'time']))
        t.fname = lc('G') + '%d.' % num + xc('SIF')
        S.write(os.path.join(d, t.fname), hyd.records(h, num), fmt)
        t.queries['G%d' % num] = hydro_queries(ctx, h)
        t.levels['G%d' % num] = 'hydro'
    elif t.kind in 'TR':
        m = fem.make(ctx.V, t.kind, nelem=ctx.i(2, 10))
        t.fname = '%s%d.%s' % (lc(t.kind), num, xc(
            'FEM' if t.kind == 'T' else ctx.pick(['SIF', 'SIU'])))
        S.write(os.path.join(d, t.fname), fem.records(m, num), fmt)
        g = '%s%d' % (t.kind, num)
        t.queries[g] = struct_queries(ctx, m)
        t.levels[g] = 'first'
    else:
        models = {}

        def lower(n, hd):
            m = fem.make(ctx.V, fam, nelem=ctx.i(2, 5))
            hh = list(hd)
            if fam == 'R':
                hh.append(S.rec_xsuptran(None, 'RSUPTRAN', 3,
                                         A.total_transform(n)))
            models[n.ihref] = m
            return soup.Soup(fam, n.iselty, fem.records(m, n.iselty, hh))
        fam = like.family if like else ctx.pick(['T', 'R'])
        fam, nodes, files = A.make(ctx.V, fam, lower=lower,
                                   case=(lc, xc),
                                   like=like and like.nodes)
        t.family, t.nodes = fam, nodes
        for a in files:
            S.write(os.path.join(d, a.fname), a.soup.recs, fmt)
            if a.level == 'FIRSTLEVEL':
                qs = struct_queries(ctx, models[a.node.ihref])
                qs += [q('get_nodes', trans='top'), q('get_nodes', trans=1)]
                t.queries[a.group] = qs
                t.levels[a.group] = 'first'
            elif a.level == 'TOPLEVEL':
                t.levels[a.group] = 'top'
                qs = [q('get_setnames')]
                for n in nodes:
                    if n.islevl == 1:
                        qs.append(q('get_transformation', n.iselty,
                                    n.indsel))
                        qs.append(q('get_transformation', n.iselty,
                                    n.indsel, ctx.i(1, 3)))
                t.queries[a.group] = qs
            else:
                t.levels[a.group] = 'inter'
                t.queries[a.group] = [q('get_setnames')]
        t.fname = files[0].fname
    t.path = os.path.join(d, t.fname)
    t.top = sorted(t.queries, key=len)[0]
    t.dir = d
    return t


def freeze(r):
    """an independent picture of an answer"""
    if isinstance(r, np.ndarray):
        if r.dtype.names:       # by field: padding holds anything
            return ('record array', r.shape,
                    tuple((n, freeze(np.ascontiguousarray(r[n])))
                          for n in r.dtype.names))
        return ('array', r.shape, r.dtype.str,
                np.array(r, copy=True).tobytes())
    if isinstance(r, (list, tuple)):
        return (type(r).__name__, tuple(freeze(x) for x in r))
    if isinstance(r, dict):
        return ('dict', tuple(sorted((str(k), freeze(v))
                                     for k, v in r.items())))
    if isinstance(r, np.generic):
        return ('scalar',) + freeze(np.asarray(r))[1:]
    return ('plain', repr(r))


def ask(fn, d):
    """-> (picture, answer)"""
    try:
        r = fn(d)
    except Exception as e:
        return ('raised', type(e).__name__), None
    return freeze(r), r


def scribble(r, rng):
    """what a caller may do with an array it was given"""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.size:
            if r.dtype.names:
                r[:] = np.zeros((), r.dtype)
            elif r.dtype.kind in 'SU':
                r[...] = b'zz'
            else:
                r[...] = r[...] * 0 + int(rng.integers(2, 99))
            return 1
        return 0
    if isinstance(r, (list, tuple)):
        n = sum(scribble(x, rng) for x in r)
        if isinstance(r, list):
            del r[:]
            n += 1
        return n
    if isinstance(r, dict):
        n = sum(scribble(x, rng) for x in r.values())
        r.clear()
        return n + 1
    return 0


def digest(p):
    return hashlib.sha1(open(p, 'rb').read()).hexdigest()


def closed_answers(ctx, what, d, queries, level):
    """everything a closed data object does"""
    from freesif.exceptions import ClosedFileError
    for label, fn in queries:
        try:
            r = fn(d)
        except ClosedFileError:
            ctx.obs('refused')
            continue
        except Exception as e:
            ctx.fail('{} {} on a closed object: {!r}'.format(what, label, e))
        ctx.fail('{} {} on a closed object returned {!r}'.format(
            what, label, str(r)[:80]))
    for s in (str(d), repr(d)):
        ctx.expect('closed' in s.lower(), '{}: closed object shows as '
                   '{!r}'.format(what, s))
    ctx.expect(d.close() is None, 'close() of a closed object')


def cannot_open(ctx):
    """a file that cannot be opened as data does not stay open"""
    import h5py
    from freesif.data.file import File
    F = fs()
    with ctx.gen():
        why = ctx.pick(['without', 'foreign', 'name'])
        kind = 'G' if why == 'without' else ctx.pick(['T', 'R', 'G'])
        t = make_thing(ctx, 'd', kind)
        ctx.note = 'cannot open: {} {}'.format(why, t.fname)
    if why == 'name':
        # the number of the data set is not that of the file name
        p = os.path.join('d', t.fname.replace('.', '7.', 1))
        os.rename(t.path, p)

        def op():
            return F.open_sif(p).file
    elif why == 'without':
        F.sif2hdf5(t.path, 'x.h5')
        with h5py.File('x.h5', 'r') as h:
            have = sorted(h[t.top])
        drop = ctx.subset([x for x in have if x in (
            'WDRESREF', 'WGLOBDEF', 'WBODY', 'WBODCON', 'WFKPOINT')], 1)
        keep = [x for x in have if x not in drop] + ['IDENT']
        mem = ctx.p(.4)
        tb = F.sif2hdf5(t.path, 'x.h5', only=keep) if not mem else \
            F.sif2hdf5(t.path, only=keep, in_memory=True)

        def op():
            return File(tb) if mem else F.open_hdf5('x.h5')
    else:
        F.sif2hdf5(t.path, 'x.h5')
        with h5py.File('x.h5', 'r+') as h:
            h.create_group(ctx.pick(['aaa', 'zzz'])).create_dataset(
                'numbers', data=[1., 2.])

        def op():
            return F.open_hdf5('x.h5')
    try:
        f = op()
    except Exception:
        ctx.obs('not_openable')
        ctx.state('cannot open', why, kind)
    else:
        f.close()
    ctx.expect(not open_tables(), 'still open: {}'.format(open_tables()))
    ctx.expect(not open_fds(os.path.realpath('.')), 'still open: {}'.format(
        open_fds(os.path.realpath('.'))))
    # the file can be replaced
    F.sif2hdf5(p if why == 'name' else t.path, 'x.h5')
    f = F.open_hdf5('x.h5')
    r, _ = ask(t.queries[t.top][0][1], f[t.top])
    f.close()


@prop('L01', 500, 25000, need=['refused', 'closed'],
      rule='distinct (kind of data, level, way of opening, way of closing)',
      assumptions=LASSUME)
def l01(ctx):
    from freesif.data.file import File, close_all_files
    from freesif.exceptions import ClosedFileError
    F = fs()
    if ctx.p(.12):
        return cannot_open(ctx)
    with ctx.gen():
        t = make_thing(ctx, 'd')
        ctx.note = t.fname
    way = ctx.pick(['file', 'file', 'mem', 'sif'])
    if way == 'sif':
        d = F.open_sif(t.path)
        f = d.file
    elif way == 'mem':
        f = File(F.sif2hdf5(t.path, in_memory=True))
    else:
        F.sif2hdf5(t.path, 'x.h5')
        f = F.open_hdf5('x.h5')
    objs = dict(f.items())
    ctx.expect(sorted(objs) == sorted(t.queries), 'data sets {} expected '
               '{}'.format(sorted(objs), sorted(t.queries)))
    # other files that are open, of the same name too
    others = []
    if ctx.p(.5):
        os.mkdir('e')
        F.sif2hdf5(t.path, 'e/x.h5')
        for _ in range(ctx.i(1, 2)):
            p = ctx.pick(['e/x.h5', 'x.h5'] if way == 'file'
                         else ['e/x.h5'])
            others.append(F.open_hdf5(p))
    # in use before it is closed
    g = ctx.pick(sorted(objs))
    for label, fn in t.queries[g][:3]:
        ask(fn, objs[g])
    how = ctx.pick(['file', 'data', 'all', 'file'])
    if how == 'file':
        f.close()
    elif how == 'data':
        objs[ctx.pick(sorted(objs))].close()
    else:
        close_all_files()
    for o in others:
        if how == 'all':
            ctx.raises(ClosedFileError, o.keys)
            ctx.raises(ClosedFileError, lambda: o[t.top])
            ctx.obs('refused', 2)
        else:
            ctx.expect(sorted(o.keys()) == sorted(t.queries), 'another open '
                       'file has {}'.format(sorted(o.keys())))
    for g, d in sorted(objs.items()):
        closed_answers(ctx, g, d, [x for x in t.queries[g]], t.levels[g])
        ctx.state(t.kind, t.levels[g], way, how)
        ctx.obs('closed')
    for label, fn in (('[]', lambda: f[t.top]), ('get', lambda: f.get('x')),
                      ('keys', lambda: f.keys()), ('iter', lambda: iter(f)),
                      ('values', lambda: f.values()),
                      ('items', lambda: f.items()),
                      ('in', lambda: t.top in f)):
        ctx.raises(ClosedFileError, fn)
        ctx.obs('refused')
    for s in (str(f), repr(f)):
        ctx.expect('closed' in s.lower(), 'closed file shows as {!r}'.format(
            s))
    ctx.expect(f.close() is None, 'close() of a closed file')
    close_all_files()
    ctx.expect(not open_tables(), 'still open: {}'.format(open_tables()))
    ctx.expect(not open_fds(os.path.realpath('.')), 'still open: {}'.format(
        open_fds(os.path.realpath('.'))))
    if way == 'file':
        # the file is free again
        f = F.open_hdf5('x.h5')
        r, _ = ask(t.queries[t.top][0][1], f[t.top])
        f.close()
        F.sif2hdf5(t.path, 'x.h5')


@prop('L02', 300, 10000, need=['answers', 'closings', 'opened'],
      rule='distinct (operation, number of open files, kind of data)',
      assumptions=LASSUME + ['files open in memory at the same time have '
                             'different names (documented limit)'])
def l02(ctx):
    from freesif.data.file import close_all_files, File
    F = fs()
    with ctx.gen():
        kind = num = None
        if ctx.p(.5):
            # the same names in different directories
            kind, num = ctx.pick(['T', 'R', 'G', 'G', 'asm']), ctx.i(1, 9)
        things = [make_thing(ctx, 'd0', kind, num)]
        for k in range(1, ctx.i(1, 3)):
            things.append(make_thing(ctx, 'd%d' % k, kind, num,
                                     things[0] if kind == 'asm' else None))
        own = ctx.pick([0, 1, 1])
    base = []
    h5 = ['d%d/%s' % (k, t.fname[:-3] + 'h5') if own else 'x%d.h5' % k
          for k, t in enumerate(things)]
    for k, t in enumerate(things):
        F.sif2hdf5(t.path, h5[k])
        f = F.open_hdf5(h5[k])
        base.append({g: [ask(fn, f[g])[0] for _, fn in qs]
                     for g, qs in t.queries.items()})
        f.close()
    handles = []        # [thing index, File, way]
    closed = []
    log = []
    for step in range(ctx.i(6, 20)):
        op = ctx.pick(['open', 'open', 'mem', 'query', 'query', 'query',
                       'close', 'dataclose', 'convert', 'closeall',
                       'deadquery'])
        if op == 'closeall' and ctx.p(.6):
            op = 'query'
        log.append(op)
        ctx.note = ' '.join('{}{}'.format(t.kind, t.fname)
                            for t in things) + ': ' + ' '.join(log)
        k = ctx.i(0, len(things) - 1)
        t = things[k]
        if op == 'open':
            handles.append((k, F.open_hdf5(h5[k]), 'file'))
            ctx.obs('opened')
        elif op == 'mem':
            if any(h[2] == 'mem' and
                   things[h[0]].fname[:-3] == t.fname[:-3]
                   for h in handles):
                continue
            where = os.getcwd()
            if own and ctx.p(.4):
                # a file of that name is in the directory
                os.chdir(t.dir)
                t = things[k]
                path = t.fname
            else:
                path = t.path
            if t.levels[t.top] != 'top' and ctx.p(.5):
                f = F.open_sif(path).file
            else:
                f = File(F.sif2hdf5(path, in_memory=True))
            os.chdir(where)
            handles.append((k, f, 'mem'))
            ctx.obs('opened')
        elif op == 'convert':
            F.sif2hdf5(t.path, 'y%d.h5' % step)
        elif op == 'close' and handles:
            h = handles.pop(ctx.i(0, len(handles) - 1))
            objs = dict(h[1].items())
            h[1].close()
            closed.append((h[0], objs))
            ctx.obs('closings')
        elif op == 'dataclose' and handles:
            h = handles.pop(ctx.i(0, len(handles) - 1))
            objs = dict(h[1].items())
            objs[ctx.pick(sorted(objs))].close()
            closed.append((h[0], objs))
            ctx.obs('closings')
        elif op == 'closeall':
            for h in handles:
                closed.append((h[0], dict(h[1].items())))
            close_all_files()
            handles = []
            ctx.expect(not open_tables(), 'still open: {}'.format(
                open_tables()))
            ctx.obs('closings')
        elif op == 'deadquery' and closed:
            k, objs = ctx.pick(closed)
            g = ctx.pick(sorted(objs))
            closed_answers(ctx, g, objs[g],
                           [ctx.pick(things[k].queries[g])],
                           things[k].levels[g])
        # every open file answers as if it were alone
        for k, f, way in handles:
            t = things[k]
            g = ctx.pick(sorted(t.queries))
            j = ctx.i(0, len(t.queries[g]) - 1)
            label, fn = t.queries[g][j]
            got, _ = ask(fn, f[g])
            ctx.expect(got == base[k][g][j], '{} {} after {}: {} instead of '
                       '{}'.format(g, label, log[-3:], str(got)[:120],
                                   str(base[k][g][j])[:120]))
            ctx.obs('answers')
            ctx.state(op, len(handles), t.kind, way)
    close_all_files()
    ctx.expect(not open_tables() and not open_fds(os.path.realpath('.')),
               'still open: {} {}'.format(open_tables(),
                                          open_fds(os.path.realpath('.'))))


@prop('L03', 250, 8000, need=['repeats', 'scribbled'],
      rule='distinct (query, kind of data, way of opening)',
      assumptions=LASSUME)
def l03(ctx):
    F = fs()
    with ctx.gen():
        t = make_thing(ctx, 'd')
        ctx.note = t.fname
    way = ctx.pick(['file', 'file', 'mem'])
    if way == 'mem':
        from freesif.data.file import File
        f = File(F.sif2hdf5(t.path, in_memory=True))
    else:
        F.sif2hdf5(t.path, 'x.h5')
        if ctx.p(.5):
            os.chmod('x.h5', 0o444)
        f = F.open_hdf5('x.h5')
        before = digest('x.h5')
    src = digest(t.path)
    todo = [(g, j) for g in t.queries for j in range(len(t.queries[g]))]
    first = {}
    for n in range(2 * len(todo) + 10):
        g, j = todo[n] if n < len(todo) else ctx.pick(todo)
        label, fn = t.queries[g][j]
        pic, r = ask(fn, f[g])
        if (g, j) in first:
            ctx.obs('repeats')
            ctx.expect(pic == first[g, j], '{} {}: another answer the second '
                       'time: {} instead of {}'.format(
                           g, label, str(pic)[:150],
                           str(first[g, j])[:150]))
        else:
            first[g, j] = pic
        ctx.obs('comparisons')
        if r is not None and ctx.p(.7):
            ctx.obs('scribbled', scribble(r, ctx.rng))
        ctx.state(label.split('(')[0], t.kind, way)
    f.close()
    if way != 'mem':
        ctx.expect(digest('x.h5') == before, 'the file was changed by '
                   'queries')
    ctx.expect(digest(t.path) == src, 'the input was changed')


@prop('L04', 200, 6000, need=['answers'],
      rule='distinct (query, kind of data)', assumptions=LASSUME)
def l04(ctx):
    """the same answers by every way to the data"""
    from freesif.data.file import File
    F = fs()
    with ctx.gen():
        t = make_thing(ctx, 'd')
        mine = ''.join(c for c in t.fname.split('.')[0] if c.isdigit())
        other = make_thing(ctx, 'e', num=ctx.i(100, 199))
        # (one and the same name cannot be given twice)
        apart = not (set(g.split('/')[0] for g in t.queries) &
                     set(g.split('/')[0] for g in other.queries))
        twin = None
        if t.kind != 'asm' and ctx.p(.4):
            twin = make_thing(ctx, 'w', t.kind, int(mine))
        ctx.note = t.fname
    ways = {}
    F.sif2hdf5(t.path, 'x.h5')
    ways['file'] = F.open_hdf5('x.h5')
    F.sif2hdf5(other.path, 'y.h5')
    F.sif2hdf5(t.path, 'y.h5', append=True, prefix='p_') \
        if ctx.p(.5) or not apart else \
        F.sif2hdf5([t.path, other.path], 'y.h5', prefix='p_')
    ways['shared'] = F.open_hdf5('y.h5')
    ways['mem'] = File(F.sif2hdf5(t.path, in_memory=True))
    # another file of a name that is there in several directories
    os.makedirs('sub/dir')
    h5 = ctx.pick(['sub/y.h5', './sub/y.h5', 'sub/dir/y.h5', 'sub/../x.h5',
                   os.path.abspath('sub/dir/y.h5'), 'sub/y'])
    if h5 != 'sub/../x.h5':
        F.sif2hdf5(t.path, h5)
    ways['path'] = F.open_hdf5(h5)
    for g in t.queries:
        for label, fn in t.queries[g]:
            ref, _ = ask(fn, ways['file'][g])
            for w in ('shared', 'mem', 'path'):
                gg = 'p_' + g if w == 'shared' else g
                got, _ = ask(fn, ways[w][gg])
                ctx.expect(got == ref, '{} {}: {} {} but {} from a file of '
                           'its own'.format(g, label, w, str(got)[:120],
                                            str(ref)[:120]))
                ctx.obs('answers')
            ctx.state(label.split('(')[0], t.kind)
    ways['mem'].close()
    # open_sif gives the data set named like the file, also while another
    # file of that name is open
    if twin:
        h5 = 'w/' + t.fname[:-3] + 'h5'
        F.sif2hdf5(twin.path, h5)
        ways['twin'] = F.open_hdf5(h5)
        ctx.obs('twins')
    src = t.path
    if ctx.p(.3):
        # a link, of any name, to the file
        os.mkdir('l')
        src = 'l/' + ctx.pick([t.fname, 'model', 'x_T1.FEM', 'q_' + t.fname,
                               'R777.SIF', t.fname + '.old'])
        os.symlink(os.path.abspath(t.path), src)
        ctx.obs('links')
    d = F.open_sif(src)
    ctx.expect(d.name == t.top, 'open_sif gave {!r} for {}'.format(
        d.name, t.fname))
    for label, fn in t.queries[t.top]:
        got, _ = ask(fn, d)
        ref, _ = ask(fn, ways['file'][t.top])
        ctx.expect(got == ref, 'open_sif {} {}'.format(t.top, label))
        ctx.obs('answers')
    d.close()
    for f in ways.values():
        f.close()


@prop('F01', 400, 18000, need=['datasets', 'absent'],
      rule='distinct (kinds of data sets in one file, number)',
      assumptions=LASSUME)
def f01(ctx):
    F = fs()
    with ctx.gen():
        things = [make_thing(ctx, 'd%d' % k) for k in range(ctx.i(1, 3))]
        pf = ['', 'b_', 'c-1_']
    want = {}
    for k, t in enumerate(things):
        F.sif2hdf5(t.path, 'x.h5', append=k > 0, prefix=pf[k])
        for g in t.queries:
            want[pf[k] + g] = (t, g)
    ctx.note = ' '.join(sorted(want))
    f = F.open_hdf5('x.h5')
    ctx.expect(sorted(f.keys()) == sorted(want), 'keys {} expected {}'.format(
        sorted(f.keys()), sorted(want)))
    ctx.expect(sorted(k for k, _ in f.items()) == sorted(want), 'items')
    vals = list(f.values())
    its = list(f)
    ctx.expect(len(vals) == len(want) and len(its) == len(want),
               '{} values, {} iterated, expected {}'.format(
                   len(vals), len(its), len(want)))
    ctx.expect(set(map(id, vals)) == set(map(id, its)),
               'iteration gives other objects than values()')
    for k, v in f.items():
        t, g = want[k]
        ctx.expect(k in f and f[k] is v and f.get(k) is v and
                   f.get(k, 5) is v and f.get(k, k + 'x') is v,
                   'access to {}'.format(k))
        ctx.expect(v.name == k.split('/')[-1], 'name of {} is {}'.format(
            k, v.name))
        lev = t.levels[g]
        ctx.expect(v.file is f, 'file of {}'.format(k))
        text = {'first': 'first', 'top': 'top', 'inter': 'inter',
                'hydro': 'hydro'}[lev]
        ctx.expect(str(v).startswith(text), '{} is {!r}'.format(k, str(v)))
        ctx.expect(v.name in repr(v), 'repr {!r}'.format(repr(v)))
        ctx.expect(k in str(f) and v.name in repr(f), 'text of the file')
        # it is the right kind of object
        has = {'first': 'get_elementresults', 'top': 'get_transformation',
               'hydro': 'get_motion_raos', 'inter': 'get_setnames'}[lev]
        ctx.expect(hasattr(v, has), '{} has no {}'.format(k, has))
        ctx.obs('datasets')
    a = ctx.pick(sorted(want))
    for x in ('', 'nope', a + 'x', 'T0', a.lower(), a.swapcase(), a[:-1],
              ' ' + a, a + ' ', 'x' + a, '/' + a, a + '/', a.split('/')[-1]):
        if x in want:
            continue
        ctx.expect(x not in f and f.get(x) is None and f.get(x, 7) == 7 and
                   f.get(x, a) == a and f.get(x, '') == '',
                   'absent {!r}'.format(x))
        ctx.raises(KeyError, f.__getitem__, x)
        ctx.obs('absent')
    ctx.state(sorted(t.kind for t in things), len(want))
    f.close()
    ctx.raises(Exception, F.open_hdf5, 'not_there.h5')
    ctx.expect(not os.path.exists('not_there.h5'), 'opening created a file')
