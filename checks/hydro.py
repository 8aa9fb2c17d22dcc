"""Hydrodynamic data: H01..H07."""
import numpy as np

from vlib import hyd
from vlib import sif as S
from vlib.runner import prop
from checks.conv import ASSUME
from checks.struc import reach

HASSUME = ASSUME + [
    'results are stored by increasing result reference number, directions '
    'outermost, as the analysis programs write them']


def opened(ctx, domain='frequency', have=None, nbody=None):
    with ctx.gen():
        h = hyd.make(ctx.V, domain, nbody, have)
        num = ctx.i(1, 99)
        fmt = bool(ctx.i(0, 1))
        fn = 'G%d.%s' % (num, ctx.pick(['SIF', 'SIU']))
        recs = hyd.records(h, num)
        if ctx.p(.4):
            recs = recs[:1] + S.with_directory(recs[1:], ctx.rng,
                                               0. if fmt else .3)
        S.write(fn, recs, fmt)
        ctx.note = '{} bodies {} dirs {} freqs {} times {}'.format(
            fn, h.cond, h.dirs, h.freqs, h.times)
    d, close = reach(ctx, fn, 'G%d' % num)
    return h, d, close


def close_to(ctx, what, got, want, tol=2e-6):
    """relative to each value"""
    g, w = np.asarray(got), np.asarray(want)
    ctx.expect(g.shape == w.shape, '{}: shape {} expected {}'.format(
        what, g.shape, w.shape))
    ctx.obs('values', w.size)
    with np.errstate(all='ignore'):
        ok = (np.abs(g - w) <= tol * np.abs(w) + 1e-30) | (g == w)
    if not np.all(ok):
        ix = tuple(int(x) for x in np.argwhere(~ok)[0])
        ctx.fail('{}: {!r} at {} expected {!r}'.format(what, g[ix], ix,
                                                       w[ix]))


def body_kw(ctx, b):
    if ctx.p(.1):
        b = ctx.pick([np.int32, np.int64])(b)
    return {} if b == 1 and ctx.p(.5) else {'bodyid': b}


@prop('H01', 3000, 120000, need=['freq_files', 'time_files'],
      rule='distinct (domain, number of directions, of frequencies, order)',
      assumptions=HASSUME)
def h01(ctx):
    from freesif.exceptions import ResultError
    dom = ctx.pick(['frequency', 'frequency', 'time'])
    h, d, close = opened(ctx, dom, have=['WSECTION', 'WFKPOINT', 'WBODY'])
    ctx.eq('get_directions(radians)', d.get_directions('radians'),
           np.array(h.dirs, np.float32))
    deg = np.degrees(np.array(h.dirs, float))
    close_to(ctx, 'get_directions()', d.get_directions(), deg)
    close_to(ctx, 'get_directions(degrees)', d.get_directions(
        unit='degrees'), deg)
    ctx.raises(ValueError, d.get_directions, unit='deg')
    ctx.expect(d.domaintype == dom, 'domaintype {}'.format(d.domaintype))
    ctx.expect(np.float32(d.g) == np.float32(h.g) and
               np.float32(d.ro) == np.float32(h.ro), 'g, ro')
    if h.depth is not None:
        ctx.expect(np.float32(d.depth) == np.float32(h.depth), 'depth')
    if dom == 'frequency':
        ctx.eq('get_angular_freqs', d.get_angular_freqs(),
               np.array(h.freqs, np.float32))
        with np.errstate(divide='ignore'):
            close_to(ctx, 'get_periods', d.get_periods(),
                     2 * np.pi / np.array(h.freqs, float))
        ctx.raises(ResultError, d.get_timesteps)
        ctx.obs('freq_files')
    else:
        ctx.eq('get_timesteps', d.get_timesteps(),
               np.array(sorted(h.times), np.float32))
        for m in ('get_angular_freqs', 'get_periods', 'get_motion_raos',
                  'get_excitationforce_raos', 'get_sectionforce_raos',
                  'get_fluidkinematics_raos', 'get_meandrift',
                  'get_horiz_meandrift', 'get_panel_pressures',
                  'get_pressure_panel_ids'):
            ctx.raises(ResultError, getattr(d, m))
        ctx.obs('time_files')
    ctx.state(dom, h.nd, h.nf, h.nt, h.dirs == sorted(h.dirs),
              h.freqs == sorted(h.freqs))
    close()


@prop('H02', 3000, 120000, need=['arrays', 'values'],
      rule='distinct (record type, number of bodies, directions, '
           'frequencies)', assumptions=HASSUME)
def h02(ctx):
    h, d, close = opened(ctx, have=['W1MOTION', 'W1EXFORC', 'WBODY'])
    for b in h.bodies:
        for nm, f in (('W1MOTION', 'get_motion_raos'),
                      ('W1EXFORC', 'get_excitationforce_raos')):
            got = getattr(d, f)(**body_kw(ctx, b))
            ctx.eq('{}({})'.format(f, b), got, hyd.raos(h, nm, b))
            ctx.expect(np.asarray(got).dtype.kind == 'c', f + ': not complex')
            ctx.obs('arrays')
            ctx.state(nm, len(h.bodies), h.nd, h.nf)
    absent = max(h.bodies) + 1
    ctx.raises(Exception, d.get_motion_raos, absent)
    close()


@prop('H03', 2000, 120000, need=['sections', 'points', 'arrays'],
      rule='distinct (number of sections, points, directions, frequencies)',
      assumptions=HASSUME)
def h03(ctx):
    h, d, close = opened(ctx, have=['W1SFORCE', 'WSECTION', 'WFKPOINT',
                                    'WFLUIDKN'])
    sec = d.get_sections()
    ctx.expect(len(sec) == h.nsec, '{} sections expected {}'.format(
        len(sec), h.nsec))
    for k, c in enumerate(h.sections):
        for f in ('secusr', 'isecty'):
            ctx.expect(int(sec[f][k]) == c[f], 'section {} {}: {} expected '
                       '{}'.format(k, f, sec[f][k], c[f]))
        for f in ('p1', 'p2', 'p3'):
            ctx.eq('section {} {}'.format(k, f), sec[f][k],
                   np.array(c[f], np.float32))
    ctx.obs('sections', h.nsec)
    ctx.eq('get_points', d.get_points(), np.array(h.points, np.float32))
    ctx.obs('points', h.npt)
    want = np.zeros((h.nsec, 6, h.nd, h.nf), np.complex64)
    p = np.zeros((h.npt, h.nd, h.nf), np.complex64)
    v = np.zeros((h.npt, 3, h.nd, h.nf), np.complex64)
    for i in range(h.nd):
        for j in range(h.nf):
            for k in range(h.nsec):
                want[k, :, i, j] = h.res['W1SFORCE'][k, i, j]
            for k in range(h.npt):
                p[k, i, j] = h.res['p'][k, i, j]
                v[k, :, i, j] = h.res['v'][k, i, j]
    if len(set(h.secbody)) > 1:
        ctx.obs('bodies_with_sections')
    for b in sorted(set(h.secbody)):
        ks = [k for k in range(h.nsec) if h.secbody[k] == b]
        ctx.eq('get_sectionforce_raos({})'.format(b),
               d.get_sectionforce_raos(**body_kw(ctx, b)), want[ks])
    for b in set(h.bodies) - set(h.secbody):
        # no sections: an error or nothing, no data of another body
        try:
            r = d.get_sectionforce_raos(b)
        except Exception:
            pass
        else:
            ctx.expect(np.asarray(r).size == 0, 'section forces of body {} '
                       'that has no sections'.format(b))
    ctx.eq('pressure', d.get_fluidkinematics_raos('pressure'), p)
    ctx.eq('velocity', d.get_fluidkinematics_raos(kind='velocity'), v)
    el = p.astype(complex) / float(np.float32(h.ro)) / float(np.float32(h.g))
    # very small and very large numbers lose digits in single precision
    ok = (np.abs(el) > 1e-30) & (np.abs(el) < 1e30)
    el = np.where(ok, el, 0)
    for a in ((), ('elevation',)):
        g = np.where(ok, np.asarray(d.get_fluidkinematics_raos(*a)), 0)
        close_to(ctx, 'elevation', g, el)
    ctx.raises(ValueError, d.get_fluidkinematics_raos, 'speed')
    ctx.obs('arrays', 5)
    ctx.state(h.nsec, h.npt, h.nd, h.nf, len(h.bodies))
    close()


MAT = {11: 'get_bodymass', 12: 'get_addedmass', 21: 'get_potentialdamping',
       22: 'get_viscousdamping', 31: 'get_hydrostatic_restoring',
       32: 'get_mooring_restoring'}


@prop('H04', 1500, 120000, need=['matrices', 'coupled', 'absent'],
      rule='distinct (matrix type, same or other body, number of bodies, '
           'number of frequencies)', assumptions=HASSUME)
def h04(ctx):
    h, d, close = opened(ctx, have=['W1MATRIX'], nbody=ctx.pick([1, 2, 3]))
    for a in h.bodies:
        for b in h.bodies:
            for t, f in sorted(MAT.items()):
                kw = {'bodyid': a, 'bodyid2': b}
                if a == 1 and ctx.p(.3):
                    del kw['bodyid']
                if b == 1 and ctx.p(.3):
                    del kw['bodyid2']
                w = '{}({})'.format(f, kw)
                if ((a, b), t) in h.mat:
                    want = h.mat[(a, b), t]
                    ctx.eq(w, getattr(d, f)(**kw), want)
                    ctx.eq('get_matrix({}, {})'.format(t, kw),
                           d.get_matrix(t, **kw), want)
                    ctx.obs('matrices')
                    if a != b:
                        ctx.obs('coupled')
                    ctx.state(t, a == b, len(h.bodies), h.nf)
                elif t in (12, 21):
                    try:
                        r = getattr(d, f)(**kw)
                    except Exception:
                        pass
                    else:
                        ctx.expect(np.asarray(r).size == 0,
                                   w + ': not on the file, but returned '
                                   'a matrix')
                    ctx.obs('absent')
                else:
                    ctx.raises(Exception, getattr(d, f), **kw)
                    ctx.obs('absent')
    if 'W1MATRIX' in h.have:
        for t in (0, 13, 33, '11'):
            ctx.raises(ValueError, d.get_matrix, t, bodyid=h.bodies[0],
                       bodyid2=h.bodies[0])
    close()


PER_BODY_QUERIES = {
    'W1EXFORC': ('get_excitationforce_raos',),
    'W1SFORCE': ('get_sectionforce_raos',),
    'W2MDRIFT': ('get_meandrift',),
    'W1PANPRE': ('get_panel_pressures', 'get_pressure_panel_ids')}
PER_BODY = sorted(PER_BODY_QUERIES) + ['W1MATRIX', 'WSECTION']


def written(h):
    """record types there is at least one of"""
    return set(r.name for r in h.body)


@prop('H05', 2000, 120000, need=['bodies', 'unknown'],
      rule='distinct (number of bodies, external numbers equal to, permuted '
           'or different from the internal ones)', assumptions=HASSUME)
def h05(ctx):
    from freesif.exceptions import ConditionError
    h, d, close = opened(ctx, ctx.pick(['frequency', 'frequency', 'time']),
                         have=['WBODY', 'W2HDRIFT', 'W1MOTION'] +
                         ctx.subset(PER_BODY, 0, len(PER_BODY)),
                         nbody=ctx.pick([1, 2, 3]))
    for b in h.bodies:
        kw = body_kw(ctx, b)
        got = d.get_bodyproperties(**kw)
        c = h.wbody[b]
        want = [k for k in c if k not in ('nfield', 'ibcond')]
        ctx.expect(sorted(got) == sorted(want), 'keys {} expected {}'.format(
            sorted(got), sorted(want)))
        for k in want:
            ctx.eq('get_bodyproperties({})[{}]'.format(b, k), got[k],
                   np.array(c[k], np.float32))
        if h.domain == 'frequency':
            ctx.eq('get_horiz_meandrift({})'.format(b),
                   d.get_horiz_meandrift(**kw), hyd.raos(
                       h, 'W2HDRIFT', b, 3, np.float32))
        ctx.obs('bodies')
    names = written(h)
    xs = set(range(1, min(max(h.bodies), 15) + 2))
    for b in h.bodies:
        xs |= {b + 1, b + 1000} | ({b - 1} - {0}) | set(h.cond.values())
    for x in sorted(xs):
        if x not in h.bodies:
            ctx.raises(ConditionError, d.get_bodyproperties, x)
            if h.domain == 'frequency':
                ctx.raises(ConditionError, d.get_motion_raos, x)
                ctx.raises(ConditionError, d.get_horiz_meandrift, x)
                for rec, fs_ in PER_BODY_QUERIES.items():
                    for f in fs_:
                        if rec in names:
                            ctx.raises(ConditionError, getattr(d, f), x)
            if 'W1MATRIX' in names:
                b = ctx.pick(h.bodies)
                t = ctx.pick(sorted(MAT))
                ctx.raises(ConditionError, d.get_matrix, t, x, b)
                ctx.raises(ConditionError, d.get_matrix, t, b, x)
            ctx.obs('unknown')
    same = all(k == v for k, v in h.cond.items())
    perm = sorted(h.cond) == sorted(h.cond.values())
    ctx.state(len(h.bodies), same, perm, h.domain)
    close()


@prop('H06', 2000, 120000, need=['drift', 'panels', 'none'],
      rule='distinct (panels, symmetry parts, bodies, directions, '
           'frequencies)', assumptions=HASSUME)
def h06(ctx):
    hv = ['W2HDRIFT', 'W2MDRIFT']
    if ctx.p(.8):
        hv.append('W1PANPRE')
    h, d, close = opened(ctx, have=hv)
    for b in h.bodies:
        kw = body_kw(ctx, b)
        for nm, f, n in (('W2HDRIFT', 'get_horiz_meandrift', 3),
                         ('W2MDRIFT', 'get_meandrift', 6)):
            ctx.eq('{}({})'.format(f, b), getattr(d, f)(**kw),
                   hyd.raos(h, nm, b, n, np.float32))
            ctx.obs('drift')
        if b not in h.panels:
            ctx.expect(d.get_panel_pressures(**kw) is None and
                       d.get_pressure_panel_ids(**kw) is None,
                       'body {} has no panels'.format(b))
            ctx.obs('none')
            continue
        ids, sy, val = h.panels[b]
        ns = len(sy)
        want = np.zeros((len(ids), ns, h.nd, h.nf), np.complex64)
        for (q, s, i, j), x in val.items():
            want[q, s, i, j] = x
        ctx.eq('get_panel_pressures({})'.format(b),
               d.get_panel_pressures(**kw), want)
        ctx.eq('get_pressure_panel_ids({})'.format(b),
               d.get_pressure_panel_ids(**kw),
               np.array([(p, s) for s in sy for p in ids]))
        ctx.obs('panels', len(ids) * ns)
        ctx.state(len(ids), ns, len(h.bodies), h.nd, h.nf)
    close()


def h07_basics(ctx):
    """files without one of the records that describe all others"""
    import freesif as F
    from freesif.exceptions import NoSuchRecordError
    with ctx.gen():
        h = hyd.make(ctx.V, have=['W1MOTION', 'WBODY', 'W1MATRIX', 'W2MDRIFT',
                                  'WFLUIDKN', 'WFKPOINT'])
        gone = ctx.pick(['WGLOBDEF', 'WDRESREF', 'WBODCON'])
        recs = [r for r in hyd.records(h, 1) if r.name != gone]
        S.write('G1.SIF', recs, bool(ctx.i(0, 1)))
        ctx.note = 'without ' + gone
    b = ctx.pick(h.bodies)

    def answers():
        if ctx.p(.5):
            d = F.open_sif('G1.SIF')
        else:
            d = F.open_hdf5(F.sif2hdf5('G1.SIF'))['G1']
        opened.append(d)
        if gone == 'WGLOBDEF':
            return d.g, d.ro, d.get_fluidkinematics_raos()
        if gone == 'WDRESREF':
            return d.get_angular_freqs(), d.get_directions()
        return getattr(d, ctx.pick([
            'get_motion_raos', 'get_meandrift', 'get_bodyproperties',
            'get_bodymass']))(b)
    opened = []
    ctx.raises(NoSuchRecordError, answers)
    if gone == 'WBODCON':
        ctx.eq('get_points', opened[0].get_points(),
               np.array(h.points, np.float32))
    for d in opened:
        d.close()
    ctx.obs('missing_basics')
    ctx.state(gone, 'basics')


@prop('H07', 1600, 120000, need=['missing', 'missing_basics'],
      rule='distinct (record type left out, query)', assumptions=HASSUME)
def h07(ctx):
    from freesif.exceptions import NoSuchRecordError
    q = {'W1MOTION': ['get_motion_raos'],
         'W1EXFORC': ['get_excitationforce_raos'],
         'W1SFORCE': ['get_sectionforce_raos'],
         'WFLUIDKN': ['get_fluidkinematics_raos'],
         'W1MATRIX': sorted(MAT.values()), 'WBODY': ['get_bodyproperties'],
         'W2HDRIFT': ['get_horiz_meandrift'],
         'W2MDRIFT': ['get_meandrift'], 'WSECTION': ['get_sections'],
         'WFKPOINT': ['get_points']}
    if ctx.p(.2):
        return h07_basics(ctx)
    with ctx.gen():
        have = ctx.subset(sorted(q) + ['W1PANPRE'])
    h, d, close = opened(ctx, have=have)
    dep = {'W1SFORCE': 'WSECTION', 'WFLUIDKN': 'WFKPOINT'}
    for rec, fs_ in sorted(q.items()):
        there = rec in h.have and dep.get(rec, rec) in h.have
        for f in fs_:
            kw = {} if f in ('get_sections', 'get_points',
                             'get_fluidkinematics_raos') else {
                                 'bodyid': (h.secbody or h.bodies)[0]}
            if rec == 'W1MATRIX':
                kw['bodyid2'] = h.bodies[-1]
            if not there:
                ctx.raises(NoSuchRecordError, getattr(d, f), **kw)
                ctx.obs('missing')
                ctx.state(rec, f)
            elif rec != 'W1MATRIX':
                ctx.expect(getattr(d, f)(**kw) is not None, f)
    if 'W1PANPRE' not in h.have:
        for b in h.bodies:
            ctx.expect(d.get_panel_pressures(b) is None and
                       d.get_pressure_panel_ids(b) is None, 'panels')
    ctx.eq('get_angular_freqs', d.get_angular_freqs(),
           np.array(h.freqs, np.float32))
    close()
