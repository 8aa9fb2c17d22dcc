"""Compare what a conversion stored with what the records say (via h5py)."""
import numpy as np
import h5py


def _np(v):
    return np.asarray(v)


def same(exp, got):
    """exact comparison at the stored precision"""
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.dtype.kind == 'S':
        e = exp if exp.dtype.kind == 'S' else np.char.encode(
            exp.astype(str), 'latin-1')
        # trailing blanks are not significant in fixed width text
        return e.shape == got.shape and bool(
            np.all(np.char.rstrip(e) == np.char.rstrip(got)))
    if exp.size == 0:
        return got.size == 0
    if exp.shape != got.shape:
        return False
    if got.dtype.kind in 'iu':
        return bool((exp == got).all())
    if got.dtype.kind == 'f':
        return bool((exp.astype(np.float32) == got).all())
    if got.dtype.kind == 'c':
        return bool((exp.astype(np.complex64) == got).all())
    return bool((exp == got).all())


def compare_fixed(grp, name, recs):
    """-> list of problems with the fixed columns of one record type"""
    t = name.lower()
    if t not in grp:
        return ['%s: no table stored (%d records in file)' % (name,
                                                              len(recs))], 0
    tab = grp[t][:]
    if len(tab) != len(recs):
        return ['%s: %d rows stored, %d records in file' % (
            name, len(tab), len(recs))], 0
    bad = []
    n = 0
    for col in recs[0].cols:
        if col not in tab.dtype.names:
            bad.append('%s: column %s missing' % (name, col))
            continue
        got = tab[col]
        for k, r in enumerate(recs):
            if col not in r.cols:
                continue
            n += 1
            if not same(r.cols[col], got[k]):
                bad.append('%s record %d: %s stored %r, file says %r' % (
                    name, k, col, np.asarray(got[k]).tolist(), r.cols[col]))
                break
    return bad, n


def compare_payload(grp, name, recs):
    t = name.lower()
    if t not in grp:
        return ['%s: no table stored' % name], 0
    tab = grp[t][:]
    if len(tab) != len(recs):
        return ['%s: %d rows stored, %d records in file' % (
            name, len(tab), len(recs))], 0
    bad = []
    n = 0
    for a in recs[0].arrs:
        an = t + '_' + a
        if an not in grp:
            bad.append('%s: payload %s missing' % (name, an))
            continue
        arr = grp[an][:]
        tot = 0
        for k, r in enumerate(recs):
            exp = r.arrs[a]
            s, e = int(tab[a + '_start'][k]), int(tab[a + '_stop'][k])
            got = arr[s:e]
            n += 1
            tot += len(exp)
            ok = len(exp) == e - s if len(exp) else e <= s
            if not ok or (len(exp) and not same(exp, got)):
                bad.append('%s record %d: %s [%d:%d] is %r, file says %r' % (
                    name, k, a, s, e, got[:8].tolist(), exp[:8]))
                break
        if tot != len(arr):
            bad.append('%s: %s holds %d entries, the records hold %d' % (
                name, an, len(arr), tot))
    return bad, n


def dump(path, group=None):
    """whole content as plain python: {group: {'attrs':..., name: array}}"""
    out = {}
    with h5py.File(path, 'r') as f:
        def visit(n, o):
            if isinstance(o, h5py.Dataset):
                out['/' + n] = o[()]
            else:
                out['/' + n] = None
        f.visititems(visit)
        at = {}
        for n in list(out):
            o = f[n]
            a = {}
            for k, v in o.attrs.items():
                if isinstance(o, h5py.Group) and k in (
                        'LEVEL', 'DATATYPE', 'SELTYP', 'FILETYPE', 'INDEX'):
                    v = np.asarray(v).tolist() if not isinstance(
                        v, (bytes, str)) else v
                    a[k] = v.decode() if isinstance(v, bytes) else v
            if a:
                at[n] = a
    if group:
        out = {k: v for k, v in out.items()
               if k == '/' + group or k.startswith('/' + group + '/')}
        at = {k: v for k, v in at.items() if k in out}
    return out, at


def diff(a, b):
    """problems between two dumps (dicts name -> array or None)"""
    bad = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            bad.append('%s only in %s' % (k, 'first' if k in a else 'second'))
            continue
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            bad.append('%s kind differs' % k)
        elif x is not None:
            if x.dtype != y.dtype or x.shape != y.shape:
                bad.append('%s: %s%s vs %s%s' % (k, x.dtype, x.shape, y.dtype,
                                                 y.shape))
            elif x.tobytes() != y.tobytes():
                bad.append('%s: contents differ' % k)
    return bad
