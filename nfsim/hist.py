"""Reading recorded histories."""
import math

LIGHT = ('pos', 'value', 'success', 'status', 'num_fev', 'num_iter')


def feq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def light(r):
    return tuple(r.get(k) for k in LIGHT)


def same_result(a, b, tol=0.):
    """Equality of two dumped minimisation results on what the snapshot keeps."""
    for k in LIGHT:
        x, y = a.get(k), b.get(k)
        if k == 'pos':
            if x is None or y is None or len(x) != len(y):
                return False
            if not all(feq(u, v) or abs(u - v) <= tol for u, v in zip(x, y)):
                return False
        elif k == 'value':
            if not (feq(x, y) or abs(x - y) <= tol):
                return False
        elif x != y:
            return False
    return True


def full_same(a, b):
    """Bitwise equality of two fully dumped results (NaN equals NaN)."""
    return repr(a) == repr(b)


def events(h, kind, rid=None):
    return [(i, e) for i, e in enumerate(h['events']) if e[2] == kind and (rid is None or e[3] == rid)]


def counts_timeline(h, rid=0):
    """[(event index, iter, time, (nodes, rejected, refined))], starting with the initial state."""
    out = []
    for i, e in enumerate(h['events']):
        if e[2] == 'state' and e[3] == rid:
            out = []
        if e[2] in ('state', 'result') and e[3] == rid:
            out.append((i, e[0], e[1], tuple(e[4])))
    return out


def counts_around(tl, at):
    """Counts polled last before and first after event index `at`."""
    lo = (0, 0, 0)
    hi = None
    for i, _, _, c in tl:
        if i <= at:
            lo = c
        elif hi is None:
            hi = c
    return lo, hi if hi is not None else lo


def counts_of(d):
    return len(d['nodes']), len(d['rejected']), len(d['refined'])


def snapshot_error(d, final, lo=None, hi=None):
    """Is dump `d` a complete snapshot of a search whose final (or last known) state is `final`?"""
    c = counts_of(d)
    if lo is not None and any(x < y for x, y in zip(c, lo)):
        return 'holds %s (nodes, rejected, refined), but %s were recorded when it was written' % (c, lo)
    if hi is not None and any(x > y for x, y in zip(c, hi)):
        return 'holds %s (nodes, rejected, refined), more than the %s recorded' % (c, hi)
    for what in ('nodes', 'rejected'):
        if len(d[what]) > len(final[what]):
            return 'holds more %s than were recorded' % what
        for k, (a, b) in enumerate(zip(d[what], final[what])):
            if not same_result(a, b):
                return '%s[%d] differs from what was recorded: %r instead of %r' % (what, k, light(a), light(b))
    for k, (a, b) in enumerate(zip(d['refined'], final['refined'])):
        if a != b:
            return 'refined[%d] differs from what was recorded' % k
    return None


def outcome_str(o):
    if o is None:
        return 'no outcome'
    if o['kind'] == 'return':
        return 'returned'
    return 'raised %s(%s)' % (o['exc'], o['msg'])
