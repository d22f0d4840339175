"""Layout comparison used by C02..C05."""
from . import model, real
import timeboard as tb


def rows_of(b):
    n = len(b())
    if n <= 40:
        return [real.workshift_row(tb.Workshift(b, i)) for i in range(n)]
    rows = real.table_rows(b.to_dataframe())
    for i in (0, 1, n // 2, n - 2, n - 1):
        r = real.workshift_row(tb.Workshift(b, i))
        if not real.same(r, rows[i]):
            return ('table row %d differs from its workshift' % i, rows[i], r)
    return rows


def first_diff(got, exp):
    if not isinstance(got, list):
        return repr(got)
    out = 'count %d expected %d; ' % (len(got), len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
        if not real.same(g, e):
            return out + ('first difference at %d: (start, end, duration, '
                          'label, reference) = %r expected %r' % (i, g, e))
    return out


def check_board(spec, log, parts=None, rps=None, layout=None):
    """Build both and compare; returns (model board or None, real board)."""
    log.transitions += 1
    try:
        m = model.Board(spec, rps)
        exp = None
    except model.ModelError as e:
        m, exp = None, e.kinds
    except model.Undecided:
        log.undecided += 1
        return None, None
    got = real.obs(lambda: real.build(spec, parts, layout))
    if m is None:
        log.outcomes['refused:' + '/'.join(sorted(exp))] += 1
        if not (got[0] == 'err' and real.err_matches(got[1], exp)):
            log.fail('building %r: %s; expected %s'
                     % (spec, real.show(got), sorted(exp)))
        return None, None
    if got[0] == 'err':
        if m.maybe and real.err_matches(got[1], {model.OOB}):
            log.undecided += 1
            return None, None
        log.fail('building %r: %s' % (spec, real.show(got)))
        return None, None
    log.state(m.state())
    log.outcomes['%d spans' % min(len(m.cuts), 9)] += 1
    exp = [real.model_row(m, i) for i in range(len(m))]
    g = real.obs(rows_of, got[1])
    log.transitions += len(exp)
    if g[0] == 'err':
        log.fail('reading %r: %s' % (spec, real.show(g)))
    elif not (isinstance(g[1], list) and real.same(g[1], exp)):
        log.fail('timeboard %r: %s' % (spec, first_diff(g[1], exp)))
    return m, got[1]
