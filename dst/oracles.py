"""Judges the history of a core run.  Each oracle yields violations of a named class.

Classes: stale (C01), stale_inh (C04), stale_fin (C06), lost (C02/C05), wrong (C03), early/late snapshot (C07),
delay (C08), refused (C09), expired (C12) ...  A check enforces the classes which belong to its property.
"""
from .core import MISS, canon

INF = float('inf')
LOCK_TTL = 5.0
SLACK = 1.0


def clock_margin(w):
    return w.cfg.get('clock_grain', 0.0) or 0.0


class History(object):
    def __init__(self, w):
        self.w = w
        h = w.history
        self.sets = [r for r in h if r.kind == 'set']
        self.gets = [r for r in h if r.kind == 'get' and r.ok and r.end is not None]
        self.invs = [r for r in h if r.kind == 'inv']
        self.fins = [r for r in h if r.kind == 'fin']
        self.deletes = [r for r in h if r.kind == 'delete']
        self.clears = [r for r in h if r.kind == 'clear']
        self.by_key = {}
        for s in self.sets:
            self.by_key.setdefault((s.alias, s.v, s.key), []).append(s)
        self.levels = w.cfg.get('levels') or {}

    def level(self, alias):
        return self.levels.get(alias) or self.w.cfg.get('level', 'READ COMMITTED')

    def candidates(self, g):
        return [s for s in self.by_key.get((g.alias, g.v, g.key), ())
                if s.canon == g.canon and s.start < g.end and (s.applied is not None or s.error)
                and not (s.mode == 'raw:add' and s.ok and not s.added)]


def describe(s):
    return 'value %s of %s/v%s/%s tags=%s inherited=%s stored [%s,%s] by %s' % (
        s.canon, s.alias, s.v, s.key, sorted(s.given), sorted(s.effL - s.given), s.start, s.end, s.actor.name)


def judge(w, classes):
    """Runs the oracles of the given classes; appends to w.violations."""
    H = History(w)
    want = set(classes)
    if want & {'stale', 'stale_inh', 'stale_fin', 'snapshot', 'delay', 'expired', 'wrong'}:
        hits(w, H, want)
    if 'wrong' in want:
        register(w, H)
    if 'lost' in want or 'rerun' in want:
        lost(w, H)
    if 'refused' in want:
        refused(w, H)
    if 'swallowed' in want:
        for s in H.sets:
            if s.ok and s.fault:
                w.violation('swallowed', 'store [%s,%s] by %s returned normally though a call to the backend raised an error: '
                            '%s' % (s.start, s.end, s.actor.name, describe(s)), s)
    # A known limitation is judged by the check of the property it belongs to only.
    w.violations[:] = [v for v in w.violations if v.known is None or v.known in w.spec_known]
    return w.violations


# -- reads that returned something ---------------------------------------------------------

def hits(w, H, want):
    delay = w.cfg.get('delay', 0) or 0
    for g in H.gets:
        if g.value is MISS:
            continue
        cands = H.candidates(g)
        if not cands:
            if 'wrong' in want:
                w.violation('wrong', 'read of %s/v%s/%s by %s returned %s which nobody stored there' % (
                    g.alias, g.v, g.key, g.actor.name, g.canon), g)
            continue
        # A violation requires that every store the value can come from is excluded.
        problems = [bad(w, H, g, s, want, delay) for s in cands]
        if all(problems):
            cls, msg, known = problems[0]
            w.violation(cls, msg, g, known=known)


def bad(w, H, g, s, want, delay):
    if ('stale' in want or 'stale_inh' in want) and s.effL:
        for i in H.invs:
            if i.ok and i.alias == s.alias and i.v == s.v and s.end is not None and s.end < i.start \
                    and i.end < g.start and i.tags & s.effL:
                cls = 'stale' if i.tags & s.given else 'stale_inh'
                if cls in want:
                    return cls, 'read [%s,%s] by %s returned %s, invalidated [%s,%s] by %s for tags %s' % (
                        g.start, g.end, g.actor.name, describe(s), i.start, i.end, i.actor.name, sorted(i.tags)), None
    if 'stale_fin' in want and s.effL:
        for f in H.fins:
            if f.ok and f.alias == s.alias and s.v in f.tags and s.end is not None and s.end < f.start \
                    and f.end < g.start and f.tags[s.v] & s.effL and H.level(s.alias) != 'READ UNCOMMITTED':
                return 'stale_fin', 'read [%s,%s] by %s returned %s, stored before finish [%s,%s] of transaction of %s ' \
                    'which invalidated %s' % (g.start, g.end, g.actor.name, describe(s), f.start, f.end,
                                              f.actor.name, sorted(f.tags[s.v])), None
    if s.mode.startswith('raw'):
        pass
    elif 'snapshot' in want and H.level(s.alias) in ('REPEATABLE READ', 'SERIALIZABLE') and s.effL:
        r = snapshot(w, H, g, s, delay)
        if r:
            return r
    if 'delay' in want and delay and s.effL:
        r = delayed(w, H, g, s, delay)
        if r:
            return r
    if 'expired' in want and s.ttl is not None and s.t_applied is not None:
        if g.t_start >= s.t_applied + s.ttl + 1e-3:
            return 'expired', 'read at +%.3f by %s returned %s whose timeout %s elapsed at +%.3f' % (
                g.t_start - w.sim.start_time, g.actor.name, describe(s), s.ttl,
                s.t_applied + s.ttl - w.sim.start_time), None
    return None


def flushed_between(w, a, b):
    return any(a <= e[0] <= b and e[2] == 'flush' for e in w.events) or any(
        c.kind == 'clear' and c.start < b and (c.end or INF) > a for c in w.history)


def session(s):
    return s.actor


def tx_window(s):
    """(begin_end seq, begin raw clock latest, begin_start seq, begin raw clock earliest, t_begin_start)"""
    tx = s.tx
    if tx is None or tx.begin_end is None:
        return None
    return tx


def overlapping_fin(H, f, s, tags, delay=0):
    """Another transaction on the same tags whose finish is not ordered with f, and whose time of the end
    can be earlier than the begin of the transaction which stored."""
    began = s.tx.raw_begin_end if s.tx is not None else s.raw_end
    for o in H.fins:
        if o.ok and began is not None and o.raw_start + delay > began + 1e-6:
            continue
        if o is f or o.alias != f.alias or s.v not in o.may or not o.may[s.v] & tags:
            continue
        if not o.ok:
            if o.end is None or o.start < (f.end or INF) or o.eff_end() > f.start:
                return o
            continue
        if o.start < f.end and o.eff_end() > f.start:
            return o
    return None


def unfinished_killed(H, f, s, tags):
    return None


def must_refuse(w, H, f, s, delay):
    """The store's transaction certainly began (by the clocks) not later than the finish plus delay."""
    g = clock_margin(w)
    same_clock = abs(s.actor.proc.skew - f.actor.proc.skew) < 1e-12 and not w.jumped
    if s.tx is not None:
        tx = s.tx
        if tx.begin_end is None:
            return False
        if s.t_end is None or s.t_end - tx.t_begin_start > LOCK_TTL - 0.5:
            return False
        if same_clock and tx.begin_end < f.start:
            return True
        return tx.raw_begin_end <= f.raw_start - g + delay - 1e-9
    if s.end is None:
        return False
    return delay > 0 and s.raw_end <= f.raw_start - g + delay - 1e-9


def snapshot(w, H, g, s, delay):
    # (i) finished transactions
    for f in H.fins:
        if not f.ok or f.alias != s.alias or s.v not in f.tags or not f.tags[s.v] & s.effL:
            continue
        if s.actor is f.actor and not delay:
            continue
        if s.tx is f.tx:
            continue
        if f.end < g.start and s.start > f.tx.begin_start and must_refuse(w, H, f, s, 0 if s.actor is not f.actor else
                                                                           -1e9):
            if s.end is not None and s.end < f.start:
                continue       # judged as stale_fin
            if flushed_between(w, f.start, s.end or INF):
                continue
            o = overlapping_fin(H, f, s, f.tags[s.v] & s.effL, delay)
            known = None
            if o is not None:
                if not o.ok:
                    continue
                known = 'overlapping-finishes'
            return ('snapshot', 'read [%s,%s] by %s returned %s; its transaction began at %s before the finish [%s,%s] '
                    'of transaction of %s which invalidated %s' % (
                        g.start, g.end, g.actor.name, describe(s), s.tx.begin_end if s.tx else s.start, f.start, f.end,
                        f.actor.name, sorted(f.tags[s.v])), known)
    # (ii) unfinished, the only one which invalidated the tags
    for i in H.invs:
        if not i.ok or i.tx is None or i.alias != s.alias or i.v != s.v or not i.tags & s.effL:
            continue
        if s.actor is i.actor or not (i.end < s.start):
            continue
        fin = i.tx.fin
        if fin is not None and not g.end < fin.start:
            continue
        if s.t_end is None or s.t_end > i.t_start + LOCK_TTL - 0.5:
            continue
        both = i.tags & s.effL
        if any(o.tx is not i.tx and o.tx is not None and o.alias == i.alias and o.v == i.v and o.tags & both
               and o.start < g.end and (o.tx.fin is None or o.tx.fin.eff_end() > i.tx.begin_start)
               for o in H.invs):
            continue
        if any(f.tx is not i.tx and f.alias == i.alias and i.v in f.may and f.may[i.v] & both
               and f.eff_end() > i.tx.begin_start and f.start < g.end for f in H.fins):
            continue
        if flushed_between(w, i.start, g.end):
            continue
        return ('snapshot', 'read [%s,%s] by %s returned %s, stored while the transaction of %s which invalidated %s '
                '[%s,%s] was unfinished' % (g.start, g.end, g.actor.name, describe(s), i.actor.name,
                                            sorted(both), i.start, i.end), None)
    return None


def delayed(w, H, g, s, delay):
    level = H.level(s.alias)
    for f in H.fins:
        if not f.ok or f.alias != s.alias or s.v not in f.tags or not f.tags[s.v] & s.effL:
            continue
        if level in ('READ UNCOMMITTED', 'READ COMMITTED'):
            if getattr(f, 'timer_fault', False) or not f.actor.proc.alive:
                continue
            if s.t_end is not None and s.t_end < f.t_start + delay - 1e-3 and g.t_start > f.t_end + delay + SLACK:
                return ('delay', 'read at +%.3f by %s returned %s (stored at +%.3f), but transaction of %s which '
                        'invalidated %s finished at +%.3f and the delay is %s' % (
                            g.t_start - w.sim.start_time, g.actor.name, describe(s), s.t_end - w.sim.start_time,
                            f.actor.name, sorted(f.tags[s.v]), f.t_end - w.sim.start_time, delay), None)
        else:
            if w.jumped or s.mode.startswith('raw') or s.tx is f.tx or not f.end < g.start:
                continue
            if s.end is not None and s.end < f.start:
                continue
            if not must_refuse(w, H, f, s, delay):
                continue
            if s.t_end is None:
                continue
            if flushed_between(w, f.start, s.end or INF):
                continue
            o = overlapping_fin(H, f, s, f.tags[s.v] & s.effL, delay)
            known = None
            if o is not None:
                if not o.ok:
                    continue
                known = 'overlapping-finishes'
            return ('delay', 'read [%s,%s] by %s returned %s; its transaction began within the delay %s after the '
                    'finish [%s,%s] of transaction of %s which invalidated %s' % (
                        g.start, g.end, g.actor.name, describe(s), delay, f.start, f.end, f.actor.name,
                        sorted(f.tags[s.v])), known)
    return None


# -- register ------------------------------------------------------------------------------

def register(w, H):
    per_key = {}
    for g in H.gets:
        per_key.setdefault((g.alias, g.v, g.key), []).append(g)
    for key, gets in sorted(per_key.items()):
        writes = H.by_key.get(key, [])
        sure = [s for s in writes if s.ok and s.applied is not None and not s.fault
                and not (s.mode == 'raw:add' and not s.added)]
        dels = [d for d in H.deletes if (d.alias, d.v, d.key) == key and d.ok and not d.fault]
        hits_ = []
        for g in gets:
            if g.value is MISS:
                continue
            cands = H.candidates(g)
            if not cands:
                continue
            # overwritten or deleted before the read began
            def over(s):
                e = s.eff_end()
                for o in sure:
                    if o is not s and o.start > e and o.end < g.start:
                        return o
                for d in dels:
                    if d.start > e and d.end < g.start:
                        return d
                return None
            os_ = [over(s) for s in cands]
            if all(os_):
                w.violation('wrong', 'read [%s,%s] by %s returned %s, which was overwritten or deleted by [%s,%s] of %s'
                            % (g.start, g.end, g.actor.name, describe(cands[0]), os_[0].start, os_[0].end,
                               os_[0].actor.name), g)
            if len(cands) == 1:
                hits_.append((g, cands[0]))
        # order between reads
        for g2, s2 in hits_:
            for g1, s1 in hits_:
                if g1.end < g2.start and s1 is not s2:
                    if s2.eff_end() < s1.start:
                        w.violation('wrong', 'read [%s,%s] returned %s after read [%s,%s] had returned the newer %s' % (
                            g2.start, g2.end, describe(s2), g1.start, g1.end, describe(s1)), g2)
                    for g0, s0 in hits_:
                        if s0 is s2 and g0.end < g1.start and s2.eff_end() < g1.end:
                            w.violation('wrong', '%s came back at [%s,%s] after %s had been read' % (
                                describe(s2), g2.start, g2.end, describe(s1)), g2)
        # a value which was lost never comes back
        for g2, s2 in hits_:
            for g1 in gets:
                if g1.value is MISS and not g1.uncertain and not g1.fault and g1.mode != 'gos' and g1.end < g2.start \
                        and s2.eff_end() < g1.start and not any(
                            o is not s2 and o.canon == s2.canon and o.start < g2.end for o in writes):
                    w.violation('wrong', '%s came back at [%s,%s] after a miss at [%s,%s]' % (
                        describe(s2), g2.start, g2.end, g1.start, g1.end), g2)


# -- reads that missed -----------------------------------------------------------------------

def lost(w, H):
    for g in H.gets:
        if g.value is not MISS or g.fault:
            continue
        writes = H.by_key.get((g.alias, g.v, g.key), ())
        for s in writes:
            if must_hit(w, H, g, s, writes):
                w.violation('lost', 'read [%s,%s] (%s) by %s missed %s possibly inherited %s' % (
                    g.start, g.end, g.mode, g.actor.name, describe(s), sorted(s.effU - s.effL)), g)
                if g.mode == 'gos':
                    w.violation('rerun', 'get_or_set_callback [%s,%s] by %s ran the callback though the key had %s' % (
                        g.start, g.end, g.actor.name, describe(s)), g)
                break


def overlaps(r, a, b):
    return r.start < b and r.eff_end() > a


def must_hit(w, H, g, s, writes):
    if not s.ok or s.fault or s.applied is None or not s.end < g.start:
        return False
    if s.mode == 'raw:add' and not s.added:
        return False
    if s.value is None and (g.uncertain or s.mode.startswith('raw')):
        return False
    ttl = 290 if s.ttl is None else s.ttl
    if g.t_end >= s.t_applied + ttl - 1e-3:
        return False
    a, b = s.start, g.end
    for o in writes:
        if o is not s and overlaps(o, a, b):
            return False
    for d in H.deletes:
        if (d.alias, d.v, d.key) == (s.alias, s.v, s.key) and overlaps(d, a, b):
            return False
    for c in H.clears:
        if c.alias == s.alias and overlaps(c, a, b):
            return False
    loc = s.alias
    for seq, srv, kind, key in w.events:
        if srv == loc and a <= seq <= b:
            if kind == 'flush' or not w.is_data_key(key) or key == w.data_key(s):
                return False
    if s.effU:
        for i in H.invs:
            if i.alias == s.alias and i.v == s.v and i.tags & s.effU and overlaps(i, a, b):
                return False
        for f in H.fins:
            if f.alias == s.alias and s.v in f.may and f.may[s.v] & s.effU:
                if overlaps(f, a, b):
                    return False
                if f.start < b and any(t.state != 'done' or (t.info is not None and
                                                             getattr(t.info, 'done_seq', INF) > a) for t in f.timers):
                    return False
        # created 24 hours ago at most
        horizon = g.t_end - 23.5 * 3600
        for o in H.sets:
            if o.alias == s.alias and o.v == s.v and o.effU & s.effU and o.t_start < horizon:
                return False
        for o in H.sets:
            if o is s or o.alias != s.alias or o.v != s.v:
                continue
            both = o.effU & s.effU
            if both and overlaps(o, s.start, s.end):
                if not all(established(H, s, o, t) for t in both):
                    return False
    return True


def established(H, s, o, tag):
    """Tag had been introduced before both overlapping stores began, and was kept."""
    begin = min(s.start, o.start)
    end = max(s.eff_end(), o.eff_end())
    for p in H.sets:
        if p.ok and not p.fault and p.applied is not None and p.end < begin and p.alias == s.alias and p.v == s.v \
                and tag in p.effL and p.t_start > s.t_start - 20 * 3600:
            if not any(i.alias == s.alias and i.v == s.v and tag in i.tags and overlaps(i, p.start, end)
                       for i in H.invs) and \
               not any(f.alias == s.alias and tag in f.may.get(s.v, ()) and (overlaps(f, p.start, end) or (
                   f.start < end and f.timers)) for f in H.fins) and \
               not any(p.start <= e[0] <= end for e in H.w.events) and not any(
                   overlaps(c, p.start, end) for c in H.clears):
                return True
    return False


# -- refused stores ----------------------------------------------------------------------------

def refused(w, H):
    delay = w.cfg.get('delay', 0) or 0
    grain = clock_margin(w)
    for s in H.sets:
        if not s.ok or s.fault or s.applied is not None or s.native or s.ttl is not None and s.ttl <= 0:
            continue
        level = H.level(s.alias)
        if level in ('READ COMMITTED', 'READ UNCOMMITTED'):
            w.violation('refused', 'store of %s was refused at %s' % (describe(s), level), s)
            continue
        known = None
        for i in H.invs:
            if i.tx is None or i.alias != s.alias or i.v != s.v or not i.tags & s.effU or i.start > s.end:
                continue
            r = reason(w, H, i, s, delay, grain)
            if r is True:
                break
            if r:
                known = r
        else:
            w.violation('refused', 'store of %s [%s,%s]%s was refused though no transaction holds its tags' % (
                describe(s), s.start, s.end, ' in transaction' if s.tx else ''), s, known=known)


def reason(w, H, i, s, delay, grain):
    fin = i.tx.fin
    t_inv = max(i.t_end if i.t_end is not None else INF, i.late_t)
    own = i.actor is s.actor
    held = False          # acquired record may still be there
    if not own and s.t_start <= t_inv + LOCK_TTL + 0.01:
        if fin is not None and (w.jumped or fin.raw_start - i.tx.raw_begin_end <= grain):
            return True       # the clock does not tell that the transaction ended after it had begun
        if fin is None or not fin.ok or fin.eff_end() > s.start or i.late_end > (fin.start if fin else 0):
            return True
        held = True
    if fin is not None and fin.start < s.end:
        if not own or (delay and fin.tx is not s.tx):
            t_fin = max(fin.t_end if fin.t_end is not None else INF, fin.late_t)
            if s.t_start <= t_fin + LOCK_TTL + max(delay, 1) + 0.01:
                if s.tx is not None:
                    raw = s.tx.raw_begin_start
                else:
                    raw = s.raw_start
                end = fin.__dict__.get('raw_end')
                if end is None or w.jumped or raw - grain <= end + delay + 1e-6:
                    return True
    if held:
        if any(e[2] == 'evict' and 'released_' in e[3] and fin.start < e[0] < s.end for e in w.events):
            return True     # the record of releasing is lost, that of acquiring is alive until it expires
        # Another transaction which had invalidated the tag too was released later: the only record says
        # who was the last to acquire, and the only record says who was the last to release.
        for f in H.fins:
            if f is not fin and f.alias == s.alias and f.may.get(s.v, frozenset()) & i.tags & s.effU \
                    and f.actor is not i.actor and f.tx.begin_start < fin.end and f.eff_end() > fin.start \
                    and f.start < s.end:
                return 'overlapping-release' if f.ok else True
    return False
