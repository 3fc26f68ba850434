"""Loops of a symbolic number of turns that iterate a recursion and touch one row of a list
or array per turn (the fixed-lag smoother's inner loop).

Turn i of such a loop starts from the i-th iterate of the map "one turn of the body".  The
iterate is represented by an unknown that is a function of (the map, the value at entry, i):
two loops get the same unknown exactly when the normal forms of their maps and entry values
agree, which is an induction over i that both loops satisfy.  Nothing else about the iterate
is assumed.  The generic turn is then executed once; the rows it touches stand for the rows
of all turns.

Checked here: no row is touched by two different turns; nothing outlives the loop but the
rows (every local the loop changes is unusable afterwards); no attribute and no array made
before the loop changes."""
import numpy as np
from .ctx import ctx, Unsupported
from .sc import Sc, to_sc, new_sym, dim_resolve, subst
from . import arr as A
from .loops import sym_count, Poison, Unbound, UNBOUND, MISSING, _deps_of


def lag_handler(it):
    c = ctx()
    lags = getattr(c, 'lagsyms', None)
    if not lags:
        return None
    n, item = sym_count(it)
    n = dim_resolve(n)
    if not any(i in lags for i in n.syms()):
        return None
    from .induct import EmptyLoop
    if not bool(n >= 1):
        return EmptyLoop()
    return LagLoop(n, item)


def lag_index(n):
    """the generic turn: one name per trip count"""
    c = ctx()
    if not hasattr(c, 'lagidx'):
        c.lagidx, c.lagbound = [], {}
    for m, s in c.lagidx:
        if (dim_resolve(m) - n).is_zero():
            return s
    s = new_sym('i%d' % len(c.symtab.syms), 'var', None, nonneg=True, integer=True)
    c.nosub.add(s.id)
    c.lagidx.append((n, s))
    c.lagbound[s.id] = n
    v = Sc.sym(s)
    c.assume(v >= 0)
    c.assume(v < n)
    return s


def rename(idx):
    """idx with its generic turns renamed apart -> (index, conditions on the new names)"""
    c = ctx()
    idx = dim_resolve(to_sc(idx))
    sub, cs = {}, []
    for i in idx.syms():
        if i in getattr(c, 'lagbound', {}):
            s = Sc.sym(new_sym('i%d' % len(c.symtab.syms), 'var', None, nonneg=True, integer=True))
            sub[i] = s
            cs += [s >= 0, s < c.lagbound[i]]
    return (dim_resolve(subst(idx, sub)) if sub else idx), cs, sub


def ids_of(v):
    r = (set(), set())
    _deps_of(v, r)
    return r


class LagLoop:
    symbolic = True

    def __init__(self, n, item):
        self.n, self.item = n, item
        self.s = lag_index(n)
        self.i = Sc.sym(self.s)
        self.phase = 0
        self.done = False

    def __iter__(self):
        yield self.item(self.i)
        yield self.item(self.i)
        self.done = True

    def _begin(self):
        from .induct import frozen
        self.mark = A.Buf.serial[0]
        for a, rows in self.arrs:
            a.rows = [[r[0], frozen(r[1]), None if r[2] is None else frozen(r[2]), r[3]] for r in rows]
            a.lagmark = [(r, frozen(r[1]), r[3]) for r in a.rows]
            for r in a.rows:
                r[3] = False
            a.reads = []
        self.log = {}
        A.WRITE_LOG.append(self.log)

    def _end(self):
        """nothing made before the loop may have changed"""
        from .induct import unchanged
        A.unlog(self.log)
        for i, (b, old) in self.log.items():
            if b.ser < self.mark:
                raise Unsupported('lag loop writes an array made before it')
        for v, old in self.conc:
            if not unchanged(v, old):
                raise Unsupported('lag loop writes an array made before it')
        for o, a0 in self.attrs:
            now = vars(o)
            if set(now) != set(a0) or any(now[k] is not a0[k] for k in a0):
                raise Unsupported('lag loop sets an attribute')
        for a, n in self.sizes:
            if a.n is not n:
                raise Unsupported('list grows in the lag loop')
        for l, k in self.lists:
            if len(l) != k:
                raise Unsupported('list grows in the lag loop')

    def enter(self, loc, names):
        from .induct import frozen, fresh_like, unchanged, same_shape
        c = ctx()
        if self.phase == 0:
            self.phase = 1
            self.names = names
            self.pre = {n: (MISSING if isinstance(loc.get(n), (Poison, Unbound)) else loc.get(n, MISSING)) for n in names}
            objs = [v for v in loc.values() if hasattr(v, '__dict__') and not isinstance(v, (A.SymArr, np.ndarray, Poison, Unbound, type))
                    and type(v).__module__.startswith('filterpy')]
            self.attrs = [(o, dict(vars(o))) for o in objs]
            self.arrs = [(a, a.rows) for a in getattr(c, 'timearrs', [])]
            self.sizes = [(a, a.n) for a, _ in self.arrs]
            self.lists = [(v, len(v)) for v in loc.values() if type(v) is list]
            seen, self.conc = set(), []
            for v in list(loc.values()) + [q for o in objs for q in vars(o).values()]:
                if isinstance(v, np.ndarray) and id(v) not in seen:
                    seen.add(id(v))
                    self.conc.append((v, v.copy()))
            if not hasattr(c, 'laghav'):
                c.laghav, c.lagsys = [], []
            self.entry, self.hv = {}, {}
            out, used = [], []
            for n in names:
                v = self.pre[n]
                if v is MISSING:
                    out.append(UNBOUND)
                    continue
                h = None
                for e, w in c.laghav:
                    if same_shape(v, e) and unchanged(v, e) and not any(w is u for u in used):
                        h = w
                        break
                if h is None:
                    h = fresh_like(v, 'lagin')
                    if h is None:
                        out.append(v)
                        continue
                    c.laghav.append((frozen(v), h))
                used.append(h)
                self.entry[n], self.hv[n] = frozen(v), h
                out.append(frozen(h))
            self._begin()
            return out
        # what one turn does to the state it starts from
        self._end()
        self.phase = 2
        post = {}
        for n in names:
            v1 = loc.get(n, MISSING)
            if n in self.hv:
                if v1 is MISSING or not same_shape(v1, self.hv[n]):
                    post[n] = None
                else:
                    post[n] = frozen(v1)
            elif self.pre[n] is not MISSING and v1 is not self.pre[n]:
                raise Unsupported('lag loop carries ' + n)
        ids = {n: ids_of(h) for n, h in self.hv.items()}
        uses = {}
        for n, v in post.items():
            d = ids_of(v) if v is not None else (set(), set())
            uses[n] = [m for m in self.hv if (ids[m][0] & d[0]) or (ids[m][1] & d[1])]
        out = []
        self.out = {}
        for n in names:
            if n not in self.hv:
                out.append(UNBOUND if self.pre[n] is MISSING else self.pre[n])
                self.out[n] = out[-1]
                continue
            clos = [n]
            for m in clos:
                clos += [q for q in uses[m] if q not in clos]
            if any(post[m] is None for m in clos):
                self.out[n] = Poison()
            elif uses[n] == [n] and unchanged(post[n], self.hv[n]):
                self.out[n] = frozen(self.entry[n])          # not changed by a turn
            else:
                self.out[n] = frozen(self._iterate([(self.entry[m], post[m]) for m in clos]))
            out.append(self.out[n])
        self._begin()
        return out

    def _iterate(self, system):
        """the unknown for: the component system[0] of the iterated map, at turn i"""
        from .induct import fresh_like, unchanged, same_shape
        c = ctx()

        def eq(p, q):
            return all(same_shape(a, b) and unchanged(a, b) for a, b in zip(p, q))
        for s, i, v in c.lagsys:
            if i == self.s.id and len(s) == len(system) and eq(s[0], system[0]) and all(any(eq(p, q) for q in s) for p in system):
                return v
        v = fresh_like(system[0][0], 'iterate')
        c.lagsys.append((system, self.s.id, v))
        return v

    def exit(self, loc, names):
        from .induct import Stale, unchanged, unsat, provably_eq
        if not self.done:
            raise Unsupported('early exit from the lag loop')
        self._end()
        for a, rows in self.arrs:
            old = {id(r): (v, f) for r, v, f in a.lagmark}
            touched = [r for r in a.rows if r[3] or (not unchanged(r[1], old[id(r)][0]) if id(r) in old else
                                                     (r[2] is None or not unchanged(r[1], r[2])))]
            fs = [rename(r[0]) for r in touched]
            for r in a.rows:
                mine = any(r is q for q in touched)
                for g, cs, sub in fs:
                    own = sub.get(self.s.id)
                    apart = [] if own is None or not mine else [own.__eq__(self.i).negate()]
                    if mine and own is None:
                        raise Unsupported('the same row in every turn')
                    e = g.__eq__(dim_resolve(r[0]))
                    clash = e is True or (not isinstance(e, bool) and not unsat(*(cs + apart + [e])))
                    if clash and mine:
                        raise Unsupported('a row touched by two turns')
                    if clash:
                        r[1], r[3] = Stale(), True       # rewritten by another turn
                        break
            for r, v, f in a.lagmark:
                r[3] = r[3] or f
            for r in touched:
                r[3] = True
            if any(isinstance(r[1], Stale) and any(r is q for q in a.reads) for r in a.rows):
                raise Unsupported('a turn reads a row of another turn')
        return [Poison() if n in self.hv or self.pre[n] is MISSING else self.pre[n] for n in names]
