"""C26  Saver records a faithful, immutable history; copy_states; compare_kf"""
import numpy as np
from vf.harness import contract
from .common import *


class Thing:
    """an arbitrary filter-like object"""

    def __init__(self, W, n, m):
        self.x = W.vec('x', n, 2)
        self.P = W.psd('P', n)
        self.z = W.vec('z', m, 1)
        self.count = 3
        self.gain = W.scal('gain')
        self.parts = [W.mat('a', n, m), W.mat('b', m, n)]
        self.table = {'k': W.vec('t', n, 1)}
        self.name = 'thing'
        self.none = None
        self._hidden = W.mat('hid', n, n)
        self._n = 1
        self.fn = abs
        self._pfn = len
        self.__dict__['__mangled'] = 4

    @property
    def trace(self):
        return self.x

    @property
    def doubled(self):
        return self.gain * 2

    @property
    def alias(self):
        return self.P

    def method(self):
        return 1


class Heir(Thing):
    """computed attributes inherited, redefined and added by a derived class"""

    @property
    def doubled(self):
        return self.gain * 3

    @property
    def inherited(self):
        return self.z


class Grandchild(Heir):
    pass


PROPS = ('trace', 'doubled', 'alias')


def props(o):
    return PROPS + (('inherited',) if isinstance(o, Heir) else ())


def thing(W, n, m):
    return W.choice('class', [Thing, Heir, Grandchild])(W, n, m)


def mutate(W, o, t):
    """later changes: rebinding and in-place edits of every container"""
    n, m = o.x.shape[0], o.z.shape[0]
    W.poke(o.P)
    W.poke(o.z)
    W.poke(o.parts[1])
    W.poke(o.table['k'])
    W.poke(o._hidden)
    o.x = W.vec('x' + t, n, 2)
    o.parts.append(7)
    o.parts[0] = W.mat('a' + t, n, m)
    o.table['other' + t] = 1
    o.count += 1
    o.gain = W.scal('gain' + t)
    o.name = o.name + t


def saver(W):
    return W.module('common.helpers').Saver


def expected(o, sp, sc, ignore):
    v = {}
    for k, a in vars(o).items():
        if sp and k.startswith('_') or sc and callable(a) or k in ignore:
            continue
        v[k] = a
    for p in props(o):
        if p not in ignore:
            v[p] = getattr(o, p)
    return v


@contract('C26', bounded='0 to 4 saves')
def history(W):
    n, m = W.dim('n'), W.dim('m')
    o = thing(W, n, m)
    sp, sc = W.choice('skip_private', [False, True]), W.choice('skip_callable', [False, True])
    ignore = W.choice('ignore', [(), ('x',), ('trace', '_n', 'absent'), ['fn', 'P', 'doubled']])
    now = W.choice('save_current', [False, True])
    style = W.choice('style', ['keyword', 'positional'])
    if style == 'keyword':
        kw = {}
        if now:
            kw['save_current'] = True
        if sp:
            kw['skip_private'] = True
        if sc:
            kw['skip_callable'] = True
        if len(ignore):
            kw['ignore'] = ignore
        s = saver(W)(o, **kw)
    else:
        s = saver(W)(o, now, sp, sc, ignore)
    rounds = W.choice('saves', [0, 1, 3]) if W.symbolic else W.pyrng.randint(0, 5)
    want = []
    if now:
        want.append({k: W.snap(v) for k, v in expected(o, sp, sc, ignore).items()})
        mutate(W, o, 'm')
    for k in range(rounds):
        before = W.state(o)
        W.call('save', s.save)
        W.unchanged('saving does not alter the filter', o, before)
        want.append({q: W.snap(v) for q, v in expected(o, sp, sc, ignore).items()})
        mutate(W, o, 'm%d' % k)
    W.ok('length', len(s) == len(want), '%d' % len(s))
    if not want:
        W.ok('nothing recorded', list(s.keys) == [])
        return
    W.ok('recorded names', sorted(s.keys) == sorted(want[0]), '%r %r' % (sorted(s.keys), sorted(want[0])))
    for k in want[0]:
        for how, seq in (('item', s[k]), ('attribute', getattr(s, k))):
            W.ok('one value per save: %s' % k, len(seq) == len(want))
            for i in range(len(want)):
                W.same('%s %s[%d]' % (how, k, i), seq[i], want[i][k], exact=False)
    # excluded names are not there
    for k in list(vars(o)) + list(props(o)):
        if k not in want[0]:
            W.ok('excluded: ' + k, k not in s.keys and k not in vars(s))


class Token:
    """an opaque recorded entry"""


@contract('C26')
def step(W):
    """induction step over the number of saves: whatever was recorded so far stays, by
    identity, and one value is appended to every list"""
    n, m = W.dim('n'), W.dim('m')
    o = thing(W, n, m)
    sp, sc = W.choice('skip_private', [False, True]), W.choice('skip_callable', [False, True])
    s = saver(W)(o, skip_private=sp, skip_callable=sc)
    s.save()
    k0 = len(s)
    past = {}
    for q in list(s.keys):
        past[q] = [Token() for _ in range(3)]
        s[q] = list(past[q])
    mutate(W, o, 'm')
    want = {q: W.snap(v) for q, v in expected(o, sp, sc, ()).items()}
    before = W.state(o)
    W.call('save', s.save)
    W.unchanged('saving does not alter the filter', o, before)
    W.ok('length grows by one', len(s) == k0 + 1)
    W.ok('names', sorted(s.keys) == sorted(want))
    mutate(W, o, 'mm')
    for q in want:
        for seq in (s[q], getattr(s, q)):
            W.ok('past entries kept: ' + q, len(seq) == 4 and all(a is b for a, b in zip(seq, past[q])))
            W.same('appended: ' + q, seq[3], want[q], exact=False)


@contract('C26')
def late_attribute(W):
    """an attribute that appears later is recorded from then on"""
    n, m = W.dim('n'), W.dim('m')
    o = thing(W, n, m)
    s = saver(W)(o)
    s.save()
    o.extra = W.vec('e', n, 1)
    e0 = W.snap(o.extra)
    s.save()
    W.ok('length', len(s) == 2)
    W.ok('recorded once', len(s['extra']) == 1)
    W.eq('value', s.extra[0], e0)


def kfs(W):
    M = W.module('kalman')
    n, m = W.dim('n'), W.dim('m')
    kind = W.choice('filter', ['KalmanFilter', 'ExtendedKalmanFilter', 'FadingKalmanFilter', 'InformationFilter', 'SquareRootKalmanFilter'])
    c = getattr(M, kind)
    def make():
        return c(1.02, n, m) if kind == 'FadingKalmanFilter' else c(dim_x=n, dim_z=m)
    return kind, make, n, m


@contract('C26')
def real_filters(W):
    """the filters of the library: every public attribute and property after each epoch"""
    kind, make, n, m = kfs(W)
    kf = make()
    kf.F, kf.x = W.mat('F', n, n), W.vec('x', n, 2)
    if kind in ('InformationFilter',):
        kf.P_inv = W.pd('Pi', n)
    else:
        kf.P = W.pd('P', n)
    s = saver(W)(kf)
    want = []
    props = [k for k in dir(type(kf)) if isinstance(getattr(type(kf), k, None), property)]
    for k in range(2):
        if kind == 'SquareRootKalmanFilter' or kind == 'InformationFilter':
            kf.x = W.vec('x%d' % k, n, 2)
        else:
            kf.predict()
        s.save()
        v = {a: W.snap(b) for a, b in vars(kf).items()}
        for p in props:
            v[p] = W.snap(getattr(kf, p))
        want.append(v)
        for a, b in list(vars(kf).items()):
            W.poke(b)
    W.ok('length', len(s) == 2)
    W.ok('names', set(s.keys) >= set(want[0]) - {'_log_likelihood', '_likelihood', '_mahalanobis'}, '%r' % (set(want[0]) - set(s.keys)))
    for k in want[0]:
        if k.startswith('_') or k in ('inv',):
            continue
        for i in range(2):
            W.same('%s[%d]' % (k, i), s[k][i], want[i][k], exact=False)


@contract('C26', sym=False)
def arrays(W):
    """conversion to arrays preserves every value"""
    n, m = W.dim('n'), W.dim('m')

    class O:
        pass
    o = O()
    k = W.pyrng.randint(1, 4)
    s = saver(W)(o)
    rec = []
    ragged = W.choice('ragged', [0, 0, 1])
    for i in range(k):
        o.x = W.vec('x', n, 2)
        o.P = W.mat('P', n, n)
        o.v = W.vec('v', n, 1)
        o.s = W.scal('s')
        o.one = W.mat('one', 1, 1)
        o.i = i
        o.t = [1, 2, i]
        if ragged:
            o.r = np.zeros(i + 1)
        s.save()
        rec.append({a: W.snap(b) for a, b in vars(o).items()})
    flat = W.choice('flatten', [False, True])
    if ragged and k > 1:
        W.raises('not convertible', ValueError, lambda: s.to_array(flat))
    else:
        W.call('to_array', s.to_array, flat)
    for a in rec[0]:
        got = getattr(s, a)
        want = np.array([r[a] for r in rec]) if a != 'r' or k == 1 else None
        if want is None:
            W.ok('kept as a list', isinstance(got, list) and len(got) == k)
            continue
        if not (ragged and k > 1):
            W.ok('array ' + a, isinstance(got, np.ndarray))
            W.ok('values ' + a, np.array_equal(np.ravel(got), np.ravel(want)))
            W.ok('epochs ' + a, got.shape[0] == k)
            if not flat:
                W.ok('shape ' + a, got.shape == want.shape)
        for i in range(k):
            W.same('list %s' % a, s[a][i], rec[i][a], exact=False)
    W.ok('length', len(s) == k)
    # saving goes on afterwards
    s.save()
    W.ok('length after', len(s) == k + 1)
    for i in range(k):
        W.same('kept', s['x'][i], rec[i]['x'], exact=False)
    W.ok('one more', len(s['x']) == k + 1 and len(s.x) == k + 1)


def pair(W):
    M = W.module('kalman')
    n, m = W.dim('n'), W.dim('m')
    a, b = M.KalmanFilter(dim_x=n, dim_z=m), M.KalmanFilter(dim_x=n, dim_z=m)
    return n, m, a, b


@contract('C26')
def copying(W):
    n, m, a, b = pair(W)
    b.F, b.x, b.P = W.mat('F', n, n), W.vec('x', n, 2), W.pd('P', n)
    b.B = W.mat('B', n, 1)
    if W.choice('hist', [0, 1]):
        b.predict()
        b.update(W.vec('z', m, 2))
    b.only_src = 3
    a.only_dst = 4
    # an attribute that is one and the same object in both, a container, None
    shared = W.vec('shared', n, 1)
    a.shared = b.shared = shared
    b.items = [W.vec('i0', n, 1), {'q': W.vec('i1', n, 1)}]
    a.items = None
    a.nothing, b.nothing = W.vec('no', n, 1), None
    src0 = W.state(b)
    W.call('copy_states', W.module('common.helpers').copy_states, a, b)
    W.unchanged('source unchanged', b, src0)
    W.ok('only common attributes', not hasattr(a, 'only_src') and a.only_dst == 4)
    for k, v in src0.items():
        if k in ('only_src', 'inv'):
            continue
        W.same('copied ' + k, getattr(a, k), v)
        W.noalias('deep ' + k, getattr(a, k), getattr(b, k))
    W.noalias('deep items[0]', a.items[0], b.items[0])
    W.noalias('deep items[1]', a.items[1]['q'], b.items[1]['q'])
    W.ok('deep containers', a.items is not b.items and a.items[1] is not b.items[1])
    # later changes of the source do not reach the copy
    for v in list(vars(b).values()) + [shared]:
        W.poke(v)
    b.items[1]['q2'] = 1
    for k, v in src0.items():
        if k in ('only_src', 'inv'):
            continue
        W.same('still ' + k, getattr(a, k), v)


@contract('C26', sym=False, weight=2)
def comparing(W):
    n, m, a, b = pair(W)
    cmp = W.module('common.helpers').compare_kf
    for k in (a, b):
        k.B = None
    log = W.choice('log', [True, False])
    W.ok('nothing differs', W.call('compare_kf', cmp, a, b, log) is None)
    names = ['x', 'P', 'Q', 'F', 'H', 'R', 'z', 'K', 'y', 'S', 'SI', 'B', 'M', 'x_prior', 'dim_x', 'extra', 'extra2']
    a.extra = b.extra = 5.
    a.extra2, b.extra2 = W.vec('e', n, 1), None
    b.extra2 = W.snap(a.extra2)
    a.only_a = 1
    b.only_b = 2
    a._private, b._private = 1, 2
    ch = [k for k in names if W.pyrng.random() < .25]
    for k in ch:
        v = getattr(b, k)
        if k == 'z':
            b.z = np.ones((m, 1))
        elif k == 'B':
            b.B = np.ones((n, 1))
        elif isinstance(v, np.ndarray):
            v = v.astype(float).copy()
            v.ravel()[W.rng.randint(v.size)] += W.pyrng.choice([1., -.5, 1e-2, 1e6])
            setattr(b, k, v)
        else:
            setattr(b, k, v + 1)
    sa, sb = W.state(a), W.state(b)
    r = W.call('compare_kf', cmp, a, b, log=log)
    if ch:
        W.ok('differing attributes', r is not None and sorted(r) == sorted(ch), '%r for %r' % (r, ch))
    else:
        W.ok('nothing differs', r is None, '%r' % (r,))
    W.unchanged('first unchanged', a, sa)
    W.unchanged('second unchanged', b, sb)
