"""Reachability queries on exploration graphs (product of graph and a small monitor)."""
import os
import sys
from collections import deque
from engine import Engine
from ir import Program
from val import *

HERE = os.path.dirname(os.path.abspath(__file__))
_progs = {}
_expl = {}


def prog(crate='core_nft'):
    if crate not in _progs:
        _progs[crate] = Program(crate)
    return _progs[crate]


class Ex:
    """one exploration"""

    def __init__(self, crate, name, fn, args=None, opaque=(), limit=None, flat=False, stale=False, exact=False, codec=False, block=False, aging=()):
        self.crate, self.name = crate, name
        self.eng = Engine(prog(crate), opaque=opaque, flat=flat, stale=stale, exact=exact, codec=codec, aging=aging, **({'limit': limit} if limit else {}))
        self.fn = fn
        self.g = self.eng.explore(fn, args, block)
        if self.g.truncated:
            raise Trunc('%s: exploration exceeded its bound' % name)
        self._labels = None

    def labels(self):
        """distinct labels (reachable)"""
        if self._labels is None:
            s = {}
            for out in self.g.edges:
                for d, labs in out:
                    for l in labs:
                        s[l] = None
            self._labels = list(s)
        return self._labels

    def events(self, kind):
        return [l for l in self.labels() if l[0] == 'e' and l[1] == kind]

    @property
    def fns(self):
        return self.eng.stats['fns']


class Trunc(Exception):
    pass


class Anchor(Exception):
    """an anchor of the rule is missing in the source: fail closed"""


def export(name, crate='core_nft', opaque=(), limit=None, flat=False, aging=()):
    k = (crate, name, tuple(opaque), limit, flat, aging)
    if k not in _expl:
        p = prog(crate)
        f = p.exports.get(name)
        if f is None:
            raise Anchor('exported method %s not found in %s' % (name, crate))
        _expl[k] = Ex(crate, name, f, opaque=opaque, limit=limit, flat=flat, aging=aging)
    return _expl[k]


def function(path, crate='core_nft', args=None, opaque=(), **kw):
    k = (crate, path, tuple(args or ()), tuple(opaque), tuple(sorted(kw.items())))
    if k not in _expl:
        fs = find_fns(path, crate)
        if len(fs) != 1:
            raise Anchor('function %s: %d definitions in %s' % (path, len(fs), crate))
        _expl[k] = Ex(crate, path, fs[0], args, opaque, **kw)
    return _expl[k]


def find_fns(suffix, crate='core_nft'):
    p = prog(crate)
    return [f for f in p.fns.values() if f.path == suffix or f.path.endswith('::' + suffix)]


# ------------------------------------------------------------------ paths of globals
def spath(path):
    """short path of a global: tuple of str | V(k) ; STATE.Some.0.x -> x"""
    if isinstance(path, V):
        if path.op not in ('g', 'gref'):
            return None
        path = path.a
    root = path[0].split('::')[-1].lstrip('_')
    rest = path[1:]
    if root in ('STATE',) and len(rest) >= 2 and rest[0] == 'Some':
        rest = rest[2:]
        if rest:
            return tuple(rest)
        return ('STATE',)
    if root.startswith('ICRC3_INSTANCE'):
        return ('ICRC3',) + tuple(rest[2:])
    return (root,) + tuple(rest)


def pat(p, *tmpl):
    """match a short path against strings / None (any one element) / callables on key V; prefix match if last is ..."""
    if p is None:
        return False
    i = 0
    for t in tmpl:
        if t is Ellipsis:
            return True
        if i >= len(p):
            return False
        x = p[i]
        if t is None:
            pass
        elif isinstance(t, str):
            if x != t:
                return False
        elif isinstance(t, V):
            if not (isinstance(x, V) and x.a[0] is t):
                return False
        else:
            if not (isinstance(x, V) and t(x.a[0])):
                return False
        i += 1
    return i == len(p)


def gwp(l):
    """short path of a gw label or None"""
    if l[0] == 'e' and l[1] == 'gw':
        return spath(l[2])
    return None


def dpath(*names):
    """term for a global data field"""
    return names


LEAF = ('elem', 'ekey', 'idx')


def leaves(*vs):
    out = set()
    st = list(vs)
    while st:
        v = st.pop()
        if isinstance(v, V):
            out |= {s for s in subs(v) if s.op in LEAF}
        elif isinstance(v, (tuple, frozenset)):
            st.extend(v)
    return out


def label_leaves(l):
    return leaves(*l[1:-1])


# ------------------------------------------------------------------ product search
def search(g, init, step, at_end=None, root=0):
    """BFS over (node, mstate). step(s, label, n) -> s or None (prune); violations are raised through
    the callback `report(msg)` bound in step via the returned tuple ('!', msg, newstate)."""
    start = (root, init)
    parent = {start: None}
    q = deque([start])
    out = []
    seenmsg = set()
    while q:
        cur = q.popleft()
        n, s0 = cur
        for d, labs in g.edges[n]:
            s = s0
            dead = False
            for i, l in enumerate(labs):
                r = step(s, l)
                if type(r) is Viol:
                    if r.msg not in seenmsg:
                        seenmsg.add(r.msg)
                        out.append((r.msg, l, trace(parent, g, cur) + [x for x in labs[:i + 1]]))
                    r = r.state
                if r is None:
                    dead = True
                    break
                s = r
            if dead:
                continue
            if d in g.ends:
                if at_end:
                    m = at_end(s, g.ends[d])
                    if m and m not in seenmsg:
                        seenmsg.add(m)
                        out.append((m, labs[-1] if labs else None, trace(parent, g, cur) + list(labs)))
                continue
            nx = (d, s)
            if nx not in parent:
                parent[nx] = (cur, labs)
                q.append(nx)
    return out, len(parent)


class Viol:
    __slots__ = ('msg', 'state')

    def __init__(self, msg, state):
        self.msg, self.state = msg, state


def trace(parent, g, cur):
    segs = []
    while parent[cur] is not None:
        cur, labs = parent[cur]
        segs.append(labs)
    out = []
    for s in reversed(segs):
        out.extend(s)
    return out


class Fact:
    """set(label, tgt) -> True set / False clear / None.  promote: established for every element by a
    complete loop, it also holds in later loops over the same sequence (only for facts that no write changes)."""

    def __init__(self, name, fn, promote=False):
        self.name, self.fn, self.promote = name, fn, promote


FILTERS = {'filter', 'filter_map', 'skip', 'take', 'skip_while', 'take_while', 'step_by', 'map_while', 'flat_map', 'flatten', 'chain', 'zip',
           'zip.rev', 'zip.skip', 'zip.step_by', 'zip.filter', 'zip.filter_map', 'zip.skip_while', 'zip.map_while', 'zip.flat_map', 'zip.take', 'zip.take_while'}


def must_hold(ex, is_target, facts_for, formula, msg, about=None):
    """at every occurrence of a target label, formula(dict fact->bool) must be true.
    facts_for(target label) -> list of Fact.  returns (violations, n targets, n product states)"""
    tgts = [l for l in ex.labels() if is_target(l)]
    viol = []
    states = 0
    for t in tgts:
        facts = facts_for(t)
        tl = leaves(about(t)) if about else label_leaves(t)
        names = [f.name for f in facts]
        cache = {}

        def classify(l):
            r = cache.get(l)
            if r is not None:
                return r
            res = None
            if l is t or l == t:
                res = ('t',)
            elif l[0] == 'e' and l[1] == 'iter_next':
                res = loop('n', l, l[4], l[6], tl)
            elif l[0] == 'e' and l[1] == 'iter_end':
                res = loop('z', l, l[3], l[5], tl)
            if res is None or res[0] == 't':
                ups = []
                for i, f in enumerate(facts):
                    r = f.fn(l, t)
                    if r is True:
                        ups.append((i, frozenset(label_leaves(l) & tl)))
                    elif r is False:
                        ups.append((i, None))
                if res is None:
                    res = ('s', ups) if ups else ('0',)
            cache[l] = res
            return res

        init = tuple((None, frozenset(), frozenset(), frozenset()) for _ in facts)
        # per fact: cur leaves|None, in-loop leaves, failed leaves, promoted leaves

        def step(s, l):
            c = classify(l)
            k = c[0]
            if k == '0':
                return s
            if k == 's':
                s = list(s)
                for i, v in c[1]:
                    s[i] = (v,) + s[i][1:]
                return tuple(s)
            if k == 't':
                env = {nm: (x[0] is not None or bool(x[3])) for nm, x in zip(names, s)}
                if not formula(env, t):
                    return Viol(msg(t, env), s)
                return s
            out = []
            for (cur, inl, fail, prom), f in zip(s, facts):
                for e in c[3]:
                    if e not in inl and cur is not None and e in cur:
                        cur = None
                for e in c[1]:
                    if k == 'n':
                        if e in inl:
                            if cur is None:
                                fail = fail | {e}
                        else:
                            inl = inl | {e}
                            fail = fail - {e}
                        if not c[2]:
                            fail = fail | {e}
                    else:
                        if e in inl and cur is None:
                            fail = fail | {e}
                        if not c[2]:
                            fail = fail | {e}
                        if f.promote and e not in fail:
                            prom = prom | {e}
                        inl = inl - {e}
                        fail = fail - {e}
                    if cur is not None and e in cur:
                        cur = None
                out.append((cur, inl, fail, prom))
            return tuple(out)

        v, n = search(ex.g, init, step)
        states += n
        for m, l, tr in v:
            viol.append((t, m, tr))
    return viol, tgts, states


def loop(kind, l, ops, bound, tl):
    d = frozenset(bound[0]) & tl
    v = frozenset(bound[1]) & tl
    if not d and not v:
        return ('0',)
    return (kind, d, not (set(ops) & FILTERS), v)


def follow(ex, trig, discharge, msg, ends=('return',), reset_ok=None):
    """after every trigger label, a discharging label must occur before the exploration ends (kinds in `ends`)
    or before the element the trigger is about is rebound"""
    trigs = [l for l in ex.labels() if trig(l)]
    viol = []
    states = 0
    for t in trigs:
        tl = label_leaves(t)
        cache = {}

        def cl(l):
            r = cache.get(l)
            if r is None:
                if l == t:
                    r = 't'
                elif discharge(l, t):
                    r = 'd'
                elif l[0] == 'e' and l[1] == 'iter_next' and (set(l[6][0]) & tl):
                    r = 'n'
                else:
                    r = '0'
                cache[l] = r
            return r

        def step(s, l):
            c = cl(l)
            if c == '0':
                return s
            if c == 't':
                return True
            if c == 'd':
                return False
            if s:
                return Viol(msg(t, 'the next element is processed'), False)
            return s

        def at_end(s, kind):
            if s and kind in ends:
                return msg(t, 'the call ends (%s)' % kind)
        v, n = search(ex.g, False, step, at_end)
        states += n
        viol += [(t, m, tr) for m, l, tr in v]
    return viol, trigs, states


# ------------------------------------------------------------------ rendering
def fmt_label(l):
    def sh(x):
        if isinstance(x, V):
            return show(x)
        if isinstance(x, tuple):
            return '(' + ', '.join(map(sh, x)) + ')'
        return str(x)
    loc = l[-1]
    where = '%s:%s (%s)' % (loc[1], loc[2], loc[0]) if isinstance(loc, tuple) and len(loc) == 3 else ''
    if l[0] == 'p':
        return 'branch  %s = %s   at %s' % (clip(show(l[1])), sh(l[2]), where)
    return 'effect  %s %s   at %s' % (l[1], clip('  '.join(sh(x) for x in l[2:-1])), where)


def clip(s, n=400):
    s = s.replace('core_nft::state::', '').replace('__STATE.Some.0.', 'STATE.')
    return s if len(s) <= n else s[:n] + '…'


def where(l):
    loc = l[-1]
    return '%s:%s in %s' % (loc[1], loc[2], loc[0]) if isinstance(loc, tuple) and len(loc) == 3 else '?'
