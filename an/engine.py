"""Path-sensitive, interprocedural abstract interpretation of MIR bodies.

One exploration from a root function yields an exploded supergraph: nodes are
(control stack, abstract environment, decided atoms), edges carry the branch
atoms decided and the events (effects) performed.  Properties are decided by
reachability on that graph (query.py).  Nothing is executed and no solver is used.
"""
import sys
from ir import Program, last2, strip_generics
from val import *
import val as _v

sys.setrecursionlimit(20000)

OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
CFLOW = 'std::ops::ControlFlow'
POLL = 'std::task::Poll'
STDVARS = {
    OPTION: [('None', 0), ('Some', 1)],
    RESULT: [('Ok', 0), ('Err', 1)],
    CFLOW: [('Continue', 0), ('Break', 1)],
    POLL: [('Ready', 0), ('Pending', 1)],
}
LIMIT = 40


class Frame:
    __slots__ = ('body', 'bb', 'env')

    def __init__(self, body, bb, env):
        self.body, self.bb, self.env = body, bb, env


class XF:
    __slots__ = ('name', 'data')

    def __init__(self, name, *data):
        self.name, self.data = name, data


class State:
    __slots__ = ('fr', 'facts')

    def __init__(self, fr, facts):
        self.fr, self.facts = fr, facts

    def copy(self):
        return State([Frame(f.body, f.bb, dict(f.env)) if isinstance(f, Frame) else f for f in self.fr], dict(self.facts))


class Graph:
    def __init__(self):
        self.nodes = []       # frozen keys
        self.edges = []       # list of [(dst, labels)]
        self.ends = {}        # node idx -> end kind
        self.truncated = False


class Abort(Exception):
    pass


def is_cell_guard(ty):
    return ty.startswith(('std::cell::Ref<', 'std::cell::RefMut<', 'core::cell::Ref<', 'core::cell::RefMut<'))


GROWING = ('add', 'sub', 'mul', 'min', 'max')
FILTERING = ('rev', 'skip', 'step_by', 'filter', 'filter_map', 'skip_while', 'map_while', 'flat_map', 'flatten', 'chain', 'take_while')
PAIRING = ('rev', 'skip', 'step_by', 'filter', 'filter_map', 'skip_while', 'map_while', 'flat_map', 'flatten', 'take', 'take_while')


MANY = 3


def length(n):
    """(list, limit) if n is the length of a list, or the smaller one of that and a limit"""
    if n.op == 'len':
        return n.a[0], None
    if n.op == 'app' and n.a[0] == 'min' and len(n.a) == 3:
        for x, y in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
            if x.op == 'len' and y.op != 'len':
                return x.a[0], y
    return None


class Engine:
    def __init__(self, prog, opaque=(), max_nodes=60000, limit=LIMIT, flat=False, stale=False, exact=False, codec=False, aging=()):
        self.p = prog
        self.codec = codec      # see codec.py
        self.opaque = set(opaque)
        self.stale = stale
        self.aging = aging      # names of settings whose values read earlier become old(..) when they are written
        self.exact = exact      # see exact.py
        self.max_nodes = max_nodes
        self.flat = flat        # local collections forget their elements (the 'out' events tell them)
        self.limit = limit      # distinct states kept per control point before they are joined
        self.adtinfo = {}
        self.stats = {'fns': set(), 'ext': {}, 'calls': 0}
        self.from_cache = {}

    # ---- adt helpers
    def variants(self, adt):
        if adt in STDVARS:
            return STDVARS[adt]
        r = self.adtinfo.get(adt)
        if r is None:
            vs = self.p.variants(adt) if adt else None
            r = [(n, d) for n, d, _ in vs] if vs else []
            self.adtinfo[adt] = r
        return r

    # ---- exploring
    def explore(self, fn, args=None, block=False):
        self.g = Graph()
        self.ids = {}
        self.bylk = {}
        self.joined = {}
        body = fn.body
        body.prep()
        env = {}
        for i in range(body.argc):
            env[i + 1] = (args[i] if args and i < len(args) else mk('arg', i))
        st = State(([XF('block')] if block else []) + [Frame(body, 0, env)], {})
        self.stats['fns'].add(fn.path)
        root = self.node(st)
        self.todo = [root]
        self.done = set()
        while self.todo:
            n = self.todo.pop()
            if n in self.done:
                continue
            self.done.add(n)
            self.expand(n)
            if len(self.g.nodes) > self.max_nodes:
                self.g.truncated = True
                break
        return self.g

    def node(self, st):
        key = self.freeze(st)
        i = self.ids.get(key)
        if i is not None:
            return i
        lk = self.lockey(key)
        lst = self.bylk.setdefault(lk, [0])
        if lst[0] >= self.limit:
            sig = self.sig(key)
            jk = (lk, sig) if lst[0] < self.limit * 6 else (lk, None)
            old = self.joined.get(jk)
            if old is not None:
                key2 = self.joinkeys(old, key)
                if key2 == old:
                    self.joined[jk] = old
                    return self.ids[old]
                key = key2
            i = self.ids.get(key)
            self.joined[jk] = key
            if i is not None:
                return i
        lst[0] += 1
        i = len(self.g.nodes)
        self.ids[key] = i
        self.g.nodes.append(key)
        self.g.edges.append([])
        return i

    def lockey(self, key):
        return tuple((f[0], f[1], f[2]) if f[0] != 'x' else ('x', f[1], f[3]) for f in key[0])

    def sig(self, key):
        s = []
        for f in key[0]:
            if f[0] != 'x':
                for l, v in f[3]:
                    if v.op == 'bool' or (v.op == 'adt' and len(v.a) == 3):
                        s.append((l, v))
                    elif v.op == 'adt' and v.a[0] in STDVARS:
                        s.append((l, v.a[1]))
        return tuple(s)

    def joinkeys(self, a, b):
        fr = []
        for i, (x, y) in enumerate(zip(a[0], b[0])):
            if x[0] == 'x':
                if x[2] == y[2]:
                    fr.append(x)
                else:
                    fr.append(('x', x[1], tuple(self.joinany(p, q, (x[1], k)) for k, (p, q) in enumerate(zip(x[2], y[2]))), x[3]))
                continue
            dx, dy = dict(x[3]), dict(y[3])
            env = []
            for l in sorted(set(dx) & set(dy) | {k for k in (*dx, *dy) if k < 0}):
                env.append((l, self.join(dx.get(l, dy.get(l)), dy.get(l, dx.get(l)), (x[0], l))))
            fr.append((x[0], x[1], x[2], tuple(env)))
        facts = frozenset(a[1] & b[1])
        return (tuple(fr), facts)

    def joinany(self, p, q, site):
        if isinstance(p, V) and isinstance(q, V):
            return self.join(p, q, site)
        if p == q:
            return p
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            return tuple(self.joinany(x, y, site) for x, y in zip(p, q))
        raise Abort('join of model data %r %r' % (p, q))

    def join(self, a, b, site):
        if a is b:
            return a
        if a.op == b.op:
            if a.op == 'adt' and a.a[:3] == b.a[:3]:
                return mk('adt', *a.a[:3], *[self.join(x, y, site) for x, y in zip(a.a[3:], b.a[3:])])
            if a.op == 'tup' and len(a.a) == len(b.a):
                return mk('tup', *[self.join(x, y, site) for x, y in zip(a.a, b.a)])
            if a.op == 'map':
                base = self.join(a.a[0], b.a[0], site)
                ka = {x.a[0]: x for x in a.a[1].a if x.op == 'tup' and len(x.a) == 2}
                kb = {x.a[0]: x for x in b.a[1].a if x.op == 'tup' and len(x.a) == 2}
                if len(ka) == len(a.a[1].a) and len(kb) == len(b.a[1].a):
                    # entries under the same key: one entry that holds either value
                    ents = [self.join(x, kb[k], site) if k in kb else x for k, x in ka.items()] + [x for k, x in kb.items() if k not in ka]
                else:
                    ents = a.a[1].a + b.a[1].a
                return mapv(base, ents, a.a[2].a + b.a[2].a)
            if a.op in ('iter', 'op', 'entries', 'keys', 'values', 'chain') and len(a.a) == len(b.a) and all(x is y or (isinstance(x, V) and isinstance(y, V)) for x, y in zip(a.a, b.a)):
                return mk(a.op, *[self.join(x, y, site) if isinstance(x, V) else x for x, y in zip(a.a, b.a)])
            if a.op in ('clo', 'cor') and a.a[0] == b.a[0]:
                return mk(a.op, a.a[0], a.a[1], *[self.join(x, y, site) for x, y in zip(a.a[2:], b.a[2:])])
        if a.op in ('bag', 'arr') and b.op in ('bag', 'arr'):
            r = set(a.a) | set(b.a)
            if len(r) <= 12:
                return bag(r)
        if a.op == 'wid' or b.op == 'wid':
            return a if a.op == 'wid' else b
        xs = set()
        for v in (a, b):
            if v.op == 'phi':
                xs |= set(v.a)
            else:
                xs.add(v)
        if len(xs) > 10:
            return mk('wid', str(site))
        return mk('phi', *sorted(xs, key=lambda x: x.id))

    def freeze(self, st):
        fr = st.fr
        n = len(fr)
        keep = [None] * n
        work = []
        for i, f in enumerate(fr):
            if isinstance(f, XF):
                st_ = list(f.data)
                while st_:
                    x = st_.pop()
                    if isinstance(x, V):
                        work.append(x)
                    elif isinstance(x, tuple):
                        st_.extend(x)
                continue
            b = f.body
            if i == n - 1:
                live = b.live[f.bb]
            else:
                t = b.bbs[f.bb][1]
                tgt = t[4] if t[0] == 'call' else (t[2] if t[0] == 'drop' else None)
                live = set() if tgt is None else set(b.live[tgt])
                if t[0] == 'call' and not t[3][1]:
                    live.discard(t[3][0])
            k = keep[i] = set()
            for l in live:
                if l in f.env:
                    k.add(l)
                    work.append(f.env[l])
            for l in f.env:
                # where the counter of a loop started
                if l < 0 and b.cyc.get(f.bb) is not None and b.cyc.get(f.bb) == b.cyc.get(-1 - l):
                    k.add(l)
        seen = set()
        vals = []
        while work:
            v = work.pop()
            if v.id in seen:
                continue
            seen.add(v.id)
            vals.append(v)
            for s in subs(v):
                if s.op == 'ref':
                    d, l = s.a[0], s.a[1]
                    if d < n and keep[d] is not None and l not in keep[d] and l in fr[d].env:
                        keep[d].add(l)
                        work.append(fr[d].env[l])
        out = []
        for i, f in enumerate(fr):
            if isinstance(f, XF):
                out.append(('x', f.name, f.data, None))
            else:
                out.append((f.body.fn.id, f.body.prom, f.bb, tuple((l, f.env[l]) for l in sorted(keep[i]))))
        facts = set()
        if st.facts:
            allsubs = set()
            for v in vals:
                allsubs |= subs(v)
            for k, x in st.facts.items():
                if k in allsubs:
                    facts.add((k, x))
                elif k.op in ('eq', 'lt'):
                    if all(y in allsubs or y.op in ('caller', 'int', 'str') or (y.op == 'adt' and len(y.a) <= 3) for y in k.a):
                        facts.add((k, x))
        return (tuple(out), frozenset(facts))

    def thaw(self, key):
        fr = []
        for f in key[0]:
            if f[0] == 'x':
                fr.append(XF(f[1], *f[2]))
            else:
                fn = self.p.fns[f[0]]
                body = fn.body if f[1] is None else fn.proms[f[1]]
                fr.append(Frame(body, f[2], dict(f[3])))
        return State(fr, dict(key[1]))

    def expand(self, n):
        st = self.thaw(self.g.nodes[n])
        self.src = n
        self.work = []
        self.steps = 0
        top = st.fr[-1]
        if isinstance(top, XF):
            self.xstep(st, [])
        else:
            self.exec_block(st, [])
        while self.work:
            s, lab = self.work.pop()
            self.exec_block(s, lab)

    def boundary(self, st, lab):
        m = self.node(st)
        self.g.edges[self.src].append((m, lab))
        self.todo.append(m)

    def end(self, st, lab, kind, loc=None):
        key = ('end', kind)
        i = self.ids.get(key)
        if i is None:
            i = len(self.g.nodes)
            self.ids[key] = i
            self.g.nodes.append(key)
            self.g.edges.append([])
            self.g.ends[i] = kind
            self.done.add(i)
        self.g.edges[self.src].append((i, lab))

    def cont(self, st, lab, bb):
        """continue top MIR frame at block bb"""
        f = st.fr[-1]
        f.bb = bb
        b = f.body
        if b.npred[bb] >= 2 or bb in b.backtgt:
            self.boundary(st, lab)
        else:
            self.work.append((st, lab))

    # ---- location of the innermost MIR frame, for reports
    def loc(self, st, line=None):
        for f in reversed(st.fr):
            if isinstance(f, Frame):
                t = f.body.bbs[f.bb][1]
                ln = line
                if ln is None:
                    ln = t[5] if t[0] == 'call' else (t[4] if t[0] in ('sw', 'drop') else (t[-1] if t[0] in ('ret', 'yield') else f.body.fn.line))
                return (f.body.fn.path, f.body.fn.file, ln)
        return ('?', '?', 0)

    def site(self, st):
        f = [x for x in st.fr if isinstance(x, Frame)][-1]
        return '%s#%d' % (f.body.fn.path, f.bb)

    # ---- places
    def read_loc(self, st, loc):
        if loc[0] == 'g':
            return mk('g', *loc[1])
        _, d, l, toks = loc
        v = st.fr[d].env.get(l)
        if v is None:
            v = mk('uninit')
        for t in toks:
            v = self.proj(st, v, t)
        return v

    def proj(self, st, v, t):
        k = t[0]
        if v.op in ('ref',):
            v = self.deref(st, v)
        if v.op == 'phi':
            if len(v.a) <= 10:
                r = None
                for x in v.a:
                    y = self.proj(st, x, t)
                    r = y if r is None else self.join(r, y, ('phi', 0))
                return r
        if k == 'f':
            name = t[1]
            if v.op == 'adt':
                if name in v.a[2]:
                    return v.a[3 + v.a[2].index(name)]
                return mk('fld', v, name)
            if v.op == 'tup':
                i = int(name)
                if i < len(v.a):
                    return v.a[i]
            if v.op in ('clo', 'cor'):
                return v.a[2 + int(name)]
            if v.op == 'upd':
                for i in range(1, len(v.a), 2):
                    if v.a[i] == name:
                        return v.a[i + 1]
                return self.proj(st, v.a[0], t)
            if v.op == 'args':
                return mk('arg', int(name))
            if v.op == 'g':
                return mk('g', *v.a, name)
            if v.op == 'gref':
                return mk('g', *v.a, name)
            if v.op == 'as':
                b, var = v.a
                if b.op == 'opt' and var == 'Some':
                    return b.a[0]
                if b.op == 'res':
                    return b.a[0] if var == 'Ok' else b.a[1]
                if b.op == 'g':
                    return mk('g', *b.a, var, name)
                return mk('pay', b, var, name)
            if len(t) > 2 and t[2] in ('candid::Nat', 'candid::Int') :
                return v
            return mk('fld', v, name)
        if k == 'd':
            if v.op == 'adt' and v.a[1] == t[1]:
                return v
            if v.op == 'as' and v.a[1] == t[1]:
                return v
            return mk('as', v, t[1])
        if k == 'i':
            if v.op == 'arr' and t[1].op == 'int' and 0 <= t[1].a[0] < len(v.a):
                return v.a[t[1].a[0]]
            return atv(v, t[1])
        if k == 'c':
            if v.op == 'arr':
                i = t[1] if not t[2] else len(v.a) - t[1]
                if 0 <= i < len(v.a):
                    return v.a[i]
            return atv(v, intv(t[1]))
        return mk('slice', v)

    def loc_of(self, st, d, place):
        fr = st.fr[d]
        cur = ('l', d, place[0], ())
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = self.read_loc(st, cur)
                if v.op == 'ref':
                    cur = ('l', v.a[0], v.a[1], v.a[2])
                elif v.op == 'gref':
                    cur = ('g', v.a)
                continue
            if k == 'f':
                name = e[2] if e[2] is not None else str(e[1])
                tok = ('f', name, e[3] if len(e) > 3 else '')
            elif k == 'd':
                tok = ('d', e[2])
            elif k == 'i':
                tok = ('i', self.deep(st, fr.env.get(e[1], mk('uninit'))))
            elif k == 'c':
                tok = ('c', e[1], e[3])
            else:
                tok = ('s',)
            if cur[0] == 'g':
                if k == 'f':
                    if tok[2] in ('candid::Nat', 'candid::Int'):
                        continue
                    cur = ('g', cur[1] + (name,))
                elif k == 'd':
                    cur = ('g', cur[1] + (e[2],))
                elif k == 'i':
                    cur = ('g', cur[1] + (mk('k', tok[1]),))
                else:
                    cur = ('g', cur[1] + ('each',))
            else:
                # a field that itself holds a pointer is followed only by an explicit '*'
                cur = ('l', cur[1], cur[2], cur[3] + (tok,))
        return cur

    def write_loc(self, st, lab, loc, v, line=None):
        if loc[0] == 'g':
            self.gwrite(st, lab, loc[1], 'set', (self.deep(st, v),), line)
            return
        _, d, l, toks = loc
        env = st.fr[d].env
        if not toks:
            env[l] = v
        else:
            env[l] = self.update(st, env.get(l, mk('uninit')), toks, v)

    def update(self, st, v, toks, new):
        if not toks:
            return new
        t = toks[0]
        k = t[0]
        if k == 'f':
            name = t[1]
            if v.op == 'adt' and name in v.a[2]:
                i = 3 + v.a[2].index(name)
                return mk('adt', *v.a[:i], self.update(st, v.a[i], toks[1:], new), *v.a[i + 1:])
            if v.op == 'tup' and int(name) < len(v.a):
                i = int(name)
                return mk('tup', *v.a[:i], self.update(st, v.a[i], toks[1:], new), *v.a[i + 1:])
            if v.op in ('clo', 'cor') and name.isdigit():
                i = 2 + int(name)
                return mk(v.op, *v.a[:i], self.update(st, v.a[i], toks[1:], new), *v.a[i + 1:])
            if len(t) > 2 and t[2] in ('candid::Nat', 'candid::Int'):
                return self.update(st, v, toks[1:], new)
            sub = self.update(st, self.proj(st, v, t), toks[1:], new)
            if v.op == 'upd':
                dd = {v.a[i]: v.a[i + 1] for i in range(1, len(v.a), 2)}
                base = v.a[0]
            else:
                dd, base = {}, v
            dd[name] = sub
            flat = []
            for n in sorted(dd):
                flat += [n, dd[n]]
            return mk('upd', base, *flat)
        if k == 'd':
            if v.op == 'adt':
                return self.update(st, v, toks[1:], new)
            return mk('updv', v, t[1], str(toks[1:]), new)
        old = v.a if v.op in ('arr', 'bag') else (v,)
        return bag(set(old) | {self.update(st, self.proj(st, v, t), toks[1:], new)}) if v.op in ('arr', 'bag') else mk('updat', v, new)

    def deref(self, st, v):
        n = 0
        while v.op in ('ref', 'gref') and n < 50:
            if v.op == 'gref':
                return mk('g', *v.a)
            v = self.read_loc(st, ('l', v.a[0], v.a[1], v.a[2]))
            n += 1
        return v

    def deep(self, st, v, d=0):
        """snapshot: pointers replaced by the values they point to, recursively through aggregates"""
        v = self.deref(st, v)
        if v.op in ('adt', 'tup', 'arr', 'bag', 'upd', 'map', 'eq', 'lt', 'not', 'opt', 'res', 'app', 'fld', 'ret') and d < 12:
            ch = False
            a = []
            for x in v.a:
                if isinstance(x, V):
                    if any(s.op in ('ref', 'gref') for s in subs(x)):
                        y = self.deep(st, x, d + 1)
                        ch = ch or (y is not x)
                        a.append(y)
                        continue
                a.append(x)
            if ch:
                if v.op == 'bag':
                    return bag(a)
                return mk(v.op, *a)
        return v

    # ---- events / facts
    def ev(self, st, lab, *e, line=None):
        lab.append(('e',) + e + (self.loc(st, line),))

    def gwrite(self, st, lab, path, how, vals, line=None):
        self.ev(st, lab, 'gw', path, how, vals, line=line)
        self.kill_g(st, path)
        if self.aging and path and path[-1] in self.aging:
            self.age(st, path)

    def kill_g(self, st, path):
        if not st.facts:
            return
        dead = []
        for k in st.facts:
            for s in subs(k):
                if s.op in ('g', 'gref') and self.overlap(s.a, path):
                    dead.append(k)
                    break
        for k in dead:
            del st.facts[k]

    def overlap(self, a, b):
        for x, y in zip(a, b):
            if isinstance(x, V) and isinstance(y, V):
                continue
            if isinstance(x, V) or isinstance(y, V):
                continue
            if x != y:
                return False
        return True

    def kill_all_g(self, st):
        for k in list(st.facts):
            if any(s.op in ('g', 'gref') for s in subs(k)):
                del st.facts[k]

    def age(self, st, path=None):
        """what was read from shared state before a suspension is no longer what the state holds"""
        memo = {}

        def old(v):
            r = memo.get(v)
            if r is None:
                if v.op == 'g' and (path is None or v.a == path):
                    r = mk('old', v)
                elif v.op in ('gref', 'old') or not any(s.op == 'g' for s in subs(v)):
                    r = v
                else:
                    r = mk(v.op, *[old(x) if isinstance(x, V) else x for x in v.a])
                memo[v] = r
            return r
        for f in st.fr:
            if isinstance(f, Frame):
                for k in f.env:
                    f.env[k] = old(f.env[k])
            else:
                f.data = tuple(old(x) if isinstance(x, V) else x for x in f.data)
        return old

    def kill_term(self, st, t):
        for k in list(st.facts):
            if t in subs(k):
                del st.facts[k]

    def kill_each(self, st, path):
        """the next element of a stored list: nothing is known about it"""
        n = len(path)
        for k in list(st.facts):
            if any(s.op in ('g', 'gref') and s.a[:n] == path for s in subs(k)):
                del st.facts[k]

    # ---- operands / rvalues
    def operand(self, st, o, lab):
        d = len(st.fr) - 1
        k = o[0]
        if k == 'k':
            return self.const(st, o[1])
        p = o[1]
        if not p[1]:
            v = st.fr[d].env.get(p[0], None)
            if v is None:
                v = mk('uninit')
            if k == 'mv':
                st.fr[d].env.pop(p[0], None)
            return v
        loc = self.loc_of(st, d, p)
        v = self.read_loc(st, loc)
        if k == 'mv' and loc[0] == 'l' and loc[1] == d and self.p.drops and not any(e[0] == '*' for e in p[1]) and self.nested_drops(st, v):
            # a value with drop glue is moved out of an aggregate: its source no longer owns it
            self.write_loc(st, lab, loc, mk('moved'))
        return v

    def const(self, st, c):
        if 'fnd' in c:
            f = c['fnd']
            return mk('fn', f.get('res') or f['fn'], f.get('resid') if f.get('loc') else '', f['fn'], tuple(f.get('rargs') or f.get('args') or ()))
        t = c['ty']
        if 'int' in c:
            if t == 'bool':
                return boolv(bool(c['int']))
            if 'def' in c:
                return mk('int', c['int'])
            return mk('int', c['int'])
        if 'str' in c:
            return strv(c['str'])
        if 'bstr' in c:
            return strv(c['bstr'])
        if 'prom' in c:
            fn = st.fr[-1].body.fn
            if c.get('defid') in self.p.fns:
                fn = self.p.fns[c['defid']]
            return self.eval_prom(st, fn, c['prom'])
        if 'static' in c:
            return mk('gref', c['static'])
        if t == '()':
            return UNIT
        if 'def' in c:
            if 'LocalKey<' in t:
                return mk('lk', c['def'], t)
            fn = self.p.fns.get(c.get('defid'))
            if fn is not None:
                v = self.eval_const_body(st, fn.body)
                if v is not None:
                    return v
            return mk('const', c['def'])
        key = self.p.adtkey(t)
        a = self.p.adts.get(key)
        if a and a['kind'] == 'struct' and not a['vars'][0][2]:
            return mk('adt', key, a['vars'][0][0], ())
        if t.startswith('[') and t.endswith('; 0]'):
            return mk('arr')
        if 'disp' in c:
            return mk('cst', t, c['disp'])
        return mk('zst', t)

    def eval_prom(self, st, fn, i):
        if i >= len(fn.proms):
            return mk('unk', 'prom')
        v = self.eval_const_body(st, fn.proms[i])
        return v if v is not None else mk('unk', 'prom:%s:%d' % (fn.path, i))

    def eval_const_body(self, st, body):
        """straight-line evaluation of a promoted/const body (no calls); references become values"""
        body.prep()
        env = {}
        bb = 0
        tmp = State([Frame(body, 0, env)], {})
        for _ in range(200):
            for s in body.bbs[bb][0]:
                if s[0] == '=':
                    v = self.rvalue(tmp, s[2], [])
                    self.write_loc(tmp, [], self.loc_of(tmp, 0, s[1]), v)
            t = body.bbs[bb][1]
            if t[0] == 'goto':
                bb = t[1]
            elif t[0] == 'assert':
                bb = t[1]
            elif t[0] == 'ret':
                v = tmp.fr[0].env.get(0)
                return self.deep(tmp, v) if v is not None and v.op != 'gref' and v.op != 'lk' else v
            else:
                return None
            tmp.fr[0].bb = bb
        return None

    def rvalue(self, st, r, lab):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1], lab)
        if k == 'ref':
            d = len(st.fr) - 1
            loc = self.loc_of(st, d, r[2])
            if loc[0] == 'g':
                return mk('gref', *loc[1])
            v = st.fr[loc[1]].env.get(loc[2])
            if r[2][1] and r[2][1][-1][0] == '*':
                # reborrow
                base = self.read_loc(st, self.loc_of(st, d, [r[2][0], r[2][1][:-1]]))
                if base.op in ('ref', 'gref'):
                    return base
                if base.op not in ('uninit',):
                    return base
            # a reference to a plain value that is a place inside a term: keep a pointer when addressable
            return mk('ref', loc[1], loc[2], loc[3])
        if k == 'tls':
            return mk('gref', r[1])
        if k == 'cast':
            v = self.operand(st, r[2], lab)
            w = NARROW.get(r[3]) if r[1] == 'IntToInt' else None
            if w and not (v.op == 'int' and 0 <= v.a[0] < 2 ** w) and v.op not in ('bool', 'discr'):
                return mk('app', 'narrow', mk('str', r[3]), self.deep(st, v))
            return v
        if k == 'bin':
            a = self.deep(st, self.operand(st, r[2], lab))
            b = self.deep(st, self.operand(st, r[3], lab))
            return self.binop(r[1], a, b)
        if k == 'un':
            a = self.deep(st, self.operand(st, r[2], lab))
            if r[1] == 'Not':
                return notv(a)
            if r[1] == 'PtrMetadata':
                return self.lenv(a)
            return mk('app', r[1], a)
        if k == 'discr':
            v = self.deref(st, self.read_loc(st, self.loc_of(st, len(st.fr) - 1, r[1])))
            return mk('discr', v, r[3] or '')
        if k == 'adt':
            vals = [self.operand(st, o, lab) for o in r[5]]
            return mk('adt', r[1], r[3], tuple(r[4]), *vals) if len(vals) == len(r[4]) else mk('unk', 'adt')
        if k == 'tup':
            if not r[1]:
                return UNIT
            return mk('tup', *[self.operand(st, o, lab) for o in r[1]])
        if k == 'arr':
            return mk('arr', *[self.operand(st, o, lab) for o in r[1]])
        if k == 'clo' or k == 'cor':
            return mk(k, r[1], r[2], *[self.operand(st, o, lab) for o in r[3]])
        if k == 'repeat':
            return mk('app', 'repeat', self.operand(st, r[1], lab), intv(r[2] if r[2] is not None else -1))
        return mk('unk', 'rv:' + k)

    def lenv(self, a):
        if a.op == 'arr':
            return intv(len(a.a)) if self.exact or not a.a else mk('len', a)
        if a.op == 'str':
            return intv(len(a.a[0].encode()))
        if a is EMPTYBAG:
            return intv(0)
        return mk('len', a)

    def binop(self, o, a, b):
        w = o.endswith('WithOverflow')
        if w:
            o = o[:-len('WithOverflow')]
        r = None
        if o == 'Eq':
            r = eqv(a, b)
        elif o == 'Ne':
            r = notv(eqv(a, b))
        elif o == 'Lt':
            r = ltv(a, b)
        elif o == 'Gt':
            r = ltv(b, a)
        elif o == 'Ge':
            r = notv(ltv(a, b))
        elif o == 'Le':
            r = notv(ltv(b, a))
        elif o in ('BitAnd', 'BitOr') and (a.op == 'bool' or b.op == 'bool'):
            x, y = (a, b) if a.op == 'bool' else (b, a)
            if o == 'BitAnd':
                r = y if x.a[0] else FALSE
            else:
                r = TRUE if x.a[0] else y
        if r is None:
            if a.op == 'int' and b.op == 'int':
                x, y = a.a[0], b.a[0]
                f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'AddUnchecked': lambda: x + y,
                     'Div': lambda: x // y if y else None, 'Rem': lambda: x % y if y else None,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'Shl': lambda: x << y if y < 256 else None}.get(o)
                z = f() if f else None
                if z is not None:
                    r = intv(z)
            if r is None:
                r = self.arith(o.lower(), a, b)
        return tup(r, FALSE) if w else r

    def arith(self, o, a, b):
        if o in ('add', 'mul', 'bitand', 'bitor'):
            if o == 'add':
                if a is intv(0):
                    return b
                if b is intv(0):
                    return a
                if self.stale:
                    # counters advanced in a loop: base + c, then base + a multiple of c
                    for c, x in ((a, b), (b, a)):
                        if c.op == 'int':
                            if x.op == 'ups' and x.a[1] is c:
                                return x
                            if x.op == 'app' and x.a[0] == 'add' and c in x.a[1:]:
                                return mk('ups', x.a[2] if x.a[1] is c else x.a[1], c)
            if a.id > b.id:
                a, b = b, a
        return mk('app', o, a, b)

    # ---- deciding atoms
    def truth(self, st, v):
        """[(bool, state, labels)]"""
        if v.op == 'bool':
            return [(v.a[0], st, [])]
        if v.op == 'not':
            return [(not b, s, l) for b, s, l in self.truth(st, v.a[0])]
        if v.op == 'isvar':
            out = []
            for name, s, l in self.split(st, v.a[0], v.a[2]):
                out.append((name == v.a[1], s, l))
            return out
        if v.op == 'phi' and all(x.op == 'bool' for x in v.a):
            s2 = st.copy()
            return [(True, st, []), (False, s2, [])]
        f = st.facts.get(v)
        if f is not None:
            return [(f, st, [])]
        s2 = st.copy()
        st.facts[v] = True
        s2.facts[v] = False
        loc = self.loc(st)
        return [(True, st, [('p', v, True, loc)]), (False, s2, [('p', v, False, loc)])]

    def split(self, st, v, adt):
        """[(variant, state, labels)]"""
        v = self.deref(st, v)
        if v.op == 'adt':
            return [(v.a[1], st, [])]
        if v.op == 'as':
            return [(v.a[1], st, [])]
        if v.op == 'updv':
            return self.split(st, v.a[0], adt)
        if v.op == 'entry' and v.a[0].op == 'gref':
            return [('Vacant' if n == 'None' else 'Occupied', s, l) for n, s, l in self.split(st, mk('opt', mk('gref', *v.a[0].a, mk('k', v.a[1]))), OPTION)]
        if v.op == 'phi':
            names = set()
            for x in v.a:
                if x.op == 'adt':
                    names.add(x.a[1])
                else:
                    names = None
                    break
            if names:
                out = []
                for i, nme in enumerate(sorted(names)):
                    out.append((nme, st if i == 0 else st.copy(), []))
                return out
        f = st.facts.get(v)
        if f is not None and not (isinstance(f, tuple)):
            return [(f, st, [])]
        vs = self.variants(adt)
        if not vs:
            if v.op == 'opt':
                vs = STDVARS[OPTION]
            elif v.op == 'res':
                vs = STDVARS[RESULT]
            else:
                vs = [('?', 0)]
        out = []
        base = st
        loc = self.loc(st)
        copies = [st] + [st.copy() for _ in vs[1:]]
        for (n, _), s in zip(vs, copies):
            s.facts[v] = n
            out.append((n, s, [('p', v, n, loc)]))
        return out

    # ---- block execution
    def exec_block(self, st, lab):
        f = st.fr[-1]
        if isinstance(f, XF):
            return self.xstep(st, lab)
        b = f.body
        d = len(st.fr) - 1
        self.steps += 1
        if self.steps > 20000:
            raise Abort('too many steps between nodes in ' + b.fn.path)
        for s in b.bbs[f.bb][0]:
            if s[0] == '=':
                self.curline = s[3]
                v = self.rvalue(st, s[2], lab)
                p = s[1]
                if not p[1]:
                    if p[0] in b.counters and self.flat and not self.exact and b.cyc.get(f.bb) in b.counters[p[0]]:
                        v = self.counted(st, f, p[0], v)
                    elif self.flat and not self.exact and v.op == 'app' and v.a[0] in GROWING and f.bb in b.cyc and sum(x.op == 'app' and x.a[0] == v.a[0] for x in subs(v)) >= 4:
                        v = mk('wid', 'grow:%s#%d' % (b.fn.path, p[0]))     # grows from round to round
                        self.kill_term(st, v)
                    f.env[p[0]] = v
                else:
                    self.write_loc(st, lab, self.loc_of(st, d, p), v, s[3])
            elif s[0] == 'dead':
                f.env.pop(s[1], None)
        t = b.bbs[f.bb][1]
        k = t[0]
        if k == 'goto' or k == 'assert':
            self.cont(st, lab, t[1])
        elif k == 'sw':
            self.switch(st, lab, t)
        elif k == 'ret':
            v = f.env.get(0, UNIT)
            self.do_return(st, lab, v)
        elif k == 'drop':
            self.do_drop(st, lab, t)
        elif k == 'call':
            self.do_call(st, lab, t)
        elif k == 'yield':
            self.end(st, lab, 'yield')
        else:
            self.end(st, lab, 'unreachable')

    def counted(self, st, f, l, v):
        """a local that counts in a loop: exact up to MANY, then only known to be at least that"""
        m = mk('many', '%s#%d' % (f.body.fn.path, l), MANY)
        if v.op == 'int' and v.a[0] >= MANY or v.op == 'app' and v.a[0] == 'add' and m in v.a[1:]:
            self.kill_term(st, m)
            return m
        return v

    def while_index(self, st, lab, t, v):
        """while i < list.len() { … i += 1 }: an iteration over the list; gives [(bool, state, labels)] or None"""
        f = st.fr[-1]
        b = f.body
        if self.exact or not b.counters or f.bb not in b.cyc:
            return None
        neg = False
        while v.op == 'not':
            v, neg = v.a[0], not neg
        if v.op == 'lt':
            c, n = v.a
        elif v.op == 'eq':
            c, n = v.a
            neg = not neg
            if c.op in ('len', 'ups') or c.op == 'app' and c.a[0] == 'min':
                c, n = n, c
        else:
            return None
        bound = length(n)
        if bound is None:
            return None
        X, lim = bound
        # the counter compared here
        cmps = [s[2] for s in b.bbs[f.bb][0] if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Gt', 'Le', 'Ge', 'Eq', 'Ne')]
        who = {b.origin(o[1][0]) for r in cmps for o in r[2:4] if o[0] in ('cp', 'mv') and not o[1][1]}
        r = self.advance(st, X, lim, c, who)
        return r and [(not neg, r[0], r[1]), (neg, r[2], r[3])]

    def advance(self, st, X, lim, c, who):
        """one more element of X at the position c a counter (one of who) has reached: state and labels for that, state and labels for the end"""
        f = st.fr[-1]
        b = f.body
        ix = mk('idx', X)
        if self.exact or f.bb not in b.cyc:
            return None
        mem = -1 - f.bb
        base = f.env.get(mem)
        if base is None:
            base = c        # first arrival
        elif not all(x in (base.a if base.op == 'phi' else (base,)) or x.op == 'app' and x.a[0] == 'add' and set(x.a[1:]) == {intv(1), ix} for x in (c.a if c.op == 'phi' else (c,))):
            return None
        if base.op == 'int' and base.a[0] < 0 or base.op in ('wid', 'many'):
            return None
        who = [l for l in who if l in b.counters and b.cyc[f.bb] in b.counters[l] and l in f.env and self.deep(st, f.env[l]) is c]
        if len(who) != 1:
            return None
        e = mk('g', *X.a, 'each') if X.op in ('g', 'gref') else mk('elem', X)
        ops, extra = (('take',), (lim,)) if lim is not None else ((), ())
        if base is not intv(0):
            ops, extra = ops + ('skip',), extra + (base,)
        bnd = (tuple(sorted({e, ix}, key=lambda x: x.id)), ())
        s2 = st.copy()
        l2 = []
        self.ev(s2, l2, 'iter_end', X, ops, extra, bnd)
        s3 = st.copy()
        l3 = []
        for x in (e, ix):
            self.kill_term(s3, x)
        if X.op in ('g', 'gref'):
            self.kill_each(s3, X.a)
        self.ev(s3, l3, 'iter_next', X, e, ops, extra, bnd)
        env = s3.fr[-1].env
        for l in list(env):
            if l == who[0] or c.op not in ('int', 'arg', 'g') and c is not base and env[l] is c:
                env[l] = ix
        env[mem] = base
        s2.fr[-1].env.pop(mem, None)
        if base is intv(0) and lim is None:
            # the counter has reached the length
            for l in list(s2.fr[-1].env):
                if l == who[0]:
                    s2.fr[-1].env[l] = self.lenv(X)
        return s3, l3, s2, l2

    def do_return(self, st, lab, v):
        # values pointing into the dying frame are snapshotted
        d = len(st.fr) - 1
        if any(s.op == 'ref' and s.a[0] >= d for s in subs(v)):
            v = self.deep_dying(st, v, d)
        st.fr.pop()
        if not st.fr:
            self.ev_root_return(st, lab, v)
            return
        self.deliver(st, lab, v, True)

    def deep_dying(self, st, v, d, n=0):
        if v.op == 'ref':
            if v.a[0] >= d:
                return self.deep_dying(st, self.deref(st, v), d, n + 1)
            return v
        if n > 12 or not any(s.op == 'ref' and s.a[0] >= d for s in subs(v)):
            return v
        a = [self.deep_dying(st, x, d, n + 1) if isinstance(x, V) else x for x in v.a]
        return bag(a) if v.op == 'bag' else mk(v.op, *a)

    def ev_root_return(self, st, lab, v):
        lab.append(('e', 'return', v, ('', '', 0)))
        self.end(st, lab, 'return')

    def deliver(self, st, lab, v, returned=False):
        f = st.fr[-1]
        if isinstance(f, XF):
            return getattr(self, 'x_' + f.name)(st, lab, f, v)
        t = f.body.bbs[f.bb][1]
        if t[0] == 'call':
            if t[4] is None:
                return self.end(st, lab, 'panic')
            self.write_loc(st, lab, self.loc_of(st, len(st.fr) - 1, t[3]), v, t[5])
            f.bb = t[4]
        elif t[0] == 'drop':
            f.bb = t[2]
        else:
            raise Abort('deliver to ' + t[0])
        if returned or f.body.npred[f.bb] >= 2 or f.bb in f.body.backtgt:
            self.boundary(st, lab)
        else:
            self.work.append((st, lab))

    def switch(self, st, lab, t):
        o, targets, other, line, ty = t[1], t[2], t[3], t[4], t[5]
        v = self.operand(st, o, lab)
        v = self.deref(st, v)
        if v.op == 'discr':
            base, adt = v.a
            vs = self.variants(adt)
            byname = {n: dd for n, dd in vs}
            tm = {x: b for x, b in targets}
            known = base.op in ('adt', 'as') or (base in st.facts and not isinstance(st.facts[base], tuple))
            if len(vs) > 6 and not known and not (base.op == 'phi'):
                # named targets individually, the rest together
                copies = []
                names = [n for n, dd in vs if dd in tm]
                rest = tuple(n for n, dd in vs if dd not in tm)
                loc = self.loc(st)
                neg = st.facts.get(base)
                if isinstance(neg, tuple):
                    names = [n for n in names if n in neg]
                    rest = tuple(n for n in rest if n in neg)
                for n in names:
                    s = st.copy()
                    s.facts[base] = n
                    self.cont(s, lab + [('p', base, n, loc)], tm[byname[n]])
                if len(rest) == 1:
                    st.facts[base] = rest[0]
                    self.cont(st, lab + [('p', base, rest[0], loc)], other)
                elif rest:
                    st.facts[base] = rest
                    self.cont(st, lab + [('p', base, rest, loc)], other)
                return
            for name, s, l in self.split(st, base, adt):
                dd = byname.get(name)
                if dd is None:
                    sd = dict(STDVARS.get(adt, []))
                    dd = sd.get(name)
                if dd is None:
                    # unknown variant set: take every target
                    for x, bb in targets + [[None, other]]:
                        self.cont(s.copy(), lab + l, bb)
                    continue
                self.cont(s, lab + l, tm.get(dd, other))
            return
        if ty == 'bool' or v.op in ('bool', 'not', 'isvar'):
            tm = {x: b for x, b in targets}
            v2 = self.deep(st, v)
            for b, s, l in self.while_index(st, lab, t, v2) or self.truth(st, v2):
                self.cont(s, lab + l, tm.get(1 if b else 0, other))
            return
        if v.op == 'int':
            for x, bb in targets:
                if x == v.a[0]:
                    return self.cont(st, lab, bb)
            return self.cont(st, lab, other)
        rem = st
        cases = list(targets)
        for x, bb in cases:
            nxt = rem.copy()
            r = self.truth(rem, eqv(v, intv(x)))
            got = [(s, l) for b, s, l in r if b]
            rest = [(s, l) for b, s, l in r if not b]
            for s, l in got:
                self.cont(s, lab + l, bb)
            if not rest:
                return
            rem, l = rest[0]
            lab = lab + l
        self.cont(rem, lab, other)

    def nested_drops(self, st, v, d=0):
        out = []
        if v.op == 'adt':
            if self.p.adtkey(v.a[0]) in self.p.drops:
                out.append(v)
            for x in v.a[3:]:
                if d < 6:
                    out += self.nested_drops(st, x, d + 1)
        elif v.op in ('tup', 'arr', 'bag', 'clo', 'cor') and d < 6:
            for x in v.a:
                if isinstance(x, V):
                    out += self.nested_drops(st, x, d + 1)
        return out

    def do_drop(self, st, lab, t):
        f = st.fr[-1]
        p = t[1]
        v = None
        if not p[1]:
            v = f.env.pop(p[0], None)
        else:
            loc = self.loc_of(st, len(st.fr) - 1, p)
            if loc[0] == 'l':
                v = self.read_loc(st, loc)
        if v is not None and v.op in ('adt', 'tup', 'arr', 'bag'):
            ds = self.nested_drops(st, v)
            if ds:
                w = ds[0]
                fn = self.p.drops[self.p.adtkey(w.a[0])]
                self.ev(st, lab, 'drop', w.a[0], line=t[4])
                b = fn.body
                b.prep()
                self.stats['fns'].add(fn.path)
                st.fr.append(Frame(b, 0, {1: w}))
                self.work.append((st, lab))
                return
        if v is not None and v.op == 'gref' and is_cell_guard(t[3]):
            self.ev(st, lab, 'unborrow', '.'.join(map(str, v.a)), line=t[4])
        self.cont(st, lab, t[2])

    # ---- calls
    def do_call(self, st, lab, t):
        self.stats['calls'] += 1
        fo = t[1]
        args = [self.operand(st, o, lab) for o in t[2]]
        if fo[0] == 'k' and 'fnd' in fo[1]:
            fv = self.const(st, fo[1])
        else:
            fv = self.deref(st, self.operand(st, fo, lab))
        if t[4] is None and fv.op == 'fn' and not fv.a[1]:
            return self.end(st, lab + [('e', 'panic', fv.a[0], tuple(self.deep(st, a) for a in args), self.loc(st))], 'panic')
        self.invoke(st, lab, fv, args, tuple(t[6]), t[7])

    def depth_of(self, st, fn):
        return sum(1 for f in st.fr if isinstance(f, Frame) and f.body.fn is fn and f.body.prom is None)

    def push(self, st, lab, fn, args):
        b = fn.body
        b.prep()
        self.stats['fns'].add(fn.path)
        env = {i + 1: a for i, a in enumerate(args[:b.argc])}
        st.fr.append(Frame(b, 0, env))
        if b.npred[0] >= 2:
            self.boundary(st, lab)
        else:
            self.work.append((st, lab))

    def invoke(self, st, lab, fv, args, tys, dty):
        """call fv with args; result is delivered to the (new) top frame"""
        fv = self.deref(st, fv)
        if fv.op == 'clo':
            fn = self.p.fns.get(fv.a[0])
            if fn is None or self.depth_of(st, fn) > 1:
                return self.deliver(st, lab, mk('unk', 'rec:' + fv.a[1]))
            b = fn.body
            # closure bodies take (self, args...)
            return self.push(st, lab, fn, [fv] + list(args))
        if fv.op != 'fn':
            if fv.op == 'phi' and all(x.op in ('clo', 'fn') for x in fv.a):
                for x in fv.a[1:]:
                    self.invoke(st.copy(), list(lab), x, args, tys, dty)
                return self.invoke(st, lab, fv.a[0], args, tys, dty)
            self.ev(st, lab, 'call', 'indirect', (self.deep(st, fv),) + tuple(self.deep(st, a) for a in args), mk('unk', 'ind'))
            return self.deliver(st, lab, mk('unk', 'indirect:' + self.site(st)))
        path, lid, tpath, targs = fv.a
        key = last2(tpath)
        # explicit invocation of callables
        if key in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            inner = self.deref(st, args[0])
            rest = self.deref(st, args[1]) if len(args) > 1 else UNIT
            al = list(rest.a) if rest.op == 'tup' else ([] if rest is UNIT else [rest])
            return self.invoke(st, lab, inner, al, ('?',) * len(al), dty)
        m = PRE.get(key)
        if m is not None and not (lid and key in LOCALFIRST and not self.derived(lid)):
            return m(self, st, lab, Call(key, path, lid, targs, args, tys, dty))
        if lid and lid in self.p.fns:
            fn = self.p.fns[lid]
            if fn.path not in self.opaque and self.depth_of(st, fn) < 1:
                return self.push(st, lab, fn, args)
            v = mk('ret', last2(path), self.site(st), *[self.deep(st, a) for a in args])
            self.ev(st, lab, 'call', last2(path), tuple(self.deep(st, a) for a in args), v)
            return self.deliver(st, lab, v)
        fn = self.dispatch(st, tpath, args)
        if fn is not None and fn.path not in self.opaque and self.depth_of(st, fn) < 1:
            return self.push(st, lab, fn, args)
        # constructors used as functions
        c = self.ctor(path, args)
        if c is not None:
            return self.deliver(st, lab, c)
        m = MODELS.get(key)
        if m is not None:
            return m(self, st, lab, Call(key, path, lid, targs, args, tys, dty))
        return self.external(st, lab, Call(key, path, lid, targs, args, tys, dty))

    def dispatch(self, st, tpath, args):
        """the local implementation a trait method resolves to for a receiver of known type"""
        if not args:
            return None
        if not hasattr(self.p, 'impls'):
            self.p.impls = {}
            for f in self.p.fns.values():
                tr = f.raw.get('impl_trait')
                if tr and tr.startswith(self.p.crate + '::'):
                    self.p.impls.setdefault(strip_generics(tr) + '::' + f.path.rsplit('::', 1)[-1], []).append((strip_generics(f.raw['self_ty']), f))
        c = self.p.impls.get(strip_generics(tpath)) or self.p.impls.get(self.p.crate + '::' + strip_generics(tpath))
        if not c:
            return None
        v = self.deref(st, args[0])
        n = v.a[0] if v.op == 'adt' else v.a[1] if v.op == 'fn' else ''
        fs = [f for t, f in c if n == t or n.endswith('::' + t) or t.endswith('::' + n)] if n else []
        return fs[0] if len(fs) == 1 else None

    def derived(self, lid):
        fn = self.p.fns.get(lid)
        return fn is not None and fn.raw.get('exp')

    def ctor(self, path, args):
        s = strip_generics(path)
        if s.endswith('{constructor#0}'):
            s = s.rsplit('::', 1)[0]
        par, _, nm = s.rpartition('::')
        if par.endswith('prelude::v1') and nm in ('Some', 'Ok', 'Err'):
            par = OPTION if nm == 'Some' else RESULT
        for adt in (par, self.p.crate + '::' + par):
            vs = STDVARS.get(adt)
            if vs and nm in dict(vs):
                return mk('adt', adt, nm, tuple(str(i) for i in range(len(args))), *args)
            a = self.p.adts.get(adt)
            if a and a['kind'] == 'enum':
                for v in a['vars']:
                    if v[0] == nm:
                        return mk('adt', adt, nm, tuple(f[0] for f in v[2]), *args)
        for adt in (s, self.p.crate + '::' + s):
            a = self.p.adts.get(adt)
            if a and a['kind'] == 'struct' and a['vars'][0][2] and a['vars'][0][2][0][0] == '0' and len(a['vars'][0][2]) == len(args):
                return mk('adt', adt, a['vars'][0][0], tuple(f[0] for f in a['vars'][0][2]), *args)
        return None

    def external(self, st, lab, c):
        """uninterpreted external: result is a term over the arguments; &mut arguments are havocked;
        closures handed in may run any number of times"""
        self.stats['ext'][c.path] = self.stats['ext'].get(c.path, 0) + 1
        if c.path.startswith('clap') and c.key.split('::')[0] in ('Command', 'Arg') and not c.key.startswith('Command::get_matches'):
            return self.deliver(st, lab, mk('cli'))     # the declaration of the command line
        vals = tuple(self.deep(st, a) for a in c.args)
        v = mk('ret', c.key, self.site(st), *vals)
        if not pure(c.key, c.path):
            self.kill_term(st, v)
            self.ev(st, lab, 'call', c.key, vals, v)
        for i, (a, ty) in enumerate(zip(c.args, c.tys)):
            if ty.startswith('&mut ') or (a.op == 'gref' and ty.startswith('std::')) :
                if a.op == 'ref':
                    inner = self.read_loc(st, ('l', a.a[0], a.a[1], a.a[2]))
                    if inner.op == 'gref':
                        self.gwrite(st, lab, inner.a, 'ext:' + c.key, vals)
                    elif inner.op != 'ref':
                        self.write_loc(st, lab, ('l', a.a[0], a.a[1], a.a[2]), mk('hav', c.key, self.site(st), inner if len(subs(inner)) < 60 else mk('unk', 'big')))
                elif a.op == 'gref':
                    self.gwrite(st, lab, a.a, 'ext:' + c.key, vals)
        clos = [self.deref(st, a) for a in c.args]
        clos = [a for a in clos if a.op == 'clo' or (a.op == 'fn' and a.a[1])]
        if clos and c.key not in NOCALL:
            st.fr.append(XF('extclo', tuple(clos), v))
            return self.boundary(st, lab)
        self.deliver(st, lab, v)

    def xstep(self, st, lab):
        f = st.fr[-1]
        getattr(self, 's_' + f.name)(st, lab, f)

    # external closure loop
    def s_extclo(self, st, lab, f):
        clos, v = f.data
        s2 = st.copy()
        s2.fr.pop()
        self.deliver(s2, list(lab), v)
        for i, c in enumerate(clos):
            s3 = st.copy()
            n = 0
            if c.op == 'clo':
                fn = self.p.fns.get(c.a[0])
                n = (fn.body.argc - 1) if fn else 0
            else:
                fn = self.p.fns.get(c.a[1])
                n = fn.body.argc if fn else 0
            self.invoke(s3, list(lab), c, [mk('carg', self.site(st), i, j) for j in range(n)], ('?',) * n, '?')

    def x_extclo(self, st, lab, f, v):
        self.boundary(st, lab)

    # generic "apply python continuation k(v) then deliver"
    def x_wrap(self, st, lab, f, v):
        st.fr.pop()
        kind = f.data[0]
        if kind == 'some':
            v = some(v)
        elif kind == 'ok':
            v = ok(v)
        elif kind == 'err':
            v = err(v)
        elif kind == 'ready':
            v = mk('adt', POLL, 'Ready', ('0',), v)
        elif kind == 'deref':
            v = self.deref(st, v)
        elif kind == 'const':
            v = f.data[1]
        elif callable(kind):
            return kind(self, st, lab, v)
        self.deliver(st, lab, v)

    def x_filter(self, st, lab, f, v):
        st.fr.pop()
        orig = f.data[0]
        for b, s, l in self.truth(st, self.deep(st, v)):
            self.deliver(s, lab + l, some(orig) if b else NONE)

    def x_gset(self, st, lab, f, v):
        # or_insert_with: store v at path, deliver reference
        st.fr.pop()
        path = f.data[0]
        v = self.deep(st, v)
        if v.op == 'default' or v.op in ('arr', 'bag') and not v.a or v.op == 'map' and not v.a[1].a:
            self.gwrite(st, lab, path, 'or_insert', (v,))
            return self.deliver(st, lab, mk('gref', *path))
        for n, s, l in self.split(st, mk('opt', mk('gref', *path)), OPTION):
            if n == 'None':
                l = lab + l
                self.fill(s, l, path, v)
                self.deliver(s, l, mk('gref', *path))
            else:
                self.deliver(s, lab + l, mk('gref', *path))

    def fill(self, st, lab, path, v):
        """a map slot that held nothing gets v; a list is an empty list its elements are pushed to"""
        if v.op in ('arr', 'bag'):
            self.gwrite(st, lab, path, 'or_insert', (mk(v.op),))
            for x in v.a:
                self.gwrite(st, lab, path, 'push', (x,))
        else:
            self.gwrite(st, lab, path, 'or_insert', (v,))

    def x_retain(self, st, lab, f, v):
        st.fr.pop()
        tgt, elem = f.data
        v = self.deep(st, v)
        if tgt.op == 'gref':
            self.gwrite(st, lab, tgt.a, 'retain', (elem, v))
        elif tgt.op == 'ref':
            loc = ('l', tgt.a[0], tgt.a[1], tgt.a[2])
            old = self.deep(st, tgt)
            if self.stale:
                new = mk('wid', 'ret:' + self.site(st))
                self.ev(st, lab, 'retained', new, old, elem, v)
                self.write_loc(st, lab, loc, new)
            else:
                self.write_loc(st, lab, loc, mk('retained', old, elem, v))
        self.deliver(st, lab, UNIT)

    def x_sorted(self, st, lab, f, v):
        st.fr.pop()
        self.ev(st, lab, 'sorted', f.data[0], f.data[1], self.deep(st, v))
        self.deliver(st, lab, UNIT)

    def x_thenw(self, st, lab, f, v):
        st.fr.pop()
        self.deliver(st, lab, mk('app', 'then', f.data[0], self.deep(st, v)))

    # ---- iteration
    def elems(self, st, src):
        """possible element values of an iterable"""
        s = self.deref(st, src) if src.op == 'ref' else src
        if s.op == 'entries':
            m = s.a[0]
            if m.op == 'ref':
                m = self.deref(st, m)
            if m.op == 'gref':
                k = mk('ekey', mk('g', *m.a))
                return [tup(k, mk('gref', *m.a, mk('k', k)))]
            if m.op == 'map':
                out = [e for e in m.a[1].a]
                if m.a[0].op != 'empty':
                    k = mk('ekey', m.a[0])
                    out.append(tup(k, atv(m.a[0], k)))
                return out
            if m.op in ('bag', 'arr'):
                return list(dict.fromkeys(m.a))
            k = mk('ekey', m)
            return [tup(k, atv(m, k))]
        if s.op == 'keys':
            return [self.proj(st, e, ('f', '0')) for e in self.elems(st, mk('entries', s.a[0]))]
        if s.op == 'values':
            return [self.proj(st, e, ('f', '1')) for e in self.elems(st, mk('entries', s.a[0]))]
        if s.op in ('bag', 'arr'):
            return list(dict.fromkeys(s.a))
        if s.op == 'gref':
            return [mk('gref', *s.a, 'each')]
        if s.op == 'map':
            return self.elems(st, mk('entries', s))
        if s.op == 'adt' and s.a[0].endswith('::Range'):
            return [mk('idx', s)]
        if s.op == 'adt' and s.a[0] == OPTION:
            return [s.a[3]] if s.a[1] == 'Some' else []
        if s.op == 'opt':
            return [s.a[0]]
        if s.op == 'iter':
            return [mk('elem', s)]
        if s.op == 'phi':
            out = []
            for x in s.a:
                out += self.elems(st, x)
            return list(dict.fromkeys(out))
        if s.op == 'chain':
            return list(dict.fromkeys(self.elems(st, s.a[0]) + self.elems(st, s.a[1])))
        if s.op == 'slice':
            return self.elems(st, s.a[0])
        if s.op == 'g':
            return [mk('g', *s.a, 'each')]
        return [mk('elem', s)]

    def as_iter(self, st, v, ty=''):
        v0 = v
        if v.op == 'ref':
            x = self.read_loc(st, ('l', v.a[0], v.a[1], v.a[2]))
            if x.op in ('iter', 'gref', 'ref'):
                return self.as_iter(st, x, ty)
        if v.op == 'iter':
            return v
        if v.op == 'adt' and v.a[0].endswith('::Range') and len(v.a) == 5 and v.a[3].op == 'int' and not self.exact:
            n = self.deep(st, v.a[4])
            if n.op == 'int' and n.a[0] <= v.a[3].a[0]:
                return mk('iter', mk('arr'))
            x = length(self.deep(st, v.a[4]))
            if x:
                # the positions of a list
                X, lim = x
                ops = ([mk('op', 'take', lim)] if lim is not None else []) + ([mk('op', 'skip', v.a[3])] if v.a[3].a[0] else []) + [mk('op', 'indices')]
                return mk('iter', X, *ops)
        h = strip_generics(ty.lstrip('&').replace("'a ", '').replace("'_ ", '').replace('mut ', ''))
        if 'HashMap' in h.split('::')[-1] or 'BTreeMap' in h.split('::')[-1]:
            return mk('iter', note_order(mk('entries', v), h.split('::')[-1]))
        return mk('iter', v)

    def drive(self, st, lab, it, sink, acc, extra=(), dty=''):
        src = it.a[0] if it.op == 'iter' else it
        if it.op == 'iter' and len(it.a) > 1 and it.a[1].a[0] == 'flatten' and src.op == 'opt' and sink != 'next':
            # the list inside an optional one: the elements of the list, or none
            for n, s, l in self.split(st, src, OPTION):
                inner = mk('bag')
                if n == 'Some':
                    inner = self.proj(s, self.proj(s, src, ('d', 'Some')), ('f', '0'))
                x = self.as_iter(s, inner)
                self.drive(s, lab + l, mk('iter', *x.a, *it.a[2:]), sink, acc, extra, dty)
            return
        st.fr.append(XF('drive', it, sink, acc, tuple(extra), dty))
        self.boundary(st, lab)

    def s_drive(self, st, lab, f):
        if self.exact and exact.step(self, st, lab, f):
            return
        it, sink, acc, extra, dty = f.data
        src = it.a[0] if it.op == 'iter' else it
        ops = it.a[1:] if it.op == 'iter' else ()
        es = self.elems(st, src)
        dsrc = self.deep(st, src) if src.op == 'ref' else src
        # a zipped iterator that drops or reorders its elements pairs others: 'zip.rev', 'zip.skip', …
        opn = tuple(x for o in ops if o.op != 'op' or o.a[0] != 'indices' for x in ((o.a[0] if o.op == 'op' else '?',) + (
            tuple('zip.' + q.a[0] for q in o.a[1].a[1:] if q.op == 'op' and q.a[0] in PAIRING) if o.op == 'op' and o.a[0] == 'zip' and len(o.a) > 1 and o.a[1].op == 'iter' else ())))
        srcs = {dsrc}
        if dsrc.op in ('entries', 'keys', 'values'):
            m = dsrc.a[0]
            m = self.deep(st, m) if m.op == 'ref' else m
            srcs |= {m, m.a[0] if m.op == 'map' else m}
        srcs |= {mk('g', *x.a) for x in srcs if x.op == 'gref'}
        direct, derived = [], []
        for e in es:
            de = self.deep(st, e)
            for x in self.elem_leaf(de):
                (direct if x.a and x.a[0] in srcs else derived).append(x)
        if any(o.a[0] in ('enumerate', 'indices') for o in ops if o.op == 'op'):
            direct.append(mk('idx', dsrc))
        keep = [] if sink != 'next' or any(o in FILTERING or o.startswith('zip.') for o in opn) else self.instep(st)
        if keep:
            direct.append(mk('idx', dsrc))
        bound = (tuple(sorted(set(direct), key=lambda x: x.id)), tuple(sorted(set(derived) - set(direct), key=lambda x: x.id)))
        # end of iteration
        s2 = st.copy()
        l2 = list(lab)
        self.ev(s2, l2, 'iter_end', dsrc, opn, tuple(self.deep(s2, x) for o in ops if o.a[0] in ('take', 'skip') for x in o.a[1:]), bound)
        s2.fr.pop()
        self.drive_finish(s2, l2, f)
        for e in es:
            s3 = st.copy()
            l3 = list(lab)
            de = self.deep(s3, e)
            if keep:
                self.renumber(s3, keep, mk('idx', dsrc))
            for x in self.elem_leaf(de):
                self.kill_term(s3, x)
            for x in subs(de):
                if x.op in ('g', 'gref') and 'each' in x.a:
                    self.kill_each(s3, x.a[:len(x.a) - x.a[::-1].index('each')])
            self.ev(s3, l3, 'iter_next', dsrc, de, opn, tuple(self.deep(s3, x) for o in ops if o.a[0] in ('take', 'skip') for x in o.a[1:]), bound)
            self.pipe(s3, l3, 0, e)

    def instep(self, st):
        """the locals of the loop around next() that count its iterations"""
        f = st.fr[-2] if len(st.fr) > 1 else None
        if f is None or isinstance(f, XF) or self.exact or self.stale or not f.body.counters or f.bb not in f.body.cyc:
            return []
        return [l for l, c in f.body.counters.items() if f.body.cyc[f.bb] in c and l in f.env and f.body.instep(l, f.bb)]

    def renumber(self, st, locs, ix):
        """a local that is incremented once in each iteration holds its first value plus the number of the element"""
        env = st.fr[-2].env
        self.kill_term(st, ix)
        for l in locs:
            c = self.deep(st, env[l])
            if c.op == 'wid':
                continue
            base = set()
            for x in c.a if c.op == 'phi' else (c,):
                if ix not in subs(x):
                    base.add(ix if x is intv(0) else self.arith('add', x, ix))
                elif x.op == 'app' and x.a[0] == 'add' and intv(1) in x.a[1:]:
                    y = x.a[2] if x.a[1] is intv(1) else x.a[1]
                    base.add(y if y is ix or y.op == 'app' and y.a[0] == 'add' and ix in y.a[1:] else None)
                else:
                    base.add(None)
            y = base.pop()
            if y is not None and not base:
                env[l] = y
            elif ix in subs(c):
                env[l] = mk('wid', 'count')

    def elem_leaf(self, e):
        return [s for s in subs(e) if s.op in ('elem', 'ekey', 'idx')]

    def drive_finish(self, st, lab, f):
        it, sink, acc, extra, dty = f.data
        if sink == 'next' or sink in ('find', 'find_map', 'position', 'last', 'max', 'min', 'reduce', 'nth'):
            if sink in ('last', 'max', 'min', 'reduce') and acc is not UNIT:
                return self.deliver(st, lab, some(acc))
            return self.deliver(st, lab, NONE)
        if sink == 'any':
            return self.deliver(st, lab, FALSE)
        if sink == 'all':
            return self.deliver(st, lab, TRUE)
        if sink == 'for_each':
            return self.deliver(st, lab, UNIT)
        if sink == 'try_for_each':
            return self.deliver(st, lab, ok(UNIT))
        if sink in ('count', 'sum'):
            return self.deliver(st, lab, mk('app', sink, self.deep(st, it)))
        if sink == 'extend_at':
            models.store(self, st, lab, extra[0], acc)
            return self.deliver(st, lab, UNIT)
        if sink == 'extend':
            tgt = extra[0]
            self.extend_into(st, lab, tgt, acc)
            return self.deliver(st, lab, UNIT)
        if sink == 'collect_res':
            return self.deliver(st, lab, ok(acc))
        if sink == 'collect_opt':
            return self.deliver(st, lab, some(acc))
        return self.deliver(st, lab, acc)

    def extend_into(self, st, lab, tgt, acc):
        if tgt.op == 'ref':
            x = self.read_loc(st, ('l', tgt.a[0], tgt.a[1], tgt.a[2]))
            if x.op in ('ref', 'gref'):
                return self.extend_into(st, lab, x, acc)
            if x.op in ('bag', 'arr') and acc.op in ('bag', 'arr'):
                n = bag(set(x.a) | set(acc.a))
            elif x.op == 'map' and acc.op == 'map':
                n = mapv(x.a[0], x.a[1].a + acc.a[1].a, x.a[2].a)
            elif x.op == 'map' and acc.op == 'bag':
                n = mapv(x.a[0], x.a[1].a + acc.a, x.a[2].a)
            else:
                n = mk('app', 'extended', x, acc)
            self.write_loc(st, lab, ('l', tgt.a[0], tgt.a[1], tgt.a[2]), n)
        elif tgt.op == 'gref':
            self.gwrite(st, lab, tgt.a, 'extend', (self.deep(st, acc),))

    def pipe(self, st, lab, i, v):
        """top frame is drive; push element v through ops from stage i"""
        f = st.fr[-1]
        it = f.data[0]
        ops = it.a[1:] if it.op == 'iter' else ()
        while i < len(ops):
            o = ops[i]
            k = o.a[0]
            if self.exact and k in ('enumerate', 'take', 'skip', 'zip') and exact.exact_src(st.fr[-1]):
                v = exact.stage(self, st, lab, i, o, v)
                if v is None:
                    return self.boundary(st, lab)
                i += 1
                continue
            if k in ('map', 'filter', 'filter_map', 'flat_map', 'inspect', 'map_while', 'take_while', 'skip_while'):
                st.fr.append(XF('stage', i, v))
                return self.invoke(st, lab, o.a[1], [v], ('?',), '?')
            if k == 'flatten':
                return self.pour(st, lab, i, v, len(o.a) > 1)
            if k == 'enumerate':
                v = tup(mk('idx', self.deep(st, it.a[0])), v)
            elif k == 'indices':
                v = mk('idx', self.deep(st, it.a[0]))
            elif k == 'cloned':
                v = self.deref(st, v)
            elif k == 'zip':
                es = self.elems(st, o.a[1].a[0] if o.a[1].op == 'iter' else o.a[1])
                v = tup(v, es[0] if es else mk('unk', 'zip'))
            elif k == 'chunks':
                v = mk('elem', mk('app', 'chunks', self.deep(st, v)))
            i += 1
        self.sink(st, lab, v)

    def x_stage(self, st, lab, f, r):
        st.fr.pop()
        i, v = f.data
        it = st.fr[-1].data[0]
        k = it.a[1 + i].a[0]
        if k == 'map':
            return self.pipe(st, lab, i + 1, r)
        if k == 'inspect':
            return self.pipe(st, lab, i + 1, v)
        if k == 'filter' or k == 'skip_while' or k == 'take_while':
            for b, s, l in self.truth(st, self.deep(st, r)):
                if b == (k != 'skip_while'):
                    self.pipe(s, lab + l, i + 1, v)
                else:
                    self.boundary(s, lab + l)
            return
        if k in ('filter_map', 'map_while'):
            for n, s, l in self.split(st, r, OPTION):
                if n == 'Some':
                    self.pipe(s, lab + l, i + 1, self.proj(s, self.proj(s, self.deref(s, r), ('d', 'Some')), ('f', '0')))
                else:
                    self.boundary(s, lab + l)
            return
        if k == 'flat_map':
            return self.pour(st, lab, i, r)
        raise Abort('stage ' + k)

    def pour(self, st, lab, i, r, isopt=False):
        """the elements of r, each pushed through the stages after i"""
        d = st.fr[-1].data
        it = d[0]
        if r.op == 'opt' or r.op == 'adt' and r.a[0] == OPTION or isopt and r.op in ('elem', 'pay', 'fld', 'g', 'gref'):
            for n, s, l in self.split(st, r, OPTION):
                if n == 'Some':
                    self.pipe(s, lab + l, i + 1, self.proj(s, self.proj(s, r, ('d', 'Some')), ('f', '0')))
                else:
                    self.boundary(s, lab + l)
            return
        if self.exact and exact.exact_src(st.fr[-1]):
            xs = exact.elements(self, st, r)
            if xs is None:
                raise Abort('flat_map into unknown lists')
            it2 = mk('iter', mk('arr', *[mk('staged', intv(i + 1), x) for x in xs], *it.a[0].a), *it.a[1:])
            st.fr[-1] = XF('drive', it2, *d[1:])
            return self.boundary(st, lab)
        for e in self.elems(st, r.a[0] if r.op == 'iter' else r):
            s = st.copy()
            self.pipe(s, list(lab), i + 1, e)
        self.boundary(st, lab)

    def sink(self, st, lab, v):
        f = st.fr[-1]
        it, sink, acc, extra, dty = f.data
        if sink == 'next':
            st.fr.pop()
            if self.exact and it.a[0].op == 'arr' and extra:
                models.store(self, st, lab, extra[0], it)
            return self.deliver(st, lab, some(v))
        if sink in ('any', 'all', 'find', 'position', 'for_each', 'find_map', 'try_for_each'):
            st.fr.append(XF('sinkp', v))
            return self.invoke(st, lab, extra[0], [v], ('?',), '?')
        if sink == 'fold' or sink == 'try_fold':
            st.fr.append(XF('sinkp', v))
            return self.invoke(st, lab, extra[0], [acc, v], ('?', '?'), '?')
        if sink in ('count', 'sum'):
            if self.flat and sink == 'count':
                self.ev(st, lab, 'counted', self.deep(st, it), self.deep(st, v))
            if self.exact and it.a[0].op == 'arr' and sink == 'count':
                st.fr[-1] = XF('drive', it, sink, intv((acc.a[0] if acc.op == 'int' else 0) + 1), extra, dty)
            return self.boundary(st, lab)
        if sink in ('last', 'max', 'min', 'reduce', 'nth'):
            v = self.deep(st, v)
            acc = v if acc is UNIT else self.join(acc, v, ('acc', sink))
            st.fr[-1] = XF('drive', it, sink, acc, extra, dty)
            return self.boundary(st, lab)
        if sink in ('collect_res', 'collect_opt'):
            adt = RESULT if sink == 'collect_res' else OPTION
            good = 'Ok' if adt == RESULT else 'Some'
            for n, s, l in self.split(st, v, adt):
                w = self.proj(s, self.proj(s, self.deref(s, v), ('d', n)), ('f', '0')) if n != 'None' else None
                if n == good:
                    self.accum(s, lab + l, w)
                else:
                    s.fr.pop()
                    self.deliver(s, lab + l, err(w) if n == 'Err' else NONE)
            return
        return self.accum(st, lab, v)

    def accum(self, st, lab, v):
        f = st.fr[-1]
        it, sink, acc, extra, dty = f.data
        v = self.deep(st, v)
        if self.exact and it.a[0].op == 'arr' and acc.op in ('arr', 'bag'):
            s, b = exact.setlike(dty)
            acc = acc if s and v in acc.a else mk('arr', *(exact.order((*acc.a, v)) if b else (*acc.a, v)))
            st.fr[-1] = XF('drive', it, sink, acc, extra, dty)
            return self.boundary(st, lab)
        if not self.flat or acc.op == 'map':
            self.ev(st, lab, 'out', v)
        if acc.op == 'map':
            acc = mapv(acc.a[0], acc.a[1].a + (v,), acc.a[2].a)
        elif self.flat:
            old, acc = acc, mk('wid', ('acc:sorted:' if 'BTreeSet' in str(dty) else 'acc:') + self.site(st))
            self.ev(st, lab, 'out', v, acc, old)
        else:
            r = set(acc.a) | {v} if acc.op in ('bag', 'arr') else {acc, v}
            acc = bag(r) if len(r) <= 12 else bag([mk('wid', 'acc:' + self.site(st))])
        st.fr[-1] = XF('drive', it, sink, acc, extra, dty)
        self.boundary(st, lab)

    def x_sinkp(self, st, lab, f, r):
        st.fr.pop()
        v = f.data[0]
        d = st.fr[-1]
        it, sink, acc, extra, dty = d.data
        if sink == 'for_each':
            return self.boundary(st, lab)
        if sink in ('fold', 'try_fold'):
            r = self.deep(st, r)
            acc = r if acc is r or self.exact and it.a[0].op == 'arr' else self.join(acc, r, ('fold', self.site(st)))
            st.fr[-1] = XF('drive', it, sink, acc, extra, dty)
            return self.boundary(st, lab)
        if sink == 'try_for_each':
            for n, s, l in self.split(st, r, RESULT):
                if n == 'Err':
                    s.fr.pop()
                    self.deliver(s, lab + l, r)
                else:
                    self.boundary(s, lab + l)
            return
        if sink == 'find_map':
            for n, s, l in self.split(st, r, OPTION):
                if n == 'Some':
                    s.fr.pop()
                    self.deliver(s, lab + l, r)
                else:
                    self.boundary(s, lab + l)
            return
        for b, s, l in self.truth(st, self.deep(st, r)):
            stop = b if sink != 'all' else (not b)
            if not stop:
                self.boundary(s, lab + l)
                continue
            s.fr.pop()
            if sink == 'any':
                res = TRUE
            elif sink == 'all':
                res = FALSE
            elif sink == 'find':
                res = some(v)
            else:
                res = some(mk('idx', self.deep(s, it.a[0])))
            self.deliver(s, lab + l, res)


NARROW = {'u8': 8, 'u16': 16, 'u32': 32, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63}


class Call:
    __slots__ = ('key', 'path', 'lid', 'targs', 'args', 'tys', 'dty')

    def __init__(self, key, path, lid, targs, args, tys, dty):
        self.key, self.path, self.lid, self.targs, self.args, self.tys, self.dty = key, path, lid, targs, args, tys, dty


PRE = {}
MODELS = {}
LOCALFIRST = set()
NOCALL = set()
PUREPFX = ('std::fmt', 'core::fmt', 'core::str', 'std::str', 'core::num', 'std::string', 'candid::', 'tracing::', 'std::time::', 'num_bigint', 'serde', 'core::slice', 'std::slice', 'std::vec', 'std::cmp', 'std::iter', 'std::option', 'std::result', 'std::path')


def pure(key, path):
    p = path.lstrip('<')
    return p.startswith(PUREPFX)


import models  # noqa: E402,F401  (registers into PRE/MODELS)
import exact  # noqa: E402,F401
import roundtrip  # noqa: E402,F401
