"""Rule library: reports, literal monitors, entailment, accessors for the domain terms."""
from query import *
from val import *
import query as Q


# ------------------------------------------------------------------ reports
class Report:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.viols = []          # (key, msg, trace)
        self.counts = {}
        self.fns = set()
        self.notes = []
        self.obs = []
        self.states = 0

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def use(self, ex):
        self.fns |= set(ex.fns)
        self.add('explored roots', 0)

    def ob(self, text):
        self.obs.append(text)

    def viol(self, key, msg, tr=None):
        if not any(k == key for k, _, _ in self.viols):
            self.viols.append((key, msg, tr))

    def floor(self, name, n, least):
        """fail closed when the rule found fewer instances than the code must contain"""
        self.counts[name] = n
        if n < least:
            self.viol('anchor:' + name, 'rule anchor lost: %s: found %d, expected at least %d' % (name, n, least))


def short(l):
    """stable description of a label without line numbers"""
    if l[0] == 'p':
        return 'branch %s=%s' % (clip(show(l[1]), 160), l[2])
    t = touch(l)
    if t:
        return '%s %s' % ('.'.join(x if isinstance(x, str) else '[..]' for x in t.path), l[3])
    if l[1] in ('call', 'await', 'spawn'):
        return '%s %s' % (l[1], l[2] if isinstance(l[2], str) else clip(show(l[2]), 80))
    return l[1]


# ------------------------------------------------------------------ alternatives
def alts(v):
    """alternatives of a joined term"""
    if v.op == 'phi':
        out = []
        for x in v.a:
            out += alts(x)
        return out
    return [v]


_norm = {}


def norm(v):
    """rewrite terms by invariants that property C08 establishes: tokens_list[K].token_id is K"""
    r = _norm.get(v)
    if r is not None:
        return r
    r = v
    if v.op in ('g', 'gref'):
        p = v.a
        for i, x in enumerate(p):
            if x == 'tokens_list' and i + 2 < len(p) and isinstance(p[i + 1], V) and p[i + 2] == 'token_id' and i + 3 == len(p):
                r = norm(p[i + 1].a[0])
                break
    if r is v and any(isinstance(x, V) for x in v.a):
        a = tuple(norm(x) if isinstance(x, V) else x for x in v.a)
        if a != v.a:
            r = mk(v.op, *a)
    _norm[v] = r
    return r


def proj(v, f):
    if v.op == 'tup' and str(f).isdigit() and int(f) < len(v.a):
        return v.a[int(f)]
    if v.op == 'adt':
        return v.a[3 + v.a[2].index(f)] if f in v.a[2] else mk('fld', v, f)
    if v.op in ('g', 'gref'):
        return mk('g', *v.a, f)
    if v.op == 'upd':
        for i in range(1, len(v.a), 2):
            if v.a[i] == f:
                return v.a[i + 1]
        return proj(v.a[0], f)
    if v.op == 'phi':
        xs = {proj(x, f) for x in v.a}
        return xs.pop() if len(xs) == 1 else mk('phi', *sorted(xs, key=lambda x: x.id))
    return mk('fld', v, f)


def inner_some(v):
    """payload of an Option-valued term"""
    if v.op == 'adt' and v.a[1] == 'Some':
        return v.a[3]
    if v.op in ('g',):
        return mk('g', *v.a, 'Some', '0')
    if v.op == 'opt':
        return v.a[0]
    return mk('pay', v, 'Some', '0')


# ------------------------------------------------------------------ effects on the state
class Touch:
    __slots__ = ('path', 'how', 'vals', 'key', 'map', 'loc')


KEYED = ('insert', 'remove', 'push', 'get_mut', 'or_insert', 'take_key')


def touch(l):
    if not (l[0] == 'e' and l[1] == 'gw'):
        return None
    p = spath(l[2])
    if p is None:
        return None
    t = Touch()
    t.path, t.how, t.vals, t.loc = p, l[3], l[4], l[-1]
    t.key = None
    t.map = tuple(x for x in p if isinstance(x, str))
    for i, x in enumerate(p):
        if isinstance(x, V):
            t.key = x.a[0]
            t.map = p[:i]
            break
    if t.key is None and t.how in ('insert', 'remove', 'pop', 'remove_entry') and t.vals:
        t.key = t.vals[0]
    if t.key is not None:
        t.key = unwrap(t.key)
    return t


def unwrap(v):
    """WrappedNat(x), WrappedAccount(x), … -> x"""
    while v.op == 'adt' and v.a[2] == ('0',) and v.a[0].split('::')[-1].startswith('Wrapped'):
        v = v.a[3]
    return v


def touches(ex, *prefix):
    return [l for l in ex.labels() if (lambda p: p is not None and p[:len(prefix)] == prefix)(gwp(l))]


BOOKKEEPING = ('principal_guards', 'sliding_window_guards')


def is_write(l, exempt=BOOKKEEPING):
    p = gwp(l)
    return p is not None and p[0] not in exempt


def is_log(l):
    return l[0] == 'e' and l[1] == 'gw' and isinstance(l[3], str) and l[3].startswith('ext:') and l[3].endswith('add_transaction')


def log_ret(v):
    """v denotes the result of appending a block"""
    xs = alts(v)
    return bool(xs) and all(x.op == 'ret' and x.a[0].endswith('add_transaction') for x in xs)


def log_calls(v):
    return [x for x in alts(v) if x.op == 'ret' and x.a[0].endswith('add_transaction')]


def log_ok(l):
    return l[0] == 'p' and l[2] == 'Ok' and log_ret(l[1])


def log_err(l):
    return l[0] == 'p' and l[2] == 'Err' and log_ret(l[1])


class Tx:
    """block handed to the log: constructor, block type, timestamp, data fields"""
    __slots__ = ('kind', 'btype', 'ts', 'f', 'term')


def txs(v):
    """transaction terms inside an add_transaction event / result"""
    out = []
    if isinstance(v, tuple):
        v = v[4] if len(v) > 4 and v[1] == 'gw' else v[1]
        xs = list(v) if isinstance(v, tuple) else [v]
    else:
        xs = [v]
    seen = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x.op == 'phi':
            st += list(x.a)
            continue
        if x.op == 'ret' and x.a[0].endswith('add_transaction'):
            st += [y for y in x.a[2:] if isinstance(y, V)]
            continue
        t = as_tx(x)
        if t and t.term not in seen:
            seen.add(t.term)
            out.append(t)
    return out


def as_tx(x):
    if x.op == 'ret' and x.a[0].endswith('Transaction::new'):
        a = [y for y in x.a[1:] if isinstance(y, V)]
        if len(a) >= 3 and a[-1].op == 'adt':
            t = Tx()
            t.kind = x.a[0].split('::')[0]
            t.btype, t.ts = a[-3], a[-2]
            d = a[-1]
            t.f = dict(zip(d.a[2], d.a[3:]))
            t.term = x
            return t
    return None


# ------------------------------------------------------------------ globals as terms
def root_name(suffix, crate='core_nft'):
    for g in prog(crate).statics if hasattr(prog(crate), 'statics') else ():
        if g.endswith(suffix):
            return g
    return None


STATE = ('core_nft::state::__STATE', 'Some', '0')


def D(*path):
    return mk('g', *STATE, 'data', *[mk('k', x) if isinstance(x, V) else x for x in path])


def has_g(v, *prefix):
    """a subterm reads the global path (short form) starting with prefix"""
    for s in subs(v):
        if s.op in ('g', 'gref'):
            p = spath(s)
            if p[:len(prefix)] == prefix:
                return True
    return False


def reads_state(v):
    return any(s.op in ('g', 'gref') for s in subs(v))


# ------------------------------------------------------------------ congruence
class CC:
    """closure of equality literals with field projection"""

    def __init__(self, lits):
        self.par = {}
        self.mem = {}
        for a, val in lits:
            if a.op == 'eq' and val is True:
                self.union(norm(a.a[0]), norm(a.a[1]))

    def find(self, x):
        while x in self.par:
            x = self.par[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return
        self.par[a] = b
        self.mem[b] = self.mem.get(b, {b}) | self.mem.get(a, {a})

    def cls(self, x):
        r = self.find(x)
        return self.mem.get(r, {r})

    def forms(self, t, d=4):
        """all terms known equal to t"""
        out = set(self.cls(t))
        if d == 0:
            return out
        for x in list(out):
            b, f = None, None
            if x.op == 'fld':
                b, f = x.a
            elif x.op == 'g' and len(x.a) > 1 and isinstance(x.a[-1], str):
                b, f = mk('g', *x.a[:-1]), x.a[-1]
            if b is not None:
                for y in self.forms(b, d - 1):
                    if y is not b:
                        out |= self.cls(proj(y, f))
        return out

    def eq(self, a, b, d=3):
        a, b = norm(a), norm(b)
        if a is b:
            return True
        fa = self.forms(a)
        if b in fa:
            return True
        fb = self.forms(b)
        if fa & fb:
            return True
        if d:
            # structural: same constructor, equal fields
            for x in fa:
                for y in fb:
                    if x.op == 'adt' and len(x.a) > 3:
                        if y.op == 'adt' and x.a[:3] == y.a[:3] and all(self.eq(p, q, d - 1) for p, q in zip(x.a[3:], y.a[3:])):
                            return True
                        if y.op in ('fld', 'g', 'arg', 'elem', 'pay', 'upd') and len(x.a[2]) > 1 and all(self.eq(p, proj(y, f), d - 1) for f, p in zip(x.a[2], x.a[3:])):
                            return True
                    elif y.op == 'adt' and len(y.a) > 3 and x.op in ('fld', 'g', 'arg', 'elem', 'pay', 'upd') and len(y.a[2]) > 1 and all(self.eq(p, proj(x, f), d - 1) for f, p in zip(y.a[2], y.a[3:])):
                        return True
            # fields of both sides compared one by one
            for x in fa:
                for y in fb:
                    if x.op == 'g' and y.op == 'g' and len(x.a) == len(y.a) and x is not y:
                        if all((p == q) or (isinstance(p, V) and isinstance(q, V) and p.op == 'k' and q.op == 'k' and self.eq(p.a[0], q.a[0], d - 1)) for p, q in zip(x.a, y.a)):
                            return True
            if self.fieldwise(a, b, ('owner', 'subaccount'), d - 1):
                return True
        return False

    def fieldwise(self, a, b, fs, d):
        ok = 0
        for f in fs:
            pa, pb = proj(a, f), proj(b, f)
            if pa is pb or pb in self.forms(pa) or (self.forms(pa) & self.forms(pb)):
                ok += 1
        return ok == len(fs)


# ------------------------------------------------------------------ literal monitor
def overlap(p, q):
    """two global paths may denote overlapping storage"""
    for x, y in zip(p, q):
        if x == y:
            continue
        if isinstance(x, V) or isinstance(y, V):
            continue        # keys may be equal
        return False
    return True


def must_entail(ex, is_target, rel, entail, msg, awaits=True, R=None, keep=None):
    """at every occurrence of a target, the branch literals decided on the way (about the current loop
    elements, and not invalidated by a write or an await since) must entail the condition.
    rel(atom) selects relevant atoms; entail(frozenset of (atom, value), target) -> bool"""
    tgts = [l for l in ex.labels() if is_target(l)]
    tset = {}
    for t in tgts:
        tset[t] = True
    cache = {}
    ent = {}
    atomcache = {}

    def gpaths(a):
        r = atomcache.get(a)
        if r is None:
            r = ([s.a for s in subs(a) if s.op in ('g', 'gref')], frozenset(s for s in subs(a) if s.op in LEAF))
            atomcache[a] = r
        return r

    def classify(l):
        r = cache.get(l)
        if r is not None:
            return r
        if l[0] == 'p':
            a, v = l[1], l[2]
            while a.op == 'not' and isinstance(v, bool):
                a, v = a.a[0], not v
            r = ('p', (a, v)) if rel(a) else ('0',)
        elif l[1] in ('iter_next', 'iter_end'):
            b = l[6] if l[1] == 'iter_next' else l[5]
            ls = frozenset(b[0]) | frozenset(b[1])
            r = ('i', ls) if ls else ('0',)
        elif l[1] == 'gw':
            r = ('w', l[2])
        elif l[1] == 'await' and awaits:
            r = ('a',)
        else:
            r = ('0',)
        cache[l] = r
        return r

    def step(s, l):
        if l in tset:
            k = (s, l)
            r = ent.get(k)
            if r is None:
                r = ent[k] = entail(s, l)
            if not r:
                s = kill(s, l)
                return Viol(msg(l), s)
        return kill(s, l)

    def kill(s, l):
        c = classify(l)
        k = c[0]
        if k == '0':
            return s
        if k == 'p':
            return s | {c[1]}
        if k == 'i':
            n = frozenset(x for x in s if not (gpaths(x[0])[1] & c[1]))
        elif k == 'w':
            n = frozenset(x for x in s if (keep and keep(x[0])) or not any(overlap(p, c[1]) for p in gpaths(x[0])[0]))
        else:
            n = frozenset(x for x in s if not gpaths(x[0])[0])
        return s if len(n) == len(s) else n

    v, n = search(ex.g, frozenset(), step)
    if R is not None:
        R.states += n
        R.use(ex)
    return [(l, m, tr) for m, l, tr in v], tgts, n


def lit(lits, pred):
    return any(pred(a, v) for a, v in lits)


# ------------------------------------------------------------------ path monitors
def dominated(ex, is_target, tag, need, msg, awaits=False, R=None, elem=True):
    """tags collected along the path (dropped when the loop element they mention is rebound, and at an
    await when awaits is set); at each target need(frozenset of tags, label) must hold.
    tag(label) -> hashable (leaf-carrying V terms inside tuples are recognised), or None"""
    tset = [l for l in ex.labels() if is_target(l)]
    ts = set(tset)
    c1 = {}

    def cls(l):
        r = c1.get(l)
        if r is None:
            if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and elem:
                b = l[6] if l[1] == 'iter_next' else l[5]
                r = ('i', frozenset(b[0]) | frozenset(b[1]))
            elif l[0] == 'e' and l[1] == 'await' and awaits:
                r = ('a',)
            else:
                t = tag(l)
                r = ('t', t) if t is not None else ('0',)
            c1[l] = r
        return r

    def step(s, l):
        if l in ts and not need(s, l):
            return Viol(msg(l), s)
        c = cls(l)
        if c[0] == '0':
            return s
        if c[0] == 't':
            return s | {c[1]}
        if c[0] == 'a':
            return frozenset()
        if not c[1]:
            return s
        n = frozenset(t for t in s if not (tleaves(t) & c[1]))
        return s if len(n) == len(s) else n
    v, n = search(ex.g, frozenset(), step)
    if R is not None:
        R.states += n
        R.use(ex)
    return [(l, m, tr) for m, l, tr in v], tset, n


_tl = {}


def tleaves(t):
    r = _tl.get(t)
    if r is None:
        r = _tl[t] = leaves(t) if isinstance(t, (tuple, V, frozenset)) else frozenset()
    return r


def together(ex, tag, ok, R=None, ends=('return',), upd=None):
    """tags performed for one loop element (or the whole call) must satisfy ok(frozenset tags) -> message or
    None whenever the element is rebound or the call returns"""
    c1 = {}
    alltags = [tag(l) for l in ex.labels() if l[0] in 'pe']
    lv = frozenset()
    for t in alltags:
        if t is not None:
            lv |= frozenset(tleaves(t))

    def cls(l):
        r = c1.get(l)
        if r is None:
            if l[0] == 'e' and l[1] == 'iter_next':
                r = ('i', (frozenset(l[6][0]) | frozenset(l[6][1])) & lv)
            else:
                t = tag(l)
                r = ('t', t) if t is not None else ('0',)
            c1[l] = r
        return r

    def step(s, l):
        c = cls(l)
        if c[0] == '0':
            return s
        if c[0] == 't':
            return upd(s, c[1]) if upd else s | {c[1]}
        if not c[1]:
            return s
        hit = frozenset(t for t in s if tleaves(t) & c[1])
        if hit:
            m = ok(hit)
            n = s - hit
            return Viol(m, n) if m else n
        return s

    def at_end(s, kind):
        if kind in ends:
            groups = {}
            m = ok(s) if s else None
            return m
    v, n = search(ex.g, frozenset(), step, at_end)
    if R is not None:
        R.states += n
        R.use(ex)
    return [(l, m, tr) for m, l, tr in v], n


def exports_of(crate='core_nft', kinds=('canister_update.', 'canister_query.', 'canister_init', 'canister_post_upgrade', 'canister_pre_upgrade')):
    return sorted(e for e in prog(crate).exports if e.startswith(kinds))


def mname(e):
    return e.split('.')[-1]


# ------------------------------------------------------------------ removing elements of a stored list
REBUILD = {'filter', 'cloned', 'copied', 'map', 'inspect', 'into', 'by_ref', 'filter_map'}


def retained_but(el, cond):
    """retain(|x| x != y) -> y"""
    c = cond
    if c.op == 'not' and c.a[0].op == 'eq' and el in c.a[0].a:
        a, b = c.a[0].a
        return b if a is el else a
    return None


def same_place(v, path):
    return v.op in ('g', 'gref') and v.a == path


def elem_home(v):
    """the stored list v is an element of, as a path"""
    if v.op == 'elem' and v.a[0].op in ('g', 'gref'):
        return v.a[0].a
    if v.op in ('g', 'gref') and v.a[-1] == 'each':
        return v.a[:-1]
    return None


def sieve(ex, l, R=None):
    """the write l leaves exactly the elements of a stored list that differ from x -> x, else None"""
    t = touch(l)
    if t.how == 'retain':
        return retained_but(*t.vals)
    if t.how != 'set' or len(t.vals) != 1:
        return None
    for b in alts(t.vals[0]):
        if b.op not in ('bag', 'arr') or any(elem_home(x) != l[2] for x in b.a):
            return None
    loops = [n for n in ex.labels() if n[0] == 'e' and n[1] == 'iter_next' and same_place(n[2], l[2])]
    if len({(n[2], n[-1]) for n in loops}) != 1 or any(set(n[4]) - REBUILD or n[5] not in ((), None) for n in loops):
        return None
    src, loc, el = loops[0][2], loops[0][-1], loops[0][3]

    def other(m):
        if m[0] == 'p' and m[1].op == 'eq' and el in m[1].a:
            a, b = m[1].a
            x = b if a is el else a
            return None if el in subs(x) else norm(x)
        return None
    xs = {other(m) for m in ex.labels()} - {None}
    if len(xs) != 1:
        return None

    def step(s, m):
        if m[0] == 'p':
            return ('drop' if m[2] else 'keep') if s == 'open' and other(m) is not None else s
        if m[1] == 'out' and m[2] is el:
            return 'kept' if s == 'keep' else Viol('bad', 'kept')
        if m[1] in ('iter_next', 'iter_end') and m[2] is src and m[-1] == loc:
            n = 'open' if m[1] == 'iter_next' else 'done'
            return Viol('bad', n) if s in ('open', 'keep') else n
        return Viol('bad', s) if m is l and s != 'done' else s
    v, k = search(ex.g, 'start', step)
    if R is not None:
        R.states += k
    return None if v else xs.pop()


def scanned(ex, path, R=None):
    """{x: loops} loops (source, place) that compare every element of the stored list with x"""
    out = {}
    for src, loc in {(n[2], n[-1]) for n in ex.labels() if n[0] == 'e' and n[1] == 'iter_next' and same_place(n[2], path)}:
        els = {n[3] for n in ex.labels() if n[0] == 'e' and n[1] == 'iter_next' and n[2] is src and n[-1] == loc}
        if len(els) != 1:
            continue
        el = els.pop()
        for x in {norm(b if a is el else a) for m in ex.labels() if m[0] == 'p' and m[1].op == 'eq' and el in m[1].a for a, b in [m[1].a]}:
            def step(s, m):
                if m[0] == 'p' and m[1].op == 'eq' and el in m[1].a and any(norm(y) is x for y in m[1].a):
                    return 1
                if m[0] == 'e' and m[1] in ('iter_next', 'iter_end') and m[2] is src and m[-1] == loc:
                    return Viol('bad', 0) if s == 0 else (0 if m[1] == 'iter_next' else 2)
                return s
            v, k = search(ex.g, 2, step)
            if R is not None:
                R.states += k
            if not v:
                out.setdefault(x, set()).add((src, loc))
    return out
