"""C27 token metadata is exactly what was requested."""
from rl import *
from rules.tokens import token_writes
from rules.auth import reply_ok
from rules.queries import copies, loops_at, ARG, rebuild

METHODS = {'mint': None, 'update_nft_metadata': None}
REORDER = {'rev', 'sorted', 'sort'}


def meta_writes(ex):
    return touches(ex, 'METADATA')


def stored(key):
    """is g the stored entries of the token?"""
    def f(b):
        if b.op not in ('g', 'gref'):
            return False
        p = spath(b)
        return p is not None and p[0] == 'METADATA' and any(isinstance(x, V) and norm(unwrap(x.a[0])) is key for x in p) and p[-1] == 'data' and len(p) == 4
    return f


def entry_of(src, en):
    """en = (key, value) is an element of the entry list src, the value possibly wrapped"""
    el = mk('elem', src)
    en = same_position(en)
    if en is el:
        return True
    if en.op != 'tup' or len(en.a) != 2:
        return False
    k, v = en.a
    return norm(k) is norm(proj(el, '0')) and bare(v) is norm(proj(el, '1'))


def same_position(v):
    """requests[i] at the position i of a list with one element per request is the request of that element"""
    for s in subs(v):
        if s.op == 'at' and s.a[1].op == 'idx' and s.a[0].op != 'g':
            L, X = s.a[0], s.a[1].a[0]
            el = mk('elem', L)
            if X is L or (X.op in ('arr', 'bag') and X.a and all(el in subs(y) or mk('idx', L) in subs(y) for y in X.a)):
                return same_position(rebuild(v, s, el))
    return v


def bare(v):
    v = norm(v)
    while v.op == 'adt' and v.a[2] == ('0',) and v.a[0].split('::')[-1] == 'CustomValue':
        v = norm(v.a[3])
    if v.op == 'g' and v.a[-1] == '0':
        return bare(mk('g', *v.a[:-1]))
    return v


def from_stored(key, en):
    if en.op != 'tup' or len(en.a) != 2 or en.a[0].op != 'ekey' or not stored(key)(en.a[0].a[0]):
        return False
    v = bare(en.a[1])
    return v.op == 'g' and v.a == en.a[0].a[0].a + (mk('k', en.a[0]),)


def of(src, coll):
    """does the loop over coll go through the entries src?"""
    return src in subs(same_position(coll))


def parts(m):
    """(base, entries, removed) of a map term"""
    if m.op == 'map':
        return m.a[0], list(m.a[1].a), list(m.a[2].a)
    return m, [], []


def is_empty(b):
    return b.op == 'empty'


def c27(R):
    n = 0
    for e in exports_of():
        ex = export(e)
        R.use(ex)
        name = mname(e)
        ws = meta_writes(ex)
        n += len(ws)
        if name not in METHODS:
            for l in ws:
                R.viol('write:' + name, '%s changes token metadata at %s' % (e, where(l)))
            continue
        if not ws:
            R.viol('anchor:' + name, '%s: no write to the token metadata found' % e)
            continue
        if name == 'mint':
            mint(R, ex, e, ws)
        else:
            update(R, ex, e, ws)
    R.floor('metadata writes', n, 4)


def put(R, e, l, key, src):
    """value written by an insert: (kind, base) or None after reporting; kind 'merge' | 'whole'"""
    t = touch(l)
    m = proj(t.vals[1], 'data')
    res = []
    for x in alts(m):
        b, ents, gone = parts(x)
        if gone:
            R.viol('drop:' + e, '%s drops the entry %s of a token at %s' % (e, clip(show(gone[0]), 80), where(l)))
        for en in ents:
            if not entry_of(src, en):
                R.viol('entry:' + e, '%s stores the entry %s at %s, which is not an entry of the request' % (e, clip(show(en), 160), where(l)))
        if stored(key)(b):
            res.append('merge')
        elif is_empty(b):
            res.append('fresh')
        else:
            R.viol('base:' + e, '%s stores at %s entries made from %s' % (e, where(l), clip(show(b), 120)))
    return res


def fresh_ok(R, ex, e, fresh, key, acts, src):
    """an insert that starts from no entries: only where none are stored, or outside the loop over the entries"""
    inloop = {l for l in fresh if any(of(src, st[2]) for s in acts[l] for st in s)}

    def ent(lits, l):
        return any(v == 'None' and a.op == 'opt' and a.a[0].op in ('g', 'gref') and has_g(a, 'METADATA') and any(isinstance(x, V) and norm(unwrap(x.a[0])) is key for x in a.a[0].a) for a, v in lits)
    v, ts, n = must_entail(ex, lambda l: l in inloop, lambda a: a.op == 'opt' and has_g(a, 'METADATA'), ent, lambda l: 'fresh', R=R)
    for l, m, tr in v:
        R.viol('overwrite:' + e, '%s at %s forgets the entries stored before in the same call' % (e, where(l)), tr)


def mint(R, ex, e, ws):
    keys = {}
    for w in token_writes(ex):
        if w.kind == 'owner' and w.new is not None and w.new.op == 'fld' and w.new.a[1] == 'token_owner':
            keys[w.key] = w.new.a[0]
    acts = loops_at(ex, ws)
    fresh = set()
    outer = {}
    for l in ws:
        t = touch(l)
        key = norm(t.key) if t.key is not None else None
        if key not in keys:
            R.viol('key:mint', 'mint writes metadata at %s for %s, not for a token of this batch' % (where(l), clip(show(key)) if key is not None else 'several tokens'))
            continue
        E = keys[key]
        src = proj(E, 'metadata')
        if t.how != 'insert':
            R.viol('how:mint', 'mint changes metadata at %s by %s' % (where(l), t.how))
            continue
        if 'fresh' in put(R, 'mint', l, key, src):
            fresh.add(l)
        for s in acts[l]:
            for i, st in enumerate(s):
                odd = set(st[4]) & (FILTERS - {'zip'} | REORDER)
                if odd:
                    R.viol('part:mint', 'mint stores metadata only for a part of %s, or in another order (%s at %s)' % (clip(show(st[2]), 80), ', '.join(sorted(odd)), where(st)))
                if not of(src, st[2]):
                    outer.setdefault(st[-1], set()).add(l)
        if not any(not of(src, st[2]) for s in acts[l] for st in s):
            R.viol('once:mint', 'mint writes metadata at %s outside of a loop over its requests' % where(l))
        fresh_ok(R, ex, 'mint', {l} & fresh, key, acts, src)
    # every request: its metadata loop runs (or its entries are stored whole)
    srcs = {proj(E, 'metadata') for E in keys.values()}
    inner = lambda l: l[0] == 'e' and l[1] == 'iter_end' and any(s in srcs for s in subs(same_position(l[2])))
    wset = set(ws)
    for loc in outer:
        def step(s, l):
            if l in wset or (inner(l) and l[-1] != loc):
                return 1
            if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] == loc:
                n = 0 if l[1] == 'iter_next' else 2
                return Viol('skip', n) if s == 0 else n
            return s
        v, k = search(ex.g, 2, step)
        R.states += k
        for m, l, tr in v:
            R.viol('skip:mint', 'mint can leave out the metadata of a request in the loop at %s' % where(l), tr)
    fx = export(e, flat=True)
    R.use(fx)
    full(R, fx, 'mint', lambda s: s.op == 'fld' and s.a[1] == 'metadata')
    # an answer Ok without any metadata written for a batch: the loop over the requests must have been completed
    def done(s, l):
        if l[0] == 'e' and l[1] == 'iter_end' and l[-1] in outer:
            return True
        return s

    def stp(s, l):
        s = done(s, l)
        if reply_ok(l) and not s:
            return Viol('none', s)
        return s
    v, k = search(ex.g, False, stp)
    R.states += k
    for m, l, tr in v:
        R.viol('none:mint', 'mint can answer Ok at %s without storing the metadata of its requests' % where(l), tr)
    R.ob('mint: %d metadata writes store the entries of the request of the same token' % len(ws))


def full(R, fx, name, is_src):
    """all loops over the requested entries handle every entry"""
    writes = [l for l in fx.labels() if l[0] == 'e' and l[1] == 'gw' and touch(l) is not None and touch(l).map[:1] == ('METADATA',)]
    return copies(R, fx, name, lambda src: any(is_src(s) for s in subs(src)), extra=writes)


def update(R, ex, e, ws):
    key = proj(ARG(0), 'token_id')
    src = proj(ARG(0), 'metadata')
    acts = loops_at(ex, ws)
    drops, merges, wholes = set(), set(), set()
    for l in ws:
        t = touch(l)
        k = norm(t.key) if t.key is not None else None
        if k is not key:
            R.viol('key:update', '%s writes metadata of %s at %s' % (e, clip(show(k)) if k is not None else 'several tokens', where(l)))
            continue
        if t.how == 'remove':
            drops.add(l)
        elif t.how == 'insert':
            kinds = put(R, 'update_nft_metadata', l, key, src)
            inloop = any(of(src, st[2]) for s in acts[l] for st in s)
            if 'merge' in kinds or inloop:
                merges.add(l)
            else:
                wholes.add(l)
            fresh_ok(R, ex, 'update_nft_metadata', {l} if 'fresh' in kinds else set(), key, acts, src)
        else:
            R.viol('how:update', '%s changes metadata at %s by %s' % (e, where(l), t.how))
    mlocs = {st[-1] for l in merges for s in acts[l] for st in s if of(src, st[2])}

    # old: the previous entries are stored; clean: none; adding; done: exactly the requested ones
    def step(s, l):
        if l in drops:
            return 'clean' if s == 'old' else Viol('lost', 'clean')
        if l in wholes:
            return 'done'
        if l in merges and s == 'old':
            return Viol('kept', 'adding')
        if l[0] == 'e' and l[1] == 'iter_end' and l[-1] in mlocs and s in ('clean', 'adding'):
            return 'done'
        if l[0] == 'e' and l[1] == 'iter_next' and l[-1] in mlocs and s == 'clean':
            return 'adding'
        if reply_ok(l) and s != 'done':
            return Viol('reply ' + s, s)
        return s
    v, n = search(ex.g, 'old', step)
    R.states += n
    for m, l, tr in v:
        if m == 'lost':
            R.viol('lost:update', '%s removes entries at %s that it stored itself' % (e, where(l)), tr)
        elif m == 'kept':
            R.viol('kept:update', '%s stores new entries at %s next to the previous ones, which were not removed' % (e, where(l)), tr)
        else:
            R.viol('reply:update', '%s answers Ok at %s without having replaced the metadata by that of the request' % (e, where(l)), tr)
    fx = export(e, flat=True)
    R.use(fx)
    full(R, fx, 'update_nft_metadata', lambda s: s is src)
    copies(R, fx, 'update_nft_metadata', lambda s: has_g(s, 'METADATA'))
    block(R, fx, e, key, src)
    R.ob('update_nft_metadata: the stored entries are replaced by exactly the requested ones')


def block(R, fx, e, key, src):
    """the block carries all previous and all new entries"""
    def content(v):
        for _ in range(4):
            if v.op == 'adt' and v.a[1] in ('Some', 'Map') and len(v.a) == 4:
                v = v.a[3]
        return v
    n = 0
    prev = new = 0
    for l in fx.labels():
        if not is_log(l):
            continue
        for t in txs(l):
            n += 1
            meta = t.f.get('meta')
            m = content(meta) if meta is not None else None
            if m is None or m.op != 'map' or not is_empty(m.a[0]) or m.a[2].a:
                R.viol('block', '%s: the block appended at %s carries %s as its metadata' % (e, where(l), clip(show(meta)) if meta is not None else 'nothing'))
                continue
            got = {}
            for en in m.a[1].a:
                if en.op == 'tup' and en.a[0].op == 'str':
                    got['previous' if 'prev' in en.a[0].a[0] else 'new' if 'new' in en.a[0].a[0] else en.a[0].a[0]] = en.a[1]
            if set(got) != {'previous', 'new'} or len(m.a[1].a) != 2:
                R.viol('block', '%s: the block appended at %s does not name the previous and the new metadata' % (e, where(l)))
                continue
            for x in alts(got['previous']):
                for y in alts(content(x)):
                    b, ents, gone = parts(y)
                    if gone or not (is_empty(b) or stored(key)(b)) or not all(from_stored(key, en) for en in ents):
                        R.viol('block:prev', '%s: the block appended at %s gives %s as previous metadata' % (e, where(l), clip(show(y), 160)))
                    prev += bool(ents) or stored(key)(b)
                    if is_empty(b) and not ents and len(alts(content(x))) == 1:
                        none = lambda p: (p[0] == 'p' and p[1].op == 'opt' and p[2] == 'None' and has_g(p[1], 'METADATA')) or (p[0] == 'e' and p[1] == 'iter_end' and has_g(p[2], 'METADATA'))

                        def step(s, p, l=l):
                            if p is l or p == l:
                                return s if s else Viol('prev', s)
                            return True if none(p) else s
                        v, k = search(fx.g, False, step)
                        R.states += k
                        for _, q, tr in v:
                            R.viol('block:prev', '%s: the block appended at %s gives no previous metadata although there may be some' % (e, where(l)), tr)
            for x in alts(got['new']):
                for y in alts(content(x)):
                    b, ents, gone = parts(y)
                    if gone or not is_empty(b) or not all(entry_of(src, en) for en in ents):
                        R.viol('block:new', '%s: the block appended at %s gives %s as new metadata' % (e, where(l), clip(show(y), 160)))
                    new += bool(ents)
    R.floor('update blocks with their metadata', n, 1)
    if n and not prev:
        R.viol('block:prev', '%s: no block carries the previous metadata' % e)
    if n and not new:
        R.viol('block:new', '%s: no block carries the new metadata' % e)
