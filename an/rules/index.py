"""C23 announced block kinds and log queries, C24 index progress, C25 index entries, C26 index answers."""
from rl import *
import query
from rules.auth import reply_value
from rules.log import METHODS, KINDS
from rules.queries import rebuild

CR = 'index_icrc7'
IDX = CR + '::index::__INDEX'
CACHE = CR + '::cache::__CACHE'
I3 = 'icrc_ledger_types::icrc::generic_value::ICRC3Value'
BW = 'icrc_ledger_types::icrc3::blocks::BlockWithId'
ID, TS, TID = [mk('fld', mk('arg', 9), x) for x in ('block_id', 'block_time', 'token_id')]
ROLES = ('from', 'to', 'spender')


def iv(k, v):
    return mk('adt', I3, k, ('0',), v)


def block(kind, texts, tid):
    """a ledger block as the index canister receives it"""
    tx = [tup(strv(r), iv('Text', t)) for r, t in texts.items()]
    if tid:
        tx.append(tup(strv('tid'), iv('Nat', TID)))
    tx = iv('Map', mapv(mk('empty'), tx))
    b = iv('Map', mapv(mk('empty'), [tup(strv('btype'), iv('Text', strv(kind))), tup(strv('tx'), tx), tup(strv('timestamp'), iv('Nat', TS))]))
    return mk('adt', BW, 'BlockWithId', ('id', 'block'), ID, b), b


def appended_kinds():
    """kind -> set of (present roles, token id?) of the blocks the ledger appends"""
    out = {}
    for m in METHODS:
        ex = export('canister_update.' + m)
        for l in ex.labels():
            if not is_log(l):
                continue
            for t in txs(l):
                bt = t.btype
                k = bt.a[0] if bt is not None and bt.op == 'str' else KINDS[m]
                opts = [()]
                for f in ROLES + ('tid',):
                    v = t.f.get(f)
                    if v is None:
                        continue
                    vs = {('adt' == x.op and x.a[1]) or '?' for x in alts(v)}
                    poss = [False, True] if vs != {'Some'} and vs != {'None'} else [vs == {'Some'}]
                    opts = [o + ((f,) if b else ()) for o in opts for b in poss]
                out.setdefault(k, set()).update(opts)
    return out


def partitions(xs):
    if not xs:
        return [{}]
    out = []
    for p in partitions(xs[1:]):
        n = max(p.values(), default=-1) + 1
        for g in range(n + 1):
            q = dict(p)
            q[xs[0]] = g
            out.append(q)
    return out


def indexers():
    """functions of the index canister that take a block and write the index"""
    out = []
    for f in query.prog(CR).fns.values():
        n = f.raw.get('argc') or 0
        tys = f.raw['locals'][1:n + 1]
        if '{closure' in f.path or not any(t.replace('&', '').replace('mut ', '').strip() == BW for t in tys):
            continue
        out.append((f, tys))
    return out


def atom(v):
    """built from the symbols of the fed block alone"""
    return all(x.op in ('fld', 'app', 'str', 'int', 'adt', 'arg') for x in subs(v)) and any(x.op == 'arg' for x in subs(v)) and all(x.a == (9,) for x in subs(v) if x.op == 'arg')


def unchecked(v):
    """result of parsing an account / converting a number of a block: taken to succeed (the ledger wrote it)"""
    return v.op == 'res' and (v.a[0].op == 'app' and v.a[0].a[0] == 'parse' or v.a[0] in (ID, TS, TID))


def entries(R, f, kind, texts, tid, arg, same):
    ex = query.Ex(CR, f.path.split('::')[-1], f, args=arg, exact=True)
    R.use(ex)
    tag = '%s (%s%s%s)' % (kind, '/'.join(texts), '' if not same else ', same account', ', tid' if tid else '')

    def step(s, l):
        # s: entries made, entries of the index known to be absent
        done, none = s
        if l[0] == 'p':
            v, x = l[1], l[2]
            if unchecked(v) and x == 'Err':
                return None
            while v.op == 'not' and isinstance(x, bool):
                v, x = v.a[0], not x
            if v.op == 'eq' and isinstance(x, bool) and atom(v.a[0]) and atom(v.a[1]) and x != (v.a[0] is v.a[1]):
                return None
            if v.op == 'opt' and v.a[0].op == 'g' and v.a[0].a[0] == IDX and x in ('None', 'Some'):
                return (done, none | {v.a[0]} if x == 'None' else none - {v.a[0]})
            return s
        k = l[1]
        if k == 'iter_next' and any(unchecked_src(t) for t in subs(l[2])):
            return Viol('takes the accounts at %s from a list the analysis does not know' % where(l), None)
        if k == 'gw' and l[2][0] == IDX:
            if l[3] != 'insert' or len(l[4]) != 2:
                return Viol('changes the index in another way (%s)' % short(l), s)
            key, val = l[4]
            m = fresh(none, key, val)
            s = (done + (key,), none)
            if m:
                return Viol('stores %s under %s' % (m, clip(show(key), 100)), s)
            return s
        if k == 'panic':
            return Viol('traps on a %s block' % kind, None)
        if k == 'return':
            r = l[2]
            if r.op == 'adt' and r.a[1] == 'Err':
                return Viol('refuses the block', None)
            m = judge(done)
            if m:
                return Viol(m, None)
            return s
        return s

    def fresh(none, key, val):
        """None if val is the list already stored under key with the block added"""
        v = val
        while v.op == 'adt' and len(v.a) == 4:
            v = v.a[3]
        old = lambda b: b.op in ('g', 'fld', 'pay') and any(t.op == 'g' and t.a[0] == IDX and any(p.op == 'k' and p.a[0] is key for p in t.a[1:] if isinstance(p, V)) for t in subs(b))
        one = mk('arr', ID)
        if v.op == 'app' and v.a[0] in ('pushed', 'cat'):
            a, b = v.a[1:3]
            if v.a[0] == 'cat' and a is one:
                a, b = b, a
            if not old(a):
                return 'the list of another key' if any(t.op == 'g' and t.a[0] == IDX for t in subs(a)) else 'something that is not understood (%s)' % clip(show(val), 60)
            return None if b is (ID if v.a[0] == 'pushed' else one) else 'another number than the id of the block'
        if v.op == 'arr':
            if not any(any(p.op == 'k' and p.a[0] is key for p in g.a[1:] if isinstance(p, V)) for g in none):
                return 'a new list although the key may have entries already'
            return None if v is one else 'other numbers than the id of the block'
        return 'something that is not understood (%s)' % clip(show(val), 60)

    def judge(done):
        want = {('Account', t): None for t in texts.values()}
        want[('BlockType', strv(kind))] = None
        if tid:
            want[('TokenId', TID)] = None
        got = {}
        for k in done:
            c = classify(k)
            if c is None:
                return 'makes an entry under %s' % clip(show(k), 100)
            got[c] = got.get(c, 0) + 1
        for w in want:
            if w not in got:
                return 'does not list the block under its %s' % {'Account': 'account %s' % next((r for r, t in texts.items() if t is w[1]), ''), 'BlockType': 'kind', 'TokenId': 'token'}[w[0]]
        for c, n in got.items():
            if c not in want:
                return 'lists the block under a foreign %s (%s)' % (c[0], clip(show(c[1]), 60))
            if n > 1:
                return 'lists the block %d times under the same %s' % (n, c[0])
        return None

    v, c = search(ex.g, ((), frozenset()), step)
    R.states += c
    for m, l, tr in v:
        R.viol('%s:%s' % (kind, m[:60]), '%s: for a block %s, %s %s' % (f.path, tag, f.short, m), tr)
    return ex


def unchecked_src(v):
    return v.op == 'app' and v.a[0] == 'parse'


def classify(k):
    """('Account', text) | ('BlockType', kind) | ('TokenId', number) of an index key"""
    if k.op != 'adt' or not k.a[0].endswith('IndexType') or len(k.a) != 4:
        return None
    w, x = k.a[1], k.a[3]
    if w == 'BlockType':
        return (w, x)
    if w == 'TokenId' and x.op == 'adt' and len(x.a) == 4:
        return (w, x.a[3])
    if w == 'Account' and x.op == 'adt' and len(x.a) == 4:
        a = x.a[3]
        if a.op == 'adt' and 'owner' in a.a[2]:
            o, sub = proj(a, 'owner'), proj(a, 'subaccount')
            if o.op == 'app' and o.a[0] == 'parse' and sub.op == 'adt' and sub.a[1] == 'None':
                return (w, o.a[1])
    return None


def c25(R):
    kinds = appended_kinds()
    R.floor('kinds of blocks', len(kinds), 9)
    T = {r: mk('fld', mk('arg', 9), 'text_' + r) for r in ROLES}
    fs = indexers()
    n = wr = 0
    for f, tys in fs:
        hit = False
        for kind, shapes in sorted(kinds.items()):
            for sh in sorted(shapes):
                rs = [r for r in ROLES if r in sh]
                for p in partitions(rs):
                    texts = {r: T[rs[[p[x] for x in rs].index(p[r])]] for r in rs}
                    b, inner = block(kind, texts, 'tid' in sh)
                    args = [b if t.replace('&', '').replace('mut ', '').strip() == BW else mk('arg', i) for i, t in enumerate(tys)]
                    if not hit:
                        ex = query.Ex(CR, f.short, f, args=args, flat=True)
                        if not any(l[0] == 'e' and l[1] == 'gw' and l[2][0] == IDX for l in ex.labels()):
                            continue
                        hit = True
                        wr += 1
                    entries(R, f, kind, texts, 'tid' in sh, args, len(set(texts.values())) < len(rs))
                    n += 1
    if not wr:
        R.viol('anchor:indexer', 'no function of the index canister that takes a block writes the index')
    R.floor('block shapes', n, 20)
    R.ob('%d block shapes of %d kinds indexed' % (n, len(kinds)))


# ------------------------------------------------------------------ shared: the two users of the blocks
LASTB = ('data', 'last_block_id')


def is_count(v):
    return v.op == 'g' and spath(v) == LASTB


def advance(v):
    """(how many blocks further than the stored progress, read before the last suspension?) of a counter term"""
    if v.op == 'ups':
        a = advance(v.a[0])
        return (2, a[1]) if a else None
    if v.op == 'app' and v.a[0] == 'add':
        for x, y in (v.a[1:], v.a[:0:-1]):
            if x.op == 'int' and x.a[0] > 0:
                a = advance(y)
                if a:
                    return (min(2, a[0] + x.a[0]), a[1])
        return None
    if v.op == 'old':
        return (0, True) if is_count(v.a[0]) else None
    return (0, False) if is_count(v) else None


def writers():
    """functions that enter a block into the index"""
    out = []
    p = query.prog(CR)
    for f, tys in indexers():
        ex = query.Ex(CR, f.short, f)
        if any(l[0] == 'e' and l[1] == 'gw' and l[2][0] == IDX for l in ex.labels()) and not any(l[0] == 'e' and l[1] == 'await' for l in ex.labels()):
            out.append(f.path)
    return out


def timer_jobs(crate):
    from rules.life import timer
    p = query.prog(crate)
    out = {}
    for e in ('canister_init', 'canister_post_upgrade'):
        for l in export(e, crate).labels():
            if timer(l):
                v = [a for a in l[3] if isinstance(a, V)][-1]
                fid = v.a[0] if v.op == 'clo' else v.a[1] if v.op == 'fn' else None
                if fid in p.fns:
                    out[fid] = p.fns[fid]
    return list(out.values())


def last2(s):
    return '::'.join(s.split('::')[-2:])


def bid(v):
    """the block a number is the id of (conversions between number types ignored)"""
    for _ in range(6):
        if v.op == 'pay' and v.a[1] == 'Ok' and v.a[0].op == 'res':
            v = v.a[0].a[0]
        elif v.op == 'fld' and v.a[1] in ('0',):
            v = v.a[0]
        elif v.op == 'fld' and v.a[1] == 'id':
            return v.a[0]
        else:
            return None
    return None


def answer_blocks(v):
    """'ledger' / 'archive' when v is a block out of the answer to the matching request; else a reason"""
    if v.op != 'elem' or v.a[0].op != 'fld' or v.a[0].a[1] != 'blocks':
        return None
    src = v.a[0].a[0]
    res = set()
    for r in alts(src):
        for c in calls_in(r):
            op = c.a[0]
            a = [x for x in c.a[1:] if isinstance(x, V)]
            if op.endswith('icrc3_c2c_client::icrc3_get_blocks'):
                can = a[-2]
                ok = all(x.op in ('g', 'old') and spath(x if x.op == 'g' else x.a[0]) == ('data', 'ledger_canister_id') for x in alts(can))
                res.add('ledger' if ok else 'another canister than the ledger')
            elif op.endswith('archive_c2c_client::icrc3_get_blocks'):
                can, args = a[-2], a[-1]
                ok = can.op == 'fld' and can.a[1] == 'canister_id' and args.op == 'fld' and args.a[1] == 'args' and can.a[0].op == 'fld' and can.a[0].a[0] is args.a[0] \
                    and args.a[0].op == 'elem' and args.a[0].a[0].op == 'fld' and args.a[0].a[0].a[1] == 'archived_blocks'
                res.add('archive' if ok else 'an archive asked for other blocks than the ledger names')
    return res or None


def calls_in(r):
    out = []
    if r.op == 'pay' and r.a[1] == 'Ok':
        r = r.a[0]
    if r.op == 'out':
        r = r.a[0]
    for x in alts(r):
        if x.op == 'ret':
            if x.a[0] == 'retry':
                out += [y for s in x.a[1:] if isinstance(s, V) for y in alts(s) if y.op == 'ret']
            else:
                out.append(x)
    return out


def bw(v):
    return v.op == 'adt' and v.a[0].endswith('BlockWithId') and 'id' in v.a[2] and 'block' in v.a[2]


def c24(R):
    ops = writers()
    if not ops:
        R.viol('anchor:indexer', 'no function of the index canister enters a block into the index')
        return
    names = {last2(o) for o in ops}
    n = 0
    for f in timer_jobs(CR):
        ex = query.Ex(CR, 'job ' + f.short, f, opaque=ops, flat=True, stale=True)
        R.use(ex)
        if not any(l[0] == 'e' and l[1] == 'call' and l[2] in names for l in ex.labels()):
            for l in ex.labels():
                if gwp(l) and spath(l[2]) == LASTB:
                    R.viol('progress:' + f.short, 'job %s changes the progress at %s without indexing blocks' % (f.short, where(l)))
            continue
        n += 1
        progress(R, f, ex, names)
    R.floor('jobs that index blocks', n, 1)
    # nobody else moves the progress or writes the index
    for e in exports_of(CR):
        ex = export(e, CR)
        R.use(ex)
        for l in ex.labels():
            p = gwp(l)
            if not p or e in ('canister_init', 'canister_post_upgrade') and p[0] != 'STATE' and p != ('data',):
                continue          # (these two explore the timer jobs as well)
            if l[2][0] == IDX:
                R.viol('foreign:%s' % mname(e), '%s writes the index at %s' % (e, where(l)))
            elif p == LASTB:
                R.viol('foreign:%s' % mname(e), '%s moves the progress at %s' % (e, where(l)))
            elif p in (('STATE',), ('data',)) and e == 'canister_init':
                for x in l[4]:
                    for s in subs(x):
                        if s.op == 'adt' and 'last_block_id' in s.a[2] and proj(s, 'last_block_id') is not intv(0):
                            R.viol('init', 'the progress starts at %s' % clip(show(proj(s, 'last_block_id')), 60))
    for e in ('canister_query.status', 'canister_update.get_blocks'):
        ex = export(e, CR)
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
                r = reply_value(l)
                for x in alts(r) if r is not None else ():
                    fld = 'last_block_id' if 'status' in e else 'total'
                    if not (x.op == 'adt' and is_count(proj(x, fld))):
                        R.viol('report:' + mname(e), '%s reports %s as progress' % (e, clip(show(x), 80)))


class P:
    """one run: loops, what is known about the current block, blocks entered and not counted yet, sorted lists"""
    __slots__ = ('n', 'u', 'test', 'lists', 'used', 'fail', 'srt')
    D = dict(n=0, u=0, test=frozenset(), lists=frozenset(), used=False, fail=False, srt=frozenset())

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a, self.D[a]))

    def but(self, **k):
        d = {a: getattr(self, a) for a in self.__slots__}
        d.update(k)
        return P(**d)

    def __eq__(self, o):
        return all(getattr(self, a) == getattr(o, a) for a in self.__slots__)

    def __hash__(self):
        return hash(tuple(getattr(self, a) for a in self.__slots__))


def add_of(v, names):
    for x in alts(v):
        if x.op == 'ret' and x.a[0] in names:
            return [y for y in x.a[1:] if isinstance(y, V)]
    return None


def progress(R, f, ex, names):
    def step(s, l):
        if l[0] == 'p':
            v, x = l[1], l[2]
            while v.op == 'not' and isinstance(x, bool):
                v, x = v.a[0], not x
            a = add_of(v, names)
            if a is not None and x in ('Ok', 'Err'):
                if x == 'Err':
                    return s.but(fail=True)
                return s.but(n=min(2, s.n + 1), u=min(2, s.u + 1))
            if v.op in ('lt', 'eq') and isinstance(x, bool):
                for p, q, le in ((v.a[0], v.a[1], True), (v.a[1], v.a[0], False)):
                    c = advance(q)
                    b = bid(p)
                    if c is None or b is None:
                        continue
                    # block id >= progress
                    good = (v.op == 'lt' and le and x is False) or (v.op == 'eq' and x is True)
                    if good:
                        return s.but(test=s.test | {(b, c)})
            return s
        k = l[1]
        if k == 'iter_next':
            if is_block_loop(l):
                if l[2] not in s.srt:
                    return Viol('takes the blocks at %s in an order that is not by ascending id' % where(l), s.but(test=frozenset(), used=False, srt=s.srt | {l[2]}))
                if set(l[4]) & (FILTERS - {'filter', 'filter_map', 'skip_while'}):
                    return Viol('does not offer every fetched block for indexing (%s at %s)' % (', '.join(l[4]), where(l)), s)
                return s.but(test=frozenset((mk('elem', l[2]), c) for w, c in s.lists if w is l[2]), used=False)
            return s.but(test=frozenset(t for t in s.test if l[3] not in subs(t[0])))
        if k == 'out' and len(l) > 4:
            # copied in order from a sorted list, after a test
            fresh_ = l[4].op in ('arr', 'bag') and not l[4].a
            src = l[2].a[0] if l[2].op == 'elem' else None
            lists = {(w, c) for w, c in s.lists if w is not l[3]}
            here = {c for b, c in s.test if b is l[2]}
            lists |= {(l[3], c) for c in here if fresh_ or (l[4], c) in s.lists}
            if src is not None and src in s.srt and (fresh_ or l[4] in s.srt):
                return s.but(srt=s.srt | {l[3]}, lists=frozenset(lists))
            return s.but(srt=s.srt - {l[3]}, lists=frozenset(lists))
        if k == 'sorted':
            return s.but(srt=s.srt | {l[2]}) if by_id(l, False) else s.but(srt=s.srt - {l[2]})
        if k == 'call' and l[2] in names:
            b = next((x for x in l[3] if isinstance(x, V)), None)
            if s.fail:
                return Viol('goes on behind a block it could not index', s)
            if s.used:
                return Viol('indexes a block twice', s)
            t = [c for bb, c in s.test if bb is b]
            if not t:
                return Viol('indexes a block at %s without knowing that it lies at or behind the progress' % where(l), s.but(used=True))
            if any(o for _, o in t) and all(o for _, o in t):
                return Viol('compares the block with a progress read before it waited for the ledger', s.but(used=True))
            return s.but(used=True)
        if k == 'await' and s.u:
            return Viol('waits at %s while blocks it indexed are not counted' % where(l), s.but(n=0, u=0))
        if k == 'await':
            return s.but(n=0, u=0)
        if k == 'gw' and spath(l[2]) == LASTB:
            if l[3] != 'set' or len(l[4]) != 1:
                return Viol('changes the progress at %s (%s)' % (where(l), l[3]), s.but(u=0))
            v = l[4][0]
            bs = [x for x in subs(v) if bid(x) is not None]
            c = advance(v)
            if c is None and v.op == 'app' and v.a[0] == 'add' and any(x is intv(1) for x in v.a[1:]) and any(isinstance(x, V) and bid(x) is not None for x in v.a[1:]):
                # one behind the block entered last
                return s.but(u=0) if s.u == 1 and s.used and not s.fail else Viol('moves the progress behind a block that was not indexed', s.but(u=0))
            if c is None:
                return Viol('sets the progress to %s' % clip(show(v), 80), s.but(u=0))
            if c[1]:
                return Viol('stores a progress computed from one read before it waited for the ledger', s.but(u=0))
            if c[0] not in (s.n, s.u):
                return Viol('advances the progress by another number than the blocks it indexed (%s for %s)' % (['none', 'one', 'several'][c[0]], ['none', 'one', 'several'][s.n]), s.but(u=0))
            return s.but(u=0)
        if k == 'return' and s.u:
            return Viol('ends without counting the blocks it indexed', s)
        return s

    def is_block_loop(l):
        return l[-1] in blocks_at
    # loops whose element is handed to the indexer
    args = {x for l in ex.labels() if l[0] == 'e' and l[1] == 'call' and l[2] in names for x in l[3] if isinstance(x, V)}
    srcs = {x.a[0] for x in args if x.op == 'elem'}
    blocks_at = {l[-1] for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next' and l[2] in srcs}
    if not blocks_at:
        R.viol('anchor:loop', 'job %s: the blocks handed to the indexer are not taken from a list' % f.short)
        return
    v, c = search(ex.g, P(), step)
    R.states += c
    for m, l, tr in v:
        R.viol('run:' + m[:60], 'job %s %s' % (f.short, m), tr)
    # the request starts at the progress
    m = 0
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'iter_next' and l[2].op == 'adt' and 'start' in l[2].a[2]:
            st = proj(l[2], 'start')
            if st.op == 'int':
                continue
            m += 1
            if advance(st) != (0, False):
                R.viol('from', 'job %s asks for blocks from %s on, not from the progress on' % (f.short, clip(show(st), 80)))
            end = proj(l[2], 'end') if 'end' in l[2].a[2] else None
            if end is not None and (advance(end) or (0, 0))[0] == 0:
                R.viol('count', 'job %s asks for an empty range of blocks (%s)' % (f.short, clip(show(end), 80)))
    R.floor('requested ranges', m, 1)
    R.ob('job %s: %d indexing loops' % (f.short, len(blocks_at)))


def by_id(l, desc):
    """the sort puts blocks in ascending (descending) order of their ids"""
    if l[3] in ('sort', 'sort_unstable') and not (l[4].op == 'cmp'):
        return False
    c = l[4]
    if c.op == 'app' and c.a[0] == 'reverse':
        return by_id((*l[:4], c.a[1], l[5] if len(l) > 5 else ''), not desc)
    if c.op == 'cmp' and len(c.a) == 2:
        a, b = c.a
        n = lambda x: x.a[0].a[1] if x.op == 'fld' and x.a[1] == 'id' and x.a[0].op == 'arb' else n(x.a[0]) if x.op == 'fld' and x.a[0].op == 'fld' else None
        return (n(a), n(b)) == ((1, 0) if desc else (0, 1))
    if l[3].startswith('sort') and 'by_key' in l[3] or l[3] == 'sort_by_cached_key':
        if c.op == 'fld' and c.a[1] == 'id':
            return not desc
    return False


# ------------------------------------------------------------------ C26: answers
def is_ctn(v):
    return v.op == 'app' and v.a[0] == 'contains'


SORTBY = lambda x: x.op == 'fld' and x.a[1] == 'sort_by' and x.a[0].op == 'arg'
FILT = lambda x: x.op == 'fld' and x.a[1] == 'filters' and x.a[0].op == 'arg'
START, LENGTH = mk('fld', mk('arg', 0), 'start'), mk('fld', mk('arg', 0), 'length')


def cached(v):
    """id K when v is (part of) the cache entry of K"""
    for s in subs(v):
        if s.op == 'g' and s.a[0] == CACHE:
            ks = [p.a[0] for p in s.a[1:] if isinstance(p, V) and p.op == 'k']
            if ks:
                return ks[0]
    return None


def whole_list(v):
    """v is the stored list of an index key (not an element of it)"""
    return v.op in ('fld', 'pay', 'g') and any(t.op == 'g' and t.a[0] == IDX for t in subs(v)) and not any(t.op in ('elem', 'at') and any(u.op == 'g' and u.a[0] == IDX for u in subs(t.a[0])) for t in subs(v))


def add_is(v, a, b):
    return v.op == 'app' and v.a[0] == 'add' and (v.a[1:] == (a, b) or v.a[1:] == (b, a))


def rebuild_old(v):
    """without the marks of reads made before a suspension"""
    for x in subs(v):
        if x.op == 'old':
            return rebuild_old(rebuild(v, x, x.a[0]))
    return v


class A:
    """state of one path of a function that answers blocks"""
    __slots__ = ('dir', 'srt', 'fr', 'need', 'todo', 'got', 'flt', 'br', 'ctn', 'last', 'cov', 'cons', 'one', 'miss')
    D = dict(miss=frozenset(), dir=None, srt=frozenset(), fr=(), need=frozenset(), todo=frozenset(), got=frozenset(), flt=(), br=False, ctn=frozenset(), last=None, cov=(), cons=False, one=False)

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a, self.D[a]))

    def but(self, **k):
        d = {a: getattr(self, a) for a in self.__slots__}
        d.update(k)
        return A(**d)

    def __eq__(self, o):
        return all(getattr(self, a) == getattr(o, a) for a in self.__slots__)

    def __hash__(self):
        return hash(tuple(getattr(self, a) for a in self.__slots__))


def cache_writes(R, name, ex):
    n = 0
    for l in ex.labels():
        if not (l[0] == 'e' and l[1] == 'gw' and l[2][0] == CACHE):
            continue
        if l[3] in ('remove', 'clear', 'clear_new', 'retain', 'pop_first'):
            continue
        n += 1
        if l[3] != 'insert' or len(l[4]) != 2:
            R.viol('cache:%s' % l[3], '%s changes the cache in another way (%s) at %s' % (name, l[3], where(l)))
            continue
        key, e = l[4]
        X = bid(key)
        src = answer_blocks(X) if X is not None else None
        if X is None or src is None:
            R.viol('cache:key', '%s caches a block under %s, not under the id it has in the answer of the ledger (%s)' % (name, clip(show(key), 80), where(l)))
            continue
        for s in src:
            if s not in ('ledger', 'archive'):
                R.viol('cache:src', '%s caches blocks of %s (%s)' % (name, s, where(l)))
        v = proj(e, 'value')
        while v.op == 'adt' and len(v.a) == 4 and not v.a[0].endswith('ICRC3Value'):
            v = v.a[3]
        if v is not mk('fld', X, 'block'):
            R.viol('cache:val', '%s caches %s under the id of another block (%s)' % (name, clip(show(v), 80), where(l)))
        if proj(e, 'timestamp').op != 'now':
            R.viol('cache:time', '%s caches a block with the time %s (%s)' % (name, clip(show(proj(e, 'timestamp')), 60), where(l)))
    return n


def answers(R, name, ex, reply, ops=()):
    """walk all paths: blocks asked for, fetched, cached, collected, sorted and answered"""
    labs = ex.labels()
    # where the ids not found in the cache go, what requests are built from
    outs = {}
    for l in labs:
        if l[0] == 'e' and l[1] == 'out' and len(l) > 4:
            outs.setdefault(l[3], set()).add(l[2])
            if l[4].op == 'wid':
                outs[l[3]].add(l[4])
    reqs = {a for l in labs if l[0] == 'e' and l[1] == 'call' for x in l[3] if isinstance(x, V) for a in subs(x) if a.op == 'adt' and a.a[0].endswith('GetBlocksRequest')}
    feeds = set()
    work = [s for q in reqs for s in subs(q)]
    while work:
        s = work.pop()
        if s in feeds:
            continue
        feeds.add(s)
        if s.op == 'wid':
            for o in outs.get(s, ()):
                work += subs(o)
    for q in reqs:
        st, ln = proj(q, 'start'), proj(q, 'length')
        if ln.op == 'len' and st.op == 'at' and (st.a[0] is not ln.a[0] or st.a[1] is not intv(0) and st.a[1] is not strv('first')):
            R.viol('request', '%s asks for the range from %s of length %s' % (name, clip(show(st), 60), clip(show(ln), 60)))
        elif ln.op != 'len' and st.op == 'at' and any(x.op == 'len' and x.a[0] is st.a[0] for x in subs(ln)):
            R.viol('request', '%s asks for %s blocks for the ids of %s' % (name, clip(show(ln), 60), clip(show(st.a[0]), 60)))
    given = {x.a[0] for l in labs if l[0] == 'e' and l[1] == 'call' and l[2] in {last2(o) for o in ops} for x in l[3] if isinstance(x, V) and x.op == 'elem'}
    sinks = {l[-1] for l in labs if l[0] == 'e' and l[1] == 'iter_next' and l[2] in given}
    pushstyle = {fl for l in labs if l[0] == 'e' and l[1] == 'out' and whole_list(l[2]) for fl in (True,)}
    n = {'ids': 0, 'blocks': 0, 'reply': 0, 'filters': 0, 'cut': 0}

    def is_answer(src, which):
        return src.op == 'fld' and src.a[1] == which and any(calls_in(r) for r in alts(src.a[0]))

    def step(s, l):
        if l[0] == 'p':
            v, x = l[1], l[2]
            while v.op == 'not' and isinstance(x, bool):
                v, x = v.a[0], not x
            if v.op in ('fld', 'opt') and SORTBY(v if v.op == 'fld' else v.a[0]):
                if x == 'None':
                    return None if s.dir == 'desc' else s.but(dir='asc')
                return s
            if v.op == 'pay' and SORTBY(v.a[0] if v.a[0].op == 'fld' else v.a[0].a[0]) and x in ('Ascending', 'Descending'):
                d = 'asc' if x == 'Ascending' else 'desc'
                return None if s.dir not in (None, d) else s.but(dir=d)
            if v.op == 'eq' and isinstance(x, bool) and any(t.op == 'pay' and SORTBY(t.a[0]) for t in v.a):
                o = [t for t in v.a if t.op == 'adt']
                if o:
                    d = 'asc' if (o[0].a[1] == 'Ascending') == x else 'desc'
                    return None if s.dir not in (None, d) else s.but(dir=d)
            if v.op == 'opt' and v.a[0].op == 'g' and v.a[0].a[0] == CACHE:
                K = cached(v.a[0])
                if any(K in subs(fr[0]) or K is fr[2] for fr in s.fr):
                    n['ids'] += 1
                    return s.but(todo=s.todo | {(x, K)})
                return s
            if v.op == 'opt' and v.a[0].op == 'g' and v.a[0].a[0] == IDX and s.flt:
                e = mk('elem', s.flt[0])
                if any(p.a[0] is e for p in v.a[0].a[1:] if isinstance(p, V) and p.op == 'k'):
                    return s.but(flt=(s.flt[0], 'read' if x == 'Some' else 'none'), br=True)
                return s.but(br=True)
            if is_ctn(v) and isinstance(x, bool):
                return s.but(ctn=frozenset(c for c in s.ctn if c[0] is not v) | {(v, x)}, last=(v, x), br=True)
            if v.op == 'eq' and isinstance(x, bool) and x and any(t.op == 'app' and t.a[0] == 'add' for t in v.a) and any(t.op == 'at' for t in v.a):
                a, b = sorted(v.a, key=lambda t: t.op != 'at')
                if b.op == 'app' and intv(1) in b.a[1:] and any(isinstance(t, V) and t.op == 'at' and t.a[0] is a.a[0] for t in b.a[1:]):
                    return s.but(cons=True, br=True)
            return s.but(br=True)
        k = l[1]
        if k in ('iter_next', 'iter_end'):
            src, ops, ext = l[2], l[4] if k == 'iter_next' else l[3], l[5] if k == 'iter_next' else l[4]
            # what the previous iteration of this loop left undone
            el = {mk('elem', src)} | ({l[3]} if k == 'iter_next' else set())
            prev = [fr for fr in s.fr if fr[1] == l[-1]]
            if prev:
                el |= {prev[-1][2]}
            for w, K in s.todo:
                if K in el or any(K in subs(e) for e in el):
                    return Viol('neither answers nor fetches a block it was asked for (%s at %s)' % ('cached' if w == 'Some' else 'not cached', where(l)), s.but(todo=frozenset()))
            for b in s.need:
                if b in el:
                    s = s.but(need=s.need - {b}, miss=s.miss | {(src, where(l))})
            if s.flt and s.flt[0] is src and s.flt[1] == '':
                return Viol('does not look up one of the filters (%s)' % where(l), s.but(flt=()))
            if s.flt and s.flt[0] is src and s.flt[1] == 'none' and pushstyle:
                return Viol('ignores a filter that no block matches (%s)' % where(l), s.but(flt=()))
            # slices of consecutive ids
            if s.cov and src.op == 'adt' and src.a[0].endswith('Range') and prev and s.cov[1] is not None and mk('idx', src) in s.cov[3]:
                if not s.one and not s.cons:
                    return Viol('puts ids into one request without knowing that they are consecutive (%s)' % where(l), s.but(cov=()))
            fr = tuple(f for f in s.fr if f[1] != l[-1])
            if k == 'iter_end':
                whole = not any(m[0] is src for m in s.miss)
                t = s.but(fr=fr, got=s.got - {src} if whole else s.got, miss=frozenset(m for m in s.miss if m[0] is not src))
                if FILT(src):
                    t = t.but(flt=())
                return t
            if l[-1] in sinks and s.got:
                return Viol('goes on without the %s of an answer it fetched' % next(iter(s.got)).a[1].replace('_', ' '), s.but(got=frozenset()))
            t = s.but(fr=fr + ((src, l[-1], l[3]),), ctn=frozenset(c for c in s.ctn if not any(e in subs(c[0]) for e in el)), br=False, cons=False, one=False)
            if is_answer(src, 'blocks'):
                n['blocks'] += 1
                if set(ops) & FILTERS:
                    return Viol('leaves out blocks the ledger answered (%s at %s)' % (', '.join(ops), where(l)), t)
                t = t.but(need=t.need | {l[3]})
            elif is_answer(src, 'archived_blocks') and set(ops) & FILTERS:
                return Viol('leaves out archived blocks (%s at %s)' % (', '.join(ops), where(l)), t)
            if FILT(src):
                n['filters'] += 1
                if set(ops) & FILTERS - {'filter_map'} or any(o in ('rev',) for o in ()):
                    return Viol('leaves filters out (%s at %s)' % (', '.join(ops), where(l)), t)
                t = t.but(flt=(src, ''))
            if reply and any(o in ('take', 'skip') for o in ops):
                counted = [o for o in ops if o in ('take', 'skip')]
                pairs = list(zip(counted, ext))
                if all(x.op != 'int' for _, x in pairs):
                    n['cut'] += 1
                    ok = pairs in ([('skip', START), ('take', LENGTH)], [('skip', START)], [('take', LENGTH)]) or (len(pairs) == 2 and pairs[0][0] == 'take' and add_is(pairs[0][1], START, LENGTH) and pairs[1] == ('skip', START))
                    if not ok:
                        return Viol('cuts a page with %s' % ', '.join('%s %s' % (o, clip(show(x), 50)) for o, x in pairs), t)
                    if not any(w is src and d == 'asc' for w, d in s.srt) and src.op == 'wid':
                        return Viol('cuts the page from a list that is not in ascending order (%s)' % where(l), t)
                elif any(o == 'skip' and x.op == 'int' and x.a[0] > 1 or o == 'take' and x.op == 'int' for o, x in pairs):
                    return Viol('looks at some of the entries only (%s at %s)' % (', '.join('%s %s' % (o, show(x)) for o, x in pairs), where(l)), t)
            if src.op == 'adt' and src.a[0].endswith('Range') and any(LENGTH in subs(x) for x in (proj(src, 'start'), proj(src, 'end'))):
                a, b = proj(src, 'start'), proj(src, 'end')
                a, b = rebuild_old(a), rebuild_old(b)
                if not (a is START or a.op == 'app' and a.a[0] == 'sub' and a.a[2] is LENGTH and is_count(a.a[1])):
                    return Viol('answers an unfiltered request from %s on' % clip(show(a), 60), t)
                if a is START and s.dir == 'desc':
                    pass
                if a is not START and s.dir == 'asc':
                    return Viol('answers an ascending request from the end of the log', t)
                if not add_is(b, a, LENGTH):
                    return Viol('answers an unfiltered request up to %s' % clip(show(b), 60), t)
            # a page cut out by a range
            for m in alts(src):
                if m.op == 'at' and m.a[1].op == 'adt' and 'Range' in m.a[1].a[0] and 'start' in m.a[1].a[2] and START in subs(m.a[1]):
                    n['cut'] += 1
                    a = proj(m.a[1], 'start')
                    b = proj(m.a[1], 'end') if 'end' in m.a[1].a[2] else None
                    if not (m.a[0].op in ('arr', 'bag') and not m.a[0].a) and not any(w is m.a[0] and d == 'asc' for w, d in s.srt):
                        return Viol('cuts the page from a list that is not in ascending order (%s)' % where(l), t)
                    if a is not START:
                        return Viol('cuts a page from %s on' % clip(show(a), 60), t)
                    bs = [x for x in (b.a[1:] if b.op == 'app' and b.a[0] == 'min' else [b]) if isinstance(x, V)] if b is not None else []
                    if b is None or not any(add_is(x, START, LENGTH) for x in bs) or any(not add_is(x, START, LENGTH) and x.op not in ('len', 'int') for x in bs):
                        return Viol('cuts a page up to %s' % (clip(show(b), 60) if b is not None else 'the end'), t)
            return t
        if k == 'out' and len(l) > 4:
            t = s
            v = l[2]
            if v in s.need:
                t = t.but(need=t.need - {v})
            if bw(v):
                i, b = proj(v, 'id'), proj(v, 'block')
                K = cached(b)
                if K is not None and i is not K:
                    return Viol('answers the cached block of one id under another (%s)' % where(l), t)
                for w, q in s.todo:
                    if q is K and w == 'None':
                        return Viol('answers a block that is not in the cache (%s)' % where(l), t)
                t = t.but(todo=frozenset(x for x in t.todo if x[1] is not K))
                x = bid(i)
                if K is None and x is not None and b is not mk('fld', x, 'block'):
                    return Viol('answers the id of one block with the contents of another (%s)' % where(l), t)
                t = t.but(need=frozenset(y for y in t.need if y is not x))
            if any(q is v for _, q in s.todo):
                if l[3] not in feeds and reply is not None:
                    return Viol('collects ids it does not find in the cache but does not fetch them (%s)' % where(l), t.but(todo=frozenset()))
                t = t.but(todo=frozenset(x for x in t.todo if x[1] is not v))
            # filters
            if s.flt and (whole_list(v) or v.op in ('arr', 'bag') and not v.a):
                t = t.but(flt=(s.flt[0], 'done') if s.flt[1] else s.flt)
            for c, x in s.ctn:
                if c.a[2] is v:
                    if not x:
                        return Viol('keeps an id that one of the filters does not list (%s)' % where(l), t)
                    # the list of lists was not looked through to its end
                    W = c.a[1].a[0] if c.a[1].op == 'elem' else None
                    pos = [j for j, f in enumerate(s.fr) if f[2] is v or v in subs(f[2])]
                    wp = [j for j, f in enumerate(s.fr) if f[0] is W]
                    if W is not None and wp and pos and wp[-1] > pos[-1]:
                        return Viol('keeps an id as soon as one of the filters lists it (%s)' % where(l), t)
            if v.op == 'elem' and v.a[0].op == 'elem' and not s.br and l[3] in feeds and any(any(whole_list(o) for o in outs.get(x, ())) for x in subs(v) if x.op == 'wid') and any(f[0] is v.a[0].a[0] for f in s.fr):
                return Viol('joins the lists of the filters instead of intersecting them (%s)' % where(l), t)
            # slices
            if v.op == 'at' and v.a[1].op == 'adt' and 'Range' in v.a[1].a[0] and START not in subs(v.a[1]) and v.a[0].op == 'wid':
                a = proj(v.a[1], 'start')
                b = proj(v.a[1], 'end') if 'end' in v.a[1].a[2] else None
                c = s.cov[1] if s.cov and s.cov[0] is v.a[0] else intv(0)
                if c is not None and a is not c:
                    return Viol('leaves ids out of or repeats them in the requests: a chunk from %s after one up to %s (%s)' % (clip(show(a), 40), clip(show(c), 40), where(l)), t.but(cov=()))
                t = t.but(cov=(v.a[0], b, l[3], frozenset(subs(b)) if b is not None else frozenset()), one=True)
            # order of the collected list
            srt = {x for x in t.srt if x[0] is not l[3]} if l[4] is not l[3] or True else t.srt
            if v.op == 'elem' and any(x[0] is v.a[0] for x in t.srt) and (l[4].op in ('arr', 'bag') and not l[4].a or any(x[0] is l[4] for x in t.srt)):
                srt |= {(l[3], d) for w, d in t.srt if w is v.a[0]}
            return t.but(srt=frozenset(srt))
        if k == 'retained':
            c = l[5]
            neg = False
            while c.op == 'not':
                c, neg = c.a[0], not neg
            if is_ctn(c) and neg or c.op == 'bool' and s.last is not None and s.last[1] != bool(c.a[0]):
                return Viol('keeps the ids one of the filters does not list (%s)' % where(l), s)
            keep = {(l[2], d) for w, d in s.srt if w is l[3]}
            return s.but(srt=frozenset(x for x in s.srt if x[0] is not l[2]) | keep)
        if k == 'sorted':
            rest = frozenset(x for x in s.srt if x[0] is not l[2])
            if by_id(l, False) or l[3] in ('sort', 'sort_unstable'):
                return s.but(srt=rest | {(l[2], 'asc')})
            if by_id(l, True):
                return s.but(srt=rest | {(l[2], 'desc')})
            return s.but(srt=rest | {(l[2], '?')})
        if k == 'call' and l[2] in ('slice::reverse', 'Vec::reverse') and l[3]:
            return s.but(srt=frozenset((w, {'asc': 'desc', 'desc': 'asc'}.get(d, d)) if w is l[3][0] else (w, d) for w, d in s.srt))
        if k == 'call' and 'msg_reply' in l[2] and reply:
            r = reply_value(l)
            for x in alts(r) if r is not None else ():
                if x.op != 'adt' or 'blocks' not in x.a[2]:
                    continue
                b = proj(x, 'blocks')
                if b.op in ('arr', 'bag') and not b.a:
                    if s.got:
                        return Viol('answers nothing although the ledger answered', s)
                    continue
                n['reply'] += 1
                d = [d for w, d in s.srt if w is b]
                if not d:
                    return Viol('answers blocks in no particular order', s)
                if d[0] != '?' and (s.dir or 'either') != d[0]:
                    return Viol('answers blocks in %s order where %s was asked for' % ({'asc': 'ascending', 'desc': 'descending'}[d[0]], {'asc': 'ascending', 'desc': 'descending', None: 'either'}[s.dir]), s)
                for src in s.got:
                    return Viol('answers without the %s of an answer it fetched' % src.a[1].replace('_', ' '), s)
        if k == 'await':
            return s
        return s

    def wrap(s, l):
        r = step(s, l)
        # an answer that arrived: both of its lists have to be looked through
        if isinstance(r, A) and l[0] == 'p' and l[2] == 'Ok' and l[1].op == 'out':
            c = calls_in(mk('pay', l[1], 'Ok', '0'))
            for x in c:
                base = mk('pay', l[1], 'Ok', '0')
                names_ = ('blocks', 'archived_blocks') if x.a[0].endswith('icrc3_c2c_client::icrc3_get_blocks') else ('blocks',) if x.a[0].endswith('archive_c2c_client::icrc3_get_blocks') else ()
                r = r.but(got=r.got | {f for f in srcs if f.op == 'fld' and f.a[1] in names_ and any(y.op == 'pay' and y.a[0] is l[1] for y in alts(f.a[0]))})
        return r
    srcs = {l[2] for l in labs if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[2].op == 'fld' and l[2].a[1] in ('blocks', 'archived_blocks')}
    v, c = search(ex.g, A(), wrap)
    R.states += c
    for m, l, tr in v:
        R.viol('answer:%s' % m[:60], '%s %s' % (name, m), tr)
    # both lists of an answer are used at all
    for l in labs:
        if l[0] == 'p' and l[2] == 'Ok' and l[1].op == 'out':
            for x in calls_in(mk('pay', l[1], 'Ok', '0')):
                for w in ('blocks', 'archived_blocks') if x.a[0].endswith('icrc3_c2c_client::icrc3_get_blocks') else ('blocks',) if x.a[0].endswith('archive_c2c_client::icrc3_get_blocks') else ():
                    if not any(f.a[1] == w and any(y.op == 'pay' and y.a[0] is l[1] for y in alts(f.a[0])) for f in srcs):
                        R.viol('unused:%s' % w, '%s never looks at the %s of an answer (%s)' % (name, w.replace('_', ' '), where(l)))
    return n


def c26(R):
    ops = writers()
    tot = {}
    w = 0
    p = query.prog(CR)
    runs = [('job ' + f.short, query.Ex(CR, 'job ' + f.short, f, opaque=ops, flat=True, stale=True, limit=400), None) for f in timer_jobs(CR)]
    for e in exports_of(CR):
        if e in ('canister_init', 'canister_post_upgrade', 'canister_pre_upgrade'):
            continue
        ex = query.Ex(CR, mname(e), p.exports[e], flat=True, stale=True, limit=400)
        runs.append((mname(e), ex, True if e == 'canister_update.get_blocks' else None))
    for name, ex, reply in runs:
        R.use(ex)
        k = cache_writes(R, name, ex)
        w += k
        if k or reply:
            n = answers(R, name, ex, reply, ops)
            for a, b in n.items():
                tot[a] = tot.get(a, 0) + b
    R.floor('cache writes', w, 2)
    for a in ('ids', 'blocks', 'reply', 'filters', 'cut'):
        R.floor({'ids': 'requested ids looked up', 'blocks': 'loops over answered blocks', 'reply': 'answers', 'filters': 'loops over filters', 'cut': 'pages cut'}[a], tot.get(a, 0), 1)
