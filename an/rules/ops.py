"""C17 request validity, C18 limits, C41 replies tell what happened, C42 refusals have their reason."""
from rl import *
from rules.tokens import request_elem, cur_owner, approval_writes
from rules.auth import reply_value, is_perm_list, perm_const, GUARDED
from rules.log import METHODS, ledger_writes, every_iteration

HOLD = ('icrc7_transfer', 'icrc37_transfer_from', 'icrc37_approve_tokens', 'icrc37_approve_collection',
        'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals')
COLL = ('icrc37_approve_collection', 'icrc37_revoke_collection_approvals')
# documented defaults (types/icrc7.rs, types/icrc37.rs)
MEMO, DRIFT, WINDOW, UPD, QRY, TAKE, APPR = 1000000, 50000000, 10000000000, 100, 100, 100, 10
CALLS, SPAN = 5, 60000000
N = lambda i: mk('int', i)
ANON = mk('anon')
ARG = lambda i: mk('arg', i)


def fx(name, crate='core_nft'):
    """precise exploration: local collections forget their elements, every path keeps its own state"""
    e = name if name.startswith('canister') else 'canister_update.' + name
    return export(e, crate, limit=400, flat=True)


def subject(t):
    """the part of the request a block is about (where its memo and creation time were given)"""
    f = t.f
    for k in ('spender', 'to'):
        v = f.get(k, NONE)
        if k == 'to' and t.btype.op == 'str' and t.btype.a[0] != '7mint':
            continue
        if v.op == 'adt' and v.a[1] == 'Some' and v.a[3].op == 'fld' and v.a[3].a[1] in ('spender', 'token_owner'):
            return v.a[3].a[0]
    tid = f.get('tid', NONE)
    if tid.op == 'adt' and tid.a[1] == 'Some':
        E = request_elem(norm(tid.a[3]))
        if E is not None:
            return E
    for k in ('spender', 'from', 'memo'):
        for s in subs(f.get(k, NONE)):
            if s.op == 'elem' and s.a[0].op == 'arg':
                return s
    return None


def setting(*path):
    return D(*path, 'Some', '0', '0')


def absent(l, path):
    """True: the branch knows that the setting is not given (the default applies), False: it is given"""
    if l[0] != 'p':
        return None
    s = D(*path)
    if l[1] is s:
        return l[2] == 'None'
    if l[1].op == 'res' and l[2] == 'Err' and s in subs(l[1]):
        return True     # not representable: the default applies
    if l[1].op == 'res' and l[2] == 'Err' and l[1].a[0].op == 'int':
        return None
    for q in subs(l[1]):
        if q.op == 'res' and l[2] == 'Err' and setting(*path) in subs(q):
            return True
    return None


def huge(x):
    return x.op == 'int' and x.a[0] >= 2 ** 32 - 1


def unrepresentable(l, path):
    if l[0] == 'p' and l[1].op == 'res' and l[2] == 'Err' and (l[1].a[0] is setting(*path) or setting(*path) in subs(l[1])):
        return True
    return None


def default_used_rightly(R, ex, e, uses, path, what, test=None):
    """branches / events that use the default value are reached only when the setting is not given"""
    uses = set(uses)
    test = test or absent
    if not uses:
        return
    v, ts, n = must_hold(ex, lambda l: l in uses, lambda t: [Fact('absent', lambda l, t: test(l, path))],
                         lambda env, t: env['absent'], lambda t, env: '', about=lambda t: ())
    R.states += n
    for l, m, tr in v:
        R.viol('default:%s:%s' % (mname(e), what), '%s uses the default %s at %s although the collection has a setting' % (e, what, where(l)), tr)


def upper(l, x, path, default):
    """branch deciding x <= limit with the limit of setting `path`: ('own'|'default') or None"""
    if l[0] != 'p':
        return None
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if a.op != 'lt':
        return None
    if v is False and a.a[1] is x:
        m = a.a[0]
    elif v is True and a.a[0] is x:
        m = a.a[1]
    else:
        return None
    if m in (setting(*path), D(*path, 'Some', '0')):
        return 'own'
    if m is N(default):
        return 'default'
    if huge(m):
        return 'huge'
    return None


def summands(v):
    if v.op == 'app' and v.a[0] == 'add':
        return summands(v.a[1]) + summands(v.a[2])
    return [v]


# ------------------------------------------------------------------ C17
MAXU = mk('int', 2 ** 64 - 1)


def time_lit(l, C):
    """('fut'|'old'|'both', uses default drift, uses default window, refuses) for a branch about creation time C"""
    if l[0] != 'p':
        return None
    a, v = l[1], l[2]
    if a is C:
        return ('both', False, False) if v == 'None' else None
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if a.op != 'lt' or not isinstance(v, bool):
        return None
    cs = (C, mk('pay', C, 'Some', '0'))
    x, y = a.a
    dr = {setting('permitted_drift'): 0, N(DRIFT): 1, N(DRIFT + WINDOW): 1, MAXU: 1}
    wi = {setting('tx_window'): 0, N(WINDOW): 1, N(DRIFT + WINDOW): 1, MAXU: 1}

    def margin(ts):
        if MAXU in ts:      # a margin that does not fit: it exceeds every time
            ts = [t for t in ts if t in dr or t in wi] if all(t in dr or t in wi for t in ts) else [N(0)]
        dd = [t for t in ts if t in dr]
        ww = [t for t in ts if t in wi]
        if MAXU in ts:
            return True, True, any(dr[t] for t in dd), any(wi[t] for t in ww)
        if len(dd) > 1 or len(ww) > 1 or len(dd) + len(ww) != len(ts) + ts.count(N(DRIFT + WINDOW)):
            return None
        return bool(dd), bool(ww), any(dr[t] for t in dd), any(wi[t] for t in ww)
    if y in cs and v is False:        # C <= x
        s = summands(x)
        if NOW not in s:
            return None
        s.remove(NOW)
        m = margin(s)
        if m is None or m[1]:
            return None
        return ('fut', m[2], False)
    if x in cs and v is False:        # C >= y
        if y is NOW:
            return ('old', False, False)
        if y.op == 'app' and y.a[0] == 'sub' and y.a[1] is NOW:
            m = margin(summands(y.a[2]))
            return ('old', m[2], m[3]) if m is not None else None
    if y is NOW and v is False:       # C + window >= now
        s = summands(x)
        k = [t for t in s if t in cs]
        if len(k) == 1:
            s.remove(k[0])
            m = margin(s)
            return ('old', m[2], m[3]) if m is not None else None
    return None


def c17(R):
    n = nt = 0
    for name in METHODS:
        if name in ('burn_nft', 'update_nft_metadata'):
            continue
        e = 'canister_update.' + name
        ex = export(e) if name == 'mint' else fx(name)
        R.use(ex)
        subj = {}
        for l in ex.labels():
            if is_log(l) if name != 'mint' else (l[0] == 'e' and l[1] == 'call' and l[2].endswith('Transaction::new')):
                ts = txs(l) if name != 'mint' else [t for t in (as_tx(l[4]),) if t]
                es = {subject(t) for t in ts}
                if len(es) == 1 and None not in es:
                    subj[l] = es.pop()
                else:
                    R.viol('subject:' + name, '%s: the request a block at %s is about could not be identified' % (e, where(l)))
        if not subj:
            R.viol('anchor:' + name, '%s: no append found' % e)
            continue
        n += len(subj)
        size = lambda E: mk('len', mk('pay', proj(E, 'memo'), 'Some', '0'))

        def facts(t):
            M = proj(subj[t], 'memo')
            ln = mk('len', mk('pay', M, 'Some', '0'))

            def f(l, _):
                if l[0] == 'p' and l[1] is M and l[2] == 'None':
                    return True
                return True if upper(l, ln, ('max_memo_size',), MEMO) else None
            return [Fact('memo', f, promote=True)]
        v, ts, k = must_hold(ex, lambda l: l in subj, facts, lambda env, t: env['memo'], lambda t, env: name, about=lambda t: (subj[t],))
        R.states += k
        for l, m, tr in v:
            R.viol('memo:' + name, '%s appends a block at %s on a path where the size of the memo was not checked against max_memo_size' % (e, where(l)), tr)
        sizes = [size(E) for E in set(subj.values())]
        default_used_rightly(R, ex, e, [l for l in ex.labels() if any(upper(l, s, ('max_memo_size',), MEMO) == 'default' for s in sizes)], ('max_memo_size',), 'memo size')
        default_used_rightly(R, ex, e, [l for l in ex.labels() if any(upper(l, s, ('max_memo_size',), MEMO) == 'huge' for s in sizes)], ('max_memo_size',), 'memo size', unrepresentable)
        if name == 'mint':
            continue

        def tfacts(t):
            C = proj(subj[t], 'created_at_time')

            def of(k):
                def f(l, _):
                    r = time_lit(l, C)
                    return True if r and r[0] in (k, 'both') else None
                return f
            return [Fact('fut', of('fut')), Fact('old', of('old'))]
        v, ts, k = must_hold(ex, lambda l: l in subj, tfacts, lambda env, t: env['fut'] and env['old'],
                             lambda t, env: ' and '.join(x for x, y in (('lies in the future', 'fut'), ('is too old', 'old')) if not env[y]), about=lambda t: (subj[t],))
        R.states += k
        nt += len(ts)
        for l, m, tr in v:
            R.viol('time:%s:%s' % (name, m), '%s appends a block at %s without refusing a creation time that %s (permitted_drift / tx_window)' % (e, where(l), m), tr)
        Cs = [proj(E, 'created_at_time') for E in set(subj.values())]
        for i, path, what in ((1, ('permitted_drift',), 'permitted drift'), (2, ('tx_window',), 'transaction window')):
            default_used_rightly(R, ex, e, [l for l in ex.labels() if any((time_lit(l, C) or (0, 0, 0))[i] for C in Cs)], path, what)
        R.ob('%s: %d appends guarded by the memo and time checks' % (e, len(ts)))
    R.floor('appends with a memo', n, 8)
    R.floor('appends with a creation time', nt, 7)


# ------------------------------------------------------------------ C18
def c18(R):
    nl = nb = na = 0
    for name in HOLD:
        e = 'canister_update.' + name
        ex = fx(name)
        R.use(ex)
        logs = {}
        for l in ex.labels():
            if is_log(l):
                ks = set()
                for t in txs(l):
                    tid = t.f.get('tid', NONE)
                    ks.add(norm(tid.a[3]) if tid.op == 'adt' and tid.a[1] == 'Some' else (N(0) if name in COLL else None))
                logs[l] = ks.pop() if len(ks) == 1 else None
        nl += len(logs)
        # a slot of the token's window is taken before the block of each request
        guard = lambda l: gwp(l) is not None and gwp(l)[0] == 'sliding_window_guards'

        def facts(t):
            def f(l, _):
                if guard(l) and touch(l).how == 'push' and touch(l).vals and touch(l).vals[-1] is NOW:
                    return True if logs[t] is not None and touch(l).key is not None and norm(touch(l).key) is logs[t] else None
                return None
            return [Fact('slot', f)]

        def f1(l, t):
            return facts(t)[0].fn(l, t)
        # one slot per request: rebinding of any element of the request list invalidates it
        v = per_request(ex, lambda l: l in logs, f1, R)
        for l, m, tr in v:
            R.viol('rate:' + name, '%s appends a block at %s without taking a slot in the rate window of the %s' % (e, where(l), 'collection' if name in COLL else 'token'), tr)
        pushes = {l: touch(l).key for l in ex.labels() if guard(l) and touch(l).how == 'push'}

        def pf(t):
            K = touch(t).path[1]
            G = D()     # placeholder
            gpath = gw_term(t)

            def ln(l, _):
                if guard(l) and touch(l).how in ('retain', 'or_insert', 'push'):
                    return False if touch(l).path[1] is K and touch(l).how != 'or_insert' else None
                if l[0] != 'p':
                    return None
                a, val = l[1], l[2]
                if a.op == 'lt' and val is True and a.a[0] is mk('len', gpath) and a.a[1].op == 'int' and a.a[1].a[0] <= CALLS:
                    return True
                if a.op == 'lt' and val is False and a.a[1] is mk('len', gpath) and a.a[0].op == 'int' and a.a[0].a[0] < CALLS:
                    return True
                return None

            def rt(l, _):
                if guard(l) and touch(l).how == 'retain' and touch(l).path[1] is K:
                    p = touch(l).vals[-1]
                    each = touch(l).vals[0]
                    age = mk('app', 'sub', NOW, each)
                    ok = p.op == 'lt' and p.a[0] is age and p.a[1].op == 'int' and p.a[1].a[0] >= SPAN
                    ok = ok or (p.op == 'not' and p.a[0].op == 'lt' and p.a[0].a[1] is age and p.a[0].a[0].op == 'int' and p.a[0].a[0].a[0] + 1 >= SPAN)
                    return True if ok else False
                return None
            return [Fact('len', ln), Fact('ret', rt)]
        v, ts, k = must_hold(ex, lambda l: l in pushes, pf, lambda env, t: env['len'], lambda t, env: '', about=lambda t: (touch(t).key,))
        R.states += k
        for l, m, tr in v:
            R.viol('slot:' + name, '%s takes a slot at %s although the window may already hold %d operations' % (e, where(l), CALLS), tr)
        # entries are dropped only when they are older than the span
        for l in ex.labels():
            if guard(l) and touch(l).how not in ('push', 'or_insert'):
                if touch(l).how != 'retain' or pf_ret(l) is not True:
                    R.viol('window:' + name, '%s drops entries of the rate window at %s that are not %d ns old' % (e, where(l), SPAN))
        # approvals per token / collection
        if 'approve' in name and 'revoke' not in name:
            tab = '__COLLECTION_APPROVALS' if name in COLL else '__TOKEN_APPROVALS'
            path = ('approval_init', 'max_approvals_per_token_or_collection')

            def af(t):
                tx = txs(t)[0]

                def f(l, _):
                    if l[0] != 'p':
                        return None
                    a = l[1]
                    if a.op == 'opt' and l[2] == 'None' and a.a[0].op in ('g', 'gref') and a.a[0].a[0].split('::')[-1] == tab and key_is(a.a[0], tx, name) and len(a.a[0].a) == 2:
                        return True
                    for s in (x for x in subs(a) if x.op == 'len'):
                        g = s.a[0]
                        if g.op == 'g' and g.a[0].split('::')[-1] == tab and key_is(g, tx, name) and strictly(l, s, path):
                            return True
                    if a.op == 'opt' and l[2] == 'Some' and a.a[0].op in ('g', 'gref') and a.a[0].a[0].split('::')[-1] == tab and key_is(a.a[0], tx, name) and len(a.a[0].a) > 3:
                        return True     # the spender already has one: replacing it adds none
                    return None
                return [Fact('max', f)]
            v, ts, k = must_hold(ex, lambda l: l in logs, af, lambda env, t: env['max'], lambda t, env: '', about=lambda t: (logs[t],))
            R.states += k
            na += len(ts)
            for l, m, tr in v:
                R.viol('approvals:' + name, '%s appends an approval at %s without checking max_approvals_per_token_or_collection' % (e, where(l)), tr)
            default_used_rightly(R, ex, e, [l for l in ex.labels() if l[0] == 'p' and N(APPR) in (l[1].a if l[1].op == 'lt' else ()) and any(x.op == 'len' for x in l[1].a)], path, 'number of approvals')
        # batch size
        path, dflt, what = (('approval_init', 'max_revoke_approvals'), APPR, 'max_revoke_approvals') if 'revoke' in name else (('max_update_batch_size',), UPD, 'max_update_batch_size')
        nb += batch(R, ex, e, name, logs, path, dflt, what)
    # mint: one call creates at most max_update_batch_size tokens
    ex = export('canister_update.mint')
    R.use(ex)
    count = mk('len', mk('fld', mk('arg', 0), 'mint_requests'))
    path = ('max_update_batch_size',)
    v, ts, k = must_hold(ex, is_log, lambda t: [Fact('n', lambda l, _: True if upper(l, count, path, UPD) else None)],
                         lambda env, t: env['n'], lambda t, env: '', about=lambda t: ())
    R.states += k
    for l, m, tr in v:
        R.viol('batch:mint', 'mint appends a block at %s without limiting the number of mint requests to max_update_batch_size' % where(l), tr)
    default_used_rightly(R, ex, 'canister_update.mint', [l for l in ex.labels() if upper(l, count, path, UPD) == 'default'], path, 'max_update_batch_size')
    default_used_rightly(R, ex, 'canister_update.mint', [l for l in ex.labels() if upper(l, count, path, UPD) == 'huge'], path, 'max_update_batch_size', unrepresentable)
    nb += len(ts)
    # nobody else touches the rate windows
    for e in exports_of():
        if mname(e) in HOLD or e in ('canister_init', 'canister_post_upgrade', 'canister_pre_upgrade'):
            continue
        ex = export(e)
        R.use(ex)
        for l in touches(ex, 'sliding_window_guards'):
            if touch(l).how not in ('push', 'or_insert'):
                R.viol('window:' + mname(e), '%s changes the rate windows at %s' % (e, where(l)))
    R.floor('rate limited appends', nl, 7)
    R.floor('approval appends under the maximum', na, 2)
    R.floor('limited batches', nb, 6)


def gw_term(l):
    return mk('g', *l[2])


def pf_ret(l):
    t = touch(l)
    p, each = t.vals[-1], t.vals[0]
    age = mk('app', 'sub', NOW, each)
    if p.op == 'lt' and p.a[0] is age and p.a[1].op == 'int' and p.a[1].a[0] >= SPAN:
        return True
    return p.op == 'not' and p.a[0].op == 'lt' and p.a[0].a[1] is age and p.a[0].a[0].op == 'int' and p.a[0].a[0].a[0] + 1 >= SPAN


def key_is(g, tx, name):
    k = next((x.a[0] for x in g.a if isinstance(x, V) and x.op == 'k'), None)
    if k is None:
        return False
    k = norm(unwrap(k))
    if name in COLL:
        fr = tx.f.get('from', NONE)
        return fr.op == 'adt' and fr.a[1] == 'Some' and CC(()).eq(k, fr.a[3])
    tid = tx.f.get('tid', NONE)
    return tid.op == 'adt' and tid.a[1] == 'Some' and norm(tid.a[3]) is k


def strictly(l, x, path):
    """branch deciding x < limit"""
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    ok = (setting(*path), N(APPR))
    return a.op == 'lt' and v is True and a.a[0] is x and a.a[1] in ok


def loops_of(ex, is_w):
    from rules.log import in_loops
    return in_loops(ex, is_w)


def over_requests(v):
    """iteration source is (derived from) the first argument of the call"""
    return any(s is mk('arg', 0) for s in subs(v))


def per_request(ex, is_t, fact, R):
    """the fact is established, for the request at hand, before every target"""
    tg = {l for l in ex.labels() if is_t(l)}
    cache = {}

    def step(s, l):
        c = cache.get(l)
        if c is None:
            if l in tg:
                c = 't'
            elif l[0] == 'e' and l[1] == 'iter_next' and over_requests(l[2]):
                c = 'n'
            else:
                c = tuple(t for t in tg if fact(l, t)) or '0'
            cache[l] = c
        if c == '0':
            return s
        if c == 'n':
            return frozenset()
        if c == 't':
            return s if l in s else Viol('missing', s)
        return s | frozenset(c)
    v, n = search(ex.g, frozenset(), step)
    R.states += n
    return [(l, m, tr) for m, l, tr in v]


def batch(R, ex, e, name, logs, path, dflt, what):
    """the loop over the requests stops at the limit"""
    srcs = request_loops(ex, lambda l: l in logs)
    if not srcs:
        R.viol('anchor:batch:' + name, '%s: no loop over its requests found' % e)
        return 0
    lim = (setting(*path), N(dflt))
    arg = mk('arg', 0)
    its = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next' and l[-1] in srcs]
    dfl, unl = [], []
    n = 0

    def okloop(l):
        ops = [o for o in l[4] if o in ('skip', 'take', 'step_by')]
        for o, x in zip(ops, l[5]):
            if o == 'take' and (x in lim or huge(x)):
                if x is lim[1]:
                    dfl.append(l)
                elif huge(x):
                    unl.append(l)
                return True
        return False
    bad = [l for l in its if not okloop(l)]
    n += len(its) - len(bad)
    if bad:
        # otherwise an explicit test: number of requests, or position of the request
        bs = {l[-1] for l in bad}

        def compared(s, l):
            if l[0] == 'e' and l[1] == 'iter_next' and l[-1] in bs:
                return Viol('gap', 'in') if s == 'in' else 'in'
            if s == 'in' and l[0] == 'p' and l[1].op == 'eq' and any(x.op == 'idx' and y in lim for x, y in (l[1].a, l[1].a[::-1])):
                return 'out'
            return s
        every = not search(ex.g, 'out', compared)[0]

        def f(l, _):
            if l[0] != 'p' or l[1].op not in ('lt', 'not', 'eq'):
                return None
            a, v = l[1], l[2]
            while a.op == 'not' and isinstance(v, bool):
                a, v = a.a[0], not v
            x = None
            if a.op == 'eq' and v is False and every:
                # the position counts up from 0 and is compared in every round
                i, x = a.a if a.a[0].op == 'idx' else a.a[::-1]
                if i.op != 'idx' or x not in lim:
                    return None
                if x is lim[1]:
                    dfl.append(l)
                return True
            if a.op != 'lt':
                return None
            if v is False and a.a[0] in lim and a.a[1].op == 'len' and over_requests(a.a[1]):
                x = a.a[0]
            if v is True and a.a[1] in lim and a.a[0].op == 'idx':
                x = a.a[1]
            if v is True and a.a[1] in lim and a.a[0].op == 'len' and over_requests(a.a[0]):
                x = a.a[1]
            if x is None:
                return None
            if x is lim[1]:
                dfl.append(l)
            return True
        v, ts, k = must_hold(ex, lambda l: l in logs, lambda t: [Fact('n', f)], lambda env, t: env['n'], lambda t, env: '', about=lambda t: (mk('elem', arg),))
        R.states += k
        n += len(ts)
        for l, m, tr in v:
            R.viol('batch:' + name, '%s processes requests beyond %s (append at %s)' % (e, what, where(l)), tr)
    default_used_rightly(R, ex, e, dfl, path, what)
    # a limit that does not fit into the machine word is no limit
    default_used_rightly(R, ex, e, unl, path, what, unrepresentable)
    R.ob('%s: the loop over the requests stops at %s' % (e, what))
    return n


def request_loops(ex, is_w):
    """locations of the loops over the requests whose iterations perform the event"""
    srcs = set()
    over = {l[-1] for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next' and over_requests(l[2])}

    def step(s, l):
        if l[0] == 'e' and l[1] == 'iter_next':
            k = l[-1]
            return tuple(x for x in s if x != k) + (k,)
        if l[0] == 'e' and l[1] == 'iter_end':
            k = l[-1]
            return tuple(x for x in s if x != k)
        if is_w(l):
            for k in s:
                if k in over:
                    srcs.add(k)
                    break
        return s
    search(ex.g, (), step)
    return srcs


# ------------------------------------------------------------------ C41
def result_of(v):
    """('Ok', payload) / ('Err', error) of a reply element, wrapped in Some or not"""
    if v.op == 'adt' and v.a[1] == 'Some':
        v = v.a[3]
    if v.op == 'adt' and v.a[1] in ('Ok', 'Err') and len(v.a) > 3:
        return v.a[1], v.a[3]
    return None


def outs(ex):
    return {l: result_of(l[2]) for l in ex.labels() if l[0] == 'e' and l[1] == 'out' and result_of(l[2])}


def replies(ex):
    return [l for l in ex.labels() if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]]


def c41(R):
    nok = nerr = 0
    for name in HOLD:
        e = 'canister_update.' + name
        ex = fx(name)
        R.use(ex)
        ws = {w.l for w in ledger_writes(ex, name)}
        os = outs(ex)
        if not any(r[0] == 'Ok' for r in os.values()):
            R.viol('anchor:' + name, '%s: no successful element of its reply found' % e)
            continue
        srcs = request_loops(ex, lambda l: l in os)
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'iter_next' and l[-1] in srcs:
                odd = set(l[4]) & (FILTERS | {'rev'}) - {'take'}
                if odd:
                    R.viol('order:' + name, '%s: the loop over the requests at %s skips or reorders them (%s), so elements of the reply do not stand at the position of their request' % (e, where(l), ', '.join(sorted(odd))))
        # state: (inside an iteration, answers given, appended, changed)
        out0 = (False, 0, frozenset(), False)

        def step(s, l):
            if l in os:
                k, p = os[l]
                ins, n, ok, ch = s
                m = None
                if k == 'Ok':
                    idx = {norm(x) for x in ok}
                    if not ok:
                        m = 'okno'
                    elif not all(norm(x) in idx for x in alts(p)):
                        m = 'okidx'
                elif ok:
                    m = 'errlog'
                elif ch:
                    m = 'errchg'
                if ins and n >= 1:
                    m = m or 'twice'
                n = (ins, n + 1, ok, ch)
                return Viol(m, n) if m else n
            if s[0] is True and (s[1:] == (0, frozenset(), False) or s[1] == 1) and any(
                    at_least(l, lambda x: x.op == 'idx' or s[1] and x.op == 'len', p, d) for p, d in ((('max_update_batch_size',), UPD), (('approval_init', 'max_revoke_approvals'), 10))):
                return ('full', *s[1:])     # requests beyond the batch limit get no answer
            if log_ok(l):
                return (s[0], s[1], s[2] | {mk('pay', c, 'Ok', '0') for c in log_calls(l[1])}, s[3])
            if l in ws:
                return (s[0], s[1], s[2], True)
            if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] in srcs:
                n = (l[1] == 'iter_next', 0, frozenset(), False)
                if s[0] and s[1] == 0:
                    return Viol('none', n)
                return n
            if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
                r = reply_value(l)
                if s[0] is True and s[1] == 0:
                    return Viol('none', s)
                if s[0] is True:
                    return Viol('rest', s)
                if r is not None:
                    for x in elements(r):
                        q = result_of(x)
                        if q and q[0] == 'Ok' and not s[2] and x.op != 'wid':
                            return Viol('okno', s)
            return s
        v, n = search(ex.g, out0, step)
        R.states += n
        text = {'okno': 'answers Ok although no block was appended for the request', 'okidx': 'answers Ok with a number that is not the index of the block appended for the request',
                'errlog': 'answers with an error although the block of the request was appended', 'errchg': 'answers with an error although it changed the ledger state for the request',
                'twice': 'gives two answers to one request', 'rest': 'stops at a request although the batch limit is not reached: the requests behind it are neither executed nor answered', 'none': 'gives no answer to a request (later answers stand at the wrong position)'}
        for m, l, tr in v:
            R.viol('%s:%s' % (m, name), '%s %s (%s)' % (e, text[m], where(l)), tr)
        nok += sum(1 for r in os.values() if r[0] == 'Ok')
        nerr += sum(1 for r in os.values() if r[0] == 'Err')
        R.ob('%s: %d kinds of answers' % (e, len(os)))
    for name in ('burn_nft', 'update_nft_metadata', 'mint'):
        e = 'canister_update.' + name
        ex = fx(name)
        R.use(ex)
        ws = {w.l for w in ledger_writes(ex, name)}
        many = name == 'mint'

        def step(s, l):
            if log_ok(l):
                return (True, s[1])
            if l in ws:
                return (s[0], True)
            if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
                r = reply_value(l)
                q = [result_of(x) for x in alts(r)] if r is not None else [None]
                for x in q:
                    if x is None:
                        return Viol('unknown', s)
                    if x[0] == 'Ok' and not s[0] and not many:
                        return Viol('okno', s)
                    if x[0] == 'Err' and s[1]:
                        return Viol('errchg', s)
            return s
        v, n = search(ex.g, (False, False), step)
        R.states += n
        nok += 1
        text = {'unknown': 'gives an answer that is neither Ok nor an error', 'okno': 'answers Ok although no block was appended', 'okid': 'answers with an id that is not the first id of the minted batch',
                'errchg': 'answers with an error although it changed the ledger state'}
        for m, l, tr in v:
            R.viol('%s:%s' % (m, name), '%s %s (%s)' % (e, text[m], where(l)), tr)
    # mint: the first id of the batch, read before the counter moved
    ex = export('canister_update.mint', limit=400, flat=True, aging=('last_token_id',))
    R.use(ex)

    def step(s, l):
        t = touch(l)
        if t and t.path[-1:] == ('last_token_id',):
            return True
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
            for x in [result_of(x) for x in alts(reply_value(l))]:
                if x and x[0] == 'Ok' and not all(first_id(y, s) for y in alts(x[1])):
                    return Viol('okid', s)
        return s
    v, n = search(ex.g, False, step)
    R.states += n
    for m, l, tr in v:
        R.viol('okid:mint', 'canister_update.mint %s (%s)' % (text[m], where(l)), tr)
    R.floor('successful answers', nok, 9)
    R.floor('kinds of refusals', nerr, 40)


def first_id(v, moved):
    last = D('last_token_id')
    if moved:
        last = mk('old', last)
    return v is last or (v.op == 'app' and v.a[0] == 'add' and set(v.a[1:]) == {last, N(0)})


def elements(r):
    out = []
    for x in alts(r):
        if x.op == 'adt' and x.a[1] in ('Ok', 'Err') and len(x.a) > 3:
            x = x.a[3]
        out += list(x.a) if x.op in ('arr', 'bag') else []
    return [x for x in out if isinstance(x, V)]


# ------------------------------------------------------------------ C42
def refused_time(l, C):
    """'old' / 'fut' when the branch establishes that creation time C lies outside what is accepted; 'never' for
    a comparison of the current time with itself"""
    if l[0] != 'p':
        return None
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if a.op != 'lt' or v is not True:
        return None
    cs = (C, mk('pay', C, 'Some', '0'), NOW)
    dr = (setting('permitted_drift'), N(DRIFT), N(DRIFT + WINDOW))
    wi = (setting('tx_window'), N(WINDOW), N(DRIFT + WINDOW), N(2 ** 64 - 1))
    x, y = a.a
    r = None
    if y in cs:                         # x < C
        s = summands(x)
        if NOW in s:
            s.remove(NOW)
            if s and any(t in dr for t in s) and all(t in dr or t in wi for t in s):
                r = 'fut'
        who = y
    elif x in cs and y.op == 'app' and y.a[0] == 'sub' and y.a[1] is NOW:
        s = summands(y.a[2])
        if any(t in wi for t in s) and all(t in dr or t in wi for t in s):
            r = 'old'
        who = x
    if r is None and y is NOW:          # C + window < now
        s = summands(x)
        k = [t for t in s if t in cs]
        if len(k) == 1:
            s.remove(k[0])
            if any(t in wi for t in s) and all(t in dr or t in wi for t in s):
                r, who = 'old', k[0]
    if r is None:
        return None
    return 'never' if who is NOW else r


def field_or_none(E, *names):
    return [proj(proj(E, 'approval_info'), names[-1]), proj(E, names[-1])]


def longer_than(l, xs, path, default):
    """branch: the byte string is longer than the limit"""
    if l[0] != 'p':
        return False
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if a.op != 'lt' or not isinstance(v, bool):
        return False
    lim = (setting(*path), D(*path, 'Some', '0'), N(default), N(2 ** 32 - 1), MAXU)
    x, y = a.a if v else a.a[::-1]
    if v:
        return x in lim and y in xs
    # not (len < limit) only says len >= limit
    return False


def at_least(l, is_x, path, default):
    """branch: x >= limit (or more)"""
    if l[0] != 'p':
        return False
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if a.op not in ('lt', 'eq') or not isinstance(v, bool):
        return False
    lim = (setting(*path), D(*path, 'Some', '0'), N(default), N(2 ** 32 - 1), MAXU) if path else (N(default),)
    x, y = a.a
    if a.op == 'eq':
        return v and ((is_x(x) and y in lim) or (is_x(y) and x in lim))
    if v:
        return is_x(y) and x in lim
    return is_x(x) and y in lim


def len_of(v, test):
    return v.op == 'len' and test(v.a[0])


def root_of(g):
    if g.op not in ('g', 'gref'):
        return None
    p = spath(g)
    return p[0] if p else None


def no_permission(l, want):
    if l[0] == 'p':
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if a.op == 'opt' and v == 'None' and is_perm_list(a.a[0]):
            return True
        if v is False and a.op == 'app' and a.a[0] == 'contains' and is_perm_list(a.a[1]) and perm_const(a.a[2]) and a.a[2].a[1] == want:
            return True
    return l[0] == 'e' and l[1] == 'iter_end' and is_perm_list(l[2])


def busy(l):
    """branch: the management guard is taken"""
    if l[0] != 'p':
        return False
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    G = lambda x: x.op in ('g', 'gref') and spath(x)[:1] == ('principal_guards',)
    if a.op == 'app' and a.a[0] == 'contains' and G(a.a[1]):
        return v is True
    if a.op == 'lt':
        x, y = a.a
        if v is False and len_of(x, G) and y is N(1):
            return True
        return v is True and x is N(0) and len_of(y, G)
    if a.op == 'eq':
        return v is False and any(len_of(x, G) and y is N(0) for x, y in (a.a, a.a[::-1]))
    return False


class Case:
    """what the branches of one request establish"""

    def __init__(self, name, E, tid, acct):
        self.name, self.E, self.tid, self.acct = name, E, tid, acct
        self.owner = cur_owner(tid) if tid is not None else None
        self.to, self.frm = (proj(E, 'to'), proj(E, 'from')) if E is not None else (None, None)
        self.times = [C for C in field_or_none(E, 'created_at_time')] if E is not None else []
        self.memos = set()
        if E is not None:
            for m in field_or_none(E, 'memo'):
                self.memos |= {mk('len', m), mk('len', mk('pay', m, 'Some', '0'))}
        self.spender = [proj(proj(E, 'approval_info'), 'spender')] if E is not None else []

    def same(self, x, y):
        x, y = norm(x), norm(y)
        return x is y

    def grounds(self, a, v):
        """('tok'|'coll', truth) about the approvals of the caller"""
        def appr(g):
            if g.op not in ('g', 'gref'):
                return None
            ks = [x for x in g.a if isinstance(x, V)]
            if not ks:
                return None
            k0 = norm(unwrap(ks[0].a[0]))
            r = root_of(g)
            w = 'tok' if r == 'TOKEN_APPROVALS' and k0 is self.tid else 'coll' if r == 'COLLECTION_APPROVALS' and k0 in (self.owner, self.frm) else None
            if w is None:
                return None
            if len(ks) == 1:
                return w, None
            if norm(unwrap(ks[1].a[0])) is not self.acct:
                return None
            return w, tuple(g.a[g.a.index(ks[1]) + 1:])
        if a.op == 'opt' and v == 'None':
            r = appr(a.a[0])
            return (r[0], False) if r and not r[1] else None
        if v == 'None':
            r = appr(a)
            return (r[0], True) if r and r[1] == ('expires_at',) else None
        if a.op == 'lt' and isinstance(v, bool):
            x, y = a.a
            if x is NOW:
                r = appr(y)
                if r and r[1] == ('expires_at', 'Some', '0'):
                    return r[0], v
            if y is NOW:
                r = appr(x)
                if r and r[1] == ('expires_at', 'Some', '0'):
                    return (r[0], False) if v else (r[0], True)
        return None

    def tags(self, l):
        """facts a label establishes: names (grow only), within one request"""
        out = set()
        if log_err(l):
            out.add('log')
        if l[0] == 'p' and l[2] == 'DuplicateTransaction' and any(s.op == 'ret' and s.a[0].endswith('add_transaction') for s in subs(l[1])):
            out.add('dup')
        if busy(l):
            out.add('busy')
        if l[0] == 'e':
            if l[1] == 'iter_end' and any(root_path(s) == ('data', 'tokens_list') for s in subs(l[2])) and not (set(l[3]) & {'skip', 'take', 'step_by', 'skip_while', 'take_while'}):
                out.add('scanned')
            return out
        if l[0] != 'p':
            return out
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        # whole-call conditions
        if a.op == 'eq' and v is True and set(a.a) == {CALLER, ANON}:
            out.add('anon')
        if at_least(l, lambda x: len_of(x, lambda y: y.op == 'arg' or (y.op == 'fld' and y.a[0].op == 'arg')), ('max_update_batch_size',), UPD):
            out.add('batch')
        if a.op == 'lt' and v is True and a.a[0] in (D('supply_cap', 'Some', '0'), D('supply_cap', 'Some', '0', '0'), N(10000)) and any(len_of(s, lambda y: y is D('tokens_list')) for s in subs(a.a[1])):
            out.add('cap')
        if longer_than(l, self.memos, ('max_memo_size',), MEMO):
            out.add('memo')
        for C in self.times:
            r = refused_time(l, C)
            if r:
                out.add(r)
        if at_least(l, lambda x: len_of(x, lambda y: root_of(y) == 'sliding_window_guards'), (), CALLS):
            out.add('rate')
        if at_least(l, lambda x: x is N(0) or len_of(x, lambda y: root_of(y) in ('TOKEN_APPROVALS', 'COLLECTION_APPROVALS') and self.mine(y)), ('approval_init', 'max_approvals_per_token_or_collection'), APPR):
            out.add('full')
        if a.op == 'opt' and v == 'None':
            g = a.a[0]
            if self.tid is not None and key_at(g, ('data', 'tokens_list')) is self.tid:
                out.add('absent')
            if root_of(g) in ('TOKEN_APPROVALS', 'COLLECTION_APPROVALS') and self.mine(g):
                out.add('noappr')
            if self.tid is not None and root_of(g) == 'METADATA' and key_at(g, ('METADATA', 'data')) is self.tid:
                out.add('absent')
        if a.op == 'eq' and v is True and any(x is N(0) and len_of(y, lambda z: root_of(z) in ('TOKEN_APPROVALS', 'COLLECTION_APPROVALS') and self.mine(z)) for x, y in (a.a, a.a[::-1])):
            out.add('noappr')
        if a.op == 'eq' and isinstance(v, bool):
            for x, y in (a.a, a.a[::-1]):
                nx, ny = norm(x), norm(y)
                if v is False and self.owner is not None:
                    # the owner is not the account the caller acts for
                    for f in (None, 'owner', 'subaccount'):
                        o = self.owner if f is None else proj(self.owner, f)
                        for tag, w in (('foreign', self.acct), ('notfrom', self.frm)):
                            if w is not None and nx is o and self.acc_is(ny, w if f is None else proj(w, f)):
                                out.add(tag)
                if v is False and self.frm is not None:
                    for f in (None, 'owner', 'subaccount'):
                        if nx is (self.frm if f is None else proj(self.frm, f)) and self.acc_is(ny, self.acct if f is None else proj(self.acct, f)):
                            out.add('notspender')
                if v is True:
                    if nx is ANON and self.to is not None and ny is proj(self.to, 'owner'):
                        out.add('toanon')
                    if nx is ANON and any(ny is proj(s, 'owner') for s in self.spender):
                        out.add('spanon')
                    if nx is CALLER and any(ny is proj(s, 'owner') for s in self.spender):
                        out.add('spself')
                    if any(nx is s for s in self.spender) and self.acc_is(ny, self.acct):
                        out.add('spself')
                    if self.to is not None and nx is self.to and ny in (self.owner, self.frm):
                        out.add('self')
                    if CALLER is nx and any(s.op == 'g' and spath(s)[:2] == ('data', 'tokens_list') and spath(s)[-1:] == ('owner',) for s in (ny,)):
                        out.add('owns')
        r = self.grounds(a, v) if self.tid is not None else None
        if r:
            out.add(r[0] + ('+' if r[1] else '-'))
        return out

    def mine(self, g):
        """approval entry of the token / account of the request"""
        ks = [x for x in g.a if isinstance(x, V)]
        if not ks:
            return False
        k0 = norm(unwrap(ks[0].a[0]))
        if len(ks) > 1 and self.E is not None:
            k1 = norm(unwrap(ks[1].a[0]))
            if k1 not in (self.acct, mk('pay', proj(self.E, 'spender'), 'Some', '0')) and k1 not in self.spender:
                return False
        return k0 is self.tid if root_of(g) == 'TOKEN_APPROVALS' else self.acc_is(k0, self.acct)

    def acc_is(self, v, w):
        """v is the account w, subaccount given or not"""
        if v is w:
            return True
        if v.op == 'adt' and w.op == 'adt' and v.a[2:3] == w.a[2:3]:
            return all(self.acc_is(x, y) for x, y in zip(v.a[3:], w.a[3:]))
        if v.op == 'adt' and v.a[1] == 'Some':
            return v.a[3] is mk('pay', w, 'Some', '0')
        if v is NONE:
            return True     # the branch on the option is not repeated here
        return False


def root_path(v):
    return spath(v) if v.op in ('g', 'gref') else ()


def key_at(g, prefix):
    if g.op not in ('g', 'gref'):
        return None
    p = spath(g)
    if p[:len(prefix)] == prefix and len(p) == len(prefix) + 1 and isinstance(p[-1], V):
        return norm(unwrap(p[-1].a[0]))
    return None


def kind_of(l, src):
    """the branch says of which kind an element of the list is"""
    if l[0] != 'p' or l[2] not in ('Ok', 'Err', 'None'):
        return None
    x = l[1]
    while x is not src:
        if x.op not in ('elem', 'pay') or not x.a:
            return None
        x = x.a[0]
    return l[2]


def c32(R):
    """a batch under the atomic setting: no reply after one request was executed and another failed"""
    name, e = 'icrc7_transfer', 'canister_update.icrc7_transfer'
    ex = fx(name)
    R.use(ex)
    os = outs(ex)
    if not any(r[0] == 'Ok' for r in os.values()):
        R.viol('anchor', '%s: no successful element of its reply found' % e)
        return
    srcs = request_loops(ex, lambda l: l in os)
    wids = {l[3] for l in os if len(l) > 4}
    plain = all(l in os for l in ex.labels() if l[0] == 'e' and l[1] == 'out' and len(l) > 4 and l[3] in wids)
    S = ('atomic_batch_transfers',)
    trapped, sett = set(), set()

    def off(l):
        """the branch says that batches are not atomic"""
        if l[0] != 'p':
            return False
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if a.op == 'eq' and isinstance(v, bool):
            x, y = a.a
            if y.op == 'bool':
                x, y = y, x
            if x.op == 'bool':
                a, v = y, v is x.a[0]
        if a.op == 'g' and spath(a)[:2] == ('data',) + S or a in (D(*S), D(*S, 'Some', '0')):
            return v is False or v == 'None'
        if a.op == 'eq' and v is True and any(x is D(*S) for x in a.a):
            return any(x is NONE for x in a.a)
        if a.op == 'eq' and v is False and any(x is D(*S) for x in a.a):
            return any(x.op == 'adt' and x.a[1] == 'Some' and x.a[-1] is mk('bool', True) for x in a.a)
        return False

    def fits(l, given):
        """the branch says that the batch is not longer than the limit"""
        if l[0] != 'p':
            return False
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if a.op != 'lt' or not isinstance(v, bool):
            return False
        lim = (setting('max_update_batch_size'), D('max_update_batch_size', 'Some', '0'), MAXU)
        if not given:
            lim += (N(UPD),)
        x, y = a.a
        ln = mk('len', ARG(0))
        return not v and x in lim and y is ln or v and x is ln and y in lim

    # state: kinds of answers given; kinds seen in the scan of the answers (None: not looked at); what each count covered; batch known to fit
    def step(s, l):
        done, seen, cnt, fit_ = s
        if l in os:
            return (done | {os[l][0]}, seen, cnt, fit_)
        if off(l):
            sett.add(l[-1])
            return None     # not an atomic batch
        if l[0] == 'p' and l[1] is D('max_update_batch_size') and l[2] == 'Some':
            return (done, seen, cnt, fit_ or 'given')
        if fits(l, fit_ == 'given'):
            return (done, seen, cnt, True)
        if l[0] == 'e' and l[1] == 'iter_next' and l[2] in wids and not set(l[4]) & {'take', 'skip', 'step_by'}:
            if seen and seen[0] is l[2] and seen[1] == l[-1]:
                return (done, (*seen[:2], seen[2], seen[3] or not seen[4], ()), cnt, fit_)
            return (done, (l[2], l[-1], frozenset(), False, ()), cnt, fit_)
        if seen:
            k = kind_of(l, seen[0])
            if k == 'None' and plain:
                return None     # every answer is a result
            if k in ('Ok', 'Err'):
                if k not in done:
                    return None     # no answer of that kind was given
                return (done, (*seen[:2], seen[2] | {k}, seen[3], (k,)), cnt, fit_)
        if l[0] == 'e' and l[1] == 'counted' and seen and seen[4]:
            c = dict(cnt)
            c[l[2]] = c.get(l[2], frozenset()) | set(seen[4])
            return (done, seen, frozenset(c.items()), fit_)
        if l[0] == 'e' and l[1] == 'iter_end' and l[2] in wids and not set(l[3]) & {'take', 'skip', 'step_by'}:
            if not seen or seen[1] != l[-1]:
                return None if done else s      # the list of the answers is not empty
            if not seen[3] and seen[4] and done - seen[2]:
                return None     # every answer was looked at
            return (done, (), cnt, fit_)
        if l[0] == 'p' and cnt and isinstance(l[2], bool):
            a, v = l[1], l[2]
            while a.op == 'not':
                a, v = a.a[0], not v
            for it, ks in cnt:
                c, n = mk('app', 'count', it), mk('len', it.a[0] if it.a else it)
                if a.op == 'eq' and v and c in a.a and (any(x.op == 'int' and x.a[0] == 0 for x in a.a) or n in a.a and done - ks):
                    return None
                if a.op == 'lt' and a.a[1] is c and a.a[0].op == 'int' and a.a[0].a[0] == 0 and not v:
                    return None
                if a.op == 'lt' and a.a == (c, n) and not v and done - ks:
                    return None
                if a.op == 'lt' and a.a[0] is c and a.a[1].op == 'int' and a.a[1].a[0] == 1 and v:
                    return None
        if l[0] == 'e' and l[1] == 'panic' and done >= {'Ok', 'Err'}:
            trapped.add(l[-1])
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
            if done >= {'Ok', 'Err'}:
                return Viol('half', s)
            if 'Ok' in done and fit_ is not True:
                return Viol('rest', s)
        return s
    v, n = search(ex.g, (frozenset(), (), frozenset(), False), step)
    R.states += n
    text = {'half': 'replies after one transfer of an atomic batch was executed and another one failed: the batch is executed in part',
            'rest': 'executes an atomic batch that may be longer than the batch limit: the transfers behind the limit are left out'}
    for m, l, tr in v:
        R.viol(m, '%s %s (%s)' % (e, text[m], where(l)), tr)
    R.floor('kinds of answers to transfer requests', len(os), 5)
    R.floor('branches on the atomic setting', len(sett), 1)
    R.ob('%s: %d kinds of answers, %d branches on the setting %s, %d traps that undo a batch executed in part' % (e, len(os), len(sett), '.'.join(S), len(trapped)))


WHY = {
    'NonExistingTokenId': (lambda t: 'absent' in t, 'the token is not known to be missing'),
    'TokenDoesNotExist': (lambda t: 'absent' in t, 'the token is not known to be missing'),
    'TooOld': (lambda t: 'old' in t, 'the creation time is not known to be older than the window'),
    'CreatedInFuture': (lambda t: 'fut' in t, 'the creation time is not known to be later than the permitted drift'),
    'Duplicate': (lambda t: 'dup' in t, 'the log did not report a duplicate'),
    'StorageCanisterError': (lambda t: 'log' in t, 'appending the block is not known to have failed'),
    'InvalidSpender': (lambda t: t & {'spanon', 'spself'}, 'the spender is neither anonymous nor the caller itself'),
    'ApprovalDoesNotExist': (lambda t: 'noappr' in t, 'the approval is not known to be missing'),
    'NotTokenOwner': (lambda t: 'foreign' in t, 'the caller is not known not to own the token'),
    'ConcurrentManagementCall': (lambda t: 'busy' in t, 'no other management call is known to be running'),
    'ExceedMaxAllowedSupplyCap': (lambda t: t & {'cap', 'batch'}, 'neither the supply cap nor the batch limit is known to be exceeded'),
    'InvalidMemo': (lambda t: 'memo' in t, 'the memo is not known to be longer than allowed'),
}
GENERIC = (('memo', ('memo',)), ('rate limit', ('rate',)), ('maximum', ('full',)), ('own at least', ('none',)), ('anonymous', ('anon',)),
           ('batch size', ('batch',)), ('failed to', ('log',)))


def clock(v):
    """the current time, converted or not, and nothing a caller chose"""
    if v is NOW:
        return True
    s = subs(v)
    return NOW in s and not any(x.op in ('arg', 'elem') for x in s) and not any(x.op == 'app' and str(x.a[0]).lower() in ('add', 'sub', 'mul', 'div', 'rem') for x in s)


def justified(name, err, tags):
    """None or why the refusal is not justified"""
    if err.op == 'phi':
        for x in err.a:
            m = justified(name, x, tags)
            if m:
                return m
        return None
    if err.op != 'adt':
        return 'with an unknown error' if 'log' not in tags else None
    k = err.a[1]
    if k == 'Unauthorized':
        if name == 'icrc37_transfer_from':
            if 'notfrom' in tags or {'notspender', 'tok-', 'coll-'} <= tags:
                return None
            return 'although the named sender may be the owner and the caller may be entitled'
        return None if 'foreign' in tags else 'although the caller may own the token'
    if k == 'InvalidRecipient':
        ok = {'toanon', 'self'} | ({'foreign'} if name == 'icrc7_transfer' else set())
        return None if tags & ok else 'although the recipient is neither anonymous nor the owner itself'
    if k == 'GenericError':
        text = err.a[3 + list(err.a[2]).index('message')] if 'message' in err.a[2] else None
        why = None
        for s in (subs(text) if text is not None else ()):
            if s.op == 'str':
                for word, need in GENERIC:
                    if word in s.a[0].lower():
                        why = why or need
        if 'scanned' in tags and 'owns' not in tags:
            tags = tags | {'none'}
        anyr = ('memo', 'rate', 'full', 'none', 'anon', 'batch', 'log')
        if not set(why or anyr) & tags:
            return 'with a general error (%s) although its reason is not known to hold' % clip(show(text), 60)
        if 'dup' in tags and name in ('icrc7_transfer', 'icrc37_transfer_from'):
            return 'with a general error although the log reported a duplicate'
        return None
    if k not in WHY:
        return None
    f, text = WHY[k]
    if not f(tags):
        return 'as %s although %s' % (k, text)
    if k == 'CreatedInFuture':
        x = norm(err.a[3 + list(err.a[2]).index('ledger_time')])
        if not all(clock(y) for y in alts(x)):
            return 'as created in the future, naming %s as the time of the ledger' % clip(show(x), 60)
    if k == 'Duplicate':
        x = norm(err.a[3])
        if not (x.op == 'pay' and any(s.op == 'ret' and s.a[0].endswith('add_transaction') for s in subs(x))):
            return 'as a duplicate of %s, which is not the block the log named' % clip(show(x), 60)
    return None


def c42(R):
    p = prog()
    kinds = set()
    for name in HOLD + ('burn_nft', 'update_nft_metadata', 'mint'):
        e = 'canister_update.' + name
        ex = fx(name)
        R.use(ex)
        os = outs(ex)
        many = name in HOLD or name == 'mint'
        if name in HOLD:
            E = mk('elem', ARG(0))
            tid = proj(E, 'token_id') if name not in COLL else None
            sub = {'icrc7_transfer': 'from_subaccount', 'icrc37_transfer_from': 'spender_subaccount'}.get(name)
            fs = proj(E, sub) if sub else None
        elif name == 'mint':
            E, tid, fs = mk('elem', proj(ARG(0), 'mint_requests')), None, None
        else:
            E, tid, fs = None, ARG(0) if name == 'burn_nft' else proj(ARG(0), 'token_id'), None
        accts = []
        if name in ('icrc37_approve_tokens', 'icrc37_approve_collection'):
            fs = proj(proj(E, 'approval_info'), 'from_subaccount')
        elif name in HOLD and fs is None:
            fs = proj(E, 'from_subaccount')
        acct = norm(mk('adt', 'Account', 'Account', ('owner', 'subaccount'), CALLER, fs)) if fs is not None else None
        # the account term as the engine builds it
        for l in ex.labels():
            for s in (subs(l[1]) if l[0] == 'p' else ()):
                if s.op == 'adt' and s.a[2] == ('owner', 'subaccount') and s.a[3] is CALLER and s.a[4] is fs:
                    acct = s
                elif acct is not None and s.op == 'adt' and s.a[2] == ('owner', 'subaccount') and acct.a[0] != s.a[0]:
                    acct = mk('adt', s.a[0], s.a[1], s.a[2], CALLER, fs if fs is not None else NONE)
        if acct is None:
            acct = mk('adt', 'Account', 'Account', ('owner', 'subaccount'), CALLER, NONE)
        case = Case(name, E, tid, acct)
        srcs = request_loops(ex, lambda l: l in os) if name in HOLD else set()
        cache = {}

        def step(s, l):
            glob, loc = s
            if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] in srcs:
                return (glob, frozenset())
            if l in os:
                k, x = os[l]
                if k == 'Err':
                    for y in alts(x):
                        kinds.add((name, y.a[1] if y.op == 'adt' else '?'))
                        m = justified(name, y, glob | loc)
                        if m:
                            return Viol(('request', m), s)
                return s
            if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
                r = reply_value(l)
                for x in (alts(r) if r is not None else ()):
                    errs = [x] if x.op == 'adt' and x.a[1] == 'Err' else [y for y in elements(x)]
                    for y in errs:
                        q = result_of(y)
                        if q and q[0] == 'Err':
                            for z in alts(q[1]):
                                kinds.add((name, z.a[1] if z.op == 'adt' else '?'))
                                m = justified(name, z, glob | loc)
                                if m:
                                    return Viol(('call', m), s)
                return s
            t = cache.get(l)
            if t is None:
                t = cache[l] = frozenset(case.tags(l))
            if not t:
                return s
            if 'never' in t:
                return None
            g = t & {'anon', 'batch', 'cap', 'busy'}
            # a later answer about the same approvals replaces an earlier one
            new = set(loc | t - g)
            for w in ('tok', 'coll'):
                if w + '+' in t:
                    new.discard(w + '-')
                if w + '-' in t:
                    new.discard(w + '+')
            return (glob | g, frozenset(new))
        v, n = search(ex.g, (frozenset(), frozenset()), step)
        R.states += n
        for (what, m), l, tr in v:
            R.viol('reason:%s:%s' % (name, m[:40]), '%s refuses a %s %s (%s)' % (e, what, m, where(l)), tr)
        R.ob('%s: refusals %s' % (e, ', '.join(sorted(k for m, k in kinds if m == name))))
    R.floor('kinds of refusals', len(kinds), 40)
    # management methods: refused only without the permission / while another call runs
    rej = bz = 0
    for e, want in sorted(GUARDED.items()):
        ex = export(e)
        R.use(ex)

        def step(s, l):
            if no_permission(l, want):
                return (True, s[1])
            if busy(l):
                return (s[0], True)
            if l[0] == 'e' and l[1] == 'call' and 'msg_reject' in l[2]:
                return s if s[0] else Viol(('rej', l), s)
            if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
                r = reply_value(l)
                for x in (alts(r) if r is not None else ()):
                    if x.op == 'adt' and x.a[1] == 'Err' and any(z.op == 'adt' and z.a[1] == 'ConcurrentManagementCall' for z in alts(x.a[3])):
                        if not s[1]:
                            return Viol(('busy', l), s)
            return s
        v, n = search(ex.g, (False, False), step)
        R.states += n
        rej += any(l[0] == 'e' and l[1] == 'call' and 'msg_reject' in l[2] for l in ex.labels())
        bz += any(busy(l) for l in ex.labels())
        for (k, _), l, tr in v:
            if k == 'rej':
                R.viol('reject:' + e, '%s rejects a call (%s) although the caller is not known to lack Permission::%s' % (e, where(l), want), tr)
            else:
                R.viol('busy:' + e, '%s answers ConcurrentManagementCall (%s) although no other management call is known to run' % (e, where(l)), tr)
    R.floor('methods that reject callers without their permission', rej, 14)
    R.floor('methods that test for a running management call', bz, 9)
