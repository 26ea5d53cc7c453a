"""C16 query limits, C28 ownership queries, C31 pages, C33 approval listings, C34 is_approved."""
from rl import *
from rules.auth import reply_value
from rules.ops import fx, upper, setting, absent, default_used_rightly, huge, unrepresentable, N, QRY, TAKE, APPR

ARG = lambda i: mk('arg', i)
TL, TBO = D('tokens_list'), D('tokens_list_by_owner')


def q(name):
    return fx('canister_query.' + name)


def replies(ex):
    return [(l, reply_value(l)) for l in ex.labels() if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]]


def lists(v):
    """collections whose elements make up v; values listed literally; None when not understood"""
    if v is None:
        return None
    if v.op == 'wid':
        return {v}, []
    if v.op in ('arr', 'bag'):
        ws, vs = set(), []
        for x in v.a:
            (ws.add(x) if x.op == 'wid' else vs.append(x))
        return ws, vs
    if v.op == 'phi' or v.op == 'app' and v.a[0] in ('extended', 'concat', 'append'):
        ws, vs = set(), []
        for x in v.a:
            if isinstance(x, V):
                r = lists(x)
                if r is None:
                    return None
                ws |= r[0]
                vs += r[1]
        return ws, vs
    if v.op == 'app' and v.a[0] in ('truncate', 'removed', 'reversed'):
        return lists(v.a[1])
    if sliced(v):
        return lists(v.a[0])
    return None


def sliced(v):
    return v.op == 'at' and v.a[1].op == 'adt' and 'Range' in v.a[1].a[0]


def outs_of(ex):
    """collection -> labels that put an element into it"""
    m = {}
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'out' and len(l) > 4:
            m.setdefault(l[3], []).append(l)
    return m


def level(ex, ws):
    """the collections and the labels that fill them (the same list, grown at several places)"""
    m = outs_of(ex)
    todo, seen, labs = list(ws), set(), []
    while todo:
        w = todo.pop()
        if w in seen:
            continue
        seen.add(w)
        for l in m.get(w, ()):
            labs.append(l)
            r = lists(l[4])
            if r:
                todo += r[0]
    return seen, labs


def rebuild(v, old, new):
    if v is old:
        return new
    if old not in subs(v):
        return v
    if v.op == 'fld':
        b = rebuild(v.a[0], old, new)
        if b.op == 'tup' and str(v.a[1]).isdigit():
            return b.a[int(v.a[1])]
        return proj(b, v.a[1])
    if v.op == 'pay':
        b = rebuild(v.a[0], old, new)
        if b.op == 'adt' and b.a[1] == v.a[1] and len(b.a) > 3:
            return b.a[3]
        return mk('pay', b, *v.a[1:])
    return mk(v.op, *[rebuild(x, old, new) if isinstance(x, V) else x for x in v.a])


def bases(ex, v, depth=6):
    """values v can stand for when elements of local lists are replaced by what was put into them:
    (value, labels that put the intermediate elements)"""
    ws = [s for s in subs(v) if s.op == 'elem' and s.a[0].op == 'wid']
    if not ws or depth == 0:
        return [(v, ())]
    w = ws[0]
    out = []
    for l in level(ex, {w.a[0]})[1]:
        for b, ls in bases(ex, rebuild(v, w, l[2]), depth - 1):
            out.append((b, ls + (l,)))
    return out


def feeds(ex, ws):
    """all put-labels that contribute elements to the lists, over all stages"""
    todo, seen, labs = set(ws), set(), {}
    while todo:
        w = todo.pop()
        if w in seen:
            continue
        ss, ls = level(ex, {w})
        seen |= ss
        for l in ls:
            labs[l] = None
            for s in subs(l[2]):
                if s.op == 'elem' and s.a[0].op == 'wid':
                    todo.add(s.a[0])
    return list(labs)


def loops_at(ex, labs):
    """label -> iteration labels active (innermost last) when it happens"""
    labs = set(labs)
    res = {l: set() for l in labs}

    def step(s, l):
        if l[0] == 'e' and l[1] == 'iter_next':
            k = l[-1]
            return tuple(x for x in s if x[-1] != k) + (l,)
        if l[0] == 'e' and l[1] == 'iter_end':
            k = l[-1]
            return tuple(x for x in s if x[-1] != k)
        if l in labs:
            res[l].add(s)
        return s
    search(ex.g, (), step)
    return res


def list_reply(R, ex, e):
    """(collections, put labels) of the replies"""
    ws, vs, bad = set(), [], []
    for l, v in replies(ex):
        r = lists(v)
        if r is None:
            bad.append(v)
            continue
        ws |= r[0]
        vs += r[1]
    return ws, vs, bad


def answers(R, ex, e, name, check, filters=()):
    """one answer per element of the request list, in order; each accepted by check(value) -> (ok, fact or None)"""
    ws, vs, bad = list_reply(R, ex, e)
    for v in bad:
        R.viol('reply:' + name, '%s replies with %s, not with the list of its answers' % (e, clip(show(v), 160)))
    seen, labs = level(ex, ws)
    n = 0
    # a list built in one go and copied: look at the stage that computes the answers
    while labs and all(l[2].op == 'elem' and l[2].a[0].op == 'wid' for l in labs):
        seen, labs = level(ex, {l[2].a[0] for l in labs})
    acts = loops_at(ex, labs)
    locs = set()
    for l in labs:
        for st in acts[l]:
            src = [x for x in st if any(s is ARG(0) for s in subs(x[2]))]
            if not src:
                R.viol('free:' + name, '%s gives an answer at %s outside the loop over its requests' % (e, where(l)))
                continue
            locs.add(src[-1][-1])
            for x in st:
                odd = set(x[4]) & (FILTERS | {'rev'}) - {'take'}
                if odd and x in src:
                    R.viol('order:' + name, '%s: the loop over the requests at %s skips or reorders them (%s)' % (e, where(x), ', '.join(sorted(odd))))
    lset = set(labs)

    def step(s, l):
        if l in lset:
            return Viol('twice', s) if s == 1 else 1
        if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] in locs:
            m = s == 0
            s = 0 if l[1] == 'iter_next' else None
            return Viol('none', s if s is not None else 2) if m else (s if s is not None else 2)
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2] and s == 0:
            return Viol('none', s)
        return s
    v, k = search(ex.g, 2, step)
    R.states += k
    for m, l, tr in v:
        R.viol('%s:%s' % (m, name), '%s gives %s answer to a request (%s)' % (e, {'twice': 'more than one', 'none': 'no'}[m], where(l)), tr)
    for l in labs:
        n += 1
        check(l)
    return n


def need(R, ex, t, fact, key, msg):
    """the fact (label -> True) was established for the request at hand before label t"""
    E = mk('elem', ARG(0))

    def step(s, l):
        if l == t:
            return s if s else Viol('missing', s)
        if l[0] == 'e' and l[1] == 'iter_next' and E in subs(l[3]) and E not in subs(l[2]):
            return False
        return True if not s and fact(l) else s
    v, k = search(ex.g, False, step)
    R.states += k
    for m, l, tr in v:
        R.viol(key, msg, tr)


def absent_in(table, keys):
    """branch deciding that the table has no entry under one of the keys"""
    def f(l):
        if l[0] != 'p':
            return None
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if a.op == 'opt' and v == 'None' and key_of(a.a[0], table) in keys and len(a.a[0].a) == len(table.a) + 1:
            return True
        if a.op == 'app' and a.a[0] in ('contains', 'contains_key') and v is False and a.a[1].a[:] == table.a and norm(unwrap(a.a[2])) in keys:
            return True
        return None
    return f


def key_of(g, table):
    """key under which g reads the table"""
    if g.op not in ('g', 'gref') or len(g.a) <= len(table.a) or g.a[:len(table.a)] != table.a:
        return None
    k = g.a[len(table.a)]
    return norm(unwrap(k.a[0])) if isinstance(k, V) and k.op == 'k' else None


def root(g):
    """name of the stable map / thread local a term reads"""
    return g.a[0].split('::')[-1] if g.op in ('g', 'gref') else None


# ------------------------------------------------------------------ C28
def c28(R):
    E = mk('elem', ARG(0))
    n = 0
    # owner_of
    e, name = 'icrc7_owner_of', 'owner_of'
    ex = q(e)
    R.use(ex)

    def chk(l):
        for v in alts(l[2]):
            if v.op == 'adt' and v.a[1] == 'Some':
                x = norm(v.a[3])
                if not (key_of(x, TL) is E and x.a[len(TL.a) + 1:] == ('token_owner',)):
                    R.viol('owner_of', 'icrc7_owner_of answers %s for a token (%s)' % (clip(show(v), 160), where(l)))
            elif v is NONE:
                need(R, ex, l, absent_in(TL, (E,)), 'owner_of:none', 'icrc7_owner_of answers null for a token that may exist (%s)' % where(l))
            elif not (v.op == 'opt' and key_of(v.a[0], TL) is E and v.a[0].a[len(TL.a) + 1:] == ('token_owner',)):
                R.viol('owner_of', 'icrc7_owner_of answers %s for a token (%s)' % (clip(show(v), 160), where(l)))
    n += answers(R, ex, e, name, chk)
    # balance_of
    e, name = 'icrc7_balance_of', 'balance_of'
    ex = q(e)
    R.use(ex)

    def chk(l):
        for v in alts(l[2]):
            if v is N(0):
                need(R, ex, l, absent_in(TBO, (E,)), 'balance_of:zero', 'icrc7_balance_of answers 0 for an account that may own tokens (%s)' % where(l))
            elif not (v.op == 'len' and key_of(v.a[0], TBO) is E and len(v.a[0].a) == len(TBO.a) + 1):
                R.viol('balance_of', 'icrc7_balance_of answers %s, not the number of tokens listed for the account (%s)' % (clip(show(v), 160), where(l)))
    n += answers(R, ex, e, name, chk)
    # token_metadata
    e, name = 'icrc7_token_metadata', 'token_metadata'
    ex = q(e)
    R.use(ex)

    def meta_key(g):
        """token id whose stored metadata g reads"""
        if root(g) == '__METADATA':
            for x in g.a:
                if isinstance(x, V) and x.op == 'k':
                    return norm(unwrap(x.a[0]))
        return None

    def no_meta(l):
        if l[0] == 'p' and l[1].op == 'opt' and l[2] == 'None' and meta_key(l[1].a[0]) is E:
            return True
        if l[0] == 'e' and l[1] == 'iter_end' and any(meta_key(s) is E for s in subs(l[2])):
            return True
        return None

    def chk(l):
        for v in alts(l[2]):
            if v is NONE:
                need(R, ex, l, absent_in(TL, (E,)), 'token_metadata:none', 'icrc7_token_metadata answers null for a token that may exist (%s)' % where(l))
                continue
            r = lists(v.a[3]) if v.op == 'adt' and v.a[1] == 'Some' else None
            if r is None:
                R.viol('token_metadata', 'icrc7_token_metadata answers %s (%s)' % (clip(show(v), 160), where(l)))
                continue
            ws, vs = r
            if not ws and not vs:
                need(R, ex, l, no_meta, 'token_metadata:empty', 'icrc7_token_metadata answers an empty list for a token that may have metadata (%s)' % where(l))
            labs = level(ex, ws)[1]
            for o in labs:
                for b, _ in bases(ex, o[2]):
                    ok = b.op == 'tup' and len(b.a) == 2 and b.a[0].op == 'ekey' and meta_key(b.a[0].a[0]) is E
                    if ok:
                        val = b.a[1]
                        ok = val.op == 'g' and mk('k', b.a[0]) in val.a and val.a[:len(b.a[0].a[0].a)] == b.a[0].a[0].a
                    if not ok:
                        R.viol('token_metadata:entry', 'icrc7_token_metadata reports %s, not a stored metadata entry of the token (%s)' % (clip(show(b), 200), where(o)))
            complete(R, ex, 'icrc7_token_metadata', labs, lambda l: None)
    R.floor('loops copying stored metadata', copies(R, ex, 'icrc7_token_metadata', lambda src: has_g(src, 'METADATA')), 1)
    n += answers(R, ex, e, name, chk)
    # total supply
    e = 'icrc7_total_supply'
    ex = q(e)
    R.use(ex)
    for l, v in replies(ex):
        n += 1
        if v is None or any(x is not mk('len', TL) for x in alts(v)):
            R.viol('total_supply', 'icrc7_total_supply answers %s, not the number of tokens' % clip(show(v), 120))
    # the listings
    K = mk('ekey', TL)
    for e, mine in (('icrc7_tokens', False), ('icrc7_tokens_of', True)):
        ex = q(e)
        R.use(ex)
        ws, vs, bad = list_reply(R, ex, e)
        A = ARG(0)

        def owns(l, k):
            """branch on the ownership of token k by the account of the query"""
            if l[0] != 'p':
                return None
            a, v = l[1], l[2]
            while a.op == 'not' and isinstance(v, bool):
                a, v = a.a[0], not v
            if a.op == 'opt' and v == 'None' and key_of(a.a[0], TL) is k:
                return False
            if a.op == 'eq' and isinstance(v, bool):
                for x, y in (a.a, a.a[::-1]):
                    if x.op == 'adt' and x.a[1] == 'Some':
                        x = x.a[3]
                    if x is A:
                        for b, _ in bases(ex, y):
                            if key_of(b, TL) is k and b.a[len(TL.a) + 1:] == ('token_owner',):
                                return v
                            if b.op == 'adt' and b.a[1] == 'Some' and key_of(b.a[3], TL) is k and b.a[3].a[len(TL.a) + 1:] == ('token_owner',):
                                return v
            return None
        for v in vs + bad:
            R.viol('listing:' + e, '%s replies with %s' % (e, clip(show(v), 160)))
        labs = feeds(ex, ws)
        final = level(ex, ws)[1]
        for l in final:
            for b, chain in bases(ex, l[2]):
                n += 1
                b = norm(b)
                own = b.op in ('elem', 'ekey') and key_of(b.a[0], TBO) is A or key_of(b, TBO) is A and b.a[-1] == 'each'
                if mine and own:
                    continue
                if b is not K and not (b.op in ('elem', 'g') and key_of(b if b.op == 'g' else b.a[0], TBO) is not None):
                    R.viol('listing:' + e, '%s lists %s, which is not the id of a stored token (%s)' % (e, clip(show(b), 160), where(l)))
                    continue
                if mine:
                    ok = False
                    for o in (l,) + chain:
                        v, ts, k = must_hold(ex, lambda x: x == o, lambda t: [Fact('f', lambda x, t: True if owns(x, K) is True else None)], lambda env, t: env['f'],
                                             lambda t, env: '', about=lambda t: (t[2],))
                        R.states += k
                        if not v:
                            ok = True
                            break
                    if not ok:
                        R.viol('owner:' + e, '%s lists a token at %s without checking that the account owns it' % (e, where(l)))
        complete(R, ex, e, labs, lambda l: True if mine and owns(l, K) is False else (True if cursor_lit(l, e, ex) is False else None))
    R.floor('answers checked', n, 12)


def copies(R, ex, e, has, extra=()):
    """every loop that copies elements of a collection accepted by has(source) copies every one of them"""
    puts = [l for l in ex.labels() if l[0] == 'e' and l[1] in ('out', 'lput')] + list(extra)
    acts = loops_at(ex, puts)
    known = {}

    def rel(src, depth=6):
        if src in known:
            return known[src]
        known[src] = False
        r = has(src)
        if not r and depth:
            ws = {s for s in subs(src) if s.op == 'wid'}
            if ws:
                r = any(has(b) for l in level(ex, ws)[1] for s in subs(l[2]) for b in ([s.a[0]] if s.op in ('elem', 'ekey') else ()))
        known[src] = r
        return r
    locs = {}
    for l in puts:
        for st in acts[l]:
            if st and rel(st[-1][2]):
                locs.setdefault(st[-1][-1], set()).add(l)
                odd = set(st[-1][4]) & FILTERS
                if odd:
                    R.viol('part:' + e, '%s copies only a part of %s at %s (%s)' % (e, clip(show(st[-1][2]), 100), where(st[-1]), ', '.join(sorted(odd))))
                for s in subs(st[-1][2]):
                    if s.op == 'map' and s.a[2].a:
                        R.viol('part:' + e, '%s copies %s at %s without %s' % (e, clip(show(s.a[0]), 100), where(st[-1]), clip(show(s.a[2]), 80)))
    for loc, ls in locs.items():
        def step(s, l):
            if l in ls:
                return 1
            if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] == loc:
                n = 0 if l[1] == 'iter_next' else 2
                return Viol('missing', n) if s == 0 else n
            return s
        v, k = search(ex.g, 2, step)
        R.states += k
        for m, l, tr in v:
            R.viol('missing:' + e, '%s leaves out an element in the loop at %s' % (e, where(l)), tr)
    return len(locs)


def complete(R, ex, e, labs, excuse):
    """every iteration of a loop that puts elements into the list puts one, unless excused"""
    acts = loops_at(ex, labs)
    locs = {}
    for l in labs:
        for st in acts[l]:
            if st:
                locs.setdefault(st[-1][-1], set()).add(l)
    for loc, ls in locs.items():
        def step(s, l):
            if l in ls:
                return 1
            if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] == loc:
                n = 0 if l[1] == 'iter_next' else 2
                return Viol('missing', n) if s == 0 else n
            if s == 0 and excuse(l):
                return 1
            return s
        v, k = search(ex.g, 2, step)
        R.states += k
        for m, l, tr in v:
            R.viol('missing:' + e, '%s leaves out an element in the loop at %s' % (e, where(l)), tr)
    for st in {x for l in labs for s in acts[l] for x in s}:
        odd = set(st[4]) & {'step_by', 'map_while'}
        if odd:
            R.viol('skips:' + e, '%s: the loop at %s skips elements (%s)' % (e, where(st), ', '.join(odd)))


# ------------------------------------------------------------------ C16
BATCH = ('icrc7_token_metadata', 'icrc7_owner_of', 'icrc7_balance_of', 'icrc37_is_approved')
PAGES = (('icrc7_tokens', 0, 1), ('icrc7_tokens_of', 1, 2))


def is_reply(l):
    return l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]


def c16(R):
    n = nt = 0
    for e in BATCH:
        ex = q(e)
        R.use(ex)
        path, size = ('max_query_batch_size',), mk('len', ARG(0))
        v, ts, k = must_hold(ex, is_reply, lambda t: [Fact('n', lambda l, _: True if upper(l, size, path, QRY) else None)], lambda env, t: env['n'], lambda t, env: '', about=lambda t: ())
        R.states += k
        n += len(ts)
        for l, m, tr in v:
            R.viol('batch:' + e, '%s answers on a path where the number of requests was not compared with max_query_batch_size' % e, tr)
        default_used_rightly(R, ex, e, [l for l in ex.labels() if upper(l, size, path, QRY) == 'default'], path, 'max_query_batch_size')
        default_used_rightly(R, ex, e, [l for l in ex.labels() if upper(l, size, path, QRY) == 'huge'], path, 'max_query_batch_size', unrepresentable)
        R.ob('%s: %d replies dominated by the batch limit' % (e, len(ts)))
    for e, _, ti in PAGES:
        ex = q(e)
        R.use(ex)
        T = ARG(ti)
        given = mk('pay', T, 'Some', '0')
        path = ('max_take_value',)

        def f(l, _):
            if l[0] == 'p' and l[1] is T and l[2] == 'None':
                return True
            return True if upper(l, given, path, TAKE) else None
        v, ts, k = must_hold(ex, is_reply, lambda t: [Fact('n', f)], lambda env, t: env['n'], lambda t, env: '', about=lambda t: ())
        R.states += k
        n += len(ts)
        for l, m, tr in v:
            R.viol('take:' + e, '%s answers on a path where take was not compared with max_take_value' % e, tr)
        default_used_rightly(R, ex, e, [l for l in ex.labels() if upper(l, given, path, TAKE) == 'default'], path, 'max_take_value')
        default_used_rightly(R, ex, e, [l for l in ex.labels() if upper(l, given, path, TAKE) == 'huge'], path, 'max_take_value', unrepresentable)
        # the page is cut
        size = {given: 'given', setting('default_take_value'): 'default', D('default_take_value', 'Some', '0'): 'default', N(TAKE): 'const'}
        nt += bounded(R, ex, e, T, size)
        use_of_default(R, ex, e, T, size)
    R.floor('limited replies', n, 8)
    R.floor('cut pages', nt, 2)


def bounded(R, ex, e, T, size):
    ws, vs, bad = list_reply(R, ex, e)
    n = 0
    todo, seen = set(ws), set()
    if any(v is not None and any(s.op == 'app' and s.a[0] == 'truncate' or sliced(s) for s in subs(v)) for _, v in replies(ex)):
        return 1    # cut after collecting
    while todo:
        w = todo.pop()
        if w in seen:
            continue
        seen.add(w)
        labs = level(ex, {w})[1]
        acts = loops_at(ex, labs)
        for l in labs:
            for st in acts[l]:
                its = [x for x in st if 'take' in x[4]]
                xs = [x for it in its for o, x in zip([o for o in it[4] if o in ('skip', 'take', 'step_by')], it[5]) if o == 'take']
                if any(x in size for x in xs):
                    n += 1
                    continue
                if xs and not any(x.op in ('int', 'g', 'arg', 'pay') for x in xs):
                    n += 1      # computed bound: not decided here
                    continue
                src = {s.a[0] for s in subs(l[2]) if s.op == 'elem' and s.a[0].op == 'wid'}
                if counted(ex, l):
                    n += 1
                elif src and not xs:
                    todo |= src
                else:
                    R.viol('page:' + e, '%s puts an element into its reply at %s without limiting the page to take / default_take_value' % (e, where(l)))
    return n


def counted(ex, l):
    """the element is put under a test of the number of elements so far"""
    if l[4].op in ('arr', 'bag') and not l[4].a:
        return counted_all(ex, l)

    def f(x, t):
        if x[0] == 'p' and any(s.op == 'len' and s.a[0].op in ('wid', 'arr', 'bag') for s in subs(x[1])):
            return True
        return None
    v, ts, k = must_hold(ex, lambda x: x == l, lambda t: [Fact('f', f)], lambda env, t: env['f'], lambda t, env: '', about=lambda t: ())
    return not v


def counted_all(ex, l):
    """first element of a list: decided by the test before the later ones"""
    more = [x for x in ex.labels() if x[0] == 'e' and x[1] == 'out' and len(x) > 4 and x[3] is l[3] and not (x[4].op in ('arr', 'bag') and not x[4].a)]
    return bool(more) and all(counted(ex, x) for x in more)


def use_of_default(R, ex, e, T, size):
    """take decides when given; the configured default when not; the constant when neither"""
    tg = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next' and 'take' in l[4]]

    def bound(l):
        for o, x in zip([o for o in l[4] if o in ('skip', 'take', 'step_by')], l[5]):
            if o == 'take':
                return size.get(x)
        return None

    def fs(t):
        def none(l, _):
            return (l[2] == 'None') if l[0] == 'p' and l[1] is T else None

        def odd(l, _):
            return True if l[0] == 'p' and l[1].op == 'res' and l[2] == 'Err' else None
        return [Fact('none', none), Fact('absent', lambda l, _: absent(l, ('default_take_value',))), Fact('odd', odd)]
    tg = [l for l in tg if bound(l) in ('default', 'const')]
    v, ts, k = must_hold(ex, lambda l: l in tg, fs, lambda env, t: env['odd'] or env['none'] and (bound(t) == 'default' or env['absent']),
                         lambda t, env: bound(t), about=lambda t: ())
    R.states += k
    for l, m, tr in v:
        R.viol('default:%s:%s' % (e, m), '%s uses the %s page size at %s although %s is given' % (e, 'configured' if m == 'default' else 'built-in', where(l), 'take' if m == 'default' else 'take or default_take_value'), tr)


# ------------------------------------------------------------------ C31
def cursor_lit(l, e, ex):
    """branch telling whether an element lies behind the cursor (tokens): True / False"""
    i = {'icrc7_tokens': 0, 'icrc7_tokens_of': 1}.get(e)
    if i is None or l[0] != 'p':
        return None
    a, v = l[1], l[2]
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if a.op != 'lt' or not isinstance(v, bool):
        return None
    prev = (mk('pay', ARG(i), 'Some', '0'), N(0))
    if a.a[0] in prev and id_like(ex, a.a[1]):
        return v
    return None


def id_like(ex, x):
    if x.op == 'ekey' or x.op == 'g' and x.a[-1] == 'each':
        return True
    return x.op in ('elem', 'fld', 'g') and any(s.op in ('elem', 'ekey') for s in subs(x))


def c31(R):
    n = no = 0
    for e, ci, ti in PAGES + (('icrc37_get_token_approvals', 1, 2), ('icrc37_get_collection_approvals', 1, 2)):
        ex = q(e)
        R.use(ex)
        ids = e.startswith('icrc7_')
        C = ARG(ci)
        prev = mk('pay', C, 'Some', '0')
        ws, vs, bad = list_reply(R, ex, e)
        labs = feeds(ex, ws)
        acts = loops_at(ex, labs)
        its = set()
        for l in labs:
            near = cursor_dominates(ex, l, e) if ids else False
            for st in acts[l]:
                its |= {x for x in st if set(x[4]) & {'skip', 'take'}}
                if st and (near or counted(ex, l)):
                    its.add(st[-1])
        if not its:
            R.ob('%s: the page is not cut by a loop: order and cursor not decided' % e)
        # order: the list the page is cut from is sorted
        srcs = {x[2] for x in its if any(s.op in ('g', 'gref', 'wid') for s in subs(x[2]))}
        good = {}
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'sorted':
                good.setdefault(l[-1], set()).add(total(l, ids))
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'sorted' and good[l[-1]] == {False} and l[2] in srcs:
                R.viol('sort:' + e, '%s sorts its page source at %s by %s: %s' % (e, where(l), clip(show(l[4]), 200), 'not ascending by id' if ids else 'entries with equal keys keep the order of the map'))

        def step(s, l):
            if l[0] == 'e' and l[1] == 'sorted' and good[l[-1]] != {False}:
                return s | {l[2]}
            if l[0] == 'e' and l[1] == 'out' and len(l) > 4:
                return s - {l[3]}
            if l in its and l[2] in srcs and l[2] not in s and not str(l[2].a[0]).split(':')[1:2] == ['sorted']:
                return Viol('unsorted', s)
            return s
        v, k = search(ex.g, frozenset(), step)
        R.states += k
        no += 1
        for m, l, tr in v:
            R.viol('order:' + e, '%s cuts its page at %s from %s, which is not sorted: a cursor skips or repeats entries' % (e, where(l), clip(show(l[2]), 80)), tr)
        # cursor
        n += cursor(R, ex, e, C, prev, its, ids, labs)
    R.floor('pages', no, 4)
    R.add('page cuts', n)


def cursor_dominates(ex, l, e):
    v, ts, k = must_hold(ex, lambda x: x == l, lambda t: [Fact('f', lambda x, t: True if cursor_lit(x, e, ex) is True else None)], lambda env, t: env['f'], lambda t, env: '', about=lambda t: (t[2],))
    return not v


def total(l, ids):
    """True: the order does not depend on the initial one; False: it does (or is descending for ids); None: not decided"""
    how, r = l[3], l[4]
    if how == 'sort':
        return True
    if how == 'sort_by_key':
        return None if ids else None

    def parts(r):
        if r.op == 'app' and r.a[0] == 'then':
            return parts(r.a[1]) + parts(r.a[2])
        if r.op == 'app' and r.a[0] == 'reverse':
            return [mk('cmp', x.a[1], x.a[0]) if x.op == 'cmp' else x for x in parts(r.a[1])]
        return [r]
    ps = parts(r)
    if any(p.op != 'cmp' for p in ps):
        return None
    if ids:
        p = ps[0]
        return p.a[0].op == 'arb' and p.a[0].a[1] == 0 and p.a[1].op == 'arb' and p.a[1].a[1] == 1
    def key(x):
        f = []
        while x.op == 'fld':
            f.append(x.a[1])
            x = x.a[0]
        return x.op == 'arb', set(f)
    for p in ps:
        (a, f), (b, h) = key(p.a[0]), key(p.a[1])
        if a and b and f == h and p.a[0] is not p.a[1] and ('spender' in f and f <= {'spender', 'approval_info'} or f <= {'approval_info'}):
            return True
    return False


def cursor(R, ex, e, C, prev, its, ids, labs):
    """where the page starts"""
    n = 0
    lset = set(labs)
    zero = N(0)

    def skip(l):
        xs = [x for o, x in zip([o for o in l[4] if o in ('skip', 'take', 'step_by')], l[5]) if o == 'skip']
        return xs[0] if xs else zero

    def found(l):
        """branch that tells whether an element is the one the page is positioned at"""
        if l[0] != 'p':
            return None
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if not isinstance(v, bool):
            return None
        if ids:
            if a.op == 'lt' and a.a[0] is prev and id_like(ex, a.a[1]):
                return v, a.a[1]
            if a.op == 'lt' and a.a[0] is zero and id_like(ex, a.a[1]):
                return v, a.a[1]
        elif a.op == 'eq':
            for x, y in (a.a, a.a[::-1]):
                if prev in subs(y) and y is not prev and y.op == 'fld' and y.a[1] == 'spender' and x.op in ('fld', 'g') and x.a[-1] == 'spender':
                    return v, x
        return None

    def cuts(x):
        """extra argument of skip -> 'zero' / 'at' / 'after' / 'end' / None (unknown)"""
        if x is zero:
            return 'zero'
        if x.op == 'idx':
            return 'at'
        if x.op == 'len':
            return 'end'
        if x.op == 'app' and x.a[0] == 'add' and len(x.a) == 3:
            y = [t for t in x.a[1:] if t.op == 'idx']
            i = [t for t in x.a[1:] if t.op == 'int']
            if y and i:
                return 'after' if i[0] is N(1) else 'off'
        if x.op == 'app' and x.a[0] == 'sub' and x.a[1].op == 'idx' or x.op == 'int':
            return 'off'
        return None
    # state: cursor given? (None unknown / True / False), position found?
    init = (None, None, frozenset())

    def step(s, l):
        g, p, beh = s
        if l[0] == 'p' and l[1] is C:
            return (l[2] == 'Some', p, beh)
        r = found(l)
        if r is not None:
            return (g, r[0] or p, beh | {r[1]} if r[0] else beh)
        if l in its:
            c = cuts(skip(l))
            if {'skip_while', 'filter'} & set(l[4]):
                return s
            bad = None
            if ids:
                if g and c == 'zero' and not filtered:
                    bad = 'starts at the first id although a cursor is given'
                elif g and c == 'at' and not p:
                    bad = 'does not start at the first id greater than the cursor'
                elif g and c == 'end' and p:
                    bad = 'is empty although there are ids greater than the cursor'
                elif c in ('after', 'off') and g:
                    bad = 'does not start right behind the cursor'
                elif not g and c == 'off':
                    bad = 'does not start at the first id'
            else:
                if g and p and c in ('zero', 'at', 'off', 'end'):
                    bad = 'does not start right behind the cursor'
                elif g and p is None and c == 'zero' and not searched(s):
                    bad = None
                elif not g and c in ('off', 'after'):
                    bad = 'does not start at the first entry'
            return Viol(bad, s) if bad else s
        return s

    def searched(s):
        return True
    # elements taken only when behind the cursor need no skip
    filtered = False
    if ids:
        fin = [l for l in labs]
        for l in fin:
            v, ts, k = must_hold(ex, lambda x: x == l, lambda t: [Fact('f', lambda x, t: True if (found(x) or (0, 0))[0] is True and found(x)[1] is t[2] else None)],
                                 lambda env, t: env['f'], lambda t, env: '', about=lambda t: (t[2],))
            if not v:
                filtered = True
    v, k = search(ex.g, init, step)
    R.states += k
    for m, l, tr in v:
        R.viol('cursor:' + e, '%s: the page cut at %s %s' % (e, where(l), m), tr)
    used = any(found(l) for l in ex.labels())
    if not used and not any(cuts(skip(l)) is None or {'skip_while', 'filter'} & set(l[4]) for l in its) and not any(v is not None and any(sliced(x) for x in subs(v)) for _, v in replies(ex)):
        R.viol('cursor:' + e, '%s does not look at its cursor' % e)
    return len(its)


# ------------------------------------------------------------------ C33
def c33(R):
    n = 0
    for e, tab in (('icrc37_get_token_approvals', '__TOKEN_APPROVALS'), ('icrc37_get_collection_approvals', '__COLLECTION_APPROVALS')):
        ex = q(e)
        R.use(ex)
        T = tab
        ws, vs, bad = list_reply(R, ex, e)
        for v in vs + bad:
            R.viol('reply:' + e, '%s replies with %s' % (e, clip(show(v), 160)))
        for l in level(ex, ws)[1]:
            for b, chain in bases(ex, l[2]):
                n += 1
                if b.op != 'adt':
                    R.viol('entry:' + e, '%s reports %s (%s)' % (e, clip(show(b), 160), where(l)))
                    continue
                if tab == '__TOKEN_APPROVALS' and norm(proj(b, 'token_id')) is not ARG(0):
                    R.viol('token_id:' + e, '%s reports the token id %s (%s)' % (e, clip(show(proj(b, 'token_id')), 120), where(l)))
                i = proj(b, 'approval_info')
                src = {'spender': ('spender', '0'), 'from_subaccount': ('from', '0', 'subaccount'), 'expires_at': ('expires_at',), 'created_at_time': ('created_at',), 'memo': ('memo',)}
                for f, p in src.items():
                    for v in alts(proj(i, f)):
                        ok = False
                        g = entry(v, T)
                        if g is not None:
                            ok = g[1] == p
                        elif f == 'memo' and v.op == 'adt' and v.a[1] == 'Some':
                            x = v.a[3]
                            while entry(x, T) is None and x.op in ('app', 'fld', 'adt') and any(isinstance(y, V) for y in x.a):
                                x = next(y for y in x.a if isinstance(y, V))
                            g = entry(x, T)
                            ok = g is not None and g[1][:1] == p
                        elif f == 'memo' and v is NONE:
                            def absent_memo(l):
                                if l[0] == 'p' and l[2] == 'None' and entry(l[1], T) is not None and entry(l[1], T)[1] == ('memo',):
                                    return True
                                return None
                            ok = any(not must_hold(ex, lambda x: x == o, lambda t: [Fact('f', lambda x, t: absent_memo(x))], lambda env, t: env['f'], lambda t, env: '', about=lambda t: (t[2],))[0] for o in (l,) + chain)
                        if not ok:
                            R.viol('field:%s:%s' % (e, f), '%s reports %s as %s of an approval (%s)' % (e, clip(show(v), 200), f, where(l)))
        complete(R, ex, e, feeds(ex, ws), lambda l: None)
    R.floor('reported approvals', n, 4)


def entry(v, T):
    """(key, fields) when v reads a field of an approval stored under the first argument"""
    if root(v) != T:
        return None
    ks = [x for x in v.a if isinstance(x, V)]
    if len(ks) != 2 or norm(unwrap(ks[0].a[0])) is not ARG(0):
        return None
    if ks[1].a[0].op != 'ekey':
        return None
    i = v.a.index(ks[1])
    return ks[1], tuple(v.a[i + 1:])


# ------------------------------------------------------------------ C34
def c34(R):
    e = 'icrc37_is_approved'
    ex = q(e)
    R.use(ex)
    E = mk('elem', ARG(0))
    tid, sp, fs = proj(E, 'token_id'), proj(E, 'spender'), proj(E, 'from_subaccount')
    owner = mk('g', *TL.a, mk('k', tid), 'token_owner')
    acct = ('owner', 'subaccount')

    def appr(g):
        """(which, fields) of an approval for the spender of the request"""
        if g.op not in ('g', 'gref'):
            return None
        ks = [x for x in g.a if isinstance(x, V)]
        if not ks:
            return None
        k0 = norm(unwrap(ks[0].a[0]))
        w = None
        if root(g) == '__TOKEN_APPROVALS' and k0 is tid:
            w = 'token'
        if root(g) == '__COLLECTION_APPROVALS' and k0 is owner:
            w = 'coll'
        if w is None:
            return None
        if len(ks) == 1:
            return w, None
        if norm(unwrap(ks[1].a[0])) is not sp:
            return None
        return w, tuple(g.a[g.a.index(ks[1]) + 1:])

    def expiry(a):
        """comparison with the expiry of such an approval: (which, truth of unexpired)"""
        if a.op == 'lt' and a.a[0] is NOW:
            r = appr(a.a[1])
            if r and r[1] == ('expires_at', 'Some', '0'):
                return r[0], True
        if a.op == 'lt' and a.a[1] is NOW:
            return None      # expiring exactly now would count as valid
        return None

    def isown(a):
        if a.op != 'eq':
            return False
        for x, y in (a.a, a.a[::-1]):
            y2 = norm(y)
            if y2.op == 'adt' and y2.a[1] == 'Some':
                y2 = y2.a[3]
            x2 = x.a[3] if x.op == 'adt' and x.a[1] == 'Some' else x
            if y2 is owner and x2.op == 'adt' and x2.a[2] == acct and x2.a[3] is proj(sp, 'owner') and x2.a[4] is fs:
                return True
        return False

    # what a branch says: ('token'|'coll'|'own', truth)
    def says(l):
        if l[0] != 'p':
            return None
        a, v = l[1], l[2]
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if a.op == 'opt':
            if v == 'None':
                if key_of(a.a[0], TL) is tid and len(a.a[0].a) == len(TL.a) + 1:
                    return [('coll', False), ('own', False)]     # no owner: neither
                r = appr(a.a[0])
                if r and not r[1]:
                    return [(r[0], False)]
            return None
        if v == 'None':
            r = appr(a)
            if r and r[1] == ('expires_at',):
                return [(r[0], True)]
        if isinstance(v, bool):
            x = expiry(a)
            if x:
                return [(x[0], v)]
            if isown(a):
                return [('own', v)]
        return None

    n = [0]

    def chk(l):
        n[0] += 1

    answers(R, ex, e, 'is_approved', chk)
    ws, vs, bad = list_reply(R, ex, e)
    _, labs = level(ex, ws)
    while labs and all(l[2].op == 'elem' and l[2].a[0].op == 'wid' for l in labs):
        _, labs = level(ex, {l[2].a[0] for l in labs})
    lset = set(labs)
    names = ('token', 'coll', 'own')

    def step(s, l):
        if l[0] == 'e' and l[1] == 'iter_next' and l[3] is E:
            return (None, None, None)
        if l in lset:
            v = l[2]
            d = dict(zip(names, s))
            neg = False
            while v.op == 'not':
                v, neg = v.a[0], not neg
            m = None
            if v.op == 'bool':
                t = v.a[0] != neg
                if t and not any(d.values()):
                    m = 'says yes although none of token approval, collection approval and ownership is known to hold'
                if not t and not all(x is False for x in d.values()):
                    m = 'says no although %s not known to fail' % ' and '.join({'token': 'the token approval', 'coll': 'the collection approval', 'own': 'ownership'}[k] + ' is' for k in names if d[k] is not False)
            elif neg:
                m = 'says %s' % clip(show(l[2]), 160)
            else:
                w = says(('p', v, True))
                if not w:
                    m = 'says %s' % clip(show(l[2]), 160)
                else:
                    rest = [k for k in names if k != w[0][0]]
                    if not all(d[k] is False for k in rest):
                        m = 'says %s although the other grounds are not known to fail' % clip(show(v), 120)
            return Viol(m, s) if m else s
        w = says(l)
        if w:
            s = list(s)
            for k, t in w:
                s[names.index(k)] = t
            return tuple(s)
        return s
    v, k = search(ex.g, (None, None, None), step)
    R.states += k
    for m, l, tr in v:
        R.viol('wrong:' + m[:40], '%s %s (%s)' % (e, m, where(l)), tr)
    R.floor('answers of is_approved', n[0], 3)
