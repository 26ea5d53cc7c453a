"""C04 write only after the block is logged, C05 block content, C06 logged means applied."""
from rl import *
from rules.tokens import token_writes, approval_writes, cur_owner, request_elem, TL, BO, LAST, rel_owner
from rules.auth import reply_ok, reply_value

METHODS = ('icrc7_transfer', 'icrc37_transfer_from', 'icrc37_approve_tokens', 'icrc37_approve_collection',
           'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'burn_nft', 'mint', 'update_nft_metadata')
KINDS = {
    'mint': '7mint', 'burn_nft': '7burn', 'icrc7_transfer': '7xfer', 'update_nft_metadata': '7update_token',
    'icrc37_approve_tokens': '37approve', 'icrc37_approve_collection': '37approve_coll',
    'icrc37_revoke_token_approvals': '37revoke', 'icrc37_revoke_collection_approvals': '37revoke_coll',
    'icrc37_transfer_from': '37xfer',
}


class LW:
    """a write that a block accounts for"""
    __slots__ = ('l', 'what', 'key', 'val')


def ledger_writes(ex, name):
    """state writes of the call that blocks record (house-keeping of expired approvals excluded: C03)"""
    out = []

    def add(l, what, key, val=None):
        w = LW()
        w.l, w.what, w.key, w.val = l, what, key, val
        out.append(w)
    for w in token_writes(ex):
        if w.kind != 'same':
            add(w.l, 'token', w.key, w.new)
    for l in touches(ex, *BO):
        t = touch(l)
        if t.how in ('or_insert', 'get_mut'):
            continue
        v = t.vals[-1] if t.how in ('push', 'insert') and t.vals else None
        if t.how in ('retain', 'set'):
            v = sieve(ex, l)
        if t.how in ('remove', 'swap_remove') and t.vals and t.vals[0].op == 'idx':
            v = next((b for m in ex.labels() if m[0] == 'p' and m[2] is True and m[1].op == 'eq' for a, b in (m[1].a, m[1].a[::-1]) if elem_home(a) == l[2]), None)
        add(l, 'index', norm(v) if v is not None else None)
    for w in approval_writes(ex):
        if name == 'icrc37_transfer_from' and w.kind != 'bulk' and not w.added and not (w.tab == 'TOKEN_APPROVALS' and w.kind == 'drop'):
            continue
        if w.tab == 'COLLECTION_APPROVALS' and w.kind == 'drop' and name in ('icrc7_transfer', 'burn_nft'):
            continue
        add(w.l, 'approval+' if w.added else 'approval-', w.key)
    for l in touches(ex, 'METADATA'):
        t = touch(l)
        add(l, 'metadata', norm(t.key) if t.key is not None else None)
    for l in touches(ex, *LAST):
        add(l, 'counter', None)
    return out


def log_tids(l):
    """token ids / accounts of the blocks whose append this branch decided"""
    out = set()
    for c in log_calls(l[1]):
        for t in txs(c):
            tid = t.f.get('tid')
            if tid is not None and tid.op == 'adt' and tid.a[1] == 'Some':
                out.add(norm(tid.a[3]))
            fr = t.f.get('from')
            if fr is not None and fr.op == 'adt' and fr.a[1] == 'Some':
                out.add(('from', norm(fr.a[3])))
    return out


def c04(R):
    n0 = 0
    for name in METHODS:
        e = 'canister_update.' + name
        ex = export(e)
        R.use(ex)
        ws = {w.l: w for w in ledger_writes(ex, name)}
        if not ws:
            R.viol('anchor:' + name, '%s: no state write found' % e)
        n0 += len(ws)

        if name == 'mint':
            mint04(R, ex, e, ws)
            continue

        def facts(t):
            w = ws[t]

            def f(l, t):
                if log_ok(l):
                    ids = log_tids(l)
                    if w.key is None:
                        return True
                    if w.key in ids or ('from', w.key) in ids:
                        return True
                    return None
                return None
            return [Fact('logged', f, promote=True)]
        v, ts, n = must_hold(ex, lambda l: l in ws, facts, lambda env, t: env['logged'], lambda t, env: '%s %s' % (name, short(t)),
                            about=lambda t: (ws[t].key,) if ws[t].key is not None else ())
        R.states += n
        for l, m, tr in v:
            R.viol('unlogged:' + m, '%s reaches %s at %s on a path where no block for it was appended successfully' % (e, short(l), where(l)), tr)
        R.ob('%s: %d writes after a successful append' % (e, len(ws)))
    R.floor('state writes that need a block', n0, 25)
    # nobody else touches the ledger state
    for e in exports_of():
        if mname(e) in METHODS or e.startswith('canister_post') or e == 'canister_init' or e == 'canister_pre_upgrade':
            continue
        ex = export(e)
        R.use(ex)
        for w in ledger_writes(ex, mname(e)):
            R.viol('other:%s:%s' % (mname(e), short(w.l)), '%s changes ledger state (%s at %s) without a block' % (e, short(w.l), where(w.l)))


def in_loops(ex, is_w):
    """locations of the innermost loops whose iterations perform the event"""
    srcs = set()

    def step(s, l):
        if l[0] == 'e' and l[1] == 'iter_next':
            k = l[-1]
            return tuple(x for x in s if x != k) + (k,)
        if l[0] == 'e' and l[1] == 'iter_end':
            k = l[-1]
            return tuple(x for x in s if x != k)
        if is_w(l) and s:
            srcs.add(s[-1])
        return s
    search(ex.g, (), step)
    return srcs


def mint04(R, ex, e, ws):
    lgs = [l for l in ex.labels() if is_log(l)]
    srcs = in_loops(ex, lambda l: l in set(lgs))
    if not srcs:
        R.viol('anchor:mint loop', 'mint appends its blocks outside of a loop over the requests')
        return
    built = lambda l: l[0] == 'e' and l[1] == 'call' and l[2].endswith('Transaction::new')
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'iter_next' and l[-1] in srcs and set(l[4]) & FILTERS:
            R.viol('unlogged:mint partial', 'mint appends blocks only for a part of %s (%s)' % (clip(show(l[2]), 80), where(l)))

    # 'init' no loop yet, 'in' iteration not logged, 'ok' iteration logged, 'done' loop complete, 'bad'
    def step(s, l):
        if l in ws:
            w = ws[l]
            if s == 'done' or (s == 'ok' and w.key is not None):
                return s
            return Viol(short(l), s)
        if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] in srcs:
            if l[1] == 'iter_next':
                return 'bad' if s in ('in', 'bad') else 'in'
            return 'bad' if s in ('in', 'bad') else 'done'
        if log_ok(l):
            return 'ok' if s != 'bad' else s
        if log_err(l):
            return 'bad'
        return s
    v, n = search(ex.g, 'init', step)
    R.states += n
    for m, l, tr in v:
        R.viol('unlogged:mint %s' % m, '%s reaches %s at %s on a path where not every request has its block appended successfully' % (e, m, where(l)), tr)
    for m, l, tr in every_iteration(ex, built, R):
        R.viol('unlogged:mint build', 'mint can skip building the block of a request (%s)' % m, tr)
    R.ob('%s: %d writes after all blocks of the batch are appended' % (e, len(ws)))


def every_iteration(ex, is_w, R):
    """every iteration of the innermost loops performing the event performs it, and no element is filtered away"""
    srcs = in_loops(ex, is_w)

    def step(s, l):
        if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[-1] in srcs:
            k = l[-1]
            bad = s == (k, False)
            n = (k, False) if l[1] == 'iter_next' else ()
            if l[1] == 'iter_next' and set(l[4]) & (FILTERS - {'zip'}):
                return Viol('the loop at %s filters %s' % (where(l), clip(show(l[2]), 80)), n)
            return Viol('an iteration at %s over %s skips it' % (where(l), clip(show(l[2]), 80)), n) if bad else n
        if s and is_w(l):
            return (s[0], True)
        return s
    v, n = search(ex.g, (), step)
    R.states += n
    return v


# ------------------------------------------------------------------ C06
def c06(R):
    n0 = 0
    for name in METHODS:
        e = 'canister_update.' + name
        ex = export(e)
        R.use(ex)
        ws = {w.l: w for w in ledger_writes(ex, name)}
        logs = [l for l in ex.labels() if log_ok(l)]
        n0 += len(logs)
        if not logs:
            R.viol('anchor:' + name, '%s: no successful append found' % e)
            continue
        if name == 'mint':
            mint06(R, ex, e, ws)
            continue
        want = {'icrc7_transfer': 'token', 'icrc37_transfer_from': 'token', 'burn_nft': 'token', 'icrc37_approve_tokens': 'approval+',
                'icrc37_approve_collection': 'approval+', 'icrc37_revoke_token_approvals': 'approval-',
                'icrc37_revoke_collection_approvals': 'approval-', 'update_nft_metadata': 'metadata'}[name]

        def tag(l):
            if log_ok(l):
                return ('L', frozenset(log_tids(l)))
            w = ws.get(l)
            if w is not None and w.what == want:
                return ('W', w.key)
            return None

        def okf(tags):
            for t in tags:
                if t[0] == 'L':
                    if not any(w[0] == 'W' and (w[1] in t[1] or ('from', w[1]) in t[1]) for w in tags):
                        return 'appends a block and does not perform the change it records'
            return None
        v, n = together(ex, tag, okf, R=R)
        for l, m, tr in v:
            R.viol('lost:%s' % name, '%s %s' % (e, m), tr)
        R.ob('%s: every successful append is followed by the %s write' % (e, want))
        if ex.events('await'):
            for l in ex.events('await'):
                R.viol('await:%s' % name, '%s suspends at %s: a trap after it would keep the block and lose the change' % (e, where(l)))
    R.floor('successful appends', n0, 9)


def first_elem(l):
    """branch that holds only at position 0 of a loop"""
    if l[0] != 'p':
        return False
    a, v = l[1], l[2]
    z = lambda x: x.op == 'int' and x.a[0] == 0
    if a.op == 'lt' and z(a.a[0]) and a.a[1].op == 'idx' and v is False:
        return True
    if a.op == 'eq' and v is True and ((z(a.a[0]) and a.a[1].op == 'idx') or (z(a.a[1]) and a.a[0].op == 'idx')):
        return True
    return a.op == 'idx' and v == 0


def mint06(R, ex, e, ws):
    tok = [w for w in ws.values() if w.what == 'token']
    idx = [w for w in ws.values() if w.what == 'index']
    cnt = {w.l for w in ws.values() if w.what == 'counter'}
    # once a block is appended the call either traps or answers Ok with all the changes made

    def step(s, l):
        if log_ok(l):
            return (True, s[1])
        if first_elem(l) and not s[1]:
            return (False, s[1])    # the append that just failed was the first one
        if l in cnt:
            return (s[0], True)
        if l[0] == 'e' and l[1] == 'call' and ('msg_reply' in l[2] or 'msg_reject' in l[2]) and s[0]:
            if not reply_ok(l):
                return Viol('err', s)
            if not s[1]:
                return Viol('counter', s)
        return s
    v, n = search(ex.g, (False, False), step)
    R.states += n
    for m, l, tr in v:
        if m == 'err':
            R.viol('mint-err', 'mint can answer with an error at %s after appending a mint block' % where(l), tr)
        else:
            R.viol('mint-counter', 'mint can answer Ok at %s after appending a mint block without advancing the id counter' % where(l), tr)
    for grp, what in ((tok, 'storing the token'), (idx, 'listing the token under its owner')):
        ls = {w.l for w in grp}
        if not ls:
            R.viol('anchor:mint ' + what, 'mint: no write found for %s' % what)
            continue
        v = every_iteration(ex, lambda l: l in ls, R)
        for m, l, tr in v:
            R.viol('mint-skip:' + what, 'mint can answer Ok after appending blocks without %s for every request (%s)' % (what, m), tr)


# ------------------------------------------------------------------ C05
def eqopt(lits, v, x):
    """Option term v has the value of option-typed request field x under the branch literals"""
    for a in alts(v):
        if a is x or a is some(inner_some(x)) or a is some(mk('pay', x, 'Some', '0')):
            continue
        if a is NONE:
            if len(alts(v)) > 1 and any(b is not NONE for b in alts(v)):
                continue
            if any(at is x and val == 'None' for at, val in lits):
                continue
        if a.op == 'adt' and a.a[1] == 'Some' and a.a[3].op == 'phi' and all(b is mk('pay', x, 'Some', '0') or b is NOW for b in a.a[3].a):
            continue
        return False
    return True


def spec(name, lits, t, cc):
    """problem with the block t logged by method `name`, or None"""
    f = t.f
    g = lambda k: f.get(k, NONE)
    tid = g('tid')
    key = norm(tid.a[3]) if tid.op == 'adt' and tid.a[1] == 'Some' else None
    if t.ts is not NOW:
        return 'its timestamp is not the current time'

    def acct(v, sub, what):
        if v.op != 'adt' or v.a[1] != 'Some':
            return '%s is missing' % what
        a = v.a[3]
        if not cc.eq(proj(a, 'owner'), CALLER):
            return '%s is not an account of the caller' % what
        if sub is not None and not eqopt(lits, proj(a, 'subaccount'), sub):
            return '%s has another subaccount than the request' % what
        return None

    def cat(E, fld='created_at_time', opt_=True):
        v = g('created_at_time')
        if E is not None:
            x = proj(E, fld)
            if eqopt(lits, v, x) or v is some(x):
                return None
            if v.op == 'adt' and v.a[1] == 'Some':
                ys = alts(v.a[3])
                given = mk('pay', x, 'Some', '0')
                absent = any(at is x and val == 'None' for at, val in lits)
                if all(y is NOW or y is given for y in ys) and (given in ys or absent):
                    return None
        return 'its created_at_time is not the one of the request (or the current time if it has none)'

    def own():
        return None if g('created_at_time') in (some(NOW), NONE) else 'its created_at_time is not the current time'

    def memo(x):
        return None if eqopt(lits, g('memo'), x) else 'its memo is not the memo of the request'
    if name in ('icrc7_transfer', 'icrc37_transfer_from'):
        E = request_elem(key) if key is not None else None
        if E is None:
            return 'its token id is not that of the request'
        fr = g('from')
        if fr.op != 'adt' or fr.a[1] != 'Some' or not cc.eq(fr.a[3], cur_owner(key)):
            return 'its "from" is not the current owner'
        if g('to') is not some(proj(E, 'to')):
            return 'its "to" is not the recipient of the request'
        if name == 'icrc37_transfer_from':
            m = acct(g('spender'), proj(E, 'spender_subaccount'), 'its spender')
            if m:
                return m
        return memo(proj(E, 'memo')) or cat(E)
    if name == 'burn_nft':
        fr = g('from')
        if key is None or fr.op != 'adt' or fr.a[1] != 'Some' or not cc.eq(fr.a[3], cur_owner(key)):
            return 'its token id / "from" is not the burnt token and its owner'
        if g('to') is not NONE:
            return 'it names a recipient'
        return own()
    if name == 'mint':
        to = g('to')
        if to.op != 'adt' or to.a[1] != 'Some' or not (to.a[3].op == 'fld' and to.a[3].a[1] == 'token_owner'):
            return 'its "to" is not the owner named in the mint request'
        if key is None or not has_g(key, *LAST):
            return 'its token id is not a fresh id'
        if g('from') is not NONE:
            return 'it names a previous owner'
        return memo(proj(to.a[3].a[0], 'memo')) or own()
    if name == 'update_nft_metadata':
        if key is None or not (key.op == 'fld' and key.a[1] == 'token_id' and key.a[0].op == 'arg'):
            return 'its token id is not that of the request'
        return acct(g('from'), None, 'its author') or own()
    if name in ('icrc37_approve_tokens', 'icrc37_approve_collection'):
        sp = g('spender')
        if sp.op != 'adt' or sp.a[1] != 'Some' or not (sp.a[3].op == 'fld' and sp.a[3].a[1] == 'spender'):
            return 'its spender is not that of the request'
        info = sp.a[3].a[0]
        if name == 'icrc37_approve_tokens' and (key is None or request_elem(key) is not (info.a[0] if info.op == 'fld' else None)):
            return 'its token id is not that of the request'
        m = acct(g('from'), proj(info, 'from_subaccount'), 'its "from"')
        if m:
            return m
        if not eqopt(lits, g('exp'), proj(info, 'expires_at')):
            return 'its expiry is not that of the request'
        return memo(proj(info, 'memo')) or cat(info)
    if name in ('icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals'):
        E = request_elem(key) if key is not None else None
        if E is None:
            sp = g('spender')
            for s in subs(sp) | subs(g('from')) | subs(g('memo')):
                if s.op == 'elem' and s.a[0].op == 'arg':
                    E = s
        if E is None or (name == 'icrc37_revoke_token_approvals' and key is None):
            return 'its token id / spender are not those of the request'
        if not eqopt(lits, g('spender'), proj(E, 'spender')):
            return 'its spender is not that of the request'
        m = acct(g('from'), proj(E, 'from_subaccount'), 'its "from"')
        return m or memo(proj(E, 'memo')) or cat(E)
    return None


def c05(R):
    n0 = 0
    for e in exports_of():
        ex = export(e)
        R.use(ex)
        name = mname(e)
        logs = [l for l in ex.labels() if is_log(l)]
        if not logs:
            if name in METHODS:
                R.viol('anchor:' + name, '%s no longer appends a block' % e)
            continue
        if name not in METHODS:
            R.viol('extra:' + name, '%s appends a block at %s' % (e, where(logs[0])))
            continue
        bad = {}

        def entail(lits, l):
            cc = CC(lits)
            ts = txs(l)
            if not ts:
                bad[l] = 'the block content could not be identified'
                return False
            for t in ts:
                for x in (t.btype, t.f.get('op', NONE)):
                    if not (x.op == 'str' and x.a[0] == KINDS[name]):
                        bad[l] = 'its block type is %s instead of %s' % (show(x), KINDS[name])
                        return False
                m = spec(name, lits, t, cc)
                if m:
                    bad[l] = m
                    return False
            return True

        def rel(a):
            return (a.op == 'eq' and (CALLER in subs(a) or has_g(a, *TL))) or (a.op == 'fld' and a.a[1] in ('memo', 'created_at_time', 'expires_at', 'spender', 'from_subaccount', 'spender_subaccount'))
        v, ts, n = must_entail(ex, is_log, rel, entail, lambda l: '%s:%s' % (name, bad.get(l, '')), R=R)
        n0 += len(ts)
        for l, m, tr in v:
            R.viol('block:' + m, '%s appends a block at %s that misstates the change: %s' % (e, where(l), bad.get(l)), tr)
        R.ob('%s: %d block constructions match the change' % (e, len(ts)))
    from rules import meta           # the metadata a metadata update reports
    fx = export('canister_update.update_nft_metadata', flat=True)
    R.use(fx)
    key, src = proj(mk('arg', 0), 'token_id'), proj(mk('arg', 0), 'metadata')
    meta.full(R, fx, 'the block of update_nft_metadata', lambda s: s is src)
    meta.copies(R, fx, 'the block of update_nft_metadata', lambda s: has_g(s, 'METADATA'))
    meta.block(R, fx, 'canister_update.update_nft_metadata', key, src)
    R.floor('block constructions', n0, 12)
