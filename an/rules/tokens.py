"""C02 ownership, C03 approvals, C07 fresh ids, C08 owner index, C09 approvals cleared."""
from rl import *

TL = ('data', 'tokens_list')
BO = ('data', 'tokens_list_by_owner')


class OW:
    """a write to the token table"""
    __slots__ = ('l', 'key', 'new', 'kind')


def cur_owner(key):
    return D('tokens_list', norm(key), 'token_owner')


def token_writes(ex):
    out = []
    for l in touches(ex, *TL):
        t = touch(l)
        w = OW()
        w.l, w.key, w.new, w.kind = l, norm(t.key) if t.key is not None else None, None, None
        if w.key is None or len(t.path) > 3 and t.path[3] != 'token_owner':
            if len(t.path) > 3:
                w.kind = 'field'
            else:
                w.kind = 'bulk'
        elif len(t.path) == 2 and t.how == 'insert':
            w.new = norm(proj(t.vals[1], 'token_owner'))
            w.kind = 'same' if w.new is cur_owner(w.key) else 'owner'
            if norm(proj(t.vals[1], 'token_id')) is not w.key:
                w.kind = 'badkey'
        elif len(t.path) == 2 and t.how in ('remove', 'remove_entry'):
            w.kind = 'remove'
        elif t.how in ('or_insert', 'get_mut'):
            w.new = norm(proj(t.vals[0], 'token_owner')) if t.vals else None
            w.kind = 'owner'
        elif len(t.path) == 3 and t.how == 'set':
            w.new = norm(proj(t.vals[0], 'token_owner'))
            w.kind = 'same' if w.new is cur_owner(w.key) else 'owner'
        elif len(t.path) >= 4 and t.how == 'set':
            if len(t.path) == 4:
                w.new = norm(t.vals[0])
                w.kind = 'owner'
            else:
                w.kind = 'part'
        else:
            w.kind = 'bulk'
        out.append(w)
    return out


def rel_owner(a):
    if a.op not in ('eq', 'opt', 'lt', 'app', 'g', 'pay'):
        return False
    return a.op in ('eq',) and (CALLER in subs(a) or has_g(a, *TL)) or has_g(a, 'TOKEN_APPROVALS') or has_g(a, 'COLLECTION_APPROVALS')


def is_account(lits, cc, acct, sub):
    """acct is the account of the caller with the subaccount the request gives in field `sub`"""
    from rules.log import eqopt
    return cc.eq(proj(acct, 'owner'), CALLER) and any(eqopt(lits, f, sub) for f in cc.forms(norm(proj(acct, 'subaccount'))))


def approval_ok(lits, cc, key, cur):
    """literals prove an unexpired approval of the caller for the token (or for the collection of its current owner)"""
    for a, v in lits:
        if a.op == 'opt' and v == 'Some' or (a.op == 'app' and a.a[0] in ('contains', 'contains_key') and v is True):
            if a.op == 'opt':
                x = a.a[0]
                if x.op not in ('g', 'gref'):
                    continue
                p = spath(x)
            else:
                b, k = a.a[1], a.a[2]
                if b.op not in ('g', 'gref'):
                    continue
                p = spath(b) + (mk('k', k),)
            if len(p) != 4 or p[2] != '0' or not isinstance(p[1], V) or not isinstance(p[3], V):
                continue
            k1, sp = unwrap(p[1].a[0]), unwrap(p[3].a[0])
            if p[0] == 'TOKEN_APPROVALS':
                if not cc.eq(k1, key):
                    continue
            elif p[0] == 'COLLECTION_APPROVALS':
                if not cc.eq(k1, cur):
                    continue
            else:
                continue
            E = request_elem(key)
            if E is None or not is_account(lits, cc, sp, proj(E, 'spender_subaccount')):
                continue
            full = x.a if a.op == 'opt' else b.a + (mk('k', a.a[2]),)
            exp = mk('g', *full, 'expires_at')
            if unexpired(lits, exp):
                return True
    return False


def unexpired(lits, exp):
    val = mk('g', *exp.a, 'Some', '0')
    for a, v in lits:
        if v == 'None' and a.op in ('g', 'opt') and (a is exp or a.a[0] is exp):
            return True
        if a.op == 'lt' and v is True and a.a[0] is NOW and a.a[1] is val:
            return True
    return False


def expired(lits, full):
    """full: g path tuple of the approval"""
    val = mk('g', *full, 'expires_at', 'Some', '0')
    for a, v in lits:
        if a.op == 'lt' and a.a[0] is NOW and a.a[1] is val and v is False:
            return True
        if a.op == 'lt' and a.a[1] is NOW and a.a[0] is val and v is True:
            return True
    return False


def request_elem(key):
    """the request element a token id comes from: elem.token_id -> elem"""
    if key.op == 'fld' and key.a[1] == 'token_id':
        return key.a[0]
    return None


def c02(R):
    moved = removed = fresh = 0
    for e in exports_of():
        ex = export(e)
        R.use(ex)
        name = mname(e)
        if e in ('canister_init', 'canister_post_upgrade', 'canister_pre_upgrade') or e.startswith('canister_query'):
            for w in token_writes(ex):
                R.viol('write:%s:%s' % (name, short(w.l)), '%s changes the token table at %s' % (e, where(w.l)))
            continue
        ws = {w.l: w for w in token_writes(ex)}
        for l, w in ws.items():
            if w.kind in ('bulk', 'field', 'part', 'badkey'):
                R.viol('bulk:%s:%s' % (name, short(l)), '%s changes the token table in a way that is not a keyed insert / remove of one token (%s at %s)' % (e, w.kind, where(l)))
        tg = {l: w for l, w in ws.items() if w.kind in ('owner', 'remove')}
        if not tg:
            continue
        if name == 'mint':
            # new ids only: C07
            for l, w in tg.items():
                if w.kind == 'remove' or not has_g(w.key, 'data', 'last_token_id'):
                    R.viol('mint-key:' + short(l), 'mint writes the token entry of %s at %s, which is not a fresh id' % (clip(show(w.key)), where(l)))
                fresh += 1
            continue

        def entail(lits, l):
            w = tg[l]
            cc = CC(lits)
            cur = cur_owner(w.key)
            if name == 'icrc37_transfer_from':
                E = request_elem(w.key)
                if E is not None and is_account(lits, cc, cur, proj(E, 'spender_subaccount')):
                    return True
            elif cc.eq(proj(cur, 'owner'), CALLER):
                return True
            if w.kind == 'owner' and name == 'icrc37_transfer_from':
                return approval_ok(lits, cc, w.key, cur)
            return False
        v, ts, n = must_entail(ex, lambda l: l in tg, lambda a: rel_owner(a) or (a.op == 'fld' and a.a[1] == 'spender_subaccount'), entail, lambda l: '%s %s' % (name, short(l)), R=R)
        for l, m, tr in v:
            R.viol('unauthorised:' + m, '%s reaches the owner change at %s on a path where the caller is neither the current owner%s' % (e, where(l), ' nor holder of an unexpired approval for the token or from its current owner' if name == 'icrc37_transfer_from' else ''), tr)
        # provenance of the new owner and of the account named in the request
        for l, w in tg.items():
            if w.kind == 'remove':
                removed += 1
                continue
            moved += 1
            E = request_elem(w.key)
            if E is None or w.new is not proj(E, 'to'):
                R.viol('recipient:%s' % name, '%s at %s gives token %s to %s, not to the recipient of the same request' % (e, where(l), clip(show(w.key)), clip(show(w.new))))
        if name == 'icrc37_transfer_from':
            def ent2(lits, l):
                w = tg[l]
                E = request_elem(w.key)
                return E is not None and CC(lits).eq(proj(E, 'from'), cur_owner(w.key))
            v, ts, n = must_entail(ex, lambda l: l in tg, lambda a: a.op == 'eq' and has_g(a, *TL), ent2, lambda l: 'from %s' % short(l), R=R)
            for l, m, tr in v:
                R.viol(m, '%s moves a token at %s without the "from" account of the request being its current owner' % (e, where(l)), tr)
    R.floor('owner changes by transfer', moved, 2)
    R.floor('token removals', removed, 1)
    R.floor('token creations', fresh, 1)
    R.ob('%d transfer writes, %d removals, %d creations of token entries checked on every path' % (moved, removed, fresh))


# ------------------------------------------------------------------ C03
class AW:
    """write to an approval table"""
    __slots__ = ('l', 'tab', 'key', 'added', 'removed', 'bases', 'kind')


def approval_writes(ex):
    out = []
    for tab in ('TOKEN_APPROVALS', 'COLLECTION_APPROVALS'):
        for l in touches(ex, tab):
            t = touch(l)
            w = AW()
            w.l, w.tab, w.key, w.added, w.removed, w.bases, w.kind = l, tab, t.key, [], [], [], 'bulk'
            if t.key is not None and len(t.path) == 1 and t.how in ('remove',):
                w.kind = 'drop'
            elif t.key is not None and len(t.path) == 1 and t.how == 'insert':
                w.kind = 'put'
                for x in alts(proj(t.vals[1], '0') if t.vals[1].op != 'adt' else t.vals[1].a[3]):
                    m = x
                    if m.op == 'map':
                        w.bases += alts(m.a[0])
                        w.added += [tuple(en.a) for en in m.a[1].a]
                        w.removed += list(m.a[2].a)
                    else:
                        w.bases += [m]
            if w.key is not None:
                w.key = norm(w.key)
            out.append(w)
    return out


def empty_base(b):
    return b.op == 'empty' or (b.op == 'map' and empty_base(b.a[0]) and not b.a[1].a and not b.a[2].a)


def own_base(b, w):
    """b is the value stored under the written key"""
    p = spath(b) if b.op in ('g', 'gref') else None
    return p is not None and len(p) == 3 and p[0] == w.tab and isinstance(p[1], V) and norm(unwrap(p[1].a[0])) is w.key and p[2] == '0'


def request_of(w):
    """the request a change of a collection approval belongs to"""
    es = {s for x in [w.key] + [y for en in w.added for y in en] + list(w.removed) for s in subs(x) if s.op == 'elem' and s.a[0].op == 'arg'}
    return es.pop() if len(es) == 1 else None


def c03(R):
    granted = revoked = dropped = 0
    for e in exports_of():
        ex = export(e)
        R.use(ex)
        name = mname(e)
        ws = {w.l: w for w in approval_writes(ex)}
        if not ws:
            continue
        if not e.startswith('canister_update.'):
            for l in ws:
                R.viol('write:%s' % name, '%s changes approvals at %s' % (e, where(l)))
            continue
        moves = {w.key: w for w in token_writes(ex) if w.kind in ('owner', 'remove')}

        def tag_moves(l):
            return None

        def entail(lits, l):
            w = ws[l]
            cc = CC(lits)
            if w.kind == 'bulk':
                return False
            cur = cur_owner(w.key) if w.tab == 'TOKEN_APPROVALS' else None
            owner = proj(cur, 'owner') if cur is not None else proj(w.key, 'owner')
            if cc.eq(owner, CALLER) and (name.startswith('icrc37_approve') or name.startswith('icrc37_revoke')):
                return good_change(lits, cc, w, cur if cur is not None else w.key)
            if w.added:
                return False
            # house keeping by a transfer or burn
            if w.tab == 'TOKEN_APPROVALS' and w.kind == 'drop' and w.key in moves:
                return True         # the token changes hands: C09 pairs the two
            if w.kind == 'put':
                full = None
                for r in w.removed:
                    for b in w.bases:
                        if own_base(b, w) and expired(lits, b.a + (mk('k', r),)):
                            full = True
                        else:
                            return False
                return bool(full)
            if w.tab == 'COLLECTION_APPROVALS' and w.kind == 'drop':
                for a, v in lits:
                    # last approval of the table expired, or the account owns nothing any more
                    if a.op == 'eq' and v is True and any(x.op == 'int' and x.a[0] == 0 for x in a.a):
                        z = [x for x in a.a if x.op == 'len']
                        if z and z[0].a[0].op == 'map':
                            m = z[0].a[0]
                            if own_base(m.a[0], w) and not m.a[1].a and m.a[2].a and all(expired(lits, m.a[0].a + (mk('k', r),)) for r in m.a[2].a):
                                return True
                        if z and owned_list(z[0].a[0], w.key, cc):
                            return True
                    if a.op == 'app' and a.a[0] == 'is_empty' and v is True and owned_list(a.a[1], w.key, cc):
                        return True
                    if a.op == 'opt' and v == 'None' and owned_list(a.a[0], w.key, cc):
                        return True
            return False

        def good_change(lits, cc, w, acct):
            E = request_elem(w.key) or request_of(w)
            if E is None:
                return False
            if not is_account(lits, cc, acct, proj(proj(E, 'approval_info') if name.startswith('icrc37_approve') else E, 'from_subaccount')):
                return False
            if w.kind == 'drop':
                return name.startswith('icrc37_revoke') and all_spenders(lits)
            for b in w.bases:
                if own_base(b, w):
                    continue
                if empty_base(b) and len(w.bases) == 1:
                    if name.startswith('icrc37_revoke'):
                        if not all_spenders(lits):
                            return False
                    elif not nothing_stored(lits, w):
                        return False
                    continue
                if empty_base(b):
                    continue
                return False
            if name.startswith('icrc37_approve'):
                if w.removed or not w.added:
                    return False
                for en in w.added:
                    if len(en) != 2:
                        return False
                    k, v = unwrap(en[0]), en[1]
                    sp = unwrap(proj(v, 'spender'))
                    if not (k.op == 'fld' and k.a[1] == 'spender') or sp is not k:
                        return False
                    info = k.a[0]
                    if proj(v, 'expires_at') is not proj(info, 'expires_at'):
                        return False
                    if info is not proj(E, 'approval_info') or not is_account(lits, cc, unwrap(proj(v, 'from')), proj(info, 'from_subaccount')):
                        return False
                    if w.tab == 'TOKEN_APPROVALS' and request_elem(w.key) is not (info.a[0] if info.op == 'fld' else None):
                        return False
                return True
            if w.added:
                return False
            for r in w.removed:
                r = unwrap(r)
                if not (r.op == 'pay' and r.a[1] == 'Some' and r.a[0].op == 'fld' and r.a[0].a[1] == 'spender'):
                    return False
            return True

        def all_spenders(lits):
            return any(a.op == 'fld' and a.a[1] == 'spender' and v == 'None' for a, v in lits)

        def nothing_stored(lits, w):
            for a, v in lits:
                if a.op == 'opt' and v == 'None' and a.a[0].op in ('g', 'gref'):
                    p = spath(a.a[0])
                    if len(p) == 2 and p[0] == w.tab and isinstance(p[1], V) and norm(unwrap(p[1].a[0])) is w.key:
                        return True
                if a.op == 'app' and a.a[0] in ('contains', 'contains_key') and v is False and a.a[1].op in ('g', 'gref') and spath(a.a[1]) == (w.tab,):
                    if norm(unwrap(a.a[2])) is w.key:
                        return True
            return False

        def rel(a):
            return rel_owner(a) or (a.op == 'fld' and a.a[1] in ('spender', 'from_subaccount')) or (a.op in ('eq', 'app', 'opt') and has_g(a, *BO))
        v, ts, n = must_entail(ex, lambda l: l in ws, rel, entail, lambda l: '%s %s' % (name, short(l)), R=R,
                               keep=(lambda a: a.op == 'lt' and NOW in a.a) if not name.startswith('icrc37_approve') else None)
        for l, w in ws.items():
            if w.kind == 'drop':
                dropped += 1
            elif w.added:
                granted += 1
            else:
                revoked += 1
        for l, m, tr in v:
            w = ws[l]
            what = 'grants' if w.added else 'removes'
            R.viol('approval:' + m, '%s %s approvals (%s[%s]) at %s on a path that does not show it to be the request of the owning account%s' % (e, what, w.tab, clip(show(w.key)) if w.key is not None else '*', where(l), '' if w.added else ', an expired entry, or the end of the ownership'), tr)
    R.floor('approval grants', granted, 2)
    R.floor('approval removals', revoked, 2)
    R.floor('approval table drops', dropped, 2)


def owned_list(x, acct, cc):
    p = spath(x) if x.op in ('g', 'gref') else None
    return p is not None and p[:2] == BO and len(p) == 3 and isinstance(p[2], V) and cc.eq(p[2].a[0], acct)


# ------------------------------------------------------------------ C08 / C09
def c08(R):
    starts_empty(R, 'tokens_list', 'a token table')
    starts_empty(R, 'tokens_list_by_owner', 'an owner index')
    pairs = 0
    for e in exports_of(kinds=('canister_update.',)):
        ex = export(e)
        R.use(ex)
        name = mname(e)
        tw = {w.l: w for w in token_writes(ex)}
        bw = touches(ex, *BO)
        for l, w in tw.items():
            if w.kind in ('bulk', 'part', 'field', 'badkey'):
                R.viol('%s:%s:%s' % (w.kind, name, short(l)), '%s writes the token table at %s %s' % (e, where(l), 'under a key that is not the id of the stored token' if w.kind == 'badkey' else 'in bulk'))
        if not bw and not any(w.kind in ('owner', 'remove') for w in tw.values()):
            continue
        new = name == 'mint'
        memo, scans, lists = {}, {}, {l[2] for l in bw if len(touch(l).path) == 3}
        for path in lists:
            for x, locs in scanned(ex, path, R).items():
                for loc in locs:
                    scans.setdefault(loc, set()).add((x, path))

        def kept_but(l):
            if l not in memo:
                memo[l] = sieve(ex, l, R)
            return memo[l]

        def holder(path):
            return norm(unwrap(path[-1].a[0]))

        def tag(l):
            if l in tw:
                w = tw[l]
                if w.kind == 'owner':
                    return ('T', w.key, w.new)
                if w.kind == 'remove':
                    return ('T', w.key, NONE)
                return None
            if l[0] == 'p':
                if l[2] == 'None' and l[1].op == 'opt' and l[1].a[0].op in ('g', 'gref'):
                    p = spath(l[1].a[0])
                    if p[:2] == BO and len(p) == 3:
                        return ('N', norm(p[2].a[0]))
                if l[2] is True and l[1].op == 'eq':
                    for a, b in (l[1].a, l[1].a[::-1]):
                        if elem_home(a) in lists:
                            return ('Q', norm(b), holder(elem_home(a)))
                return None
            if l[0] == 'e' and l[1] == 'iter_end' and (l[2], l[-1]) in scans:
                return tuple(('E', x, holder(path)) for x, path in scans[(l[2], l[-1])])[0]
            t = touch(l)
            if t and t.path[:2] == BO:
                if t.how in ('or_insert', 'get_mut'):
                    return None
                if t.how in ('push', 'insert') and len(t.path) == 3:
                    return ('P', norm(t.vals[-1]), norm(t.key))
                if t.how in ('retain', 'set') and len(t.path) == 3:
                    x = kept_but(l)
                    return ('R', norm(x), norm(t.key)) if x is not None else ('X', short(l), t.key)
                if t.how in ('remove', 'swap_remove') and len(t.path) == 3 and t.vals and t.vals[0].op == 'idx' and same_place(t.vals[0].a[0], l[2]):
                    return ('I', short(l), norm(t.key))
                if t.how in ('remove', 'swap_remove') and len(t.path) == 3:
                    return ('X', short(l), t.key)
                if len(t.path) == 2 and t.how == 'remove':
                    return None if emptied(ex, l) else ('X', short(l), t.key)
                return ('X', short(l), UNIT)
            return None

        def okf(tags):
            T = [t for t in tags if t[0] == 'T']
            P = [t for t in tags if t[0] == 'P']
            Rm = [t for t in tags if t[0] == 'R']
            X = [t for t in tags if t[0] == 'X']
            N = [t for t in tags if t[0] == 'N']
            Qs = [t for t in tags if t[0] == 'Q']
            Es = [t for t in tags if t[0] == 'E']
            if X:
                return 'changes the owner index in an unrecognised way (%s)' % X[0][1]
            for t in tags:
                if t[0] == 'I':
                    # an account lists a token once: removing the place where it was found unlists it
                    f = [x for x in Qs if x[2] is t[2]]
                    if not f:
                        return 'changes the owner index in an unrecognised way (%s)' % t[1]
                    Rm.append(('R', f[0][1], t[2]))
            for t in T:
                key, nw = t[1], t[2]
                if nw is not NONE and not any(p[1] is key and p[2] is nw for p in P):
                    return 'gives token %s to %s without listing it under that account' % (clip(show(key)), clip(show(nw)))
                if not new:
                    cur = cur_owner(key)
                    if not any(r[1] is key and r[2] is cur for r in Rm) and not any(x[1] is cur for x in N) and not any(x[1] is key and x[2] is cur for x in Es):
                        return 'takes token %s from its owner without unlisting it there' % clip(show(key))
            for p in P:
                if not any(t[1] is p[1] and t[2] is p[2] for t in T):
                    return 'lists token %s under %s without making that account the owner' % (clip(show(p[1])), clip(show(p[2])))
            for r in Rm:
                if not any(t[1] is r[1] and r[2] is cur_owner(t[1]) for t in T):
                    return 'unlists token %s from %s without an owner change' % (clip(show(r[1])), clip(show(r[2])))
            return None
        v, n = together(ex, tag, okf, R=R)
        pairs += len([1 for w in tw.values() if w.kind in ('owner', 'remove')])
        for l, m, tr in v:
            R.viol('index:%s:%s' % (name, m[:60]), '%s %s' % (e, m), tr)
        def once(s, l):
            if l[0] == 'e' and l[1] == 'iter_next':
                # fresh ids are numbered by C07
                return frozenset() if new else frozenset(x for x in s if not any(y.op in ('elem', 'idx') for y in subs(x[1])))
            t = tag(l)
            if t and t[0] == 'P':
                return Viol('twice', s) if t in s else s | {t}
            return s
        v, k = search(ex.g, frozenset(), once)
        R.states += k
        for m, l, tr in v:
            R.viol('twice:%s' % name, '%s lists the token twice under its owner (%s)' % (e, where(l)), tr)
        # listing before unlisting needs the two accounts to differ
        adds = [tag(l) for l in bw if tag(l) and tag(l)[0] == 'P']
        rems = {l: tag(l) for l in bw if tag(l) and tag(l)[0] == 'R'}
        if adds and rems:
            def tg(l):
                if l[0] == 'p' and l[1].op == 'eq' and l[2] is False:
                    return ('neq', norm(l[1].a[0]), norm(l[1].a[1]))
                if l[0] == 'p' and l[1].op == 'eq' and l[2] is True and (has_g(l[1], *TL)):
                    return ('eq', norm(l[1].a[0]), norm(l[1].a[1]))
                t = tag(l)
                return t if t and t[0] == 'P' else None

            def need(s, l):
                r = rems[l]
                for t in s:
                    if t[0] == 'P' and t[1] is r[1]:
                        cc = CC([(mk('eq', x[1], x[2]), True) for x in s if x[0] == 'eq'])
                        if not any(x[0] == 'neq' and ((cc.eq(x[1], t[2]) and cc.eq(x[2], r[2])) or (cc.eq(x[2], t[2]) and cc.eq(x[1], r[2]))) for x in s):
                            return False
                return True
            v, ts, n = dominated(ex, lambda l: l in rems, tg, need, lambda l: 'self %s' % name, R=R)
            for l, m, tr in v:
                R.viol(m, '%s: a transfer to the current owner would list the token and then unlist it (%s)' % (e, where(l)), tr)
    R.floor('owner changes paired with the owner index', pairs, 4)


def emptied(ex, l):
    return False


def c09(R):
    n0 = 0
    for e in exports_of(kinds=('canister_update.',)):
        ex = export(e)
        name = mname(e)
        if name == 'mint':
            continue        # ids are fresh (C07): nothing can be approved for them
        tw = {w.l: w for w in token_writes(ex) if w.kind in ('owner', 'remove')}
        if not tw:
            continue
        R.use(ex)
        aw = {w.l: w for w in approval_writes(ex) if w.tab == 'TOKEN_APPROVALS'}

        def tag(l):
            if l in tw:
                return ('T', tw[l].key)
            if l in aw:
                w = aw[l]
                if w.kind == 'drop' or (w.kind == 'put' and w.bases and all(empty_base(b) for b in w.bases) and not w.added):
                    return ('C', w.key)
                return ('P', w.key)
            return None

        def upd(s, t):
            # what is stored after the drop survives it
            if t[0] == 'P':
                s = s - {('C', t[1])}
            return s | {t}

        def okf(tags):
            for t in tags:
                if t[0] == 'T' and ('C', t[1]) not in tags:
                    return 'changes the owner of %s and keeps its approvals' % clip(show(t[1]))
            return None
        v, n = together(ex, tag, okf, R=R, upd=upd)
        n0 += len(tw)
        for l, m, tr in v:
            R.viol('stale:%s' % name, '%s %s' % (e, m), tr)
    R.floor('owner changes that must clear approvals', n0, 3)


# ------------------------------------------------------------------ C07
LAST = ('data', 'last_token_id')


def at_install(field):
    """the values a field of the collection's data can have right after install, with the place"""
    ex = export('canister_init')
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'gw' and l[3] == 'set' and gwp(l) in (('__STATE',), ('STATE',)):
            for st in alts(inner_some(l[4][0])):
                for v in alts(proj(proj(st, 'data'), field)):
                    yield v, l


def starts_empty(R, field, what):
    k = 0
    for v, l in at_install(field):
        k += 1
        if not (v.op == 'map' and v.a[0].op == 'empty' and not v.a[1].a or v.op in ('bag', 'arr') and not v.a or v.op == 'default' or v.op == 'empty'):
            R.viol('install:' + field, 'canister_init at %s starts with %s %s' % (where(l), what, clip(show(v))))
    R.floor('initial values of ' + field, k, 1)


def c07(R):
    starts_empty(R, 'tokens_list', 'a token table')
    for v, l in at_install('last_token_id'):
        R.add('initial id counters')
        if not (v.op == 'int' and v.a[0] >= 1):
            R.viol('install:counter', 'canister_init at %s starts the id counter at %s: 0 denotes the collection' % (where(l), clip(show(v))))
    fresh = 0
    for e in exports_of(kinds=('canister_update.', 'canister_query.', 'canister_init', 'canister_post_upgrade')):
        ex = export(e)
        R.use(ex)
        name = mname(e)
        lw = touches(ex, *LAST)
        tw = [w for w in token_writes(ex) if w.kind == 'owner']
        if name != 'mint':
            for l in lw:
                R.viol('last:%s' % name, '%s writes the id counter at %s' % (e, where(l)))
            continue
        last = D('last_token_id')
        seqs = set()
        for w in tw:
            fresh += 1
            k = w.key
            s = None
            if k.op == 'app' and k.a[0] == 'add' and last in k.a[1:]:
                i = [x for x in k.a[1:] if x is not last]
                if len(i) == 1:
                    s = counted(i[0])
            if s is None:
                R.viol('id', 'mint stores a token at %s under id %s, which is not the id counter plus the position in the batch' % (where(w.l), clip(show(k))))
            else:
                seqs.add(s)
        for l in lw:
            t = touch(l)
            v = t.vals[0] if t.vals else None
            good = t.how == 'set' and v is not None and v.op == 'app' and v.a[0] == 'add' and last in v.a[1:]
            if good:
                i = [x for x in v.a[1:] if x is not last]
                good = len(i) == 1 and i[0].op == 'len' and i[0].a[0] in seqs
            if not good:
                R.viol('counter', 'mint sets the id counter at %s to %s: not the old value plus the number of tokens minted' % (where(l), clip(show(v)) if v is not None else t.how))
        # counter and entries move together
        lws, tws = set(lw), {w.l for w in tw}
        v, n = together(ex, lambda l: 'L' if l in lws else ('T' if l in tws else None),
                        lambda tags: 'stores tokens and leaves the id counter' if tags == {'T'} else None, R=R)
        for l, m, tr in v:
            R.viol('counter-skip', '%s %s' % (e, m), tr)
        # one advance per call
        def step(s, l):
            if l in lws:
                return Viol('twice', s) if s else True
            return s
        v, n = search(ex.g, False, step)
        R.states += n
        for m, l, tr in v:
            R.viol('counter-twice', 'mint can advance the id counter twice in one call (%s)' % where(l), tr)
        # the entry is stored after the counter was read and no await separates them
        if ex.events('await'):
            R.viol('await', 'mint suspends at %s between choosing ids and storing them' % where(ex.events('await')[0]))
        # supply cap
        def cap_tag(l):
            if l[0] == 'p':
                a, v = l[1], l[2]
                while a.op == 'not' and isinstance(v, bool):
                    a, v = a.a[0], not v
                if a.op == 'lt' and v is False and cap_term(a.a[0]) and count_after(a.a[1], seqs):
                    return 'cap'
            return None
        eff = lambda l: l in tws or is_log(l)
        v, ts, n = dominated(ex, eff, cap_tag, lambda s, l: 'cap' in s, lambda l: 'cap %s' % short(l), R=R, awaits=True)
        R.add('effects behind the supply cap', len(ts))
        for l, m, tr in v:
            R.viol(m, '%s reaches %s at %s without having checked the supply cap for the whole batch' % (e, short(l), where(l)), tr)
    R.floor('token creations', fresh, 1)


def counted(i):
    """i enumerates a sequence -> that sequence"""
    if i.op == 'idx':
        s = i.a[0]
        return s
    if i.op == 'elem' and i.a[0].op in ('range', 'app'):
        for x in subs(i.a[0]):
            if x.op == 'len':
                return x.a[0]
    return None


def cap_term(v):
    return all(x.op == 'int' and x.a[0] == 10000 or has_g(x, 'data', 'supply_cap') for x in alts(v)) and True


def count_after(v, seqs):
    """len(tokens) + len(batch)"""
    return v.op == 'app' and v.a[0] == 'add' and any(x.op == 'len' and x.a[0].op in ('g', 'gref') and spath(x.a[0]) == TL for x in v.a[1:]) and \
        any(x.op == 'len' and x.a[0] in seqs for x in v.a[1:])


# ------------------------------------------------------------------ C43
def c43(R):
    """the anonymous principal receives neither tokens nor approvals"""
    n = m_ = 0
    for e in exports_of():
        name = mname(e)
        if not e.startswith('canister_update.') or name == 'mint':
            continue
        ex = export(e)
        tg = {}
        for w in approval_writes(ex):
            if w.added:
                tg[w.l] = [(unwrap(en[0]), 'spender') for en in w.added]
                m_ += 1
        for w in token_writes(ex):
            if w.kind == 'owner' and w.new is not None and w.new is not NONE:
                tg[w.l] = [(x, 'recipient') for x in alts(w.new)]
                n += 1
        if not tg:
            continue
        R.use(ex)

        def entail(lits, l):
            cc = CC(lits)
            for x, _ in tg[l]:
                o = norm(proj(x, 'owner'))
                if not any(a.op == 'eq' and v is False and any(y.op == 'anon' and cc.eq(norm(z), o) for y, z in (a.a, a.a[::-1])) for a, v in lits):
                    return False
            return True
        v, ts, k = must_entail(ex, lambda l: l in tg, lambda a: a.op == 'eq' and any(x.op == 'anon' for x in a.a), entail, lambda l: '%s %s' % (name, short(l)), R=R)
        for l, m, tr in v:
            R.viol('anonymous:' + m, '%s reaches %s without refusing the anonymous principal as %s' % (e, where(l), tg[l][0][1]), tr)
    R.floor('transfers', n, 2)
    R.floor('approvals granted', m_, 2)
    R.ob('%d transfers and %d approvals checked for the anonymous principal' % (n, m_))
