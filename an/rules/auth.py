"""C01 management authorization, C10 management mutual exclusion, C30 permission map."""
from rl import *

PERM = 'Permission'
GUARDED = {
    'canister_update.update_collection_metadata': 'UpdateCollectionMetadata',
    'canister_update.mint': 'Minting',
    'canister_update.update_nft_metadata': 'UpdateMetadata',
    'canister_update.init_upload': 'UpdateUploads',
    'canister_update.store_chunk': 'UpdateUploads',
    'canister_update.finalize_upload': 'UpdateUploads',
    'canister_update.cancel_upload': 'UpdateUploads',
    'canister_update.grant_permission': 'ManageAuthorities',
    'canister_update.revoke_permission': 'ManageAuthorities',
    'canister_query.get_user_permissions': 'ManageAuthorities',
    'canister_query.has_permission': 'ManageAuthorities',
    'canister_query.get_all_storage_subcanisters': 'ManageAuthorities',
    'canister_query.get_upload_status': 'ReadUploads',
    'canister_query.get_all_uploads': 'ReadUploads',
}
HOLDER = {   # authorised by token ownership / approval, properties C02 and C03
    'canister_update.icrc7_transfer', 'canister_update.icrc37_transfer_from', 'canister_update.icrc37_approve_tokens',
    'canister_update.icrc37_approve_collection', 'canister_update.icrc37_revoke_token_approvals',
    'canister_update.icrc37_revoke_collection_approvals', 'canister_update.burn_nft',
}


def is_perm_list(v, who=CALLER):
    """the permission list of `who`"""
    for x in alts(v):
        p = spath(x) if x.op in ('g', 'gref') else None
        if p is None or not pat(p, 'data', 'permissions', 'user_permissions', who):
            return False
    return True


def perm_const(v):
    return v.op == 'adt' and v.a[0].split('::')[-1] == PERM


def perm_literal(a, val):
    """permission variant that the decided atom proves the caller to hold, or None"""
    while a.op == 'not' and isinstance(val, bool):
        a, val = a.a[0], not val
    if val is True:
        if a.op == 'app' and a.a[0] == 'contains' and is_perm_list(a.a[1]) and perm_const(a.a[2]):
            return a.a[2].a[1]
        if a.op == 'eq':
            for x, y in (a.a, a.a[::-1]):
                if perm_const(y) and caller_elem(x):
                    return y.a[1]
    elif isinstance(val, str):
        if caller_elem(a):
            return val
    return None


def caller_elem(v):
    if v.op == 'elem' and is_perm_list(v.a[0]):
        return True
    if v.op == 'g':
        p = spath(v)
        return len(p) == 5 and pat(p[:4], 'data', 'permissions', 'user_permissions', CALLER)
    return v.op == 'at' and is_perm_list(v.a[0])


def sensitive(l):
    """an effect that only an authorised caller may cause"""
    if l[0] != 'e':
        return False
    if l[1] == 'gw':
        return gwp(l) is None or gwp(l)[0] not in BOOKKEEPING
    if l[1] == 'await':
        return True
    if l[1] == 'call' and 'msg_reply' in l[2]:
        return any(reads_state(x) or any(s.op in ('ret',) and not s.a[0].startswith('candid') for s in subs(x)) for x in l[3] if isinstance(x, V))
    return False


def c01(R):
    p = prog()
    exports = [e for e in p.exports if e.startswith('canister_update.') or e.startswith('canister_query.')]
    upd = [e for e in exports if e.startswith('canister_update.')]
    R.floor('exported update methods', len(upd), 16)
    for e, want in sorted(GUARDED.items()):
        ex = export(e)
        R.use(ex)
        # once proved, the permission holds for the rest of the message
        seen = set()

        def step(s, l):
            if sensitive(l) or reply_ok(l):
                seen.add(l)
                if s is not True:
                    return Viol('%s %s' % (e.split('.')[1], short(l)), s)
            if l[0] == 'p' and s is not True:
                got = perm_literal(l[1], l[2])
                if got == want:
                    return True
                if got is not None and s is False:
                    return got
            return s
        v, n = search(ex.g, False, step)
        R.states += n
        R.add('guarded methods')
        R.add('effects proved to need the permission', len(seen))
        if not seen:
            R.viol('anchor:' + e, '%s: no effect or reply found to guard' % e)
        R.ob('%s: %d effects/replies behind Permission::%s of the caller' % (e, len(seen), want))
        for m, l, tr in v:
            R.viol('unauthorised:' + m, '%s reaches %s at %s without a check that the caller holds Permission::%s' % (e, short(l), where(l), want), tr)
    # any other update method must not touch state without being in the token-holder family
    for e in upd:
        if e in GUARDED or e in HOLDER:
            continue
        ex = export(e)
        R.use(ex)

        def step2(s, l):
            if sensitive(l) and not s:
                return Viol('%s %s' % (e, short(l)), s)
            if l[0] == 'p' and perm_literal(l[1], l[2]):
                return True
            return s
        v, n = search(ex.g, False, step2)
        R.states += n
        for m, l, tr in v:
            R.viol('unguarded-method:' + m, 'update method %s performs %s at %s and is in neither the permission table nor the token-holder family' % (e, short(l), where(l)), tr)


def c30(R):
    """permission map: written only by grant / revoke (and creation), and only with the arguments"""
    p = prog()
    n = 0
    for e in sorted(p.exports):
        ex = export(e)
        R.use(ex)
        name = e.split('.')[-1]
        ws = touches(ex, 'data', 'permissions')
        for l in ws:
            n += 1
            t = touch(l)
            if name not in ('grant_permission', 'revoke_permission'):
                R.viol('perm-write:%s:%s' % (name, t.how), '%s writes the permission map at %s' % (e, where(l)))
                continue
            bad = None
            if t.key is None or not field_of_args(t.key, 'principal'):
                bad = 'for %s instead of the principal of the request' % (clip(show(t.key)) if t.key is not None else 'every principal')
            elif name == 'grant_permission':
                if t.how in ('push', 'insert'):
                    val = t.vals[-1]
                    if not field_of_args(val, 'permission') and not contains_arg_perm(val):
                        bad = 'the granted permission is %s, not the one of the request' % clip(show(val))
                elif t.how in ('remove', 'retain', 'clear', 'pop', 'set', 'truncate'):
                    bad = 'granting removes permissions (%s)' % t.how
            else:
                if t.how in ('push', 'extend'):
                    bad = 'revoking adds permissions'
                elif t.how in ('retain', 'set') and len(t.path) == 4:
                    x = sieve(ex, l, R)
                    if x is None or not field_of_args(x, 'permission'):
                        bad = 'does not leave exactly the permissions that differ from the one of the request'
                elif t.how in ('clear', 'set', 'truncate', 'pop', 'retain'):
                    bad = 'revoking does %s on the list' % t.how
            if bad:
                R.viol('perm:%s:%s' % (name, t.how), '%s at %s: %s' % (e, where(l), bad))
        if name == 'grant_permission':
            if not [l for l in ws if touch(l).how in ('push', 'insert', 'extend')]:
                R.viol('grant-noop', 'grant_permission never adds a permission')
            # a reply Ok must follow the addition or the permission being already present
            must_change(R, ex, 'grant_permission', lambda l: touch(l) and touch(l).map[:2] == ('data', 'permissions') and touch(l).how in ('push', 'insert'),
                        lambda a, v: a.op == 'app' and a.a[0] == 'contains' and v is True and has_g(a, 'data', 'permissions') and CALLER not in subs(a))
        if name == 'revoke_permission':
            if not [l for l in ws if touch(l).how in ('retain', 'remove', 'swap_remove', 'set')]:
                R.viol('revoke-noop', 'revoke_permission never removes a permission')
            must_change(R, ex, 'revoke_permission', lambda l: touch(l) and touch(l).map[:2] == ('data', 'permissions') and touch(l).how in ('retain', 'remove', 'swap_remove', 'set'),
                        lambda a, v: has_g(a, 'data', 'permissions') and CALLER not in subs(a) and (a.op == 'opt' and v == 'None' or a.op == 'app' and a.a[0] == 'contains' and v is False and any(field_of_args(x, 'permission') for x in a.a)))
    R.floor('permission map writes', n, 3)
    # ---- creation: the permissions given at install; others only for the installer of a test-mode canister
    ex = export('canister_init', limit=400)
    R.use(ex)
    k = 0

    def start(s, l):
        nonlocal k
        if l[0] == 'p' and l[2] is True and any(x.op == 'fld' and x.a[1] == 'test_mode' for x in subs(l[1])) and (l[1].op == 'fld' or l[1].op == 'ret' and l[1].a[0].endswith('is_test_mode')):
            return True
        if is_state_set(l):
            for st in alts(inner_some(l[4][0])):
                k += 1
                v = proj(proj(st, 'data'), 'permissions')
                for x in alts(v):
                    m = None
                    if x.op == 'upd' and x.a[1] == 'user_permissions':
                        x, m = x.a[0], x.a[2]
                    if not (x.op == 'fld' and x.a[1] == 'permissions' and x.a[0].op == 'pay' and x.a[0].a[0] is mk('arg', 0)):
                        return Viol('the permissions at install are %s, not those of the argument' % clip(show(x)), s)
                    if m is not None and not (m.op == 'map' and m.a[0] is mk('fld', x, 'user_permissions') and not m.a[2].a and all(proj(y, '0') is CALLER for y in m.a[1].a)):
                        return Viol('the permissions at install are %s, not those of the argument' % clip(show(m)), s)
                    if m is not None and m.a[1].a and not s:
                        return Viol('the installer is given permissions outside test mode', s)
        return s
    v, n = search(ex.g, False, start)
    R.states += n
    for m, l, tr in v:
        R.viol('init:' + m[:60], 'canister_init at %s: %s' % (where(l), m), tr)
    R.floor('permissions at install', k, 1)


def is_state_set(l):
    return l[0] == 'e' and l[1] == 'gw' and l[3] == 'set' and gwp(l) in (('__STATE',), ('STATE',))


# ------------------------------------------------------------------ C36
def perm_arg(v):
    return field_of_args(v, 'permission')


def arg_list(path):
    p = spath(mk('g', *path)) if path else None
    return p is not None and len(p) == 4 and p[:3] == ('data', 'permissions', 'user_permissions') and isinstance(p[3], V) and field_of_args(norm(unwrap(p[3].a[0])), 'principal')


def c36(R):
    # ---- has_permission
    e = 'canister_query.has_permission'
    ex = export(e, limit=400)
    R.use(ex)
    paths = {x.a for l in ex.labels() for y in l if isinstance(y, V) for x in subs(y) if x.op in ('g', 'gref') and arg_list(x.a)}
    scans = {loc for p in paths for x, locs in scanned(ex, p, R).items() if perm_arg(x) for loc in locs}
    k = 0

    def known(a, v):
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        if a.op == 'app' and a.a[0] == 'contains' and a.a[1].op in ('g', 'gref') and arg_list(a.a[1].a) and perm_arg(a.a[2]):
            return 'yes' if v else 'no'
        if a.op == 'opt' and v == 'None' and a.a[0].op in ('g', 'gref') and arg_list(a.a[0].a):
            return 'no'
        if a.op == 'eq' and v is True:
            for x, y in (a.a, a.a[::-1]):
                if elem_home(x) and arg_list(elem_home(x)) and perm_arg(y):
                    return 'yes'
        return None

    def held(v):
        return v.op == 'app' and v.a[0] == 'contains' and v.a[1].op in ('g', 'gref') and arg_list(v.a[1].a) and perm_arg(v.a[2])

    def step(s, l):
        nonlocal k
        if l[0] == 'p':
            return known(l[1], l[2]) or s
        if l[1] == 'iter_end' and (l[2], l[-1]) in scans and s != 'yes':
            return 'no'
        if l[1] == 'call' and 'msg_reply' in l[2]:
            r = reply_value(l)
            k += 1
            for x in alts(r):
                if x.op != 'adt' or x.a[1] != 'Ok':
                    return Viol('it answers %s' % clip(show(x)), s)
                for y in alts(x.a[3]):
                    if not (held(y) or y is TRUE and s == 'yes' or y is FALSE and s == 'no'):
                        return Viol('it answers %s although that is not what is stored for the principal and permission of the request' % clip(show(y)), s)
        return s
    v, n = search(ex.g, '', step)
    R.states += n
    for m, l, tr in v:
        R.viol('has:' + m[:60], '%s at %s: %s' % (e, where(l), m), tr)
    R.floor('answers of has_permission', k, 1)
    # ---- get_user_permissions
    e = 'canister_query.get_user_permissions'
    ex = export(e, limit=400)
    R.use(ex)
    k = 0

    def step2(s, l):
        nonlocal k
        if l[0] == 'p':
            return True if known(l[1], l[2]) == 'no' and l[1].op == 'opt' else s
        if l[1] == 'call' and 'msg_reply' in l[2]:
            k += 1
            for x in alts(reply_value(l)):
                if x.op == 'adt' and x.a[1] == 'Err':
                    if not s:
                        return Viol('it answers %s although the principal has an entry' % clip(show(x)), s)
                elif not (x.op == 'adt' and x.a[1] == 'Ok' and all(y.op in ('g', 'gref') and arg_list(y.a) for y in alts(x.a[3]))):
                    return Viol('it answers %s, not the stored permissions of the principal of the request' % clip(show(x)), s)
        return s
    v, n = search(ex.g, False, step2)
    R.states += n
    for m, l, tr in v:
        R.viol('get:' + m[:60], '%s at %s: %s' % (e, where(l), m), tr)
    R.floor('answers of get_user_permissions', k, 2)
    # ---- get_all_storage_subcanisters
    e = 'canister_query.get_all_storage_subcanisters'
    ex = export(e, limit=400)
    R.use(ex)
    k = 0
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
            k += 1
            for x in alts(reply_value(l)):
                if not (x.op == 'ret' and x.a[0].split('::')[-1] == 'list_canisters_ids' and len(x.a) == 3 and spath(x.a[2]) == ('data', 'sub_canister_manager', 'sub_canister_manager')):
                    R.viol('subcanisters', '%s answers %s, not the storage canisters of the manager' % (e, clip(show(x))))
    R.floor('answers of get_all_storage_subcanisters', k, 1)


def field_of_args(v, f):
    return v.op == 'fld' and v.a[1] == f and v.a[0].op == 'arg' or (v.op == 'arg' and f is None)


def contains_arg_perm(v):
    return v.op in ('arr', 'bag', 'app') and any(field_of_args(s, 'permission') for s in subs(v))


def reply_ok(l):
    """the call answers Ok(..)"""
    if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
        r = reply_value(l)
        return r is not None and any(x.op == 'adt' and x.a[1] == 'Ok' for x in alts(r))
    return False


def reply_value(l):
    for v in l[3]:
        for s in subs(v):
            if s.op == 'ret' and s.a[0].endswith('encode_one'):
                return s.a[-1]
            if s.op == 'ret' and s.a[0].endswith('encode_args'):
                return s.a[-1]
    return None


def must_change(R, ex, name, change, already):
    def step(s, l):
        if change(l):
            return True
        if l[0] == 'p':
            a, v = l[1], l[2]
            while a.op == 'not' and isinstance(v, bool):
                a, v = a.a[0], not v
            if already(a, v):
                return True
        if reply_ok(l) and not s:
            return Viol(name, s)
        return s
    v, n = search(ex.g, False, step)
    R.states += n
    for m, l, tr in v:
        R.viol('no-effect:' + name, '%s answers Ok without having changed the permission list' % name, tr)


# ------------------------------------------------------------------ C10
def c10(R):
    upd = [e for e in sorted(prog().exports) if e in GUARDED and e.startswith('canister_update.')] + ['canister_update.burn_nft']
    tot = 0
    for e in upd:
        ex = export(e)
        R.use(ex)
        name = e.split('.')[1]
        effs = set()

        def step(s, l):
            held, room = s
            if l[0] == 'p':
                if room_literal(l[1], l[2]):
                    return (held, True)
                return s
            if l[0] != 'e':
                return s
            if l[1] == 'gw':
                t = touch(l)
                if t and t.path[0] == 'principal_guards':
                    if t.how == 'insert':
                        if not room:
                            return Viol('acquire %s' % name, (True, False))
                        return (True, False)
                    if t.how in ('remove', 'clear', 'take', 'set'):
                        return (False, False)
                    return s
                if t and t.path[0] in BOOKKEEPING:
                    return s
                effs.add(l)
                if not held:
                    return Viol('unguarded %s %s' % (name, short(l)), s)
            elif l[1] == 'await':
                effs.add(l)
                if not held:
                    return Viol('unguarded %s await' % name, s)
            return s

        def at_end(s, kind):
            if kind == 'return' and s[0]:
                return 'leak %s' % name
        v, n = search(ex.g, (False, False), step, at_end)
        R.states += n
        tot += len(effs)
        R.ob('%s: %d effects inside the guard' % (e, len(effs)))
        if not effs:
            R.viol('anchor:' + e, '%s: no effects found' % e)
        for m, l, tr in v:
            if m.startswith('leak'):
                R.viol(m, '%s can return while the management guard stays taken' % e, tr)
            elif m.startswith('acquire'):
                R.viol(m, '%s takes the management guard at %s without checking that none is taken' % (e, where(l)), tr)
            else:
                R.viol(m, '%s performs %s at %s while the management guard is not held' % (e, short(l), where(l)), tr)
    R.floor('effects inside the guard', tot, 20)


def room_literal(a, v):
    """the set of running management calls is empty"""
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    if not has_g(a, 'principal_guards'):
        return False
    if a.op == 'lt' and v is True and a.a[0].op == 'len' and a.a[1].op == 'int' and a.a[1].a[0] == 1:
        return True
    if a.op == 'lt' and v is False and a.a[1].op == 'len' and a.a[0].op == 'int' and a.a[0].a[0] == 0:
        return True
    if a.op == 'eq' and v is True and any(x.op == 'int' and x.a[0] == 0 for x in a.a) and any(x.op == 'len' for x in a.a):
        return True
    if a.op == 'app' and a.a[0] == 'is_empty' and v is True:
        return True
    return False
