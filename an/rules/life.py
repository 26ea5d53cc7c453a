"""C13 state survives upgrades, C14 service resumes after install / upgrade, C15 settings, C40 HTTP certification."""
import re
from rl import *
from rules.auth import reply_value

CRATES = ('core_nft', 'index_icrc7')
# stable memory regions of deployed canisters: (crate, what the cell holds, memory id)
LAYOUT = [
    ('core_nft', ('WrappedNat', 'WrappedApprovalValue'), 1, 'token approvals'),
    ('core_nft', ('WrappedAccount', 'WrappedApprovalValue'), 2, 'collection approvals'),
    ('core_nft', ('metadata::Metadata',), 3, 'token metadata'),
    ('index_icrc7', ('u64', 'CacheEntry'), 1, 'block cache'),
    ('index_icrc7', ('IndexType', 'IndexValue'), 2, 'index'),
]
UPGRADE_MEM = 0


def calls(ex, *keys):
    return [l for l in ex.labels() if l[0] == 'e' and l[1] == 'call' and isinstance(l[2], str) and l[2].endswith(keys)]


def is_call(l, *keys):
    return l[0] == 'e' and l[1] == 'call' and isinstance(l[2], str) and l[2].endswith(keys)


def mem_ids(v):
    """ids of the virtual memories a term is built from"""
    out = set()
    for s in subs(v):
        if s.op == 'ret' and s.a[0].endswith('MemoryManager::get'):
            out.add(s.a[-1].a[0] if s.a[-1].op == 'int' else show(s.a[-1]))
    return out


def copy_of(v, base, skip, at=''):
    """None when v is base, or base with only the fields in skip replaced; else the differing field"""
    for x in alts(v):
        if x is base:
            continue
        if x.op == 'upd':
            r = copy_of(x.a[0], base, skip, at)
            if r:
                return r
            for i in range(1, len(x.a), 2):
                f = x.a[i]
                if f in skip:
                    continue
                r = copy_of(x.a[i + 1], proj(base, f), (), at + '.' + str(f))
                if r:
                    return r
            continue
        if x.op == 'adt' and len(x.a) > 3:
            for f, y in zip(x.a[2], x.a[3:]):
                if f in skip:
                    continue
                r = copy_of(y, proj(base, f), (), at + '.' + str(f))
                if r:
                    return r
            continue
        return (at or 'the whole value') + ' is ' + clip(show(x), 120)
    return None


def clones(R, crate):
    """a hand-written clone is a faithful copy: the rest of the analysis takes copies for the original"""
    for f in sorted(prog(crate).fns.values(), key=lambda f: f.path):
        if f.raw.get('impl_trait') != 'std::clone::Clone' or f.raw.get('exp') or not f.path.endswith('::clone'):
            continue
        ex = Ex(crate, f.path, f)
        R.use(ex)
        me = mk('arg', 0)
        R.ob('%s copies every field' % f.path)

        def handle(x):
            # a stable map is a handle on a memory region, not data
            return x.op == 'ret' and x.a[0].endswith('BTreeMap::init') and mem_ids(x)
        for l in ex.labels():
            if not (l[0] == 'e' and l[1] == 'return'):
                continue
            for x in alts(l[2]):
                if x is me:
                    continue
                if x.op != 'adt':
                    R.viol('clone:' + f.path, '%s yields %s instead of a copy' % (f.path, clip(show(x), 120)))
                    continue
                for n, y in zip(x.a[2], x.a[3:]):
                    if not (copy_of(norm(y), proj(me, n), ()) is None or handle(y)):
                        R.viol('clone:%s:%s' % (f.path, n), '%s does not copy the field %s: the copy holds %s (%s.%d)' % (f.path, n, clip(show(y), 120), f.raw['file'], f.raw['line']))


def deser(v):
    """(call, path of fields) when v is a projection of the deserialized upgrade image"""
    path = ()
    while v.op == 'fld':
        path = (v.a[1],) + path
        v = v.a[0]
    if v.op == 'pay' and v.a[0].op == 'ret' and v.a[0].a[0].endswith('deserialize'):
        return v.a[0], path
    return None


def strip_upd(v):
    while v.op == 'upd':
        v = v.a[0]
    return v


def resolve(v, path):
    for f in path:
        if v.op == 'tup':
            v = v.a[int(f)]
        else:
            v = proj(v, f)
    return v


def c13(R):
    n_items = 0
    for crate in CRATES:
        pre, post = export('canister_pre_upgrade', crate), export('canister_post_upgrade', crate)
        R.use(pre)
        R.use(post)
        # ---- what is restored, and from where
        items = {}          # path in the image -> (what, test on the saved term)
        want = {'state': 0, 'logs': 0}
        if crate == 'core_nft':
            want['log of blocks'] = 0
        regions = set()

        def image(v, what, test):
            d = deser(v)
            if d is None:
                R.viol('restore:%s:%s' % (crate, what), '%s: post_upgrade restores the %s from %s, not from the upgrade image' % (crate, what, clip(show(v), 160)))
                return
            regions.update(mem_ids(d[0]))
            want[what.split(' #')[0]] = want.get(what.split(' #')[0], 0) + 1
            items.setdefault(d[1], (what, test))
        root = prog(crate).crate + '::state::__STATE'
        for l in post.labels():
            p = gwp(l)
            if p is None:
                continue
            if p in (('__STATE',), ('STATE',)) and l[3] in ('set', 'replace', 'insert'):
                v = l[4][0]
                for x in alts(inner_some(v)):
                    base = strip_upd(x)
                    if base.op == 'adt':
                        base = proj(x, 'data')
                        d = deser(base)
                        base = mk('fld', d[0], 'data') if False else (base.a[0] if d and base.op == 'fld' else base)
                    image(base, 'state', lambda t: t.op in ('g', 'gref') and spath(t) == ('STATE',))
                    bad = copy_of(x, base, ('env', 'principal_guards'))
                    if bad:
                        R.viol('altered:%s' % crate, '%s: post_upgrade alters the restored state: %s at %s' % (crate, bad, where(l)))
            elif p[0] == 'ICRC3' and len(p) == 1 and l[3] in ('set', 'replace', 'insert'):
                image(inner_some(l[4][0]), 'log of blocks', lambda t: t.op in ('g', 'gref') and spath(t) and spath(t)[0] == 'ICRC3')
        for l in calls(post, 'init_with_logs'):
            args = [a for a in l[3] if isinstance(a, V)]
            image(args[1], 'logs #1', lambda t: t.op == 'ret' and t.a[0].endswith('export_logs'))
            image(args[2], 'logs #2', lambda t: t.op == 'ret' and t.a[0].endswith('export_traces'))
        for k, n in want.items():
            if not n:
                R.viol('restore:%s:%s' % (crate, k), '%s: post_upgrade does not restore the %s' % (crate, k))
        # restored on every path that ends well, and nothing else rewrites it
        need = {'state'} | ({'log of blocks'} if crate == 'core_nft' else set())

        def step(s, l):
            p = gwp(l)
            if p in (('__STATE',), ('STATE',)) and l[3] in ('set', 'replace', 'insert'):
                return s | {'state'}
            if p is not None and p[0] == 'ICRC3' and len(p) == 1 and l[3] in ('set', 'replace', 'insert'):
                return s | {'log of blocks'}
            return s

        def at_end(s, kind):
            if kind == 'return' and not need <= s:
                return 'returns without restoring the %s' % ', '.join(sorted(need - s))
        v, n = search(post.g, frozenset(), step, at_end)
        R.states += n
        for m, l, tr in v:
            R.viol('restore-path:%s' % crate, '%s: post_upgrade %s' % (crate, m), tr)
        # ---- the image that is saved
        ser = calls(pre, 'serializer::serialize', '::serialize')
        ser = [l for l in ser if any(mem_ids(a) for a in l[3] if isinstance(a, V))]
        if not ser:
            R.viol('anchor:serialize:' + crate, '%s: pre_upgrade writes no upgrade image' % crate)
        for l in ser:
            args = [a for a in l[3] if isinstance(a, V)]
            img, wr = args[0], args[-1]
            if mem_ids(wr) != {UPGRADE_MEM} or regions != {UPGRADE_MEM}:
                R.viol('region:' + crate, '%s: the upgrade image is written to memory %s and read from memory %s (must be %d)' % (crate, sorted(mem_ids(wr)), sorted(regions), UPGRADE_MEM))
            for path, (what, test) in sorted(items.items()):
                t = resolve(img, path)
                n_items += 1
                if not all(test(x) for x in alts(t)):
                    R.viol('saved:%s:%s' % (crate, what), '%s: pre_upgrade saves %s where post_upgrade expects the %s' % (crate, clip(show(t), 160), what))
                R.ob('%s: %s saved at %s and restored from there' % (crate, what, '.'.join(map(str, path)) or 'the root'))

        def is_ser(t):
            return t.op == 'ret' and any(t is l[4] for l in ser)

        def step2(s, l):
            if l[0] == 'p' and l[2] == 'Ok' and is_ser(l[1]):
                return True
            p = gwp(l)
            if p is not None and not s:
                if p in (('__STATE',), ('STATE',)) and l[3] in ('take', 'set'):
                    return s
                if p[0] == 'ICRC3' and len(p) == 1:
                    return s
                if p[0] in BOOKKEEPING:
                    return s
                return Viol('changes %s before saving' % short(l), s)
            return s

        def end2(s, kind):
            if kind == 'return' and not s:
                return 'returns without having saved the state'
        v, n = search(pre.g, False, step2, end2)
        R.states += n
        for m, l, tr in v:
            R.viol('save-path:%s:%s' % (crate, m), '%s: pre_upgrade %s' % (crate, m), tr)
        # ---- other writes in post_upgrade (jobs have their own effects)
        allowed = {'core_nft': ('internal_filestorage', 'ICRC3', 'HTTP_TREE', 'ASSET_ROUTER', 'STATE', '__STATE') + BOOKKEEPING,
                   'index_icrc7': ('STATE', '__STATE', 'CACHE', 'INDEX')}[crate]
        for l in post.labels():
            p = gwp(l)
            if p is None or p[0].lstrip('_') in [a.lstrip('_') for a in allowed]:
                continue
            if crate == 'index_icrc7' and p[:2] in (('data', 'last_block_id'), ('data', 'last_index_update')):
                continue
            R.viol('rewrites:%s:%s' % (crate, p[0]), '%s: post_upgrade changes %s at %s' % (crate, short(l), where(l)))
        tables(R, crate)
        layout(R, crate)
        clones(R, crate)
    R.floor('saved and restored items', n_items, 7)


TYNAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)*')


def reach_types(crate, roots):
    p = prog(crate)
    seen = []
    st = list(roots)
    while st:
        t = st.pop()
        if t in seen or t not in p.adts or not p.adts[t].get('local'):
            continue
        seen.append(t)
        for v in p.adts[t]['vars']:
            for f, ty in v[2]:
                for m in TYNAME.findall(ty):
                    k = p.adtkey(m)
                    if k in p.adts and k not in seen:
                        st.append(k)
    return seen


def bodies(f):
    return [f.body] + f.proms


def consts(f):
    for b in bodies(f):
        for bb in b.bbs:
            if bb is None:
                continue
            s, t = bb
            if t and t[0] == 'call':
                yield t


def strs(x):
    if isinstance(x, dict):
        if isinstance(x.get('str'), str):
            yield x['str']
        for y in x.values():
            yield from strs(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from strs(y)


def tables(R, crate):
    """every field of every persisted type is written under the name it is read back from"""
    p = prog(crate)
    n = 0
    for t in reach_types(crate, [crate + '::state::RuntimeState']):
        short_t = t.split('::', 1)[1]
        ser = [f for f in p.fns.values() if f.path.endswith('Serialize for %s>::serialize' % short_t)]
        de = [f for f in p.fns.values() if ("Deserialize<'de> for %s>::deserialize::FIELDS" % short_t) in f.path or ("Deserialize<'de> for %s>::deserialize::VARIANTS" % short_t) in f.path]
        vs = p.adts[t]['vars']
        fields = [f for f, _ in vs[0][2]]
        if len(vs) != 1 or not fields or fields[0] == '0':
            continue
        if len(ser) != 1 or len(de) != 1:
            continue       # not derived
        written = {}
        for c in consts(ser[0]):
            fnd = c[1][1].get('fnd', {}) if c[1][0] == 'k' else {}
            if fnd.get('fn', '').endswith(('serialize_field', 'serialize_entry')):
                nm = list(strs(c[2]))
                if nm:
                    written[nm[0]] = c
        read = set(strs(de[0].raw))
        R.fns.add(ser[0].path)
        n += 1
        lost = [f for f in read if f not in written]
        ign = [f for f in written if f not in read]
        if len(written) < len(fields):
            R.viol('field:%s' % short_t, '%s: %d of %d fields of %s are written to the upgrade image (%s missing)' % (crate, len(written), len(fields), short_t, ', '.join(f for f in fields if f not in written)))
        elif lost or ign:
            R.viol('field:%s' % short_t, '%s: fields of %s are written and read under different names: %s' % (crate, short_t, ', '.join(lost + ign)))
        elif len(read) < len(fields):
            R.viol('field:%s' % short_t, '%s: %d of %d fields of %s are read back from the upgrade image' % (crate, len(read), len(fields), short_t))
    R.add('persisted struct types with matching field tables', n)
    if n < (4 if crate == 'core_nft' else 2):
        R.viol('anchor:types:' + crate, '%s: only %d persisted types found' % (crate, n))


def layout(R, crate):
    p = prog(crate)
    found = {}
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.path.endswith('__rust_std_internal_init_fn'):
            continue
        ty = f.body.locals[0]
        ty = ty if isinstance(ty, str) else str(ty)
        ex = function(f.path, crate)
        ids = set()
        how = set()
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'return':
                for x in l[2:-1]:
                    if isinstance(x, V):
                        for s in subs(x):
                            if s.op == 'ret' and 'BTreeMap' in s.a[0] and mem_ids(s):
                                ids |= mem_ids(s)
                                how.add(s.a[0].split('::')[-1])
        if not ids:
            continue
        R.use(ex)
        cell = f.path.split('::')[-2]
        found[cell] = (ty, ids, how)
        if how - {'init', 'load'}:
            R.viol('clears:' + cell, '%s: the stable map %s is opened with %s, which does not keep its contents' % (crate, cell, '/'.join(sorted(how))))
    used = {}
    for cell, (ty, ids, how) in sorted(found.items()):
        for i in ids:
            if i == UPGRADE_MEM or i in used:
                R.viol('overlap:%s' % cell, '%s: %s uses memory %s, which also holds %s' % (crate, cell, i, used.get(i, 'the upgrade image')))
            used[i] = cell
    for cr, parts, mid, what in LAYOUT:
        if cr != crate:
            continue
        hit = [(c, ids) for c, (ty, ids, how) in found.items() if matches(ty, parts)]
        if len(hit) != 1:
            R.viol('anchor:layout:' + what, '%s: %d stable cells hold the %s' % (crate, len(hit), what))
        elif hit[0][1] != {mid}:
            R.viol('layout:' + what, '%s: the %s moved to memory %s; after an upgrade of a deployed canister they are read from the wrong region (was %d)' % (crate, what, sorted(map(str, hit[0][1])), mid))
        else:
            R.add('stable regions')
            R.ob('%s: %s in memory %d' % (crate, what, mid))


def matches(ty, parts):
    m = re.search(r'BTreeMap<(.*)', ty)
    if m:
        args = m.group(1).split(',')
        return len(parts) == 2 and all(a.strip().split('::')[-1] == q for a, q in zip(args, parts))
    return len(parts) == 1 and ty.rstrip('>').endswith(parts[0])


# ------------------------------------------------------------------ C14
_jobs = {}


def job_effects(crate, v):
    """observable work of a function handed to a timer"""
    k = (crate, v)
    if k in _jobs:
        return _jobs[k]
    p = prog(crate)
    out = set()
    fid = None
    if v.op == 'clo':
        fid = v.a[0]
    elif v.op == 'fn':
        fid = v.a[1] if v.a[1] in p.fns else None
    if fid in p.fns:
        ex = Ex(crate, 'job ' + p.fns[fid].path, p.fns[fid])
        for l in ex.labels():
            if l[0] != 'e':
                continue
            q = gwp(l)
            if q is not None:
                if q[0] == 'ICRC3' and isinstance(l[3], str) and l[3].startswith('ext:'):
                    out.add(l[3].split('::')[-1])
                elif l[3] in ('remove', 'insert', 'pop_first', 'retain', 'set'):
                    out.add('%s:%s' % (q[0].lstrip('_').lower() if q[0] != 'data' else 'data.' + str(q[1]), l[3]))
            if l[1] == 'await':
                out.add('await')
        out.add('fns:' + str(len(ex.fns)))
    _jobs[k] = out
    return out


JOBS = {
    'core_nft': {
        'abandoned uploads are cancelled': lambda e: 'internal_filestorage:remove' in e and 'await' in e,
        'old blocks are archived': lambda e: 'archive_job' in e,
        'archived blocks are cleaned up': lambda e: 'cleanup_job' in e,
    },
    'index_icrc7': {
        'new blocks are indexed': lambda e: 'index:insert' in e and 'data.last_block_id:set' in e,
        'old cache entries are dropped': lambda e: 'cache:remove' in e,
    },
}


def timer(l):
    return is_call(l, 'run_interval', 'set_timer_interval')


def c14(R):
    for crate in CRATES:
        for e in ('canister_init', 'canister_post_upgrade'):
            ex = export(e, crate)
            R.use(ex)
            tags = {}
            for l in ex.labels():
                if timer(l):
                    args = [a for a in l[3] if isinstance(a, V)]
                    eff = job_effects(crate, args[-1])
                    dur = args[0]
                    if dur.op == 'int' and dur.a[0] <= 0:
                        R.viol('interval:%s' % crate, '%s schedules a job with no interval at %s' % (e, where(l)))
                    tags[l] = frozenset(k for k, t in JOBS[crate].items() if t(eff))
            allj = frozenset(JOBS[crate])
            R.add('scheduled jobs', len(allj))

            def step(s, l):
                t = tags.get(l)
                if t:
                    return s | t
                return s

            def at_end(s, kind):
                if kind == 'return' and not allj <= s:
                    return 'without scheduling the job by which %s' % ' and '.join(sorted(allj - s))
            v, n = search(ex.g, frozenset(), step, at_end)
            R.states += n
            for m, l, tr in v:
                R.viol('job:%s:%s' % (crate, e), '%s of %s returns %s' % (e, crate, m), tr)
            R.ob('%s %s: %s' % (crate, e, '; '.join(sorted(allj))))
    # guards of calls that were in flight do not survive
    ex = export('canister_post_upgrade')
    n = 0
    for l in ex.labels():
        if gwp(l) in (('__STATE',), ('STATE',)) and l[3] == 'set':
            for x in alts(inner_some(l[4][0])):
                n += 1
                g = proj(x, 'principal_guards')
                if not all(cleared(y) for y in alts(g)):
                    R.viol('guards', 'post_upgrade keeps the management guards of calls that were in flight at %s: no management operation can run again' % where(l))
    R.floor('restored guard sets', n, 1)
    redirects(R, ex)


def cleared(v):
    if v.op in ('bag', 'map', 'arr') and v in (EMPTYBAG, EMPTYMAP, mk('arr')):
        return True
    if v.op in ('empty',):
        return True
    if v.op == 'ret' and v.a[0].split('::')[-1] in ('new', 'default'):
        return True
    return False


MR = ('data', 'media_redirections')


def redirect_terms(v):
    return [s for s in subs(v) if s.op == 'adt' and s.a[1] == 'Redirect']


def good_redirect(t):
    f = dict(zip(t.a[2], t.a[3:]))
    fr, to = f.get('from'), f.get('to')
    if fr is None or to is None or fr.op != 'ekey' or not has_g(fr, *MR):
        return False
    return to.op == 'g' and spath(to)[:2] == MR and len(spath(to)) == 3 and spath(to)[2].a[0] is fr


def redirects(R, ex):
    """after an upgrade every entry of media_redirections is certified again"""
    certs = [l for l in calls(ex, 'certify_assets')]
    good = set()
    for l in certs:
        rs = [t for a in l[3] if isinstance(a, V) for t in redirect_terms(a)]
        if any(good_redirect(t) for t in rs):
            good.add(l)
        bad = [t for t in rs if has_g(t, *MR) and not good_redirect(t)]
        if bad:
            R.viol('redirect', 'post_upgrade certifies %s at %s, which is not an entry of media_redirections' % (clip(show(bad[0]), 200), where(l)))
    if not good:
        R.viol('anchor:redirects', 'post_upgrade does not certify the stored media redirections')
        return
    bulk = any(not any(a.op == 'arr' and redirect_terms(a) for a in l[3] if isinstance(a, V)) for l in good)

    def over(l):
        return has_g(l[2], *MR)

    def step(s, l):
        done, pend = s
        if l[0] == 'e' and l[1] == 'iter_next' and over(l):
            if set(l[4]) & FILTERS:
                return Viol('the loop at %s leaves entries out' % where(l), s)
            if pend and not bulk:
                return Viol('an iteration of the loop at %s does not certify its entry' % where(l), (done, True))
            return (done, True)
        if l[0] == 'e' and l[1] == 'iter_end' and over(l):
            if pend and not bulk:
                return Viol('an iteration of the loop at %s does not certify its entry' % where(l), (True, False))
            return (True, False)
        if l in good:
            return (done, False)
        return s

    def at_end(s, kind):
        if kind == 'return' and not s[0]:
            return 'returns without having gone through media_redirections'
    v, n = search(ex.g, (False, False), step, at_end)
    R.states += n
    for m, l, tr in v:
        R.viol('redirects:' + m, 'post_upgrade: ' + m, tr)
    R.ob('post_upgrade certifies every media redirection')


# ------------------------------------------------------------------ C15
ENVF = ('test_mode', 'version', 'commit_hash')
A0 = mk('arg', 0)


def adt_fields(crate, suffix):
    p = prog(crate)
    c = [k for k in p.adts if k.endswith(suffix) and p.adts[k].get('local')]
    if len(c) != 1:
        raise Anchor('type %s: %d definitions' % (suffix, len(c)))
    return [f for f, _ in p.adts[c[0]]['vars'][0][2]]


SETTINGS = ['description', 'symbol', 'name', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'max_take_value',
            'default_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift']


def c15(R):
    # ---- initialisation
    ex = export('canister_init')
    R.use(ex)
    ia, df = adt_fields('core_nft', '::InitArgs'), adt_fields('core_nft', 'state::Data')
    sets = [l for l in ex.labels() if gwp(l) in (('__STATE',), ('STATE',)) and l[3] == 'set']
    R.floor('initial states', len(sets), 1)
    ini = mk('pay', A0, 'Init', '0')
    ini = next((s for l in sets for s in subs(l[4][0]) if s.op == 'pay' and s.a[1] == 'Init'), ini)
    for f in ia:
        if f in ENVF:
            continue
        used = any(mk('fld', ini, f) in subs(l[4][0]) for l in sets) or any(
            s.op == 'fld' and s.a == (ini, f) for l in sets for s in subs(l[4][0]))
        if not used:
            R.viol('unused:' + f, 'init does not use its argument %s: it has no effect on the collection' % f)
            continue
        if f not in df:
            continue
        R.add('init settings')
        for l in sets:
            for st in alts(inner_some(l[4][0])):
                v = proj(proj(st, 'data'), f)
                want = mk('fld', ini, f)
                if f == 'permissions':
                    ok = all(want in subs(x) for x in alts(v))
                else:
                    ok = all(same_setting(x, want) for x in alts(v))
                if not ok:
                    R.viol('init:' + f, 'init sets data.%s to %s at %s' % (f, clip(show(v), 160), where(l)))
    # ---- update
    name = 'canister_update.update_collection_metadata'
    ex = export(name)
    R.use(ex)
    uf = adt_fields('core_nft', 'update_collection_metadata::UpdateCollectionMetadataArgs') if any(
        k.endswith('update_collection_metadata::UpdateCollectionMetadataArgs') for k in prog().adts) else update_fields(ex)
    n = 0
    for f in uf:
        arg = mk('fld', A0, f)
        pay = mk('pay', arg, 'Some', '0')
        ws = [l for l in ex.labels() if gwp(l) and gwp(l)[:2] == ('data', f)]
        if f not in df:
            continue
        if not ws:
            R.viol('update:' + f, 'update_collection_metadata never stores %s' % f)
            continue
        n += 1

        def disch(l, t, ws=ws, f=f):
            return l in ws
        v, trigs, k = follow(ex, lambda l, arg=arg: l[0] == 'p' and l[1] is arg and l[2] == 'Some', disch,
                             lambda t, why, f=f: 'a new value of %s is given but %s without storing it' % (f, why))
        R.states += k
        ok_only = [x for x in v if replies_ok(x[2])]
        for t, m, tr in ok_only:
            R.viol('update-path:' + f, 'update_collection_metadata: ' + m, tr)
    for l in ex.labels():
        p = gwp(l)
        if p is None or p[0] in BOOKKEEPING:
            continue
        if p[0] == 'data' and len(p) == 2 and p[1] in df and isinstance(p[1], str) and l[3] == 'set':
            arg = mk('fld', A0, p[1])
            for x in alts(l[4][0]):
                if not (same_setting(x, arg) or x is mk('pay', arg, 'Some', '0') or keeps(x, p[1])):
                    R.viol('update-value:' + p[1], 'update_collection_metadata stores %s in data.%s at %s' % (clip(show(x), 120), p[1], where(l)))
            if p[1] not in uf:
                R.viol('update-extra:' + p[1], 'update_collection_metadata changes data.%s at %s' % (p[1], where(l)))
        else:
            R.viol('update-extra:%s' % p[0], 'update_collection_metadata changes %s at %s' % (short(l), where(l)))
    R.floor('settings that can be updated', n, 13)
    # ---- nobody else
    for e in exports_of():
        if e in (name, 'canister_init', 'canister_post_upgrade', 'canister_pre_upgrade'):
            continue
        ex2 = export(e)
        for l in ex2.labels():
            p = gwp(l)
            if p is not None and p[0] == 'data' and len(p) > 1 and p[1] in SETTINGS + ['approval_init', 'max_canister_storage_threshold']:
                R.viol('other:%s:%s' % (mname(e), p[1]), '%s changes the setting %s at %s' % (e, p[1], where(l)))
    # ---- queries
    q = {'icrc7_' + s: ('data', s) for s in SETTINGS}
    q['icrc37_max_approvals_per_token_or_collection'] = ('data', 'approval_init', 'max_approvals_per_token_or_collection')
    q['icrc37_max_revoke_approvals'] = ('data', 'approval_init', 'max_revoke_approvals')
    nq = 0
    for m, path in sorted(q.items()):
        e = 'canister_query.' + m
        if e not in prog().exports:
            if path[1] == 'approval_init' or path[1] != 'supply_cap':
                R.viol('anchor:' + m, 'query %s is not exported' % m)
            continue
        ex = export(e)
        R.use(ex)
        for l in ex.labels():
            if is_call(l, 'msg_reply'):
                nq += 1
                for x in alts(reply_value(l)):
                    if not reads_exactly(x, path):
                        R.viol('query:' + m, '%s replies %s instead of the setting %s' % (m, clip(show(x), 120), path[-1]))
    R.floor('setting queries', nq, 13)
    collection_metadata(R)


def replies_ok(tr):
    for l in reversed(tr):
        if is_call(l, 'msg_reply'):
            v = reply_value(l)
            return any(x.op != 'adt' or x.a[1] != 'Err' for x in alts(v))
    return True


def update_fields(ex):
    out = []
    for l in ex.labels():
        if l[0] == 'p' and l[1].op == 'fld' and l[1].a[0] is A0 and l[1].a[1] not in out:
            out.append(l[1].a[1])
    return out


def same_setting(x, want):
    if x is want:
        return True
    pay = mk('pay', want, 'Some', '0')
    if x.op == 'adt' and x.a[1] == 'Some' and x.a[3] is pay:
        return True
    if x.op == 'adt' and x.a[1] == 'None':
        return False
    if x.op == 'adt' and len(x.a) > 3 and x.a[2]:
        return all(same_setting(y, mk('fld', want, f)) for f, y in zip(x.a[2], x.a[3:]))
    return False


def keeps(x, f):
    return x.op == 'g' and spath(x)[:2] == ('data', f)


def reads_exactly(x, path):
    if x.op == 'g' and spath(x) == path:
        return True
    if x.op == 'adt' and x.a[1] == 'Some':
        y = x.a[3]
        return y.op == 'g' and spath(y) == path + ('Some', '0')
    return x is NONE


def collection_metadata(R):
    ex = export('canister_query.icrc7_collection_metadata')
    R.use(ex)
    seen = set()
    for l in ex.labels():
        if not is_call(l, 'msg_reply'):
            continue
        for x in alts(reply_value(l)):
            for s in subs(x):
                if s.op == 'tup' and len(s.a) == 2 and s.a[0].op == 'str' and s.a[0].a[0].startswith('icrc7:'):
                    key, v = s.a[0].a[0][6:], s.a[1]
                    if key == 'total_supply':
                        if not (v.op == 'adt' and has_g(v, 'data', 'tokens_list') and any(y.op == 'len' for y in subs(v))):
                            R.viol('meta:' + key, 'icrc7_collection_metadata reports %s as total_supply' % clip(show(v), 100))
                        seen.add(key)
                        continue
                    paths = {spath(y)[:2] for y in subs(v) if y.op in ('g', 'gref')}
                    if paths != {('data', key)}:
                        R.viol('meta:' + key, 'icrc7_collection_metadata reports %s as %s' % (clip(show(v), 100), key))
                    elif any(y.op == 'app' and y.a[0] in ('add', 'sub', 'mul', 'div') for y in subs(v)):
                        R.viol('meta:' + key, 'icrc7_collection_metadata reports %s as %s' % (clip(show(v), 100), key))
                    seen.add(key)
    for s in SETTINGS + ['total_supply']:
        if s not in seen:
            R.viol('meta-missing:' + s, 'icrc7_collection_metadata never reports %s' % s)
    # a set value is reported on the path that found it set
    def keys_of(l):
        out = set()
        for x in alts(reply_value(l)):
            out |= {y.a[0].a[0][6:] for y in subs(x) if y.op == 'tup' and len(y.a) == 2 and y.a[0].op == 'str' and y.a[0].a[0].startswith('icrc7:')}
        return out
    rk = {l: keys_of(l) for l in ex.labels() if is_call(l, 'msg_reply')}
    for k in SETTINGS:
        def step(s, l, k=k):
            if l[0] == 'p' and l[2] == 'Some' and l[1].op in ('g', 'gref', 'opt') and any(
                    y.op in ('g', 'gref') and spath(y) == ('data', k) for y in subs(l[1])):
                return True
            if s and l in rk and k not in rk[l]:
                return Viol('%s is set but not reported' % k, False)
            return s
        v, n = search(ex.g, False, step)
        R.states += n
        for m, l, tr in v:
            R.viol('meta-path:' + k, 'icrc7_collection_metadata: ' + m, tr)
    R.add('reported settings', len(seen))


# ------------------------------------------------------------------ C40
def exact_path(v):
    """path of HttpCertificationPath::exact(..)"""
    if v.op == 'ret' and v.a[0].endswith('HttpCertificationPath::exact'):
        return v.a[-1]
    return None


def entry_path(v):
    if v.op == 'ret' and v.a[0].endswith('HttpCertificationTreeEntry::new'):
        a = [x for x in v.a[1:] if isinstance(x, V)]
        return exact_path(a[0]), a[1]
    return None, None


def c40(R):
    # registered paths
    reg = None
    for e in ('canister_init', 'canister_post_upgrade'):
        ex = export(e)
        R.use(ex)
        ins = {}
        for l in ex.labels():
            if is_call(l, 'HttpCertificationTree::insert'):
                a = [x for x in l[3] if isinstance(x, V)]
                p, c = entry_path(a[-1])
                if p is not None and p.op == 'str':
                    ins[l] = (p.a[0], c.a[0] if c.op == 'ret' else show(c))
        alln = {}

        def step(s, l):
            return s | {ins[l]} if l in ins else s

        def at_end(s, kind):
            if kind == 'return':
                alln[s] = True
        v, n = search(ex.g, frozenset(), step, at_end)
        R.states += n
        must = frozenset.intersection(*alln) if alln else frozenset()
        reg = must if reg is None else reg & must
        R.ob('%s registers %s on every path' % (e, ', '.join(sorted(p for p, _ in must))))
    R.floor('registered paths', len(reg or ()), 3)
    # served responses
    ex = export('canister_query.http_request')
    R.use(ex)
    adds = calls(ex, 'add_v2_certificate_header')
    R.floor('certified responses', len(adds), 2)

    def parts(l):
        a = [x for x in l[3] if isinstance(x, V)]
        return a[0], a[2], a[3]

    def check(lits, l):
        cc = CC(lits)
        cert, wit, expr = parts(l)
        w = wit
        if w.op == 'pay':
            w = w.a[0]
        if not (w.op == 'ret' and w.a[0].endswith('HttpCertificationTree::witness')):
            return False
        wa = [x for x in w.a[1:] if isinstance(x, V)]
        p, c = entry_path(wa[1])
        if p is None:
            return False
        ex_ = expr
        if not (ex_.op == 'ret' and ex_.a[0].endswith('to_expr_path')):
            return False
        q = exact_path(ex_.a[-1])
        if q is None:
            return False
        names = set()
        for t in (p, q, wa[2]):
            f = {x.a[0] for x in cc.forms(t) if x.op == 'str'}
            names.add(next(iter(f)) if len(f) == 1 else None)
        if len(names) != 1 or None in names:
            return False
        nm = names.pop()
        # the path is the requested one
        if not any(a.op == 'eq' and v is True and any(x.op == 'str' and x.a[0] == nm for x in a.a) and any(
                s.op == 'ret' and s.a[0].endswith('get_path') for y in a.a for s in subs(y)) for a, v in lits):
            return False
        if not any(pth == nm and (c.op == 'ret' and c.a[0] == k or show(c) == k) for pth, k in reg):
            return False
        if not any(s.op == 'ret' and s.a[0].endswith('data_certificate') for s in subs(cert)):
            return False
        served.add(nm)
        return True
    served = set()
    v, tg, n = must_entail(ex, lambda l: l in adds, lambda a: a.op == 'eq', check,
                           lambda l: 'http_request attaches a certificate at %s whose path is not the requested one or is not registered' % where(l), R=R)
    for l, m, tr in v:
        cert, wit, expr = parts(l)
        R.viol('path:%s' % clip(show(expr), 60), m + ' (%s)' % clip(show(expr), 120), tr)
    R.ob('responses of %s carry a witness for their own, registered path' % ', '.join(sorted(served)))
    # the canister's certified data follows the tree
    nd = 0
    for e in exports_of():
        ex = export(e)
        if not any(dirty(l) for l in ex.labels()):
            continue
        R.use(ex)
        nd += 1

        def step(s, l):
            if dirty(l):
                return True
            if is_call(l, 'certified_data_set', 'set_certified_data'):
                if any(s_.op == 'ret' and s_.a[0].endswith('root_hash') and any(y.op in ('g', 'gref') and spath(y)[0] in ('ASSET_ROUTER', 'HTTP_TREE') for y in subs(s_))
                       for a in l[3] if isinstance(a, V) for s_ in subs(a)):
                    return False
                return Viol('certifies something that is not the root of the tree at %s' % where(l), True)
            return s

        def at_end(s, kind):
            if kind == 'return' and s:
                return 'changes the certified assets and returns without certifying the new root'
        v, n = search(ex.g, False, step, at_end)
        R.states += n
        for m, l, tr in v:
            R.viol('root:%s' % mname(e), '%s %s' % (e, m), tr)
    R.floor('methods that change certified assets', nd, 3)


def dirty(l):
    p = gwp(l)
    return p is not None and p[0] in ('HTTP_TREE', 'ASSET_ROUTER') and isinstance(l[3], str) and l[3].startswith('ext:') and l[3].split('::')[-1] in (
        'insert', 'delete', 'certify_assets', 'delete_assets', 'delete_by_path', 'delete_assets_by_path', 'delete_all_assets', 'insert_or_overwrite')
