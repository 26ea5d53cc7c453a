"""C19 upload records, C20 upload answers, C21 finalized files are served, C38 abandoned uploads, C39 storage canisters."""
from rl import *
import query
from rules.auth import reply_value
from rules.ops import fx, ARG, N, busy
from rules.life import timer
from rules.queries import loops_at

IF = 'internal_filestorage'
STATES = ('Init', 'InProgress', 'Finalized')
OPS = {'init_upload': 'Init', 'store_chunk': 'InProgress', 'finalize_upload': 'Finalized', 'cancel_upload': None}
BEFORE = {'InProgress': {'Init', 'InProgress'}, 'Finalized': {'InProgress'}}
DAY = 86400000000000
MAX_FILE, MAX_STORAGE = 2147483648, 536870912000
KEY = mk('fld', ARG(0), 'file_path')


def entry_path(v):
    """(key, field) of a term reading internal_filestorage.map[key].field / the entry itself (field None)"""
    if v.op not in ('g', 'gref'):
        return None
    p = spath(v)
    if not p or p[0] != IF:
        return None
    ks = [i for i, x in enumerate(p) if isinstance(x, V)]
    if len(ks) != 1:
        return None
    rest = p[ks[0] + 1:]
    return (p[ks[0]].a[0], '.'.join(rest) if rest else None)


def same_key(k, K):
    """k is the path of the upload: the key itself or the path stored with it"""
    if k is K:
        return True
    e = entry_path(k)
    return bool(e) and e[1] == 'path' and same_key(e[0], K)


class Write:
    __slots__ = ('l', 'how', 'key', 'f')


def upload_writes(ex):
    """changes of upload records: (label, 'put'|'remove'|'all'|'?', key, fields)"""
    out = []
    for l in ex.labels():
        t = touch(l)
        if t is None or t.path[0] != IF:
            continue
        w = Write()
        w.l, w.key, w.f, w.how = l, t.key, {}, '?'
        if t.how == 'insert' and t.key is not None and len(t.vals) == 2:
            w.how = 'put'
            v = t.vals[1]
            w.f = {f: proj(v, f) for f in ('init_timestamp', 'state', 'canister', 'path')}
        elif t.how in ('remove', 'remove_entry') and t.key is not None:
            w.how = 'remove'
        elif t.how == 'set' and t.key is not None:
            rest = [x for x in t.path[len(t.map) + 1:]]
            w.how = 'put'
            if not rest:
                w.f = {f: proj(t.vals[0], f) for f in ('init_timestamp', 'state', 'canister', 'path')}
            elif len(rest) == 1:
                w.f = {rest[0]: t.vals[0]}
            else:
                w.how = '?'
        out.append(w)
    return out


def c2c(v):
    """(operation, canister, args) of the storage canister call whose result v is (or contains as its awaited outcome)"""
    for _ in range(6):
        if v.op == 'ret' and 'storage_canister_c2c::' in v.a[0]:
            a = [x for x in v.a[1:] if isinstance(x, V)]
            return (v.a[0].split('::')[-1], *a[-2:]) if len(a) >= 2 else None
        if v.op in ('out', 'fut') or (v.op == 'ret' and v.a[0] == 'retry'):
            xs = [x for x in v.a if isinstance(x, V)]
            if len(xs) != 1:
                return None
            v = xs[0]
        else:
            return None
    return None


def said(l):
    """('call', ok?, op…) / ('answer', ok?, op…) / ('why', name, op…) for branches about the outcome of a storage call"""
    if l[0] != 'p':
        return None
    v, x = l[1], l[2]
    c = c2c(v)
    if c and x in ('Ok', 'Err'):
        return ('call', x == 'Ok', c)
    if v.op == 'pay' and v.a[1] == 'Ok':
        c = c2c(v.a[0])
        if c and x in ('Ok', 'Err'):
            return ('answer', x == 'Ok', c)
    if v.op == 'pay' and v.a[1] == 'Err' and v.a[0].op == 'pay' and v.a[0].a[1] == 'Ok':
        c = c2c(v.a[0].a[0])
        if c:
            return ('why', (x,) if isinstance(x, str) else tuple(x) if isinstance(x, tuple) else (), c)
    return None


def same_request(v, A=ARG(0)):
    if v is A:
        return True
    return v.op == 'adt' and len(v.a) > 3 and all(x is proj(A, f) or same_request(x, proj(A, f)) for f, x in zip(v.a[2], v.a[3:]))


def of_record(can, K):
    """the canister a call goes to is the one recorded for the upload"""
    return any((lambda e: e and e[1] == 'canister' and same_key(e[0], K))(entry_path(s)) for s in subs(can))


def variant(v):
    return v.a[1] if v.op == 'adt' and v.a[1] in STATES else None


class Know:
    """what the branches so far establish about one upload"""
    __slots__ = ('f', 'old')

    def __init__(self, f=frozenset(), old=frozenset(STATES + ('none',))):
        self.f, self.old = f, old

    def __eq__(self, o):
        return self.f == o.f and self.old == o.old

    def __hash__(self):
        return hash((self.f, self.old))

    def plus(self, *x):
        return Know(self.f | set(x), self.old)

    def minus(self, p):
        return Know(frozenset(x for x in self.f if not x.startswith(p)), self.old)


def learn(k, l, K, cans=None):
    if l[0] == 'e':
        if l[1] == 'iter_next' and over_files(l[2]):
            return (k.minus('cmp').plus('uncompared') if 'cmp' in k.f or 'uncompared' in k.f or not (set(l[4]) & FILTERS) else k.plus('filtered'))
        if l[1] == 'iter_end' and over_files(l[2]):
            if 'filtered' not in k.f and 'uncompared' not in k.f and not (set(l[3]) & FILTERS):
                return Know(k.f | {'noentry'}, k.old)
            return k
        return k
    v, x = l[1], l[2]
    while v.op == 'not' and isinstance(x, bool):
        v, x = v.a[0], not x
    if v.op == 'eq' and isinstance(x, bool):
        for p, q in (v.a, v.a[::-1]):
            if p is K or same_key(p, K):
                e = entry_path(q)
                if (e and e[1] == 'path') or q.op == 'ekey':
                    return k.plus('exists') if x else Know(k.f - {'uncompared'}, k.old)
    if v.op == 'app' and v.a[0] == 'contains' and isinstance(x, bool) and any(s.op in ('g', 'gref') and spath(s)[:1] == (IF,) for s in subs(v)) and any(same_key(s, K) for s in v.a[1:] if isinstance(s, V)):
        return k.plus('exists' if x else 'noentry')
    if v.op == 'opt':
        e = entry_path(v.a[0])
        if e and e[1] is None and same_key(e[0], K):
            return Know(k.f | {'noentry'}, frozenset({'none'})) if x == 'None' else Know(k.f | {'exists'}, k.old - {'none'})
        if x == 'None' and v.a[0].op in ('g', 'gref') and 'sub_canisters' in spath(v.a[0]) and of_record(v.a[0], K):
            return k.plus('gone', 'fail')
    e = entry_path(v)
    if e and e[1] == 'state' and same_key(e[0], K):
        xs = {x} if isinstance(x, str) else set(x) if isinstance(x, tuple) else set(STATES)
        return Know(k.f, k.old & (xs | set()))
    s = said(l)
    if s:
        kind, r, c = s
        if kind == 'call' and not r:
            return k.plus('fail')
        if kind == 'call' and r:
            return k.plus('ran:' + c[0])
        if kind == 'answer' and not r:
            # the storage canister refuses a cancellation for one reason only
            return k.plus('fail', *(['said:UploadNotInitialized'] if c[0] == 'cancel_upload' else []))
        if kind == 'answer' and r:
            return k.plus('conf:' + c[0])
        if kind == 'why':
            return k.plus(*('said:' + w for w in r))
    if x in ('Created', 'Stopped', 'Uninstalled', 'Deleted') or (isinstance(x, tuple) and 'Installed' not in x and 'Created' in x):
        return k.plus('fail')
    if x == 'None' and v.op == 'ret' and 'downcast' in v.a[0]:
        return k.plus('fail')
    if x == 'Err' and any(s.op == 'ret' and s.a[0].endswith('create_canister') for s in subs(v)):
        return k.plus('fail')
    if v.op == 'lt' and x is True and v.a[0] is N(MAX_FILE) and v.a[1] is proj(ARG(0), 'file_size'):
        return k.plus('fail')
    return k


def over_files(src):
    return any(s.op in ('g', 'gref') and spath(s)[:1] == (IF,) for s in subs(src))


def conf_ok(name, ex, K, R, op):
    """the storage calls of this method carry the request and go to the canister of the upload"""
    n = 0
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'call' and 'storage_canister_c2c::' in l[2]:
            o = l[2].split('::')[-1]
            if o == 'get_storage_size':
                continue
            args = [x for x in l[3] if isinstance(x, V)]
            n += 1
            if o != op:
                R.viol('op:%s:%s' % (name, o), '%s calls %s of the storage canister at %s' % (name, o, where(l)))
                continue
            if not same_request(args[1]):
                R.viol('args:' + name, '%s forwards %s to the storage canister at %s, which is not the request it was given' % (name, clip(show(args[1]), 120), where(l)))
            if op != 'init_upload' and not of_record(args[0], K):
                R.viol('canister:' + name, '%s calls %s at %s on %s, which is not the canister recorded for this upload' % (name, o, where(l), clip(show(args[0]), 120)))
    return n


def jobs():
    """functions run by timers that touch upload records"""
    p = prog()
    out = {}
    for e in ('canister_init', 'canister_post_upgrade'):
        for l in export(e).labels():
            if timer(l):
                v = [a for a in l[3] if isinstance(a, V)][-1]
                fid = v.a[0] if v.op == 'clo' else v.a[1] if v.op == 'fn' else None
                if fid in p.fns and fid not in out:
                    out[fid] = query.Ex('core_nft', 'job ' + p.fns[fid].path, p.fns[fid], flat=True)
    return [x for x in out.values() if any((gwp(l) or ('',))[0] == IF for l in x.labels())]


def init_of(K, w, f, k, ex):
    """why an upload may not be recorded as Init here"""
    if 'noentry' not in k.f:
        return 'without knowing that no upload uses this path'
    if 'conf:init_upload' not in k.f:
        return 'before a storage canister accepted it'
    if f.get('path') is None or not (f['path'] is K):
        return 'under a different path than the request names'
    if f.get('init_timestamp') is not NOW:
        return 'with a start time that is not the current time'
    cans = {c2c(l[1].a[0])[1] for l in ex.labels() if said(l) and said(l)[0] == 'answer' and said(l)[1] and said(l)[2][0] == 'init_upload'}
    if f.get('canister') not in cans:
        return 'under a canister (%s) that is not the one that accepted it' % clip(show(f.get('canister')), 80)
    return None


def c19(R):
    n = 0
    job = {l[-1] for x in jobs() for l in x.labels() if (gwp(l) or ('',))[0] == IF}    # rule of C38
    for e in exports_of():
        if mname(e) in OPS:
            continue
        ex = export(e)
        R.use(ex)
        for l in ex.labels():
            p = gwp(l)
            if p is not None and p[0] == IF and not (l[-1] in job and 'query' not in e):
                R.viol('writer:' + e, '%s changes upload records at %s' % (e, where(l)))
    for name, target in OPS.items():
        e = 'canister_update.' + name
        ex = fx(name)
        R.use(ex)
        ws = {w.l: w for w in upload_writes(ex)}
        conf_ok(e, ex, KEY, R, name)
        want = [w for w in ws.values() if (w.how == 'remove' if target is None else variant(w.f.get('state', UNIT)) == target)]
        if not want:
            R.viol('anchor:' + name, '%s: the change of the upload record was not found' % e)
        cans = {said(l)[2][1] for l in ex.labels() if said(l) and said(l)[0] == 'answer' and said(l)[1]}

        def step(k, l):
            w = ws.get(l)
            if w is None:
                if l[0] == 'e' and l[1] == 'call' and 'storage_canister_c2c::' in l[2]:
                    return k.minus('conf').minus('ran')
                return learn(k, l, KEY)
            if w.how == '?':
                return Viol('changes upload records in a way that is not understood', k)
            if not same_key(w.key, KEY):
                return Viol('changes the record of another path (%s)' % clip(show(w.key), 80), k)
            if w.how == 'remove':
                if 'gone' in k.f:
                    return k
                if name != 'cancel_upload':
                    return Viol('forgets an upload although its storage canister exists', k)
                if 'conf:cancel_upload' not in k.f:
                    return Viol('forgets an upload before the storage canister cancelled it', k)
                if 'Finalized' in k.old:
                    return Viol('forgets an upload that may be finalized', k)
                return k
            s = variant(w.f['state']) if 'state' in w.f else None
            if 'state' in w.f and s != target:
                return Viol('records the state %s' % clip(show(w.f['state']), 60), k)
            if name == 'init_upload':
                m = init_of(KEY, w, w.f, k, ex)
                return Viol('records a new upload ' + m, k) if m else k
            if 'conf:' + name not in k.f:
                return Viol('records %s before the storage canister confirmed it' % target, k)
            if s and k.old - BEFORE[s]:
                return Viol('moves an upload to %s that may be %s' % (s, ' / '.join(sorted(k.old - BEFORE[s]))), k)
            for f in ('init_timestamp', 'canister', 'path'):
                if f in w.f:
                    x = entry_path(w.f[f])
                    if not (x and x[1] == f and same_key(x[0], KEY)) and not (f == 'path' and w.f[f] is KEY):
                        return Viol('changes the %s of an upload to %s' % (f, clip(show(w.f[f]), 80)), k)
            return k
        v, c = search(ex.g, Know(), step)
        R.states += c
        n += len(ws)
        for m, l, tr in v:
            R.viol('%s:%s' % (name, m[:50]), '%s %s (%s)' % (e, m, where(l)), tr)
        R.ob('%s: %d changes of upload records' % (e, len(ws)))
    R.floor('changes of upload records', n, 7)


# ------------------------------------------------------------------ C20
REASON = {
    'FileAlreadyExists': (lambda k: 'exists' in k.f or 'said:FileAlreadyExists' in k.f, 'no upload is known to use the path'),
    'UploadNotInitialized': (lambda k: 'noentry' in k.f or 'said:UploadNotInitialized' in k.f, 'the upload is not known to be missing'),
    'UploadNotStarted': (lambda k: 'noentry' in k.f or k.old <= {'Init', 'none'} or 'said:UploadNotStarted' in k.f, 'the upload may have been started'),
    'UploadAlreadyFinalized': (lambda k: k.old <= {'Finalized'} or 'said:UploadAlreadyFinalized' in k.f, 'the upload is not known to be finalized'),
    'IncompleteUpload': (lambda k: 'said:IncompleteUpload' in k.f, 'the storage canister did not say so'),
    'StorageCanisterError': (lambda k: 'fail' in k.f, 'no storage canister call is known to have failed'),
    'ConcurrentManagementCall': (lambda k: 'busy' in k.f, 'no other management call is known to run'),
}


def c20(R):
    nk = set()
    for name, target in OPS.items():
        e = 'canister_update.' + name
        ex = fx(name)
        R.use(ex)
        ws = {w.l: w for w in upload_writes(ex)}
        done = {l for l, w in ws.items() if same_key(w.key, KEY) and (w.how == 'remove' if target is None else w.how == 'put' and variant(w.f.get('state', UNIT)) == target)} if ws else set()

        def step(k, l):
            if busy(l):
                return k.plus('busy')
            if l in done and 'conf:' + name in k.f:
                return k.plus('done')
            if l in ws:
                return k if ws[l].how == 'remove' and 'gone' in k.f else k.plus('changed')
            if l[0] == 'e' and l[1] == 'call' and 'storage_canister_c2c::' in l[2]:
                return k.minus('conf').minus('ran')
            if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
                r = reply_value(l)
                for x in (alts(r) if r is not None else [UNIT]):
                    if x.op != 'adt' or x.a[1] not in ('Ok', 'Err'):
                        return Viol('gives an answer that is not understood', k)
                    if x.a[1] == 'Ok':
                        nk.add((name, 'Ok'))
                        if 'done' not in k.f:
                            return Viol('answers Ok although the upload was not %s' % ('forgotten' if target is None else 'recorded as %s' % target), k)
                        continue
                    if 'conf:' + name in k.f:
                        return Viol('answers with an error although the storage canister accepted the request', k)
                    if 'changed' in k.f or 'done' in k.f:
                        return Viol('answers with an error although it changed the upload record', k)
                    for y in alts(x.a[3]):
                        if y.op == 'adt':
                            nk.add((name, y.a[1]))
                            q = REASON.get(y.a[1])
                            if q and not q[0](k):
                                return Viol('answers %s although %s' % (y.a[1], q[1]), k)
                return k
            n = learn(k, l, KEY)
            if 'conf:' + name in k.f and 'noentry' in n.f and 'noentry' not in k.f:
                return n.plus('done')       # the record vanished while the storage canister was called: nothing to update
            return n
        v, c = search(ex.g, Know(), step)
        R.states += c
        for m, l, tr in v:
            R.viol('%s:%s' % (name, m[:60]), '%s %s (%s)' % (e, m, where(l)), tr)
        R.ob('%s: answers %s' % (e, ', '.join(sorted(x for m, x in nk if m == name))))
    R.floor('kinds of answers', len(nk), 19)
    # queries
    e = 'canister_query.get_upload_status'
    ex = fx(e)
    R.use(ex)
    A = ARG(0)

    def st(k, l):
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
            for x in alts(reply_value(l) or UNIT):
                if x.op == 'adt' and x.a[1] == 'Ok':
                    y = entry_path(x.a[3])
                    if not (y and y[1] == 'state' and y[0] is A) and not (variant(x.a[3]) and k.old == {variant(x.a[3])}):
                        return Viol('reports %s, not the state recorded under the path' % clip(show(x.a[3]), 80), k)
                elif x.op == 'adt' and x.a[1] == 'Err':
                    if 'noentry' not in k.f:
                        return Viol('reports an upload as unknown that may exist', k)
                else:
                    return Viol('gives an answer that is not understood', k)
            return k
        return learn(k, l, A)
    v, c = search(ex.g, Know(), st)
    R.states += c
    for m, l, tr in v:
        R.viol('status:' + m[:60], '%s %s (%s)' % (e, m, where(l)), tr)
    listing(R)


def listing(R):
    from rules.queries import bases
    e = 'canister_query.get_all_uploads'
    ex = fx(e)
    R.use(ex)
    n = 0
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
            r = reply_value(l)
            for x in alts(r) if r is not None else ():
                if not (x.op == 'adt' and x.a[1] == 'Ok'):
                    R.viol('list:reply', '%s gives an answer that is not understood: %s' % (e, clip(show(x), 120)))
                    continue
                m = x.a[3]
                if m.op != 'map':
                    R.viol('list:reply', '%s answers with %s, not with a map of the uploads' % (e, clip(show(m), 120)))
                    continue
                for t in m.a[1].a:
                    kv = t.a if t.op == 'tup' else ()
                    if len(kv) != 2:
                        R.viol('list:entry', '%s reports %s' % (e, clip(show(t), 120)))
                        continue
                    for b, _ in bases(ex, t):
                        n += 1
                        bk, bv = b.a
                        y = entry_path(bv)
                        ok = y and y[1] == 'state' and (bk is y[0] or (entry_path(bk) or (0, 0)) == (y[0], 'path'))
                        if not ok:
                            R.viol('list:entry', '%s reports %s with the state %s' % (e, clip(show(bk), 80), clip(show(bv), 120)))
    R.floor('listed uploads', n, 1)
    # pages are cut from an ordered list
    cut = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next' and set(l[4]) & {'skip', 'take', 'step_by'}]
    good = {}
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'sorted':
            ok = l[3] == 'sort' or (l[4].op == 'cmp' and {s.a[1] for s in subs(l[4]) if s.op == 'arb'} == {0, 1} and all(x.op == 'fld' and x.a[1] == '0' or x.op == 'arb' for x in l[4].a)) or l[3] == 'sort_by_key'
            good[l] = ok

    def step(s, l):
        if l in good:
            return (s | {l[2]}) if good[l] else s
        if l[0] == 'e' and l[1] == 'out' and len(l) > 4:
            return s - {l[3]}
        if l in cut and l[2] not in s and ORDER.get(l[2]) != {'BTree'} and any(x.op in ('wid', 'g', 'gref') for x in subs(l[2])) and not (l[2].op == 'wid' and str(l[2].a[0]).startswith('acc:sorted')):
            return Viol('unsorted', s)
        return s
    v, c = search(ex.g, frozenset(), step)
    R.states += c
    for m, l, tr in v:
        R.viol('list:order', '%s cuts its page at %s from %s, whose order depends on the hash map' % (e, where(l), clip(show(l[2]), 80)), tr)
    for l in cut:
        if set(l[4]) & FILTERS - {'skip', 'take'}:
            R.viol('list:filter', '%s leaves uploads out at %s (%s)' % (e, where(l), ', '.join(l[4])))


# ------------------------------------------------------------------ C21
def c21(R):
    e = 'canister_update.finalize_upload'
    ex = fx('finalize_upload')
    R.use(ex)
    MRP = ('data', 'media_redirections')
    for x in exports_of():
        if mname(x) == 'finalize_upload':
            continue
        o = export(x)
        for l in o.labels():
            p = gwp(l)
            if p is not None and p[:2] == MRP:
                R.viol('writer:' + x, '%s changes the stored redirections at %s' % (x, where(l)))
    certs, puts = {}, {}
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('certify_assets'):
            for a in l[3]:
                for s in subs(a) if isinstance(a, V) else ():
                    if s.op == 'adt' and s.a[1] == 'Redirect':
                        f = dict(zip(s.a[2], s.a[3:]))
                        certs[l] = (f.get('from'), f.get('to'))
        t = touch(l)
        if t and t.path[:2] == MRP:
            if t.how == 'insert' and len(t.vals) == 2:
                puts[l] = t.vals
            else:
                R.viol('put', '%s changes the stored redirections at %s (%s)' % (e, where(l), t.how))
    if not certs:
        R.viol('anchor:cert', '%s: no certified redirection found' % e)
    if not puts:
        R.viol('anchor:put', '%s: no stored redirection found' % e)

    def check(fr, to, slash):
        P = [s for s in subs(fr) if same_key(s, KEY)]
        if not P:
            return 'serves %s, which is not the path of the upload' % clip(show(fr), 80)
        if same_key(fr, KEY) and slash is not True:
            return 'serves a path that may not start with /'
        if not same_key(fr, KEY) and not any(s.op == 'str' and '/' in s.a[0] for s in subs(fr)):
            return 'serves %s, which may not start with /' % clip(show(fr), 80)
        if not of_record(to, KEY):
            return 'redirects to %s, which is not on the canister that stores the file' % clip(show(to), 120)
        if fr not in subs(to):
            return 'redirects to %s, which is not the path of the file' % clip(show(to), 120)
        if not any(s.op == 'str' and 'https://' in s.a[0] and 'raw.icp0.io' in s.a[0] for s in subs(to)):
            return 'redirects to %s, which is not the address of the storage canister' % clip(show(to), 120)
        return None

    # state: (confirmed, slash known, certified pair, published, stored pair)
    def step(s, l):
        conf, sl, ce, pub, st = s
        x = said(l)
        if x and x[0] == 'answer' and x[1] and x[2][0] == 'finalize_upload':
            return (True, sl, ce, pub, st)
        if l[0] == 'p':
            v, b = l[1], l[2]
            while v.op == 'not' and isinstance(b, bool):
                v, b = v.a[0], not b
            if v.op == 'app' and v.a[0].endswith('starts_with') and same_key(v.a[1], KEY) and isinstance(b, bool) and v.a[2] in (N(47), mk('str', '/')):
                return (conf, b, ce, pub, st)
            a = [y for y in v.a if isinstance(y, V)]
            if v.op == 'ret' and v.a[0].endswith('strip_prefix') and len(a) == 2 and same_key(a[0], KEY) and a[1] in (N(47), mk('str', '/')) and b in ('Some', 'None'):
                return (conf, b == 'Some', ce, pub, st)
            return s
        if l in certs:
            if not conf:
                return Viol('certifies a redirection before the storage canister finalized the file', s)
            m = check(*certs[l], sl)
            n = (conf, sl, certs[l], False, st)
            return Viol(m, n) if m else n
        if l in puts:
            if not conf:
                return Viol('stores a redirection before the storage canister finalized the file', s)
            m = check(*puts[l], sl)
            n = (conf, sl, ce, pub, puts[l])
            return Viol(m, n) if m else n
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('certified_data_set'):
            return (conf, sl, ce, ce is not None and any(y.op == 'ret' and y.a[0].endswith('root_hash') for a in l[3] if isinstance(a, V) for y in subs(a)), st)
        if l[0] == 'e' and l[1] == 'call' and 'msg_reply' in l[2]:
            r = reply_value(l)
            for x in alts(r) if r is not None else ():
                if x.op == 'adt' and x.a[1] == 'Ok':
                    if ce is None or st is None:
                        return Viol('answers Ok although the file is not %s' % ('redirected' if ce is None else 'in the stored redirections (it is lost at the next upgrade)'), s)
                    if not pub:
                        return Viol('answers Ok although the certified data does not cover the new redirection', s)
                    if tuple(ce) != tuple(st):
                        return Viol('stores another redirection than the one it certifies', s)
                    u = [y for y in subs(x.a[3])]
                    if SELF not in u or ce[0] not in u:
                        return Viol('answers with an address that is not the path at this canister', s)
                    R.add('finalized answers')
        return s
    v, c = search(ex.g, (False, None, None, False, None), step)
    R.states += c
    for m, l, tr in v:
        R.viol('redirect:' + m[:60], '%s %s (%s)' % (e, m, where(l)), tr)
    R.floor('redirections', min(len(certs), len(puts)), 1)
    R.ob('%s: %d certified and %d stored redirections agree' % (e, len(certs), len(puts)))


# ------------------------------------------------------------------ C38
class Resolved:
    """an exploration whose labels name the uploads themselves where they name members of local lists of uploads"""

    def __init__(self, ex):
        from rules.queries import bases
        self.name, m = ex.name, {}

        def val(v):
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            if not isinstance(v, V):
                return v
            if not any(s.op == 'elem' for s in subs(v)):
                return v
            bs = list(dict.fromkeys(b for b, _ in bases(ex, v)))
            return bs[0] if len(bs) == 1 else v

        def lab(l):
            if l not in m:
                if l[0] == 'e' and l[1] in ('iter_next', 'iter_end'):
                    m[l] = l[:3] + val(l[3:])
                elif l[0] == 'e' and l[1] == 'out':
                    m[l] = l[:2] + (val(l[2]),) + l[3:]
                else:
                    m[l] = val(l)
            return m[l]

        class G:
            pass
        self.g = G()
        self.g.edges = [[(d, tuple(lab(l) for l in labs)) for d, labs in out] for out in ex.g.edges]
        self.g.ends = ex.g.ends
        self._l = list(dict.fromkeys(m.values()))

    def labels(self):
        return self._l


def c38(R):
    js = jobs()
    if not js:
        R.viol('anchor:job', 'no timer job that cancels uploads was found')
    n = 0
    for ex in js:
        R.use(ex)
        e = ex.name
        ex = Resolved(ex)
        ws = {w.l: w for w in upload_writes(ex)}
        cancels = {}
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'call' and 'storage_canister_c2c::' in l[2]:
                args = [x for x in l[3] if isinstance(x, V)]
                if not l[2].endswith('cancel_upload'):
                    R.viol('op', '%s calls %s at %s' % (e, l[2], where(l)))
                    continue
                can, a = args[-2:]
                ec = entry_path(can)
                fp = proj(a, 'file_path')
                if not ec or ec[1] != 'canister':
                    R.viol('canister', '%s cancels at %s on %s, not on the canister of an upload' % (e, where(l), clip(show(can), 80)))
                    continue
                if not same_key(fp, ec[0]):
                    R.viol('path', '%s asks at %s the canister of one upload to cancel another (%s)' % (e, where(l), clip(show(fp), 80)))
                cancels[l] = ec[0]
        if not cancels:
            R.viol('anchor:cancel', '%s cancels no upload' % e)
        n += len(cancels)

        def old(l):
            """age literal: (key, older than a day?)"""
            if l[0] != 'p':
                return None
            v, x = l[1], l[2]
            while v.op == 'not' and isinstance(x, bool):
                v, x = v.a[0], not x
            if v.op != 'lt' or not isinstance(x, bool):
                return None
            a, b = v.a

            def start(t):
                y = entry_path(t)
                return y[0] if y and y[1] == 'init_timestamp' else None
            if a is N(DAY) and b.op == 'app' and b.a[0] == 'sub' and b.a[1] is NOW and start(b.a[2]) is not None:
                return (start(b.a[2]), x)                 # DAY < now - init
            if b is N(DAY) and a.op == 'app' and a.a[0] == 'sub' and a.a[1] is NOW and start(a.a[2]) is not None:
                return (start(a.a[2]), not x)             # now - init < DAY  (at the limit: kept or not)
            if b is NOW and a.op == 'app' and a.a[0] == 'add' and N(DAY) in a.a[1:]:
                k = [start(t) for t in a.a[1:] if isinstance(t, V) and start(t) is not None]
                return (k[0], x) if k else None           # init + DAY < now
            if a.op in ('g',) and start(a) is not None and b.op == 'app' and b.a[0] == 'sub' and b.a[1] is NOW and b.a[2] is N(DAY):
                return (start(a), x)
            return None
        inner = {l for l in ex.labels() if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and (over_files(l[2]) or l[2].op == 'wid')}
        at = loops_at(ex, list(cancels))
        locs = {c[-1][-1] for cs in at.values() for c in cs if c}
        if any(not c or c[-1] not in inner for cs in at.values() for c in cs):
            R.viol('loop', '%s cancels outside a loop over the uploads' % e)
        outs = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'out' and len(l) > 5]
        pre = {c[-1][-1] for cs in loops_at(ex, outs).values() for c in cs if c} - locs
        for l in inner:
            if l[1] == 'iter_next' and set(l[4]) & FILTERS - {'filter', 'filter_map'}:
                R.viol('filter', '%s leaves uploads out at %s (%s)' % (e, where(l), ', '.join(l[4])))
        # what is known of an upload: (older than a day?, states possible); state of the walk:
        # (loop, upload, cancellation asked, accepted, forgotten, kept for a later loop, what is known of the members of local lists)
        ALL = (None, frozenset(STATES))

        def closed(s):
            loop, (age, ss), can, acc, rem, kept, facts = s
            if loop and not can and not kept and age is not False and ss - {'Finalized'}:
                return 'skips an upload that may be expired and unfinished'
            if acc is True and not rem:
                return 'keeps an upload that the storage canister cancelled'
            return None

        def step(s, l):
            loop, up, can, acc, rem, kept, facts = s
            age, ss = up
            if l in inner and (l[-1] in locs or l[-1] in pre):
                m = closed(s) if loop == l[-1] or l[-1] in locs else None
                s = (l[-1], dict(facts).get(l[2], ALL), False, None, False, False, facts) if l[1] == 'iter_next' else (None, ALL, False, None, False, False, facts)
                return Viol(m, s) if m else s
            if l in outset:
                d = dict(facts)
                o = d.get(l[4])
                if l[4].op != 'wid':
                    d[l[3]] = up
                elif o is not None:
                    d[l[3]] = (o[0] if o[0] == age else None, o[1] | ss)
                else:
                    d.pop(l[3], None)
                return (loop, up, can, acc, rem, True, frozenset(d.items()))
            o = old(l)
            if o:
                return (loop, (o[1], ss), can, acc, rem, kept, facts)
            if l[0] == 'p':
                y = entry_path(l[1].a[0]) if l[1].op == 'opt' else None
                if y and y[1] is None and l[2] == 'None':
                    return (loop, (age, frozenset()), can, acc, rem, kept, facts)
                y = entry_path(l[1])
                if y and y[1] == 'state':
                    xs = {l[2]} if isinstance(l[2], str) else set(l[2]) if isinstance(l[2], tuple) else ss
                    return (loop, (age, ss & xs), can, acc, rem, kept, facts)
                x = said(l)
                if x and x[0] == 'call' and x[2][0] == 'cancel_upload':
                    return (loop, up, can, x[1], rem, kept, facts)
                if x and x[0] == 'answer' and x[2][0] == 'cancel_upload':
                    return (loop, up, can, x[1] if x[1] else None, rem, kept, facts)
                return s
            if l in cancels:
                m = None
                if age is not True:
                    m = 'cancels an upload that may be younger than a day'
                elif 'Finalized' in ss:
                    m = 'cancels an upload that may be finalized'
                n = (loop, up, True, None, rem, kept, facts)
                return Viol(m, n) if m else n
            w = ws.get(l)
            if w is not None:
                if w.how != 'remove':
                    return Viol('changes upload records at %s' % where(l), s)
                m = None
                if not any(w.key is k or same_key(w.key, k) for k in cancels.values()):
                    m = 'forgets another upload (%s) than the one it cancelled' % clip(show(w.key), 80)
                elif acc is not True:
                    m = 'forgets an upload the storage canister did not cancel'
                n = (loop, up, can, acc, True, kept, facts)
                return Viol(m, n) if m else n
            return s
        outset = set(outs)

        def at_end(s, kind):
            if kind == 'return' and s[0] in locs:
                return 'ends before it looked at every upload'
        v, c = search(ex.g, (None, ALL, False, None, False, False, frozenset()), step, at_end)
        R.states += c
        for m, l, tr in v:
            R.viol('gc:' + m[:60], '%s %s (%s)' % (e, m, where(l) if l else ''), tr)
        R.ob('%s: %d cancellations' % (e, len(cancels)))
    R.floor('cancellations', n, 1)


# ------------------------------------------------------------------ C39
def c39(R):
    SM = ('data', 'sub_canister_manager')
    made = lambda v: any(s.op in ('ret', 'hav') and str(s.a[0]).endswith('create_canister') for s in subs(v))
    nc = nw = 0
    for e in exports_of(kinds=('canister_update.', 'canister_query.')):
        ex = fx(e) if mname(e) in OPS else export(e)
        R.use(ex)
        name = mname(e)
        creates = {l for l in ex.labels() if l[0] == 'e' and l[1] == 'call' and l[2].endswith('create_canister')}
        sets = {l: touch(l) for l in ex.labels() if (gwp(l) or ())[:2] == SM}
        nc += len(creates)
        nw += len(sets)
        if not creates and not sets:
            continue

        def step(s, l):
            if l in creates:
                return True
            t = sets.get(l)
            if t is not None:
                if not any(has_g(x, *SM) or made(x) for x in t.vals) and not t.how.startswith('ext:'):
                    return Viol('replaces the list of storage canisters by %s' % clip(show(t.vals[0]) if t.vals else t.how, 100), s)
                if s and not any(made(x) for x in t.vals) and not t.how.startswith('ext:'):
                    return Viol('writes back a list of storage canisters without the one just created', False)
                return False
            if s and l[0] == 'e' and l[1] == 'call' and ('msg_reply' in l[2] or 'msg_reject' in l[2]):
                return Viol('answers without keeping the storage canister it created', s)
            return s

        def at_end(s, kind):
            if kind == 'return' and s:
                return 'ends without keeping the storage canister it created'
        v, c = search(ex.g, False, step, at_end)
        R.states += c
        for m, l, tr in v:
            R.viol('keep:%s:%s' % (name, m[:40]), '%s %s (%s)' % (e, m, where(l) if l else ''), tr)
    # placing an upload
    e, ex = 'canister_update.init_upload', fx('init_upload')
    size = proj(ARG(0), 'file_size')
    ups = {}
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('storage_canister_c2c::init_upload'):
            ups[l] = [x for x in l[3] if isinstance(x, V)][0]
    R.floor('placements of an upload', len(ups), 2)

    def room(l):
        """canister term the branch establishes room on"""
        if l[0] != 'p':
            return None
        v, x = l[1], l[2]
        while v.op == 'not' and isinstance(x, bool):
            v, x = v.a[0], not x
        if v.op != 'lt' or not isinstance(x, bool):
            return None
        a, b = v.a
        big, lim = (b, a) if x is False else (a, b)
        if lim is not N(MAX_STORAGE):
            if lim.op == 'app' and lim.a[0] == 'sub' and lim.a[1] is N(MAX_STORAGE):
                big = mk('app', 'add', big, lim.a[2])
            else:
                return None
        if big.op == 'app' and big.a[0] == 'add':
            ts = list(big.a[1:])
            if size in ts:
                ts.remove(size)
                c = ts and ts[0].op == 'pay' and c2c(ts[0].a[0])
                if c and c[0] == 'get_storage_size':
                    return c[1]
        return None

    def small(l):
        if l[0] != 'p':
            return None
        v, x = l[1], l[2]
        while v.op == 'not' and isinstance(x, bool):
            v, x = v.a[0], not x
        if v.op == 'lt' and v.a[0] is N(MAX_FILE) and v.a[1] is size and x is False:
            return True
        if v.op == 'lt' and v.a[0] is size and x is True and v.a[1] in (N(MAX_FILE), N(MAX_FILE + 1)):
            return True
        return None

    def step2(s, l):
        ok, rooms, tried = s
        if small(l):
            return (True, rooms, tried)
        c = room(l)
        if c is not None:
            return (ok, rooms | {c}, tried)
        if l[0] == 'e' and l[1] in ('iter_next', 'iter_end'):
            t = tried or (l[1] == 'iter_end' and any(x.op == 'ret' and x.a[0].endswith(('list_canisters', 'list_canisters_ids')) for x in subs(l[2]))) or (l[1] == 'iter_end' and (l[2].op in ('wid', 'bag')))
            return (ok, frozenset(), t)
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('create_canister'):
            if not tried:
                return Viol('creates a storage canister before it tried the existing ones', s)
            return s
        if l in ups:
            if not ok:
                return Viol('places a file that may be larger than the limit', s)
            if not made(ups[l]) and ups[l] not in rooms:
                return Viol('places a file on a canister that may not have room for it', s)
        return s
    v, c = search(ex.g, (False, frozenset(), False), step2)
    R.states += c
    for m, l, tr in v:
        R.viol('place:' + m[:50], '%s %s (%s)' % (e, m, where(l)), tr)
    R.floor('created storage canisters', nc, 1)
    R.floor('write-backs of the storage canister list', nw, 1)
    R.ob('init_upload: %d placements; every created storage canister is kept' % len(ups))
