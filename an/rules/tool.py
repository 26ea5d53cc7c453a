"""C37 the command line tool does what it is told and reports success only on success, C29 the tool uploads the whole file.
The whole program is explored from main; the replies of the canister and the answers of the argument parser are unknown."""
from rl import *
from val import *
import query
from query import where, search, Viol
from rules.ops import fx  # noqa: F401
from rules.queries import subs

CLI = 'origyn_icrc7_cmdlinetools'
UPDATE = {('upload-file',): ('init_upload', 'store_chunk', 'finalize_upload'), ('upload-metadata',): ('init_upload', 'store_chunk', 'finalize_upload'),
          ('mint',): ('mint',), ('permissions', 'grant'): ('grant_permission',), ('permissions', 'revoke'): ('revoke_permission',)}
QUERY = {('permissions', 'list'): ('get_user_permissions',), ('permissions', 'has'): ('has_permission',)}
LAST = {k: v[-1] for k, v in (*UPDATE.items(), *QUERY.items())}


def main():
    return query.function('main', CLI, limit=400, flat=True)


def is_ret(v, *names):
    return v.op == 'ret' and any(v.a[0] == n or v.a[0].endswith('::' + n) for n in names)


def level(m):
    """how deep in the subcommands these matches are (0: the program's own arguments)"""
    n = 0
    while True:
        if m.op == 'fld' or m.op == 'proj':
            m = m.a[0]
        elif m.op == 'pay':
            m = m.a[0]
        elif is_ret(m, 'ArgMatches::subcommand', 'ArgMatches::remove_subcommand'):
            n += 1
            m = m.a[2]
        elif is_ret(m, 'ArgMatches::subcommand_matches'):
            n += 1
            m = m.a[2]
        elif is_ret(m, 'Command::get_matches'):
            return n
        else:
            return None


def args_in(v):
    """{(level, name)} of the command line arguments the value is made of"""
    return {(level(s.a[2]), s.a[3].a[0]) for s in subs(v) if is_ret(s, 'get_one', 'get_many', 'get_flag', 'remove_one') and len(s.a) > 3 and s.a[3].op == 'str'}


def bare(v):
    """the value behind ?-operators, unwraps and text conversions"""
    while True:
        if v.op == 'pay':
            v = v.a[0]
        elif is_ret(v, 'Principal::from_text', 'from_str', 'parse', 'hex::decode', 'to_lowercase', 'to_ascii_lowercase', 'str::trim') and len(v.a) > 2:
            v = v.a[2]
        elif v.op == 'app' and v.a[0] == 'parse':
            v = v.a[1]
        else:
            return v


def is_arg(v, lv, name):
    v = bare(v)
    return is_ret(v, 'get_one', 'remove_one') and len(v.a) > 3 and v.a[3].op == 'str' and v.a[3].a[0] == name and level(v.a[2]) == lv


def fields(v):
    return dict(zip(v.a[2], v.a[3:])) if v.op == 'adt' else {}


def request(b):
    """(kind, agent, canister, method, argument) of the request a builder stands for"""
    arg = None
    while b.op == 'ret':
        if is_ret(b, 'Agent::update', 'Agent::query'):
            m = b.a[4]
            return b.a[0].rsplit('::', 1)[1], b.a[2], b.a[3], m.a[0] if m.op == 'str' else None, arg
        if b.a[0].endswith('::with_arg'):
            arg = b.a[3]
        if len(b.a) < 3:
            return None
        b = b.a[2]
    return None


def payload(bytes_):
    """the value that was encoded into the argument"""
    for s in subs(bytes_) if bytes_ is not None else ():
        if is_ret(s, 'IDLBuilder::arg') and len(s.a) > 3:
            return s.a[3]
        if is_ret(s, 'encode_one', 'candid::encode_one') and len(s.a) > 2:
            return s.a[2]
    return None


def sent(l):
    """(call term, request) if the label sends a request"""
    if l[0] == 'e' and l[1] == 'call' and (l[2].endswith('Builder::call_and_wait') or l[2].endswith('Builder::call')):
        t = l[4]
        q = request(t.a[2]) if t.op == 'ret' and len(t.a) > 2 else None
        if q:
            return t, q
    return None


def accepted(l):
    """the calls whose reply the branch knows to be Ok"""
    if l[0] != 'p' or l[2] != 'Ok':
        return ()
    v = l[1]
    if v.op != 'pay' or not is_ret(v.a[0], 'decode'):
        return ()
    return [s.a[0] for s in subs(v.a[0]) if s.op == 'out' and s.a[0].op == 'ret' and 'Builder::call' in s.a[0].a[0]]


def word(l):
    """(value, text) of a branch that found a text equal to a constant"""
    if l[0] != 'p' or l[2] is not True or l[1].op != 'eq':
        return None
    x, y = l[1].a
    if y.op == 'str':
        x, y = y, x
    return (y, x.a[0]) if x.op == 'str' else None


def command(l):
    """(level, name) of the subcommand the branch selects"""
    w = word(l)
    if w:
        v = w[0]
        while v.op in ('fld', 'proj', 'pay', 'tupf') or v.op == 'g':
            v = v.a[0]
        if is_ret(v, 'ArgMatches::subcommand', 'subcommand_name'):
            return level(w[0]), w[1]
    return None


def plainname(s):
    return s.lower().replace('_', '').replace('-', '').replace(' ', '')


def permission_names():
    p = prog(CLI)
    for a in p.adts.values() if isinstance(p.adts, dict) else p.adts:
        if a.get('name', '').endswith('::Permission') or a.get('path', '').endswith('::Permission'):
            return [v['name'] for v in a['variants']]
    return []


def single(ex, rs):
    """the only element of the list (several: the alternatives), or nothing"""
    if rs is None:
        return ()
    if rs.op in ('arr', 'bag'):
        return rs.a if len(rs.a) == 1 else ()
    outs = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'out' and len(l) > 5 and l[3] is rs]
    if outs and all(l[4].op in ('bag', 'arr') and not l[4].a for l in outs):
        return tuple({l[2] for l in outs})
    return ()


def mint_args(rs):
    """why the requested tokens are not the token asked for"""
    if not rs:
        return 'does not ask for exactly one token'
    for r in rs:
        m = mint_request(fields(r))
        if m:
            return m
    return None


def mint_request(f):
    acc = fields(f.get('token_owner', UNIT))
    if not acc or not is_arg(acc['owner'], 1, 'owner'):
        return 'names an owner that is not the one given'
    for x in alts(acc['subaccount']):
        if x.op == 'adt' and x.a[1] == 'None':
            continue
        if x.op == 'adt' and x.a[1] == 'Some':
            x = x.a[3]
        if (1, 'subaccount') not in args_in(x):
            return 'names a subaccount that is not the one given'
    for x in alts(f.get('memo', UNIT)):
        if not (x.op == 'adt' and x.a[1] == 'None') and args_in(x) != {(1, 'memo')}:
            return 'carries a memo that is not the one given'
    return None


def perm_args(v, perm=True):
    f = fields(v)
    if 'principal' not in f or not is_arg(f['principal'], 2, 'principal'):
        return 'names a principal that is not the one given'
    return None


def c37(R):
    ex = main()
    R.use(ex)
    methods, cmds, names, labels = set(), set(), {}, {}
    # state: (subcommands chosen, permission text, options known to be absent, requests not confirmed, requests confirmed, network, key element)
    st0 = ((), None, frozenset(), frozenset(), frozenset(), None, None)

    kept = {l for l in ex.labels() if l[0] == 'e' and l[1] == 'out' and l[2].op == 'tup' and (1, 'metadata') in args_in(l[2])}
    lists = {l[3] for l in kept if len(l) > 4}

    def entries_of(v, none):
        """why the metadata is not what was given"""
        if (1, 'icrc97_url', 'Some') in none:
            for x in alts(v):
                if (1, 'icrc97_url') not in args_in(x):
                    return 'does not carry the metadata URL given'
                ts = [y.a[0] for y in subs(x) if y.op == 'str']
                if 'icrc97:metadata' not in ts:
                    return 'does not carry the metadata URL as icrc97:metadata'
            return None
        if ('interactive', True) in none:
            return None
        for x in alts(v):
            if ('kept',) in none and not (set(subs(x)) & lists) and (1, 'metadata') not in args_in(x):
                return 'leaves out the metadata entries given'
        return None

    def upd(s, **k):
        f = ('cmd', 'perm', 'none', 'open', 'done', 'net', 'shown')
        return tuple(k.get(n, x) for n, x in zip(f, s))

    def step(s, l):
        cmd, perm, none, open_, done, net, shown = s
        c = command(l)
        if c:
            cmds.add(c[1])
            return upd(s, cmd=(*cmd[:c[0] - 1], c[1]))
        w = word(l)
        if w:
            a = args_in(w[0])
            if a == {(2, 'permission')}:
                return upd(s, perm=w[1])
            if a == {(0, 'network')}:
                return upd(s, net=w[1])
        if l[0] == 'p' and l[2] in ('Some', 'None') and is_ret(l[1], 'get_one', 'get_many') and len(l[1].a) > 3:
            n = (level(l[1].a[2]), l[1].a[3].a[0] if l[1].a[3].op == 'str' else '?')
            return upd(s, none=none | {n + (l[2],)})
        if l[0] == 'e' and l[1] == 'out' and len(l) > 5 and l[2].op == 'adt' and 'token_owner' in l[2].a[2] and l[4].op in ('arr', 'bag') and not l[4].a:
            return upd(s, none=frozenset(x for x in none if x[:2] != ('out', l[3])) | {('out', l[3], l[2])})
        if l in kept:
            return upd(s, none=none | {('kept',)})
        if l[0] == 'p' and is_ret(l[1], 'get_flag') and args_in(l[1]) == {(1, 'interactive')}:
            return upd(s, none=none | {('interactive', l[2])})
        q = sent(l)
        if q:
            t, (kind, agent, can, meth, arg) = q
            methods.add((cmd, meth))
            if open_:
                return Viol(('early', meth, 'sends %s although an earlier request is not known to have been accepted' % meth), s)
            want = UPDATE.get(cmd, ()) + QUERY.get(cmd, ())
            if meth not in want:
                return Viol(('method', meth, 'calls %s on the command "%s"' % (meth, ' '.join(cmd) or '(none)')), s)
            if meth in UPDATE.get(cmd, ()) and (kind != 'update' or not l[2].endswith('call_and_wait')):
                return Viol(('kind', meth, 'sends %s without waiting for its execution as an update' % meth), s)
            if not is_arg(can, 0, 'canister'):
                return Viol(('canister', meth, 'sends %s to %s, not to the canister given' % (meth, clip(show(can), 50))), s)
            p = payload(arg)
            m = None
            if p is None:
                m = 'carries no recognisable argument'
            elif meth == 'mint':
                rs = fields(p).get('mint_requests')
                here = tuple(x[2] for x in none if x[0] == 'out' and x[1] is rs) or single(ex, rs)
                m = mint_args(here)
                for r in here if not m else ():
                    f = fields(r)
                    sub = fields(f['token_owner'])['subaccount']
                    m = m or entries_of(f.get('metadata', UNIT), none)
                    for o, v in (('subaccount', sub), ('memo', f['memo'])) if not m else ():
                        empty = all(x.op == 'adt' and x.a[1] == 'None' for x in alts(v))
                        if empty and (1, o, 'None') not in none:
                            m = 'leaves out the %s' % o
            elif cmd[:1] == ('permissions',):
                m = perm_args(p)
                v = fields(p).get('permission')
                if not m and v is not None:
                    for x in alts(v):
                        if x.op != 'adt':
                            m = 'names a permission that is not known to be the one given'
                        elif perm is None or plainname(perm) != plainname(x.a[1]):
                            m = 'names the permission %s when %s is given' % (x.a[1], perm or 'something else')
                        else:
                            names.setdefault(x.a[1], set()).add(perm)
            if m:
                return Viol(('argument', meth, 'sends a %s request that %s' % (meth, m)), upd(s, open=open_ | {t}))
            return upd(s, open=open_ | {t})
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('Agent::fetch_root_key') and (net == 'ic' or any(x.op == 'str' and 'ic0.app' in x.a[0] for a in l[3] for x in subs(a))):
            return Viol(('rootkey', '', 'takes the root key of the main network from the network instead of the built-in one, so answers are not authenticated'), s)
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('AgentBuilder::with_url'):
            urls = [x for x in alts(l[3][1])]
            for u in urls:
                if u.op == 'str' and (net == 'ic') != ('ic0.app' in u.a[0] or 'icp-api' in u.a[0] or 'icp0.io' in u.a[0]):
                    return Viol(('network', '', 'talks to %s on the network %s' % (u.a[0], net)), s)
            return s
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith('AgentBuilder::with_identity'):
            if (0, 'identity') not in args_in(l[3][1]):
                return Viol(('identity', '', 'does not use the identity given'), s)
            return s
        ok = accepted(l)
        if ok:
            n = frozenset(x for x in open_ if x not in ok)
            if n != open_:
                return upd(s, open=n, done=done | {request(x.a[2])[3] for x in open_ - n})
        # what is shown about a permission
        if l[0] == 'p' and cmd == ('permissions', 'list') and l[2] in PERM and any(x.op == 'elem' for x in subs(l[1])) and any(is_ret(x, 'decode') for x in subs(l[1])):
            return upd(s, shown=l[2])
        if l[0] == 'e' and l[1] == 'iter_next' and cmd == ('permissions', 'list') and any(is_ret(x, 'decode') for x in subs(l[2])):
            if shown not in (None, 'printed'):
                return Viol(('list', shown, 'does not show the permission %s' % shown), s)
            odd = set(l[4]) & query.FILTERS
            if odd:
                return Viol(('list', '', 'leaves permissions out of the list (%s)' % ', '.join(sorted(odd))), s)
            return upd(s, shown='?')
        if l[0] == 'e' and l[1] == 'iter_end' and cmd == ('permissions', 'list') and any(is_ret(x, 'decode') for x in subs(l[2])):
            if shown not in (None, 'printed'):
                return Viol(('list', str(shown), 'does not show a permission of the list'), s)
            return upd(s, shown=None)
        if l[0] == 'e' and l[1] == 'call' and l[2].endswith(('io::_print', 'io::_eprint')):
            texts = [x.a[0] for a in l[3] for x in subs(a) if x.op == 'str']
            if cmd == ('permissions', 'list') and shown is not None and shown != 'printed':
                got = [p for p in PERM if any(plainname(t) == plainname(p) for t in texts)]
                if shown == '?':
                    if any(x.op == 'elem' for a in l[3] for x in subs(a)):
                        return upd(s, shown='printed')
                    return s
                if got and got != [shown]:
                    return Viol(('list', shown, 'shows the permission %s as %s' % (shown, got[0])), s)
                if got or any(x.op == 'elem' for a in l[3] for x in subs(a)):
                    labels[shown] = got
                    return upd(s, shown='printed')
                return s
            if cmd == ('permissions', 'has') and done:
                t = [x for x in texts if x.strip() in ('true', 'false', 'yes', 'no')]
                if t and none:
                    k = [x for x in none if x[0] == 'has']
                    if k and k[0][1] != (t[0].strip() in ('true', 'yes')):
                        return Viol(('has', '', 'answers %s although the canister answered %s' % (t[0], str(k[0][1]).lower())), s)
                    if not k:
                        return Viol(('has', '', 'answers %s whatever the canister answered' % t[0]), s)
                    return upd(s, done=done | {'shown'})
                if any(is_ret(x, 'decode') for a in l[3] for x in subs(a)):
                    return upd(s, done=done | {'shown'})
            if done and any(is_ret(x, 'decode') for a in l[3] for x in subs(a)):
                return upd(s, done=done | {'shown'})
            return s
        if l[0] == 'p' and isinstance(l[2], bool) and cmd == ('permissions', 'has') and l[1].op == 'pay' and any(is_ret(x, 'decode') for x in subs(l[1])):
            return upd(s, none=none | {('has', l[2])})
        if l[0] == 'e' and l[1] == 'return' and not isinstance(l[-1], str):
            r = l[2]
            good = [x for x in alts(r) if not (x.op == 'adt' and x.a[1] == 'Err')] if isinstance(r, V) else [1]
            if good:
                if open_:
                    m = sorted(request(x.a[2])[3] or '?' for x in open_)
                    return Viol(('silent', m[0], 'reports success although %s is not known to have been accepted by the canister' % ', '.join(m)), s)
                if cmd in LAST and LAST[cmd] not in done:
                    return Viol(('nothing', ' '.join(cmd), 'reports success on the command "%s" without %s having been executed' % (' '.join(cmd), LAST[cmd])), s)
                if cmd in (('mint',), ('permissions', 'has'), ('upload-file',), ('upload-metadata',)) and 'shown' not in done:
                    return Viol(('result', ' '.join(cmd), 'does not show the answer of the canister on the command "%s"' % ' '.join(cmd)), s)
            return s
        return s
    PERM = set(PERMS)
    v, n = search(ex.g, st0, step)
    R.states += n
    for (k, m, t), l, tr in v:
        R.viol('%s:%s' % (k, m), 'the command line tool %s (%s)' % (t, where(l)), tr)
    R.floor('requests of the command line tool', len({m for _, m in methods}), 8)
    R.floor('subcommands', len(cmds), 10)
    for c, m in sorted(methods, key=str):
        R.ob('%s sends %s' % (' '.join(c), m))
    if not v:
        R.floor('permissions that can be named', len(names), len(PERMS))
    given_entries(R, ex, (1, 'metadata'), 2, 'metadata entries given to mint', 'minted')
    given_entries(R, ex, (1, 'attribute'), 3, 'attributes given to create-metadata', 'written')


PERMS = ('Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads')


def given_entries(R, ex, opt, n, what, done):
    """every entry of the repeated option is kept, under its own key and with its whole value"""
    E = None
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'iter_next' and args_in(l[2]) == {opt} and not any(x.op in ('elem', 'wid') or is_ret(x, 'str::split', 'str::splitn') for x in subs(l[2])):
            E = l
            odd = set(l[4]) & query.FILTERS - {'filter_map', 'flat_map', 'flatten'}
            if odd:
                R.viol('entries:' + opt[1], 'the command line tool leaves %s out (%s, %s)' % (what, ', '.join(sorted(odd)), where(l)), '')
    if E is None:
        R.viol('anchor:entries:' + opt[1], 'no loop over the %s found' % what, '')
        return
    src = E[2]
    optional = any('flatten' in l[4] for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next' and l[2] is src)

    def of(v):
        return any(x.op == 'elem' and x.a[0] is src for x in subs(v))
    def parts(v):
        """which pieces of the text of the entry, cut at the separator, the value is made of"""
        out = set()
        for x in subs(v):
            if x.op in ('fld', 'proj', 'at') and len(x.a) == 2 and isinstance(x.a[0], V):
                b = x.a[0].a[0] if x.a[0].op == 'pay' else x.a[0]
                if is_ret(b, 'str::split', 'str::splitn', 'str::split_once') and of(b):
                    out.add(str(show(x.a[1]) if isinstance(x.a[1], V) else x.a[1]))
        return out
    seen = set()

    # state: inside an iteration: entry pushed?
    def step(s, l):
        if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and l[2] is src:
            if s == 'open' and not optional:
                return Viol('dropped', s)
            return 'open' if l[1] == 'iter_next' else 'out'
        if l[0] == 'e' and l[1] == 'out' and s in ('open', 'done') and l[2].op == 'tup' and len(l[2].a) == n and of(l[2]):
            k, v = l[2].a[:2]
            if not of(k) or k.op == 'elem' or (k is v and k.op not in ('wid',)) or parts(k) - {'0'}:
                return Viol('key', 'done')
            if '0' in parts(v):
                return Viol('value', 'done')
            for x in alts(v):
                if x.op == 'adt' and len(x.a) > 3:
                    x = x.a[3]
                for y in alts(x):
                    if y.op != 'wid' and (not of(y) or bare(y).op == 'elem' and bare(y).a[0] is src):
                        return Viol('value', 'done')
            seen.add(l)
            return 'done'
        return s
    v, k = search(ex.g, 'out', step)
    R.states += k
    text = {'dropped': 'ignores one of the %s', 'key': 'keeps one of the %s under a key that is not its own', 'value': 'keeps one of the %s with a value that is not its own'}
    for m, l, tr in v:
        R.viol('entry:%s:%s' % (m, opt[1]), 'the command line tool %s (%s)' % (text[m] % what, where(l)), tr)
    # a value cut at every separator loses what follows the second one
    for l in seen if n == 2 else ():
        v = l[2].a[1]
        for x in subs(v):
            if is_ret(x, 'str::split') and of(x) and not any(is_ret(y, 'join', 'concat') for y in subs(v)):
                R.viol('entry:cut', 'the command line tool cuts the value of a metadata entry at a second separator (%s)' % where(l), '')
                break
    R.floor('places where %s are kept' % what, len(seen), 1)
    R.ob('%d places where %s are %s' % (len(seen), what, done))


def content(x):
    """the content of a file that was read as a whole"""
    x = bare(x)
    return is_ret(x, 'fs::read', 'fs::read_to_string') or x.op == 'hav' and 'read_to_' in str(x.a[0])


def file_arg(x):
    return {a for a in args_in(x) if a[1] in ('file_path', 'metadata_file')}


def c29(R):
    ex = main()
    R.use(ex)
    stores, forms = set(), set()
    WHICH = {('upload-file',): (1, 'file_path'), ('upload-metadata',): (1, 'metadata_file')}
    loops = {l[2] for l in ex.labels() if l[0] == 'e' and l[1] == 'iter_next'}

    def chunks(v):
        """(file content, chunk size, list) if v is a chunk of a list of chunks"""
        for x in subs(v):
            if x.op in ('elem', 'idx') and x.a and is_ret(x.a[0], 'slice::chunks', 'chunks') and len(x.a[0].a) > 3:
                return x.a[0].a[2], x.a[0].a[3], x.a[0]
        return None

    def init(p, cmd, s):
        f = fields(p)
        size, h, cs = f.get('file_size'), f.get('file_hash'), f.get('chunk_size')
        dig = [x for x in subs(h) if is_ret(x, 'digest')]
        X = dig[0].a[2] if len(dig) == 1 else None
        dig = [x for x in subs(h) if x.op == 'app' and x.a[0] == 'hashed']
        if len(dig) == 1 and is_ret(dig[0].a[1], 'Digest::new') and any(is_ret(x, 'Digest::finalize') and x.a[2] is dig[0] for x in subs(h)):
            X = dig[0].a[2]
        if X is None:
            for x in subs(h):
                if is_ret(x, 'finalize') or 'update' in str(x.a[:1]):
                    X = next((y for y in subs(h) if content(y)), None)
        if X is None or not content(X):
            return None, 'announces a hash that is not that of the content of the file'
        want = WHICH.get(cmd)
        if want and file_arg(X) and file_arg(X) != {want}:
            return None, 'announces the hash of another file'
        if any(x.op == 'app' and x.a[0] == 'upperhex' for x in subs(h)):
            return None, 'announces the hash in another notation than the lower-case one the storage canister compares'
        if not (size.op == 'len' and bare(size.a[0]) is bare(X) or any(is_ret(x, 'Metadata::len') for x in subs(size)) and file_arg(size) in (set(), {want})):
            return None, 'announces a size that is not that of the content of the file'
        c = [x.a[3] if x.op == 'adt' and x.a[1] == 'Some' else x for x in alts(cs)]
        if any(x.op == 'adt' for x in c):
            return None, 'does not announce the size of the chunks it sends'
        if len(c) != 1:
            c = [None]
        return (bare(X), f.get('file_path'), c[0]), None

    # state: command, upload announced, chunk of this iteration stored, all chunks stored
    def step(s, l):
        cmd, up, it, full, pos, empty = s
        c = command(l)
        if c:
            return ((*cmd[:c[0] - 1], c[1]), up, it, full, pos, empty)
        q = sent(l)
        if q:
            t, (kind, agent, can, meth, arg) = q
            p = payload(arg)
            f = fields(p) if p is not None else {}
            if meth == 'init_upload' and p is not None:
                up, m = init(p, cmd, s)
                n = (cmd, up, '', False, '', empty)
                if cmd == ('upload-file',) and not m and not is_arg(f['file_path'], 1, 'destination_path'):
                    m = 'announces another destination than the one given'
                return Viol(('init', m), n) if m else n
            if meth == 'store_chunk' and p is not None:
                n = (cmd, up, 'sent', full, pos, empty)
                if up is None:
                    return Viol(('order', 'sends a chunk of an upload that was not announced'), n)
                X, path, cs = up
                d, i = f.get('chunk_data'), f.get('chunk_id')
                if f.get('file_path') is not path:
                    return Viol(('path', 'sends a chunk under another path than the one announced'), n)
                stores.add(l)
                ch = chunks(d)
                if ch:
                    forms.add('chunks')
                    if bare(ch[0]) is not X:
                        return Viol(('content', 'sends chunks that are not cut from the content that was announced'), n)
                    if cs is not None and ch[1] is not cs:
                        return Viol(('size', 'cuts the file into chunks of another size than the one announced'), n)
                    idx = [x for x in subs(i) if x.op == 'idx']
                    if i.op == 'elem' and i.a[0].op == 'adt' and i.a[0].a[0].endswith('RangeFrom') and proj(i.a[0], 'start') is intv(0):
                        pass        # numbers from 0 zipped with the chunks
                    elif not idx or idx[0].a[0] is not ch[2]:
                        if i.op == 'idx' or i.op == 'int' or not any(x.op in ('phi', 'wid', 'lv', 'app') for x in subs(i)):
                            return Viol(('id', 'sends a chunk under a number that is not its position'), n)
                    elif i is not idx[0]:
                        return Viol(('id', 'sends a chunk under a number that is not its position'), n)
                    if any(x.op == 'app' and x.a[0] in ('slice', 'cut', 'rest', 'range') for x in subs(d)) and d is not mk('elem', ch[2]):
                        return Viol(('content', 'sends only a part of a chunk'), n)
                elif any(is_ret(x, 'chunks_exact', 'rchunks', 'rchunks_exact', 'windows', 'array_chunks', 'as_chunks', 'array_windows') for x in subs(d)):
                    return Viol(('content', 'cuts the file in a way that leaves out or repeats some of it'), n)
                elif any(x.op == 'hav' and str(x.a[0]).endswith('Read::read') for x in subs(d)):
                    return Viol(('short', 'sends what a single read returned, which may be less than the chunk'), n)
                elif X in subs(d):
                    forms.add('ranges')
                elif any(x.op == 'hav' and 'read_exact' in str(x.a[0]) or is_ret(x, 'Read::take') for x in subs(d)):
                    forms.add('reads')
                else:
                    return Viol(('content', 'sends chunks that are not cut from the content that was announced'), n)
                return n
            if meth == 'finalize_upload' and p is not None:
                n = (cmd, None, '', False, '', empty)
                if up is None:
                    return Viol(('order', 'finalizes an upload that was not announced'), n)
                if f.get('file_path') is not up[1]:
                    return Viol(('path', 'finalizes another path than the one announced'), n)
                if not full:
                    return Viol(('order', 'finalizes an upload although not every chunk is known to have been stored'), n)
                return n
        if l[0] == 'p' and up is not None and l[1].op == 'lt' and l[2] is False and l[1].a[1].op == 'len' and bare(l[1].a[1].a[0]) is up[0] and it != 'open':
            return (cmd, up, '', True, pos, empty)      # the position has reached the end of the content
        if l[0] == 'e' and l[1] in ('iter_next', 'iter_end') and up is not None and (is_ret(l[2], 'slice::chunks', 'chunks') or not any(is_ret(x, 'get_many') for x in subs(l[2]))) and l[-1] in srcs:
            if it == 'open':
                return Viol(('skip', 'leaves out a chunk of the file'), (cmd, up, '', full, pos, empty))
            ops = l[4] if l[1] == 'iter_next' else l[3]
            odd = set(ops) & (query.FILTERS | {'rev'}) - {'zip'}
            if odd:
                return Viol(('skip', 'leaves out or reorders chunks of the file (%s)' % ', '.join(sorted(odd))), (cmd, up, '', full, pos, empty))
            if l[1] == 'iter_end':
                return (cmd, up, '', True, pos, empty)
            return (cmd, up, 'open', False, pos, empty)
        ok = accepted(l)
        if ok and any(request(x.a[2])[3] == 'store_chunk' for x in ok) and it == 'sent':
            return (cmd, up, 'stored', full, pos, empty)
        return s
    # the loops that send chunks
    srcs = set()

    def find(s, l):
        if l[0] == 'e' and l[1] == 'iter_next':
            return tuple(x for x in s if x != l[-1]) + (l[-1],)
        if l[0] == 'e' and l[1] == 'iter_end':
            return tuple(x for x in s if x != l[-1])
        q = sent(l)
        if q and q[1][3] == 'store_chunk' and s:
            srcs.add(s[-1])
        return s
    search(ex.g, (), find)
    v, n = search(ex.g, ((), None, '', False, '', ''), step)
    R.states += n
    for (k, t), l, tr in v:
        R.viol('%s:%s' % (k, t[:40]), 'the command line tool %s (%s)' % (t, where(l)), tr)
    R.floor('requests that send a chunk', len(stores), 1)
    R.floor('loops that send chunks', len(srcs), 1)
    R.ob('%d requests that send a chunk, cut as %s, in %d loops' % (len(stores), ', '.join(sorted(forms)), len(srcs)))
