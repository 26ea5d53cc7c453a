"""C23 announced interfaces and the block log queries, C35 consent messages."""
import re
from rl import *
import query
from rules.auth import reply_value
from rules.log import METHODS, every_iteration
from rules.index import appended_kinds

STANDARDS = {
    'ICRC-3': ('query', 'icrc3_get_archives icrc3_get_blocks icrc3_get_tip_certificate icrc3_supported_block_types'),
    'ICRC-7': ('query', 'icrc7_collection_metadata icrc7_symbol icrc7_name icrc7_description icrc7_logo icrc7_total_supply icrc7_supply_cap '
               'icrc7_max_query_batch_size icrc7_max_update_batch_size icrc7_default_take_value icrc7_max_take_value icrc7_max_memo_size '
               'icrc7_atomic_batch_transfers icrc7_tx_window icrc7_permitted_drift icrc7_token_metadata icrc7_owner_of icrc7_balance_of '
               'icrc7_tokens icrc7_tokens_of', 'update', 'icrc7_transfer'),
    'ICRC-10': ('query', 'icrc10_supported_standards'),
    'ICRC-21': ('query', 'icrc21_canister_call_consent_message'),
    'ICRC-37': ('query', 'icrc37_max_approvals_per_token_or_collection icrc37_max_revoke_approvals icrc37_is_approved icrc37_get_token_approvals '
                'icrc37_get_collection_approvals', 'update', 'icrc37_approve_tokens icrc37_approve_collection icrc37_revoke_token_approvals '
                'icrc37_revoke_collection_approvals icrc37_transfer_from'),
}
LOGQ = ('icrc3_get_archives', 'icrc3_get_blocks', 'icrc3_get_properties', 'icrc3_get_tip_certificate', 'icrc3_supported_block_types')


def is_log_instance(v):
    return all(x.op in ('g', 'gref') and x.a[0].split('::')[-1].lstrip('_').startswith('ICRC3_INSTANCE') for x in alts(v))


def one_str(v):
    """the set of constant strings a term may be, or None"""
    out = set()
    for x in alts(v):
        if x.op != 'str':
            return None
        out.add(x.a[0])
    return out


def elements(v):
    """elements of a literal list (of every alternative)"""
    out = []
    for x in alts(v):
        if x.op != 'arr':
            return None
        out.append(list(x.a))
    return out


def c23(R):
    # 1. every kind of block appended is announced, by its own name
    ex = export('canister_init')
    R.use(ex)
    kinds = appended_kinds()
    R.floor('kinds of blocks appended', len(kinds), 9)
    news = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'call' and l[2].endswith('ICRC3::new')]
    R.floor('log components configured at init', len(news), 1)
    for l in news:
        for cfg in alts(l[3][0]):
            sup = proj(cfg, 'supported_blocks') if cfg.op == 'adt' else None
            es = elements(sup) if sup is not None else None
            if es is None:
                R.viol('kinds:unknown', 'init configures the block log at %s with a list of block kinds the analysis cannot read' % where(l), None)
                continue
            for el in es:
                names = [one_str(proj(x, 'block_type')) for x in el]
                urls = [one_str(proj(x, 'url')) for x in el]
                have = set().union(*[n for n in names if n]) if names else set()
                for k in sorted(kinds):
                    R.add('kinds compared')
                    if k not in have:
                        R.viol('kind:' + k, 'init announces the block kinds %s at %s but not %s, which the canister appends' % (', '.join(sorted(have)), where(l), k), None)
                for k in sorted(have):
                    if k not in kinds:
                        R.viol('unknown-kind:' + k, 'init announces block kind %s at %s, which no method of the canister appends' % (k, where(l)), None)
                if any(n is None or len(n) != 1 for n in names) or len(have) != len(el):
                    R.viol('kinds:repeat', 'init announces a block kind twice or a kind that is not a constant at %s' % where(l), None)
                if any(u is None or not all(s for s in u) for u in urls):
                    R.viol('kinds:url', 'init announces a block kind without an address of its schema at %s' % where(l), None)
    R.ob('kinds appended: ' + ', '.join(sorted(kinds)))

    # 2. the log queries answer what the log answers
    for m in LOGQ:
        name = 'canister_query.' + m
        ex = export(name, flat=True)
        R.use(ex)
        n = 0
        for l in ex.labels():
            if not (l[0] == 'e' and l[1] == 'call' and l[2].endswith('msg_reply')):
                continue
            v = reply_value(l)
            for x in alts(v) if v is not None else [None]:
                n += 1
                R.add('log query answers')
                if x is None or x.op != 'ret' or x.a[0].split('::')[-1] != m or 'ICRC3' not in x.a[0] or not is_log_instance(x.a[2]):
                    R.viol('reply:' + m, '%s answers %s at %s instead of what %s of the block log answers' % (m, clip(show(x), 160) if x is not None else 'nothing', where(l), m), None)
                elif m == 'icrc3_get_blocks' and (len(x.a) < 4 or x.a[3] is not mk('arg', 0)):
                    R.viol('arg:' + m, '%s asks the block log for %s instead of the request' % (m, clip(show(x.a[3]), 160) if len(x.a) > 3 else 'nothing'), None)
        if not n:
            R.viol('anchor:' + m, 'no answer of %s found' % m, None)
        for l in ex.labels():
            if l[0] == 'e' and l[1] == 'panic' and not str(l[2]).startswith(('Result::unwrap', 'Result::expect', 'Option::expect', 'Option::unwrap')):
                R.viol('panic:' + m, '%s can trap at %s' % (m, where(l)), None)

    # 3. announced standards and exported methods
    exps = set(exports_of('core_nft', ('canister_query.', 'canister_update.', 'canister_composite_query.')))
    name = 'canister_query.icrc10_supported_standards'
    ex = export(name)
    R.use(ex)
    R.floor('exported methods', len(exps), 40)
    n = 0
    for l in ex.labels():
        if not (l[0] == 'e' and l[1] == 'call' and l[2].endswith('msg_reply')):
            continue
        v = reply_value(l)
        es = elements(v) if v is not None else None
        if es is None:
            R.viol('standards:unknown', 'icrc10_supported_standards answers at %s with a list the analysis cannot read' % where(l), None)
            continue
        for el in es:
            n += 1
            names = [one_str(proj(x, 'name')) for x in el]
            urls = [one_str(proj(x, 'url')) for x in el]
            have = set().union(*[k for k in names if k]) if names else set()
            if any(k is None or len(k) != 1 for k in names) or len(have) != len(el):
                R.viol('standards:repeat', 'icrc10_supported_standards names a standard twice or not by a constant at %s' % where(l), None)
            for i, k in enumerate(names):
                # the address belongs to the standard named
                num = re.sub(r'\D', '', sorted(k)[0]) if k else ''
                for u in urls[i] or ('',):
                    found = re.findall(r'ICRC[-_](\d+)(?!\d)', u, re.I)
                    if num and (not found or found[-1] != num):
                        R.viol('standards:url:' + num, 'icrc10_supported_standards names %s with the address %s at %s' % (sorted(k)[0], u, where(l)), None)
            for s, spec in STANDARDS.items():
                missing, present = [], []
                for kind, ms in zip(spec[::2], spec[1::2]):
                    for m in ms.split():
                        R.add('methods of standards')
                        (present if {'canister_%s.%s' % (kind, m), 'canister_composite_query.' + m if kind == 'query' else 'canister_update.' + m} & exps else missing).append(m)
                if s in have and missing:
                    R.viol('standards:%s' % s, 'icrc10_supported_standards names %s at %s, but the canister does not export %s' % (s, where(l), ', '.join(missing)), None)
                if s not in have and not missing:
                    R.viol('standards:%s' % s, 'the canister implements %s, but icrc10_supported_standards does not name it at %s' % (s, where(l)), None)
            for s in sorted(have - set(STANDARDS)):
                if not any(re.match(r'canister_\w+\.' + s.lower().replace('-', '') + '_', e) for e in exps):
                    R.viol('standards:' + s, 'icrc10_supported_standards names %s at %s, of which the canister exports no method' % (s, where(l)), None)
    if not n:
        R.viol('anchor:standards', 'no answer of icrc10_supported_standards found', None)


# ------------------------------------------------------------------ C35
CONSENT = 'canister_query.icrc21_canister_call_consent_message'
VERBS = {'transfer': 'transfer', 'approve': 'approve', 'revoke': 'revoke'}
SPEAKS_OF_ALL = ('icrc37_revoke_collection_approvals',)   # its message makes no statement about single requests


def arg_type(name):
    """candid type an exported method decodes its argument as"""
    p = query.prog('core_nft')
    f = p.exports[name]
    for g in p.fns.values():
        if g.path.startswith(f.path):
            for b in g.raw['bbs']:
                t = b and b[1]
                if t and t[0] == 'call' and 'candid::decode_args' in str(t[1])[:400]:
                    m = re.search(r'Result<\((.*?),?\), ', t[-1])
                    if m:
                        return m.group(1)
    return None


def is_decoded(x):
    return x.op == 'pay' and x.a[0].op == 'ret' and x.a[0].a[0] == 'decode'


def method_arg():
    return mk('fld', mk('arg', 0), 'method')


def len_le_one(a, v, d):
    """the branch decides that list d has at most one element"""
    while a.op == 'not' and isinstance(v, bool):
        a, v = a.a[0], not v
    L = mk('len', d)
    if a.op == 'lt':
        x, y = a.a
        if y is L and x.op == 'int' and x.a[0] <= 1 and v is False:
            return True
        if x is L and y.op == 'int' and y.a[0] <= 2 and v is True:
            return True
    if a.op == 'eq' and v is True:
        x, y = a.a
        if (x is L and y.op == 'int' and y.a[0] <= 1) or (y is L and x.op == 'int' and x.a[0] <= 1):
            return True
    return False


def strings(v):
    return [s.a[0] for s in subs(v) if s.op == 'str']


def c35(R):
    ex = export(CONSENT, limit=400, flat=True)
    R.use(ex)
    types = {}
    for m in METHODS:
        if m.startswith('icrc'):
            types[m] = arg_type('canister_update.' + m)
    R.floor('holder methods with consent message', len([t for t in types.values() if t]), 6)
    answered = set()

    # lists with one entry per request
    full, outs = {}, {}
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'out' and len(l) > 5 and l[3].op == 'wid':
            outs.setdefault(l[3], []).append(l)

    def req(w):
        if w.op != 'wid':
            return is_decoded(w)
        if w not in full:
            ls = outs.get(w, [])
            full[w] = bool(ls) and all(any(q.op == 'elem' and is_decoded(q.a[0]) for q in subs(l[2])) for l in ls) and not every_iteration(ex, lambda l: l in ls, R)
        return full[w]

    def step(s, l):
        meth, ok, few, none = s
        if l[0] == 'p':
            a, v = l[1], l[2]
            while a.op == 'not' and isinstance(v, bool):
                a, v = a.a[0], not v
            if a.op == 'eq' and method_arg() in a.a:
                o = a.a[0] if a.a[1] is method_arg() else a.a[1]
                if v is True and o.op == 'str':
                    if meth is not None and meth != o.a[0]:
                        return None          # one method only
                    if o.a[0] in none:
                        return None
                    return (o.a[0], ok, few, none)
                if v is False and o.op == 'str':
                    if meth == o.a[0]:
                        return None
                    return (meth, ok, few, none | {o.a[0]})
            if l[1].op == 'ret' and l[1].a[0] in ('decode', 'IDLDeserialize::new_with_config', 'IDLDeserialize::new', 'IDLDeserialize::done'):
                if l[2] == 'Err':
                    return (meth, 'bad', few, none)
                if l[1].a[0] == 'decode' and ok != 'bad':
                    return (meth, 'good', few, none)
            for d in subs(l[1]):
                if d.op in ('pay', 'wid') and req(d) and len_le_one(l[1], l[2], d):
                    return (meth, ok, True, none)
            return s
        if l[1] == 'iter_next' and is_decoded(l[2]):
            return (meth, ok, few or 'some', none)
        if l[1] == 'iter_end' and is_decoded(l[2]) and few is False and not set(l[3]) & FILTERS:
            return (meth, ok, True, none)           # no request at all
        if l[1] == 'panic':
            if meth in types and ok == 'good' and not any(x.op == 'ret' and 'encode' in x.a[0] for y in l[3] if isinstance(y, V) for x in subs(y)) \
                    and any(is_decoded(x) for y in l[3] if isinstance(y, V) for x in subs(y)):
                return Viol('trap:%s|a request for the consent message of %s can trap at %s' % (meth, meth, where(l)), s)
            return s
        if not (l[1] == 'call' and l[2].endswith('msg_reply')):
            return s
        v = reply_value(l)
        if v is None:
            return Viol('reply|consent message answered with something the analysis cannot read at %s' % where(l), s)
        for x in alts(v):
            R.add('answers')
            if x.op != 'adt':
                return Viol('reply|consent message answered with %s at %s' % (clip(show(x), 120), where(l)), s)
            if x.a[1] == 'Err':
                if meth in types and ok == 'good':
                    return Viol('refused:%s|a readable request for the consent message of %s is refused at %s' % (meth, meth, where(l)), s)
                continue
            info = proj(x, '0')
            text, md = proj(proj(info, 'consent_message'), '0'), proj(info, 'metadata')
            if meth is None or meth not in types:
                return Viol('unknown:%s|a consent message is given for %s at %s, not one of the methods %s' % (meth, meth or 'a method that is not compared with a name', where(l), ', '.join(sorted(types))), s)
            answered.add(meth)
            if ok != 'good':
                return Viol('undecoded:%s|the consent message of %s is given at %s without decoding the request' % (meth, meth, where(l)), s)
            if md is not mk('fld', mk('fld', mk('arg', 0), 'user_preferences'), 'metadata'):
                return Viol('metadata:%s|the consent message of %s is labelled %s at %s instead of the language asked for' % (meth, meth, clip(show(md), 100), where(l)), s)
            ss = ' '.join(strings(text))
            if meth not in ss and method_arg() not in subs(text):
                return Viol('method:%s|the consent message of %s does not name the method at %s' % (meth, meth, where(l)), s)
            for o in types:
                if o != meth and re.search(r'\b' + o + r'\b', ss):
                    return Viol('method:%s|the consent message of %s names %s at %s' % (meth, meth, o, where(l)), s)
            verb = next(k for k in VERBS if '_' + k in meth)
            plain = re.sub(r'\bicrc\d+_\w+', '', ss).lower()
            first = min([(plain.find(k), k) for k in VERBS if plain.find(k) >= 0] or [(0, None)])[1]
            if first != verb:
                return Viol('action:%s|the consent message of %s speaks of %s instead of %s at %s' % (meth, meth, first, verb, where(l)), s)
            # the decoded request
            at, whole = None, False
            for q in subs(text):
                if q.op == 'len' and not req(q.a[0]):
                    return Viol('count:%s|the consent message of %s states a number that is not the number of requests (%s) at %s' % (meth, meth, clip(show(q), 120), where(l)), s)
                if q.op == 'len' or q.op == 'wid' and req(q):
                    whole = True
                if q.op == 'at' and any(d.op in ('pay', 'wid') and req(d) for d in subs(q.a[0])):
                    at = at or q
            if at and few is not True:
                return Viol('single:%s|the consent message of %s names only one of possibly several requests (%s) at %s' % (meth, meth, clip(show(at), 120), where(l)), s)
            if meth not in SPEAKS_OF_ALL and not whole and few is not True:
                return Viol('number:%s|the consent message of %s speaks of one request at %s although there may be several' % (meth, meth, where(l)), s)
        return s

    v, n = search(ex.g, (None, None, False, frozenset()), step)
    R.states += n
    for m, l, tr in v:
        k, msg = m.split('|', 1)
        R.viol('consent:' + k, msg, tr)
    # decoded as what the method takes
    for l in ex.labels():
        for d in (subs(l[1]) if l[0] == 'p' else ()):
            if d.op == 'ret' and d.a[0] == 'decode':
                R.add('decodings')

    def dstep(s, l):
        if l[0] == 'p':
            a, v = l[1], l[2]
            if a.op == 'eq' and method_arg() in a.a and v is True:
                o = a.a[0] if a.a[1] is method_arg() else a.a[1]
                return o.a[0] if o.op == 'str' else s
            for d in subs(a):
                if d.op == 'ret' and d.a[0] == 'decode' and s in types:
                    if types[s] != d.a[2].a[0]:
                        return Viol('type:%s|the request of %s is read as %s instead of %s, the argument type of the method' % (s, s, d.a[2].a[0], types[s]), s)
                    if mk('fld', mk('arg', 0), 'arg') not in subs(d):
                        return Viol('bytes:%s|the consent message of %s does not describe the argument of the call (%s)' % (s, s, clip(show(d), 120)), s)
        return s
    v, n = search(ex.g, '', dstep)
    R.states += n
    for m, l, tr in v:
        k, msg = m.split('|', 1)
        R.viol('consent:' + k, msg, tr)
    for m in types:
        if m not in answered:
            R.viol('missing:' + m, 'no consent message is given for %s' % m, None)
    R.floor('methods answered', len(answered), 6)
