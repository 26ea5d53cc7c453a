"""Interned abstract values (provenance terms)."""
_tab = {}


class V:
    __slots__ = ('op', 'a', 'id', '_subs')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        v.id = len(_tab)
        v._subs = None
        _tab[k] = v
    return v


def subs(v):
    """ids->V of all subterms"""
    s = v._subs
    if s is None:
        s = {v}
        for x in v.a:
            if isinstance(x, V):
                s |= subs(x)
        v._subs = s = frozenset(s)
    return s


TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('unit')
NONE = mk('adt', 'std::option::Option', 'None', ())
CALLER = mk('caller')
NOW = mk('now')
SELF = mk('selfid')


def boolv(b):
    return TRUE if b else FALSE


def intv(n):
    return mk('int', n)


def strv(s):
    return mk('str', s)


def some(v):
    return mk('adt', 'std::option::Option', 'Some', ('0',), v)


def ok(v):
    return mk('adt', 'std::result::Result', 'Ok', ('0',), v)


def err(v):
    return mk('adt', 'std::result::Result', 'Err', ('0',), v)


def atv(b, k):
    """element k of container b; elements of globals are canonical paths"""
    if isinstance(k, V) and k.op == 'idx' and k.a and (k.a[0] is b or b.op == 'g' and k.a[0].op == 'gref' and k.a[0].a == b.a):
        # the element at the position an iteration over the list has reached
        return mk('g', *b.a, 'each') if b.op == 'g' else b.a[0] if b.op in ('bag', 'arr') and len(b.a) == 1 else mk('phi', *sorted(b.a, key=lambda x: x.id)) if b.op in ('bag', 'arr') and 1 < len(b.a) < 8 else mk('elem', b)
    if b.op == 'g' and isinstance(k, V):
        return mk('g', *b.a, mk('k', k))
    return mk('at', b, k)


def opt(v):
    return mk('opt', v)


def tup(*a):
    return mk('tup', *a)


def notv(v):
    if v.op == 'bool':
        return boolv(not v.a[0])
    if v.op == 'not':
        return v.a[0]
    return mk('not', v)


def bag(elems):
    return mk('bag', *sorted(set(elems), key=lambda x: x.id))


EMPTYBAG = mk('bag')


def mapv(base, entries, removed=()):
    return mk('map', base, tup(*sorted(set(entries), key=lambda x: x.id)), tup(*sorted(set(removed), key=lambda x: x.id)))


EMPTYMAP = mapv(mk('empty'), ())


def sized(v):
    """the length of a list of known elements"""
    return intv(len(v.a[0].a)) if v.op == 'len' and v.a[0].op == 'arr' else v


def eqv(a, b):
    a, b = sized(a), sized(b)
    if a is b:
        return TRUE
    if a.op in ('int', 'str', 'bool') and b.op == a.op:
        return boolv(a.a[0] == b.a[0])
    if a.op == 'many' and b.op == 'int' and b.a[0] < a.a[1] or b.op == 'many' and a.op == 'int' and a.a[0] < b.a[1]:
        return FALSE
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        fa, fb = a.a[3:], b.a[3:]
        if not fa:
            return TRUE
        if len(fa) == len(fb) == 1:
            return eqv(fa[0], fb[0])
        diff = [(x, y) for x, y in zip(fa, fb) if x is not y]
        rs = [eqv(x, y) for x, y in diff]
        if any(r is FALSE for r in rs):
            return FALSE
        rs = [r for r in rs if r is not TRUE]
        if not rs:
            return TRUE
    if a.op == 'adt' and a.a[1] == 'Some' and b.op == 'adt' and b.a[1] == 'None':
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def ltv(a, b):
    a, b = sized(a), sized(b)
    if a.op == 'int' and b.op == 'int':
        return boolv(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    for x, y, r in ((a, b, TRUE), (b, a, FALSE)):
        if x.op == 'int' and y.op == 'many' and (x.a[0] <= y.a[1] and r is FALSE or x.a[0] < y.a[1]):
            return r
    return mk('lt', a, b)


def show(v, d=0):
    if not isinstance(v, V):
        return str(v)
    if d > 9:
        return '…'
    o, a = v.op, v.a
    if o == 'str':
        return repr(a[0])
    if o in ('int', 'bool'):
        return str(a[0])
    if o == 'adt':
        p = a[0].split('::')[-1]
        n = p if a[1] == p else (a[1] if p in ('Option', 'Result', 'ControlFlow', 'Poll') else p + '::' + a[1])
        if not a[2]:
            return n
        if a[2] == ('0',):
            return '%s(%s)' % (n, show(a[3], d + 1))
        return n + '{' + ', '.join('%s: %s' % (k, show(x, d + 1)) for k, x in zip(a[2], a[3:])) + '}'
    if o == 'tup':
        return '(' + ', '.join(show(x, d + 1) for x in a) + ')'
    if o in ('g', 'gref'):
        s = ('&' if o == 'gref' else '') + a[0].split('::')[-1]
        for x in a[1:]:
            s += ('[%s]' % show(x.a[0], d + 1)) if isinstance(x, V) else '.' + str(x)
        return s
    if o == 'fld':
        return show(a[0], d + 1) + '.' + str(a[1])
    if o == 'arg':
        return 'arg%s' % a[0]
    if o == 'ret':
        return 'ret[%s](%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[2:]))
    if o in ('clo', 'cor'):
        return '%s(%s)' % (o, a[0])
    if o == 'not':
        return '!' + show(a[0], d + 1)
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


# how the maps behind an iterated term order their entries: term -> set of 'BTree' / 'Hash'
ORDER = {}


def note_order(t, how):
    ORDER.setdefault(t, set()).add('BTree' if 'BTree' in how else 'Hash')
    return t
