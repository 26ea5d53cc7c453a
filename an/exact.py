"""Exact local lists: with Engine(exact=True) a list the analysed function builds from literals and pushes is kept as
the exact sequence of its (symbolic) elements, loops over it are run element by element, and membership is decided by
identity of the terms.  Used by rules that feed a function a block of known shape; different symbols stand for
different values there (equal values are fed as the same symbol)."""
from val import *
import engine as E
from engine import PRE, MODELS, XF, OPTION, Abort, tup
from models import resolve, store

SETS = ('HashSet', 'BTreeSet')


def elements(e, st, src):
    """the exact elements of a source, or None"""
    s = e.deref(st, src) if src.op == 'ref' else src
    if s.op == 'arr' or s is EMPTYBAG:
        return list(s.a)
    if s.op == 'slice':
        return None
    if s.op == 'adt' and s.a[0] == OPTION:
        return [s.a[3]] if s.a[1] == 'Some' else []
    if s.op == 'chain':
        a, b = elements(e, st, s.a[0]), elements(e, st, s.a[1])
        return a + b if a is not None and b is not None else None
    if s.op in ('entries', 'keys', 'values'):
        m = s.a[0]
        m = e.deref(st, m) if m.op == 'ref' else m
        if m.op == 'map' and m.a[0].op == 'empty' and not m.a[2].a:
            es = list(m.a[1].a)
            if s.op != 'entries':
                es = [e.proj(st, x, ('f', '0' if s.op == 'keys' else '1')) for x in es]
            return es
        return None
    if s.op == 'map':
        return elements(e, st, mk('entries', s))
    if s.op == 'iter' and len(s.a) == 1:
        return elements(e, st, s.a[0])
    if s.op == 'adt' and s.a[0].endswith('::Range') and all(x.op == 'int' for x in s.a[3:5]):
        return [intv(i) for i in range(s.a[3].a[0], s.a[4].a[0])]
    return None


def order(xs):
    return sorted(xs, key=show)


def setlike(ty):
    h = str(ty).split('<')[0].split('::')[-1]
    return h in SETS, h.startswith('BTree')


def uniq(xs):
    return list(dict.fromkeys(xs))


def over(*names):
    """run the exact version first; it returns False to decline"""
    def d(f):
        for n in names:
            for T in (PRE, MODELS):
                g = T.get(n)
                if g is not None:
                    T[n] = (lambda g: lambda e, st, lab, c: g(e, st, lab, c) if not e.exact or f(e, st, lab, c) is False else None)(g)
        return f
    return d


def local(e, st, p):
    p = resolve(e, st, p)
    if p.op == 'gref':
        return None, None
    v = e.deref(st, p)
    if v.op == 'bag' and not v.a:
        v = mk('arr')
    return p, v


@over('Vec::push', 'HashSet::insert', 'BTreeSet::insert', 'VecDeque::push_back', 'VecDeque::push_front', 'Vec::insert')
def m_push(e, st, lab, c):
    p, v = local(e, st, c.args[0])
    if p is None or v.op != 'arr':
        return False
    x = e.deep(st, c.args[-1])
    k = c.key
    if 'Set' in k:
        has = x in v.a
        if not has:
            n = (*v.a, x)
            store(e, st, lab, p, mk('arr', *(order(n) if 'BTree' in k else n)))
        return e.deliver(st, lab, boolv(not has))
    if k == 'Vec::insert':
        i = e.deep(st, c.args[1])
        if i.op != 'int' or not 0 <= i.a[0] <= len(v.a):
            raise Abort('insert at an unknown position')
        n = (*v.a[:i.a[0]], x, *v.a[i.a[0]:])
    else:
        n = (x, *v.a) if k.endswith('front') else (*v.a, x)
    if len(n) > (400 if e.codec else 40):
        raise Abort('grows a list without bound')
    store(e, st, lab, p, mk('arr', *n))
    return e.deliver(st, lab, UNIT)


@over('slice::contains', 'Vec::contains', 'HashSet::contains', 'BTreeSet::contains', 'VecDeque::contains')
def m_has(e, st, lab, c):
    a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
    if a.op != 'arr' and a is not EMPTYBAG:
        return False
    return e.deliver(st, lab, boolv(b in a.a))


@over('HashMap::len', 'BTreeMap::len', 'HashMap::is_empty', 'BTreeMap::is_empty', 'Vec::len', 'slice::len', 'VecDeque::len', 'HashSet::len', 'BTreeSet::len', 'Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty')
def m_len(e, st, lab, c):
    a = e.deep(st, c.args[0])
    if e.codec:
        import roundtrip
        a = roundtrip.plain(a)
    if a.op == 'map' and a.a[0].op == 'empty' and not a.a[2].a:
        a = a.a[1]
    elif a.op != 'arr' and a is not EMPTYBAG:
        return False
    return e.deliver(st, lab, intv(len(a.a)) if c.key.endswith('len') else boolv(not a.a))


@over('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key', 'slice::reverse',
      'Vec::dedup', 'Vec::dedup_by', 'Vec::dedup_by_key', 'Vec::reserve', 'Vec::shrink_to_fit', 'Vec::truncate', 'Vec::append', 'Vec::extend_from_slice', 'slice::swap')
def m_shape(e, st, lab, c):
    p, v = local(e, st, c.args[0])
    if p is None or v.op != 'arr':
        return False
    k = c.key.split('::')[1]
    xs = list(v.a)
    if k.startswith('sort'):
        xs = order(xs)
    elif k == 'reverse':
        xs.reverse()
    elif k.startswith('dedup'):
        d = []
        for x in xs:
            if not d or d[-1] is not x:
                d.append(x)
        xs = d
    elif k in ('append', 'extend_from_slice'):
        o = e.deep(st, c.args[1])
        if e.codec:
            import roundtrip
            o = roundtrip.plain(o)
        if o.op != 'arr':
            store(e, st, lab, p, mk('app', 'cat', v, o))
            return e.deliver(st, lab, UNIT)
        xs += o.a
        if k == 'append':
            store(e, st, lab, resolve(e, st, c.args[1]), mk('arr'))
    elif k == 'truncate':
        n = e.deep(st, c.args[1])
        if n.op != 'int':
            return False
        xs = xs[:n.a[0]]
    elif k == 'swap':
        i, j = e.deep(st, c.args[1]), e.deep(st, c.args[2])
        if i.op != 'int' or j.op != 'int':
            return False
        xs[i.a[0]], xs[j.a[0]] = xs[j.a[0]], xs[i.a[0]]
    store(e, st, lab, p, mk('arr', *xs))
    return e.deliver(st, lab, UNIT)


@over('Vec::remove', 'Vec::swap_remove', 'Vec::pop', 'BTreeSet::remove', 'HashSet::remove', 'VecDeque::pop_front', 'VecDeque::pop_back')
def m_remove(e, st, lab, c):
    p, v = local(e, st, c.args[0])
    if p is None or v.op != 'arr':
        return False
    xs = list(v.a)
    k = c.key.split('::')[1]
    if 'Set' in c.key:
        x = e.deep(st, c.args[1])
        store(e, st, lab, p, mk('arr', *[y for y in xs if y is not x]))
        return e.deliver(st, lab, boolv(x in xs))
    if k.startswith('pop'):
        if not xs:
            return e.deliver(st, lab, NONE)
        x = xs.pop(0 if k == 'pop_front' else -1)
        store(e, st, lab, p, mk('arr', *xs))
        return e.deliver(st, lab, some(x))
    i = e.deep(st, c.args[1])
    if i.op != 'int' or not 0 <= i.a[0] < len(xs):
        return False
    x = xs.pop(i.a[0])
    store(e, st, lab, p, mk('arr', *xs))
    return e.deliver(st, lab, x)


@over('Vec::retain', 'Vec::retain_mut', 'HashSet::retain', 'BTreeSet::retain', 'VecDeque::retain')
def m_retain(e, st, lab, c):
    p, v = local(e, st, c.args[0])
    if p is None or v.op != 'arr':
        return False
    e.drive(st, lab, mk('iter', v, mk('op', 'filter', e.deref(st, c.args[1]))), 'store', mk('arr'), [p])


# ------------------------------------------------------------------ loops
def step(e, st, lab, f):
    """one step of an iteration over an exact list; False: not exact"""
    it, sink, acc, extra, dty = f.data
    src = it.a[0] if it.op == 'iter' else it
    ops = list(it.a[1:]) if it.op == 'iter' else []
    if src.op == 'opt':
        for n, s, l in e.split(st, src, OPTION):
            x = e.proj(s, e.proj(s, src, ('d', 'Some')), ('f', '0')) if n == 'Some' else None
            s.fr[-1] = XF('drive', mk('iter', mk('arr', *([x] if x is not None else [])), *ops), sink, acc, extra, dty)
            e.boundary(s, lab + l)
        return True
    xs = elements(e, st, src)
    if xs is None:
        # everything of a list that is not known
        if sink in ('collect', 'extend') and all(o.op == 'op' and o.a[0] in ('cloned', 'fuse') for o in ops) and (acc.op != 'map'):
            whole = e.deep(st, src)
            st.fr.pop()
            if sink == 'extend':
                p = resolve(e, st, extra[0])
                if p.op == 'gref':
                    st.fr.append(f)
                    return False
                store(e, st, lab, p, mk('app', 'cat', e.deref(st, p), whole))
                e.deliver(st, lab, UNIT)
            else:
                e.deliver(st, lab, whole if acc.op in ('bag', 'arr') and not acc.a else mk('app', 'cat', acc, whole))
            return True
        return False
    for i, o in enumerate(ops):
        if o.op == 'op' and o.a[0] == 'rev':
            if any(p.op != 'op' or p.a[0] not in ('map', 'cloned', 'filter', 'filter_map', 'inspect', 'fuse') for p in ops[:i]):
                raise Abort('reverses a counted iterator')
            xs.reverse()
            ops[i] = mk('op', 'fuse')
        elif o.op == 'op' and o.a[0] in ('by_ref', 'step_by'):
            raise Abort(o.a[0] + ' on a list')
    if acc.op == 'bag' and not acc.a:
        acc = mk('arr')
    if not xs or any(o.op == 'op' and o.a[0] == 'take' and o.a[1].op == 'int' and o.a[1].a[0] <= 0 for o in ops) and not (xs[0].op == 'staged'):
        if sink == 'next':
            store(e, st, lab, extra[0], mk('iter', mk('arr'), *ops))
        f = XF('drive', mk('iter', mk('arr', *xs), *ops), sink, acc, extra, dty)
        st.fr.pop()
        if sink == 'store':
            store(e, st, lab, extra[0], acc)
            e.deliver(st, lab, UNIT)
            return True
        if sink == 'extend':
            p = resolve(e, st, extra[0])
            old = e.deref(st, p) if p.op != 'gref' else None
            if old is not None and old.op in ('arr', 'bag') and acc.op == 'arr':
                n = list(old.a) + list(acc.a)
                s, b = setlike(dty)
                store(e, st, lab, p, mk('arr', *(order(uniq(n)) if b else uniq(n) if s else n)))
                e.deliver(st, lab, UNIT)
                return True
            if old is not None and acc.op == 'arr' and old.op != 'map':
                store(e, st, lab, p, mk('app', 'cat', old, acc))
                e.deliver(st, lab, UNIT)
                return True
        if sink in ('count',):
            e.deliver(st, lab, acc if acc.op == 'int' else intv(0))
            return True
        e.drive_finish(st, lab, f)
        return True
    x, xs = xs[0], xs[1:]
    i = 0
    if x.op == 'staged':
        i, x = x.a[0].a[0], x.a[1]
    st.fr[-1] = XF('drive', mk('iter', mk('arr', *xs), *ops), sink, acc, extra, dty)
    e.pipe(st, lab, i, x)
    return True


def stage(e, st, lab, i, o, v):
    """counted stages of the pipe: (next element or None when dropped); the counters live in the iterator"""
    f = st.fr[-1]
    it, sink, acc, extra, dty = f.data
    ops = list(it.a)
    k = o.a[0]
    if k == 'enumerate':
        n = o.a[1].a[0] if len(o.a) > 1 else 0
        ops[1 + i] = mk('op', 'enumerate', intv(n + 1))
        v = tup(intv(n), v)
    elif k in ('take', 'skip'):
        if o.a[1].op != 'int':
            raise Abort('%s of an unknown number' % k)
        n = o.a[1].a[0]
        if k == 'skip' and n > 0:
            ops[1 + i] = mk('op', 'skip', intv(n - 1))
            st.fr[-1] = XF('drive', mk('iter', *ops), sink, acc, extra, dty)
            return None
        if k == 'take':
            if n <= 0:
                ops[0] = mk('arr')
                st.fr[-1] = XF('drive', mk('iter', *ops), sink, acc, extra, dty)
                return None
            ops[1 + i] = mk('op', 'take', intv(n - 1))
    elif k == 'zip':
        o2 = o.a[1]
        ys = elements(e, st, o2.a[0] if o2.op == 'iter' and len(o2.a) == 1 else o2)
        if ys is None:
            raise Abort('zip with an unknown list')
        if not ys:
            ops[0] = mk('arr')
            st.fr[-1] = XF('drive', mk('iter', *ops), sink, acc, extra, dty)
            return None
        ops[1 + i] = mk('op', 'zip', mk('arr', *ys[1:]))
        v = tup(v, ys[0])
    st.fr[-1] = XF('drive', mk('iter', *ops), sink, acc, extra, dty)
    return v


def exact_src(f):
    it = f.data[0]
    return it.op == 'iter' and it.a[0].op == 'arr'
