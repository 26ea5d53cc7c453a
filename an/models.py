"""Models of the standard library / ic-cdk functions the analysed code calls."""
from val import *
import re
import engine as E
from engine import PRE, MODELS, LOCALFIRST, NOCALL, XF, OPTION, RESULT, CFLOW, POLL, tup


def pre(*names, localfirst=False):
    def d(f):
        for n in names:
            PRE[n] = f
            if localfirst:
                LOCALFIRST.add(n)
        return f
    return d


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pay(e, st, v, var):
    v = e.deref(st, v)
    return e.proj(st, e.proj(st, v, ('d', var)), ('f', '0'))


def ptr_pay(e, st, p, var):
    """payload of an Option/Result reached through pointer p: a pointer when addressable"""
    if p.op == 'gref':
        return mk('gref', *p.a, var, '0')
    if p.op == 'ref':
        x = e.read_loc(st, ('l', p.a[0], p.a[1], p.a[2]))
        if x.op in ('ref', 'gref'):
            return ptr_pay(e, st, x, var)
        return mk('ref', p.a[0], p.a[1], p.a[2] + (('d', var), ('f', '0')))
    return pay(e, st, p, var)


# ---------------------------------------------------------------- transparent
@pre('Clone::clone', localfirst=False)
def m_clone(e, st, lab, c):
    e.deliver(st, lab, clean(e, st, c.args[0]))


def clean(e, st, v):
    return e.deep(st, v)


@pre('ToOwned::to_owned', 'ToString::to_string', 'slice::to_vec', 'String::as_str', 'str::to_string',
     'Option::cloned', 'Option::copied', 'Cow::into_owned', 'str::as_bytes', 'String::as_bytes', 'String::into_bytes',
     'ByteBuf::to_vec', 'ByteBuf::into_vec', 'Vec::into_boxed_slice', 'Principal::to_text', 'str::to_vec', 'slice::into_vec',
     'hint::black_box', 'Principal::as_slice', 'String::into_boxed_str', 'Nat::clone')
def m_copy(e, st, lab, c):
    e.deliver(st, lab, clean(e, st, c.args[0]))


LOCALFIRST.add('ToString::to_string')


@pre('str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase')
def m_case(e, st, lab, c):
    v = clean(e, st, c.args[0])
    if v.op == 'str':
        return e.deliver(st, lab, strv(v.a[0].lower() if 'lower' in c.key else v.a[0].upper()))
    return e.deliver(st, lab, mk('ret', c.key, v))


@pre('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice',
     'Vec::as_mut_slice', 'Pin::new_unchecked', 'Pin::new', 'Pin::as_mut', 'Box::as_mut', 'Box::as_ref', 'Option::as_deref', 'Option::as_deref_mut',
     'Pin::get_mut', 'Pin::get_unchecked_mut', 'Pin::into_inner', 'LazyLock::deref', 'Lazy::get', 'LazyLock::force')
def m_ptr(e, st, lab, c):
    p = c.args[0]
    n = 0
    if c.lid and c.lid in e.p.fns and p.op == 'gref':
        return e.deliver(st, lab, p)
    while p.op == 'ref' and n < 20:
        x = e.read_loc(st, ('l', p.a[0], p.a[1], p.a[2]))
        if x.op in ('ref', 'gref', 'cor'):
            if x.op == 'cor':
                break
            p = x
        else:
            break
        n += 1
    e.deliver(st, lab, p)


@pre('IntoFuture::into_future', 'hint::must_use', 'Box::new', 'Arc::new', 'Rc::new', 'RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'Box::pin',
     'Some', 'future::get_context', 'convert::identity', 'Arc::clone', 'Rc::clone', 'ManuallyDrop::new', 'ByteBuf::from', 'Reverse')
def m_id(e, st, lab, c):
    e.deliver(st, lab, c.args[0])


@pre('Into::into', 'From::from', localfirst=True)
def m_from(e, st, lab, c):
    # a local `impl From` has priority
    if c.key == 'Into::into' and len(c.targs) >= 2:
        t, u = c.targs[0], c.targs[1]
        want = '<%s as std::convert::From<%s>>::from' % (u, t)
        fn = e.from_cache.get(want)
        if fn is None:
            for f in e.p.fns.values():
                if f.raw.get('impl_trait') == 'std::convert::From' and f.path.endswith(want):
                    fn = f
                    break
            e.from_cache[want] = fn or False
        if fn:
            return e.push(st, lab, fn, c.args)
    dst = c.targs[1] if c.key == 'Into::into' and len(c.targs) > 1 else c.dty
    v = clean(e, st, c.args[0])
    if 'HashMap' in dst.split('<')[0] or 'BTreeMap' in dst.split('<')[0]:
        if v.op in ('arr', 'bag'):
            v = mapv(mk('empty'), v.a)
    h = dst.split('<')[0]
    if h.endswith('anyhow::Error') or h.endswith('Box'):
        v = mk('app', 'errfrom', v)
    e.deliver(st, lab, v)


@pre('TryFrom::try_from', 'TryInto::try_into', 'str::parse', 'FromStr::from_str', localfirst=True)
def m_tryfrom(e, st, lab, c):
    if c.key == 'str::parse' or c.key == 'TryInto::try_into':
        # find local FromStr / TryFrom impl by target type
        dst = c.dty
        for f in e.p.fns.values():
            tr = f.raw.get('impl_trait')
            if c.key == 'str::parse' and tr == 'std::str::FromStr' or c.key == 'TryInto::try_into' and tr == 'std::convert::TryFrom':
                if dst.startswith('std::result::Result<%s,' % f.raw.get('self_ty')):
                    if f.path.endswith('from_str') or f.path.endswith('try_from'):
                        return e.push(st, lab, f, c.args)
    v = clean(e, st, c.args[0])
    t = c.dty
    if v.op == 'int' and 0 <= v.a[0] < (2 ** 32 if t.startswith('std::result::Result<usize,') else 2 ** 64) and t.startswith(('std::result::Result<usize,', 'std::result::Result<u64,', 'std::result::Result<u128,')):
        return e.deliver(st, lab, mk('adt', RESULT, 'Ok', ('0',), v))
    e.deliver(st, lab, mk('res', v if 'str' not in c.key and c.key != 'FromStr::from_str' else mk('app', 'parse', v, strv(t)), mk('app', 'converr', v)))


# ---------------------------------------------------------------- comparisons
@pre('PartialEq::eq', localfirst=True)
def m_eq(e, st, lab, c):
    a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
    e.deliver(st, lab, eq2(e, st, a, b))


def eq2(e, st, a, b):
    if a.op == 'opt' and b.op == 'adt' and b.a[1] == 'Some' and st.facts.get(a) == 'Some':
        return eqv(a.a[0], b.a[3])
    if b.op == 'opt' and a.op == 'adt' and a.a[1] == 'Some' and st.facts.get(b) == 'Some':
        return eqv(b.a[0], a.a[3])
    for x, y in ((a, b), (b, a)):
        # comparison with a field-less variant is a variant test
        if x.op == 'adt' and len(x.a) == 3 and y.op != 'adt':
            vs = e.variants(x.a[0]) or e.variants(e.p.adtkey(x.a[0]))
            if len(vs) > 1:
                return mk('isvar', y, x.a[1], x.a[0] if x.a[0] in E.STDVARS else e.p.adtkey(x.a[0]))
    return eqv(a, b)


@pre('PartialEq::ne', localfirst=True)
def m_ne(e, st, lab, c):
    a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
    e.deliver(st, lab, notv(eq2(e, st, a, b)))


@pre('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge', localfirst=True)
def m_ord(e, st, lab, c):
    a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
    k = c.key[-2:]
    v = {'lt': lambda: ltv(a, b), 'gt': lambda: ltv(b, a), 'le': lambda: notv(ltv(b, a)), 'ge': lambda: notv(ltv(a, b))}[k]()
    e.deliver(st, lab, v)


@pre('Ord::cmp', 'PartialOrd::partial_cmp', localfirst=True)
def m_cmp(e, st, lab, c):
    v = mk('cmp', e.deep(st, c.args[0]), e.deep(st, c.args[1]))
    e.deliver(st, lab, v if c.key == 'Ord::cmp' else mk('opt', v))


@pre('Ord::min', 'Ord::max', 'Ord::clamp', 'cmp::min', 'cmp::max', localfirst=True)
def m_min(e, st, lab, c):
    a = [e.deep(st, x) for x in c.args]
    k = c.key.split('::')[1]
    if k != 'clamp' and all(x.op == 'int' for x in a):
        return e.deliver(st, lab, intv(min(x.a[0] for x in a) if k == 'min' else max(x.a[0] for x in a)))
    e.deliver(st, lab, mk('app', k, *sorted(a, key=lambda x: x.id)) if k != 'clamp' else mk('app', k, *a))


@pre('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem', localfirst=True)
def m_arith(e, st, lab, c):
    a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
    e.deliver(st, lab, e.binop(c.key.split('::')[0], a, b))


@pre('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', localfirst=True)
def m_arith_as(e, st, lab, c):
    b = e.deep(st, c.args[1])
    p = resolve(e, st, c.args[0])
    old = e.deep(st, p)
    v = e.binop(c.key[:3], old, b)
    store(e, st, lab, p, v)
    e.deliver(st, lab, UNIT)


for _t in ('u64', 'usize', 'u32', 'u128', 'i64', 'num'):
    for _k in ('saturating_sub', 'saturating_add', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        def _f(e, st, lab, c, _k=_k):
            a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
            if _k[0] == 'w' and (a.op != 'int' or b.op != 'int'):
                # the result may lie on the other side of the range: not the sum (or difference) it is written for
                return e.deliver(st, lab, mk('app', _k, a, b))
            e.deliver(st, lab, e.binop(_k.split('_')[1].capitalize(), a, b) if a.op != 'int' or b.op != 'int' else intv(max(0, {'sub': a.a[0] - b.a[0], 'add': a.a[0] + b.a[0], 'mul': a.a[0] * b.a[0]}[_k.split('_')[1]])))
        PRE['%s::%s' % (_t, _k)] = _f
    for _k in ('checked_sub', 'checked_add', 'checked_mul'):
        def _g(e, st, lab, c, _k=_k):
            a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
            e.deliver(st, lab, opt(e.binop(_k.split('_')[1].capitalize(), a, b)))
        PRE['%s::%s' % (_t, _k)] = _g


@pre('Duration::from_secs', 'Duration::from_millis', 'Duration::from_nanos', 'Duration::as_nanos', 'Duration::as_millis', 'Duration::as_secs')
def m_dur(e, st, lab, c):
    a = e.deep(st, c.args[0])
    k = c.key.split('::')[1]
    f = {'from_secs': 10**9, 'from_millis': 10**6, 'from_nanos': 1}.get(k)
    if f:
        return e.deliver(st, lab, e.binop('Mul', a, intv(f)) if a.op == 'int' else mk('app', k, a))
    d = {'as_nanos': 1, 'as_millis': 10**6, 'as_secs': 10**9}[k]
    e.deliver(st, lab, intv(a.a[0] // d) if a.op == 'int' else mk('app', k, a))


# ---------------------------------------------------------------- ic environment
@model('api::msg_caller', 'api::caller', 'ic_cdk::caller', 'Environment::caller')
def m_caller(e, st, lab, c):
    e.deliver(st, lab, CALLER)


@model('api::time', 'Environment::now', 'Environment::now_nanos')
def m_time(e, st, lab, c):
    e.deliver(st, lab, NOW if c.key == 'api::time' else mk('app', c.key))


@model('api::canister_self', 'api::id', 'ic_cdk::id', 'Environment::canister_id')
def m_self(e, st, lab, c):
    e.deliver(st, lab, SELF)


@model('Principal::anonymous')
def m_anon(e, st, lab, c):
    e.deliver(st, lab, mk('anon'))


@model('candid::decode_args')
def m_args(e, st, lab, c):
    a = e.deep(st, c.args[0])
    if a.op == 'ret' and a.a[0] == 'api::msg_arg_data':
        return e.deliver(st, lab, ok(mk('args')))
    E.Engine.external(e, st, lab, c)


@model('IDLDeserialize::get_value', 'candid::decode_one', 'utils::decode_one')
def m_decode(e, st, lab, c):
    """the decoded value carries the type it was decoded as"""
    ty = c.dty or '?'
    i = ty.find('Result<')
    e.deliver(st, lab, mk('ret', 'decode', e.site(st), E.strv(ty[i + 7:].rsplit(', ', 1)[0]) if hasattr(E, 'strv') else mk('str', ty[i + 7:].rsplit(', ', 1)[0]), *[e.deep(st, a) for a in c.args]))


@model('futures::in_executor_context', 'futures::in_query_executor_context', 'futures::in_tracking_executor_context', 'futures::in_tracking_query_executor_context')
def m_exec(e, st, lab, c):
    e.invoke(st, lab, c.args[0], [], (), '()')


@model('futures::spawn', 'futures::spawn_017_compat', 'futures::spawn_weak', 'futures::spawn_migratory', 'ic_cdk::spawn')
def m_spawn(e, st, lab, c):
    fut = e.deref(st, c.args[0])
    e.ev(st, lab, 'spawn', fut.a[1] if fut.op == 'cor' else str(fut))
    if fut.op == 'cor' and fut.a[0] in e.p.fns:
        st.fr.append(XF('wrap', 'const', UNIT))
        return e.push(st, lab, e.p.fns[fut.a[0]], [fut, mk('ctx')])
    e.deliver(st, lab, UNIT)


@pre('Future::poll')
def m_poll(e, st, lab, c):
    fut = e.deref(st, c.args[0])
    if fut.op == 'cor' and fut.a[0] in e.p.fns:
        st.fr.append(XF('wrap', 'ready'))
        return e.push(st, lab, e.p.fns[fut.a[0]], [fut, mk('ctx')])
    out = mk('out', fut)
    e.kill_all_g(st)
    e.kill_term(st, out)
    e.ev(st, lab, 'await', e.deep(st, fut), out)
    if e.stale:
        out = e.age(st)(out)
    e.deliver(st, lab, mk('adt', POLL, 'Ready', ('0',), out))


def x_block(self, st, lab, f, v):
    # the future an analysed async function returns is driven to its end
    st.fr.pop()
    fut = self.deref(st, v)
    if fut.op == 'cor' and fut.a[0] in self.p.fns:
        st.fr.append(XF('blocked'))
        return self.push(st, lab, self.p.fns[fut.a[0]], [fut, mk('ctx')])
    self.ev_root_return(st, lab, v)


def x_blocked(self, st, lab, f, v):
    st.fr.pop()
    self.ev_root_return(st, lab, self.deep(st, v))


E.Engine.x_block = x_block
E.Engine.x_blocked = x_blocked


@model('Runtime::block_on')
def m_block_on(e, st, lab, c):
    fut = e.deref(st, c.args[1])
    if fut.op == 'cor' and fut.a[0] in e.p.fns:
        return e.push(st, lab, e.p.fns[fut.a[0]], [fut, mk('ctx')])
    E.Engine.external(e, st, lab, c)


@model('retry_async::retry_async')
def m_retry(e, st, lab, c):
    # the operation closure runs (at least once) producing the future whose output is returned
    st.fr.append(XF('retry'))
    e.invoke(st, lab, c.args[0], [], (), '?')


def x_retry(self, st, lab, f, v):
    st.fr.pop()
    fut = self.deref(st, v)
    if fut.op == 'cor':
        self.deliver(st, lab, fut)
        return
    self.deliver(st, lab, mk('ret', 'retry', self.site(st), self.deep(st, fut)))


E.Engine.x_retry = x_retry


# ---------------------------------------------------------------- thread locals / cells / locks
def lkname(v):
    return v.a[0]


@pre('LocalKey::with', 'LocalKey::with_borrow', 'LocalKey::with_borrow_mut')
def m_lkwith(e, st, lab, c):
    lk = e.deref(st, c.args[0]) if c.args[0].op == 'ref' else c.args[0]
    if lk.op != 'lk':
        return E.Engine.external(e, st, lab, c)
    mode = {'with': None, 'with_borrow': 'shr', 'with_borrow_mut': 'mut'}[c.key.split('::')[1]]
    p = mk('gref', lk.a[0])
    if mode:
        e.ev(st, lab, 'borrow', lk.a[0], mode)
        st.fr.append(XF('unborrow', lk.a[0]))
    e.invoke(st, lab, c.args[1], [p], ('?',), c.dty)


def x_unborrow(self, st, lab, f, v):
    st.fr.pop()
    self.ev(st, lab, 'unborrow', f.data[0])
    self.deliver(st, lab, v)


E.Engine.x_unborrow = x_unborrow


@pre('LocalKey::take', 'LocalKey::set', 'LocalKey::replace', 'LocalKey::get')
def m_lktake(e, st, lab, c):
    lk = e.deref(st, c.args[0]) if c.args[0].op == 'ref' else c.args[0]
    if lk.op != 'lk':
        return E.Engine.external(e, st, lab, c)
    k = c.key.split('::')[1]
    old = mk('g', lk.a[0])
    if k == 'get':
        return e.deliver(st, lab, old)
    e.gwrite(st, lab, (lk.a[0],), k, tuple(e.deep(st, a) for a in c.args[1:]))
    e.deliver(st, lab, UNIT if k == 'set' else old)


@pre('RefCell::borrow', 'RefCell::borrow_mut')
def m_refcell(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    if p.op == 'gref':
        e.ev(st, lab, 'borrow', '.'.join(map(str, p.a)), 'mut' if c.key.endswith('mut') else 'shr')
    e.deliver(st, lab, p)


@pre('RwLock::read', 'RwLock::write', 'Mutex::lock', 'RefCell::try_borrow', 'RefCell::try_borrow_mut')
def m_lock(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    e.deliver(st, lab, ok(p))


def resolve(e, st, p):
    """innermost pointer"""
    n = 0
    while p.op == 'ref' and n < 20:
        x = e.read_loc(st, ('l', p.a[0], p.a[1], p.a[2]))
        if x.op in ('ref', 'gref'):
            p = x
        else:
            return p
        n += 1
    return p


def store(e, st, lab, p, v, how='set'):
    if p.op == 'ref':
        e.write_loc(st, lab, ('l', p.a[0], p.a[1], p.a[2]), v)
    elif p.op == 'gref':
        e.gwrite(st, lab, p.a, how, (e.deep(st, v),))


# ---------------------------------------------------------------- Option / Result
def adt_of(key):
    return OPTION if key.startswith('Option') else RESULT


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(e, st, lab, c):
    v = e.deref(st, c.args[0])
    n = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c.key.split('::')[1]]
    if v.op == 'adt':
        return e.deliver(st, lab, boolv(v.a[1] == n))
    f = st.facts.get(v)
    if isinstance(f, str):
        return e.deliver(st, lab, boolv(f == n))
    if n == 'None':
        return e.deliver(st, lab, notv(mk('isvar', v, 'Some', OPTION)))
    if n == 'Err':
        return e.deliver(st, lab, notv(mk('isvar', v, 'Ok', RESULT)))
    e.deliver(st, lab, mk('isvar', v, n, adt_of(c.key)))


@model('Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and', 'Result::is_err_and')
def m_isand(e, st, lab, c):
    adt = adt_of(c.key)
    k = c.key.split('::')[1]
    good = {'is_some_and': 'Some', 'is_none_or': 'Some', 'is_ok_and': 'Ok', 'is_err_and': 'Err'}[k]
    for n, s, l in e.split(st, c.args[0], adt):
        if n == good:
            e.invoke(s, lab + l, c.args[1], [pay(e, s, c.args[0], good)], ('?',), 'bool')
        else:
            e.deliver(s, lab + l, boolv(k == 'is_none_or'))


def combin(good, bad):
    pass


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err', 'Option::unwrap_unchecked')
def m_unwrap(e, st, lab, c):
    adt = adt_of(c.key)
    good = 'Some' if adt == OPTION else ('Err' if c.key.endswith('_err') else 'Ok')
    v0 = c.args[0]
    for n, s, l in e.split(st, v0, adt):
        if n == good:
            e.deliver(s, lab + l, pay(e, s, v0, good))
        else:
            e.end(s, lab + l + [('e', 'panic', c.key, (e.deep(s, v0),), e.loc(s))], 'panic')


@model('Option::unwrap_or', 'Result::unwrap_or', 'Option::or', 'Result::or')
def m_unwrap_or(e, st, lab, c):
    adt = adt_of(c.key)
    good = 'Some' if adt == OPTION else 'Ok'
    isor = c.key.endswith('::or')
    if c.key == 'Result::unwrap_or':
        # conversion of a stored setting that saturates: treated as exact, like saturating arithmetic
        r, d = e.deep(st, c.args[0]), e.deep(st, c.args[1])
        if r.op == 'res' and r.a[0].op == 'g' and r.a[1].op == 'app' and r.a[1].a[0] == 'converr' and d.op == 'int' and d.a[0] in (2 ** 32 - 1, 2 ** 64 - 1, 2 ** 128 - 1):
            return e.deliver(st, lab, r.a[0])
    for n, s, l in e.split(st, c.args[0], adt):
        e.deliver(s, lab + l, (e.deref(s, c.args[0]) if isor else pay(e, s, c.args[0], good)) if n == good else c.args[1])


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_def(e, st, lab, c):
    adt = adt_of(c.key)
    good = 'Some' if adt == OPTION else 'Ok'
    for n, s, l in e.split(st, c.args[0], adt):
        e.deliver(s, lab + l, pay(e, s, c.args[0], good) if n == good else default_of(c.dty))


def default_of(ty):
    h = ty.split('<')[0]
    if h.endswith('HashMap') or h.endswith('BTreeMap'):
        return EMPTYMAP
    if h.endswith('Vec') or h.endswith('Set') or h.endswith('VecDeque'):
        return EMPTYBAG
    if h.endswith('String'):
        return strv('')
    if h.endswith('Option'):
        return NONE
    if h == 'bool':
        return FALSE
    if h in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i32', 'i64', 'i128') or h == 'candid::Nat':
        return intv(0)
    return mk('default', ty)


@pre('Default::default', localfirst=True)
def m_default(e, st, lab, c):
    e.deliver(st, lab, default_of(c.dty))


@model('Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::or_else', 'Result::or_else')
def m_unwrap_or_else(e, st, lab, c):
    adt = adt_of(c.key)
    good = 'Some' if adt == OPTION else 'Ok'
    isor = c.key.endswith('or_else') and not c.key.endswith('unwrap_or_else')
    for n, s, l in e.split(st, c.args[0], adt):
        if n == good:
            e.deliver(s, lab + l, e.deref(s, c.args[0]) if isor else pay(e, s, c.args[0], good))
        else:
            e.invoke(s, lab + l, c.args[1], [] if adt == OPTION else [pay(e, s, c.args[0], 'Err')], ('?',), '?')


@model('Option::map', 'Result::map', 'Result::map_err', 'Option::and_then', 'Result::and_then', 'Option::inspect', 'Result::inspect', 'Result::inspect_err')
def m_map(e, st, lab, c):
    adt = adt_of(c.key)
    k = c.key.split('::')[1]
    good = 'Err' if k.endswith('_err') else ('Some' if adt == OPTION else 'Ok')
    v0 = c.args[0]
    for n, s, l in e.split(st, v0, adt):
        if n == good:
            if k.startswith('inspect'):
                s.fr.append(XF('wrap', 'const', e.deref(s, v0)))
            elif k != 'and_then':
                s.fr.append(XF('wrap', {'Some': 'some', 'Ok': 'ok', 'Err': 'err'}[good]))
            e.invoke(s, lab + l, c.args[1], [pay(e, s, v0, good)], ('?',), '?')
        else:
            x = NONE if n == 'None' else mk('adt', RESULT, n, ('0',), pay(e, s, v0, n))
            e.deliver(s, lab + l, x)


@model('Option::map_or', 'Option::map_or_else', 'Result::map_or', 'Result::map_or_else')
def m_map_or(e, st, lab, c):
    adt = adt_of(c.key)
    good = 'Some' if adt == OPTION else 'Ok'
    for n, s, l in e.split(st, c.args[0], adt):
        if n == good:
            e.invoke(s, lab + l, c.args[2], [pay(e, s, c.args[0], good)], ('?',), '?')
        elif c.key.endswith('else'):
            e.invoke(s, lab + l, c.args[1], [] if adt == OPTION else [pay(e, s, c.args[0], 'Err')], ('?',), '?')
        else:
            e.deliver(s, lab + l, c.args[1])


@model('Option::ok_or', 'Option::ok_or_else')
def m_ok_or(e, st, lab, c):
    for n, s, l in e.split(st, c.args[0], OPTION):
        if n == 'Some':
            e.deliver(s, lab + l, ok(pay(e, s, c.args[0], 'Some')))
        elif c.key.endswith('else'):
            s.fr.append(XF('wrap', 'err'))
            e.invoke(s, lab + l, c.args[1], [], (), '?')
        else:
            e.deliver(s, lab + l, err(c.args[1]))


@model('bool::then', 'bool::then_some', 'bool::ok_or', 'bool::ok_or_else')
def m_bthen(e, st, lab, c):
    k = c.key.rsplit('::', 1)[1]
    for b, s, l in e.truth(st, e.deep(st, c.args[0])):
        if k.startswith('ok_or'):
            if b:
                e.deliver(s, lab + l, ok(UNIT))
            elif k == 'ok_or':
                e.deliver(s, lab + l, err(c.args[1]))
            else:
                s.fr.append(XF('wrap', 'err'))
                e.invoke(s, lab + l, c.args[1], [], (), '?')
        elif not b:
            e.deliver(s, lab + l, NONE)
        elif k == 'then_some':
            e.deliver(s, lab + l, some(c.args[1]))
        else:
            s.fr.append(XF('wrap', 'some'))
            e.invoke(s, lab + l, c.args[1], [], (), '?')


@model('Result::ok', 'Result::err')
def m_ok(e, st, lab, c):
    good = 'Ok' if c.key.endswith('ok') else 'Err'
    for n, s, l in e.split(st, c.args[0], RESULT):
        e.deliver(s, lab + l, some(pay(e, s, c.args[0], n)) if n == good else NONE)


@model('Option::filter')
def m_ofilter(e, st, lab, c):
    for n, s, l in e.split(st, c.args[0], OPTION):
        if n == 'None':
            e.deliver(s, lab + l, NONE)
        else:
            x = pay(e, s, c.args[0], 'Some')
            s.fr.append(XF('filter', x))
            e.invoke(s, lab + l, c.args[1], [x], ('?',), 'bool')


@model('Option::and', 'Result::and')
def m_and(e, st, lab, c):
    adt = adt_of(c.key)
    good = 'Some' if adt == OPTION else 'Ok'
    for n, s, l in e.split(st, c.args[0], adt):
        if n == good:
            e.deliver(s, lab + l, c.args[1])
        else:
            e.deliver(s, lab + l, NONE if n == 'None' else err(pay(e, s, c.args[0], 'Err')))


@model('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut')
def m_asref(e, st, lab, c):
    adt = adt_of(c.key)
    p = resolve(e, st, c.args[0])
    for n, s, l in e.split(st, p, adt):
        if n == 'None':
            e.deliver(s, lab + l, NONE)
        else:
            e.deliver(s, lab + l, mk('adt', adt, n, ('0',), ptr_pay(e, s, p, n)))


@model('Option::take', 'Option::replace', 'Option::insert')
def m_take(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    old = e.deref(st, p)
    k = c.key.split('::')[1]
    store(e, st, lab, p, NONE if k == 'take' else some(c.args[1]))
    e.deliver(st, lab, old)


@pre('mem::take', 'mem::replace')
def m_memtake(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    old = e.deref(st, p)
    store(e, st, lab, p, default_of(c.dty) if c.key.endswith('take') else c.args[1])
    e.deliver(st, lab, old)


@pre('mem::drop', 'mem::forget')
def m_memdrop(e, st, lab, c):
    v = e.deref(st, c.args[0])
    if c.key.endswith('drop') and c.args[0].op == 'gref' and c.targs and E.is_cell_guard(c.targs[0]):
        e.ev(st, lab, 'unborrow', '.'.join(map(str, c.args[0].a)))
        return e.deliver(st, lab, UNIT)
    if c.key.endswith('drop'):
        ds = e.nested_drops(st, v)
        if ds:
            e.ev(st, lab, 'drop', ds[0].a[0])
            st.fr.append(XF('wrap', 'const', UNIT))
            return e.push(st, lab, e.p.drops[e.p.adtkey(ds[0].a[0])], [ds[0]])
    e.deliver(st, lab, UNIT)


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def m_goi(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    for n, s, l in e.split(st, p, OPTION):
        if n == 'Some' or p.op != 'gref':
            e.deliver(s, lab + l, ptr_pay(e, s, p, 'Some'))
        else:
            s.fr.append(XF('gset', p.a + ('Some', '0')))
            if c.key.endswith('with'):
                e.invoke(s, lab + l, c.args[1], [], (), '?')
            else:
                e.deliver(s, lab + l, c.args[1])


@pre('Try::branch')
def m_branch(e, st, lab, c):
    adt = OPTION if c.tys and c.tys[0].startswith('std::option::Option') else RESULT
    v0 = c.args[0]
    for n, s, l in e.split(st, v0, adt):
        if n in ('Some', 'Ok'):
            e.deliver(s, lab + l, mk('adt', CFLOW, 'Continue', ('0',), pay(e, s, v0, n)))
        else:
            r = NONE if n == 'None' else err(pay(e, s, v0, 'Err'))
            e.deliver(s, lab + l, mk('adt', CFLOW, 'Break', ('0',), r))


@pre('FromResidual::from_residual')
def m_resid(e, st, lab, c):
    v = e.deref(st, c.args[0])
    if v.op == 'adt' and v.a[1] == 'Err':
        # `?` converts the error with From; find a local impl by types
        src = c.tys[0] if c.tys else ''
        es = src[len('std::result::Result<'):-1].split(', ', 1)[-1] if src.startswith('std::result::Result<') else ''
        for f in e.p.fns.values():
            if f.raw.get('impl_trait') == 'std::convert::From' and es and ('From<%s>>::from' % es) in f.path and f.raw.get('self_ty') and f.raw['self_ty'] in c.dty:
                st.fr.append(XF('wrap', 'err'))
                return e.push(st, lab, f, [v.a[3]])
    e.deliver(st, lab, v)


# ---------------------------------------------------------------- strings / formatting
@model('Argument::new_upper_hex')
def m_upper(e, st, lab, c):
    e.deliver(st, lab, mk('app', 'upperhex', e.deep(st, c.args[0])))


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def m_fmtarg(e, st, lab, c):
    e.deliver(st, lab, e.deep(st, c.args[0]))


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str', 'Arguments::new_v1_formatted')
def m_fmtargs(e, st, lab, c):
    e.deliver(st, lab, mk('app', 'fmt', *[e.deep(st, a) for a in c.args]))


@model('fmt::format', 'alloc::format', 'Arguments::to_string')
def m_fmt(e, st, lab, c):
    e.deliver(st, lab, e.deep(st, c.args[0]))


@model('str::starts_with', 'str::ends_with', 'str::contains', 'slice::contains', 'Vec::contains', 'HashSet::contains', 'BTreeSet::contains', 'slice::starts_with')
def m_has(e, st, lab, c):
    a, b = e.deep(st, c.args[0]), e.deep(st, c.args[1])
    k = c.key.split('::')[1]
    if a.op == 'str' and b.op == 'str':
        r = {'starts_with': a.a[0].startswith(b.a[0]), 'ends_with': a.a[0].endswith(b.a[0]), 'contains': b.a[0] in a.a[0]}[k]
        return e.deliver(st, lab, boolv(r))
    if a.op in ('arr',) and k == 'contains' and b.op in ('adt', 'str', 'int') and all(x.op == b.op for x in a.a):
        rs = [eqv(x, b) for x in a.a]
        if any(r is TRUE for r in rs):
            return e.deliver(st, lab, TRUE)
        if all(r is FALSE for r in rs):
            return e.deliver(st, lab, FALSE)
    e.deliver(st, lab, mk('app', c.key.split('::')[0] in ('str',) and 'str_' + k or k, a, b))


@model('str::len', 'String::len', 'Vec::len', 'slice::len', 'HashMap::len', 'BTreeMap::len', 'BTreeSet::len', 'HashSet::len', 'VecDeque::len', 'ByteBuf::len', 'ExactSizeIterator::len')
def m_len(e, st, lab, c):
    e.deliver(st, lab, e.lenv(e.deep(st, c.args[0])))


@model('str::is_empty', 'String::is_empty', 'Vec::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty', 'HashSet::is_empty')
def m_isempty(e, st, lab, c):
    v = e.deep(st, c.args[0])
    if v.op == 'arr':
        return e.deliver(st, lab, boolv(not v.a))
    if v.op == 'str':
        return e.deliver(st, lab, boolv(not v.a[0]))
    e.deliver(st, lab, eqv(e.lenv(v), intv(0)))


# ---------------------------------------------------------------- Vec
@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def m_vnew(e, st, lab, c):
    e.deliver(st, lab, mk('arr'))


@model('String::new', 'String::with_capacity')
def m_snew(e, st, lab, c):
    e.deliver(st, lab, strv(''))


@model('Vec::push', 'HashSet::insert', 'BTreeSet::insert', 'VecDeque::push_back', 'VecDeque::push_front', 'String::push_str', 'String::push', 'Vec::insert')
def m_vpush(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    x = e.deep(st, c.args[-1])
    k = c.key
    res = TRUE if 'Set' in k else UNIT
    if p.op == 'gref':
        e.gwrite(st, lab, p.a, 'push' if 'Set' not in k else 'insert', (x,))
        if 'Set' in k:
            res = mk('ret', k, e.site(st), mk('g', *p.a), x)
        return e.deliver(st, lab, res)
    old = e.deref(st, p)
    if e.flat and old.op in ('arr', 'bag', 'wid'):
        e.ev(st, lab, 'out', x, mk('wid', ('push:sorted:' if 'BTreeSet' in k else 'push:') + e.site(st)), old)
    elif not k.startswith('String'):
        e.ev(st, lab, 'out', x)
    if k.startswith('String'):
        new = mk('app', 'concat', old, x)
    elif e.flat and old.op in ('arr', 'bag', 'wid'):
        new = mk('wid', ('push:sorted:' if 'BTreeSet' in k else 'push:') + e.site(st))
    elif old.op == 'arr' and x not in old.a and len(old.a) < 24 and 'Set' not in k and k != 'Vec::insert':
        new = mk('arr', *old.a, x)
    elif old.op in ('arr', 'bag'):
        r = set(old.a) | {x}
        new = bag(r) if len(r) <= 24 else bag([mk('wid', 'push:' + e.site(st))])
    else:
        new = mk('app', 'pushed', old, x)
        if old.op == 'app' and old.a[0] == 'pushed' and (old.a[2] is x):
            new = old
    store(e, st, lab, p, new)
    if 'Set' in k:
        res = mk('app', 'newly', old if len(subs(old)) < 40 else mk('unk', 'set'), x)
    e.deliver(st, lab, res)


@model('Vec::retain', 'HashMap::retain', 'BTreeMap::retain', 'Vec::retain_mut')
def m_retain(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    if 'Map' in c.key:
        el = e.elems(st, mk('entries', p if p.op == 'gref' else e.deref(st, p)))[0:1]
        el = el[0] if el else tup(mk('unk', 'k'), mk('unk', 'v'))
        args = [e.proj(st, el, ('f', '0')), e.proj(st, el, ('f', '1'))]
        elem = e.deep(st, args[0])
    else:
        els = e.elems(st, p)
        el = els[0] if els else mk('unk', 'none')
        args = [el]
        elem = e.deep(st, el)
    st.fr.append(XF('retain', p, elem))
    e.invoke(st, lab, c.args[1], args, ('?',), 'bool')


@model('Vec::clear', 'HashMap::clear', 'BTreeMap::clear', 'BTreeSet::clear', 'HashSet::clear', 'BTreeMap::clear_new', 'Vec::truncate', 'Vec::drain')
def m_clear(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    k = c.key.split('::')[1]
    old = e.deref(st, p)
    if p.op == 'gref':
        e.gwrite(st, lab, p.a, k, tuple(e.deep(st, a) for a in c.args[1:]))
    elif k == 'clear' or k == 'drain':
        store(e, st, lab, p, EMPTYMAP if 'Map' in c.key else mk('arr'))
    else:
        store(e, st, lab, p, mk('app', 'truncate', old, *[e.deep(st, a) for a in c.args[1:]]))
    e.deliver(st, lab, mk('iter', old) if k == 'drain' else UNIT)


@model('Vec::remove', 'Vec::swap_remove', 'Vec::pop', 'BTreeSet::remove', 'HashSet::remove', 'VecDeque::pop_front', 'VecDeque::pop_back')
def m_vremove(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    x = tuple(e.deep(st, a) for a in c.args[1:])
    old = e.deep(st, p)
    k = c.key.split('::')[1]
    if p.op == 'gref':
        e.gwrite(st, lab, p.a, k, x)
    else:
        store(e, st, lab, p, mk('app', 'removed', old, *x))
    if 'Set' in c.key:
        return e.deliver(st, lab, mk('app', 'contains', old, *x))
    if k.startswith('pop'):
        es = e.elems(st, old)
        return e.deliver(st, lab, opt(es[0] if len(es) == 1 else mk('elem', old)))
    e.deliver(st, lab, mk('at', old, *x))


@model('slice::first', 'slice::last', 'Vec::first', 'Vec::last', 'slice::get', 'slice::get_mut', 'Vec::get', 'slice::first_mut', 'slice::last_mut')
def m_first(e, st, lab, c):
    v = e.deep(st, c.args[0])
    k = c.key.split('::')[1]
    idx = e.deep(st, c.args[1]) if len(c.args) > 1 else strv(k)
    if v.op == 'arr':
        if not v.a:
            return e.deliver(st, lab, NONE)
        if k.startswith('first') or k.startswith('last'):
            return e.deliver(st, lab, some(v.a[0] if k.startswith('first') else v.a[-1]))
        if idx.op == 'int':
            return e.deliver(st, lab, some(v.a[idx.a[0]]) if idx.a[0] < len(v.a) else NONE)
    r = e.advance(st, v, None, idx, st.fr[-1].body.counters) if k == 'get' and not isinstance(st.fr[-1], XF) and st.fr[-1].body.counters else None
    if r:
        # while let Some(x) = list.get(i) { … i += 1 }
        e.deliver(r[2], lab + r[3], NONE)
        return e.deliver(r[0], lab + r[1], some(atv(v, mk('idx', v))))
    e.deliver(st, lab, opt(atv(v, idx)))


@pre('Index::index', 'IndexMut::index_mut', localfirst=True)
def m_index(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    i = e.deep(st, c.args[1])
    if p.op == 'gref':
        return e.deliver(st, lab, mk('gref', *p.a, 'each' if i.op == 'idx' and i.a[0].op in ('g', 'gref') and i.a[0].a == p.a else mk('k', i)))
    v = e.deref(st, p)
    if v.op in ('arr',) and i.op == 'int' and 0 <= i.a[0] < len(v.a):
        return e.deliver(st, lab, v.a[i.a[0]])
    if v.op in ('arr', 'bag') and not v.a and i.op != 'adt':
        return e.end(st, lab, 'panic')
    e.deliver(st, lab, atv(e.deep(st, v), i))


@model('Digest::update')
def m_hashed(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    store(e, st, lab, p, mk('app', 'hashed', e.deep(st, e.deref(st, p)), e.deep(st, c.args[1])))
    e.deliver(st, lab, UNIT)


@model('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::reverse', 'Vec::dedup', 'Vec::dedup_by', 'slice::swap', 'Vec::reserve', 'Vec::shrink_to_fit', 'Vec::dedup_by_key', 'slice::sort_by_cached_key')
def m_sort(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    v = e.deep(st, p)
    e.ev(st, lab, 'call', c.key, (v,) + tuple(e.deep(st, a) for a in c.args[1:]), UNIT)
    if p.op == 'gref':
        e.gwrite(st, lab, p.a, c.key.split('::')[1], ())
    elif v.op == 'arr':
        store(e, st, lab, p, bag(v.a))
    clos = [x for x in (e.deref(st, a) for a in c.args[1:]) if x.op == 'clo']
    if clos:
        st.fr.append(XF('extclo', tuple(clos), UNIT))
        return e.boundary(st, lab)
    e.deliver(st, lab, UNIT)


@model('Vec::append', 'Vec::extend_from_slice', 'HashMap::append')
def m_append(e, st, lab, c):
    x = e.deep(st, c.args[1])
    e.extend_into(st, lab, resolve(e, st, c.args[0]), bag(x.a) if x.op in ('arr', 'bag') else bag([mk('elem', x)]))
    e.deliver(st, lab, UNIT)


@model('vec::from_elem')
def m_fromelem(e, st, lab, c):
    e.deliver(st, lab, mk('app', 'repeat', e.deep(st, c.args[0]), e.deep(st, c.args[1])))


@pre('Box::new_uninit', 'boxed::box_new_uninit')
def m_boxuninit(e, st, lab, c):
    e.deliver(st, lab, mk('boxuninit'))


@pre('boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec')
def m_boxvec(e, st, lab, c):
    e.deliver(st, lab, fixbox(e, st, c.args[0]))


def fixbox(e, st, v):
    v = e.deref(st, v)
    # vec![..] writes the array through a MaybeUninit box
    n = 0
    while v.op == 'upd' and n < 10:
        v = v.a[-1]
        n += 1
    return v


# ---------------------------------------------------------------- maps
@model('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'Map::new')
def m_mnew(e, st, lab, c):
    e.deliver(st, lab, EMPTYMAP)


def is_stable(c):
    return 'ic_stable_structures' in c.path


@model('HashMap::get', 'BTreeMap::get', 'HashMap::get_mut', 'BTreeMap::get_mut', 'Map::get', 'Value::get')
def m_mget(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    k = e.deep(st, c.args[1])
    if p.op == 'gref':
        q = mk('gref', *p.a, mk('k', k))
        if is_stable(c):
            q = mk('g', *q.a)
        return e.deliver(st, lab, opt(q))
    m = e.deep(st, p)
    v, known = mlookup(e, st, m, k)
    if known:
        return e.deliver(st, lab, v)
    if c.key.endswith('mut') and p.op == 'ref':
        e.ev(st, lab, 'lmut', m, k)
    e.deliver(st, lab, opt(v))


def mlookup(e, st, m, k):
    if m.op == 'map':
        for ent in m.a[1].a:
            kk, vv = e.proj(st, ent, ('f', '0')), e.proj(st, ent, ('f', '1'))
            if kk is k and k not in m.a[2].a:
                return some(vv), True
        if m.a[0].op == 'empty' and not m.a[1].a:
            return NONE, True
        if m.a[0].op == 'empty' and k.op == 'str' and not m.a[2].a and all(x.op == 'tup' and x.a[0].op == 'str' and x.a[0] is not k for x in m.a[1].a):
            return NONE, True
        if m.a[0].op != 'empty' and not m.a[1].a and not m.a[2].a:
            return atv(m.a[0], k), False
    return atv(m, k), False


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'Map::contains_key')
def m_mhas(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    k = e.deep(st, c.args[1])
    if p.op == 'gref':
        q = mk('gref', *p.a, mk('k', k))
        if is_stable(c):
            q = mk('g', *q.a)
        return e.deliver(st, lab, mk('isvar', opt(q), 'Some', OPTION))
    v, known = mlookup(e, st, e.deep(st, p), k)
    if known:
        return e.deliver(st, lab, boolv(v.a[1] == 'Some'))
    e.deliver(st, lab, mk('isvar', opt(v), 'Some', OPTION))


@model('HashMap::insert', 'BTreeMap::insert', 'Map::insert')
def m_mins(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    k, v = e.deep(st, c.args[1]), e.deep(st, c.args[2])
    if p.op == 'gref':
        slot = opt(mk('gref', *p.a, mk('k', k)))
        if v.op in ('arr', 'bag') and st.facts.get(slot) == 'None':
            e.fill(st, lab, p.a + (mk('k', k),), v)
            return e.deliver(st, lab, NONE)
        e.gwrite(st, lab, p.a, 'insert', (k, v))
        return e.deliver(st, lab, opt(mk('g', *p.a, mk('k', k))))
    m = e.deref(st, p)
    if m.op == 'map':
        ents = [x for x in m.a[1].a if e.proj(st, x, ('f', '0')) is not k or k.op in ('elem',)]
        new = mapv(m.a[0], list(ents) + [tup(k, v)], [x for x in m.a[2].a if x is not k])
        if len(ents) > (400 if e.codec else 40):
            new = mapv(mk('wid', 'map:' + e.site(st)), ())
    else:
        new = mapv(m, [tup(k, v)])
    if e.flat and not e.codec:
        e.ev(st, lab, 'lput', tup(k, v), m)
    store(e, st, lab, p, new)
    e.deliver(st, lab, opt(atv(m if m.op != 'map' else m.a[0], k)))


@model('HashMap::remove', 'BTreeMap::remove', 'HashMap::remove_entry', 'Map::remove', 'BTreeMap::pop_first')
def m_mrem(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    k = e.deep(st, c.args[1]) if len(c.args) > 1 else strv('first')
    if p.op == 'gref':
        e.gwrite(st, lab, p.a, 'remove', (k,))
        return e.deliver(st, lab, opt(mk('g', *p.a, mk('k', k))))
    m = e.deref(st, p)
    v, known = mlookup(e, st, m, k)
    if m.op == 'map':
        ents = [x for x in m.a[1].a if e.proj(st, x, ('f', '0')) is not k]
        new = mapv(m.a[0], ents, list(m.a[2].a) + [k])
    else:
        new = mapv(m, [], [k])
    store(e, st, lab, p, new)
    e.deliver(st, lab, v if known else opt(v))


@model('HashMap::entry', 'BTreeMap::entry')
def m_entry(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    e.deliver(st, lab, mk('entry', p, e.deep(st, c.args[1])))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def m_orins(e, st, lab, c):
    en = e.deref(st, c.args[0])
    if en.op != 'entry':
        return E.Engine.external(e, st, lab, c)
    p, k = en.a[:2]
    if p.op == 'gref':
        path = p.a + (mk('k', k),)
        if len(en.a) > 2:
            return e.deliver(st, lab, mk('gref', *path))
        st.fr.append(XF('gset', path))
        if 'with' in c.key:
            return e.invoke(st, lab, c.args[1], [], (), '?')
        return e.deliver(st, lab, c.args[1] if len(c.args) > 1 else mk('default', 'entry'))
    # local map: the slot holds what it held before or the given value; what is done to it through the
    # returned reference is not followed
    m = e.deref(st, p)
    v, known = mlookup(e, st, e.deep(st, m), k)
    if known and v is not NONE:
        return e.deliver(st, lab, v.a[3])
    x = e.deep(st, c.args[1]) if len(c.args) > 1 and 'with' not in c.key else mk('lentry', k)
    if m.op == 'map':
        new = mapv(m.a[0], [y for y in m.a[1].a if e.proj(st, y, ('f', '0')) is not k] + [tup(k, x)], m.a[2].a)
    else:
        new = mapv(m, [tup(k, x)])
    if e.flat and not e.codec:
        e.ev(st, lab, 'lput', tup(k, x), m)
    store(e, st, lab, p, new)
    e.deliver(st, lab, mk('lentry', p, k))


@model('Entry::and_modify')
def m_andmod(e, st, lab, c):
    en = e.deref(st, c.args[0])
    if en.op == 'entry' and en.a[0].op == 'gref' and len(en.a) == 2:
        slot = mk('gref', *en.a[0].a, mk('k', en.a[1]))
        for n, s, l in e.split(st, opt(slot), OPTION):
            if n == 'None':
                e.deliver(s, lab + l, en)
            else:
                s.fr.append(XF('wrap', 'const', mk("entry", *en.a, UNIT)))
                e.invoke(s, lab + l, c.args[1], [slot], ('?',), '()')
        return
    e.deliver(st, lab, en)


def entry_in(e, st, v):
    """the map entry an OccupiedEntry / VacantEntry value was matched from"""
    v = e.deref(st, v)
    while v.op in ('as', 'fld', 'pay') and isinstance(v.a[0], V):
        v = v.a[0]
    return v if v.op == 'entry' and v.a[0].op == 'gref' else None


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_occget(e, st, lab, c):
    en = entry_in(e, st, c.args[0])
    if en is None:
        return E.Engine.external(e, st, lab, c)
    e.deliver(st, lab, mk('gref', *en.a[0].a, mk('k', en.a[1])))


@model('OccupiedEntry::remove')
def m_occrem(e, st, lab, c):
    en = entry_in(e, st, c.args[0])
    if en is None:
        return E.Engine.external(e, st, lab, c)
    e.gwrite(st, lab, en.a[0].a, 'remove', (en.a[1],))
    e.deliver(st, lab, mk('g', *en.a[0].a, mk('k', en.a[1])))


@model('OccupiedEntry::insert')
def m_occins(e, st, lab, c):
    en = entry_in(e, st, c.args[0])
    if en is None:
        return E.Engine.external(e, st, lab, c)
    e.gwrite(st, lab, en.a[0].a, 'insert', (en.a[1], e.deep(st, c.args[1])))
    e.deliver(st, lab, mk('g', *en.a[0].a, mk('k', en.a[1])))


@model('VacantEntry::insert')
def m_vacins(e, st, lab, c):
    en = entry_in(e, st, c.args[0])
    if en is None:
        return E.Engine.external(e, st, lab, c)
    path = en.a[0].a + (mk('k', en.a[1]),)
    e.fill(st, lab, path, e.deep(st, c.args[1]))
    e.deliver(st, lab, mk('gref', *path))


@model('HashMap::iter', 'BTreeMap::iter', 'HashMap::iter_mut', 'BTreeMap::iter_mut', 'HashMap::into_iter', 'Map::iter', 'BTreeMap::range', 'BTreeMap::into_iter')
def m_miter(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    src = p if p.op == 'gref' else e.deep(st, p)
    e.deliver(st, lab, mk('iter', note_order(mk('entries', src), c.key)))


@model('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys', 'BTreeMap::into_keys')
def m_mkeys(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    e.deliver(st, lab, mk('iter', note_order(mk('keys', p if p.op == 'gref' else e.deep(st, p)), c.key)))


@model('HashMap::values', 'BTreeMap::values', 'HashMap::values_mut', 'HashMap::into_values', 'BTreeMap::into_values', 'BTreeMap::values_mut')
def m_mvals(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    e.deliver(st, lab, mk('iter', note_order(mk('values', p if p.op == 'gref' else e.deep(st, p)), c.key)))


# ---------------------------------------------------------------- iterators
@pre('slice::iter', 'slice::iter_mut', 'Vec::iter', 'HashSet::iter', 'BTreeSet::iter', 'VecDeque::iter', 'Option::iter', 'Option::into_iter', 'str::chars', 'str::bytes', 'slice::into_iter')
def m_iter(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    if c.key.startswith('str'):
        return e.deliver(st, lab, mk('iter', mk('app', c.key, e.deep(st, p))))
    if p.op == 'ref':
        v = e.read_loc(st, ('l', p.a[0], p.a[1], p.a[2]))
        if v.op not in ('arr', 'bag') or not any(s.op == 'ref' for s in subs(v)):
            p = e.deep(st, p)
        else:
            p = v
    e.deliver(st, lab, mk('iter', p))


@pre('IntoIterator::into_iter', localfirst=True)
def m_intoiter(e, st, lab, c):
    ty = c.tys[0] if c.tys else ''
    p = resolve(e, st, c.args[0])
    v = p if p.op == 'gref' else e.deref(st, p)
    if v.op == 'iter':
        return e.deliver(st, lab, v)
    if v.op not in ('gref',) and not (v.op in ('arr', 'bag') and any(s.op == 'ref' for s in subs(v))):
        v = e.deep(st, v)
    e.deliver(st, lab, e.as_iter(st, v, ty))


ADAPT = ('map', 'filter', 'filter_map', 'flat_map', 'flatten', 'inspect', 'map_while', 'take_while', 'skip_while', 'take', 'skip', 'enumerate', 'cloned', 'copied', 'zip', 'rev',
         'peekable', 'step_by', 'fuse', 'by_ref')


OPTITEM = re.compile(r"(?:^|<)(?:\w+::)*(?:Iter|IterMut|IntoIter|Values|IntoValues)<(?:'\w+, )?(?:[^<>]*, )?&?(?:\w+::)*Option<")


def m_adapt(e, st, lab, c):
    k = c.key.split('::')[1]
    it = e.deref(st, c.args[0])
    if it.op != 'iter':
        it = mk('iter', it)
    if k == 'copied':
        k = 'cloned'
    extra = [e.deref(st, a) for a in c.args[1:]]
    if k in ('rev', 'peekable', 'step_by', 'fuse', 'by_ref'):
        op = mk('op', k)
    elif k in ('take', 'skip'):
        op = mk('op', k, e.deep(st, extra[0]))
    elif k == 'flatten' and c.tys and OPTITEM.search(c.tys[0]):
        op = mk('op', k, 'optional')
    else:
        op = mk('op', k, *extra)
    e.deliver(st, lab, mk('iter', *it.a, op))


for _k in ADAPT:
    PRE['Iterator::' + _k] = m_adapt
PRE['DoubleEndedIterator::rev'] = m_adapt


@pre('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copy_slice(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    v = e.deep(st, c.args[1])
    if p.op == 'ref' and not (len(p.a) > 2 and any(isinstance(x, tuple) and x and x[0] not in ('f', 'd') for x in p.a[2])):
        # the slices have the same length: the whole array is the copy
        store(e, st, lab, p, v)
        return e.deliver(st, lab, UNIT)
    e.external(st, lab, c)


@pre('Iterator::chain')
def m_chain(e, st, lab, c):
    a, b = e.deref(st, c.args[0]), e.deref(st, c.args[1])
    fa = a.a[0] if a.op == 'iter' and len(a.a) == 1 else None
    fb = b.a[0] if b.op == 'iter' and len(b.a) == 1 else (b if b.op != 'iter' else None)
    if fa is not None and fb is not None:
        return e.deliver(st, lab, mk('iter', mk('chain', fa, fb)))
    e.deliver(st, lab, mk('iter', mk('app', 'chain', e.deep(st, a), e.deep(st, b))))


@pre('Iterator::next', 'DoubleEndedIterator::next_back', 'Iterator::nth', localfirst=True)
def m_next(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    it = e.deref(st, p)
    if it.op != 'iter':
        it = mk('iter', it)
    e.drive(st, lab, it, 'next', UNIT, [p] if e.exact else ())


def m_sink(e, st, lab, c):
    k = c.key.split('::')[1]
    it = e.deref(st, c.args[0])
    if it.op != 'iter':
        it = e.as_iter(st, it, c.tys[0] if c.tys else '')
    acc = mk('arr')
    extra = list(c.args[1:])
    dty = c.dty
    sink = k
    if k == 'collect':
        h = dty.split('<')[0]
        inner = dty[len(h) + 1:]
        if h.endswith('Result'):
            sink = 'collect_res'
        elif h.endswith('Option'):
            sink = 'collect_opt'
        else:
            inner = dty
        hh = inner.split('<')[0]
        acc = EMPTYMAP if hh.endswith('Map') else EMPTYBAG
        src = e.deep(st, it.a[0]) if e.flat and not e.exact and len(it.a) == 1 and sink == 'collect' and acc is EMPTYBAG else UNIT
        if src.op == 'ret' and src.a[0] in ('str::split', 'str::splitn', 'str::lines', 'str::split_whitespace'):
            return e.deliver(st, lab, src)      # the parts of a text, as a list
    elif k in ('fold', 'try_fold'):
        acc = e.deep(st, c.args[1])
        extra = [c.args[2]]
    elif k in ('last', 'max', 'min', 'reduce', 'nth', 'max_by_key', 'min_by_key', 'max_by', 'min_by'):
        acc = UNIT
        sink = {'max_by_key': 'max', 'min_by_key': 'min', 'max_by': 'max', 'min_by': 'min'}.get(k, k)
    elif k == 'rposition':
        sink = 'position'
    e.drive(st, lab, it, sink, acc, extra, dty)


for _k in ('collect', 'for_each', 'any', 'all', 'find', 'find_map', 'position', 'rposition', 'fold', 'try_fold', 'count', 'sum', 'last', 'max', 'min', 'reduce',
           'max_by_key', 'min_by_key', 'max_by', 'min_by', 'try_for_each'):
    PRE['Iterator::' + _k] = m_sink


@pre('FromIterator::from_iter', localfirst=True)
def m_fromiter(e, st, lab, c):
    c.key = 'Iterator::collect'
    m_sink(e, st, lab, c)


@pre('Extend::extend', localfirst=True)
def m_extend(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    x = e.deref(st, c.args[1])
    it = x if x.op == 'iter' else e.as_iter(st, x, c.tys[1] if len(c.tys) > 1 else '')
    ty = c.tys[0] if c.tys else ''
    acc = EMPTYMAP if 'Map' in ty.split('<')[0] else EMPTYBAG
    if e.flat and not e.exact and p.op == 'ref':
        old = e.deref(st, p)
        if old.op in ('arr', 'bag', 'wid'):
            # element by element onto the list itself
            return e.drive(st, lab, it, 'extend_at', old, [p], ty)
    e.drive(st, lab, it, 'extend', acc, [p], ty if e.exact else '')


# ---------------------------------------------------------------- sorting
@pre('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def m_sort(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    how = c.key.split('::')[1].replace('sort_unstable', 'sort').replace('cached_', '')
    if p.op == 'gref':
        e.gwrite(st, lab, p.a, 'sort', ())
    v = e.deep(st, p)
    if how == 'sort':
        e.ev(st, lab, 'sorted', v if e.flat else UNIT, how, UNIT)
        return e.deliver(st, lab, UNIT)
    x, y = mk('arb', e.site(st), 0), mk('arb', e.site(st), 1)
    st.fr.append(XF('sorted', v if e.flat else UNIT, how))
    e.invoke(st, lab, c.args[1], [x, y] if how == 'sort_by' else [x], ('?',) * (2 if how == 'sort_by' else 1), '?')


@pre('Ordering::then')
def m_then(e, st, lab, c):
    e.deliver(st, lab, mk('app', 'then', e.deep(st, c.args[0]), e.deep(st, c.args[1])))


@pre('Ordering::reverse')
def m_rev(e, st, lab, c):
    e.deliver(st, lab, mk('app', 'reverse', e.deep(st, c.args[0])))


@pre('Ordering::then_with')
def m_thenw(e, st, lab, c):
    st.fr.append(XF('thenw', e.deep(st, c.args[0])))
    e.invoke(st, lab, c.args[1], [], (), '?')
