"""Round trip of stored values: the writer of a value appends (symbolic) tokens to the buffer, the reader takes them
off again.  Used with Engine(exact=True, codec=True).  A nested value of the type being written is one token that the
reader of the same type turns back (induction over the structure); so are the values of derived and foreign codecs."""
from val import *
import engine as E
from engine import PRE, MODELS, XF, Abort
from models import resolve, store
import re

UINT = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
SINT = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
DT = 'minicbor::data::Type'
ROOT = 1000000


def pre(*names):
    def d(f):
        for n in names:
            g = PRE.get(n)
            m = MODELS.get(n)

            def run(e, st, lab, c, g=g, m=m, f=f):
                if getattr(e, 'codec', False):
                    return f(e, st, lab, c)
                if g is not None:
                    return g(e, st, lab, c)
                if c.lid and c.lid in e.p.fns:
                    fn = e.p.fns[c.lid]
                    if fn.path not in e.opaque and e.depth_of(st, fn) < 1:
                        return e.push(st, lab, fn, c.args)
                if m is not None:
                    return m(e, st, lab, c)
                return E.Engine.external(e, st, lab, c)
            PRE[n] = run
        return f
    return d


def plain(v):
    while v.op == 'adt' and v.a[0].split('::')[-1] in ('Cow', 'Vec', 'Box', 'ByteBuf', 'ByteSlice') and len(v.a) == 4:
        v = v.a[3]
    return v


def err(e, what):
    return mk('adt', E.RESULT, 'Err', ('0',), mk('app', 'codecerr', strv(what)))


def cell(e, st, p):
    p = resolve(e, st, p)
    if p.op != 'ref':
        raise Abort('codec works on something that is not a local buffer')
    return p


def toks(e, st, p):
    v = e.deref(st, p)
    return list(v.a) if v.op == 'arr' else [] if v is EMPTYBAG else None


def put(e, st, lab, c, t):
    p = cell(e, st, c.args[0])
    xs = toks(e, st, p)
    if xs is None:
        raise Abort('codec writes to an unknown buffer')
    if len(xs) > 2000:
        raise Abort('codec writes without bound')
    store(e, st, lab, p, mk('arr', *xs, t))
    return p


def tok(k, *vs):
    return mk('tup', strv(k), *vs)


def tynorm(t):
    t = re.sub(r"&('\w+ )?(mut )?", '', t)
    return re.sub(r"<'\w+>", '', t).replace('&', '').strip()


def impl(e, ty, name):
    """hand written implementation of Encode / Decode for a type of the crate"""
    fs = [f for f in e.p.fns.values() if f.path.endswith('>::' + name) and 'minicbor' in f.path and tynorm(f.raw.get('self_ty') or '') == ty]
    if len(fs) == 1 and not fs[0].raw['exp']:
        return fs[0]
    return None


W = list(UINT) + list(SINT) + ['str', 'bytes', 'bool', 'array', 'map', 'int', 'f32', 'f64', 'tag', 'char', 'simple']


@pre(*['Encoder::' + k for k in W])
def m_put(e, st, lab, c):
    p = put(e, st, lab, c, tok(c.key.split('::')[1], e.deep(st, c.args[1])))
    e.deliver(st, lab, ok(p))


@pre('Encoder::null', 'Encoder::undefined', 'Encoder::begin_array', 'Encoder::begin_map', 'Encoder::end')
def m_null(e, st, lab, c):
    e.deliver(st, lab, ok(put(e, st, lab, c, tok(c.key.split('::')[1]))))


@pre('Encoder::new')
def m_newenc(e, st, lab, c):
    e.deliver(st, lab, c.args[0])


@pre('Encoder::ok')
def m_encok(e, st, lab, c):
    e.deliver(st, lab, ok(UNIT))


PRIM = {**{k: k for k in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'str')}, 'std::string::String': 'str', 'String': 'str', 'usize': 'u64',
        'minicbor::bytes::ByteSlice': 'bytes', 'minicbor::bytes::ByteVec': 'bytes', 'minicbor::bytes::ByteArray<32>': 'bytes'}


def encode(e, st, lab, x, p, ctx, ty):
    ty = tynorm(ty)
    v = e.deep(st, x)
    k = PRIM.get(ty)
    if k:
        xs = toks(e, st, p)
        if xs is None:
            raise Abort('codec writes to an unknown buffer')
        store(e, st, lab, p, mk('arr', *xs, tok(k, v)))
        return e.deliver(st, lab, ok(UNIT))
    fn = impl(e, ty, 'encode')
    if fn is None or v.op == 'fld' or e.depth_of(st, fn) >= 1:
        xs = toks(e, st, p)
        if xs is None:
            raise Abort('codec writes to an unknown buffer')
        store(e, st, lab, p, mk('arr', *xs, tok('val', strv(ty), e.deep(st, x))))
        return e.deliver(st, lab, ok(UNIT))
    e.push(st, lab, fn, [x, p, ctx])


@pre('Encode::encode')
def m_encode(e, st, lab, c):
    encode(e, st, lab, c.args[0], cell(e, st, c.args[1]), c.args[2] if len(c.args) > 2 else UNIT, c.tys[0])


@pre('Encoder::encode', 'Encoder::encode_with')
def m_encode2(e, st, lab, c):
    p = cell(e, st, c.args[0])
    st.fr.append(XF('wrap', 'const', ok(p)))
    encode(e, st, lab, c.args[1], p, UNIT, c.tys[1])


@pre('minicbor::encode', 'minicbor::encode_with')
def m_enc(e, st, lab, c):
    encode(e, st, lab, c.args[0], cell(e, st, c.args[1]), UNIT, c.tys[0])


def encres(e, st, lab, v):
    p = mk('ref', 0, ROOT, ())
    for n, s, l in e.split(st, v, E.RESULT):
        e.deliver(s, lab + l, ok(e.deref(s, p)) if n == 'Ok' else v)


def optres(e, st, lab, v):
    for n, s, l in e.split(st, v, E.RESULT):
        e.deliver(s, lab + l, ok(some(E.models.pay(e, s, v, 'Ok'))) if n == 'Ok' else v)


@pre('minicbor::to_vec')
def m_tovec(e, st, lab, c):
    st.fr[0].env[ROOT] = mk('arr')
    p = mk('ref', 0, ROOT, ())
    st.fr.append(XF('wrap', encres, p))
    encode(e, st, lab, c.args[0], p, UNIT, c.tys[0])


# ---------------------------------------------------------------- reading
def take(e, st, lab, p):
    xs = toks(e, st, p)
    if xs is None:
        raise Abort('codec reads an unknown buffer ' + show(e.deref(st, p))[:400])
    if not xs:
        return None
    store(e, st, lab, p, mk('arr', *xs[1:]))
    return xs[0]


def fits(want, t):
    have = t.a[0].a[0]
    if want == have:
        return True
    for T in (UINT, SINT):
        if want in T and have in T:
            if T[want] >= T[have]:
                return True
            v = t.a[1]
            return v.op == 'int' and 0 <= v.a[0] < 2 ** (T[want] - (T is SINT))
    if want in SINT and have in UINT and t.a[1].op == 'int':
        return t.a[1].a[0] < 2 ** (SINT[want] - 1)
    return want == 'int' and (have in UINT or have in SINT)


@pre(*['Decoder::' + k for k in W])
def m_get(e, st, lab, c):
    k = c.key.split('::')[1]
    t = take(e, st, lab, cell(e, st, c.args[0]))
    if t is None or not fits(k, t):
        return e.deliver(st, lab, err(e, 'found %s, expected %s' % (t.a[0].a[0] if t else 'the end', k)))
    v = t.a[1]
    e.deliver(st, lab, ok(some(v) if k in ('array', 'map') else v))


@pre('Decoder::null', 'Decoder::undefined')
def m_getnull(e, st, lab, c):
    k = c.key.split('::')[1]
    t = take(e, st, lab, cell(e, st, c.args[0]))
    e.deliver(st, lab, ok(UNIT) if t is not None and t.a[0].a[0] == k else err(e, 'no ' + k))


NAMES = {'null': 'Null', 'undefined': 'Undefined', 'str': 'String', 'bytes': 'Bytes', 'array': 'Array', 'map': 'Map', 'bool': 'Bool', 'tag': 'Tag', 'f32': 'F32', 'f64': 'F64', 'simple': 'Simple'}


@pre('Decoder::datatype')
def m_dt(e, st, lab, c):
    xs = toks(e, st, cell(e, st, c.args[0]))
    if xs is None:
        raise Abort('codec reads an unknown buffer ' + show(e.deref(st, p))[:400])
    if not xs:
        return e.deliver(st, lab, err(e, 'the end'))
    k = xs[0].a[0].a[0]
    if k in NAMES:
        ns = [NAMES[k]]
    elif k in UINT:
        v = xs[0].a[1]
        ns = ['U8', 'U16', 'U32', 'U64'][:{'u8': 1, 'u16': 2, 'u32': 3, 'u64': 4}[k]]
        if v.op == 'int':
            ns = [n for n, w in (('U8', 8), ('U16', 16), ('U32', 32), ('U64', 64)) if v.a[0] < 2 ** w][:1]
    elif k in SINT:
        ns = ['U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64', 'Int']
    else:
        raise Abort('datatype of a nested value')
    for n in ns:
        e.deliver(st.copy(), list(lab), ok(mk('adt', DT, n, ())))


def decode(e, st, lab, p, ctx, ty):
    ty = tynorm(ty)
    xs = toks(e, st, p)
    m = re.match(r'(?:std::option::)?Option<(.*)>$', ty)
    if m and xs and not (xs[0].a[0].a[0] == 'val' and xs[0].a[1].a[0] == ty):
        if xs[0].a[0].a[0] == 'null':
            take(e, st, lab, p)
            return e.deliver(st, lab, ok(NONE))
        st.fr.append(XF('wrap', optres))
        return decode(e, st, lab, p, ctx, m.group(1))
    k = PRIM.get(ty)
    if k and xs:
        t = take(e, st, lab, p)
        return e.deliver(st, lab, ok(t.a[1]) if fits(k, t) else err(e, 'found %s, expected %s' % (t.a[0].a[0], k)))
    fn = impl(e, ty, 'decode')
    if fn is None or xs and xs[0].a[0].a[0] == 'val' or e.depth_of(st, fn) >= 1:
        t = take(e, st, lab, p)
        if t is None or t.a[0].a[0] != 'val' or t.a[1].a[0] != ty:
            return e.deliver(st, lab, err(e, 'found %s, expected a value of %s' % (show(t) if t else 'the end', ty)))
        return e.deliver(st, lab, ok(t.a[2]))
    e.push(st, lab, fn, [p, ctx])


def target(c):
    m = re.match(r"std::result::Result<(.*), (minicbor::)?decode::Error>$", c.dty)
    if not m:
        raise Abort('unknown decode target ' + c.dty)
    return m.group(1)


@pre('Decode::decode')
def m_decode(e, st, lab, c):
    decode(e, st, lab, cell(e, st, c.args[0]), c.args[1] if len(c.args) > 1 else UNIT, target(c))


@pre('Decoder::decode', 'Decoder::decode_with')
def m_decode2(e, st, lab, c):
    decode(e, st, lab, cell(e, st, c.args[0]), UNIT, target(c))


@pre('Decoder::new')
def m_newdec(e, st, lab, c):
    e.deliver(st, lab, fresh(e, st, c.args[0]))


def fresh(e, st, a):
    v = plain(e.deep(st, a))
    if v.op == 'slice':
        raise Abort('decodes part of a buffer')
    st.fr[0].env[ROOT] = v
    return mk('ref', 0, ROOT, ())


@pre('minicbor::decode', 'minicbor::decode_with')
def m_dec(e, st, lab, c):
    decode(e, st, lab, fresh(e, st, c.args[0]), UNIT, target(c))


# ---------------------------------------------------------------- raw bytes
BYTES = {'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i64': 8}


def width(c, ty):
    return BYTES.get(ty.replace('&', '').strip())


@pre('num::to_le_bytes', 'num::to_be_bytes')
def m_tobytes(e, st, lab, c):
    n = width(c, c.tys[0])
    if n is None:
        raise Abort('bytes of ' + c.tys[0])
    r = range(n) if 'le' in c.key else range(n)[::-1]
    v = e.deep(st, c.args[0])
    e.deliver(st, lab, mk('arr', *[mk('app', 'byte', intv(n), intv(i), v) for i in r]))


@pre('num::from_le_bytes', 'num::from_be_bytes')
def m_frombytes(e, st, lab, c):
    v = plain(e.deep(st, c.args[0]))
    n = width(c, c.dty)
    if v.op != 'arr' or n is None:
        raise Abort('number from unknown bytes')
    xs = list(v.a)
    if 'be' in c.key:
        xs.reverse()
    if len(xs) == n and all(x.op == 'app' and x.a[0] == 'byte' and x.a[1].a[0] == n and x.a[2].a[0] == i and x.a[3] is xs[0].a[3] for i, x in enumerate(xs)):
        return e.deliver(st, lab, xs[0].a[3])
    e.deliver(st, lab, mk('app', 'frombytes', *xs))


def cut(v, i):
    """v[i] for a range i, when every bound lies among single bytes"""
    h = i.a[0].split('::')[-1] if i.op == 'adt' else ''
    f = dict(zip(i.a[2], i.a[3:])) if h.startswith('Range') else {}
    if h == 'RangeFull':
        return v
    lo, hi = f.get('start', intv(0)), f.get('end')
    if v.op != 'arr' or lo.op != 'int' or hi is not None and hi.op != 'int':
        return None
    n = 0
    while n < len(v.a) and v.a[n].op == 'app' and v.a[n].a[0] == 'byte':
        n += 1
    if n == len(v.a):
        n = 10 ** 6
    if not (h in ('RangeFrom', 'RangeTo', 'Range', 'RangeInclusive', 'RangeToInclusive')) or lo.a[0] > n or hi is not None and hi.a[0] > n:
        return None
    e = len(v.a) if hi is None else hi.a[0] + h.endswith('Inclusive')
    if lo.a[0] > len(v.a) or e > len(v.a):
        return None
    return mk('arr', *v.a[lo.a[0]:e])


def chain(name):
    """codec model that may decline"""
    def d(f):
        for n in (name if isinstance(name, tuple) else (name,)):
            g, m = PRE.get(n), MODELS.get(n)
            pre(n)(lambda e, st, lab, c, f=f, g=g, m=m: None if f(e, st, lab, c) is not False else (g or m)(e, st, lab, c))
        return f
    return d


@chain(('Index::index', 'slice::get'))
def m_cut(e, st, lab, c):
    v = plain(e.deep(st, c.args[0]))
    i = e.deep(st, c.args[1])
    if i.op != 'adt' or v.op != 'arr':
        return False
    w = cut(v, i)
    if w is None:
        raise Abort('part %s of a buffer whose bytes are not known one by one' % show(i))
    e.deliver(st, lab, w if c.key == 'Index::index' else some(w))


@chain(('slice::split_at', 'slice::split_at_checked'))
def m_split(e, st, lab, c):
    v, i = plain(e.deep(st, c.args[0])), e.deep(st, c.args[1])
    R = lambda n, *fs: mk('adt', 'std::ops::' + n, n, fs, *([i] * len(fs)))
    if i.op != 'int' or v.op != 'arr':
        return False
    a, b = cut(v, R('RangeTo', 'end')), cut(v, R('RangeFrom', 'start'))
    if a is None or b is None:
        return False
    t = mk('tup', a, b)
    e.deliver(st, lab, t if c.key == 'slice::split_at' else some(t))


@chain('slice::copy_from_slice')
def m_copy(e, st, lab, c):
    p = resolve(e, st, c.args[0])
    if p.op != 'ref':
        return False
    store(e, st, lab, p, plain(e.deep(st, c.args[1])))
    e.deliver(st, lab, UNIT)


@pre('array::as_slice', 'array::each_ref')
def m_asslice(e, st, lab, c):
    e.deliver(st, lab, c.args[0])


@chain(('TryFrom::try_from', 'TryInto::try_into'))
def m_try(e, st, lab, c):
    v = plain(e.deep(st, c.args[0]))
    m = re.match(r'std::result::Result<(?:&.*)?\[u8; (\d+)\],', c.dty)
    if m and (v.op == 'arr' and len(v.a) == int(m.group(1)) or v.op == 'fld' and str(v.a[1]).startswith('subaccount') and m.group(1) == '32'):
        return e.deliver(st, lab, ok(v))
    m = re.match(r'std::result::Result<([ui]\d+),', c.dty)
    if m and v.op == 'fld':
        return e.deliver(st, lab, mk('res', v, mk('app', 'converr', strv(m.group(1)), v)))
    return False


@chain(('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Cow::into_owned', 'slice::to_vec', 'ToOwned::to_owned', 'Into::into', 'From::from'))
def m_plain(e, st, lab, c):
    v = e.deref(st, c.args[0])
    if v.op != 'adt' or v.a[0].split('::')[-1] != 'Cow' or c.key in ('Into::into', 'From::from') and 'Vec<u8' not in c.dty:
        return False
    e.deliver(st, lab, plain(e.deep(st, v)))


@pre('Nat::parse', 'Int::parse')
def m_parse(e, st, lab, c):
    v = plain(e.deep(st, c.args[0]))
    k = c.key.split('::')[0].lower()
    if v.op == 'fld' and str(v.a[1]).startswith(k + '_') or k == 'int' and v.op == 'fld' and str(v.a[1]).startswith('nat_'):
        return e.deliver(st, lab, ok(v))
    e.deliver(st, lab, mk('res', mk('app', 'parse', v), mk('app', 'converr', v)))


@pre(*['%s::%s_bytes_%s' % (t, d, o) for t in ('BigUint', 'BigInt') for d in ('to', 'from') for o in ('be', 'le')] + ['BigInt::to_signed_bytes_be', 'BigInt::to_signed_bytes_le', 'BigInt::from_signed_bytes_be', 'BigInt::from_signed_bytes_le'])
def m_big(e, st, lab, c):
    v = plain(e.deep(st, c.args[-1]))
    form = re.sub('::(to|from)_', ':', c.key)
    if '::to_' in c.key:
        return e.deliver(st, lab, mk('app', 'bytes', strv(form), v))
    if v.op == 'app' and v.a[0] == 'bytes' and v.a[1].a[0] == form:
        return e.deliver(st, lab, v.a[2])
    e.deliver(st, lab, mk('app', 'frombytes', strv(form), v))


@pre('Decoder::skip')
def m_skip(e, st, lab, c):
    p = cell(e, st, c.args[0])
    t = take(e, st, lab, p)
    if t is None:
        return e.deliver(st, lab, err(e, 'the end'))
    if t.a[0].a[0] in ('array', 'map', 'tag'):
        raise Abort('skips a compound value')
    e.deliver(st, lab, ok(UNIT))
