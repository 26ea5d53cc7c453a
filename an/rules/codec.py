"""C22 stored values are read back."""
from rl import *
import query
from engine import Abort, OPTION
import re

ACC = 'icrc_ledger_types::icrc1::account::Account'
I3 = 'icrc_ledger_types::icrc::generic_value::ICRC3Value'
NUM = {'u8', 'u16', 'u32', 'u64', 'u128', 'i64', 'usize', 'bool'}
WRAP = ('candid::Nat', 'candid::Int', 'serde_bytes::ByteBuf')


class Gen:
    def __init__(self, p):
        self.p, self.n = p, 0

    def sym(self, what):
        self.n += 1
        return mk('fld', mk('arg', 8), '%s_%d' % (what.split('::')[-1].split('<')[0].lower(), self.n))

    def args(self, ty):
        s = ty[ty.index('<') + 1:-1]
        out, d, cur = [], 0, ''
        for ch in s:
            d += ch in '<(['
            d -= ch in '>)]'
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        return out + [cur.strip()]

    def lists(self, f):
        return [[], [f()], [f(), f()], [f() for _ in range(300)]]

    def gen(self, ty, depth=0):
        """values of every shape of the type; symbols for what is not looked into"""
        h = ty.split('<')[0].split('::')[-1]
        if h == 'Option':
            return [NONE] + [some(x) for x in self.gen(self.args(ty)[0], depth + 1)]
        if h == 'Account':
            return [mk('adt', ACC, 'Account', ('owner', 'subaccount'), self.sym('owner'), s) for s in (NONE, some(self.sym('subaccount')))]
        if h in ('Vec', 'VecDeque'):
            return [mk('arr', *l) for l in self.lists(lambda: self.sym(self.args(ty)[0]))]
        if h in ('HashMap', 'BTreeMap'):
            k, v = self.args(ty)[:2]
            ks = self.gen(k, depth + 1)
            return [mapv(mk('empty'), [mk('tup', ks[i % len(ks)] if not i else self.gen(k, depth + 1)[i % len(ks)], self.leaf(v)) for i in range(n)]) for n in (0, 1, 2, 300)]
        if h in ('Nat', 'Int', 'Principal', 'String'):
            return [self.leaf(ty)]
        if h in ('ICRC3Value', 'Value') and 'generic_value' in ty or ty.endswith('ICRC3Value'):
            one = lambda v, x: mk('adt', I3, v, ('0',), x)
            out = [one(v, self.sym(v)) for v in ('Blob', 'Text', 'Nat', 'Int')]
            out += [one('Array', mk('arr', *l)) for l in self.lists(lambda: self.sym('item'))]
            out += [one('Map', mapv(mk('empty'), [mk('tup', self.sym('key'), self.sym('item')) for _ in range(n)])) for n in (0, 1, 2, 300)]
            return out
        a = self.adt(ty)
        if a and depth < 3:
            name, d = a
            out = []
            for v in d['vars']:
                fs = [(f[0], f[1]) for f in v[2]]
                rows = [[]]
                for _, t in fs:
                    rows = [r + [x] for r in rows for x in self.gen(t, depth + 1)]
                for r in rows:
                    out.append(mk('adt', name, v[0], tuple(n for n, _ in fs), *r))
            return out
        return [self.leaf(ty)]

    def leaf(self, ty):
        return self.sym(ty)

    def adt(self, ty):
        t = strip(ty)
        for n, d in self.p.adts.items():
            if n == t or n == self.p.crate + '::' + t or n.endswith('::' + t) and n.startswith(self.p.crate):
                return n, d
        return None


def strip(t):
    return re.sub(r'<.*>', '', t)


def canon(v):
    """the value without transparent wrappers"""
    if v.op == 'adt' and any(v.a[0].endswith(w.split('::')[-1]) and 'Wrapped' not in v.a[0] for w in WRAP) and len(v.a) == 4:
        return canon(v.a[3])
    if v.op == 'fld' and v.a[1] == '0' and v.a[0].op == 'fld':
        return canon(v.a[0])
    if v is EMPTYBAG:
        return mk('arr')
    if v.op == 'app' and v.a[0] == 'narrow' and v.a[1].a[0] == 'none':
        return canon(v.a[2])
    if v.op == 'ret' and v.a[0] == 'Principal::from_slice':
        return canon(v.a[2])
    if v.op == 'adt' and v.a[0].endswith('Cow') and len(v.a) == 4:
        return canon(v.a[3])
    if v.op == 'map' and v.a[0] is EMPTYMAP and not v.a[2].a:
        es = sorted((canon(x) for x in v.a[1].a), key=show)
        return mk('app', 'entries', *es)
    if not any(isinstance(x, V) for x in v.a):
        return v
    return mk(v.op, *[canon(x) if isinstance(x, V) else x for x in v.a])


def ends(ex):
    """(value returned, trace) of every complete path and the panics"""
    out, pan = [], []
    for l in ex.labels():
        if l[0] == 'e' and l[1] == 'return':
            out.append(l)
        if l[0] == 'e' and l[1] == 'panic':
            pan.append(l)
    return out, pan


def pairs(p):
    """storable types of the crate -> (to_bytes, from_bytes)"""
    out = {}
    for f in p.fns.values():
        m = re.search(r'<(.*) as ic_stable_structures::Storable>::(to_bytes|from_bytes|into_bytes)$', f.path)
        if m:
            out.setdefault(f.raw['self_ty'], {})[m.group(2)] = f
    return out


def c22(R):
    n0 = 0
    for crate in ('core_nft', 'index_icrc7'):
        p = query.prog(crate)
        g = Gen(p)
        ts = pairs(p)
        R.add('storable types', len(ts))
        for ty, fs in sorted(ts.items()):
            if 'to_bytes' not in fs or 'from_bytes' not in fs:
                R.viol('anchor:' + ty, '%s has no to_bytes / from_bytes' % ty)
                continue
            for v in g.gen(ty):
                n0 += 1
                w = run(R, crate, fs['to_bytes'], v, ty, 'written')
                for l in w:
                    r = run(R, crate, fs['from_bytes'], l, ty, 'read')
                    for x in r:
                        R.add('round trips')
                        if canon(x) is not canon(v):
                            R.viol('value:%s:%s' % (crate, ty), '%s written as %s is read back as %s' % (clip(show(v), 300), clip(show(l), 300), clip(show(x), 300)))
    R.floor('shapes', n0, 30)


def run(R, crate, fn, arg, ty, what):
    try:
        ex = query.Ex(crate, fn.path, fn, args=[arg], limit=400, exact=True, codec=True)
    except Abort as e:
        R.viol('unknown:%s:%s:%s' % (crate, ty, what), '%s cannot be %s: %s' % (ty, what, e))
        return []
    R.use(ex)
    rets, pans = ends(ex)
    for l in pans:
        ws = [x.a[1].a[0] for v in l[3] if isinstance(v, V) for x in subs(v) if x.op == 'app' and x.a[0] == 'converr' and len(x.a) == 3]
        R.viol('trap:%s:%s:%s%s' % (crate, ty, what, ':' + ws[0] if ws else ''), '%s cannot be %s: %s %s at %s' % (clip(show(arg), 300), what, l[2], clip(' '.join(show(x) for x in l[3] if isinstance(x, V)), 200), where(l)))
    vs = list(dict.fromkeys(l[2] for l in rets if isinstance(l[2], V)))
    if not vs:
        R.viol('none:%s:%s:%s' % (crate, ty, what), '%s is never %s' % (ty, what))
    return vs
