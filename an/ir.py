"""Loads the MIR dump and precomputes per-body facts (predecessors, liveness, address-taken)."""
import json, os, re, hashlib

BUILD = os.environ.get('VERIF_BUILD') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build')


def strip_generics(p):
    """core::slice::<impl [T]>::iter -> core::slice::iter ; Vec::<T>::new -> Vec::new"""
    out = []
    d = 0
    i = 0
    n = len(p)
    # a leading <X as Trait>::m is left to callers (they use the trait path)
    while i < n:
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and not (i > 0 and p[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


def last2(p):
    s = strip_generics(p)
    parts = s.split('::')
    return '::'.join(parts[-2:])


class Body:
    __slots__ = ('raw', 'argc', 'locals', 'names', 'upvars', 'bbs', 'npred', 'live', 'addr', 'fn', 'prom', 'hasswitch', 'backtgt', 'cyc', 'counters', 'copyof', 'incs', 'steps')

    def __init__(self, raw, fn, prom=None):
        self.raw = raw
        self.fn = fn
        self.prom = prom
        self.argc = raw['argc']
        self.locals = raw['locals']
        self.names = {int(k): v for k, v in raw['names'].items()}
        self.upvars = {int(k): v for k, v in raw['upvars'].items()}
        self.bbs = raw['bbs']
        self.npred = None

    def succs(self, t):
        k = t[0]
        if k == 'goto' or k == 'assert':
            return [t[1]]
        if k == 'sw':
            return [b for _, b in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [] if t[4] is None else [t[4]]
        if k == 'yield':
            return [t[1]]
        return []

    def prep(self):
        if self.npred is not None:
            return
        n = len(self.bbs)
        np = [0] * n
        np[0] = 1
        reach = set()
        st = [0]
        order = []
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            order.append(b)
            for s in self.succs(self.bbs[b][1]):
                np[s] += 1
                st.append(s)
        self.npred = np
        addr = set()
        use = {}
        df = {}
        self.hasswitch = False

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ('cp', 'mv'):
                place_use(o[1], u, d)

        def rv_use(r, u, d):
            k = r[0]
            if k in ('use', 'repeat'):
                op_use(r[1], u, d)
            elif k == 'ref':
                place_use(r[2], u, d)
                if not (r[2][1] and r[2][1][0][0] == '*'):
                    addr.add(r[2][0])
            elif k == 'cast':
                op_use(r[2], u, d)
            elif k == 'bin':
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k == 'un':
                op_use(r[2], u, d)
            elif k == 'discr':
                place_use(r[1], u, d)
            elif k in ('arr', 'tup'):
                for o in r[1]:
                    op_use(o, u, d)
            elif k == 'adt':
                for o in r[5]:
                    op_use(o, u, d)
            elif k in ('clo', 'cor'):
                for o in r[3]:
                    op_use(o, u, d)

        for b in reach:
            u, d = set(), set()
            for s in self.bbs[b][0]:
                if s[0] == '=':
                    rv_use(s[2], u, d)
                    if s[1][1]:
                        place_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    place_use(s[1], u, d)
                elif s[0] == 'dead':
                    d.add(s[1])
            t = self.bbs[b][1]
            k = t[0]
            if k == 'sw':
                self.hasswitch = True
                op_use(t[1], u, d)
            elif k == 'call':
                op_use(t[1], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                if t[3][1]:
                    place_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif k == 'drop':
                place_use(t[1], u, d)
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b], df[b] = u, d
        live = {b: set() for b in reach}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in self.succs(self.bbs[b][1]):
                    out |= live[s]
                new = use[b] | (out - df[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live
        self.addr = addr
        # back-edge targets
        self.backtgt = set()
        col = {}
        stk = [(0, iter(self.succs(self.bbs[0][1])))]
        col[0] = 1
        while stk:
            b, it = stk[-1]
            for s in it:
                if col.get(s, 0) == 0:
                    col[s] = 1
                    stk.append((s, iter(self.succs(self.bbs[s][1]))))
                    break
                elif col[s] == 1:
                    self.backtgt.add(s)
            else:
                col[b] = 2
                stk.pop()
        self.loops(order)

    def loops(self, order):
        """the cycles of the control flow and the locals that count in them: i += 1"""
        self.cyc, self.counters, self.copyof, self.incs, self.steps = {}, {}, {}, {}, {}
        if not self.backtgt:
            return
        num, low, stk, on, n = {}, {}, [], set(), 0
        work = [(order[0], iter(self.succs(self.bbs[order[0]][1])))]
        num[order[0]] = low[order[0]] = 0
        stk.append(order[0])
        on.add(order[0])
        while work:
            b, it = work[-1]
            for s in it:
                if s not in num:
                    n += 1
                    num[s] = low[s] = n
                    stk.append(s)
                    on.add(s)
                    work.append((s, iter(self.succs(self.bbs[s][1]))))
                    break
                elif s in on:
                    low[b] = min(low[b], num[s])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == num[b]:
                    c = []
                    while True:
                        x = stk.pop()
                        on.discard(x)
                        c.append(x)
                        if x == b:
                            break
                    if len(c) > 1 or b in self.succs(self.bbs[b][1]):
                        for x in c:
                            self.cyc[x] = b
        cop, adds, many = {}, {}, set()
        for b in order:
            for s in self.bbs[b][0]:
                if s[0] != '=' or s[1][1]:
                    continue
                l, r = s[1][0], s[2]
                if l in cop:
                    many.add(l)
                cop[l] = r[1][1][0] if r[0] == 'use' and r[1][0] in ('cp', 'mv') and not r[1][1][1] else None
                if r[0] == 'bin' and r[1] in ('AddWithOverflow', 'Add', 'AddUnchecked') and r[2][0] in ('cp', 'mv') and not r[2][1][1] and r[3][0] == 'k' and r[3][1].get('int') == 1:
                    adds[l] = r[2][1][0]
            t = self.bbs[b][1]
            if t[0] == 'call' and not t[3][1]:
                if t[3][0] in cop:
                    many.add(t[3][0])
                cop[t[3][0]] = None
        self.copyof = {l: x for l, x in cop.items() if x is not None and l not in many}
        self.bignums(order, adds, many)
        for b in order:
            for s in self.bbs[b][0]:
                if s[0] == '=' and not s[1][1] and b in self.cyc:
                    l, r = s[1][0], s[2]
                    k = l if l in adds else (r[1][1][0] if r[0] == 'use' and r[1][0] in ('cp', 'mv') and (not r[1][1][1] or r[1][1][1][0][0] == 'f') else None)
                    if k in adds and self.origin(adds[k]) == l:
                        self.counters.setdefault(l, set()).add(self.cyc[b])
                        self.incs.setdefault(l, []).append(b)
                    else:
                        self.incs.setdefault(l, []).append(None)
            t = self.bbs[b][1]
            if t[0] == 'call' and b in self.cyc and not t[3][1]:
                self.incs.setdefault(t[3][0], []).append(None)

    def bignums(self, order, adds, many):
        """sums computed by calls: n = n + 1 and n += 1 on big numbers"""
        defs, refs = {}, {}
        for b in order:
            t = self.bbs[b][1]
            if t[0] == 'call' and not t[3][1]:
                defs.setdefault(t[3][0], []).append(t)
            for s in self.bbs[b][0]:
                if s[0] == '=' and not s[1][1] and s[2][0] == 'ref':
                    refs.setdefault(s[1][0], []).append(s[2])

        def name(t):
            return t[1][1].get('fnd', {}).get('fn', '') if t[1][0] == 'k' else ''

        def local(o):
            return self.origin(o[1][0]) if o[0] in ('cp', 'mv') and not o[1][1] else None

        def pointee(o):
            r = refs.get(local(o), ())
            return next((x[0] for y in r for x in y if isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], int) and not x[1]), None) if len(r) == 1 else None

        def one(o):
            if o[0] == 'k':
                return o[1].get('int') == 1
            d = defs.get(local(o), ())
            return len(d) == 1 and name(d[0]).endswith(('From::from', 'Into::into')) and len(d[0][2]) == 1 and d[0][2][0][0] == 'k' and d[0][2][0][1].get('int') == 1
        for b in order:
            t = self.bbs[b][1]
            if t[0] != 'call' or b not in self.cyc or len(t[2]) != 2 or not one(t[2][1]):
                continue
            if name(t).endswith('Add::add') and not t[3][1]:
                a = local(t[2][0])
                d = defs.get(a, ())
                if a not in many and len(d) == 1 and name(d[0]).endswith('Clone::clone'):
                    a = pointee(d[0][2][0])
                if a is not None:
                    adds[t[3][0]] = a
            elif name(t).endswith('AddAssign::add_assign'):
                a = pointee(t[2][0])
                if a is not None:
                    self.counters.setdefault(a, set()).add(self.cyc[b])
                    self.incs.setdefault(a, []).append(b)

    def instep(self, l, b):
        """local l is incremented exactly once each time round the loop through block b, and not changed otherwise"""
        if (l, b) not in self.steps:
            at = [x for x in self.incs.get(l, ()) if x is None or self.cyc.get(x) == self.cyc.get(b)]
            ok = len(at) == 1 and at[0] is not None
            if ok:
                seen, work = set(), [s for s in self.succs(self.bbs[b][1])]
                while work:
                    x = work.pop()
                    if x in seen or x == at[0] or self.cyc.get(x) != self.cyc.get(b):
                        continue
                    seen.add(x)
                    work += self.succs(self.bbs[x][1])
                ok = b not in seen
            self.steps[l, b] = ok
        return self.steps[l, b]

    def origin(self, l):
        seen = set()
        while l in self.copyof and l not in seen:
            seen.add(l)
            l = self.copyof[l]
        return l


class Fn:
    __slots__ = ('raw', 'id', 'path', 'body', 'proms', 'crate', 'file', 'line', 'short')

    def __init__(self, raw, crate):
        self.raw = raw
        self.id = raw['id']
        self.path = raw['path']
        self.crate = crate
        self.file = raw['file']
        self.line = raw['line']
        self.body = Body(raw, self)
        self.proms = [Body(p, self, i) for i, p in enumerate(raw.get('proms', []))]
        self.short = self.path.split('::', 1)[1] if '::' in self.path else self.path


class Program:
    def __init__(self, crate, dump=None):
        p = os.path.join(dump or os.path.join(BUILD, 'dump'), crate + '.json')
        with open(p) as f:
            txt = f.read()
        self.sha = hashlib.sha256(txt.encode()).hexdigest()
        d = json.loads(txt)
        self.crate = crate
        self.fns = {}
        self.bypath = {}
        for r in d['fns']:
            f = Fn(r, crate)
            self.fns[f.id] = f
            self.bypath.setdefault(f.path, f)
        self.adts = d['adts']
        self.drops = {}
        for f in self.fns.values():
            if f.raw.get('impl_trait') == 'std::ops::Drop':
                st = strip_generics(f.raw['self_ty'])
                self.drops[self.adtkey(st)] = f
        self.exports = {}
        for f in self.fns.values():
            e = f.raw.get('export')
            if e and e.startswith('canister_'):
                self.exports[e] = f

    def adtkey(self, ty):
        s = strip_generics(ty).lstrip('&').replace('mut ', '').strip()
        if s in self.adts:
            return s
        k = self.crate + '::' + s
        if k in self.adts:
            return k
        return s

    def adt(self, ty):
        return self.adts.get(self.adtkey(ty))

    def variants(self, ty):
        a = self.adt(ty)
        if not a:
            return None
        return [(v[0], int(v[1]), v[2]) for v in a['vars']]
