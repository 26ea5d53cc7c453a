"""C11 cell borrows, C12 atomicity of token operations."""
from rl import *
from rules.log import METHODS

CRATES = ('core_nft', 'index_icrc7')


def c11(R):
    nb = 0
    cells = set()
    for crate in CRATES:
        for e in sorted(prog(crate).exports):
            ex = export(e, crate)
            R.use(ex)
            evs = [l for l in ex.labels() if l[0] == 'e' and l[1] == 'borrow']
            nb += len(evs)
            cells |= {(crate, l[2]) for l in evs}

            def step(s, l):
                if l[0] != 'e':
                    return s
                if l[1] == 'borrow':
                    held = [m for c, m in s if c == l[2]]
                    if held and (l[3] == 'mut' or 'mut' in held):
                        return Viol(('conflict', l[2]), None)
                    return s + ((l[2], l[3]),)
                if l[1] == 'unborrow':
                    for i in range(len(s) - 1, -1, -1):
                        if s[i][0] == l[2]:
                            return s[:i] + s[i + 1:]
                    return s
                if l[1] == 'await' and s:
                    return Viol(('await', s[-1][0]), None)
                return s
            v, n = search(ex.g, (), step)
            R.states += n
            for (k, c), l, tr in v:
                c = c.split('::')[-1]
                if k == 'conflict':
                    R.viol('borrow:%s:%s' % (mname(e), c), '%s borrows %s at %s while a conflicting borrow is active (the call traps)' % (e, c, where(l)), tr)
                else:
                    R.viol('held:%s:%s' % (mname(e), c), '%s suspends at %s while %s is borrowed' % (e, where(l), c), tr)
            R.ob('%s: %d borrow sites' % (e, len(evs)))
    R.floor('borrow sites', nb, 80)
    R.floor('cells', len(cells), 6)


def c12(R):
    n0 = 0
    for name in METHODS:
        e = 'canister_update.' + name
        ex = export(e)
        R.use(ex)
        n0 += 1
        for l in ex.events('await'):
            R.viol('suspend:%s' % name, '%s suspends at %s: other calls can run between its checks and its changes' % (e, where(l)))
        R.ob('%s: %d functions, no suspension point' % (e, len(ex.fns)))
    R.floor('token operations', n0, 9)
