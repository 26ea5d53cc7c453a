"""Runner: python3 check.py <id> [--tier quick|thorough]"""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'rules'))


def known():
    out = {}
    fixed = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                # finding: property=<id> key=<key> :: text
                h, _, text = ln[len('finding:'):].partition('::')
                d = dict(x.split('=', 1) for x in h.strip().split(' ', 1)) if False else {}
                h = h.strip()
                pid = h.split(' ', 1)[0].split('=', 1)[1]
                key = h.split(' ', 1)[1].strip().split('=', 1)[1]
                out[(pid, key)] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)
    from rules import table
    title, fn, rule, assume = table.RULES[pid]
    import rl
    R = rl.Report(pid, tier)
    cmd = ['bash', os.path.join(ROOT, 'extract.sh'), os.environ.get('VERIF_REPO', '/repo')]
    if os.environ.get('VERIF_JUST_EXTRACTED'):      # tools/all.sh has just run it
        cmd = ['true']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print('%s: no answer: the program could not be extracted from /repo\n%s' % (pid, r.stdout[-3000:]))
        return 2
    try:
        fn(R)
    except rl.Anchor as ex:      # a construct the rule is about is gone: fail closed
        R.viol('anchor:' + str(ex)[:80], str(ex))
    except Exception as ex:      # an analysis that cannot finish proves nothing
        print('%s: no answer: the analysis did not finish: %s\n%s' % (pid, ex, traceback.format_exc()[-3000:]))
        return 2
    kf = known()
    new, old = [], []
    for k, m, tr in R.viols:
        (old if (pid, k) in kf else new).append((k, m, tr))
    for k, m, tr in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[(pid, k)]))
    trp = os.path.join(BUILD, 'traces', pid + '.txt')
    if new:
        with open(trp, 'w') as f:
            for k, m, tr in new:
                f.write('VIOLATION %s\nkey: %s\n%s\n' % (pid, k, m))
                if tr:
                    f.write('path:\n')
                    for l in tr[-120:]:
                        if l[0] == 'p' or l[1] in ('gw', 'await', 'call', 'iter_next', 'iter_end', 'panic', 'borrow', 'unborrow'):
                            f.write('   ' + rl.fmt_label(l) + '\n')
                f.write('\n')
    counts = dict(R.counts)
    counts.pop('explored roots', None)
    counts['functions analysed'] = len(R.fns)
    counts['product states explored'] = R.states
    counts['rule violations'] = len(new)
    counts['known findings'] = len(old)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': rule + ' Analysed from the MIR of the current /repo tree; nothing was executed.',
            'counts': counts,
            'obligation_list': R.obs[:200],
            'functions': sorted(R.fns)[:400],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': assume,
        'violations': len(new),
    }
    if new:
        ev['coverage']['violation_list'] = [{'key': k, 'message': m[:1500]} for k, m, _ in new]
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %s' % (pid, title, ', '.join('%s %s' % (v, k) for k, v in counts.items())))
    if new:
        for k, m, _ in new:
            print('  - %s' % m.split('\n')[0])
        print('VIOLATION property=%s replay=%s' % (pid, trp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
