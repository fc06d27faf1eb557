#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of the
treeldr working tree in /repo from its source (type-checked MIR)."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import facts
from contract import Ctx, Report, Anchor, Budget
import props


def known(pid):
    """Recorded genuine defects: key -> what fails."""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            l = l.rstrip('\n')
            if not l.startswith('known: '):
                continue
            head, key, what = l[len('known: '):].split(' | ', 2)
            if head == 'property=' + pid:
                out[key] = what
    return out


def run(ctx, pid):
    rep = Report(pid)
    for fn in props.RULES[pid]:
        try:
            fn(ctx, rep)
        except Anchor as e:
            rep.fail('anchor: %s' % e, 'a construct the rule is anchored on was not found: %s' % e)
        except Budget as e:
            rep.fail('budget: %s' % getattr(fn, '__name__', fn), 'the analysis of %s did not converge within its budget' % e)
        except Exception as e:
            rep.fail('analysis: %s %s' % (getattr(fn, '__name__', fn), type(e).__name__),
                     'the analysis could not interpret the current source: ' + traceback.format_exc()[-800:])
    return rep


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    if tier == 'thorough':
        facts.drop_cache()
    crates = facts.extract()
    ctx = Ctx(facts.Program(crates))
    rep = run(ctx, pid)
    kn = known(pid)
    new = [v for v in rep.viol if v[0] not in kn]
    old = [v for v in rep.viol if v[0] in kn]
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '.violations.txt')
    if os.path.exists(replay):
        os.unlink(replay)
    for k, m, w in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[k], w))
    if new:
        with open(replay, 'w') as f:
            f.write('property %s, working tree %s\n\n' % (pid, facts.REPO))
            for k, m, w in new:
                f.write('key: %s\nat: %s\n%s\n\n' % (k, w, m))
        for k, m, w in new[:12]:
            print('%s: %s' % (w or '-', m[:700]))
    names = sorted(rep.fns)
    lk = sorted(rep.log)
    samples = [{'case': k, 'derived': [x[:300] for x in rep.log[k][:4]]} for k in (lk[:: max(1, len(lk) // 6)])[:8]]
    cov = {
        'explanation': 'Abstract interpretation (path-partitioned forward dataflow over provenance terms, no execution, no solver) of the '
                       'type-checked MIR of the current working tree; each obligation compares what the dataflow derives for one case of '
                       'one function with the rule. Rules: ' + '; '.join('%s: %s' % (r['rule'], r['text']) for r in rep.rules),
        'obligations': rep.obligations,
        'functions_analysed': len(names),
        'functions': names[:80],
        'counts': rep.counts,
        'samples': samples,
        'crates_type_checked': sorted(crates),
        'known_findings_matched': len(old),
    }
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
                   'assumptions': props.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}, f, indent=1)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if rep.obligations == 0:
        print('no obligation was generated for %s' % pid)
        return 2
    print('%s: %d obligations hold over %d functions (%.1f s)' % (pid, rep.obligations, len(names), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
