"""Debugging aid: print the summary the dataflow computes for one function.
usage: dev.py crate name [adt=..] [trait=..] [opaque=A,B] [when:K=V ...] [ev=..]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from lib import *

if __name__ == '__main__':
    kw = {'crate': sys.argv[1], 'name': sys.argv[2]}
    when, opaque, evs, params = {}, set(), [], {}
    for a in sys.argv[3:]:
        if a.startswith('when:'):
            k, v = a[5:].rsplit('=', 1)
            when[k] = {'true': True, 'false': False}.get(v, v)
        elif a.startswith('opaque='):
            opaque = set(a[7:].split(','))
        elif a.startswith('ev='):
            evs = a[3:].split(',')
        else:
            k, v = a.split('=', 1)
            kw[k] = False if v == 'False' else v
    p = facts.Program(facts.extract())
    for f in p.find(**kw):
        print('##', f.path, f.span)
        n = f.mir['argc']
        ps = {i: f.mir['locals'][i].get('n') or '_%d' % i for i in range(1, n + 1)}
        print('   ', {ps[i]: f.mir['locals'][i]['ty'][:60] for i in ps})
        a, cells = eng_mod.root_args(f)
        s = Scenario(p, f, ps, when, opaque, cells=True)
        cs = [k[1] for k in cells]
        for x in sorted(s.summary(cs)):
            print('  ->', x)
        for e in evs:
            for x in sorted(s.calls(e)):
                print('  ev', e, x)
        for ev in s.panics():
            print('  !!', callee_name(ev.ref) if ev.ref else '', [s.canon.set(x) for x in ev.args], last(ev.fn))
        print('   unused', s.unused())
