"""Contracts: what a function returns and which calls it makes, per assumed
case, compared with the provenance dataflow's result on the current source."""
import itertools
import re
from lib import *


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def fn(self, **k):
        l = [f for f in self.prog.find(**k) if not f.derived]
        if len(l) != 1:
            raise Anchor('expected exactly one function %s, found %d' % (
                ', '.join('%s=%s' % (a, b) for a, b in sorted(k.items(), key=str)), len(l)))
        return l[0]

    def fns(self, floor=1, **k):
        l = [f for f in self.prog.find(**k) if not f.derived]
        if len(l) < floor:
            raise Anchor('expected at least %d functions %s, found %d' % (floor, k, len(l)))
        return l


def names(f, given=None):
    """Parameter names by position (given) or as written."""
    n = f.mir['argc']
    ps = {i: f.mir['locals'][i].get('n') or '_%d' % i for i in range(1, n + 1)}
    if given:
        if len(given) != n:
            raise Anchor('%s takes %d parameters, expected %d' % (f.path, n, len(given)))
        ps = dict(zip(range(1, n + 1), given))
    return ps


def unstring(s):
    """Making a text of a text changes nothing, and types tell a text from the rest."""
    if not isinstance(s, str):
        return tuple(unstring(x) for x in s)
    if 'string(' not in s:
        return s
    out, depth, drop, i = [], 0, [], 0
    while i < len(s):
        if s.startswith('string(', i) and not (i and (s[i - 1].isalnum() or s[i - 1] in '_:')):
            depth += 1
            drop.append(depth)
            i += 7
            continue
        ch = s[i]
        i += 1
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
            if drop and drop[-1] == depth + 1:
                drop.pop()
                continue
        out.append(ch)
    return ''.join(out)


OPEN = {'[': ']', '{': '}', '(': ')'}


def groups(s, i=0, close=''):
    """A text up to the closing character, as alternatives (separated by bars)
    of items (separated by commas), each with its text and inner groups."""
    alts = [[['', []]]]
    while i < len(s):
        c = s[i]
        i += 1
        if c in OPEN:
            j = i
            g, i = groups(s, i, OPEN[c])
            alts[-1][-1][1].append((c, g))
            alts[-1][-1][0] += c + s[j:i]
        elif c == close:
            break
        elif c == ',':
            alts[-1].append(['', []])
        elif c == '|':
            alts.append([['', []]])
        else:
            alts[-1][-1][0] += c
    return alts, i


def items(s, sure=True):
    """The items of all lists of a text: those of every alternative, or of any."""
    def go(alts, kind):
        res = []
        for a in alts:
            got = set()
            for txt, gs in a:
                got.add(txt.strip())
                for k, g in gs:
                    got |= go(g, k)
            res.append(got)
        return set.intersection(*res) if kind == '{' and sure else set.union(*res)
    return go(groups(s)[0], '')


def choices(x):
    """Where a rendered value is one of several ({a|b}): the pieces around, and
    the alternatives."""
    out, last, i = [], 0, 0
    while i < len(x):
        if x[i] == '"':
            i += 1
            while i < len(x) and (x[i] != '"' or x[i - 1] == '\\'):
                i += 1
        elif x[i] == '{' and (i == 0 or not (x[i - 1].isalnum() or x[i - 1] in '_>')):
            d, j, at, q = 0, i, [i], False
            while j < len(x):
                ch = x[j]
                if ch == '"' and x[j - 1] != '\\':
                    q = not q
                elif q:
                    pass
                elif ch in '([{':
                    d += 1
                elif ch in ')]}':
                    d -= 1
                    if d == 0:
                        break
                elif ch == '|' and d == 1:
                    at.append(j)
                j += 1
            if len(at) > 1 and d == 0:
                at.append(j)
                out.append((x[last:i], [x[a + 1:b] for a, b in zip(at, at[1:])]))
                last, i = j + 1, j
        i += 1
    return out, x[last:]


def merged(got, want):
    """A result in which alternatives are merged ({a|b}) stands for the results
    it merges, when every alternative belongs to one of them."""
    out = set()
    for x in got:
        hs = choices(x)[0] if x not in want else ()
        n = 1
        for _, a in hs:
            n *= len(a)
        if not hs or n > 256:
            out.add(x)
            continue
        tail = choices(x)[1]
        found, seen = set(), [set() for _ in hs]
        for c in itertools.product(*[range(len(a)) for _, a in hs]):
            y = ''.join(p + a[k] for (p, a), k in zip(hs, c)) + tail
            if y in want:
                found.add(y)
                for z, k in zip(seen, c):
                    z.add(k)
        out |= found if all(len(z) == len(a) for z, (_, a) in zip(seen, hs)) else {x}
    return out


class Contract:
    """`cases`: list of (name, when, spec); spec keys: 'out' (exact set of
    outcomes), 'sub' (outcomes allowed), 'ev' {callee: exact set of argument
    lists}, 'noev' (callees that must not be reached), 'cells'."""

    def __init__(self, key, root, params=None, opaque=(), opaque_fn=None, bases=(), base=None, fn=None, rec=None, fmt=None,
                 cells=(), ev=(), abbrev=(), budget=600000, watch=(), args=None):
        self.key = key
        self.root = root
        self.params = names(root, params)
        self.opaque = opaque
        self.opaque_fn = opaque_fn
        self.bases = list(bases)
        self.base = base or {}
        self.fn = fn
        self.rec = rec
        self.fmt = fmt
        self.cells = cells
        self.ev = ev
        self.abbrev = list(abbrev)
        self.budget = budget
        self.watch = watch
        self.args = args
        self.memo = {}

    def run(self, ctx, when, fn=None, lift=None, target=None):
        k = (tuple(sorted(when.items(), key=str)), id(fn) if fn else None, id(lift) if lift else None, target)
        if k not in self.memo:
            w = dict(self.base)
            w.update(when)
            f0 = self.fn

            def f(s, t, st):
                if fn is not None:
                    r = fn(s, t, st)
                    if r is not None:
                        return r
                return f0(s, t, st) if f0 else None
            f.pl = getattr(fn, 'pl', False)
            self.memo[k] = (Scenario(ctx.prog, self.root, self.params, w, self.opaque, self.opaque_fn, self.bases,
                                     fn=f if (fn or f0) else None, rec=self.rec, fmt=self.fmt, cells=bool(self.cells), budget=self.budget,
                                     watch=set(self.watch) | set(self.ev), args=self.args, lift=lift, target=target), fn, lift)
        return self.memo[k][0]

    def short(self, s):
        for a, b in self.abbrev:
            s = s.replace(a, b) if isinstance(a, str) else a.sub(b, s)
        if 'fresh' in s:
            n = {}
            s = re.sub(r'fresh(\d+)', lambda m: 'fresh%d' % n.setdefault(m.group(1), len(n) + 1), s)
        return unstring(s)

    SPLIT = [('Some', 'None', 'Some(%s!)', 'None'), ('Ok', 'Err', 'Ok(%s?)', 'Err(%s:Err)')]

    @staticmethod
    def _head(x):
        h, sep, t = x.partition(' ; ')
        return h, sep + t

    def decided(self, when, xs):
        """A result whose variant the case decides, in terms of its content."""
        out = set()
        for x in xs:
            h, t = self._head(x)
            v = when.get(h)
            for a, b, fa, fb in self.SPLIT:
                if v == a:
                    h = fa % h
                elif v == b:
                    h = fb % h if '%' in fb else fb
            out.add(h + t)
        return out

    def eta(self, ctx, when, fn, got, want):
        """`match x { Some(y) => Some(y), None => None }` is `x`: compares the two forms of such results."""
        for side in (0, 1):
            mine, other = (got, want) if side == 0 else (want, got)
            for x in sorted(mine - other):
                h, t = self._head(x)
                for a, b, fa, fb in self.SPLIT:
                    pa, pb = fa % h + t, (fb % h if '%' in fb else fb) + t
                    if pa in other and pb in other:
                        if side == 1:
                            # the split form must also split on x
                            ga, gb = ({self.short(y) for y in self.run(ctx, dict(when, **{h: v}), fn).summary(self.cells)} for v in (a, b))
                            if pb in ga or pa in gb:
                                continue
                        mine = mine - {x} | {pa, pb}
                        break
            got, want = (mine, other) if side == 0 else (other, mine)
        return got, want

    def units(self, ctx, when, fn, got, want):
        """`x?; Ok(())` is `x` when x returns nothing, provided no success avoids x."""
        for x in sorted(want - got):
            h, t = self._head(x)
            m = re.match(r'^Ok\((.*)\?\)$', h)
            if m and 'Ok(())' + t in got:
                g = {self.short(y) for y in self.run(ctx, dict(when, **{m.group(1): 'Err'}), fn).summary(self.cells)}
                if 'Ok(())' + t not in g:
                    got = got - {'Ok(())' + t} | {x}
        return got, want

    def each(self, ctx, rep, case, when, spec, fn=None):
        """What a turn of a loop adds to a collection on one path it adds on
        every path, given the assumptions of the case."""
        starred = set()
        forms = [o for o in map(unstring, spec.get('out', ())) for o in ([o] if isinstance(o, str) else o) if not o.startswith('Err(')]
        for o in forms:
            starred |= {x[:-1] for x in items(o) if x.endswith('*')}
        given = {n: {x[:-1] for o in map(unstring, want) for x in items(o) if x.endswith('*')} for n, want in spec.get('ev', {}).items()}
        if not forms and not any(given.values()):
            return
        for t in sorted(self.run(ctx, when, fn, EVERY).eng.chains, key=repr):
            s = self.run(ctx, when, fn, EVERY, t)
            for n, xs in given.items():
                if not xs:
                    continue
                calls = {self.short(y): ev for m in ([n] if isinstance(n, str) else n) for y, ev in s.calls(m).items()}
                for x in sorted(xs):
                    # calls that only differ by whether the turn adds the item
                    w = {y for y in calls if x in items(y)}
                    base = {y.replace('%s*, %s, %s*' % (x, x, x), x + '*') for y in w}
                    rep.obligations += len(w)
                    for y in sorted(set(calls) - w):
                        if y in base:
                            rep.fail('%s/%s: not in every turn: %s' % (self.key, case, x), 'under the case "%s", a turn of a loop before the call of %s in '
                                     '%s may or may not add %s' % (case, n, self.root.path, x), calls[y].span)
            if not forms:
                continue
            res = [x for x in map(self.short, s.summary(self.cells)) if not x.startswith('Err(')]
            if not res:
                continue
            sure = set.intersection(*[items(x) for x in res])
            some = set.union(*[items(x, False) for x in res])
            rep.count('loop turns')
            # all items of a collection, when the collection itself is expected
            whole = {x for x in some if x.endswith('[]') and x + '*' in some and any(x[:-2] in o for o in forms)}
            for x in sorted(starred & some | whole):
                rep.obligations += 1
                if x not in sure:
                    rep.fail('%s/%s: not in every turn: %s' % (self.key, case, x), 'under the case "%s", a turn of a loop in %s may or may not add %s' % (
                        case, self.root.path, x), self.root.span)

    def some(self, ctx, rep, case, when, spec, lift, fn=None):
        """Like `check`, but the assumptions `lift` recognises hold in some turn
        of a loop, whatever the turns before and after it do."""
        chains = self.run(ctx, when, fn, lift).eng.chains
        rep.count('loops', len(chains))
        best = None
        for t in sorted(chains, key=repr):
            r = Report(rep.pid)
            self.check(ctx, r, case + ', in some turn', when, spec, fn, lift, t)
            rep.fns |= r.fns
            rep.obligations += r.obligations
            if best is None or len(r.viol) < len(best.viol):
                best = r
        if best is not None:
            rep.viol += best.viol
            rep.count('scenarios', len(chains))

    def check(self, ctx, rep, case, when, spec, fn=None, lift=None, target=None):
        s = self.run(ctx, when, fn, lift, target)
        rep.fns |= s.eng.analysed
        rep.count('scenarios')
        rep.count('abstract_steps', s.eng.steps)
        where = self.root.span
        got = {self.short(x) for x in s.summary(self.cells)}
        kb = '%s/%s' % (self.key, case)
        rep.seen(kb, got)
        if 'out' in spec:
            # a tuple lists forms of the same result
            want = {x if isinstance(x, str) else next((y for y in x if y in got), x[0]) for x in map(unstring, spec['out'])}
            for alt in spec.get('or', ()):
                if got == set(map(unstring, alt)):
                    want = got
            # zero turns of a loop are among its turns: such results come and go with the shape of the code
            zero = lambda xs: {y for x in xs for y in (unstarred(x) if '*' in x else ()) if y != x}
            rep.obligations += len(want | got)
            if got != want:
                got, want = self.decided(when, got), self.decided(when, want)
            if got != want:
                got, want = self.eta(ctx, when, fn, got, want)
            if got != want:
                got, want = self.units(ctx, when, fn, got, want)
            if got != want:
                got = merged(got, want)
            if got != want:
                got, want = got - (zero(want) - want), want - (zero(got) - got)
            for x in sorted(got - want):
                rep.fail('%s: unexpected result %s' % (kb, x), 'under the case "%s", %s can produce %s' % (case, self.root.path, x), where)
            for x in sorted(want - got):
                rep.fail('%s: missing result %s' % (kb, x), 'under the case "%s", %s no longer produces %s' % (case, self.root.path, x), where)
        if 'ok' in spec:
            # the successful results only; a tuple lists forms of the same result
            got_ok = {x for x in got if not x.startswith('Err(')}
            want = set()
            for x in map(unstring, spec['ok']):
                want |= {x} if isinstance(x, str) else {y for y in x if y in got_ok} or {x[0]}
            got_ok = merged(got_ok, want)
            rep.obligations += len(want | got_ok)
            for x in sorted(got_ok - want):
                rep.fail('%s: unexpected result %s' % (kb, x), 'under the case "%s", %s can produce %s' % (case, self.root.path, x), where)
            for x in sorted(want - got_ok):
                rep.fail('%s: missing result %s' % (kb, x), 'under the case "%s", %s no longer produces %s' % (case, self.root.path, x), where)
        if 'errs' in spec:
            want = set(map(unstring, spec['errs']))
            got_e = {x for x in got if x.startswith('Err(')}
            rep.obligations += len(want | got_e)
            for x in sorted(got_e ^ want):
                rep.fail('%s: %s result %s' % (kb, 'unexpected' if x in got_e else 'missing', x), 'under the case "%s", the errors of %s are not '
                         'as specified: %s' % (case, self.root.path, x), where)
        if 'sub' in spec:
            want = set(map(unstring, spec['sub']))
            for x in sorted(got - want):
                rep.fail('%s: unexpected result %s' % (kb, x), 'under the case "%s", %s can produce %s' % (case, self.root.path, x), where)
            rep.obligations += max(1, len(got))
        if 'nev' in spec:
            pref = spec['nev']
            bad = [x for x in sorted(got) if any(x.startswith(p) for p in pref)]
            rep.obligations += 1
            for x in bad:
                rep.fail('%s: forbidden result %s' % (kb, x), 'under the case "%s", %s can produce %s' % (case, self.root.path, x), where)
        if 'steps' in spec:
            i, want = spec['steps']
            want = set(map(unstring, want))
            got_s = {self.short(x) for x in s.steps(i)}
            rep.seen(kb + '/steps', got_s)
            rep.obligations += len(got_s | set(want))
            for x in sorted(got_s - set(want)):
                rep.fail('%s: unexpected step %s' % (kb, x), 'under the case "%s", a turn of the loop in %s does %s' % (case, self.root.path, x), where)
            for x in sorted(set(want) - got_s):
                rep.fail('%s: missing step %s' % (kb, x), 'under the case "%s", no turn of the loop in %s does %s' % (case, self.root.path, x), where)
        for name, want in spec.get('ev', {}).items():
            got_e = {}
            for n in ([name] if isinstance(name, str) else name):
                for x, ev in s.calls(n).items():
                    got_e[self.short(x)] = ev
            want = set(map(unstring, want))
            rep.seen('%s/%s' % (kb, name), set(got_e))
            rep.obligations += len(want | set(got_e))
            rep.count('call_sites', len(got_e))
            for x in sorted(set(got_e) - want):
                rep.fail('%s: unexpected call %s%s' % (kb, name, x), 'under the case "%s", %s calls %s%s' % (case, self.root.path, name, x),
                         got_e[x].span)
            for x in sorted(want - set(got_e)):
                rep.fail('%s: missing call %s%s' % (kb, name, x), 'under the case "%s", %s never calls %s%s' % (
                    case, self.root.path, name, x), where)
        for name in spec.get('noev', ()):
            rep.obligations += 1
            for x, ev in s.calls(name).items():
                rep.fail('%s: forbidden call %s' % (kb, name), 'under the case "%s", %s reaches %s%s' % (case, self.root.path, name,
                         self.short(x)), ev.span)
        if lift is None and spec.get('each', True):
            self.each(ctx, rep, case, when, spec, fn)
        return s
