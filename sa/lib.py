"""Shared machinery of the rules: canonical names of provenance terms,
scenarios (assumed facts) and reporting."""
import os, sys, json, time, re
from terms import *
import engine as eng_mod
from engine import Engine, run_root, canon as callee_name, Budget
from facts import last

fs = frozenset


def indexed(x):
    """Iterating the positions of a sequence is iterating the sequence."""
    if x.op == 'agg' and last(x.args[0]) == 'Range' and x.args[3].op == 'int' and x.args[3].args[0] == 0 and x.args[4].op == 'len':
        return x.args[4].args[0]
    return x


class Anchor(Exception):
    """A construct a rule is anchored on was not found: the rule fails closed."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = 0
        self.counts = {}
        self.rules = []
        self.viol = []          # (key, message, where)
        self.fns = set()
        self.samples = []
        self.log = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, cond, key, msg, where=''):
        """One obligation: `cond` must hold."""
        self.obligations += 1
        if not cond:
            self.fail(key, msg, where)
        return cond

    def fail(self, key, msg, where=''):
        for k, m, w in self.viol:
            if k == key:
                return
        self.viol.append((key, msg, where))

    def seen(self, k, v):
        self.log[k] = sorted(v)

    def rule(self, name, text):
        self.rules.append({'rule': name, 'text': text})


def expand(k, r):
    if k in ('Some', 'Ok') and r.startswith('next') and ')' in r:
        return '%s(one%s)' % (k, r[4:])
    return EXPAND[k] % r


EXPAND = {'Some': 'Some(%s!)', 'Ok': 'Ok(%s?)', 'Err': 'Err(%s:Err)', 'None': 'None%.0s'}
SEQ = {'push', 'ins', 'extend', 'coll', 'empty', 'sorted', 'array', 'single'}


def jsort(x):
    """Effects on a set-like object: their order does not matter."""
    if any(e.startswith(('+', '(+')) for e in x) and all(e.startswith(('+', '(+', '..', '^')) for e in x):
        return tuple(sorted(x, key=lambda e: (not e.startswith(('..', '^')), e)))
    return tuple(x)


MARK = re.compile('[\x01\x02]+')
GROUP = re.compile(r'\{([\x01\x02][^{}|]*(?:\|[\x01\x02][^{}|]*)+)\}')


def unmark(s):
    return MARK.sub('', s)


def order(s):
    m = MARK.search(s)
    return (m.group() if m else '', s)


def star(s):
    """An item added for each element of a chain: for each part of the chain in turn."""
    g = set(GROUP.findall(s))
    if len(g) == 1:
        g = g.pop()
        return [unmark(s.replace('{%s}' % g, x)) for x in sorted(g.split('|'), key=order)]
    return [unmark(s)]


def cover(al):
    """An alternative with repeated elements covers the one without them."""
    return [x for x in al if not any(y != x and tuple(e for e in y if not e.endswith('*')) == x for y in al)]


def pathlike(s):
    d = 0
    for ch in s:
        if ch in '([{<':
            d += 1
        elif ch in ')]}>':
            d -= 1
            if d < 0:
                return False
        elif d == 0 and ch in ' +|&,':
            return False
    return d == 0


def shape(t, c):
    """S { f: x.f, g: x.g, h: v } is x with h set to v: (x, [(h, v)]), in canonical form."""
    if t.args[0] in (OPTION, RESULT) or len(t.args) < 4:
        return None
    bs, rest, n = {}, {}, 0
    for f, v in zip(t.args[2], t.args[3:]):
        if v.op == 'agg' and last(v.args[0]) == 'PhantomData' or v.op in ('const', 'named') and 'PhantomData' in str(v.args):
            continue
        n += 1
        u = c(v)
        if u.startswith('Some(') and u.endswith('!)'):
            u = u[5:-2]
        suf = '.' + f if t.args[1] == '' else ':%s%s' % (t.args[1], '' if f == '0' else '.' + f)
        b = u[:-len(suf)] if u.endswith(suf) and pathlike(u) else None
        if b is not None:
            bs.setdefault(b, []).append(f)
        rest[f] = v
    for b, fs in bs.items():
        k = len(fs)
        if k == n or t.args[1] == '' and (k * 2 > n or k == n - 1):
            return b, [(f, v) for f, v in rest.items() if f not in fs]
    return None


class Canon:
    """Canonical string of a term: parameters by position, field/payload
    chains as paths, pattern matching and substitutions by their meaning."""

    def __init__(self, params, bases=()):
        self.params = params
        self.bases = bases           # [(string, replacement)]
        self.memo = {}
        self.busy = {}               # loop-carried terms being shown -> their mark
        self.fresh = {}
        self.eng = None
        self.rec = None
        self.exact = False           # an element followed by more of the same is shown
        self.fmt = {}
        self.known = {}
        self.known_fn = None
        self.order = False           # mark the elements of a chain with their position in it
        self.journal = {}            # (callee, argument): effect on that argument shown as an appended element
        self.threads = set()         # (callee, argument): state whose history is not shown

    def __call__(self, t):
        """A term in value position: what is known about it is shown."""
        r = self.raw(t)
        if self.known and r in self.known:
            k = self.known[r]
            return expand(k, r)
        if self.known_fn is not None and isinstance(t, T) and (t.op == 'call' or t.op == 'pl' and getattr(self.known_fn, 'pl', False)):
            k = self.known_fn(r, t, None)
            if k in ('Ok', 'Err') or k in ('Some', 'None') and isinstance(k, str):
                return expand(k, r)
        return r

    def show(self, when, fn=None):
        """From now on, show what the assumptions say about values."""
        k = {a: b for a, b in when.items() if b in EXPAND}
        if k != self.known or fn is not self.known_fn or not self.order:
            self.known = k
            self.order = True
            self.known_fn = fn
            self.memo = {}

    def raw(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._c(t)
            for a, b in self.bases:
                if r == a:
                    r = b
                    break
            if not getattr(t, 'sites', None) or not any(x[0] == 'lv' for x in t.sites if isinstance(x, tuple)):
                self.memo[t] = r
        return r

    def set(self, v):
        return sorted({self(t) for t in v})

    def _c(self, t):
        if not isinstance(t, T):
            return str(t)
        o = t.op
        a = ts(t)
        c = self
        if o == 'param':
            return self.params.get(a[0], '?%d' % a[0])
        if o == 'fd':
            if a[0].op == 'call' and ts(a[0])[0] == 'intrinsics::transmute' and a[1] == '0':
                return c.raw(ts(a[0])[1])
            return '%s.%s' % (c.raw(a[0]), a[1])
        if o == 'pl':
            if a[1] in ('Some', 'Ok') and a[2] == '0':
                x = a[0]
                s = c.raw(x)
                if s.startswith('next') and ')' in s:
                    return 'one' + s[4:]
                return s + '?' if a[1] == 'Ok' else s + '!'
            return '%s:%s%s' % (c.raw(a[0]), a[1], '' if a[2] == '0' else '.' + a[2])
        if o == 'elem':
            x = c.raw(a[0])
            if x.startswith('M<') and x.endswith('>'):
                return 'one0(%s)' % x
            return (chain_pos(t) if self.order else '') + x + '[]'
        if o == 'idx':
            return 'idx(%s)' % c(indexed(a[0]))
        if o == 'call':
            n = a[0]
            args = a[1:]
            if n == 'Iterator::next' and args:
                k = 0
                x = args[0]
                while x.op == 'post' and ts(x)[0] == 'Iterator::next':
                    x = ts(x)[2]
                    k += 1
                return 'next%d(%s)' % (k, c(x))
            if n in self.fmt and n not in self.fmt.get('@fresh', ()):
                return self.fmt[n]([c(x) for x in args])
            if n == 'TraversableDataset::quads':
                return 'quads(%s)' % c(args[0])
            if n == 'Matching::new' and len(args) == 3:
                return 'M<%s>' % self.dsname(args[2])
            if n == 'Substitution::from_inputs':
                return 'S[%s]' % c(args[0])
            if n == 'Pattern::apply':
                return 'apply(%s; %s)' % (c(args[0]), c(args[1]))
            if n == 'Pattern::into_resource':
                return c.raw(args[0])
            if n == '@rec':
                if self.rec is not None:
                    r = self.rec([c(x) for x in args])
                    if r is not None:
                        return r
                return 'REC(%s)' % ', '.join(c(x) for x in args)
            if n in self.fmt.get('@fresh', ()):
                return 'fresh%d' % self.fresh.setdefault(t, len(self.fresh) + 1)
            return '%s(%s)' % (n, ', '.join(c(x) for x in args))
        if o == 'post':
            n, i, old = a[0], a[1], a[2]
            if (n, i) in self.threads:
                return c(old)
            if (n, i) in self.fmt.get('@post', ()):
                return self.fmt['@post'][(n, i)]([c(x) for x in a[2:]])
            if (n, i) in self.journal:
                return self.seqstr(t)
            if n == 'Substitution::intro':
                return '%s+intro(%s)' % (c(old), ', '.join(c(x) for x in a[3:]))
            if n == 'Substitution::push':
                return '%s+push(%s)' % (c(old), ', '.join(c(x) for x in a[3:]))
            if n == 'Iterator::next':
                return c(old)
            return '%s#%s(%s)' % (n, i, ', '.join(c(x) for x in a[2:]))
        if o == 'agg':
            e = shape(t, c)
            if e is not None:
                return self.upds(e[0], e[1])
            nm = last(a[0]) + ('::' + a[1] if a[1] else '')
            if a[0] == OPTION or a[0] == RESULT:
                nm = a[1]
            if nm == 'QuadsWithDefaultGraph':
                d = dict(zip(a[2], a[3:]))
                vals = [c(x) for x in a[3:]]
                q = [v for v in vals if v.startswith('quads(')]
                g = [v for v in vals if not v.startswith('quads(')]
                if len(q) == 1 and len(g) == 1:
                    return '%s@%s' % (q[0], g[0])
            if a[3:]:
                if all(n.isdigit() for n in a[2]):
                    return '%s(%s)' % (nm, ', '.join(c(x) for x in a[3:]))
                return '%s{%s}' % (nm, ', '.join('%s: %s' % (n, c(v)) for n, v in sorted(zip(a[2], a[3:]), key=lambda z: z[0])))
            return nm
        if o in SEQ or (o == 'lv' and t not in self.busy and self.iscoll(t)):
            return self.seqstr(t)
        if o == 'lv':
            if t in self.busy:
                return self.busy[t]
            leaves, ring = self.flat(t)
            me = self.enter(t)
            saved = self.memo
            self.memo = {}
            for u in ring:
                self.busy.setdefault(u, me)
            ds = sorted({c(z) for z in leaves} - {me})
            r = ds[0] if len(ds) == 1 else 'lv{' + '|'.join(ds) + '}'
            self.memo = saved
            for u in [u for u, m in self.busy.items() if m == me]:
                del self.busy[u]
            return r
        if o == 'phi':
            ds = sorted({c(x) for x in a})
            return ds[0] if len(ds) == 1 else '{' + '|'.join(ds) + '}'
        if o == 'str':
            return json.dumps(a[0])
        if o == 'int':
            return str(a[0])
        if o == 'bool':
            return 'true' if a[0] else 'false'
        if o == 'named':
            return last(a[0])
        if o == 'cast':
            return c(a[0])
        if o == 'sum':
            return '+'.join(sorted((c(x) for x in a), key=lambda s: (s.isdigit(), s)))
        if o == 'upd':
            u = {}
            b = t
            while b.op == 'upd':
                u.setdefault(ts(b)[1], ts(b)[2])
                b = ts(b)[0]
            if b.op == 'agg' and set(u) <= set(b.args[2]):
                return c.raw(mk('agg', b.args[0], b.args[1], b.args[2], *[u.get(n, v) for n, v in zip(b.args[2], b.args[3:])]))
            return self.upds(c.raw(b), list(u.items()))
        if o == 'fnitem':
            return a[2]
        if o == 'closure':
            return 'closure'
        if o in ('eq',):
            return ' == '.join(sorted(c(x) for x in a))
        if o == 'lt':
            return '%s < %s' % (c(a[0]), c(a[1]))
        if o == 'not':
            return '!(%s)' % c(a[0])
        if o == 'is':
            return '%s is %s' % (c(a[1]), a[0])
        if o == 'try':
            return c.raw(a[0])
        if o == 'tuple':
            return '(%s)' % ', '.join(c(x) for x in a)
        if o == 'string':
            return 'string(%s)' % c(a[0])
        if o == 'next':
            return 'more(%s)' % c(indexed(a[0]))
        if o == 'peek':
            return 'another(%s)' % c(indexed(a[0]))
        if o == 'rec':
            return 'rec'
        if o == 'at':
            b, i = c(a[0]), c(a[1])
            return '%s[]' % b if i in ('idx(%s)' % b, 'None') else '%s[%s]' % (b, i)
        if o == 'ix':
            return a[0]
        if o == 'setat':
            return '%s{[%s]:=%s}' % (c(a[0]), c(a[1]), c(a[2]))
        if o == 'mapit':
            return 'map(%s)' % c(a[0])
        if o == 'enumit':
            return c(a[0])
        if o == 'post':
            return c(a[2])
        return '%s(%s)' % (o, ', '.join(c(x) for x in a if isinstance(x, (T, int, str))))

    def upds(self, b, us):
        l = sorted((f, self(v)) for f, v in us)
        return b + ''.join('{%s:=%s}' % (f, v) for f, v in l if v not in ('%s.%s' % (b, f), 'Some(%s.%s!)' % (b, f))
                           and not (v == 'None' and self.known.get('%s.%s' % (b, f)) == 'None'))

    def enter(self, t):
        n = len(set(self.busy.values()))
        self.busy[t] = '^' + (str(n) if n else '')
        return self.busy[t]

    def flat(self, t):
        """The values a loop-carried value can be copied from, and the loop-carried values it is copied around with."""
        k = ('flat', t)
        r = self.eng.memo_flat.get(k)
        if r is None:
            succ, leaves, todo = {}, [], [t]
            while todo:
                u = todo.pop()
                if u in succ:
                    continue
                succ[u] = set()
                for d in self.eng.lvdefs.get(u, ()):
                    for x in unphi(d):
                        while x.op == 'post' and ts(x)[0] == 'Iterator::next' and ts(x)[2].op in ('post', 'lv') and (ts(x)[0], ts(x)[1]) not in self.journal:
                            # an iterator that advances is shown as the iterator
                            x = ts(x)[2]
                        if x.op == 'lv' and not self.iscoll(x):
                            succ[u].add(x)
                            todo.append(x)
                        elif x not in leaves:
                            leaves.append(x)
            ring = {t}
            while True:
                n = {u for u in succ if succ[u] & ring} | ring
                if n == ring:
                    break
                ring = n
            r = (leaves, ring)
            if self.eng.done:
                self.eng.memo_flat[k] = r
        return r

    def dsname(self, q):
        return self(q)

    # ---- collections by content ------------------------------------------
    def iscoll(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return False
        seen.add(t)
        return any(d.op in SEQ or d.op == 'post' and (ts(d)[0], ts(d)[1]) in self.journal or (d.op == 'lv' and self.iscoll(d, seen)) or (d.op == 'phi' and any(x.op in SEQ for x in d.args))
                   for d in self.eng.lvdefs.get(t, ()))

    def isjournal(self, t):
        return t.op == 'post' and (ts(t)[0], ts(t)[1]) in self.journal or t.op == 'lv' and self.iscoll(t)

    def seqstr(self, t):
        # in the turn observed, the elements of the turns before it are shown apart
        al = sorted({jsort(tuple(e for p, e, n in zip(('',) + x[:-1], x, x[1:] + ('',)) if n != e + '*' or self.exact and p == n))
                     for x in self.seq(t)})
        f = lambda x: 'seq[%s]' % ', '.join(x)
        al = cover(al)
        if len(al) == 1:
            if len(al[0]) == 1 and re.fullmatch(r'[\w.:!?]+\[\]\*', al[0][0]):
                return al[0][0][:-3]        # all elements of X, in order: X
            return f(al[0])
        return '{' + '|'.join(f(x) for x in al) + '}'

    def seq(self, t):
        o = t.op
        a = ts(t)
        if o == 'empty':
            return {()}
        if o == 'phi':
            r = set()
            for x in a:
                r |= self.seq(x)
            return r
        if o == 'post' and (a[0], a[1]) in self.journal:
            return {s + (self.journal[(a[0], a[1])]([self(x) for x in a[3:]]),) for s in self.seq(a[2])}
        if o == 'post' and (a[0], a[1]) in self.threads:
            return self.seq(a[2])
        if o == 'push':
            return {s + (e,) for s in self.seq(a[0]) for e in {self(x) for x in unphi(a[1])}}
        if o == 'ins':
            return {s + ('%s => %s' % (k, v),) for s in self.seq(a[0]) for k in {self(x) for x in unphi(a[1])}
                    for v in {self(x) for x in unphi(a[2])}}
        if o == 'extend':
            return {s + u for s in self.seq(a[0]) for u in self.seq(a[1])}
        if o == 'sorted':
            return {('sorted ' + f,) for f in {'seq[%s]' % ', '.join(x) for x in self.seq(a[0])}}
        if o in ('array', 'single'):
            r = {()}
            for x in a:
                r = {s + (e,) for s in r for e in {self(y) for y in unphi(x)}}
            return r
        if o == 'coll':
            es = set()
            for x in unphi(a[0]):
                if 'Map' in a[2] and x.op == 'tuple' and len(x.args) == 2:
                    for k in {self(y) for y in unphi(x.args[0])}:
                        for v in {self(y) for y in unphi(x.args[1])}:
                            es.add('%s => %s*' % (k, v))
                else:
                    es.add(self(x) + '*')
            return {tuple(z for y in sorted(es, key=order) for z in star(y))}
        if o == 'lv':
            if t in self.busy:
                return {(self.busy[t],)}
            me = self.enter(t)
            saved = self.memo
            self.memo = {}
            inits, steps = set(), set()
            for d in self.eng.lvdefs.get(t, ()):
                for s in self.seq(d):
                    if s and s[0] == me:
                        if len(s) > 1:
                            steps.add(s[1:])
                    else:
                        inits.add(s)
            self.memo = saved
            del self.busy[t]
            st = tuple(z for y in sorted(((x[0] if len(x) == 1 else '(%s)' % ' '.join(jsort(x))) + '*' for x in steps), key=order) for z in star(y))
            if () in inits and len(inits) > 1:
                pass
            return {i + st for i in inits} or {st}
        return {('..' + self(t),)}


def EVERY(s, t):
    """No assumption is lifted: they hold in every turn of every loop."""
    return False


class Scenario:
    """One run of the dataflow on `root` under assumed facts.

    `when` maps canonical strings (or prefixes ending with '*') to the variant
    name / truth value / integer assumed for that value."""

    def __init__(self, prog, root, params, when=None, opaque=(), opaque_fn=None, bases=(), fn=None, watch=(), must=(), budget=600000,
                 args=None, maxdepth=30, rec=None, fmt=None, cells=False, lift=None, target=None):
        self.canon = Canon(params, bases)
        self.canon.rec = rec
        self.canon.fmt = fmt or {}
        self.canon.journal = self.canon.fmt.get('@journal', {})
        self.canon.threads = self.canon.fmt.get('@threads', set())
        self.when = when or {}
        self.fn = fn
        self.used = set()
        self.eng = Engine(prog, opaque=opaque, assume=self._assume, opaque_fn=opaque_fn, watch=watch, must_names=must, budget=budget,
                          maxdepth=maxdepth, track_cells=cells)
        self.canon.eng = self.eng
        self.eng.memo_flat = {}
        self.eng.done = False
        self.root = root
        self.lift = lift
        if lift:
            # the assumptions `lift` is about hold in some turn of a loop, not in all of them
            self.eng.lift = lambda t: lift(self.canon(t), t)
            self.eng.target = target or ()
            self.canon.exact = bool(target)
            self.eng.lifted = True
            self.eng.observe = target is None
            self.eng.every = target is None and lift is EVERY
            self.eng.whole = target is not None and lift is EVERY
        self.results = run_root(self.eng, root, args=args)
        self.eng.done = True

    def _assume(self, t, st):
        s = self.canon(t)
        if self.lift and self.lift(s, t):
            self.eng.note()
            if self.eng.lifted:
                return None
        if s in self.when:
            self.used.add(s)
            return self.when[s]
        if self.fn is not None:
            r = self.fn(s, t, st)
            if r is not None:
                self.used.add(s)
            return r
        return None

    def unused(self):
        return [k for k in self.when if k not in self.used]

    def outcomes(self):
        """Set of canonical strings of returned values, alternatives split."""
        out = {}
        for v, s in self.results:
            for t in v:
                for u in split(t):
                    out.setdefault(self.canon(u), []).append((u, s))
        return out

    def events(self, *names):
        return list(self.eng.all_events(set(names)))

    def cell(self, st, i):
        """Final value(s) of the place the mutable-reference parameter i points to."""
        v = st.mem.get(('P', i))
        if v is None:
            return []
        if self.canon.journal and len(v) > 1:
            return [self.canon.seqstr(phi(v))] if any(self.canon.isjournal(t) for t in v) else self.canon.set(v)
        return self.canon.set(v)

    @property
    def infallible(self):
        """The error type of the function has no value."""
        ty = self.root.mir['locals'][0]['ty']
        return ty.startswith('core::result::Result<') and ty.endswith((', !>', 'Infallible>'))

    def summary(self, cells=()):
        """Canonical outcomes together with the final value of `&mut` parameters."""
        out = set()
        self.canon.show(self.when, self.fn)
        for v, st in self.results:
            c = unmark(''.join(' ; %s=%s' % (self.canon.params.get(i, i), '|'.join(self.cell(st, i))) for i in cells))
            for t in v:
                for u in split(self.eng.deep(t, st)):
                    x = unmark(self.canon(u))
                    if x.startswith('Err(') and self.infallible:
                        continue
                    out.add(x if x.startswith('Err(') and self.canon.fmt.get('@okcells') else x + c)
        return out

    def steps(self, i):
        """What one turn of the loops does to the place the mutable-reference
        parameter i points to (`^`: its value when the turn starts)."""
        out = set()
        self.canon.show(self.when, self.fn)
        for t, ds in self.eng.lvdefs.items():
            m = re.search(r"\('P', %d\)(?:, '(\w+)'\))?\)$" % i, ts(t)[0])
            if not m:
                continue
            me = self.canon.enter(t)
            f = m.group(1)
            if f:
                # one field of the place changes
                self.canon.busy[t] = me = '^.' + f
            saved, self.canon.memo = self.canon.memo, {}
            for d in ds:
                s = unmark(self.canon(d))
                if f:
                    s = s.replace('seq[%s,' % me, 'seq[..%s,' % me)
                    s = '^' if s == me else s[:-len(f) - 1] if s.endswith('.' + f) and s[:-len(f) - 1].isidentifier() else '^{%s:=%s}' % (f, s)
                out.add(s)
            self.canon.memo = saved
            del self.canon.busy[t]
        return out - {'^'}

    def calls(self, *names):
        """Canonical argument lists of every call of the given callees."""
        out = {}
        self.canon.show(self.when, self.fn)
        for ev in self.events(*names):
            for combo in product([self.canon(a) for a in alts(v)] or ['?'] for v in ev.args):
                out.setdefault('%s(%s)' % (ev.name if len(names) > 1 else '', ', '.join(unmark(x) for x in combo)), ev)
        return out

    def panics(self):
        return list(self.eng.all_events('@panic'))


def split(t, d=0):
    """Alternatives of an aggregate whose payload is a phi (two levels)."""
    if t.op == 'phi':
        r = []
        for x in t.args:
            r += split(x, d)
        return r
    if t.op == 'agg' and len(t.args) == 4 and d < 3:
        return [mk('agg', t.args[0], t.args[1], t.args[2], x) for x in split(t.args[3], d + 1)]
    return [t]


def product(ls):
    r = [[]]
    for l in ls:
        l = sorted(set(l))
        r = [x + [y] for x in r for y in l]
        if len(r) > 256:
            return r[:256]
    return r


def alts(v):
    r = set()
    for t in v:
        r |= set(unphi(t))
    return r


def deepphi(t):
    """All alternatives obtained by choosing one alternative at the top."""
    return set(unphi(t))


def pos(span):
    return span


def length(x, n, then=None):
    """Assume that x has n elements, however that is asked."""
    l = re.escape('len(%s)' % x)
    pats = [(r'(\d+) == %s' % l, lambda k: n == k), (r'%s == (\d+)' % l, lambda k: n == k), (r'%s < (\d+)' % l, lambda k: n < k),
            (r'(\d+) < %s' % l, lambda k: k < n), (r'%s <= (\d+)' % l, lambda k: n <= k), (r'(\d+) <= %s' % l, lambda k: k <= n),
            (r'get\(%s, (\d+)\)' % re.escape(x), lambda k: 'Some' if k < n else 'None')]
    pats = [(re.compile(a), b) for a, b in pats]

    def g(s, t, st):
        if s.startswith('len('):
            if s == 'len(%s)' % x:
                return n
        for a, b in pats:
            m = a.fullmatch(s)
            if m:
                return b(int(m.group(1)))
        return then(s, t, st) if then else None
    return g


def lastness(s, x):
    """Does the condition ask whether the current element of x is the last one?
    'last', 'notlast' (true when another follows) or None."""
    n, i = 'len(%s)' % x, None
    s = s.replace('lv{0|^+1}', 'idx(%s)' % x)
    i = 'idx(%s)' % x
    s = s.replace('bin(SatSub, %s, 1)' % n, 'bin(Sub, %s, 1)' % n)
    same = {(i, 'bin(Sub, %s, 1)' % n), (i + '+1', n)}
    p = s.split(' == ')
    if len(p) == 2 and (tuple(p) in same or tuple(p[::-1]) in same):
        return 'last'
    p = s.split(' < ')
    if len(p) == 2 and tuple(p) in same:
        return 'notlast'
    if s == 'another(%s)' % x:
        return 'notlast'
    return None


def unstarred(s, cap=64):
    """The variants of a rendered result in which some repeated items (x*) occur
    no time at all."""
    out, work = {s}, [s]
    while work and len(out) < cap:
        x = work.pop()
        for i, ch in enumerate(x):
            if ch != '*' or (i + 1 < len(x) and x[i + 1] not in ',]'):
                continue
            d, b, q = 0, i - 1, False
            while b >= 0:
                k = x[b]
                if k == '"' and x[b - 1:b] != '\\':
                    q = not q
                elif q:
                    pass
                elif k in ')]}':
                    d += 1
                elif k in '([{':
                    if d == 0:
                        break
                    d -= 1
                elif k == ',' and d == 0:
                    break
                b -= 1
            if b < 0 or (x[b] == '[' and not x[:b].endswith('seq')):
                continue
            e = i + 1
            if x[b] == ',':
                y = x[:b] + x[e:]
            elif x[e:e + 2] == ', ':
                y = x[:b + 1] + x[e + 2:]
            else:
                y = x[:b + 1] + x[e:]
            y = re.sub(r'seq\[\.\.([\w.:!?]+)\]', r'\1', y)
            if y not in out:
                out.add(y)
                work.append(y)
    return out


def evalnum(t, leaf):
    """The value of a comparison or arithmetic term when its leaves are the
    given numbers; None if it has other parts."""
    v = leaf(t)
    if v is not None:
        return v
    if t.op in ('int', 'bool'):
        return t.args[0] if not isinstance(t.args[0], str) else None
    if t.op not in ('sum', 'bin', 'eq', 'lt', 'not', 'cast', 'phi'):
        return None
    a = [evalnum(x, leaf) for x in (t.args[1:] if t.op == 'bin' else t.args) if isinstance(x, T)]
    if not a or any(x is None for x in a):
        return None
    if t.op == 'sum':
        return sum(a)
    if t.op == 'not':
        return not a[0]
    if t.op in ('eq', 'lt'):
        return a[0] == a[1] if t.op == 'eq' else a[0] < a[1]
    if t.op == 'bin':
        f = {'Sub': lambda x, y: x - y, 'SatSub': lambda x, y: max(x - y, 0), 'Mul': lambda x, y: x * y, 'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y,
             'Rem': lambda x, y: x % y if y else None, 'Div': lambda x, y: x // y if y else None}.get(t.args[0])
        return f(*a) if f and len(a) == 2 else None
    return a[0] if len(set(a)) == 1 else None
