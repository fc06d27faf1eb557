"""Forward provenance dataflow over MIR.

Context-sensitive (callees in the workspace are analysed in place, closures
included), flow-sensitive, partitioned by the enum variant / boolean held by
live locals.  Every value is a set of provenance terms; a switch on a value of
unknown provenance follows every target and records the assumed variant as a
path fact, unless the scenario under analysis (`assume`) fixes it, in which
case only the matching edge is followed.  Loops are run to a fixpoint.
No code is executed and no constraint solver is involved.
"""
import ast
import contextlib
import re
from terms import *
from facts import last, strip_generics

fs = frozenset
CAP = 40


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'must')

    def __init__(self, mem=None, facts=None, must=fs()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.must = must

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.must)


def counting(v, k):
    if not all(x.op == 'int' or x.op == 'sum' or x.op == 'lv' for x in v):
        return False
    me = repr(k)
    return not all(x.op == 'lv' for x in v) and all(
        x.op == 'int' or all(y.op == 'int' or (y.op == 'lv' and y.args[0] == me) for y in (x.args if x.op == 'sum' else (x,))) for x in v)


def join(a, b, widen=None):
    """Join of two states; returns (state, changed w.r.t. a).  `widen(key, old,
    new)` replaces a growing value at a loop header by its loop variable."""
    changed = False
    mem = a.mem
    new = None
    for k, v in b.mem.items():
        o = mem.get(k)
        if o is None:
            if new is None:
                new = dict(mem)
            new[k] = v
            changed = True
        elif o is not v and not (v <= o):
            u = o | v if widen is None else widen(k, o, v)
            if len(u) > CAP:
                u = fs([mk('top')])
            if u != o:
                if new is None:
                    new = dict(mem)
                new[k] = u
                changed = True
    facts = a.facts
    nf = None
    for k, v in a.facts.items():
        if b.facts.get(k) != v:
            if nf is None:
                nf = dict(facts)
            del nf[k]
            changed = True
    must = a.must
    if not (a.must <= b.must):
        must = a.must & b.must
        changed = True
    if not changed:
        return a, False
    return State(new if new is not None else mem, nf if nf is not None else facts, must), True


def tag1(t, facts, d=0):
    if t.op == 'try':
        return tagof(unphi(t.args[0]), facts)
    if t.op == 'agg':
        if t.args[1]:
            if d < 2 and len(t.args) == 4:
                x = t.args[3]
                if x.op != 'phi':
                    u = tag1(x, facts, d + 1)
                    if u:
                        return t.args[1] + '(' + u + ')'
            return t.args[1]
        return None
    if t.op == 'bool':
        return 'T' if t.args[0] else 'F'
    f = facts.get(t)
    if f is not None:
        return '~%s' % (f,)
    return None


def tagof(v, facts):
    r = None
    for t in v:
        x = tag1(t, facts)
        if x is None:
            return None
        if r is None:
            r = x
        elif r != x:
            return None
    return r


class Event:
    __slots__ = ('name', 'args', 'site', 'span', 'fn', 'ref', 'facts', 'must', 'inlined', 'raw', 'stack')

    def __repr__(self):
        return '%s(%s) @%s' % (self.name, ', '.join('|'.join(sorted(map(repr, a))) for a in self.args), self.span)


# traits whose functions have no receiver: which type they produce is what a call to them means
BY_TYPE = ('TryFromJson', 'TryFromJsonObject', 'FromStr', 'Deserialize')


def strip_refs(s):
    return s.lstrip('&').strip()


def canon(ref):
    """Short canonical name of a callee reference."""
    n = ref.get('name') or last(ref['path'])
    if ref.get('trait'):
        t = last(ref['trait'])
        if t in BY_TYPE:
            return re.sub(r'(?:\w+::)+', '', strip_refs(ref.get('self') or 'Self')) + '::' + n
        return t + '::' + n
    if ref.get('self_adt'):
        return last(ref['self_adt']) + '::' + n
    p = strip_generics(ref['path'])
    segs = p.split('::')
    if len(segs) >= 2:
        return segs[-2] + '::' + segs[-1]
    return p


class Engine:
    def __init__(self, prog, opaque=(), assume=None, watch=(), inline=None, budget=400000, crates=None, opaque_fn=None,
                 must_names=(), maxdepth=30, track_cells=False):
        self.track_cells = track_cells
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_fn = opaque_fn
        self.assume_cb = assume
        self.watch = set(watch)
        self.must_names = set(must_names)
        self.budget = budget
        self.steps = 0
        self.events = {}
        self.panics = {}
        self.frames = {}
        self.frame_keys = {}
        self.maxdepth = maxdepth
        self.analysed = set()
        self.switches = {}
        self.aggs = {}
        self.calls = 0
        self.lvdefs = {}
        # exists-a-turn analysis (see `turn_body`)
        self.lift = None
        self.lifted = False
        self.skips = None
        # no turn is to be singled out (again); what is met is observed
        self.silent = False
        self.observe = True
        # the turn observed: frame, block of its iterator's `next`, head, states after it
        self.turning = None
        # note every loop, not only those about lifted assumptions
        self.every = False
        # the turn observed runs to its end
        self.whole = False
        self.target = ()
        self.phase = ''
        self.lvphase = {}
        self.chains = set()
        self.active = []
        import models
        self.models = models

    # ---- terms and places -------------------------------------------------
    def fields(self, t, var, f, st):
        """Values of field `f` (of variant `var`, or None) of term t."""
        o = t.op
        if o == 'agg':
            if var is not None and t.args[1] and t.args[1] != var:
                return fs()
            names = t.args[2]
            if f in names:
                return unphi(t.args[3 + names.index(f)])
            if f.isdigit() and int(f) < len(names):
                return unphi(t.args[3 + int(f)])
            return fs([mk('fd', t, f)])
        if o in ('tuple', 'closure', 'array', 'single'):
            off = 0 if o != 'closure' else 1
            i = int(f) if f.isdigit() else -1
            a = ts(t)
            if 0 <= i and i + off < len(a):
                return unphi(a[i + off])
            return fs([mk('fd', t, f)])
        if o == 'phi':
            r = fs()
            for x in t.args:
                r |= self.fields(x, var, f, st)
            return r
        if o == 'upd':
            if t.args[1] == f:
                return unphi(t.args[2])
            return self.fields(t.args[0], var, f, st)
        if o == 'try':
            x, k = t.args
            if var == 'Continue':
                return self.fields(x, 'Ok' if k == 'R' else 'Some', '0', st)
            if var == 'Break':
                return fs([mk('resid', x, k)])
        if var is not None:
            if f.isdigit() or True:
                return fs([mk('pl', t, var, f)])
        return fs([mk('fd', t, f)])

    def read_path(self, v, path, st):
        var = None
        for e in path:
            if e == '*':
                v = self.deref(v, st)
            elif isinstance(e, tuple) and e[0] == 'v':
                var = e[1]
                continue
            elif isinstance(e, tuple) and e[0] == 'f':
                r = fs()
                for t in v:
                    if t.op == 'mref':
                        for u in self.deref(fs([t]), st):
                            r |= self.fields(u, var, e[1], st)
                    else:
                        r |= self.fields(t, var, e[1], st)
                v = r
            elif isinstance(e, tuple) and e[0] == 'at':
                r = fs()
                for t in v:
                    if t.op == 'mref':
                        for u in self.deref(fs([t]), st):
                            r |= self.index(u, e[1])
                    else:
                        r |= self.index(t, e[1])
                v = r
            var = None
        return v

    def index(self, t, i):
        if t.op in ('array', 'single'):
            a = ts(t)
            if isinstance(i, int) and i < len(a):
                return unphi(a[i])
            r = fs()
            for x in a:
                r |= unphi(x)
            return r
        k = mk('int', i) if isinstance(i, int) else i if isinstance(i, T) else mk('ix', str(i))
        if t.op == 'phi':
            r = fs()
            for x in t.args:
                r |= self.index(x, i)
            return r
        if t.op in ('setat', 'ins') and t.args[1] is k:
            return unphi(t.args[2])
        if t.op == 'push' and k.op == 'ix' and k.args[0] == 'last':
            return unphi(t.args[1])
        return fs([mk('at', t, k)])

    def loc_value(self, loc, st):
        base, path = loc
        v = st.mem.get(base, fs([mk('undef')]))
        return self.read_path(v, path, st)

    def deref(self, v, st):
        r = set()
        for t in v:
            if t.op == 'mref':
                r |= self.loc_value(t.args[0], st)
            else:
                r.add(t)
        return fs(r)

    def val(self, v, st):
        """Dereference mutable references at the top level."""
        n = 0
        while any(t.op == 'mref' for t in v) and n < 6:
            v = self.deref(v, st)
            n += 1
        return v

    def deep(self, t, st, d=0):
        """Term with mutable references replaced by the values they point to."""
        if t.op == 'mref':
            if d > 4:
                return mk('deepref')
            return phi(self.deep(x, st, d + 1) for x in self.loc_value(t.args[0], st))
        if t.op in ('agg', 'tuple', 'closure', 'array', 'single', 'phi', 'some') and d < 4:
            na = [self.deep(a, st, d + 1) if isinstance(a, T) else a for a in t.args]
            if t.op == 'phi':
                return phi(na)
            return mk(t.op, *na)
        return t

    def one(self, v, st):
        return phi(self.deep(t, st) for t in v) if v else mk('never')

    def conv_path(self, fr, proj, st):
        out = []
        for e in proj:
            if e == '*':
                out.append('*')
            elif 'f' in e:
                out.append(('f', e['f']))
            elif 'v' in e:
                out.append(('v', e['v']))
            elif 'ix' in e:
                iv = st.mem.get((fr, e['ix']), fs())
                i = None
                if len(iv) == 1:
                    x = next(iter(iv))
                    i = x.args[0] if x.op == 'int' else x
                out.append(('at', i))
            elif 'ci' in e:
                out.append(('at', e['ci'] if not e['end'] else -1 - e['ci']))
            elif 'sub' in e:
                out.append(('at', ('sub',) + tuple(e['sub'])))
            else:
                out.append(('f', '?'))
        return tuple(out)

    def read(self, fr, p, st):
        v = st.mem.get((fr, p[0]))
        if v is None:
            v = fs([mk('undef')])
        if len(p) > 1:
            v = self.read_path(v, self.conv_path(fr, p[1], st), st)
        return v

    def locs(self, fr, p, st):
        """Memory locations denoted by a place (base, path)."""
        base = (fr, p[0])
        cur = [(base, ())]
        if len(p) > 1:
            for e in self.conv_path(fr, p[1], st):
                if e == '*':
                    nxt = []
                    for (b, pa) in cur:
                        v = self.loc_value((b, pa), st)
                        ms = [t for t in v if t.op == 'mref']
                        for t in ms:
                            nxt.append(t.args[0])
                        if len(ms) < len(v) or not v:
                            nxt.append((b, pa + ('*',)))
                    cur = nxt
                else:
                    cur = [(b, pa + (e,)) for (b, pa) in cur]
        # normalise: drop deref markers on value-semantics references
        return list(dict.fromkeys((b, tuple(x for x in pa if x != '*')) for b, pa in cur))

    def store(self, loc, v, st, strong=True):
        base, path = loc
        if not path:
            if strong or base not in st.mem:
                st.mem[base] = v
            else:
                st.mem[base] = st.mem[base] | v
            return
        old = st.mem.get(base, fs([mk('undef')]))
        st.mem[base] = fs(self.upd(t, path, v, strong, st) for t in old)

    def upd(self, t, path, v, strong, st):
        if not path:
            if strong:
                return phi(v)
            return phi(set(v) | {t})
        e = path[0]
        rest = path[1:]
        if isinstance(e, tuple) and e[0] == 'v':
            return self.upd(t, rest, v, strong, st)
        if isinstance(e, tuple) and e[0] == 'f':
            if t.op == 'agg' and (e[1] in t.args[2]):
                i = 3 + t.args[2].index(e[1])
                na = list(t.args)
                na[i] = phi(self.upd(x, rest, v, strong, st) for x in unphi(t.args[i]))
                return mk('agg', *na)
            if t.op in ('tuple',) and e[1].isdigit() and int(e[1]) < len(t.args):
                na = list(t.args)
                na[int(e[1])] = phi(self.upd(x, rest, v, strong, st) for x in unphi(na[int(e[1])]))
                return mk('tuple', *na)
            if t.op == 'closure' and e[1].isdigit() and int(e[1]) + 1 < len(t.args):
                na = list(t.args)
                k = int(e[1]) + 1
                na[k] = phi(self.upd(x, rest, v, strong, st) for x in unphi(na[k]))
                return mk('closure', *na)
            base = t
            if t.op == 'upd' and t.args[1] == e[1]:
                base = t.args[0]
            inner = phi(self.upd(x, rest, v, strong, st) for x in self.fields(t, None, e[1], st)) if rest else (
                phi(v) if strong else phi(set(v) | self.fields(t, None, e[1], st)))
            return mk('upd', base, e[1], inner)
        ix = e[1] if isinstance(e, tuple) and len(e) > 1 else None
        if isinstance(ix, int):
            ix = mk('int', ix)
        elif not isinstance(ix, T):
            ix = mk('ix', str(ix))
        inner = phi(v) if not rest else phi(self.upd(x, rest, v, strong, st) for x in self.index(t, e[1]))
        if t.op == 'ins' and t.args[1] is ix:
            return mk('ins', t.args[0], ix, inner, *t.args[3:])
        if t.op == 'setat' and t.args[1] is ix:
            return mk('setat', t.args[0], ix, inner)
        return mk('setat', t, ix, inner)

    def write(self, fr, p, v, st):
        ls = self.locs(fr, p, st)
        for l in ls:
            self.store(l, v, st, strong=len(ls) == 1)

    # ---- constants and operands -------------------------------------------
    def const(self, c, fn, fr, st):
        if 'promoted' in c:
            return self.promoted(fn, c['promoted'], fr, st)
        if 'str' in c:
            return fs([mk('str', c['str'])])
        if 'named' in c:
            return fs([mk('named', c['named'], c.get('ty', ''))])
        if c.get('rt'):
            return fs([FALSE])
        if 'char' in c:
            return fs([mk('char', c['char'])])
        if 'int' in c:
            if c['ty'] == 'bool':
                return fs([TRUE if c['int'] == '1' else FALSE])
            return fs([mk('int', int(c['int']))])
        if c['ty'] == '()':
            return fs([UNIT])
        if 'bytes' in c:
            return fs([mk('bytes', bytes(c['bytes']))])
        m = re.fullmatch(r'(-?\d+)(?:_?[iu](?:\d+|size))?', str(c.get('tyconst', '')))
        if m and re.fullmatch(r'[iu](\d+|size)', c.get('ty', '')):
            return fs([mk('int', int(m.group(1)))])
        return fs([mk('const', c.get('ty', ''), c.get('tyconst', ''))])

    def promoted(self, fn, i, fr, st):
        key = (fr, 'promoted', fn.h, i)
        body = fn.promoted[i]
        pf = PromotedFn(fn, i, body)
        f2 = self.frame(fr, ('promoted', i), fn.h)
        res = self.run_body(pf, f2, State(), (), 0)
        r = fs()
        for v, _ in res:
            r |= v
        return r or fs([UNKNOWN])

    def operand(self, o, fn, fr, st):
        if 'p' in o:
            return self.read(fr, o['p'], st)
        if 'fn' in o:
            r = o['fn']
            return fs([mk('fnitem', r['path'], r.get('rh') or r['h'], canon(r), FrozenRef.of(r))])
        if 'closure' in o:
            return fs([mk('closure', o['closure'])])
        return self.const(o['c'], fn, fr, st)

    # ---- statements -------------------------------------------------------
    def rvalue(self, s, fn, fr, st):
        k = s['k']
        if k == 'use':
            return self.operand(s['o'], fn, fr, st)
        if k == 'ref' or k == 'rawptr':
            if k == 'rawptr' or s.get('mut'):
                ls = self.locs(fr, s['p'], st)
                return fs(mk('mref', l) for l in ls)
            v = self.read(fr, s['p'], st)
            return v
        if k == 'cast':
            v = self.operand(s['o'], fn, fr, st)
            if s['ck'] in ('IntToInt',) and s['ty'] != s['from']:
                return fs(t if t.op == 'int' else mk('cast', t, s['from'], s['ty']) for t in v)
            return v
        if k == 'bin':
            a = self.val(self.operand(s['a'], fn, fr, st), st)
            b = self.val(self.operand(s['b'], fn, fr, st), st)
            r = set()
            for x in a:
                for y in b:
                    r.add(self.binop(s['op'], x, y))
            return fs(r) if len(r) <= CAP else fs([mk('top')])
        if k == 'un':
            v = self.val(self.operand(s['o'], fn, fr, st), st)
            if s['op'] == 'Not':
                return fs(neg(t) for t in v)
            return fs(mk('un', s['op'], t) for t in v)
        if k == 'discr':
            v = self.val(self.read(fr, s['p'], st), st)
            vars_ = tuple(sorted((int(a), b) for a, b in s['vars'].items()))
            return fs(mk('discr', t, vars_) for t in v)
        if k == 'agg':
            vals = [phi(self.operand(o, fn, fr, st)) for o in s['ops']]
            t = agg(s['adt'], s['var'] if s['enum'] else '', s['names'], vals)
            a = self.aggs.setdefault((fn.h, s['adt'], s['var'] if s['enum'] else ''), {})
            a.setdefault((fr, s['s']), set()).add(t)
            return fs([t])
        if k == 'tuple':
            return fs([mk('tuple', *[phi(self.operand(o, fn, fr, st)) for o in s['ops']])])
        if k == 'array':
            return fs([mk('array', *[phi(self.operand(o, fn, fr, st)) for o in s['ops']])])
        if k == 'closure':
            return fs([mk('closure', s['h'], *[phi(self.operand(o, fn, fr, st)) for o in s['ops']])])
        if k == 'repeat':
            return fs([mk('repeat', phi(self.operand(s['o'], fn, fr, st)), s['n'])])
        if k == 'tls':
            return fs([mk('named', s['path'], '')])
        return fs([UNKNOWN])

    def binop(self, op, x, y):
        if op in ('Eq', 'Ne'):
            return self.eqterm(x, y) if op == 'Eq' else neg(self.eqterm(x, y))
        if x.op == 'int' and y.op == 'int':
            a, b = x.args[0], y.args[0]
            try:
                if op in ('Add', 'AddUnchecked'):
                    return mk('int', a + b)
                if op in ('Sub', 'SubUnchecked'):
                    return mk('int', a - b)
                if op in ('Mul', 'MulUnchecked'):
                    return mk('int', a * b)
                if op == 'AddWithOverflow':
                    return mk('tuple', mk('int', a + b), FALSE)
                if op == 'SubWithOverflow':
                    return mk('tuple', mk('int', a - b), FALSE)
                if op == 'MulWithOverflow':
                    return mk('tuple', mk('int', a * b), FALSE)
                if op == 'Lt':
                    return TRUE if a < b else FALSE
                if op == 'Le':
                    return TRUE if a <= b else FALSE
                if op == 'Gt':
                    return TRUE if a > b else FALSE
                if op == 'Ge':
                    return TRUE if a >= b else FALSE
            except Exception:
                pass
        if op.endswith('WithOverflow'):
            return mk('tuple', self.arith(op[:-12], x, y), mk('overflow', x, y))
        if op == 'Gt':
            return mk('lt', y, x)
        if op == 'Ge':
            return neg(mk('lt', x, y))
        if op == 'Lt':
            return mk('lt', x, y)
        if op == 'Le':
            return neg(mk('lt', y, x))
        if op == 'BitAnd' and (x.op == 'bool' or y.op == 'bool'):
            b, o = (x, y) if x.op == 'bool' else (y, x)
            return o if b.args[0] else FALSE
        if op == 'BitOr' and (x.op == 'bool' or y.op == 'bool'):
            b, o = (x, y) if x.op == 'bool' else (y, x)
            return TRUE if b.args[0] else o
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        # sums are kept flattened and sorted so that reassociation is invisible
        if op == 'Add':
            parts = []
            for t in (x, y):
                if t.op == 'sum':
                    parts += list(t.args)
                else:
                    parts.append(t)
            n = sum(t.args[0] for t in parts if t.op == 'int')
            rest = sorted([t for t in parts if t.op != 'int'], key=key)
            if n:
                rest.append(mk('int', n))
            if len(rest) == 1:
                return rest[0]
            if not rest:
                return mk('int', 0)
            return mk('sum', *rest) if not any(t.size > 400 for t in rest) else mk('deep')
        return mk('bin', op, x, y)

    def eqterm(self, x, y):
        if x is y and x.op in ('int', 'str', 'bool', 'char', 'named', 'param', 'fd', 'pl'):
            return TRUE
        cs = ('int', 'str', 'bool', 'char')
        if x.op in cs and y.op in cs and x.op == y.op:
            return TRUE if x.args[0] == y.args[0] else FALSE
        if x.op == 'bool':
            return y if x.args[0] else neg(y)
        if y.op == 'bool':
            return x if y.args[0] else neg(x)
        a, b = sorted((x, y), key=key)
        return mk('eq', a, b)

    # ---- deciding ---------------------------------------------------------
    def variant(self, t, st):
        """Known variant of an enum term, or None."""
        if t.op == 'agg':
            return t.args[1] or None
        if t.op == 'try':
            x, k = t.args
            v = self.variant(x, st)
            if v is None:
                return None
            return 'Continue' if v in ('Ok', 'Some') else 'Break'
        if t.op == 'resid':
            return 'Err' if t.args[1] == 'R' else 'None'
        v = st.facts.get(t)
        if v is not None and not (isinstance(v, tuple)):
            return v
        if self.assume_cb:
            v = self.assume_cb(t, st)
            if v is not None:
                return v
        return None

    def excluded(self, t, st):
        v = st.facts.get(t)
        if isinstance(v, tuple):
            return v
        return ()

    def truth(self, t, st):
        """Known truth value of a boolean term, or None."""
        if t.op == 'bool':
            return t.args[0]
        if t.op == 'not':
            v = self.truth(t.args[0], st)
            return None if v is None else not v
        if t.op == 'is':
            v = self.variant(t.args[1], st)
            if v is not None:
                return v == t.args[0]
            if t.args[0] in self.excluded(t.args[1], st):
                return False
        if t in st.facts:
            return st.facts[t]
        if self.assume_cb:
            v = self.assume_cb(t, st)
            if v is not None:
                return v
        return None

    OTHER = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok', 'Continue': 'Break', 'Break': 'Continue'}

    def learn_truth(self, t, b, st):
        if t.op == 'not':
            return self.learn_truth(t.args[0], not b, st)
        if t.op == 'is':
            if b:
                self.learn_variant(t.args[1], t.args[0], st)
            elif t.args[0] in self.OTHER:
                self.learn_variant(t.args[1], self.OTHER[t.args[0]], st)
            return
        if t.op == 'bool':
            return
        st.facts[t] = b

    def learn_variant(self, t, v, st):
        if t.op == 'agg':
            return
        if t.op == 'try':
            x, k = t.args
            m = {'Continue': 'Ok' if k == 'R' else 'Some', 'Break': 'Err' if k == 'R' else 'None'}
            return self.learn_variant(x, m[v], st)
        st.facts[t] = v

    def kill(self, st, site):
        if st.facts:
            dead = [k for k in st.facts if site in k.sites]
            for k in dead:
                del st.facts[k]
        if st.must:
            pass

    # ---- function bodies --------------------------------------------------
    def frame(self, parent, site, h):
        k = (parent, site, h)
        f = self.frames.get(k)
        if f is None:
            f = len(self.frames) + 1
            self.frames[k] = f
            self.frame_keys[f] = k
        return f

    def run_fn(self, fn, args, st, fr, site, stack):
        """Analyse `fn` called with abstract `args`; [(return value, state)]."""
        f2 = self.frame(fr, site, fn.h)
        self.analysed.add(fn.path)
        st = st.copy()
        for k in [k for k in st.mem if k[0] == f2]:
            del st.mem[k]
        if fn.kind == 'closure':
            pass
        for i, a in enumerate(args):
            st.mem[(f2, i + 1)] = a
        res = self.run_body(fn, f2, st, stack + (fn.h,), len(stack))
        out = []
        for v, s in res:
            # values that refer to the dead frame are resolved now
            v = fs(self.deep(t, s) if self.mentions(t, f2) else t for t in v)
            s = s.copy()
            for k in [k for k in s.mem if k[0] == f2]:
                del s.mem[k]
            out.append((v, s))
        return out

    def mentions(self, t, fr):
        if t.op == 'mref':
            return t.args[0][0][0] == fr
        if t.op in ('agg', 'tuple', 'closure', 'array', 'single', 'phi'):
            return any(self.mentions(a, fr) for a in t.args if isinstance(a, T))
        return False

    def run_body(self, fn, fr, st0, stack, depth):
        """Fixpoint of one body.  Bodies with loops are run twice: the first
        pass finds the loop invariants at the headers, the second one starts
        from them and records events, so that nothing observed before the
        fixpoint is reported."""
        liveness(fn)
        self.active.append([fr, 0, fn])
        try:
            return self.run_turns(fn, fr, st0, stack, depth)
        finally:
            self.active.pop()

    def run_turns(self, fn, fr, st0, stack, depth):
        if self.target and not self.silent:
            h = [x[1] for x in self.target if x[0] == self.fpath(fr) and isinstance(x[1], int)]
            if h:
                return self.turn_body(fn, fr, st0, stack, depth, h[-1])
            bb = self.towards(fr)
            if bb is not None:
                with self.muted(self.lifted):
                    ins = self.invariant(fn, fr, st0, stack, depth)
                return self.onwards(fn, fr, stack, depth, ins, bb)
        if not fn.heads:
            return self.pass_body(fn, fr, st0, stack, depth, {})[0]
        if self.every:
            for h in fn.heads:
                self.active[-1][1] = h
                self.note()
            self.active[-1][1] = 0
        saved = (self.events, self.aggs, self.panics, self.switches)
        self.events, self.aggs, self.panics, self.switches = {}, {}, {}, {}
        seeds = self.loops(fn, fr, st0, stack, depth)
        self.events, self.aggs, self.panics, self.switches = saved
        return self.pass_body(fn, fr, st0, stack, depth, seeds)[0]

    # ---- some turn of a loop satisfies the assumptions ---------------------
    def fpath(self, fr):
        """Name of a frame, independent of the order in which frames are met."""
        if fr == 0:
            return ()
        parent, site, h = self.frame_keys[fr]
        return self.fpath(parent) + ((repr(self.fsite(site)), h),)

    def fsite(self, s):
        if isinstance(s, tuple):
            if len(s) == 2 and isinstance(s[0], int) and isinstance(s[1], int):
                return s[1]
            return tuple(self.fsite(x) for x in s)
        return s

    def note(self):
        """A lifted assumption was consulted: remember within which loops."""
        ch = []
        for fr, bb, fn in self.active:
            if fn is None:
                ch.append((self.fpath(fr), bb))
                continue
            for h in sorted(fn.heads, key=lambda h: fn._rpo[h]):
                if bb in fn.loops[h]:
                    ch.append((self.fpath(fr), h))
        if ch:
            self.chains.add(tuple(ch))

    @contextlib.contextmanager
    def muted(self, lifted=True):
        saved = (self.events, self.aggs, self.panics, self.switches, self.lifted, self.silent)
        self.events, self.aggs, self.panics, self.switches, self.lifted, self.silent = {}, {}, {}, {}, lifted, True
        try:
            yield
        finally:
            self.events, self.aggs, self.panics, self.switches, self.lifted, self.silent = saved

    @contextlib.contextmanager
    def turn(self):
        """The turn singled out: the assumptions about it hold.  A whole turn
        is judged by what follows it."""
        saved = (self.lifted, self.observe)
        self.lifted, self.observe = False, not self.whole
        try:
            yield
        finally:
            self.lifted, self.observe = saved

    @contextlib.contextmanager
    def afterwards(self):
        """After the turn singled out."""
        if not self.whole:
            with self.muted():
                yield
            return
        saved = (self.lifted, self.silent)
        self.lifted, self.silent, self.observe = True, True, True
        try:
            yield
        finally:
            self.lifted, self.silent = saved

    def unlearn(self, st):
        """Forget what was learnt about the values the assumptions are about."""
        dead = [t for t in st.facts if self.lift(t)]
        if dead:
            st = State(st.mem, dict(st.facts), st.must)
            for t in dead:
                del st.facts[t]
        return st

    def settle(self, fr, h, st, inside):
        """Values made by the turn, as values carried by the turns after it."""
        memo = {}

        def made(x):
            r = memo.get(x)
            if r is None:
                y = x
                while isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple):
                    y = y[0]
                r = False
                while isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], int):
                    if y[0] == fr:
                        r = inside(y[1])
                        break
                    y = self.frame_keys[y[0]][1] if y[0] in self.frame_keys else None
                    while isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple):
                        y = y[0]
                memo[x] = r
            return r

        def fresh(t):
            return any(made(x) for x in t.sites)

        def go(k, t):
            if t.op in ('agg', 'tuple', 'single'):
                return mk(t.op, *[phi(go((k, i - 3 if t.op == 'agg' else i), x) for x in unphi(a)) if isinstance(a, T) else a
                                  for i, a in enumerate(t.args)])
            if t.op in ('mref', 'closure', 'lv', 'int', 'bool', 'str') or not fresh(t):
                return t
            return self.lv(fr, h, k, {t})
        mem = {}
        for k, v in st.mem.items():
            if any(fresh(t) for t in v):
                v = fs(go(k, t) for t in v)
            mem[k] = v
        return State(mem, st.facts, st.must)

    def towards(self, fr):
        """The block of a body from which the turn singled out is reached, when
        the loop is not one of that body."""
        p = self.fpath(fr)
        for x in self.target:
            s = None
            if len(x[0]) > len(p) and x[0][:len(p)] == p:
                s = x[0][len(p)][0]
            elif x[0] == p and isinstance(x[1], str):
                s = x[1]
            if s is not None:
                s = ast.literal_eval(s)
                while isinstance(s, tuple) and s:
                    s = s[0]
                if isinstance(s, int):
                    return s
        return None

    def invariant(self, fn, fr, st0, stack, depth):
        """What holds at the start of every block."""
        seeds = self.loops(fn, fr, st0, stack, depth)
        return self.pass_body(fn, fr, st0, stack, depth, seeds)[1]

    def loops(self, fn, fr, st0, stack, depth, start=None):
        """What holds at the heads of the loops of a body.  The loops that
        follow others are met once what holds after those is known, so that
        nothing of the way to their fixpoint remains."""
        def mine():
            return [t for t in self.lvdefs if any(x[:2] == ('lv', fr) for x in t.sites) and self.lvphase.get(t, '') == self.phase]
        kept = {t: set(self.lvdefs[t]) for t in mine()} if start is not None else {}
        seeds = {}
        ls = stages(fn)
        for i, now in enumerate(ls):
            later = {h for l in ls[i + 1:] for h in l}
            ins = self.pass_body(fn, fr, st0, stack, depth, dict(seeds), start, later, [])[1]
            for k, v in ins.items():
                if k[0] in now:
                    seeds[k] = v
            for t in mine():
                self.lvdefs[t] = set(kept.get(t, ()))
        return seeds

    def onwards(self, fn, fr, stack, depth, ins, bb, stop=(), after=None):
        """The executions that get to a block, from there."""
        start = [(bb, v) for k, v in ins.items() if k[0] == bb]
        return self.pass_body(fn, fr, None, stack, depth, {}, start, stop, after)[0]

    def turn_body(self, fn, fr, st0, stack, depth, h):
        """The loop of head `h` makes any number of turns, then one turn under
        the assumptions, then any number of turns: the results of that turn and
        of what follows it.  Only that turn is observed."""
        with self.muted():
            ins = self.invariant(fn, fr, st0, stack, depth)
        start = [(h, self.unlearn(v)) for k, v in ins.items() if k[0] == h]
        stop = {x for x in fn.heads if h in fn.loops[x]}
        after = []
        nb = h
        while fn.mir['blocks'][nb]['t']['k'] == 'goto':
            nb = succs(fn.mir['blocks'][nb]['t'])[0]
        turning, self.turning = self.turning, (fr, nb, h, after) if self.whole and self.fpath(fr) == self.target[-1][0] and h == self.target[-1][1] else None
        bb = self.towards(fr)
        with self.turn():
            if bb is None:
                rets = self.pass_body(fn, fr, None, stack, depth, {}, start, stop, after)[0]
            else:
                with self.muted(False):
                    ins = self.pass_body(fn, fr, None, stack, depth, {}, start, stop, [])[1]
                rets = self.onwards(fn, fr, stack, depth, ins, bb, stop, after)
        self.turning = turning
        if self.whole:
            rets = []
        if after:
            self.phase += '+'
            with self.muted():
                after = [(b, self.settle(fr, h, self.unlearn(s), lambda b: b in fn.loops[h])) for b, s in after]
                seeds = self.loops(fn, fr, None, stack, depth, after)
            with self.afterwards():
                rets = rets + self.pass_body(fn, fr, None, stack, depth, seeds, after)[0]
            self.phase = self.phase[:-1]
        return rets

    def pass_body(self, fn, fr, st0, stack, depth, ins, start=None, stop=(), after=None):
        mir = fn.mir
        blocks = mir['blocks']
        live, rpo, mutb = liveness(fn)
        heads = fn.heads
        import heapq
        heap = []
        inq = set()
        cnt = [0]

        def push(bb, st):
            # drop dead locals of this frame
            lv = live[bb]
            mem = st.mem
            dead = [k for k in mem if k[0] == fr and k[1] not in lv and k[1] not in mutb]
            if dead:
                st = State(dict(mem), st.facts, st.must)
                for k in dead:
                    del st.mem[k]
            w = None
            if bb in stop and (started[0] or start is None):
                after.append((bb, st))
                return
            if bb in heads:
                hs = ('lv', fr, bb)
                if st.facts and any(hs in k.sites for k in st.facts):
                    st = State(st.mem, dict(st.facts), st.must)
                    self.kill(st, hs)
                w = lambda k, o, v: self.widen(fr, bb, k, o, v)
                num = [k for k, v in st.mem.items() if k[0] == fr and k[1] in fn.counters[bb] and v and counting(v, (fr, bb, k))]
                if num:
                    st = State(dict(st.mem), st.facts, st.must)
                    for k in num:
                        st.mem[k] = fs([self.lv(fr, bb, k, st.mem[k])])
            key = []
            for k, v in st.mem.items():
                if k[0] == fr or k[0] == 'P' or isinstance(k[0], int):
                    g = tagof(v, st.facts)
                    if g is not None:
                        key.append((k, g))
            key = (bb, fs(key))
            old = ins.get(key)
            if old is None:
                if sum(1 for kk in ins if kk[0] == bb) > 48:
                    key = (bb, 'merged')
                    old = ins.get(key)
            if old is None:
                ins[key] = st
            else:
                s, ch = join(old, st, w)
                if not ch:
                    return
                ins[key] = s
            if key not in inq:
                inq.add(key)
                cnt[0] += 1
                heapq.heappush(heap, (rpo[bb], cnt[0], key))

        pre = list(ins)
        started = [False]
        if start is None:
            push(0, st0)
        else:
            for b, s in start:
                push(b, s)
        started[0] = True
        for key in pre:
            if key not in inq:
                inq.add(key)
                cnt[0] += 1
                heapq.heappush(heap, (rpo[key[0]], cnt[0], key))
        rets = {}
        while heap:
            _, _, key = heapq.heappop(heap)
            if key not in inq:
                continue
            inq.discard(key)
            self.steps += 1
            if self.steps > self.budget:
                raise Budget(fn.path)
            bb = key[0]
            self.active[-1][1] = bb
            st = ins[key].copy()
            b = blocks[bb]
            dsrc = {}
            for s in b['st']:
                if s['k'] == 'setdiscr':
                    continue
                v = self.rvalue(s, fn, fr, st)
                if s['k'] == 'discr' and len(s['d']) == 1:
                    dsrc[s['d'][0]] = s['p']
                self.write(fr, s['d'], v, st)
            t = b['t']
            k = t['k']
            if k == 'goto' or k == 'drop':
                push(t['t'], st)
            elif k == 'return':
                v = st.mem.get((fr, 0), fs([UNIT]))
                rk = [('ret', tagof(v, st.facts))]
                for kk, vv in st.mem.items():
                    if kk[0] != fr:
                        g = tagof(vv, st.facts)
                        if g is not None:
                            rk.append((kk, g))
                rk = (fs(rk), st.must if depth == 0 else None)
                if rk in rets:
                    ov, os = rets[rk]
                    s2, _ = join(os, st)
                    rets[rk] = (ov | v, s2)
                else:
                    rets[rk] = (v, st)
            elif k == 'switch':
                self.switch(t, fn, fr, st, push, dsrc, bb)
            elif k == 'assert':
                c = self.val(self.operand(t['o'], fn, fr, st), st)
                self.asserts(t, fn, fr, st, c)
                push(t['t'], st)
            elif k == 'call':
                for v, s2 in self.call(t, fn, fr, st, bb, stack):
                    if t['t'] is None:
                        continue
                    if s2 is st:
                        s2 = st.copy()
                    self.write(fr, t['d'], v, s2)
                    push(t['t'], s2)
            # unreachable, cleanup, tailcall: nothing
        return list(rets.values()), ins

    def lv(self, fr, bb, k, vals):
        if self.phase:
            k = (self.phase, k)
        t = mk('lv', repr((fr, bb, k)), site=('lv', fr, bb))
        if self.phase:
            self.lvphase[t] = self.phase
        d = self.lvdefs.setdefault(t, set())
        d |= {x for x in vals if x is not t}
        return t

    def widen(self, fr, bb, k, o, v):
        u = o | v
        if any(x.op in ('mref', 'closure') or (x.op in ('agg', 'tuple') and any(True for _ in mrefs_in(x))) for x in u):
            return u
        if all(x.op == 'agg' for x in u):
            x0 = next(iter(u))
            if all(x.args[:3] == x0.args[:3] for x in u):
                kids = []
                for i in range(3, len(x0.args)):
                    cs = fs(y for x in u for y in unphi(x.args[i]))
                    kids.append(phi(cs if len(cs) == 1 else self.widen(fr, bb, (k, i - 3), cs, fs())))
                return fs([mk('agg', *x0.args[:3], *kids)])
        if all(x.op == 'tuple' for x in u):
            x0 = next(iter(u))
            if all(len(x.args) == len(x0.args) for x in u):
                kids = []
                for i in range(len(x0.args)):
                    cs = fs(y for x in u for y in unphi(x.args[i]))
                    kids.append(phi(cs if len(cs) == 1 else self.widen(fr, bb, (k, i), cs, fs())))
                return fs([mk('tuple', *kids)])
        if all(x.op in ('bool', 'str') for x in u) and len(u) <= 4:
            return u
        if any(x.op == 'upd' for x in u):
            # one record whose fields change: field by field
            roots, fields = set(), []
            for x in u:
                while x.op == 'upd':
                    if x.args[1] not in fields:
                        fields.append(x.args[1])
                    x = x.args[0]
                roots.add(x)
            if len(roots) == 1 and len(fields) <= 8 and next(iter(roots)).op != 'lv':
                r = roots.pop()
                for f in sorted(fields):
                    cs = fs(y for x in u for y in self.fields(x, None, f, None))
                    r = mk('upd', r, f, phi(cs if len(cs) == 1 else self.widen(fr, bb, (k, f), cs, fs())))
                return fs([r])
        return fs([self.lv(fr, bb, k, u)])

    def asserts(self, t, fn, fr, st, c):
        if t['msg'].startswith('overflow'):
            kind = t['msg']
        else:
            kind = t['msg']
        self.panics.setdefault(('assert', kind, fn.h, t['s']), []).append((None, c))

    def switch(self, t, fn, fr, st, push, dsrc, bb):
        v = self.val(self.operand(t['o'], fn, fr, st), st)
        targets = [(int(a), b) for a, b in t['ts']]
        other = t['else']
        src = dsrc.get(t['o']['p'][0]) if 'p' in t['o'] and len(t['o']['p']) == 1 else None
        isbool = t['ty'] == 'bool'
        # group terms by outcome
        edges = {}   # target value or 'else' -> list of (term, learn)

        def add(e, term, learn):
            edges.setdefault(e, []).append((term, learn))

        tv = {a for a, _ in targets}
        for x in v:
            if isbool:
                b = self.truth(x, st)
                if b is None:
                    add(0 if 0 in tv else 'else', x, ('b', x, False))
                    add(1 if 1 in tv else 'else', x, ('b', x, True))
                else:
                    n = 1 if b else 0
                    add(n if n in tv else 'else', x, None)
                continue
            if x.op == 'discr':
                y, vars_ = x.args
                var = self.variant(y, st)
                exc = self.excluded(y, st)
                for n, name in vars_:
                    if var is not None and name != var:
                        continue
                    if name in exc:
                        continue
                    add(n if n in tv else 'else', x, ('v', y, name) if var is None else None)
                if not vars_:
                    for n in tv:
                        add(n, x, None)
                    add('else', x, None)
                continue
            if x.op == 'int' or x.op == 'char':
                n = x.args[0] if x.op == 'int' else ord(x.args[0])
                add(n if n in tv else 'else', x, None)
                continue
            dec = self.assume_cb(x, st) if self.assume_cb else None
            if dec is None and x in st.facts and st.facts[x].__class__ is not tuple:
                dec = st.facts[x]
            if isinstance(dec, int) and not isinstance(dec, bool):
                add(dec if dec in tv else 'else', x, None)
                continue
            for n in tv:
                if n in self.excluded(x, st):
                    continue
                add(n, x, ('i', x, n))
            add('else', x, ('x', x, tuple(sorted(tv))))
        sk = (fn.h, bb)
        self.switches.setdefault(sk, set()).update(v)
        tgt = dict(targets)
        tgt['else'] = other
        for e, lst in edges.items():
            s2 = st.copy()
            learns = [l for _, l in lst]
            terms = fs(x for x, _ in lst)
            if len(terms) == 1:
                ls = [l for l in learns if l is not None]
                if len(ls) == 1 and len(learns) == 1:
                    l = ls[0]
                    if l[0] == 'b':
                        self.learn_truth(l[1], l[2], s2)
                    elif l[0] == 'v':
                        self.learn_variant(l[1], l[2], s2)
                    elif l[0] == 'i':
                        s2.facts[l[1]] = l[2]
                    elif l[0] == 'x':
                        s2.facts[l[1]] = l[2]
                elif ls and ls[0][0] == 'v':
                    # several variants lead to `else`: remember the excluded ones
                    y = ls[0][1]
                    if y.op not in ('agg', 'try'):
                        inc = {l[2] for l in ls}
                        allv = {name for _, name in next(iter(terms)).args[1]}
                        s2.facts[y] = tuple(sorted(allv - inc))
            if src is not None and terms != v:
                keep = fs(x.args[0] for x in terms if x.op == 'discr')
                ls = self.locs(fr, src, s2)
                if len(ls) == 1:
                    cur = self.loc_value(ls[0], s2)
                    nv = cur & keep
                    if nv and nv != cur:
                        self.store(ls[0], nv, s2)
            push(tgt[e], s2)

    # ---- calls ------------------------------------------------------------
    def call(self, t, fn, fr, st, bb, stack):
        self.calls += 1
        f = t['f']
        args = [self.operand(a, fn, fr, st) for a in t['a']]
        site = (fr, bb)
        if 'fn' in f:
            ref = f['fn']
            return self.call_ref(ref, args, st, fr, site, stack, fn, t)
        fv = self.val(self.operand(f, fn, fr, st), st)
        return self.call_value(fv, args, st, fr, site, stack, fn, t)

    def call_value(self, fv, args, st, fr, site, stack, fn, t):
        """Call of a function value (closure, fn item, unknown)."""
        out = []
        fv = self.val(fv, st)
        for x in fv:
            if x.op == 'closure':
                c = self.prog.by_hash.get(x.args[0])
                if c is not None and len(stack) < self.maxdepth and c.h not in stack:
                    # env by value or reference: value semantics either way, but a
                    # by-mutable-reference environment lives in its own cell
                    envloc = ((fr, ('env', site, c.h)), ())
                    s2 = st.copy()
                    s2.mem[envloc[0]] = fs([x])
                    ety = c.mir['locals'][1]['ty']
                    env = fs([mk('mref', envloc)]) if ety.startswith('&mut') or ety.startswith("&'") and 'mut ' in ety[:12] else fs([x])
                    for v, s3 in self.run_fn(c, [env] + list(args), s2, fr, (site, c.h), stack):
                        v = fs(self.deep(q, s3) if q.op == 'mref' and q.args[0][0] == envloc[0] else q for q in v)
                        s3.mem.pop(envloc[0], None)
                        out.append((v, s3))
                    continue
            elif x.op == 'fnitem':
                out += self.call_ref(x.args[3].ref, list(args), st.copy(), fr, (site, x.args[1]), stack, fn, t)
                continue
            elif x.op == 'phi':
                out += self.call_value(unphi(x), args, st, fr, site, stack, fn, t)
                continue
            r = mk('call', 'fnptr', self.one(fs([x]), st), *[self.one(a, st) for a in args], site=site)
            out.append((fs([r]), st.copy()))
        return out

    def event(self, name, args, st, site, fn, t, ref, inlined, stack=()):
        if not self.observe:
            return
        e = Event()
        e.name = name
        e.args = tuple(fs(self.deep(x, st) for x in a) for a in args)
        e.raw = tuple(args)
        e.site = site
        e.span = t.get('s', '') if t else ''
        e.fn = fn.path if fn else ''
        e.ref = ref
        e.inlined = inlined
        e.stack = stack
        w = not self.watch or name in self.watch
        e.facts = dict(st.facts) if w else None
        e.must = st.must
        k = (site, name)
        l = self.events.setdefault(k, {})
        kk = (e.args, st.must, fs(e.facts.items()) if w else None)
        if len(l) < 400:
            l[kk] = e

    def all_events(self, name=None):
        for (s, n), l in self.events.items():
            if name is None or n == name or (isinstance(name, (set, tuple, list, frozenset)) and n in name):
                for e in l.values():
                    yield e

    def call_ref(self, ref, args, st, fr, site, stack, fn, t):
        name = canon(ref)
        if 'ctor' in ref:
            return [(fs([agg(ref['ctor'][0], ref['ctor'][1], tuple(str(i) for i in range(len(args))), [phi(a) for a in args])]), st)]
        target = self.prog.lookup(ref)
        m = None
        if name in self.opaque or (self.opaque_fn and target is not None and self.opaque_fn(target)):
            return self.opaque_call(name, ref, args, st, fr, site, stack, fn, t)
        if target is not None and target.h in stack:
            return self.opaque_call('@rec', ref, args, st, fr, site, stack, fn, t, target)
        if t.get('t', 0) is None and (target is None):
            self.panic(name, ref, args, st, site, fn, t, stack)
            return []
        # models of std and of transparent operations come first for derived impls
        if target is not None and target.derived and name == 'Default::default' and not args and '>::' in str(target.self_ty):
            return self.run_fn(target, args, st, fr, site, stack)       # of a type local to a function
        if target is None or target.derived or target.kind not in ('fn', 'assoc'):
            m = self.models.find(name, ref)
            if m is not None:
                if name in self.watch:
                    self.event(name, args, st, site, fn, t, ref, False, stack)
                r = m(self, Ctx(name, ref, args, st, fr, site, stack, fn, t))
                if r is not None:
                    return r
        if target is not None and not target.derived and target.kind in ('fn', 'assoc') and len(stack) < self.maxdepth:
            if len(args) == target.mir['argc']:
                self.event(name, args, st, site, fn, t, ref, True, stack)
                self.must(name, args, st)
                return self.run_fn(target, args, st, fr, site, stack)
        return self.opaque_call(name, ref, args, st, fr, site, stack, fn, t)

    def must(self, name, args, st):
        if name in self.must_names:
            e = mk('ev', name, *[self.one(a, st) for a in args])
            st.must = st.must | {e}

    def panic(self, name, ref, args, st, site, fn, t, stack):
        self.panics.setdefault(('panic', name, fn.h if fn else '', t.get('s', '')), []).append((tuple(args), dict(st.facts)))
        self.event('@panic', args, st, site, fn, t, ref, False, stack)

    def opaque_call(self, name, ref, args, st, fr, site, stack, fn, t, target=None):
        st = st.copy()
        self.kill(st, site)
        self.event(name, args, st, site, fn, t, ref, False, stack)
        self.must(name, args, st)
        if t.get('t', 0) is None:
            self.panic(name, ref, args, st, site, fn, t, stack)
            return []
        vals = [self.one(a, st) for a in args]
        # closures handed to an unknown callee may be run: analyse them once
        states = [st]
        for i, a in enumerate(args):
            for x in a:
                for c in closures_in(x, self, st):
                    c2 = self.prog.by_hash.get(c.args[0])
                    if c2 is None or c2.h in stack or len(stack) >= self.maxdepth:
                        continue
                    n = c2.mir['argc'] - 1
                    cargs = [fs([mk('cbarg', name, j, site=site)]) for j in range(n)]
                    for _, s3 in self.call_value(fs([c]), cargs, states[-1], fr, (site, 'cb'), stack, fn, t):
                        s, _ = join(states[-1], s3)
                        states[-1] = s
        st = states[-1].copy()
        # effects through mutable references
        for i, a in enumerate(args):
            for x in a:
                for m in mrefs_in(x):
                    loc = m.args[0]
                    if loc[0][0] == 'P' and not self.track_cells:
                        continue
                    inner = [y for q in self.loc_value(loc, st) for y in mrefs_in(q)]
                    if inner and all(y.args[0] != loc for y in inner):
                        # a structure of mutable references: the effect is on what they point to
                        for j, y in enumerate(inner):
                            l2 = y.args[0]
                            if l2[0][0] == 'P' and not self.track_cells:
                                continue
                            o2 = phi(self.deep(q, st) for q in self.loc_value(l2, st))
                            self.store(l2, fs([mk('post', name, '%d/%d' % (i, j), o2, *[v for k, v in enumerate(vals) if k != i], site=site)]),
                                       st, strong=len(a) == 1)
                        continue
                    old = phi(self.deep(q, st) for q in self.loc_value(loc, st))
                    nv = mk('post', name, i, old, *[v for j, v in enumerate(vals) if j != i], site=site)
                    single = len(a) == 1
                    self.store(loc, fs([nv]), st, strong=single)
        r = mk('call', name, *vals, site=None if name in PURE else site)
        return [(fs([r]), st)]


PURE = {'Layout::input_count', 'len', 'Vec::len', 'slice::len', 'LayoutRegistry::get', 'BTreeMap::get', 'HashMap::get',
        'Pattern::apply', 'Pattern::into_resource', 'Substitution::get', 'QuadsExt::with_default_graph', 'Iri::as_str',
        'TraversableDataset::quads', 'Substitution::from_inputs'}


class Ctx:
    __slots__ = ('name', 'ref', 'args', 'st', 'fr', 'site', 'stack', 'fn', 't')

    def __init__(self, name, ref, args, st, fr, site, stack, fn, t):
        self.name = name
        self.ref = ref
        self.args = args
        self.st = st
        self.fr = fr
        self.site = site
        self.stack = stack
        self.fn = fn
        self.t = t


class FrozenRef:
    """Hashable wrapper around a callee reference, one per path/hash."""
    _t = {}

    @classmethod
    def of(cls, r):
        k = (r['path'], r.get('rh') or r['h'], tuple(r.get('args', ())))
        o = cls._t.get(k)
        if o is None:
            o = cls()
            o.ref = r
            cls._t[k] = o
        return o

    def __repr__(self):
        return self.ref['path']


class PromotedFn:
    def __init__(self, fn, i, body):
        self.h = fn.h + '#%d' % i
        self.mir = body
        self.path = fn.path
        self.promoted = fn.promoted
        self._live = None
        self._rpo = None
        self._mutb = None
        self.heads = ()
        self.kind = 'promoted'


def closures_in(x, eng, st, d=0):
    if x.op == 'closure':
        yield x
    elif x.op == 'mref' and d < 3:
        for y in eng.loc_value(x.args[0], st):
            yield from closures_in(y, eng, st, d + 1)
    elif x.op in ('agg', 'tuple', 'phi', 'array', 'single', 'mapit', 'filterit') and d < 4:
        for a in x.args:
            if isinstance(a, T):
                yield from closures_in(a, eng, st, d + 1)


def mrefs_in(x, d=0):
    if x.op == 'mref':
        yield x
    elif x.op in ('agg', 'tuple', 'phi', 'closure', 'array', 'single') and d < 4:
        for a in x.args:
            if isinstance(a, T):
                yield from mrefs_in(a, d + 1)


def succs(t):
    k = t['k']
    if k in ('goto', 'drop', 'assert'):
        return [t['t']]
    if k == 'switch':
        return [b for _, b in t['ts']] + [t['else']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    return []


def _use_place(p, s, dest=False):
    if not dest or len(p) > 1:
        s.add(p[0])
    if len(p) > 1:
        for e in p[1]:
            if isinstance(e, dict) and 'ix' in e:
                s.add(e['ix'])


def _use_op(o, s):
    if 'p' in o:
        _use_place(o['p'], s)


def stmt_uses(st):
    u = set()
    k = st['k']
    for f in ('o', 'a', 'b'):
        if f in st and isinstance(st[f], dict):
            _use_op(st[f], u)
    if 'p' in st:
        _use_place(st['p'], u)
    for o in st.get('ops', ()):
        _use_op(o, u)
    return u


def stages(fn):
    """The heads of the loops of a body, those of the loops that only others
    lead to after those."""
    if not fn.heads:
        return []
    liveness(fn)
    if getattr(fn, '_stages', None) is None:
        tops = [h for h in fn.heads if not any(h in fn.loops[g] for g in fn.heads if g != h)] or list(fn.heads)
        reach = {}
        for h in tops:
            seen, todo = {h}, [h]
            while todo:
                for x in succs(fn.mir['blocks'][todo.pop()]['t']):
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            reach[h] = seen
        lvl = {}
        for h in sorted(tops, key=lambda h: fn._rpo[h]):
            lvl[h] = 1 + max([lvl.get(g, 0) for g in tops if g != h and h in reach[g] and g not in reach[h]], default=0)
        out = [[] for _ in range(max(lvl.values()))]
        for h in sorted(fn.heads):
            own = [lvl[g] for g in tops if g == h or h in fn.loops[g]]
            out[(max(own) if own else 1) - 1].append(h)
        fn._stages = out
    return fn._stages


def liveness(fn):
    if fn._live is not None:
        return fn._live, fn._rpo, fn._mutb
    blocks = fn.mir['blocks']
    n = len(blocks)
    use = [None] * n
    dfn = [None] * n
    mutb = set()
    for i, b in enumerate(blocks):
        u, d = set(), set()
        for s in b['st']:
            x = stmt_uses(s)
            if len(s['d']) > 1:
                _use_place(s['d'], x, True)
            u |= x - d
            if len(s['d']) == 1:
                d.add(s['d'][0])
            if s['k'] in ('ref', 'rawptr') and (s.get('mut') or s['k'] == 'rawptr'):
                p = s['p']
                if len(p) == 1 or '*' not in p[1]:
                    mutb.add(p[0])
        t = b['t']
        x = set()
        if t['k'] == 'call':
            if 'p' in t['f']:
                _use_op(t['f'], x)
            for a in t['a']:
                _use_op(a, x)
            if len(t['d']) > 1:
                _use_place(t['d'], x, True)
        elif t['k'] in ('switch', 'assert'):
            _use_op(t['o'], x)
        elif t['k'] == 'return':
            x.add(0)
        u |= x - d
        if t['k'] == 'call' and len(t['d']) == 1:
            d.add(t['d'][0])
        use[i], dfn[i] = u, d
    preds = [[] for _ in range(n)]
    for i, b in enumerate(blocks):
        for s in succs(b['t']):
            preds[s].append(i)
    live = [set() for _ in range(n)]
    work = list(range(n))
    while work:
        i = work.pop()
        o = set()
        for s in succs(blocks[i]['t']):
            o |= live[s]
        nl = use[i] | (o - dfn[i])
        if nl != live[i]:
            live[i] = nl
            work.extend(preds[i])
    # reverse post-order
    rpo = {}
    seen = set()
    order = []
    stack = [(0, iter(succs(blocks[0]['t'])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(blocks[s]['t']))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    for i, b in enumerate(order):
        rpo[b] = i
    fn.heads = {s for b in order for s in succs(blocks[b]['t']) if rpo[s] <= rpo[b]}
    # numbers changed by a loop: abstracted when the loop is entered
    fn.counters = {}
    fn.loops = {}
    for h in fn.heads:
        fw, bw = set(), set()
        for got, start, nxt in ((fw, [h], lambda x: succs(blocks[x]['t'])), (bw, [h], lambda x: preds[x])):
            work = list(start)
            while work:
                x = work.pop()
                if x in got or rpo.get(x, -1) < rpo[h]:
                    continue
                got.add(x)
                work.extend(nxt(x))
        fn.loops[h] = fw & bw
        fn.counters[h] = {s['d'][0] for x in fw & bw for s in blocks[x]['st']}
    # a `call` destination is live in the successor even when only borrowed later
    fn._live, fn._rpo, fn._mutb = live, rpo, mutb
    return live, rpo, mutb


def root_args(fn):
    """Initial arguments of an analysis root: opaque parameters; a mutable
    reference parameter points to a cell of its own."""
    args = []
    cells = {}
    for i in range(1, fn.mir['argc'] + 1):
        l = fn.mir['locals'][i]
        nm = l.get('n') or '_%d' % i
        p = mk('param', i, nm)
        ty = l['ty']
        if ty.startswith('&') and (ty.startswith('&mut ') or (" mut " in ty.split('&', 1)[1][:20] and ty[1] == "'")):
            cells[('P', i)] = fs([p])
            args.append(fs([mk('mref', (('P', i), ()))]))
        else:
            args.append(fs([p]))
    return args, cells


def run_root(eng, fn, args=None, init=None):
    a, cells = root_args(fn)
    if args:
        for i, v in args.items():
            a[i] = v
    st = State(dict(cells))
    if init:
        st.mem.update(init)
    res = eng.run_fn(fn, a, st, 0, 'root', ())
    return res
