"""Models of the standard library used by the provenance dataflow: which value
a call returns, in terms of its arguments, and which closure it runs on what."""
from terms import *

fs = frozenset
M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def find(name, ref):
    f = M.get(name)
    if f is not None:
        return f
    n = name.rsplit('::', 1)[-1]
    tr = name.split('::')[0]
    if n in IDENT_ANY and tr not in ('Value',):
        return ident
    return None


def a0(e, c, i=0):
    return e.val(c.args[i], c.st)


def one(c, v):
    return [(v, c.st)]


def dest_ty(c):
    d = c.t.get('d')
    if not d:
        return ''
    if len(d) == 1 and isinstance(d[0], int):
        return c.fn.mir['locals'][d[0]]['ty']
    return ''


# ---- transparent operations ------------------------------------------------
IDENT_ANY = {'clone', 'to_owned', 'cloned', 'copied', 'as_ref', 'borrow', 'deref', 'as_deref', 'into_boxed', 'into_inner',
             'by_ref', 'as_slice', 'into_boxed_slice', 'into_vec', 'to_vec', 'as_deref_mut', 'inspect', 'must_use', 'into_iter', 'iter',
             'as_str', 'as_iri', 'into_string', 'as_mut_slice', 'into_owned'}


def ident(e, c):
    v = c.args[0] if c.args else fs([UNKNOWN])
    return one(c, v if c.name in KEEPREF else e.val(v, c.st))


KEEPREF = {'Iterator::by_ref', 'IntoIterator::into_iter', 'Option::as_deref_mut'}

for n in ('Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'Borrow::borrow', 'AsRef::as_ref', 'Box::new', 'Rc::new', 'Arc::new',
          'Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'Result::as_ref', 'Iterator::cloned',
          'Iterator::copied', 'slice::iter', 'Vec::iter', 'BTreeMap::iter', 'HashMap::iter', 'BTreeSet::iter', 'HashSet::iter',
          'IntoIterator::into_iter', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse', 'Option::iter', 'Option::into_iter',
          'Vec::as_slice', 'hint::must_use', 'String::as_str', 'slice::into_vec', 'slice::to_vec',
          'Iterator::inspect', 'Box::from', 'Vec::into_iter', 'IriBuf::as_iri', 'Box::pin', 'Vec::into_boxed_slice',
          'convert::identity', 'mem::drop_', 'Result::copied', 'Result::cloned', 'RangeSet::iter', 'Ratio::from_integer_'):
    M[n] = ident


@model('boxed::box_assume_init_into_vec_unsafe')
def assume_init(e, c):
    out = set()
    for t in e.val(c.args[0], c.st):
        while t.op == 'upd' and t.args[1] in ('value', 'pointer', '0'):
            t = t.args[2]
        out.add(t)
    return one(c, fs(out))


@model('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'Vec::as_mut_slice', 'slice::iter_mut', 'Vec::iter_mut',
       'BTreeMap::iter_mut', 'HashMap::iter_mut', 'Iterator::step_by_')
def keepref(e, c):
    return one(c, c.args[0])


@model('Into::into', 'From::from', 'TryInto::try_into_')
def into(e, c):
    src = dst = None
    a = c.ref.get('args') or []
    if len(a) == 2:
        src, dst = (a[0], a[1]) if c.name.startswith('Into') else (a[1], a[0])
        f = from_impl(e, src, dst)
        if f is not None and e.opaque_fn and e.opaque_fn(f):
            return e.opaque_call('From::from', c.ref, c.args, c.st, c.fr, c.site, c.stack, c.fn, c.t, f)
        if f is not None and f.h not in c.stack and len(c.stack) < e.maxdepth:
            return e.run_fn(f, [c.args[0]], c.st, c.fr, c.site, c.stack)
    return one(c, e.val(c.args[0], c.st))


def from_impl(e, src, dst):
    """The `From<src>` of `dst`, when the repository defines it."""
    k = ('from', src, dst)
    cache = e.prog.__dict__.setdefault('_from', {})
    if k not in cache:
        f = None
        if src != dst:
            for x in e.prog.fns:
                if x.name == 'from' and x.trait and x.trait.endswith('convert::From') and x.kind == 'assoc':
                    if x.trait_ref and same_ty(x.self_ty, dst) and from_arg_matches(x.trait_ref, src):
                        if f is None or from_arg(x.trait_ref) == src:
                            f = x
        cache[k] = f
    return cache[k]


def type_args(t):
    i = (t or '').find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rindex('>')]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def _head(t):
    t = (t or '').strip()
    while t.startswith('&'):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[-1]
    i = t.find('<')
    return (t if i < 0 else t[:i])


def same_ty(a, b):
    return _head(a) == _head(b) and _head(a) not in ('T', 'R', 'Self', '')


def from_arg_matches(tr, src):
    x = from_arg(tr)
    return x is not None and same_ty(x, src)


def from_arg(tr):
    i = tr.find('From<')
    if i < 0:
        return None
    inner = tr[i + 5:]
    d = 0
    out = ''
    for ch in inner:
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                break
            d -= 1
        out += ch
    return out


# ---- forks on variants ------------------------------------------------------
def fork(e, v, st, pos, neg):
    """Partition by variant: yields (variant, terms, state)."""
    known = {}
    for t in v:
        k = e.variant(t, st)
        if k is not None:
            known.setdefault(k, set()).add(t)
        else:
            ex = e.excluded(t, st)
            for n in (pos, neg):
                if n in ex:
                    continue
                known.setdefault(n, set()).add(t)
    out = []
    for n in (pos, neg):
        if n in known:
            s2 = st.copy()
            l = known[n]
            if len(v) == 1:
                e.learn_variant(next(iter(l)), n, s2)
            out.append((n, fs(l), s2))
    return out


def pay(e, ts_, var, st):
    r = fs()
    for t in ts_:
        r |= e.fields(t, var, '0', st)
    return r


def wrap(var, v):
    if var == 'Some':
        return fs([some(phi(v))])
    if var == 'Ok':
        return fs([ok(phi(v))])
    if var == 'Err':
        return fs([err(phi(v))])
    raise KeyError(var)


def callv(e, c, f, args, st, tag):
    return e.call_value(f, args, st, c.fr, (c.site, tag), c.stack, c.fn, c.t)


def kind(c):
    return ('Some', 'None') if c.name.startswith('Option') else ('Ok', 'Err')


def okneg(c, ts_, e, st):
    """The other variant, unchanged."""
    if c.name.startswith('Option'):
        return fs([NONE])
    return wrap('Err', pay(e, ts_, 'Err', st))


@model('Option::map', 'Result::map')
def m_map(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == P:
            for v, s2 in callv(e, c, c.args[1], [pay(e, l, P, s)], s, 'map'):
                out.append((wrap(P, v), s2))
        else:
            out.append((okneg(c, l, e, s), s))
    return out


@model('Option::and_then', 'Result::and_then')
def m_and_then(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == P:
            out += callv(e, c, c.args[1], [pay(e, l, P, s)], s, 'and_then')
        else:
            out.append((okneg(c, l, e, s), s))
    return out


@model('Result::map_err')
def m_map_err(e, c):
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Ok', 'Err'):
        if n == 'Ok':
            out.append((wrap('Ok', pay(e, l, 'Ok', s)), s))
        else:
            for v, s2 in callv(e, c, c.args[1], [pay(e, l, 'Err', s)], s, 'map_err'):
                out.append((wrap('Err', v), s2))
    return out


@model('Option::or_else', 'Result::or_else', 'Option::or', 'Result::or')
def m_or_else(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == P:
            out.append((wrap(P, pay(e, l, P, s)), s))
        elif c.name.endswith('or_else'):
            out += callv(e, c, c.args[1], [] if P == 'Some' else [pay(e, l, 'Err', s)], s, 'or_else')
        else:
            out.append((e.val(c.args[1], s), s))
    return out


@model('Option::xor')
def m_xor(e, c):
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
        for n2, l2, s2 in fork(e, a0(e, c, 1), s, 'Some', 'None'):
            if n == n2:
                out.append((fs([NONE]), s2))
            else:
                out.append((l if n == 'Some' else l2, s2))
    return out


@model('Option::and', 'Result::and')
def m_and(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        out.append((e.val(c.args[1], s), s) if n == P else (okneg(c, l, e, s), s))
    return out


@model('Option::zip')
def m_zip(e, c):
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
        if n == 'None':
            out.append((fs([NONE]), s))
            continue
        for n2, l2, s2 in fork(e, a0(e, c, 1), s, 'Some', 'None'):
            out.append((fs([NONE]), s2) if n2 == 'None' else
                       (fs([some(mk('tuple', phi(pay(e, l, 'Some', s2)), phi(pay(e, l2, 'Some', s2))))]), s2))
    return out


@model('Option::filter')
def m_filter(e, c):
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
        if n == 'None':
            out.append((fs([NONE]), s))
            continue
        p = pay(e, l, 'Some', s)
        for b, s2 in booleans(e, callv(e, c, c.args[1], [p], s, 'filter')):
            out.append((wrap('Some', p) if b else fs([NONE]), s2))
    return out


def booleans(e, res):
    """Split call results on their truth value."""
    out = []
    for v, s in res:
        seen = {}
        for t in v:
            b = e.truth(t, s)
            if b is None:
                seen.setdefault(True, []).append(t)
                seen.setdefault(False, []).append(t)
            else:
                seen.setdefault(b, []).append(t)
        for b, l in seen.items():
            s2 = s.copy()
            if len(v) == 1:
                e.learn_truth(l[0], b, s2)
            out.append((b, s2))
    return out


@model('Option::ok_or', 'Option::ok_or_else')
def m_ok_or(e, c):
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
        if n == 'Some':
            out.append((wrap('Ok', pay(e, l, 'Some', s)), s))
        elif c.name.endswith('else'):
            for v, s2 in callv(e, c, c.args[1], [], s, 'ok_or'):
                out.append((wrap('Err', v), s2))
        else:
            out.append((wrap('Err', e.val(c.args[1], s)), s))
    return out


@model('Result::ok', 'Result::err')
def m_ok(e, c):
    want = 'Ok' if c.name.endswith('::ok') else 'Err'
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Ok', 'Err'):
        out.append((wrap('Some', pay(e, l, n, s)) if n == want else fs([NONE]), s))
    return out


@model('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::unwrap_or_default',
       'Result::unwrap_or_default')
def m_unwrap_or(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == P:
            out.append((pay(e, l, P, s), s))
        elif c.name.endswith('default'):
            out += default_in(e, c, dest_ty(c), s)
        elif c.name.endswith('else'):
            out += callv(e, c, c.args[1], [] if P == 'Some' else [pay(e, l, 'Err', s)], s, 'uoe')
        else:
            out.append((e.val(c.args[1], s), s))
    return out


@model('Option::map_or', 'Result::map_or', 'Option::map_or_else', 'Result::map_or_else')
def m_map_or(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == P:
            out += callv(e, c, c.args[2], [pay(e, l, P, s)], s, 'mo')
        elif c.name.endswith('else'):
            out += callv(e, c, c.args[1], [] if P == 'Some' else [pay(e, l, 'Err', s)], s, 'moe')
        else:
            out.append((e.val(c.args[1], s), s))
    return out


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(e, c):
    w = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c.name.split('::')[1]]
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, *kind(c)):
        out.append((fs([TRUE if n == w else FALSE]), s))
    return out


@model('Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and', 'Result::is_err_and')
def m_is_and(e, c):
    P, N = kind(c)
    w = 'Err' if 'is_err' in c.name else P
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == w:
            out += callv(e, c, c.args[1], [pay(e, l, n, s)], s, 'isand')
        else:
            out.append((fs([TRUE if 'none_or' in c.name else FALSE]), s))
    return out


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err', 'Option::unwrap_unchecked')
def m_unwrap(e, c):
    P, N = kind(c)
    want = 'Err' if c.name.endswith('_err') else P
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == want:
            out.append((pay(e, l, n, s), s))
        else:
            e.panic(c.name, c.ref, [l], s, c.site, c.fn, c.t, c.stack)
    return out


@model('Option::transpose', 'Result::transpose')
def m_transpose(e, c):
    P, N = kind(c)
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, P, N):
        if n == 'None':
            out.append((fs([ok(NONE)]), s))
        elif n == 'Err':
            out.append((fs([some(err(phi(pay(e, l, 'Err', s))))]), s))
        else:
            IP, IN = ('Ok', 'Err') if n == 'Some' else ('Some', 'None')
            for n2, l2, s2 in fork(e, pay(e, l, n, s), s, IP, IN):
                if n2 == 'Ok':
                    out.append((fs([ok(some(phi(pay(e, l2, 'Ok', s2))))]), s2))
                elif n2 == 'Err':
                    out.append((wrap('Err', pay(e, l2, 'Err', s2)), s2))
                elif n2 == 'Some':
                    out.append((fs([some(ok(phi(pay(e, l2, 'Some', s2))))]), s2))
                else:
                    out.append((fs([NONE]), s2))
    return out


@model('Option::flatten')
def m_flatten(e, c):
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
        out.append((pay(e, l, 'Some', s) if n == 'Some' else fs([NONE]), s))
    return out


@model('Option::as_mut')
def m_as_mut(e, c):
    out = []
    ms = [t for t in c.args[0] if t.op == 'mref']
    if len(ms) == len(c.args[0]):
        for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
            if n == 'None':
                out.append((fs([NONE]), s))
            else:
                out.append((fs(some(mk('mref', (m.args[0][0], m.args[0][1] + (('v', 'Some'), ('f', '0'))))) for m in ms), s))
        return out
    return ident(e, c)


def setref(e, c, i, v, st):
    ms = [t for t in c.args[i] if t.op == 'mref']
    for m in ms:
        e.store(m.args[0], v, st, strong=len(c.args[i]) == 1)
    return st


@model('Option::take', 'mem::take')
def m_take(e, c):
    out = []
    if c.name == 'Option::take' or 'Option<' in dest_ty(c)[:30]:
        for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
            s = s.copy()
            setref(e, c, 0, fs([NONE]), s)
            out.append((l if n == 'Some' else fs([NONE]), s))
        return out
    v = a0(e, c)
    s = c.st.copy()
    out = []
    for d, s in default_in(e, c, dest_ty(c), s):
        s = s.copy()
        setref(e, c, 0, d, s)
        out.append((v, s))
    return out


@model('Option::replace', 'mem::replace', 'Option::insert', 'Option::get_or_insert', 'Option::get_or_insert_with')
def m_replace(e, c):
    if c.name == 'mem::replace':
        v = a0(e, c)
        s = c.st.copy()
        setref(e, c, 0, c.args[1], s)
        return [(v, s)]
    out = []
    for n, l, s in fork(e, a0(e, c), c.st, 'Some', 'None'):
        s = s.copy()
        if c.name in ('Option::replace', 'Option::insert'):
            setref(e, c, 0, wrap('Some', c.args[1]), s)
            r = (l if n == 'Some' else fs([NONE])) if c.name.endswith('replace') else c.args[1]
            out.append((r, s))
        elif n == 'Some':
            out.append((refs_into(c, 0, (('v', 'Some'), ('f', '0'))) or pay(e, l, 'Some', s), s))
        else:
            rs = callv(e, c, c.args[1], [], s, 'goi') if c.name.endswith('with') else [(c.args[1], s)]
            for v, s2 in rs:
                s2 = s2.copy()
                setref(e, c, 0, wrap('Some', v), s2)
                out.append((refs_into(c, 0, (('v', 'Some'), ('f', '0'))) or v, s2))
    return out


def refs_into(c, i, path):
    ms = [t for t in c.args[i] if t.op == 'mref']
    return fs(mk('mref', (m.args[0][0], m.args[0][1] + path)) for m in ms)


@model('mem::swap')
def m_swap(e, c):
    a, b = a0(e, c), a0(e, c, 1)
    s = c.st.copy()
    setref(e, c, 0, b, s)
    setref(e, c, 1, a, s)
    return [(fs([UNIT]), s)]


@model('bool::then', 'bool::then_some')
def m_then(e, c):
    out = []
    for b, s in booleans(e, [(a0(e, c), c.st)]):
        if not b:
            out.append((fs([NONE]), s))
        elif c.name.endswith('some'):
            out.append((wrap('Some', e.val(c.args[1], s)), s))
        else:
            for v, s2 in callv(e, c, c.args[1], [], s, 'then'):
                out.append((wrap('Some', v), s2))
    return out


@model('Not::not')
def m_not(e, c):
    return one(c, fs(neg(t) for t in a0(e, c)))


# ---- `?` --------------------------------------------------------------------
@model('Try::branch')
def m_branch(e, c):
    sty = (c.ref.get('args') or [c.ref.get('self') or ''])[0] or ''
    k = 'O' if 'option::Option' in sty.split('<')[0] else 'R'
    return one(c, fs(mk('try', t, k) for t in a0(e, c)))


@model('FromResidual::from_residual')
def m_from_residual(e, c):
    out = set()
    conv = {}
    for t in a0(e, c):
        if t.op == 'resid':
            if t.args[1] == 'O':
                out.add(NONE)
            else:
                xs = e.fields(t.args[0], 'Err', '0', c.st)
                a = [type_args(x) for x in c.ref.get('args') or []]
                f = from_impl(e, a[1][1], a[0][1]) if len(a) == 2 and len(a[0]) == 2 and len(a[1]) == 2 else None
                if f is not None and f.h not in c.stack and len(c.stack) < e.maxdepth:
                    conv.setdefault(f, set()).update(xs)
                    continue
                for x in xs:
                    out.add(err(x))
        elif t.op == 'agg':
            out.add(t)
        else:
            out.add(err(mk('pl', t, 'Err', '0')))
    r = one(c, fs(out)) if out else []
    for f, xs in conv.items():
        r = list(r) + [(fs(err(x) for x in v), st) for v, st in e.run_fn(f, [fs(xs)], c.st, c.fr, c.site, c.stack)]
    return r


# ---- equality and order -----------------------------------------------------
@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(e, c):
    r = set()
    for x in a0(e, c):
        for y in a0(e, c, 1):
            x2, y2 = e.deep(x, c.st), e.deep(y, c.st)
            if x2.op == 'agg' and y2.op == 'agg' and x2.args[1] != y2.args[1]:
                t = FALSE
            elif x2.op == 'agg' and y2.op == 'agg' and len(x2.args) == 3 and x2 is y2:
                t = TRUE
            elif y2.op == 'agg' and len(y2.args) == 3 and y2.args[1]:
                t = mk('is', y2.args[1], x2)
            elif x2.op == 'agg' and len(x2.args) == 3 and x2.args[1]:
                t = mk('is', x2.args[1], y2)
            else:
                t = e.eqterm(x2, y2)
            r.add(t if c.name.endswith('eq') else neg(t))
    return one(c, fs(r))


@model('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge')
def m_lt(e, c):
    r = set()
    op = {'lt': 'Lt', 'gt': 'Gt', 'le': 'Le', 'ge': 'Ge'}[c.name.split('::')[1]]
    for x in a0(e, c):
        for y in a0(e, c, 1):
            r.add(e.binop(op, x, y))
    return one(c, fs(r))


# ---- functions --------------------------------------------------------------
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_call(e, c):
    tup = e.val(c.args[1], c.st)
    n = None
    for t in tup:
        if t.op == 'tuple':
            n = len(t.args)
    if n is None:
        return None
    args = []
    for i in range(n):
        a = fs()
        for t in tup:
            a |= e.fields(t, None, str(i), c.st)
        args.append(a)
    return e.call_value(c.args[0], args, c.st, c.fr, c.site, c.stack, c.fn, c.t)


# ---- defaults and constructors ---------------------------------------------
VEC = mk('empty')


def default_impl(e, ty):
    """The `Default` of `ty`, when the repository defines or derives it."""
    cache = e.prog.__dict__.setdefault('_default', {})
    if ty not in cache:
        fs_ = [x for x in e.prog.fns if x.name == 'default' and x.trait and x.trait.endswith('default::Default') and x.kind == 'assoc' and same_ty(x.self_ty, ty)]
        cache[ty] = fs_[0] if len(fs_) == 1 else None
    return cache[ty]


def default_in(e, c, ty, st):
    """[(value, state)]"""
    f = default_impl(e, ty)
    if f is not None and f.h not in c.stack and len(c.stack) < e.maxdepth:
        return e.run_fn(f, [], st, c.fr, (c.site, 'default'), c.stack)
    return [(default_of(c, ty), st)]


def default_of(c, ty):
    if 'option::Option<' in ty[:40] or ty.startswith('Option<'):
        return fs([NONE])
    h = ty.split('<')[0]
    if h.endswith(('Vec', 'BTreeMap', 'HashMap', 'BTreeSet', 'HashSet', 'VecDeque', 'BTreeDataset')):
        return fs([VEC])
    if h == 'bool':
        return fs([FALSE])
    if h in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'):
        return fs([mk('int', 0)])
    if h == '()':
        return fs([UNIT])
    if h.endswith('string::String'):
        return fs([mk('str', '')])
    return fs([mk('default', ty)])


@model('Default::default')
def m_default(e, c):
    return default_in(e, c, dest_ty(c), c.st)


@model('Vec::new', 'Vec::with_capacity', 'BTreeMap::new', 'HashMap::new', 'BTreeSet::new', 'HashSet::new', 'VecDeque::new',
       'HashMap::with_capacity', 'iter::empty', 'BTreeDataset::new', 'VecDeque::with_capacity', 'HashSet::with_capacity')
def m_new(e, c):
    return one(c, fs([VEC]))


@model('iter::once')
def m_once(e, c):
    return one(c, fs([mk('array', phi(c.args[0]))]))


# ---- iterators --------------------------------------------------------------
@model('Iterator::map')
def m_imap(e, c):
    return one(c, fs(mk('mapit', phi(c.args[0]), phi(c.args[1]), c.site) for _ in (0,)))


def adapt(op):
    def f(e, c):
        return one(c, fs([mk(op, phi(c.args[0]), phi(c.args[1]), c.site)]))
    return f


M['Iterator::filter'] = adapt('filterit')
M['Iterator::filter_map'] = adapt('fmapit')
M['Iterator::flat_map'] = adapt('flatmapit')
M['Iterator::take_while'] = adapt('filterit')
M['Iterator::skip_while'] = adapt('skipwhile')
M['Iterator::map_while'] = adapt('fmapit')


@model('Iterator::enumerate')
def m_enum(e, c):
    return one(c, fs([mk('enumit', phi(c.args[0]), c.site)]))


@model('Iterator::flatten')
def m_iflat(e, c):
    return one(c, fs([mk('flatit', phi(c.args[0]), c.site)]))


@model('Iterator::zip')
def m_izip(e, c):
    return one(c, fs([mk('zipit', phi(c.args[0]), phi(c.args[1]), c.site)]))


@model('Iterator::chain')
def m_chain(e, c):
    return one(c, fs([mk('chainit', phi(c.args[0]), phi(c.args[1]))]))


@model('Iterator::rev', 'Iterator::skip', 'Iterator::take', 'Iterator::step_by')
def m_rev(e, c):
    n = c.name.split('::')[1]
    return one(c, fs([mk('sub_' + n, phi(c.args[0]), *[phi(a) for a in c.args[1:]])]))


@model('BTreeMap::keys', 'HashMap::keys', 'BTreeMap::into_keys', 'HashMap::into_keys')
def m_keys(e, c):
    return one(c, fs(mk('proj', t, 0) for t in a0(e, c)))


@model('BTreeMap::values', 'HashMap::values', 'BTreeMap::into_values', 'HashMap::into_values')
def m_values(e, c):
    return one(c, fs(mk('proj', t, 1) for t in a0(e, c)))


@model('BTreeMap::values_mut', 'HashMap::values_mut')
def m_values_mut(e, c):
    return one(c, fs(mk('proj', t, 1) for t in c.args[0]))


def elems(e, c, it, st, site, d=0):
    """Elements of an iterator/collection term: [(values, state)]."""
    o = it.op
    if d > 8:
        return [(fs([mk('elem', it, site=site)]), st)]

    def sub(t, s, k):
        r = []
        for x in unphi(t):
            r += elems(e, c, x, s, (site, k), d + 1)
        return r
    if o == 'phi':
        return sub(it, st, 0) if d == 0 else [y for x in it.args for y in elems(e, c, x, st, site, d + 1)]
    if o == 'mapit':
        out = []
        for v, s in sub(it.args[0], st, 'm'):
            out += e.call_value(unphi(it.args[1]), [v], s, c.fr, (it.args[2], 'it'), c.stack, c.fn, c.t)
        return out
    if o in ('filterit', 'skipwhile'):
        out = []
        for v, s in sub(it.args[0], st, 'f'):
            for b, s2 in booleans(e, e.call_value(unphi(it.args[1]), [v], s, c.fr, (it.args[2], 'it'), c.stack, c.fn, c.t)):
                if b or o == 'skipwhile':
                    out.append((v, s2))
                if e.skips is not None and b == (o == 'skipwhile'):
                    e.skips.append(s2)
        return out
    if o == 'fmapit':
        out = []
        for v, s in sub(it.args[0], st, 'fm'):
            for r, s2 in e.call_value(unphi(it.args[1]), [v], s, c.fr, (it.args[2], 'it'), c.stack, c.fn, c.t):
                for n, l, s3 in fork(e, e.val(r, s2), s2, 'Some', 'None'):
                    if n == 'Some':
                        out.append((pay(e, l, 'Some', s3), s3))
                    elif e.skips is not None:
                        e.skips.append(s3)
        return out
    if o == 'flatmapit':
        out = []
        for v, s in sub(it.args[0], st, 'fl'):
            for r, s2 in e.call_value(unphi(it.args[1]), [v], s, c.fr, (it.args[2], 'it'), c.stack, c.fn, c.t):
                for t in e.val(r, s2):
                    out += elems_or_skip(e, c, t, s2, (site, 'fl2'), d + 1)
        return out
    if o == 'flatit':
        out = []
        for v, s in sub(it.args[0], st, 'ft'):
            for t in e.val(v, s):
                out += elems_or_skip(e, c, t, s, (site, 'ft2'), d + 1)
        return out
    if o == 'enumit':
        return [(fs([mk('tuple', mk('idx', phi(e.deep(x, s) for x in unphi(it.args[0])), site=site), phi(v))]), s)
                for v, s in sub(it.args[0], st, 'e')]
    if o == 'zipit':
        out = []
        for v, s in sub(it.args[0], st, 'z1'):
            for w, s2 in sub(it.args[1], s, 'z2'):
                out.append((fs([mk('tuple', phi(v), phi(w))]), s2))
        return out
    if o == 'chainit':
        return sub(it.args[0], st, 'c1') + sub(it.args[1], st, 'c2')
    if o in ('sub_rev', 'sub_skip', 'sub_take', 'sub_step_by'):
        out = []
        for x in unphi(it.args[0]):
            for y in e.val(fs([x]), st):
                if y.op in ('mapit', 'filterit', 'fmapit', 'flatmapit', 'flatit', 'skipwhile'):
                    out += elems(e, c, mk(y.op, mk(o, y.args[0], *it.args[1:]), *y.args[1:]), st, (site, 's'), d + 1)
                elif y.op == 'enumit' and o == 'sub_rev':
                    out += elems(e, c, y, st, (site, 's'), d + 1)
                elif y.op in ('empty', 'never'):
                    pass
                else:
                    out.append((fs([mk('elem', mk(o, e.deep(y, st), *it.args[1:]), site=site)]), st))
        return out
    if o == 'sorted':
        return sub(it.args[0], st, 's')
    if o == 'proj':
        out = []
        for v, s in sub(it.args[0], st, 'p'):
            r = fs()
            for t in v:
                if t.op == 'mref':
                    r |= fs([mk('mref', (t.args[0][0], t.args[0][1] + (('f', str(it.args[1])),)))])
                else:
                    r |= e.fields(t, None, str(it.args[1]), s)
            out.append((r, s))
        return out
    if o == 'array':
        return [(unphi(a), st) for a in ts(it)]
    if o == 'repeat':
        return [(unphi(it.args[0]), st)]
    if o in ('empty', 'never'):
        return []
    if o == 'coll':
        return [(unphi(it.args[0]), st)]
    if o == 'push':
        out = [(unphi(it.args[1]), st)]
        for x in unphi(it.args[0]):
            out += elems(e, c, x, st, site, d + 1)
        return merge_elems(out, st)
    if o == 'ins':
        out = [(fs([mk('tuple', it.args[1], it.args[2])]), st)]
        for x in unphi(it.args[0]):
            out += elems(e, c, x, st, site, d + 1)
        return merge_elems(out, st)
    if o == 'extend':
        out = []
        for x in list(unphi(it.args[0])) + list(unphi(it.args[1])):
            out += elems(e, c, x, st, site, d + 1)
        return merge_elems(out, st)
    if o == 'rec':
        return []
    if o == 'agg':
        if it.args[1] == 'None':
            return []
        if it.args[1] in ('Some',):
            return [(unphi(it.args[3]), st)]
        if it.args[0].endswith(('ops::range::Range', 'ops::range::RangeInclusive', 'ops::Range')):
            return [(fs([mk('idx', it, site=site)]), st)]
    if o == 'mref':
        vals = e.val(fs([it]), st)
        if any(v.op in ADAPT for v in vals):
            out = []
            for v in vals:
                out += elems(e, c, v, st, site, d + 1)
            return out
        loc = it.args[0]
        return [(fs([mk('mref', (loc[0], loc[1] + (('at', None),)))]), st)]
    return [(fs([mk('elem', it, site=site)]), st)]


ADAPT = {'mapit', 'filterit', 'fmapit', 'flatmapit', 'flatit', 'enumit', 'zipit', 'chainit', 'proj', 'sub_rev', 'sub_skip', 'sub_take',
         'skipwhile', 'phi'}


def merge_elems(out, st):
    r = fs()
    for v, _ in out:
        r |= v
    return [(r, st)] if out else []


def elems_or_skip(e, c, t, st, site, d):
    out = elems(e, c, t, st, site, d)
    if not out and e.skips is not None:
        e.skips.append(st)
    return out


def all_elems(e, c, v, st, site, skips=None):
    """The elements of v; to `skips` are added the states in which an element
    of what v is made from is left out."""
    saved, e.skips = e.skips, skips
    try:
        out = []
        for t in v:
            out += elems(e, c, t, st, site)
        return out
    finally:
        e.skips = saved


def skipping(e, c, its, st, site):
    """all_elems, and the states in which an element is left out when this
    consumer is the one whose turn is observed."""
    if not (e.every or e.whole):
        return all_elems(e, c, its, st, site), None
    skips = []
    els = all_elems(e, c, its, st, site, skips)
    me = (e.fpath(c.fr), repr(e.fsite((c.site, 'skip'))))
    if e.every and skips and els:
        e.active.append([c.fr, me[1], None])
        e.note()
        e.active.pop()
    if e.whole and not e.silent and e.target and e.target[-1] == me:
        e.observe = True
        return els, skips
    return els, None


def one_more(co, acc):
    """A collection made of the items `acc` among which one is known to be added."""
    r = co
    for t in acc:
        x = mk('ins', co, *ts(t)) if t.op == 'tuple' and co.args[2].endswith('Map') and len(ts(t)) == 2 else mk('push', co, t)
        r = x if r is co else phi([r, x])
    return mk('extend', r, co) if r is not co else co


def source(e, t, st, d=0):
    """The iterator or collection whose end ends the iteration over `t`."""
    if d < 12 and t.op in ('mapit', 'enumit', 'proj', 'sub_rev'):
        return phi(source(e, x, st, d + 1) for y in unphi(t.args[0]) for x in e.val(fs([y]), st))
    if d < 12 and t.op == 'phi':
        return phi(source(e, x, st, d + 1) for x in t.args)
    return e.deep(t, st)


def decide(e, c, its, st):
    """Is it assumed that the iteration has always / never one more element?"""
    key = mk('next', phi(source(e, t, st) for t in its), site=c.site)
    dec = e.assume_cb(key, st) if e.assume_cb else None
    if dec is None and e.assume_cb and its and all(t.op == 'filterit' for t in its):
        # a filter that keeps everything ends with what it filters
        ds = {decide(e, c, e.val(unphi(t.args[0]), st), st)[1] for t in its}
        if ds == {'None'}:
            dec = 'None'
        elif ds == {'Some'}:
            bs = set()
            for t in its:
                for v, s in all_elems(e, c, e.val(unphi(t.args[0]), st), st, c.site):
                    bs |= {b for b, _ in booleans(e, e.call_value(unphi(t.args[1]), [v], s, c.fr, (t.args[2], 'it'), c.stack, c.fn, c.t))}
            if bs == {True}:
                dec = 'Some'
            elif bs == {False}:
                dec = 'None'
    return key, dec


def no_elems_possible(v):
    return all(t.op in ('empty', 'never') for t in v)


@model('Iterator::next', 'DoubleEndedIterator::next_back', 'Iterator::last')
def m_next(e, c):
    st = c.st.copy()
    e.kill(st, c.site)
    ms = [t for t in c.args[0] if t.op == 'mref']
    # the iterator value(s) being advanced
    its = e.val(c.args[0], st) if not any(nested_ref(e, t, st) for t in ms) else fs(y for t in ms for y in e.loc_value(t.args[0], st))
    key, dec = decide(e, c, its, st)
    out = []
    if dec != 'Some':
        s2 = st.copy()
        s2.facts[key] = 'None'
        out.append((fs([NONE]), s2))
    if dec != 'None':
        skips = [] if e.turning and e.turning[0] == c.fr and e.turning[1] == c.site[1] else None
        for v, s in all_elems(e, c, its, st, c.site, skips):
            s2 = s.copy()
            s2.facts[key] = 'Some'
            out.append((wrap('Some', v), s2))
        for s in skips or ():
            e.turning[3].append((e.turning[2], s.copy()))
    return out


@model('Peekable::peek')
def m_peek(e, c):
    its = fs(y for t in c.args[0] for y in (e.loc_value(t.args[0], c.st) if t.op == 'mref' else e.val(fs([t]), c.st)))
    key = mk('peek', phi(source(e, t, c.st) for t in its), site=c.site)
    dec = e.assume_cb(key, c.st) if e.assume_cb else None
    out = []
    if dec != 'Some':
        s = c.st.copy()
        s.facts[key] = 'None'
        out.append((fs([NONE]), s))
    if dec != 'None':
        s = c.st.copy()
        s.facts[key] = 'Some'
        out.append((fs([some(mk('elem', mk('sub_skip', phi(source(e, t, c.st) for t in its), mk('int', 1)), site=c.site))]), s))
    return out


def nested_ref(e, t, st):
    """A &mut iterator whose value is itself a mutable reference to a collection (iter_mut)."""
    if t.op != 'mref':
        return False
    return any(x.op == 'mref' for x in e.loc_value(t.args[0], st))


@model('Iterator::nth', 'slice::first', 'slice::last', 'Iterator::min', 'Iterator::max', 'Vec::first', 'Vec::last')
def m_first(e, c):
    out = [(fs([NONE]), c.st.copy())]
    if no_elems_possible(a0(e, c)):
        return out
    for v, s in all_elems(e, c, a0(e, c), c.st, c.site):
        out.append((wrap('Some', v), s.copy()))
    return out


def tykind(ty):
    h = ty.split('<')[0]
    return h.rsplit('::', 1)[-1]


@model('Iterator::collect')
def m_collect(e, c):
    st = c.st.copy()
    e.kill(st, c.site)
    e.kill(st, (c.site, 'el'))
    ty = dest_ty(c)
    a = c.ref.get('args') or []
    if not ty and len(a) > 1:
        ty = a[1]
    k = tykind(ty)
    src = phi(e.deep(t, st) for t in c.args[0])
    if src.op == 'array' and k not in ('Result', 'Option') and not tykind(ty).endswith('Map'):
        return [(fs([src]), st)]
    dec = decide(e, c, e.val(c.args[0], st), st)[1]
    els, skips = skipping(e, c, a0(e, c) if not any(t.op == 'mref' for t in c.args[0]) else c.args[0], st, (c.site, 'el')) if dec != 'None' else ([], None)
    acc = fs()
    state = st
    from engine import join
    out = []
    for v, s in els:
        if k in ('Result', 'Option'):
            P, N = ('Ok', 'Err') if k == 'Result' else ('Some', 'None')
            for n, l, s2 in fork(e, e.val(v, s), s, P, N):
                if n == P:
                    acc |= pay(e, l, P, s2)
                    state, _ = join(state, s2)
                else:
                    out.append((wrap('Err', pay(e, l, 'Err', s2)) if n == 'Err' else fs([NONE]), s2))
        else:
            acc |= e.val(v, s)
            state, _ = join(state, s)
    if dec == 'Some':
        return out
    acc = fs(e.deep(t, state) for t in acc)
    co = mk('coll', phi(acc), src, tykind(ty) if k not in ('Result', 'Option') else '', site=c.site) if acc or els else VEC
    if skips is not None:
        w = {'Result': ok, 'Option': some}.get(k, lambda x: x)
        return [(fs([w(one_more(co, acc))]), state.copy())] + [(fs([w(co)]), s.copy()) for s in skips]
    if k == 'Result':
        out.append((fs([ok(co)]), state.copy()))
    elif k == 'Option':
        out.append((fs([some(co)]), state.copy()))
    else:
        out.append((fs([co]), state.copy()))
    return out


def turns(e, c, st, acc, body, dec):
    """The turns of a loop made by an iterator method: as for the loops of a
    body, a first pass finds what every turn starts from and a second one
    observes a turn that starts from there.  body(acc, state, exits) returns
    the (acc, state) with which the loop goes on."""
    from engine import State, join
    bb = (c.site, 'turn')
    w = lambda k, o, v: e.widen(c.fr, bb, k, o, v)
    wa = lambda o, v: o if o is None or v <= o else w('acc', o, v)

    def go(a, s, n, exits):
        for _ in range(n):
            a1, s1 = a, s
            for a2, s2 in body(a, s, exits):
                a = wa(a, a2) if a is not None else None
                s, _ = join(s, s2, w)
            if a == a1 and s is s1:
                break
        return a, s

    me = (e.fpath(c.fr), repr(e.fsite(bb)))
    e.active.append([c.fr, me[1], None])
    if e.every:
        e.note()
    try:
        if not e.silent and me in e.target:
            with e.muted():
                a, s = go(acc, st, 8, [])
            exits = []
            a0, s0, s = None, e.unlearn(s), None
            with e.turn():
                for a2, s2 in body(a, s0, exits):
                    a0 = a2 if a0 is None else a0 | a2
                    s = s2 if s is None else join(s, s2, w)[0]
            if e.whole:
                exits = []
            if s is None:
                return a0, s0, exits, 'Some'
            e.phase += '+'
            with e.muted():
                s = e.settle(c.fr, bb, e.unlearn(s), lambda b: b == c.site[1])
                if a0 is not None:
                    a0 = e.settle(c.fr, bb, State({'acc': a0}, {}, s.must), lambda b: b == c.site[1]).mem['acc']
                a, s = go(a0, s, 8, [])
            with e.afterwards():
                a, s = go(a, s, 1, exits)
            e.phase = e.phase[:-1]
            return a, s, exits, None
        return turns2(e, c, st, acc, go, bb, w, wa) + (dec,)
    finally:
        e.active.pop()


def turns2(e, c, st, acc, go, bb, w, wa):
    from engine import join
    saved = (e.events, e.aggs, e.panics, e.switches)
    e.events, e.aggs, e.panics, e.switches = {}, {}, {}, {}
    a, s = go(acc, st, 8, [])
    e.events, e.aggs, e.panics, e.switches = saved
    for t in list(e.lvdefs):
        if ('lv', c.fr, bb) in t.sites and t.args[0].startswith(repr((c.fr, bb))[:-1]) and e.lvphase.get(t, '') == e.phase:
            e.lvdefs[t] = set()
    exits = []
    if a is not None:
        a = wa(a, acc)
    s, _ = join(s, st, w)
    a, s = go(a, s, 1, exits)
    return a, s, exits


@model('Iterator::for_each', 'Iterator::try_for_each')
def m_for_each(e, c):
    st = c.st.copy()
    e.kill(st, c.site)
    tr = c.name.endswith('try_for_each')
    dec = decide(e, c, e.val(c.args[0], st), st)[1]
    its = c.args[0] if any(t.op == 'mref' for t in c.args[0]) else a0(e, c)

    def body(_, state, exits):
        out = []
        skips = []
        for v, s in all_elems(e, c, its, state, c.site, skips):
            for r, s2 in callv(e, c, c.args[1], [v], s, 'fe'):
                if not tr:
                    out.append((None, s2))
                    continue
                for n, l, s3 in fork(e, e.val(r, s2), s2, 'Ok', 'Err'):
                    if n == 'Ok':
                        out.append((None, s3))
                    else:
                        exits.append((wrap('Err', pay(e, l, 'Err', s3)), s3))
        return out + [(None, s.copy()) for s in skips]
    _, state, out, dec = turns(e, c, st, None, body, dec) if dec != 'None' else (None, st, [], dec)
    if dec == 'Some':
        return out
    out.append((fs([ok(UNIT)]) if tr else fs([UNIT]), state.copy()))
    return out


INTS = ('num', 'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128')


@model(*['%s::%s_%s' % (n, k, o) for n in INTS for k in ('wrapping', 'checked', 'saturating', 'unchecked', 'strict') for o in ('add', 'sub', 'mul', 'div', 'rem')])
def m_arith(e, c):
    k, o = c.name.split('::')[1].split('_')
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[o]
    if k == 'saturating':
        op = {'Add': 'Add', 'Sub': 'SatSub'}.get(op, op)
    x, y = (phi(a0(e, c, i)) for i in (0, 1))
    v = e.arith(op, x, y)
    if k == 'checked':
        return [(fs([some(v)]), c.st), (fs([NONE]), c.st.copy())]
    return one(c, fs([v]))


@model('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::position', 'Iterator::find_map')
def m_any(e, c):
    """A loop that ends with a result at the first element that gives one."""
    st = c.st.copy()
    e.kill(st, c.site)
    n = c.name.split('::')[1]
    its = e.val(c.args[0], st)
    dec = decide(e, c, its, st)[1]

    def body(_, state, exits):
        out = []
        skips = []
        for v, s in all_elems(e, c, its, state, c.site, skips):
            res = callv(e, c, c.args[1], [v], s, n)
            if n == 'find_map':
                for r, s2 in res:
                    for k, l, s3 in fork(e, e.val(r, s2), s2, 'Some', 'None'):
                        if k == 'Some':
                            exits.append((l, s3))
                        else:
                            out.append((None, s3))
                continue
            for b, s2 in booleans(e, res):
                if b == (n == 'all'):
                    out.append((None, s2))
                elif n == 'find':
                    exits.append((wrap('Some', v), s2))
                elif n == 'position':
                    exits.append((fs([some(mk('idx', phi(its), site=c.site))]), s2))
                else:
                    exits.append((TRUE if n == 'any' else FALSE, s2))
        return out + [(None, s.copy()) for s in skips]
    _, state, out, dec = turns(e, c, st, None, body, dec) if dec != 'None' else (None, st, [], dec)
    out = [(v if isinstance(v, frozenset) else fs([v]), s) for v, s in out]
    if dec != 'Some':
        out.append((fs([{'any': FALSE, 'all': TRUE}.get(n, NONE)]), state.copy()))
    return out


@model('Iterator::fold', 'Iterator::try_fold')
def m_fold(e, c):
    st = c.st.copy()
    e.kill(st, c.site)
    tr = c.name.endswith('try_fold')
    dec = decide(e, c, a0(e, c), st)[1]
    option = [False]

    def body(acc, state, exits):
        out = []
        skips = []
        for v, s in all_elems(e, c, a0(e, c), state, c.site, skips):
            for r, s2 in callv(e, c, c.args[2], [acc, v], s, 'fold'):
                if not tr:
                    out.append((r, s2))
                    continue
                P, N = ('Some', 'None') if any(t is NONE or (t.op == 'agg' and t.args[1] == 'Some') for t in r) else ('Ok', 'Err')
                option[0] |= P == 'Some'
                for n, l, s3 in fork(e, e.val(r, s2), s2, P, N):
                    if n == P:
                        out.append((pay(e, l, P, s3), s3))
                    else:
                        exits.append((l if n == 'Err' else fs([NONE]), s3))
        return out + [(acc, s.copy()) for s in skips]
    acc, state, out, dec = turns(e, c, st, c.args[1], body, dec) if dec != 'None' else (c.args[1], st, [], dec)
    if dec == 'Some':
        return out
    out.append((wrap('Some' if option[0] else 'Ok', acc) if tr else acc, state.copy()))
    return out


# ---- collections ------------------------------------------------------------
@model('Vec::push', 'VecDeque::push_back', 'BTreeSet::insert', 'HashSet::insert')
def m_push(e, c):
    s = c.st.copy()
    old = phi(e.deep(t, s) for t in a0(e, c))
    item = phi(e.deep(t, s) for t in c.args[1])
    setref(e, c, 0, fs([mk('push', old, item, site=c.site)]), s)
    if c.name.endswith('insert'):
        return [(fs([mk('call', c.name, old, item, site=c.site)]), s)]
    return [(fs([UNIT]), s)]


@model('BTreeMap::insert', 'HashMap::insert')
def m_insert(e, c):
    s = c.st.copy()
    e.kill(s, c.site)
    old = phi(e.deep(t, s) for t in a0(e, c))
    k = phi(e.deep(t, s) for t in c.args[1])
    v = phi(e.deep(t, s) for t in c.args[2])
    setref(e, c, 0, fs([mk('ins', old, k, v, site=c.site)]), s)
    return [(fs([mk('call', c.name, old, k, v, site=c.site)]), s)]


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::append')
def m_extend(e, c):
    from engine import join
    s = c.st.copy()
    e.kill(s, c.site)
    old = phi(e.deep(t, s) for t in a0(e, c))
    acc = fs()
    state = s
    dec = decide(e, c, a0(e, c, 1), s)[1]
    if dec == 'Some':
        return []
    if dec == 'None':
        return [(fs([UNIT]), s)]
    els, skips = skipping(e, c, a0(e, c, 1), s, c.site)
    for v, s2 in els:
        acc |= e.val(v, s2)
        state, _ = join(state, s2)
    state = state.copy()
    acc = fs(e.deep(t, state) for t in acc)
    src = phi(e.deep(t, state) for t in a0(e, c, 1))
    if skips is not None:
        co = mk('coll', phi(acc), src, '', site=c.site)
        out = []
        for x, s2 in [(one_more(co, acc), state)] + [(co, s2.copy()) for s2 in skips]:
            setref(e, c, 0, fs([mk('extend', old, x, site=c.site)]), s2)
            out.append((fs([UNIT]), s2))
        return out
    setref(e, c, 0, fs([mk('extend', old, mk('coll', phi(acc), src, '', site=c.site), site=c.site)]), state)
    return [(fs([UNIT]), state)]


@model('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def m_sort(e, c):
    s = c.st.copy()
    old = phi(e.deep(t, s) for t in a0(e, c))
    setref(e, c, 0, fs([mk('sorted', old)]), s)
    return [(fs([UNIT]), s)]


@model('BTreeMap::get', 'HashMap::get', 'slice::get', 'Vec::get', 'BTreeMap::get_key_value')
def m_get(e, c):
    return one(c, fs([mk('call', 'get', e.one(a0(e, c), c.st), e.one(a0(e, c, 1), c.st))]))


@model('BTreeMap::contains_key', 'HashMap::contains_key')
def m_contains(e, c):
    return one(c, fs([mk('is', 'Some', mk('call', 'get', e.one(a0(e, c), c.st), e.one(a0(e, c, 1), c.st)))]))


@model('Index::index')
def m_index(e, c):
    r = fs()
    i = a0(e, c, 1)
    i = next(iter(i)) if len(i) == 1 else None
    for t in a0(e, c):
        r |= e.index(t, i.args[0] if i is not None and i.op == 'int' else i)
    e.panics.setdefault(('index', 'index', c.fn.h, c.t.get('s', '')), []).append((tuple(c.args), dict(c.st.facts)))
    return one(c, r)


def at_refs(e, c, key):
    """References to one element of the collection argument 0 points to."""
    ms = [t for t in c.args[0] if t.op == 'mref']
    if ms and len(ms) == len(c.args[0]):
        return fs(mk('mref', (m.args[0][0], m.args[0][1] + (('at', key),))) for m in ms)
    r = fs()
    for t in a0(e, c):
        r |= e.index(t, key)
    return r


@model('IndexMut::index_mut')
def m_index_mut(e, c):
    i = a0(e, c, 1)
    i = next(iter(i)) if len(i) == 1 else None
    e.panics.setdefault(('index', 'index', c.fn.h, c.t.get('s', '')), []).append((tuple(c.args), dict(c.st.facts)))
    return one(c, at_refs(e, c, i.args[0] if i is not None and i.op == 'int' else i))


@model('slice::last_mut', 'slice::first_mut', 'VecDeque::back_mut', 'VecDeque::front_mut')
def m_last_mut(e, c):
    k = 'last' if 'last' in c.name or 'back' in c.name else 'first'
    key = mk('some_' + k, e.one(a0(e, c), c.st))
    out = []
    for n, l, s in fork(e, fs([key]), c.st, 'Some', 'None'):
        out.append((fs([some(phi(at_refs(e, c, k)))]) if n == 'Some' else fs([NONE]), s))
    return out


@model('slice::get_mut', 'BTreeMap::get_mut', 'HashMap::get_mut', 'Vec::get_mut')
def m_get_mut(e, c):
    k = a0(e, c, 1)
    key = mk('call', 'get', e.one(a0(e, c), c.st), e.one(k, c.st))
    k = next(iter(k)) if len(k) == 1 else None
    out = []
    for n, l, s in fork(e, fs([key]), c.st, 'Some', 'None'):
        out.append((fs([some(phi(at_refs(e, c, k)))]) if n == 'Some' else fs([NONE]), s))
    return out


@model('Vec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front')
def m_pop(e, c):
    k = 'first' if c.name.endswith('front') else 'last'
    old = phi(e.deep(t, c.st) for t in a0(e, c))
    key = mk('some_' + k, old)
    out = []
    for n, l, s in fork(e, fs([key]), c.st, 'Some', 'None'):
        s = s.copy()
        if n == 'Some':
            v = fs(y for t in a0(e, c) for y in e.index(t, k))
            setref(e, c, 0, fs([mk('popped', old) if old.op != 'push' or k == 'first' else old.args[0]]), s)
            out.append((wrap('Some', v), s))
        else:
            out.append((fs([NONE]), s))
    return out


@model('Vec::resize_with', 'Vec::resize')
def m_resize(e, c):
    s = c.st.copy()
    old = phi(e.deep(t, s) for t in a0(e, c))
    rs = callv(e, c, c.args[2], [], s, 'rw') if c.name.endswith('with') else [(c.args[2], s)]
    out = []
    for v, s2 in rs:
        s2 = s2.copy()
        setref(e, c, 0, fs([mk('resized', old, e.one(a0(e, c, 1), s2), e.one(v, s2))]), s2)
        out.append((fs([UNIT]), s2))
    return out


@model('BTreeMap::entry', 'HashMap::entry')
def m_mentry(e, c):
    return one(c, fs([mk('entry', phi(c.args[0]), e.one(a0(e, c, 1), c.st))]))


@model('Vec::len', 'slice::len', 'BTreeMap::len', 'BTreeSet::len', 'HashMap::len', 'HashSet::len', 'str::len', 'String::len', 'ExactSizeIterator::len')
def m_len(e, c):
    r = set()
    for t in a0(e, c):
        if t.op == 'empty':
            r.add(mk('int', 0))
        elif t.op in ('array', 'single'):
            r.add(mk('int', len(ts(t))))
        elif t.op == 'coll' and ts(t)[1].op in ('mapit', 'elem', 'param', 'fd', 'pl'):
            r.add(mk('len', strip_len(ts(t)[1])))
        else:
            r.add(mk('len', strip_len(e.deep(t, c.st))))
    return one(c, fs(r))


@model('raw::from_ref', 'slice::from_ref', 'array::from_ref')
def m_from_ref(e, c):
    # one element: kept apart from arrays so that its elements are still told from those of other sequences
    return one(c, fs([mk('single', phi(a0(e, c)))]))


def strip_len(t):
    while t.op in ('mapit', 'enumit', 'sub_rev', 'sorted'):
        t = t.args[0]
    return t


@model('Vec::is_empty', 'slice::is_empty', 'BTreeMap::is_empty', 'HashMap::is_empty', 'BTreeSet::is_empty', 'HashSet::is_empty', 'str::is_empty', 'String::is_empty')
def m_is_empty(e, c):
    out = []
    r = set()
    for t in a0(e, c):
        if t.op == 'empty':
            r.add(TRUE)
        elif t.op in ('push', 'ins'):
            r.add(FALSE)
        else:
            r.add(e.eqterm(mk('len', strip_len(e.deep(t, c.st))), mk('int', 0)))
    return one(c, fs(r))


@model('Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with_key')
def m_entry(e, c):
    ents = a0(e, c)
    if len(ents) != 1:
        return None
    en = next(iter(ents))
    if en.op != 'entry' or en.args[0].op != 'mref':
        return None
    loc = en.args[0].args[0]
    k = en.args[1]
    old = phi(e.deep(t, c.st) for t in e.loc_value(loc, c.st))
    key = mk('call', 'get', old, k)
    ref = fs([mk('mref', (loc[0], loc[1] + (('at', k),)))])
    out = []
    for n, l, s in fork(e, fs([key]), c.st, 'Some', 'None'):
        if n == 'Some':
            out.append((ref, s))
            continue
        if c.name.endswith('or_insert'):
            rs = [(c.args[1], s)]
        elif c.name.endswith('default'):
            rs = default_in(e, c, dest_ty(c).split('mut ', 1)[-1], s)
        else:
            rs = callv(e, c, c.args[1], [fs([k])] if c.name.endswith('key') else [], s, 'entry')
        for v, s2 in rs:
            s2 = s2.copy()
            e.store(loc, fs([mk('ins', old, k, e.one(v, s2), site=c.site)]), s2)
            out.append((ref, s2))
    return out


@model('ToString::to_string', 'fmt::format')
def m_tostring(e, c):
    return one(c, fs(mk('string', t) for t in a0(e, c)))


def template(b):
    """The pieces of a format template: literal text or None for an argument."""
    r, i = [], 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            return r if i == len(b) else None
        if x < 0x80:
            r.append(b[i:i + x].decode('utf8', 'replace'))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            r.append(b[i + 2:i + 2 + n].decode('utf8', 'replace'))
            i += 2 + n
        elif x == 0xC0:
            r.append(None)
        else:
            return None
    return None


@model('Arguments::new')
def m_arguments(e, c):
    """format_args!: the concatenation of its pieces."""
    out = fs()
    for t in e.val(c.args[0], c.st):
        p = template(t.args[0]) if t.op == 'bytes' else None
        for a in e.val(c.args[1], c.st):
            if p is None or a.op != 'array' or len(ts(a)) != sum(x is None for x in p):
                out |= fs([mk('fmt', e.deep(t, c.st), e.deep(a, c.st))])
                continue
            it = iter(ts(a))
            ps = []
            for x in p:
                if x is None:
                    x = phi(y.args[0] if y.op == 'disp' else y for y in e.val(unphi(next(it)), c.st))
                else:
                    x = mk('str', x)
                ps.append(x)
            out |= fs([ps[0] if len(ps) == 1 else mk('concat', *ps)])
    return one(c, out)


@model('Argument::new_display')
def m_display(e, c):
    return one(c, fs(mk('disp', e.deep(t, c.st)) for t in a0(e, c)))


@model('VecDeque::push_front')
def m_push_front(e, c):
    s = c.st.copy()
    old = phi(e.deep(t, s) for t in a0(e, c))
    item = phi(e.deep(t, s) for t in c.args[1])
    setref(e, c, 0, fs([mk('extend', mk('array', item), old, site=c.site)]), s)
    return [(fs([UNIT]), s)]


def pieces(t):
    """A text as the list of its pieces."""
    if t.op == 'string':
        return pieces(t.args[0])
    if t.op == 'concat':
        return list(t.args)
    if t.op == 'call' and t.args[0] in ('String::new', 'String::with_capacity') or t.op == 'str' and not t.args[0]:
        return []
    return [t]


def concat(a, b):
    r = []
    for x in pieces(a) + pieces(b):
        if r and x.op == 'str' and r[-1].op == 'str':
            r[-1] = mk('str', r[-1].args[0] + x.args[0])
        else:
            r.append(x)
    return mk('string', r[0] if len(r) == 1 else mk('concat', *r) if r else mk('str', ''))


@model('String::push_str', 'String::push')
def m_push_str(e, c):
    s = c.st.copy()
    v = fs(concat(x, mk('str', y.args[0]) if y.op == 'char' else y) for x in a0(e, c) for y in e.val(c.args[1], s))
    setref(e, c, 0, v, s)
    return [(fs([UNIT]), s)]


@model('Write::write_fmt', 'Write::write_str', 'Write::write_char')
def m_write_string(e, c):
    """Writing to a string never fails."""
    if 'alloc::string::String' not in (c.ref.get('self') or ''):
        return e.opaque_call(c.name, c.ref, c.args, c.st, c.fr, c.site, c.stack, c.fn, c.t, None)
    s = c.st.copy()
    v = fs(concat(x, mk('str', y.args[0]) if y.op == 'char' else y) for x in a0(e, c) for y in e.val(c.args[1], s))
    setref(e, c, 0, v, s)
    return [(fs([ok(UNIT)]), s)]


@model('IriRef::as_iri', 'IriRefBuf::as_iri', 'IriRef::as_iri_ref')
def m_as_iri(e, c):
    """Some iff the reference has a scheme."""
    return one(c, fs(mk('call', 'IriRef::as_iri', e.deep(t, c.st)) for t in a0(e, c)))


@model('TokenStream::new', 'TokenStream::default')
def m_tokens(e, c):
    return one(c, fs([VEC]))


@model('OnceLock::get_or_init', 'OnceCell::get_or_init')
def m_once_init(e, c):
    # what the cell holds, whoever filled it first, is what an initialiser made
    return callv(e, c, c.args[1], [], c.st, 'init')
