"""Hash-consed provenance terms."""

_tab = {}


class T:
    __slots__ = ('op', 'args', 'h', 'sites', 'size', 'n')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __lt__(self, o):
        return key(self) < key(o)


def key(t):
    return t.n


MAXSIZE = 6000


def mk(op, *args, site=None):
    if site is not None:
        for a in args:
            if isinstance(a, T) and site in a.sites:
                args = tuple(prune(x, site) if isinstance(x, T) else x for x in args)
                break
        args = args + (('@', site),)
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        size = 1
        sites = frozenset()
        for a in args:
            if isinstance(a, T):
                size += a.size
                if a.sites:
                    sites = sites | a.sites
            elif isinstance(a, tuple) and len(a) == 2 and a[0] == '@':
                x = a[1]
                sites = sites | {x}
                while isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], str):
                    x = x[0]        # made on behalf of an iteration at x
                    sites = sites | {x}
        if size > MAXSIZE and op not in ('deep', 'rec'):
            return mk('deep')
        t = T()
        t.op = op
        t.args = args
        t.size = size
        t.sites = sites
        t.h = hash(k)
        t.n = len(_tab)
        _tab[k] = t
    return t


def prune(t, site):
    """Replace sub-terms made at `site` by a recursion marker."""
    if site not in t.sites:
        return t
    for a in t.args:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == '@' and a[1] == site:
            return mk('rec', str(site))
    return mk(t.op, *[prune(a, site) if isinstance(a, T) else a for a in t.args])


def ts(t):
    """Term arguments without the site marker."""
    return [a for a in t.args if not (isinstance(a, tuple) and len(a) == 2 and a[0] == '@')]


def site_of(t):
    for a in t.args:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == '@':
            return a[1]
    return None


def chain_pos(t):
    """Where in a chain of iterators an element comes from."""
    x, r = site_of(t), ''
    while isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], str):
        if x[1] in ('c1', 'c2'):
            r = {'c1': '\x01', 'c2': '\x02'}[x[1]] + r
        x = x[0]
    return r


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, str) else t
    a = ts(t)
    o = t.op
    if d > 14:
        return '...'
    s = lambda x: show(x, d + 1)
    if o == 'param':
        return '%s' % a[1]
    if o == 'fd':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'pl':
        return '(%s as %s).%s' % (s(a[0]), a[1], a[2])
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'post':
        return '%s#%d(%s)' % (a[0], a[1], ', '.join(s(x) for x in a[2:]))
    if o == 'agg':
        nm = a[0].rsplit('::', 1)[-1] + ('::' + a[1] if a[1] else '')
        if a[3:]:
            return '%s{%s}' % (nm, ', '.join('%s: %s' % (n, s(v)) for n, v in zip(a[2], a[3:])))
        return nm
    if o == 'str':
        return repr(a[0])
    if o == 'int':
        return str(a[0])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o == 'mref':
        return '&mut%s' % (a[0],)
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def walk(t):
    """All distinct sub-terms, including t."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('tuple')
UNKNOWN = mk('unknown')


def phi(vals):
    """One term standing for a set of terms."""
    fl = set()
    for v in vals:
        if v.op == 'phi':
            fl.update(v.args)
        else:
            fl.add(v)
    if len(fl) == 1:
        return next(iter(fl))
    if not fl:
        return mk('never')
    if len(fl) > 24:
        return mk('top')
    return mk('phi', *sorted(fl, key=key))


def unphi(t):
    if t.op == 'phi':
        return frozenset(t.args)
    if t.op == 'never':
        return frozenset()
    return frozenset([t])


OPTION = 'core::option::Option'
RESULT = 'core::result::Result'


def some(v):
    return mk('agg', OPTION, 'Some', ('0',), v)


NONE = mk('agg', OPTION, 'None', ())


def ok(v):
    return mk('agg', RESULT, 'Ok', ('0',), v)


def err(v):
    return mk('agg', RESULT, 'Err', ('0',), v)


def agg(adt, var, names, vals):
    return mk('agg', adt, var, tuple(names), *vals)


def neg(t):
    if t.op == 'not':
        return t.args[0]
    if t.op == 'bool':
        return FALSE if t.args[0] else TRUE
    return mk('not', t)
