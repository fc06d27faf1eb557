"""Dehydration (tree value -> RDF dataset)."""
from contract import *
from rules.hy import KINDS, DATA, kindwhen, both

L = 'treeldr_layouts'
OPAQUE = {'Environment::intro', 'Environment::bind', 'Environment::instantiate_pattern', 'Environment::instantiate_dataset',
          'data::dehydrate_boolean', 'data::dehydrate_number', 'data::dehydrate_byte_string', 'data::dehydrate_text_string'}


def arity_ok(s, t, st):
    if t.op == 'eq' and 'len(inputs)' in s:
        return True
    return None


def rec(a):
    if len(a) != 7:
        return None
    x = [v for v, n in zip(a[:2], ('rdf', 'layouts')) if v not in (n, 'rec')]
    return 'R<%s>(%s)[%s]@%s' % (a[4], a[2], a[5], a[3]) + ''.join('!!' + v for v in x)


def jrec(a):
    # effect on the output: a = the other arguments
    return '+R<%s>(%s)[%s]@%s' % (a[4], a[2], a[5], a[3])


FMT = {
    '@okcells': True,
    '@threads': {('Environment::intro', 1), ('@rec', 0), ('InterpretationMut::new_resource', 0), ('InterpretationMut::new_resource', 1),
                 ('LiteralVocabularyMut::insert_owned_literal', 0), ('IriVocabularyMut::insert_owned', 0)},
    '@journal': {('Environment::instantiate_dataset', 3): lambda a: '+%s[%s]@%s' % (a[1], a[0], a[2]), ('@rec', 6): jrec,
                 ('DatasetMut::insert', 0): lambda a: '+' + a[0],
                 ('ReverseLiteralInterpretationMut::assign_literal', 0): lambda a: '+lit(%s, %s)' % tuple(a[:2]),
                 ('ReverseIriInterpretationMut::assign_iri', 0): lambda a: '+iri(%s, %s)' % tuple(a[:2])},
    'Environment::instantiate_dataset': lambda a: 'D(%s[%s]@%s)' % (a[1], a[0], a[2]),
    'LiteralVocabularyMut::insert_owned_literal': lambda a: a[1],
    'IriVocabularyMut::insert_owned': lambda a: a[1],
    'Environment::intro': lambda a: '%s>%s%s' % (a[0], a[2], '' if a[1] in ('rdf', 'rec') else '!!' + a[1]),
    'Environment::bind': lambda a: '%s>%s' % (a[0], a[1]),
    'Environment::instantiate_pattern': lambda a: 'I(%s; %s)' % (a[1], a[0]),
    '@fresh': {'InterpretationMut::new_resource'},
}


ITEMS = {'Product': 'F', 'Sum': 'L.variants[]', 'List:Unordered': 'L.item', 'List:Ordered': 'L.node', 'List:Sized': 'L.items[]'}


def contract(ctx):
    if 'de' not in ctx.cache:
        f = ctx.fn(crate=L, name='dehydrate_with', in_trait=None)
        ab = [('Environment::Root(inputs)', 'in'), ('rdf{interpretation:=seq[..rdf.interpretation, ', 'rdf[')]
        for k in KINDS:
            ab.append(('L:%s' % k, 'L'))
        ab.append(('get(L.fields, value:Map[].0)!', 'F'))
        for v in ITEMS.values():
            ab.append(('R<%s.value.layout>(' % v, 'SUB('))
            ab.append(('[seq[I(%s.value.input[]; ' % v, '[inputs '))
            ab.append(('Some(I(%s.value.graph!!; ' % v, 'named('))
        ab.append(('BTreeDataset::new()', 'scratch'))
        ctx.cache['de'] = Contract('dehydrate', f, ('rdf', 'layouts', 'value', 'graph', 'ref', 'inputs', 'out'), OPAQUE,
                                   None, [('LayoutRegistry::get(layouts, ref)!', 'L')], {}, None, rec, FMT, (1, 7),
                                   ('@rec',), ab)
    return ctx.cache['de']


FOUND = {'LayoutRegistry::get(layouts, ref)': 'Some'}


def graph(k, g):
    p = {'Product': 'get(L:Product.fields, value:Map[].0)!', 'Sum': 'L:Sum.variants[]', 'List:Unordered': 'L:List:Unordered.item',
         'List:Ordered': 'L:List:Ordered.node', 'List:Sized': 'L:List:Sized.items[]'}[k] + '.value.graph'
    return {p: 'None'} if g == 'None' else {p: 'Some', p + '!': 'None' if g == 'default' else 'Some'}


def show(ctx, kind, when=None, fn=arity_ok):
    c = contract(ctx)
    w = dict(FOUND)
    w.update(kindwhen(kind))
    w.update(when or {})
    s = c.run(ctx, w, fn)
    print('##', kind, when or '')
    for x in sorted({c.short(x) for x in s.summary(c.cells)}):
        print('   ->', x)
    for n in c.ev:
        for x in sorted({c.short(x) for x in s.calls(n)}):
            print('   ', n, x)
    for ev in s.panics():
        print('   !!', [c.short(y) for x in ev.args for y in s.canon.set(x)])
    u = s.unused()
    if u:
        print('   unused', u)


# ---- cases ------------------------------------------------------------------
INC = 'Err(Error::IncompatibleLayout)'
ENV = {k: 'in>L.intro>%s.intro' % v for k, v in ITEMS.items()}
OWN = '+L.dataset[in>L.intro]@graph'
ITEM = {'Product': 'value:Map[].1', 'Sum': 'value', 'List:Unordered': 'value:List[]', 'List:Ordered': 'value:List[]', 'List:Sized': 'value:List[]'}
VAL = {'Product': {'value': 'Map'}, 'List:Unordered': {'value': 'List'}, 'List:Ordered': {'value': 'List'}, 'List:Sized': {'value': 'List'},
       'Sum': {}, 'Literal:Id': {'value': 'Literal', 'value:Literal': 'TextString'}, 'Literal:Data:Unit': {}}
for _d in ('Boolean', 'Number', 'ByteString', 'TextString'):
    VAL['Literal:Data:' + _d] = {'value': 'Literal', 'value:Literal': _d}


def sub(k, env=None, g='graph'):
    v = ITEMS[k]
    e = env or ENV[k]
    gg = {'graph': 'graph', 'default': 'None', 'named': 'named(%s)?)' % e}[g]
    return 'SUB(%s)[inputs %s)?*]]@%s' % (ITEM[k], e, gg)


def when(k, *ws):
    w = dict(FOUND)
    w.update(kindwhen(k))
    for x in ws:
        w.update(x)
    return w


def assume(rec=None, dataset='Ok', pattern='Ok', unit=None, last_=None, lit='Ok'):
    """Assume the outcome of the recursive call and of the instantiations."""
    def f(s, t, st):
        if t.op == 'eq' and 'len(inputs)' in s:
            return True
        if t.op == 'eq' and '.const_' in s:
            return unit
        if last_ is not None:
            q = lastness(s, 'value:List')
            if t.op == 'peek' and q:
                return 'None' if last_ else 'Some'
            if q:
                return last_ if q == 'last' else not last_
        if t.op == 'call':
            n = t.args[0]
            if n == '@rec':
                return rec
            if n == 'Environment::instantiate_dataset':
                return dataset
            if n == 'Environment::instantiate_pattern':
                return pattern
            if n.startswith('data::dehydrate_'):
                return lit
        return None
    return f


OKS = assume('Ok')
ERRS = assume('Err')
UNIT_EQ = assume(unit=True)
UNIT_NE = assume(unit=False)
LIT_ERR = assume(unit=False, lit='Err')
LAST = assume('Ok', last_=True)
NOTLAST = assume('Ok', last_=False)
DS_ERR = assume('Ok', dataset='Err', unit=True)
PAT_ERR = assume('Ok', pattern='Err', unit=False)


def chain(a, b):
    """Environment of a node of an ordered list."""
    return 'in>L.intro>seq[%s, %s]>L.node.intro' % (a, b)


HEAD = 'I(L.head; in>L.intro)?'
TAIL = 'I(L.tail; in>L.intro)?'


def plain(x):
    return x.replace('+F.', '+get(').replace('+SUB', '+R<')


def okout(*els, rdf='rdf'):
    o = sorted(els, key=plain)
    return 'Ok(()) ; rdf=%s ; out=seq[..out, %s]' % (rdf, ', '.join(o)) if els else 'Ok(()) ; rdf=rdf ; out=out'


def grp(a, b):
    return '(%s)*' % ' '.join(sorted((a, b), key=plain))


MORE = {'Product': {'more(value:Map)': 'Some'}, 'Sum': {'more(L:Sum.variants)': 'Some'},
        'List:Unordered': {'more(value:List)': 'Some'}, 'List:Sized': {'more(value:List)': 'Some', 'more(L:List:Sized.items)': 'Some'},
        'List:Ordered': {'more(value:List)': 'Some', 'more(Range{end: len(value:List), start: 0})': 'Some'}}
MORES = {x for m in MORE.values() for x in m} | {'more(L:Product.fields)'}
GET = 'get(L:Product.fields, value:Map[].0)'


def lift(k, g=True):
    """What a turn of the loop over the parts of the value is about."""
    gp = min(graph(k, 'None'))

    def f(s, t):
        if s in MORES or t.op == 'call' and t.args[0] == '@rec' or s == GET:
            return True
        if s.startswith(gp):
            return g
        return bool(lastness(s, 'value:List')) or 'L:Product.fields[]' in s
    return f


def some(c, ctx, rep, k, case, w, spec, fn=None, g=True):
    c.some(ctx, rep, case, dict(w, **MORE[k]), spec, lift(k, g), fn)


def quads(ctx, rep):
    rep.rule('dehydrate-quads', 'what is added to the output is, for the layout and for each field, item or node in use, its dataset '
             'instantiated in its own scope and the current graph, and the dehydration of the sub-value into the graph its format says')
    c = contract(ctx)
    for k, v in ITEMS.items():
        if k in ('Sum', 'List:Ordered'):
            continue
        for g in ('None', 'default', 'named'):
            gn = {'None': 'graph', 'default': 'default', 'named': 'named'}[g]
            w = when(k, VAL[k], graph(k, g))
            if k == 'Product':
                w['get(L:Product.fields, value:Map[].0)'] = 'Some'
                w['L:Product.fields[].1.required'] = False
            c.check(ctx, rep, 'parts, %s, graph %s' % (k, gn), w,
                    {'out': [okout(OWN, grp('+%s.dataset[%s]@graph' % (v, ENV[k]), '+' + sub(k, g=gn)))] + ([INC] if k == 'List:Sized' else [])}, OKS)
            d, q = '+%s.dataset[%s]@graph' % (v, ENV[k]), '+' + sub(k, g=gn)
            some(c, ctx, rep, k, 'parts, %s, graph %s' % (k, gn), w, {'ok': [okout(OWN, grp(d, q), grp(d, q), d, q)]}, OKS, False)
    k, v = 'List:Ordered', 'L.node'
    for g in ('None', 'default', 'named'):
        gn = {'None': 'graph', 'default': 'default', 'named': 'named'}[g]
        w = when(k, VAL[k], graph(k, g))
        e = chain('lv{%s|fresh1}' % HEAD, 'fresh1')
        c.check(ctx, rep, 'node followed by another, graph ' + gn, w,
                {'out': [okout(OWN, grp('+%s.dataset[%s]@graph' % (v, e), '+' + sub(k, e, gn)))]}, NOTLAST)
        e = chain('lv{%s|%s}' % (HEAD, TAIL), TAIL)
        c.check(ctx, rep, 'last node, graph ' + gn, w,
                {'out': [okout(OWN, grp('+%s.dataset[%s]@graph' % (v, e), '+' + sub(k, e, gn)))]}, LAST)
    c.check(ctx, rep, 'empty ordered list', when(k, VAL[k], {'len(value:List)': 0, 'more(value:List)': 'None',
                                                            'more(Range{end: len(value:List), start: 0})': 'None'}),
            {'out': [okout(OWN)]}, OKS)
    for d in ('boolean', 'number', 'text_string', 'byte_string'):
        k = 'Literal:Data:' + {'boolean': 'Boolean', 'number': 'Number', 'text_string': 'TextString', 'byte_string': 'ByteString'}[d]
        val = 'value:Literal:' + k.split(':')[2]
        lit = '+lit(I(L.resource; in>L.intro)?, data::dehydrate_%s(rdf, %s, L.datatype)?)' % (d, val)
        c.check(ctx, rep, 'literal, ' + k, when(k, VAL[k]), {'out': [okout(OWN, rdf='rdf[%s]}' % lit)]}, UNIT_NE)
    k = 'Literal:Id'
    c.check(ctx, rep, 'identifier', when(k, VAL[k], {'IriBuf::new(value:Literal:TextString)': 'Ok'}), {
        'out': [okout(OWN, rdf='rdf[+iri(I(L.resource; in>L.intro)?, IriBuf::new(value:Literal:TextString)?)]}')]}, UNIT_NE)
    c.check(ctx, rep, 'unit', when('Literal:Data:Unit'), {'out': [okout(OWN)]}, UNIT_EQ)
    c.check(ctx, rep, 'top', when('Always'), {'out': [okout()]}, arity_ok)


VALUES = [('Literal', 'Unit'), ('Literal', 'Boolean'), ('Literal', 'Number'), ('Literal', 'ByteString'), ('Literal', 'TextString'), ('Map',), ('List',)]


def strict(ctx, rep):
    rep.rule('dehydrate-strict', 'a value of another form than the layout describes, an unknown key, a missing required key, a sized list of '
             'the wrong length, a string that is no IRI where an identifier is expected and any failing part end in an error')
    c = contract(ctx)
    for k in VAL:
        if k == 'Sum':
            continue
        for v in VALUES:
            w = {'value': v[0]}
            if len(v) > 1:
                w['value:Literal'] = v[1]
            if k != 'Literal:Data:Unit' and all(VAL[k].get(a, b) == b for a, b in w.items()):
                continue
            c.check(ctx, rep, '%s given %s' % (k, '/'.join(v)), when(k, w), {'out': [INC]}, UNIT_NE)
    c.check(ctx, rep, 'Never', when('Never'), {'out': [INC]}, arity_ok)
    w = when('Product', VAL['Product'], graph('Product', 'None'))
    get = GET
    c.check(ctx, rep, 'unknown key', dict(w, **{get: 'None', 'more(value:Map)': 'Some'}), {'out': [INC]}, OKS)
    some(c, ctx, rep, 'Product', 'unknown key', dict(w, **{get: 'None'}), {'out': [INC]}, OKS)
    req = 'Err(Error::MissingRequiredKey{key: L.fields[].0, layout: ref, value: value:Map})'

    def has(b, r):
        def f(s, t, st):
            if 'L:Product.fields[].0' in s and 'value:Map' in s and t.op in ('call', 'is', 'has', 'get', 'contains', 'contains_key'):
                if s.startswith('get('):
                    return 'Some' if b else 'None'
                return b
            if s == 'L:Product.fields[].1.required':
                return r
            return OKS(s, t, st)
        return f
    w2 = dict(w, **{'more(L:Product.fields)': 'Some', get: 'Some'})
    c.check(ctx, rep, 'required key missing', w2, {'out': [req]}, has(False, True))
    some(c, ctx, rep, 'Product', 'required key missing', w2, {'out': [req]}, has(False, True))
    ok = okout(OWN, grp('+F.dataset[%s]@graph' % ENV['Product'], '+' + sub('Product')))
    w3 = dict(w, **{get: 'Some'})
    c.check(ctx, rep, 'optional key missing', w3, {'out': [ok]}, has(False, False))
    c.check(ctx, rep, 'required key present', w3, {'out': [ok]}, has(True, True))
    w = when('List:Sized', VAL['List:Sized'], graph('List:Sized', 'None'))
    c.check(ctx, rep, 'sized list too short', dict(w, **{'more(value:List)': 'None', 'more(L:List:Sized.items)': 'Some'}), {'out': [INC]}, OKS)
    c.check(ctx, rep, 'sized list too long', dict(w, **{'more(value:List)': 'Some', 'more(L:List:Sized.items)': 'None'}), {'out': [INC]}, OKS)
    c.check(ctx, rep, 'not an IRI', when('Literal:Id', VAL['Literal:Id'], {'IriBuf::new(value:Literal:TextString)': 'Err'}), {'out': [INC]}, UNIT_NE)
    # failures of the parts
    for k, v in ITEMS.items():
        if k == 'Sum':
            continue
        w = when(k, VAL[k], graph(k, 'None'), {'more(%s)' % ITEM[k][:-2 if not ITEM[k].endswith('.1') else -4]: 'Some'})
        if k == 'Product':
            w[get] = 'Some'
        if k == 'List:Sized':
            w['more(L:List:Sized.items)'] = 'Some'
        f = ERRS
        if k == 'List:Ordered':
            f = assume('Err', last_=True)
            w['more(Range{end: len(value:List), start: 0})'] = 'Some'
            e = chain(HEAD, TAIL)
            c.check(ctx, rep, 'part fails, ' + k, w, {'out': ['Err(%s:Err)' % sub(k, e)]}, f)
        else:
            c.check(ctx, rep, 'part fails, ' + k, w, {'out': ['Err(%s:Err)' % sub(k)]}, f)
            some(c, ctx, rep, k, 'part fails, ' + k, w, {'out': ['Err(%s:Err)' % sub(k)]}, f)
    for k in VAL:
        c.check(ctx, rep, 'dataset cannot be instantiated, ' + k, when(k, VAL[k]), {'nev': ['Ok(']}, DS_ERR)
    for d in DATA[1:]:
        k = 'Literal:Data:' + d
        c.check(ctx, rep, 'literal cannot be written, ' + k, when(k, VAL[k]), {'nev': ['Ok(']}, LIT_ERR)
        c.check(ctx, rep, 'resource cannot be instantiated, ' + k, when(k, VAL[k]), {'nev': ['Ok(']}, PAT_ERR)


def sums(ctx, rep):
    rep.rule('dehydrate-sum', 'a value is written through the one variant that accepts it; quads of rejected variants stay out; two '
             'accepting variants are an ambiguity, none an incompatibility')
    c = contract(ctx)
    k, v = 'Sum', 'L.variants[]'
    for g in ('None', 'default', 'named'):
        gn = {'None': 'graph', 'default': 'default', 'named': 'named'}[g]
        tmp = 'seq[%s]' % ', '.join(sorted(['+%s.dataset[%s]@graph' % (v, ENV[k]), '+' + sub(k, g=gn)]))
        c.check(ctx, rep, 'a variant accepts, graph ' + gn, when(k, graph(k, g)), {
            'out': ['Ok(()) ; rdf=rdf ; out=seq[..out, %s, +%s[]*]' % (OWN, tmp), 'Err(Error::DataAmbiguity)', INC]}, OKS)
        pre, one, more = 'seq[..out, ' + OWN, ', +%s[]' % tmp, ', +%s[]*]' % tmp
        forms = (pre + more, pre + one + more, '{%s|%s}' % (pre + one + more, pre + more))
        for f, n in ((OKS, 'accepts'), (ERRS, 'rejects')):
            some(c, ctx, rep, k, 'a variant %s, graph %s' % (n, gn), when(k, graph(k, g)), {
                'ok': [tuple('Ok(()) ; rdf=rdf ; out=' + x for x in forms)], 'errs': ['Err(Error::DataAmbiguity)'] + ([] if n == 'accepts' else [INC])}, f, False)
    w = when(k, graph(k, 'None'))
    c.check(ctx, rep, 'all variants accept', dict(w, **{'more(L:Sum.variants)': 'Some'}), {'out': ['Err(Error::DataAmbiguity)']}, OKS)
    c.check(ctx, rep, 'no variant accepts', w, {'out': [INC]}, ERRS)


def lookup(ctx, rep):
    rep.rule('dehydrate-lookup', 'an unknown layout reference or a wrong number of inputs ends dehydration with the corresponding error')
    c = contract(ctx)
    c.check(ctx, rep, 'unknown layout', {'LayoutRegistry::get(layouts, ref)': 'None'}, {'out': ['Err(Error::LayoutNotFound(ref))']})

    def bad(s, t, st):
        if t.op == 'eq' and 'len(inputs)' in s:
            return False
        return None
    for k in KINDS:
        if k in ('Never', 'Always'):
            continue
        c.check(ctx, rep, 'wrong number of inputs, ' + k, when(k), {
            'out': ['Err(Error::InvalidInputCount{expected: %s, found: len(inputs)})' % 'L.input']}, bad)


# ---- scopes: Environment ------------------------------------------------------
def environment(ctx, rep, crate=L):
    from rules.prim import simple
    rep.rule('dehydrate-scope', 'variable i of a scope is input i, or introduced variable i minus the number of variables of the outer scopes; '
             'introduced variables are fresh resources; a pattern is instantiated by its resource or by what its variable is bound to, an '
             'undeclared variable is an error; the instantiated dataset has one quad per quad pattern, in its own graph or the current one')
    A = 'Environment'
    P = crate + ' Environment::'
    g = 'Environment::get(self:Child, i)'
    simple(ctx, rep, P + 'get', ctx.fn(crate=crate, name='get', adt=A), ('self', 'i'), [
        ('input', {'self': 'Root', 'get(self:Root, i)': 'Some'}, ['Ok(get(self:Root, i)!)']),
        ('not an input', {'self': 'Root', 'get(self:Root, i)': 'None'}, ['Err(bin(Sub, i, len(self:Root)))']),
        ('of an outer scope', {'self': 'Child', g: 'Ok'}, ['Ok(%s?)' % g]),
        ('of this scope', {'self': 'Child', g: 'Err', 'get(self:Child.1, %s:Err)' % g: 'Some'}, ['Ok(get(self:Child.1, %s:Err)!)' % g]),
        ('undeclared', {'self': 'Child', g: 'Err', 'get(self:Child.1, %s:Err)' % g: 'None'}, ['Err(bin(Sub, %s:Err, len(self:Child.1)))' % g]),
    ], opaque={'Environment::get'})
    simple(ctx, rep, P + 'bind', ctx.fn(crate=crate, name='bind', adt=A), ('self', 'resources'), [
        ('bind', {}, ['Environment::Child(self, resources)'])])
    fr = {'@fresh': {'InterpretationMut::new_resource'},
          '@threads': {('InterpretationMut::new_resource', 0), ('InterpretationMut::new_resource', 1)}}
    simple(ctx, rep, P + 'intro', ctx.fn(crate=crate, name='intro', adt=A), ('self', 'rdf', 'count'), [
        ('intro', {}, ['Environment::Child(self, seq[fresh1*])']),
        ('none', {'more(Range{end: count, start: 0})': 'None'}, ['Environment::Child(self, seq[])']),
        ('some', {'more(Range{end: count, start: 0})': 'Some'}, [])], fmt=fr)
    simple(ctx, rep, P + 'instantiate_pattern', ctx.fn(crate=crate, name='instantiate_pattern', adt=A), ('self', 'pattern'), [
        ('resource', {'pattern': 'Resource'}, ['Ok(pattern:Resource)']),
        ('declared variable', {'pattern': 'Var', 'Environment::get(self, pattern:Var)': 'Ok'}, ['Ok(Environment::get(self, pattern:Var)?)']),
        ('undeclared variable', {'pattern': 'Var', 'Environment::get(self, pattern:Var)': 'Err'}, ['Err(Error::UndeclaredVariable(pattern:Var))']),
    ], opaque={'Environment::get'})
    I = lambda p: 'Environment::instantiate_pattern(self, %s)' % p
    simple(ctx, rep, P + 'instantiate_patterns', ctx.fn(crate=crate, name='instantiate_patterns', adt=A), ('self', 'patterns'), [
        ('all declared', {I('patterns[]'): 'Ok'}, ['Ok(seq[%s?*])' % I('patterns[]')]),
        ('one undeclared', {I('patterns[]'): 'Err', 'more(patterns)': 'Some'}, ['Err(%s:Err)' % I('patterns[]')])],
        opaque={'Environment::instantiate_pattern'})
    q = ['quad.0', 'quad.1', 'quad.2', 'quad.3!']
    ok = {I(x): 'Ok' for x in q}
    cases = [('default graph', dict(ok, **{'quad.3': 'None'}), ['Ok(Quad(%s, None))' % ', '.join(I(x) + '?' for x in q[:3])]),
             ('named graph', dict(ok, **{'quad.3': 'Some'}), ['Ok(Quad(%s, Some(%s?)))' % (', '.join(I(x) + '?' for x in q[:3]), I(q[3]))])]
    for x in q:
        cases.append(('undeclared variable at ' + x, dict(ok, **{'quad.3': 'Some', I(x): 'Err'}), ['Err(%s:Err)' % I(x)]))
    simple(ctx, rep, P + 'instantiate_quad', ctx.fn(crate=crate, name='instantiate_quad', adt=A), ('self', 'quad'), cases,
           opaque={'Environment::instantiate_pattern'})
    inst_dataset(ctx, rep, crate)


def inst_dataset(ctx, rep, crate=L):
    from rules.prim import simple
    f = ctx.fn(crate=crate, name='instantiate_dataset', adt='Environment')
    Q = 'Environment::instantiate_quad(self, quads(input)[])'
    fmt = {'@journal': {('DatasetMut::insert', 0): lambda a: '+' + a[0]}, '@okcells': True}
    simple(ctx, rep, crate + ' Environment::instantiate_dataset', f, ('self', 'input', 'graph', 'output'), [
        ('quad with a graph', {Q: 'Ok', Q + '?.3': 'Some'}, ['Ok(()) ; output=seq[..output, +%s?*]' % Q]),
        ('quad without graph', {Q: 'Ok', Q + '?.3': 'None', 'graph': 'Some'}, ['Ok(()) ; output=seq[..output, +%s?{3:=Some(graph!)}*]' % Q]),
        ('quad without graph, default graph', {Q: 'Ok', Q + '?.3': 'None', 'graph': 'None'}, ['Ok(()) ; output=seq[..output, +%s?*]' % Q]),
        ('quad cannot be instantiated', {Q: 'Err', 'more(quads(input))': 'Some'}, ['Err(%s:Err)' % Q]),
    ], opaque={'Environment::instantiate_quad'}, cells=(4,), fmt=fmt)


# ---- literals -----------------------------------------------------------------
def literals(ctx, rep):
    from rules.prim import simple
    rep.rule('dehydrate-literal', 'a boolean, number or text is written in the lexical form of the value itself with an IRI of the declared '
             'datatype as type; a datatype the library cannot write is an error')
    it = 'ReverseIriInterpretation::iris_of(rdf.interpretation, type)'
    lit = lambda v: 'Ok(Literal::new(%s, LiteralType::Any(%s[])))' % (v, it)
    P = ('rdf', 'value', 'type')

    def eq(b):
        def f(s, t, st):
            return b if t.op == 'eq' and 'XSD_BOOLEAN' in s else None
        return f
    m = {'more(%s)' % it: 'Some'}
    simple(ctx, rep, 'dehydrate_boolean', ctx.fn(crate=L, name='dehydrate_boolean'), P, [
        ('any', {}, [lit('value'), INC]), ('no datatype', {'more(%s)' % it: 'None'}, [INC]),
        ('xsd:boolean', eq(True), {'sub': [lit('value'), INC]}), ('another datatype', eq(False), [INC])])
    dec = 'TryFrom::try_from(value.0)'
    dt = 'Datatype::from_iri(IriVocabulary::iri(rdf.vocabulary, %s[])!)' % it
    simple(ctx, rep, 'dehydrate_number', ctx.fn(crate=L, name='dehydrate_number'), P, [
        ('decimal datatype', dict(m, **{dec: 'Ok', dt: 'Some', dt + '!': 'Decimal'}), [lit('string(%s?)' % dec)]),
        ('no datatype', {'more(%s)' % it: 'None'}, [INC]),
        ('unknown datatype', {dt: 'None'}, [INC]),
        ('another datatype', {dt: 'Some', dt + '!': 'String'}, [INC]),
        ('no decimal representation', {dec: 'Err'}, [INC])])
    simple(ctx, rep, 'dehydrate_text_string', ctx.fn(crate=L, name='dehydrate_text_string'), P, [
        ('datatype', m, [lit('value')]), ('no datatype', {'more(%s)' % it: 'None'}, [INC])])


# ---- from tree to terms: dehydrate ----------------------------------------------
def terms(ctx, rep):
    from rules.prim import simple
    rep.rule('dehydrate-terms', 'the output dataset is the dehydrated dataset with every resource replaced by a term: its own term, the one '
             'IRI or literal the value gives it (two different ones are an ambiguity), or else a generated one, the same everywhere; the '
             'terms of the inputs are returned in order')
    f = ctx.fn(crate=L, name='dehydrate', in_trait=None)
    P = ('layouts', 'value', 'ref', 'options')
    mr = [g for g in ctx.prog.find(crate=L, name='map_resource') if 'dehydrate' in g.path]
    if len(mr) != 1:
        raise Anchor('expected one function map_resource in dehydrate, found %d' % len(mr))
    MR = 'dehydrate::map_resource'
    fmt = {'@post': {('de::dehydrate_with', '0/1'): lambda a: 'I', ('de::dehydrate_with', 6): lambda a: 'ds'},
           '@threads': {(MR, 0), (MR, 2)}, MR: lambda a: 'T<%s>(%s)%s' % (a[0], a[1], '' if a[2] == 'options' else '!!' + a[2]),
           'de::dehydrate_with': lambda a: 'DW'}
    ab = [('InputResource::', ''), ('Layout::input_count(L)!', 'count')]

    def out(m, n='count', g='None'):
        T = lambda x: 'T<%s>(%s)' % (m, x)
        return 'Ok((seq[Quad(%s, %s)*], seq[%s*]))' % (', '.join(T('ds[].%d' % i) for i in range(3)), g if g == 'None' else 'Some(%s)' % T('ds[].3!'),
                                                     T('Input(idx(Range{end: %s, start: 0}))' % n))

    def go(dw='Ok', eq=None):
        def h(s, t, st):
            if s == 'DW' and t.op == 'call':
                return dw
            if t.op == 'eq' and 'I.map' in s:
                return eq
            return None
        return h
    found = {'LayoutRegistry::get(layouts, ref)': 'Some'}
    cnt = dict(found, **{'Layout::input_count(L)': 'Some'})
    g0, g1 = {'ds[].3': 'None'}, {'ds[].3': 'Some'}
    nomap = {'more(I.map)': 'None'}
    c = Contract('dehydrate into terms', f, P, {'de::dehydrate_with', 'Layout::input_count', MR}, None,
                 [('LayoutRegistry::get(layouts, ref)!', 'L')], {}, None, None, fmt, (), ('de::dehydrate_with',), ab)
    c.check(ctx, rep, 'unknown layout', {'LayoutRegistry::get(layouts, ref)': 'None'}, {'out': ['Err(Error::LayoutNotFound(ref))'],
                                                                                     'ev': {'de::dehydrate_with': []}}, go())
    ctxs = 'RdfContextMut{interpretation: InputInterpretation{anonymous_count: 0, map: seq[]}, vocabulary: ()}'
    call = lambda n: '(%s, layouts, value, None, ref, seq[Input(idx(Range{end: %s, start: 0}))*], seq[])' % (ctxs, n)
    for nm, w, n in (('declared by the layout', {}, 'count'),
                     ('given in the options', {'Layout::input_count(L)': 'None', 'options.input_count': 'Some'}, 'options.input_count!'),
                     ('default', {'Layout::input_count(L)': 'None', 'options.input_count': 'None'}, '1')):
        w2 = dict(cnt, **w)
        ev = {'de::dehydrate_with': [call(n)]}
        c.check(ctx, rep, 'input count ' + nm, dict(w2, **nomap, **g0), {'out': [out('seq[]', n)], 'ev': ev}, go())
        c.check(ctx, rep, 'input count %s, named graph' % nm, dict(w2, **nomap, **g1), {'out': [out('seq[]', n, 'g')], 'ev': ev}, go())
    c.check(ctx, rep, 'dehydration fails', cnt, {'out': ['Err(DW:Err)']}, go('Err'))
    amb = lambda a: 'Err(Error::TermAmbiguity(TermAmbiguity{a: %s, b: I.map[].1[]}))' % a
    t = dict(cnt, **g0)
    t['I.map[].0'] = 'Term'
    c.check(ctx, rep, 'a term is given another term', dict(t, **{'more(I.map[].1)': 'Some', 'more(I.map)': 'Some'}), {'out': [amb('I.map[].0:Term')]}, go(eq=False))
    c.check(ctx, rep, 'a term is given itself', t, {'out': [out('seq[]')]}, go(eq=True))
    for v in ('Input', 'Anonymous'):
        t = dict(cnt, **g0)
        t['I.map[].0'] = v
        c.check(ctx, rep, '%s resource with terms' % v, t, {'each': False, 'out': [out('seq[]'), out('seq[I.map[].0 => I.map[].1[]*]'), amb('I.map[].1[]')]}, go())
        c.check(ctx, rep, '%s resource without term' % v, dict(t, **{'more(I.map[].1)': 'None'}), {'out': [out('seq[]')]}, go())
        c.check(ctx, rep, '%s resource with several terms' % v, dict(t, **{'more(I.map)': 'Some', 'more(I.map[].1)': 'Some'}), {'out': [amb('I.map[].1[]')]}, go())
    g = 'get(map, r)'

    def has(b):
        def h(s, t, st):
            if 'map' in s and s.endswith(', r)'):
                return ('Some' if b else 'None') if s.startswith('get') else b
            return None
        return h
    m = Contract('map_resource', mr[0], ('map', 'r', 'options'), (), cells=(1, 3))
    gen = 'Generator::next(options.generator, ())'
    same = ' ; map=map ; options=options'
    m.check(ctx, rep, 'term', {'r': 'Term'}, {'out': ['r:Term' + same]}, has(False))
    for v, new, o in (('Input', 'fnptr(options.input_term_generator, r:Input)', 'options'),
                      ('Anonymous', 'Term::Id(%s)' % gen, 'options{generator:=Generator::next#0(options.generator, ())}')):
        m.check(ctx, rep, v + ' with a term', {'r': v}, {'out': ['map[r]' + same]}, has(True))
        m.check(ctx, rep, v + ' without term', {'r': v}, {'out': ['%s ; map=seq[..map, r => %s] ; options=%s' % (new, new, o)]}, has(False))
    A = 'InputInterpretation'
    simple(ctx, rep, 'new_resource', ctx.fn(crate=L, name='new_resource', adt=A), ('self', 'v'), [
        ('new', {}, ['InputResource::Anonymous(self.anonymous_count) ; self=self{anonymous_count:=self.anonymous_count+1}'])], cells=(1,))
    for n, v in (('assign_iri', 'Term::iri(x)'), ('assign_literal', 'Term::Literal(x)')):
        k = Contract(n, ctx.fn(crate=L, name=n, adt=A), ('self', 'id', 'x'), (), cells=(1,))
        for b, o in ((True, 'HashSet::insert(self.map[id], %s) ; self=self{map:=self.map{[id]:=seq[..self.map[id], %s]}}' % (v, v)),
                     (False, 'HashSet::insert(seq[], %s) ; self=self{map:=seq[..self.map, id => seq[%s]]}' % (v, v))):
            def h(s, t, st, b=b):
                if 'self.map' in s and s.endswith(', id)'):
                    return ('Some' if b else 'None') if s.startswith('get') else b
                return None
            k.check(ctx, rep, 'other term' if b else 'first term', {}, {'out': [o]}, h)
    for n, adt, pat in (('iris_of', 'IrisOf', ':Id:Iri'), ('literals_of', 'LiteralsOf', ':Literal')):
        z = ctx.fn(crate=L, name=n, adt=A)
        simple(ctx, rep, n, z, ('self', 'id'), [
            ('term', {'id': 'Term', 'get(self.map, id)': 'Some'}, ['%s{additional_terms: Some(get(self.map, id)!), term: Some(id:Term)}' % adt]),
            ('assigned', {'id': 'Anonymous', 'get(self.map, id)': 'Some'}, ['%s{additional_terms: Some(get(self.map, id)!), term: None}' % adt]),
            ('nothing', {'id': 'Anonymous', 'get(self.map, id)': 'None'}, ['%s{additional_terms: None, term: None}' % adt])])
        own = {'self.term': 'Some', 'self.term!': 'Id', 'self.term!:Id': 'Iri'} if adt == 'IrisOf' else {'self.term': 'Some', 'self.term!': 'Literal'}
        a = 'self.additional_terms!'
        simple(ctx, rep, adt + '::next', ctx.fn(crate=L, name='next', adt=adt), ('self',), [
            ('own term', own, ['Some(self.term!%s) ; self=self{term:=None}' % pat]),
            ('nothing', {'self.term': 'None', 'self.additional_terms': 'None'}, ['None ; self=self']),
            ('assigned', {'self.term': 'None', 'self.additional_terms': 'Some'}, ['None ; self=self', 'Some(%s[]%s) ; self=self' % (a, pat)]),
            ('assigned of the other kind', {'self.term': 'None', 'self.additional_terms': 'Some', a + '[]': 'Literal' if adt == 'IrisOf' else 'Id', a + '[]:Id': 'Iri'},
             ['None ; self=self'])], cells=(1,))
    O = 'Options'
    simple(ctx, rep, 'Options::with_input_count', ctx.fn(crate=L, name='with_input_count', adt=O), ('self', 'n'), [('set', {}, ['self{input_count:=Some(n)}'])])
    simple(ctx, rep, 'Options::with_generator', ctx.fn(crate=L, name='with_generator', adt=O), ('self', 'g'), [('set', {}, ['self{generator:=g}'])])
    simple(ctx, rep, 'Options::with_input_term_generator', ctx.fn(crate=L, name='with_input_term_generator', adt=O), ('self', 'f'),
           [('set', {}, ['self{input_term_generator:=f}'])])


def isolated(ctx, rep):
    rep.rule('sum-isolation', 'a variant that is tried must not be given the interpretation of the value being written: what a rejected variant '
             'says about the terms of the resources would remain')
    c = contract(ctx)
    s = c.run(ctx, when('Sum', graph('Sum', 'None')), OKS)
    evs = s.events('@rec')
    if not evs:
        raise Anchor('no recursive call found in the sum case of dehydrate_with')
    for ev in evs:
        rep.obligations += 1
        for x in alts(ev.args[0]):
            if s.canon(x) == 'rdf':
                rep.fail('dehydrate/sum: variants are tried on the shared interpretation', 'the recursive call made for each variant is given '
                         'the interpretation of the caller: IRIs and literals assigned by a rejected variant are kept', ev.span)
