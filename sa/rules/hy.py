"""Hydration (RDF dataset -> tree value)."""
import re
from contract import *

KINDS = ['Literal:Data:Unit', 'Literal:Data:Boolean', 'Literal:Data:Number', 'Literal:Data:ByteString', 'Literal:Data:TextString',
         'Literal:Id', 'Sum', 'Product', 'List:Unordered', 'List:Ordered', 'List:Sized', 'Never', 'Always']
OPAQUE = {'Matching::new', 'Substitution::from_inputs', 'Substitution::intro', 'Substitution::push', 'Pattern::apply',
          'Pattern::into_resource', 'Substitution::get'}
DATA = ['Unit', 'Boolean', 'Number', 'ByteString', 'TextString']


def opaque_next(t):
    return t.name == 'next' and t.self_adt and last(t.self_adt) == 'Matching'


def rec(a):
    if len(a) != 7:
        return None
    x = [v for v, n in zip(a[:4], ('vocabulary', 'interpretation', 'context', 'dataset')) if v != n]
    return 'H<%s>(%s)@%s' % (a[5], a[6], a[4]) + ''.join('!!' + v for v in x)


def kindwhen(kind):
    w = {}
    p = 'L'
    for k in kind.split(':'):
        w[p] = k
        p += ':' + k
    return w


def arity_ok(s, t, st):
    if t.op == 'eq' and 'len(inputs)' in s:
        return True
    return None


def contract(ctx):
    if 'hy' not in ctx.cache:
        f = ctx.fn(crate='treeldr_layouts', name='hydrate_with', in_trait=None)
        ab = []
        for p in ('Product', 'Sum', 'List:Unordered', 'List:Ordered', 'List:Sized', 'Literal:Id') + tuple('Literal:Data:' + d for d in DATA):
            ab.append(('one0(M<quads(L:%s.dataset)@graph>)' % p, 's0'))
        for v in ('Product.fields[].1', 'Sum.variants[]', 'List:Unordered.item', 'List:Ordered.node', 'List:Sized.items[]'):
            ab.append(('one0(M<quads(L:%s.dataset)@graph>)' % v, 's1'))
            ab.append(('H<L:%s.value.layout>(seq[apply(L:%s.value.input[]; s1)!*])' % (v, v), 'SUB'))
            ab.append(('SUB@Some(apply(L:%s.value.graph!!; s1)!)' % v, 'SUB@named'))
        for p in [x for x in KINDS if x.startswith('Literal')]:
            ab.append(('apply(L:%s.resource; s0)!' % p, 'res'))
        ab.append(('LiteralVocabulary::literal(vocabulary, ReverseLiteralInterpretation::literals_of(interpretation, res)[])!', 'lit'))
        ab.append(('IriVocabulary::iri(vocabulary, lit.type_:Any)!', 'dtiri'))
        ab.append(('apply(L:List:Ordered.tail; s0)!', 'TAIL'))
        ab.append(('apply(L:List:Ordered.head; s0)!', 'HEAD'))
        ab.append(('lv{HEAD|Substitution::get(s1, Substitution::intro(s0+push(Some(^)), L:List:Ordered.node.intro+1))!}', 'CUR'))
        ab.append(('lv{Substitution::get(s1, Substitution::intro(s0+push(Some(^)), L:List:Ordered.node.intro+1))!|HEAD}', 'CUR'))
        ab.append(('idx(L:Sum.variants)', 'IDX'))
        ab.append(('idx(L:List:Sized.items)', 'IDX'))
        ab.append(('lv{0|^+1}', 'IDX'))
        ctx.cache['hy'] = Contract('hydrate', f, ('vocabulary', 'interpretation', 'context', 'dataset', 'graph', 'ref', 'inputs'), OPAQUE,
                                   opaque_next, [('LayoutRegistry::get(context, ref)!', 'L')], {}, None, rec, None, (),
                                   ('Matching::new', '@rec'), ab)
    return ctx.cache['hy']


FOUND = {'LayoutRegistry::get(context, ref)': 'Some'}


def show(ctx, kind, when=None):
    c = contract(ctx)
    w = dict(FOUND)
    w.update(kindwhen(kind))
    w.update(when or {})
    s = c.run(ctx, w, arity_ok)
    print('##', kind, when or '')
    for x in sorted({c.short(x) for x in s.summary()}):
        print('   ->', x)
    for n in ('Matching::new', '@rec'):
        for x in sorted({c.short(x) for x in s.calls(n)}):
            print('   ', n, x)
    for ev in s.panics():
        print('   !!', [c.short(y) for x in ev.args for y in s.canon.set(x)])
    u = s.unused()
    if u:
        print('   unused', u)


# ---- cases ------------------------------------------------------------------
def own(kind, n0, n1=None):
    m = 'M<quads(L:%s.dataset)@graph>' % kind
    w = {'next0(%s)' % m: n0}
    if n1:
        w['next1(%s)' % m] = n1
    return w


SUBS = {'Product': 'Product.fields[].1', 'Sum': 'Sum.variants[]', 'List:Unordered': 'List:Unordered.item', 'List:Ordered': 'List:Ordered.node',
        'List:Sized': 'List:Sized.items[]'}
LOOPS = {'Product': 'L:Product.fields', 'Sum': 'L:Sum.variants', 'List:Sized': 'L:List:Sized.items'}
FRAG = {'Product': 'DataFragment::Key{key: L:Product.fields[].0, layout: ref}',
        'Sum': 'DataFragment::Variant{layout: ref, variant_name: L:Sum.variants[].name}',
        'List:Ordered': 'DataFragment::OrderedListNode{head: HEAD, layout: ref, tail: TAIL}',
        'List:Sized': 'DataFragment::SizedListItem{index: IDX, layout: ref}'}
DISC = 'DataFragment::Discriminant(ref)'
AMBIG = 'Err(Error::DataAmbiguity(%s))'
MISSING = 'Err(Error::MissingData(%s))'
DATASETS = [k for k in KINDS if k not in ('Never', 'Always')]


def sub(kind, n0, n1=None):
    return own(SUBS[kind], n0, n1)


def lift(kind, graph=True):
    """What a turn of the loop over the components of the layout is about."""
    pre = 'L:' + SUBS[kind]
    own_ = 'quads(L:%s.dataset)' % kind

    def f(s, t):
        if t.op == 'next' and s in ('more(%s)' % LOOPS.get(kind), 'more(M<quads(L:List:Unordered.item.dataset)@graph>)'):
            return True
        if t.op == 'eq':
            return 'apply(L:List:Ordered.tail; ' in s
        if t.op == 'call' and t.args[0] == '@rec':
            return True
        return pre in s and 'SUB' not in s and '.value.input' not in s and (graph or not s.startswith(pre + '.value.graph'))
    return f


LIFT = {}
MORE_ITEM = {'more(M<quads(L:List:Unordered.item.dataset)@graph>)': 'Some', 'next0(M<quads(L:List:Unordered.item.dataset)@graph>)': 'Some'}


def some(c, ctx, rep, kind, case, w, spec, fn=None, graph=True):
    c.some(ctx, rep, case, w, spec, LIFT.setdefault((kind, graph), lift(kind, graph)), fn)


def graph(kind, g='None'):
    """Graph of the sub-value: inherited, default, named."""
    k = 'L:%s.value.graph' % SUBS[kind]
    if g == 'None':
        return {k: 'None'}
    if g == 'default':
        return {k: 'Some', k + '!': 'None'}
    return {k: 'Some', k + '!': 'Some'}


def when(kind, *ws):
    w = dict(FOUND)
    w.update(kindwhen(kind))
    for x in ws:
        w.update(x)
    return w


def more(kind, v='Some'):
    return {'more(%s)' % LOOPS[kind]: v} if kind in LOOPS else {}


def both(*fns):
    def f(s, t, st):
        for g in fns:
            r = g(s, t, st)
            if r is not None:
                return r
        return None
    f.key = tuple(id(g) for g in fns)
    return f


def subres(v):
    """Assume the recursive hydration succeeds / fails."""
    def f(s, t, st):
        if arity_ok(s, t, st):
            return True
        if t.op == 'call' and t.args[0] == '@rec':
            return v
        return None
    return f


SUB_OK = subres('Ok')
SUB_ERR = subres('Err')


def chain(v, res=None):
    """Assume the current node is / is not the tail of the ordered list."""
    def f(s, t, st):
        if t.op == 'eq' and 'apply(L:List:Ordered.tail; ' in s:
            return v
        if res is not None:
            return res(s, t, st)
        return arity_ok(s, t, st)
    return f


AT_END = chain(True)
NOT_END = chain(False)
NOT_END_OK = chain(False, SUB_OK)


def lookup(ctx, rep):
    rep.rule('hydrate-lookup', 'an unknown layout reference or a wrong number of inputs ends hydration with the corresponding error, '
             'before the dataset is looked at')
    c = contract(ctx)
    ev = ('Matching::new', '@rec')
    c.check(ctx, rep, 'unknown layout', {'LayoutRegistry::get(context, ref)': 'None'},
            {'out': ['Err(Error::LayoutNotFound(ref))'], 'noev': ev})
    for k in DATASETS:
        exp = 'L:%s.input' % k

        def bad(s, t, st):
            if t.op == 'eq' and 'len(inputs)' in s:
                return False
            return None
        c.check(ctx, rep, 'wrong input count, ' + k, when(k), {'out': ['Err(Error::InvalidInputCount{expected: %s, found: len(inputs)})' % exp],
                                                           'noev': ev}, bad)
    c.check(ctx, rep, 'Never', when('Never'), {'out': ['Err(Error::IncompatibleLayout)'], 'noev': ev}, arity_ok)
    c.check(ctx, rep, 'Always', when('Always'), {'out': ['Ok(TypedValue::Always(Value::Literal(Literal::Unit)))'], 'noev': ev}, arity_ok)


def unique(ctx, rep, kinds=None):
    rep.rule('hydrate-unique', 'a layout, field, item or node dataset that matches more than once yields an ambiguity error, a required one '
             'that does not match yields a missing-data error, and an absent optional field is skipped')
    c = contract(ctx)
    for k in DATASETS:
        if kinds and k not in kinds:
            continue
        c.check(ctx, rep, 'no match of the layout dataset, ' + k, when(k, own(k, 'None')), {'out': [MISSING % DISC], 'noev': ['@rec']}, arity_ok)
        c.check(ctx, rep, 'several matches of the layout dataset, ' + k, when(k, own(k, 'Some', 'Some')),
                {'out': [AMBIG % DISC], 'noev': ['@rec']}, arity_ok)
    for k in ('Product', 'Sum', 'List:Sized', 'List:Ordered'):
        if kinds and k not in kinds:
            continue
        fn = NOT_END if k == 'List:Ordered' else arity_ok
        base = [own(k, 'Some', 'None'), more(k), graph(k)]
        c.check(ctx, rep, 'several matches of a component, ' + k, when(k, *base, sub(k, 'Some', 'Some')),
                {'out': [AMBIG % FRAG[k]], 'noev': ['@rec']}, fn)
        some(c, ctx, rep, k, 'several matches of a component, ' + k, when(k, *base, sub(k, 'Some', 'Some')), {'out': [AMBIG % FRAG[k].replace('HEAD', 'CUR')]}, fn)
        if k == 'Product':
            f = 'L:Product.fields[].1.required'
            c.check(ctx, rep, 'missing required field', when(k, *base, sub(k, 'None'), {f: True}),
                    {'out': [MISSING % FRAG[k]], 'noev': ['@rec']}, fn)
            some(c, ctx, rep, k, 'missing required field', when(k, *base, sub(k, 'None'), {f: True}), {'out': [MISSING % FRAG[k]]}, fn)
            c.check(ctx, rep, 'missing optional field', when(k, base[0], graph(k), sub(k, 'None'), {f: False}),
                    {'out': ['Ok(TypedValue::Map(seq[], ref))'], 'noev': ['@rec']}, fn)
        elif k != 'Sum':
            c.check(ctx, rep, 'missing component, ' + k, when(k, *base, sub(k, 'None')), {'out': [MISSING % FRAG[k]], 'noev': ['@rec']}, fn)
            some(c, ctx, rep, k, 'missing component, ' + k, when(k, *base, sub(k, 'None')), {'out': [MISSING % FRAG[k].replace('HEAD', 'CUR')]}, fn)


def scope(ctx, rep):
    rep.rule('hydrate-scope', 'every dataset is matched against the input dataset under the substitution of its enclosing scope extended '
             'with the variables it introduces itself, quads without graph being looked up in the current graph')
    c = contract(ctx)
    for k in DATASETS:
        want = ['(dataset, S[inputs]+intro(L:%s.intro), quads(L:%s.dataset)@graph)' % (k, k)]
        if k in SUBS:
            v = SUBS[k]
            if k == 'List:Ordered':
                want.append('(dataset, s0+push(Some(CUR))+intro(L:%s.intro+1), quads(L:%s.dataset)@graph)' % (v, v))
            else:
                want.append('(dataset, s0+intro(L:%s.intro), quads(L:%s.dataset)@graph)' % (v, v))
        c.check(ctx, rep, 'datasets matched, ' + k, when(k), {'ev': {'Matching::new': want}}, arity_ok)


def reccall(k, g):
    v = SUBS[k]
    return '(vocabulary, interpretation, context, dataset, %s, L:%s.value.layout, seq[apply(L:%s.value.input[]; s1)!*])' % (g, v, v)


def graphs(ctx, rep, kinds=None, gs=None):
    rep.rule('hydrate-graph', 'a sub-value is hydrated in the current graph, the default graph or the named graph, as its format says')
    c = contract(ctx)
    for k in SUBS:
        if kinds and k not in kinds:
            continue
        v = SUBS[k]
        for g, e in (('None', 'graph'), ('default', 'None'), ('named', 'Some(apply(L:%s.value.graph!!; s1)!)' % v)):
            if gs and g not in gs:
                continue
            c.check(ctx, rep, 'graph %s of a sub-value, %s' % (g, k), when(k, graph(k, g)), {'ev': {'@rec': [reccall(k, e)]}}, arity_ok)
            some(c, ctx, rep, k, 'graph %s of a sub-value, %s' % (g, k), when(k, own(k, 'Some', 'None'), graph(k, g), more(k)),
                 {'ev': {'@rec': [reccall(k, e)]}}, NOT_END if k == 'List:Ordered' else arity_ok)


def compose(ctx, rep, kinds=None):
    rep.rule('hydrate-compose', 'the value returned holds exactly the hydrated components, keyed and tagged by the layout they come from; '
             'the failure of a component is the failure of the whole')
    c = contract(ctx)
    want = {'Product': 'Ok(TypedValue::Map(seq[L:Product.fields[].0 => SUB@graph?*], ref))',
            'List:Unordered': 'Ok(TypedValue::List(seq[sorted seq[SUB@graph?*]], ref))',
            'List:Ordered': 'Ok(TypedValue::List(seq[SUB@graph?*], ref))',
            'List:Sized': 'Ok(TypedValue::List(seq[SUB@graph?*], ref))'}
    for k, w in want.items():
        if kinds and k not in kinds:
            continue
        s = [own(k, 'Some', 'None'), graph(k)]
        if k != 'List:Unordered':
            s.append(sub(k, 'Some', 'None'))
        c.check(ctx, rep, 'components found, ' + k, when(k, *s), {'out': [w]}, SUB_OK)
        c.check(ctx, rep, 'sub-value fails, ' + k, when(k, *s, {'more(%s)' % 'M<quads(L:List:Unordered.item.dataset)@graph>': 'Some',
                                                               'next0(M<quads(L:List:Unordered.item.dataset)@graph>)': 'Some'}, more(k)),
                {'out': ['Err(SUB@graph:Err)']}, chain(False, SUB_ERR) if k == 'List:Ordered' else SUB_ERR)
        # a component that is found is kept, once, where it is found
        one = re.sub(r'seq\[([^][]*(?:\[\][^][]*)*)\*\]', r'seq[\1*, \1, \1*]', w)
        some(c, ctx, rep, k, 'component found, ' + k, when(k, *s, MORE_ITEM, more(k)), {'ok': [one]},
             chain(False, SUB_OK) if k == 'List:Ordered' else SUB_OK, False)
        some(c, ctx, rep, k, 'sub-value fails, ' + k, when(k, *s, MORE_ITEM, more(k)), {'out': ['Err(SUB@graph:Err)']},
             chain(False, SUB_ERR) if k == 'List:Ordered' else SUB_ERR)


def sums(ctx, rep):
    rep.rule('hydrate-sum', 'a sum is hydrated to the one variant that matches and hydrates, with its index; two such variants are an '
             'ambiguity, none is an incompatibility')
    c = contract(ctx)
    k = 'Sum'
    b = [own(k, 'Some', 'None'), graph(k)]
    c.check(ctx, rep, 'variant selected', when(k, *b, sub(k, 'Some', 'None')),
            {'out': ['Ok(TypedValue::Variant(SUB@graph?, ref, IDX))', AMBIG % DISC, 'Err(Error::IncompatibleLayout)']}, SUB_OK)
    c.check(ctx, rep, 'every variant hydrates', when(k, *b, sub(k, 'Some', 'None'), more(k)), {'out': [AMBIG % DISC]}, SUB_OK)
    some(c, ctx, rep, k, 'variant selected', when(k, *b, sub(k, 'Some', 'None'), more(k)), {'out': [
        'Ok(TypedValue::Variant(SUB@graph?, ref, IDX))', AMBIG % DISC, AMBIG % FRAG[k]]}, SUB_OK, False)
    some(c, ctx, rep, k, 'several matches of a variant', when(k, *b, sub(k, 'Some', 'Some'), more(k)), {'out': [AMBIG % FRAG[k]]}, arity_ok, False)
    c.check(ctx, rep, 'no variant hydrates', when(k, *b, sub(k, 'Some', 'None')), {'out': ['Err(Error::IncompatibleLayout)']}, SUB_ERR)
    c.check(ctx, rep, 'no variant matches', when(k, *b, sub(k, 'None')), {'out': ['Err(Error::IncompatibleLayout)'], 'noev': ['@rec']}, arity_ok)


def ordered(ctx, rep):
    rep.rule('hydrate-ordered', 'an ordered list is followed from its head, node after node through the rest variable, until its tail is '
             'reached, one item per node, in order')
    c = contract(ctx)
    k = 'List:Ordered'
    b = [own(k, 'Some', 'None'), graph(k)]
    c.check(ctx, rep, 'at the tail', when(k, *b), {'out': ['Ok(TypedValue::List(seq[], ref))'], 'noev': ['@rec'], 'ev': {
        'Matching::new': ['(dataset, S[inputs]+intro(L:%s.intro), quads(L:%s.dataset)@graph)' % (k, k)]}}, AT_END)
    c.check(ctx, rep, 'never at the tail', when(k, *b, sub(k, 'Some', 'None')), {'out': []}, NOT_END_OK)
    v = SUBS[k]
    c.check(ctx, rep, 'nodes', when(k, *b, sub(k, 'Some', 'None')), {
        'out': ['Ok(TypedValue::List(seq[SUB@graph?*], ref))'],
        'ev': {'Matching::new': ['(dataset, S[inputs]+intro(L:%s.intro), quads(L:%s.dataset)@graph)' % (k, k),
                                 '(dataset, s0+push(Some(CUR))+intro(L:%s.intro+1), quads(L:%s.dataset)@graph)' % (v, v)],
               '@rec': [reccall(k, 'graph')]}}, SUB_OK)


LITS = {'Boolean': 'ParseXsd::parse_xsd(lit.value)?', 'Number': 'Number(Decimal::into_big_rational(Decimal::value(Lexical::parse(lit.value)?)))',
        'TextString': 'string(lit.value)'}


def literals(ctx, rep):
    rep.rule('hydrate-literal', 'a literal is read only from the literal representations of the designated resource that have the datatype '
             'of the layout; no such representation is an error, two of them are an ambiguity; the value is the one the lexical form denotes')
    c = contract(ctx)
    IT = 'ReverseLiteralInterpretation::literals_of(interpretation, apply(L:%s.resource; one0(M<quads(L:%s.dataset)@graph>))!)'
    for d in ('Unit', 'Boolean', 'Number', 'TextString', 'ByteString'):
        k = 'Literal:Data:' + d
        b = own(k, 'Some', 'None')
        it = IT % (k, k)
        res = {'apply(L:%s.resource; one0(M<quads(L:%s.dataset)@graph>))' % (k, k): 'Some',
               'LiteralVocabulary::literal(vocabulary, %s[])' % it: 'Some',
               'IriVocabulary::iri(vocabulary, LiteralVocabulary::literal(vocabulary, %s[])!.type_:Any)' % it: 'Some'}
        ty = 'LiteralVocabulary::literal(vocabulary, %s[])!.type_' % it
        if d == 'Unit':
            c.check(ctx, rep, 'unit', when(k, b), {'out': ['Ok(TypedValue::Literal(TypedLiteral::Unit(L:%s.const_, ref)))' % k]}, arity_ok)
            continue

        def dt(match, parse):
            def f(s, t, st):
                if t.op == 'eq' and s.endswith('.type_:Any') or t.op == 'eq' and '.type_:Any == ' in s:
                    if 'iris_of(interpretation, L:%s.datatype)[]' % k in s:
                        return match
                if parse is not None and (s.startswith('ParseXsd::parse_xsd(') or s.startswith('Lexical::parse(')):
                    return parse
                if 'XSD_BOOLEAN' in s and t.op == 'eq':
                    return True
                if s.startswith('Datatype::from_iri('):
                    return 'Decimal' if s.endswith('!') else 'Some'
                return arity_ok(s, t, st)
            return f
        NM = 'Err(Error::NoMatchingLiteral)'
        okv = ['Ok(TypedValue::Literal(TypedLiteral::%s(%s, ref)))' % (d, LITS[d])] if d in LITS else []
        c.check(ctx, rep, 'no literal of the datatype, ' + d, when(k, b, res, {ty: 'Any'}), {'out': [NM]}, dt(False, None))
        c.check(ctx, rep, 'language-tagged literal, ' + d, when(k, b, res, {ty: 'LangString'}), {'out': [NM]}, arity_ok)
        if d in LITS:
            c.check(ctx, rep, 'literal of the datatype, ' + d, when(k, b, res, {ty: 'Any'}), {'out': okv + [NM, AMBIG % DISC]}, dt(True, 'Ok'))
            c.check(ctx, rep, 'several literals of the datatype, ' + d, when(k, b, res, {ty: 'Any', 'more(%s)' % it: 'Some'}),
                    {'out': [AMBIG % DISC]}, dt(True, 'Ok'))
        if d in ('Boolean', 'Number'):
            c.check(ctx, rep, 'ill-formed literal, ' + d, when(k, b, res, {ty: 'Any'}), {'out': [NM]}, dt(True, 'Err'))
    k = 'Literal:Id'
    r = 'apply(L:%s.resource; one0(M<quads(L:%s.dataset)@graph>))' % (k, k)
    it = 'ReverseIriInterpretation::iris_of(interpretation, %s!)' % r
    b = [own(k, 'Some', 'None'), {r: 'Some', 'IriVocabulary::iri(vocabulary, %s[])' % it: 'Some'}]
    c.check(ctx, rep, 'identifier', when(k, *b), {'out': [
        'Ok(TypedValue::Literal(TypedLiteral::Id(string(IriVocabulary::iri(vocabulary, ReverseIriInterpretation::iris_of(interpretation, '
        'res)[])!), ref)))', 'Err(Error::NoMatchingLiteral)', AMBIG % DISC]}, arity_ok)
    c.check(ctx, rep, 'several identifiers', when(k, *b, {'more(%s)' % it: 'Some'}), {'out': [AMBIG % DISC]}, arity_ok)
    c.check(ctx, rep, 'no identifier', when(k, *b, {'more(%s)' % it: 'None'}), {'out': ['Err(Error::NoMatchingLiteral)']}, arity_ok)


# ---- the same obligations, for the properties about one kind of layout --------
def inputs(ctx, rep):
    rep.rule('hydrate-inputs', 'a sub-value is hydrated with the resources its format lists, in order')
    graphs(ctx, rep, None, ('None',))


def sum_matches(ctx, rep):
    unique(ctx, rep, ('Sum',))
    graphs(ctx, rep, ('Sum',), ('None',))


def list_nodes(ctx, rep):
    unique(ctx, rep, ('List:Ordered',))
    compose(ctx, rep, ('List:Ordered',))


def literal_matches(ctx, rep):
    unique(ctx, rep, [k for k in DATASETS if k.startswith('Literal')])
