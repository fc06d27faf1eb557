"""Abstract syntax to abstract layouts: scoping, name resolution, the layout
each syntax node builds, and the layout builder."""
from contract import *
from rules.prim import simple

L = 'treeldr_layouts'
OPAQUE = {'Build::build', 'Scope::with_header', 'Scope::with_intro', 'Scope::without_variables', 'Scope::variable', 'CompactIri::resolve',
          'Scope::variable_count', 'LiteralType::resolve'}
FMT = {
    '@threads': {('Build::build', 1), ('Context::iri_resource', 0), ('Context::literal_resource', 0), ('Context::anonymous_resource', 0),
                 ('Context::insert_layout', 0)},
    'Build::build': lambda a: 'B(%s|%s)' % (a[0], a[2]),
    'Context::iri_resource': lambda a: 'iri(%s)' % a[1],
    'Context::literal_resource': lambda a: 'lit(%s, %s)' % (a[1], a[2]),
    'Context::anonymous_resource': lambda a: 'anon',
    'Scope::with_header': lambda a: '(%s>%s)' % (a[0], a[1]),
    'Scope::with_intro': lambda a: '(%s+%s)' % (a[0], a[1]),
    'Scope::without_variables': lambda a: 'novars(%s)' % a[0],
    'Scope::variable': lambda a: '%s[%s]' % (a[0], a[1]),
    'Scope::variable_count': lambda a: 'vars(%s)' % a[0],
    'CompactIri::resolve': lambda a: 'resolve(%s|%s)' % (a[0], a[1]),
    'LiteralType::resolve': lambda a: 'resolve(%s|%s)' % (a[0], a[1]),
    '@journal': {('BTreeDataset::insert', 0): lambda a: a[0]},
}
AB = [('B(self.header|scope)?.0', 'H'), ('B(self.header|scope)?.1', 'S')]
FALL = ('Build::build', 'Scope::with_header', 'Scope::with_intro', 'Scope::variable', 'CompactIri::resolve', 'LiteralType::resolve')


def ok(fail=None):
    def h(s, t, st):
        if t.op == 'call' and t.args[0].endswith(FALL):
            return 'Err' if s == fail else 'Ok'
        return None
    return h


def impl(ctx, adt):
    fs = [f for f in ctx.prog.find(crate=L, name='build') if not f.derived and 'Build<' in str(f.trait_ref)
          and re.search(r'(^|[:\s<])%s( as |>::build)' % re.escape(adt), f.path.replace('treeldr_layouts::abs::syntax::', ''))]
    if len(fs) != 1:
        raise Anchor('expected one Build impl for %s, found %d' % (adt, len(fs)))
    return fs[0]


def build(ctx, rep, adt, when, case, out, falls, root=None, params=('self', 'context', 'scope'), zero=None):
    """`out` when every part builds; each of `falls` (a part, in canonical
    form) failing is the result of the whole."""
    root = root or impl(ctx, adt)
    k = 'build ' + adt
    simple(ctx, rep, k, root, params, [], opaque=OPAQUE, fmt=FMT, abbrev=AB)
    c = ctx.cache[('simple', k)]
    h = ctx.cache.setdefault('ab-ok', ok())
    c.check(ctx, rep, case, when, {'out': out}, h)
    for x in falls:
        full = x
        for a, b in AB:
            full = re.sub(r'(?<![\w.])%s(?![\w:])' % b, lambda m: a, full)
        h = ctx.cache.setdefault(('ab-ok', full), ok(full))
        c.check(ctx, rep, '%s, failing %s' % (case, x), when, {'out': ['Err(%s:Err)' % x] + ([zero] if zero else [])}, h)
    return c


def many(prefix):
    return [('Many', prefix + ':Many', 'len(%s:Many)' % prefix), ('One', 'seq[%s:One]' % prefix, '1')]


def scopes(ctx, rep):
    rep.rule('scope', 'variables are numbered in order of declaration, inputs before intros, an inner declaration shadows the outer one, and an '
             'undeclared variable is an error; a nested layout starts from no variables but keeps base IRI and prefixes')
    b = ctx.fn(crate=L, name='bind', adt='Scope')
    simple(ctx, rep, 'Scope::bind', b, ('self', 'name'), [], cells=(1,))
    c = ctx.cache[('simple', 'Scope::bind')]
    c.check(ctx, rep, 'bind', {}, {'out': ['() ; self=self{variable_count:=self.variable_count+1}{variables:=seq[..self.variables, name => self.variable_count]}']})
    g = 'get(self.variables, name)'
    simple(ctx, rep, 'Scope::variable', ctx.fn(crate=L, name='variable', adt='Scope'), ('self', 'name'), [
        ('declared', {g: 'Some'}, ['Ok(%s!)' % g]), ('undeclared', {g: 'None'}, ['Err(BuildError::UndeclaredVariable(name))'])])
    simple(ctx, rep, 'Scope::variable_count', ctx.fn(crate=L, name='variable_count', adt='Scope'), ('self',), [('count', {}, ['self.variable_count'])])
    simple(ctx, rep, 'Scope::without_variables', ctx.fn(crate=L, name='without_variables', adt='Scope'), ('self',), [
        ('clear', {}, ['Scope{base_iri: self.base_iri, iri_prefixes: self.iri_prefixes, variable_count: 0, variables: seq[]}'])])
    fmt = {'@journal': {('Scope::bind', 0): lambda a: 'bind ' + a[0]}}
    w = ctx.fn(crate=L, name='with_intro', adt='Scope')
    simple(ctx, rep, 'Scope::with_intro', w, ('self', 'intro'), [('intro', {}, ['Ok(seq[..self, bind intro[]*])'])], opaque={'Scope::bind'}, fmt=fmt)

    h = ctx.fn(crate=L, name='with_header', adt='Scope')
    fmt = dict(FMT, **fmt)
    simple(ctx, rep, 'Scope::with_header', h, ('self', 'header'), [], opaque={'Scope::bind', 'CompactIri::resolve'}, fmt=fmt)
    c = ctx.cache[('simple', 'Scope::with_header')]
    f = ctx.cache.setdefault('ab-ok', ok())
    for i, iv, _ in many('header.input.0'):
        for o, ov, _ in many('header.intro'):
            binds = 'bind %s[]*, bind %s[]*' % (iv, ov)
            pre = 'Ok(seq[..%s{iri_prefixes:=seq[..self.iri_prefixes, header.prefixes[].0 => resolve(header.prefixes[].1|self)?*]}, %s])'
            for b in ('Some', 'None'):
                s0 = 'self{base_iri:=Some(resolve(header.base!|self)?)}' if b == 'Some' else 'self'
                w = {'header.base': b, 'header.input.0': i, 'header.intro': o}
                c.check(ctx, rep, 'base %s, inputs %s, intros %s' % (b, i, o), w, {'out': [pre % (s0, binds)]}, f)
    for x in ('resolve(header.base!|self)', 'resolve(header.prefixes[].1|self)'):
        h = ctx.cache.setdefault(('ab-ok', x), ok(x))
        c.check(ctx, rep, 'failing ' + x, {'header.base': 'Some', 'more(header.prefixes)': 'Some', 'header.input.0': 'Many', 'header.intro': 'Many'},
                {'out': ['Err(%s:Err)' % x]}, h)


def names(ctx, rep):
    rep.rule('names', 'a compact IRI is expanded with the prefix in scope, left as is when it has none, and resolved against the base IRI '
             'when relative; patterns, quads and datasets are built component by component, variables by index, literals with their type')
    f = ctx.fn(crate=L, name='resolve', adt='CompactIri')
    a = 'IriRef::as_iri(self.0)'
    pre = 'get(scope.iri_prefixes, Iri::scheme(%s!))' % a
    cat = 'IriBuf::new(string(concat(%s!, str::split_once(%s!, char(:))!.1)))' % (pre, a)
    simple(ctx, rep, 'CompactIri::resolve', f, ('self', 'scope'), [
        ('absolute, no such prefix', {a: 'Some', pre: 'None'}, ['Ok(%s!)' % a]),
        ('prefixed', {a: 'Some', pre: 'Some', cat: 'Ok'}, ['Ok(%s?)' % cat]),
        ('prefixed, no IRI', {a: 'Some', pre: 'Some', cat: 'Err'}, ['Err(BuildError::InvalidIri(%s:Err.0))' % cat]),
        ('relative, base', {a: 'None', 'scope.base_iri': 'Some'}, ['Ok(IriRef::resolved(self.0, scope.base_iri!))']),
        ('relative, no base', {a: 'None', 'scope.base_iri': 'None'}, ['Err(BuildError::NoBaseIri(self.0))'])])
    build(ctx, rep, 'CompactIri', {}, 'iri', ['Ok(iri(resolve(self|scope)?))'], ['resolve(self|scope)'])
    build(ctx, rep, 'Pattern', {'self': 'Var'}, 'variable', ['Ok(Pattern::Var(scope[self:Var.0]?))'], ['scope[self:Var.0]'])
    build(ctx, rep, 'Pattern', {'self': 'Iri'}, 'iri', ['Ok(Pattern::Resource(iri(resolve(self:Iri|scope)?)))'], ['resolve(self:Iri|scope)'])
    build(ctx, rep, 'Pattern', {'self': 'Literal'}, 'literal', [
        'Ok(Pattern::Resource(lit(self:Literal.value, LiteralType::as_lexical_type_ref(resolve(self:Literal.type_|scope)?))))'],
        ['resolve(self:Literal.type_|scope)'])
    build(ctx, rep, 'Quad', {'self.3': 'Some'}, 'named graph', ['Ok(Quad(B(self.0|scope)?, B(self.1|scope)?, B(self.2|scope)?, Some(B(self.3!|scope)?)))'],
          ['B(self.%d|scope)' % i for i in range(3)] + ['B(self.3!|scope)'])
    build(ctx, rep, 'Quad', {'self.3': 'None'}, 'no graph', ['Ok(Quad(B(self.0|scope)?, B(self.1|scope)?, B(self.2|scope)?, None))'],
          ['B(self.%d|scope)' % i for i in range(3)])
    build(ctx, rep, 'Dataset', {}, 'dataset', ['Ok(seq[B(self.0[]|scope)?*])'], ['B(self.0[]|scope)'], zero='Ok(seq[])')
    ty = 'LexicalLiteralTypeRef::Any(%s)'
    build(ctx, rep, 'TypedString', {}, 'typed string', ['Ok(lit(self.value, %s))' % ty % 'resolve(self.type_|scope)?'], ['resolve(self.type_|scope)'])
    for b in (True, False):
        build(ctx, rep, 'Resource', {'self': 'Boolean', 'self:Boolean': b}, 'boolean %s' % b, ['Ok(lit("%s", %s))' % (str(b).lower(), ty % 'XSD_BOOLEAN')], [])
    build(ctx, rep, 'Resource', {'self': 'Number'}, 'number', [
        'Ok(lit(Decimal::lexical_representation(self:Number), %s))' % ty % 'DecimalDatatype::iri(Decimal::decimal_type(self:Number))'], [])
    build(ctx, rep, 'Resource', {'self': 'String'}, 'string', ['Ok(lit(self:String, %s))' % ty % 'XSD_STRING'], [])
    build(ctx, rep, 'Resource', {'self': 'TypedString'}, 'typed string', ['Ok(B(self:TypedString|scope)?)'], ['B(self:TypedString|scope)'])
    f = ctx.fn(crate=L, name='resolve', adt='LiteralType')
    simple(ctx, rep, 'LiteralType::resolve', f, ('self', 'scope'), [], opaque=OPAQUE, fmt=FMT)
    c = ctx.cache[('simple', 'LiteralType::resolve')]
    c.check(ctx, rep, 'iri', {'self': 'Iri'}, {'out': ['Ok(LiteralType::Any(resolve(self:Iri.type_|scope)?))']}, ctx.cache['ab-ok'])
    c.check(ctx, rep, 'language', {'self': 'Language'}, {'out': ['Ok(LiteralType::LangString(self:Language.language))']}, ctx.cache['ab-ok'])


LIT = 'dataset: H.dataset, datatype: %s, extra_properties: H.properties, input: H.input, intro: H.intro, resource: %s'


def layouts(ctx, rep):
    rep.rule('layouts', 'each layout of the abstract syntax builds the layout of the same kind from its own parts, built in its own scope, with '
             'the documented defaults')
    for i, iv, il in many('self.input.0'):
        for o, ov, ol in many('self.intro'):
            sc = '(scope>self)'
            build(ctx, rep, 'LayoutHeader', {'self.input.0': i, 'self.intro': o}, 'inputs %s, intros %s' % (i, o), [
                'Ok((BuiltLayoutHeader{dataset: B(self.dataset|%s?)?, input: %s, intro: %s, properties: B(self.extra|%s?)?}, %s?))' % (sc, il, ol, sc, sc)],
                [sc, 'B(self.dataset|%s?)' % sc, 'B(self.extra|%s?)' % sc])
    build(ctx, rep, 'ExtraProperties', {}, 'extra properties', ['Ok(seq[B(self.0[].0|scope)? => B(self.0[].1|scope)?*])'],
          ['B(self.0[].0|scope)', 'B(self.0[].1|scope)'], zero='Ok(seq[])')
    Hd = 'B(self.header|scope)'
    # literals
    build(ctx, rep, 'UnitLayout', {}, 'unit', ['Ok(H{const_:=self.const_}{extra_properties:=H.properties})'], [Hd])
    res = [('Some', 'B(self.resource!|S)?', ['B(self.resource!|S)']), ('None', 'Pattern::Var(0)', [])]
    for r, rv, rf in res:
        w = {'self.resource': r}
        if r == 'None':
            w['self.header.input.0'] = 'One'
        for adt, dt in (('BooleanLayout', 'XSD_BOOLEAN'), ('TextStringLayout', 'XSD_STRING')):
            for d, dv, df in (('Some', 'B(self.datatype!|S)?', ['B(self.datatype!|S)']), ('None', 'iri(%s)' % dt, [])):
                out = 'BooleanLayout{%s}' % (LIT % (dv, rv)) if adt[0] == 'B' else 'H{datatype:=%s}{pattern:=self.pattern}{resource:=%s}' % (dv, rv)
                build(ctx, rep, adt, dict(w, **{'self.datatype': d}), 'resource %s, datatype %s' % (r, d), ['Ok(%s)' % out], [Hd] + rf + df)
        for adt in ('NumberLayout', 'ByteStringLayout'):
            build(ctx, rep, adt, w, 'resource ' + r, ['Ok(%s{%s})' % (adt, LIT % ('B(self.datatype|S)?', rv))], [Hd, 'B(self.datatype|S)'] + rf)
        build(ctx, rep, 'IdLayout', w, 'resource ' + r, ['Ok(H{pattern:=self.pattern}{resource:=%s})' % rv], [Hd] + rf)
    # without a resource pattern, the first input is the represented resource, and there must be one
    none = 'Err(BuildError::MissingLiteralTargetResource)'
    for adt, out in (('IdLayout', 'Ok(H{pattern:=self.pattern}{resource:=Pattern::Var(0)})'),
                     ('NumberLayout', 'Ok(NumberLayout{%s})' % (LIT % ('B(self.datatype|S)?', 'Pattern::Var(0)')))):
        build(ctx, rep, adt, {'self.resource': 'None', 'self.header.input.0': 'Many', '0 == len(self.header.input.0:Many)': True}, 'no resource, no input', [none], [])
        build(ctx, rep, adt, {'self.resource': 'None', 'self.header.input.0': 'Many', '0 == len(self.header.input.0:Many)': False}, 'no resource, one input', [out], [])
    # products
    for i, iv, il in many('self.header.input.0'):
        for o, ov, ol in many('self.header.intro'):
            for x, xv, xl in many('self.fields[].1.intro.0'):
                sc = '(S+%s)' % xv
                w = {'self.header.input.0': i, 'self.header.intro': o, 'self.fields[].1.intro.0': x}
                field = lambda ds: ['Ok(H{extra_properties:=H.properties}{fields:=seq[self.fields[].0 => Field{dataset: %s, intro: %s, required: '
                                    'self.fields[].1.required, value: B(self.fields[].1.value|%s?)?}*]})' % (ds, xl, sc)]
                ds = 'B(self.fields[].1.dataset|%s?)?' % sc
                pr = 'B(self.fields[].1.property!|%s?)' % sc
                if i == 'Many':
                    w['0 == len(%s)' % iv] = False
                if x == 'Many':
                    w['0 == len(%s)' % xv] = False
                n = [z for z in (il, ol) if z != '1']
                obj = '+'.join(n + ['1'] if len(n) == 1 else n) if n else '2'
                zero = 'Ok(H{extra_properties:=H.properties}{fields:=seq[]})'
                build(ctx, rep, 'ProductLayout', dict(w, **{'self.fields[].1.property': 'Some'}), 'property, %s/%s/%s' % (i, o, x),
                      field('seq[..%s, Quad(Pattern::Var(0), %s?, Pattern::Var(%s), None)]' % (ds, pr, obj)),
                      [sc, ds[:-1], pr, 'B(self.fields[].1.value|%s?)' % sc], zero=zero)
                build(ctx, rep, 'ProductLayout', dict(w, **{'self.fields[].1.property': 'None'}), 'no property, %s/%s/%s' % (i, o, x),
                      field(ds), [sc, ds[:-1], 'B(self.fields[].1.value|%s?)' % sc], zero=zero)
    zero = ['Ok(H{extra_properties:=H.properties}{fields:=seq[]})']
    e = {k: '0 == len(%s:Many)' % k for k in ('self.header.input.0', 'self.fields[].1.intro.0')}
    w = {'self.header.input.0': 'Many', 'self.header.intro': 'One', 'self.fields[].1.intro.0': 'Many', 'self.fields[].1.property': 'Some'}
    build(ctx, rep, 'ProductLayout', dict(w, **{e['self.header.input.0']: True}), 'property without subject', ['Err(BuildError::NoPropertySubject)'] + zero, [])
    build(ctx, rep, 'ProductLayout', dict(w, **{e['self.header.input.0']: False, e['self.fields[].1.intro.0']: True}), 'property without object',
          ['Err(BuildError::NoPropertyObject)'] + zero, [])


def sums(ctx, rep):
    rep.rule('sums', 'a sum builds its variants in order, each in its own scope; a bare layout stands for the value format applied to the '
             'default variable (`self` for variants, `value` for fields and items)')
    for x, xv, xl in many('self.variants[].1.intro'):
        sc = '(S+%s)' % xv
        build(ctx, rep, 'SumLayout', {'self.variants[].1.intro': x}, 'intros ' + x, [
            'Ok(H{extra_properties:=H.properties}{variants:=seq[Variant{dataset: B(self.variants[].1.dataset|%s?)?, intro: %s, name: self.variants[].0, '
            'value: B(self.variants[].1.value|%s?)?}*]})' % (sc, xl, sc)],
            [sc, 'B(self.variants[].1.dataset|%s?)' % sc, 'B(self.variants[].1.value|%s?)' % sc],
            zero='Ok(H{extra_properties:=H.properties}{variants:=seq[]})')
    for adt in ('VariantFormat', 'ValueFormat'):
        for i, iv, il in many('self.input.0'):
            inp = 'B(%s[]|scope)' % iv
            if i == 'One':
                inp = 'B(%s[]|scope)' % iv
            for name, w, g, gf in [('none', {'self.graph': 'None'}, 'None', []), ('default', {'self.graph': 'Some', 'self.graph!': 'None'}, 'Some(None)', []),
                                   ('named', {'self.graph': 'Some', 'self.graph!': 'Some'}, 'Some(Some(B(self.graph!!|scope)?))', ['B(self.graph!!|scope)'])]:
                build(ctx, rep, adt, dict(w, **{'self.input.0': i}), '%s graph, inputs %s' % (name, i), [
                    'Ok(ValueFormat{graph: %s, input: seq[%s?*], layout: B(self.layout|scope)?})' % (g, inp)], ['B(self.layout|scope)'] + gf)
    for adt, n in (('VariantFormatOrLayout', 'SELF'), ('ValueFormatOrLayout', 'VALUE')):
        build(ctx, rep, adt, {'self': 'Format'}, 'format', ['Ok(B(self:Format|scope)?)'], ['B(self:Format|scope)'])
        v = 'B(Pattern::Var(%s)|scope)' % n
        build(ctx, rep, adt, {'self': 'Layout'}, 'layout', ['Ok(ValueFormat{graph: None, input: seq[%s?], layout: B(self:Layout|scope)?})' % v],
              [v, 'B(self:Layout|scope)'])


def lists(ctx, rep):
    rep.rule('lists', 'lists build their parts in their own scope; a list node that gives no dataset is an RDF collection cell '
             '(rdf:first its value, rdf:rest the rest), and the `property` of an item links the first input to the item')
    build(ctx, rep, 'OrderedListLayout', {}, 'ordered', ['Ok(OrderedListLayout{dataset: H.dataset, extra_properties: H.properties, head: B(self.head|S)?, '
          'input: H.input, intro: H.intro, node: B(self.node|S)?, tail: B(self.tail|S)?})'],
          ['B(self.header|scope)', 'B(self.head|S)', 'B(self.node|S)', 'B(self.tail|S)'])
    for k in ('Ordered', 'Unordered', 'Sized'):
        build(ctx, rep, 'ListLayout', {'self': k}, k, ['Ok(ListLayout::%s(B(self:%s|scope)?))' % (k, k)], ['B(self:%s|scope)' % k])
    n = 'vars(scope)'
    cell = lambda first: ('seq[Quad(Pattern::Var(%s), Pattern::Resource(iri(RDF_FIRST)), %s, None), '
                          'Quad(Pattern::Var(%s), Pattern::Resource(iri(RDF_REST)), Pattern::Var(%s+1), None)]' % (n, first, n, n))
    build(ctx, rep, 'ListNodeOrLayout', {'self': 'Layout'}, 'layout', [
        'Ok(NodeLayout{dataset: %s, intro: 1, value: ValueFormat{graph: None, input: seq[Pattern::Var(%s+2)], layout: B(self:Layout|scope)?}})' % (
            cell('Pattern::Var(%s+2)' % n), n)], ['B(self:Layout|scope)'])
    build(ctx, rep, 'ListNodeOrLayout', {'self': 'ListNode'}, 'node', ['Ok(B(self:ListNode|scope)?)'], ['B(self:ListNode|scope)'])
    for x, xv, xl in many('self.intro.0'):
        sc = '(scope+chainit(seq[self.head, self.rest], %s))' % xv
        node = 'Ok(NodeLayout{dataset: %%s, intro: %s, value: B(self.value|%s?)?})' % (xl, sc)
        fl = [sc, 'B(self.value|%s?)' % sc]
        w = {'self.intro.0': x}
        d = 'B(self.dataset!|%s?)' % sc
        build(ctx, rep, 'ListNode', dict(w, **{'self.dataset': 'Some'}), 'dataset, intros ' + x, [node % (d + '?')], fl + [d])
        v = '%s?["value"]' % sc
        build(ctx, rep, 'ListNode', dict(w, **{'self.dataset': 'None', 'self.value': 'Layout'}), 'default dataset, layout, intros ' + x,
              [node % cell('Pattern::Var(%s?)' % v)], fl + [v])
        f = 'self.value:Format.input.0:Many'
        v = 'B(%s[]|%s?)' % (f, sc)
        w.update({'self.dataset': 'None', 'self.value': 'Format', 'self.value:Format.input.0': 'Many'})
        build(ctx, rep, 'ListNode', dict(w, **{'1 == len(%s)' % f: True}), 'default dataset, one input, intros ' + x, [node % cell(v + '?')], fl + [v])
        build(ctx, rep, 'ListNode', dict(w, **{'1 == len(%s)' % f: False}), 'default dataset, more inputs, intros ' + x, [node % 'seq[]'], fl)
    hd = 'B(self.header|scope)'
    for adt, it in (('UnorderedListLayout', 'self.item'), ('SizedListLayout', 'self.items[]')):
        for i, iv, il in many('self.header.input.0'):
            for x, xv, xl in many(it + '.intro.0'):
                e, f = '0 == len(%s)' % iv, '0 == len(%s)' % xv
                sc = '(S+%s)' % xv
                out = lambda ds: ['Ok(H{extra_properties:=H.properties}{%s:=%s})' % (it[5:].replace('[]', ''), ('seq[%s*]' if '[]' in it else '%s') % (
                    'ItemLayout{dataset: %s, intro: %s, value: B(%s.value|%s?)?}' % (ds, xl, it, sc)))]
                ds, pr, va = 'B(%s.dataset|%s?)' % (it, sc), 'B(%s.property!|%s?)' % (it, sc), 'B(%s.value|%s?)' % (it, sc)
                zero = 'Ok(H{extra_properties:=H.properties}{items:=seq[]})' if '[]' in it else None
                w = {'self.header.input.0': i, it + '.intro.0': x}
                nm = '%s/%s' % (i, x)
                p, q = dict(w, **{it + '.property': 'Some'}), dict(w, **{it + '.property': 'None'})
                w1 = dict(p)
                if i == 'Many':
                    w1[e] = False
                if x == 'Many':
                    w1[f] = False
                build(ctx, rep, adt, w1, 'property, ' + nm, out('seq[..%s?, Quad(Pattern::Var(0), %s?, Pattern::Var(vars(S)), None)]' % (ds, pr)),
                      [sc, ds, pr, va], zero=zero)
                build(ctx, rep, adt, q, 'no property, ' + nm, out(ds + '?'), [sc, ds, va], zero=zero)
                z = [zero] if zero else []
                if i == 'Many':
                    build(ctx, rep, adt, dict(w1, **{e: True}), 'property without subject, ' + nm, ['Err(BuildError::NoPropertySubject)'] + z, [])
                if x == 'Many':
                    build(ctx, rep, adt, dict(w1, **{f: True}), 'property without object, ' + nm, ['Err(BuildError::NoPropertyObject)'] + z, [])


def nodes(ctx, rep):
    rep.rule('nodes', 'a layout is registered under its IRI, resolved where the layout occurs, or under a fresh resource; registering '
             'a second layout under the same name is an error; a layout reference builds what it refers to without the variables in scope')
    ly = [f for f in ctx.prog.find(crate=L, name='build') if not f.derived and 'Build<' in str(f.trait_ref) and str(f.self_ty).endswith('syntax::layout::Layout')]
    if len(ly) != 1:
        raise Anchor('expected one Build impl for the syntax Layout, found %d' % len(ly))
    leaves = [('Literal', ['Data:' + x for x in ('Unit', 'Boolean', 'Number', 'ByteString', 'TextString')] + ['Id']), ('Product', ['']), ('Sum', ['']),
              ('List', ['Ordered', 'Unordered', 'Sized']), ('Union', ['']), ('Intersection', [''])]
    for k, subs in leaves:
        for sub in subs:
            w, p = {'self': k}, 'self:' + k
            for x in [y for y in sub.split(':') if y]:
                w[p] = x
                p += ':' + x
            val = 'Layout::%s(B(self:%s|scope)?)' % (k, k)
            for idk, rid, rf in (('Some', 'iri(resolve(%s.header.id!|scope)?)' % p, ['resolve(%s.header.id!|scope)' % p]), ('None', 'anon', [])):
                ins = 'Context::insert_layout(context, %s, %s)' % (rid, val)
                w1 = dict(w, **{p + '.header.id': idk})
                nm = '%s %s, id %s' % (k, sub, idk)
                build(ctx, rep, 'syntax Layout', dict(w1, **{ins + '.1': 'None'}), nm, ['Ok(%s.0)' % ins], rf + ['B(self:%s|scope)' % k], root=ly[0])
                build(ctx, rep, 'syntax Layout', dict(w1, **{ins + '.1': 'Some'}), nm + ', name taken', ['Err(BuildError::LayoutRedefinition)'], [], root=ly[0])
    for b, v in ((True, 'Always'), (False, 'Never')):
        ins = 'Context::insert_layout(context, anon, Layout::%s)' % v
        build(ctx, rep, 'syntax Layout', {'self': 'Boolean', 'self:Boolean': b, ins + '.1': 'None'}, 'Boolean %s' % b, ['Ok(%s.0)' % ins], [], root=ly[0])
    build(ctx, rep, 'LayoutRef', {'self': 'Ref'}, 'reference', ['Ok(Ref(B(self:Ref|novars(scope))?, PhantomData))'], ['B(self:Ref|novars(scope))'])
    build(ctx, rep, 'LayoutRef', {'self': 'Layout'}, 'layout', ['Ok(B(self:Layout|novars(scope))?)'], ['B(self:Layout|novars(scope))'])
    for k, sub in (('Data', None), ('Id', None)):
        build(ctx, rep, 'LiteralLayout', {'self': k}, k, ['Ok(LiteralLayout::%s(B(self:%s|scope)?))' % (k, k)], ['B(self:%s|scope)' % k])
    for k in ('Unit', 'Boolean', 'Number', 'ByteString', 'TextString'):
        build(ctx, rep, 'DataLayout', {'self': k}, k, ['Ok(DataLayout::%s(B(self:%s|scope)?))' % (k, k)], ['B(self:%s|scope)' % k])
    f = ctx.fn(crate=L, name='build_with_context', adt='treeldr_layouts::abs::syntax::layout::Layout')
    simple(ctx, rep, 'Layout::build_with_context', f, ('self', 'context'), [
        ('empty scope', {}, ['B(self|Scope{base_iri: None, iri_prefixes: seq[], variable_count: 0, variables: seq[]})'])], opaque=OPAQUE, fmt=FMT)
    for n, ps, o in (('build', ('self', 'builder'), 'BuilderWithGeneratorMut{builder: builder, generator: Blank::new()}'),
                     ('build_with_interpretation', ('self', 'vocabulary', 'interpretation', 'builder'),
                      'BuilderWithInterpretationMut{builder: builder, interpretation: interpretation, vocabulary: vocabulary}')):
        f = ctx.fn(crate=L, name=n, adt='treeldr_layouts::abs::syntax::layout::Layout', trait=False)
        simple(ctx, rep, 'Layout::' + n, f, ps, [('entry', {}, ['Layout::build_with_context(self, %s)' % o])], opaque={'Layout::build_with_context'})


def builder(ctx, rep):
    rep.rule('builder', 'the layout builder keeps every inserted layout under its name, tells whether the name was taken, and builds each '
             'layout under the same name')
    A = 'treeldr_layouts::abs::'
    g = lambda **k: ctx.fn(crate=L, trait=False, **k)
    put = ' ; self=self{layouts:=seq[..self.layouts, id => %s]}'
    for n, a in (('Builder', A + 'Builder'), ('Layouts', 'treeldr_layouts::Layouts')):
        simple(ctx, rep, n + '::insert', g(name='insert', adt=a), ('self', 'id', 'layout'), [
            ('insert', {}, ['(Ref(id, PhantomData), BTreeMap::insert(self.layouts, id, layout))' + put % 'layout'])], cells=(1,))
        x = 'fnptr(builder, Ref(id, PhantomData))'
        simple(ctx, rep, n + '::insert_with', g(name='insert_with', adt=a), ('self', 'id', 'builder'), [
            ('insert', {}, ['(Ref(id, PhantomData), BTreeMap::insert(self.layouts, id, %s))' % x + put % x])], cells=(1,))
    simple(ctx, rep, 'Builder::build', g(name='build', adt=A + 'Builder'), ('self',), [
        ('all layouts', {}, ['Layouts{layouts: seq[self.layouts[].0 => Layout::build(self.layouts[].1)*]}'])],
        opaque_fn=lambda f: f.name == 'build')
    b = g(name='build', adt=A + 'layout::Layout')
    simple(ctx, rep, 'abs Layout::build', b, ('self',), [(k, {'self': k}, ['self']) for k in ('Product', 'List', 'Sum')] + [
        ('Literal', {'self': 'Literal'}, ['Layout::Literal(LiteralLayout::build(self:Literal))']),
        ('Always', {'self': 'Always'}, ['Layout::Always']), ('Never', {'self': 'Never'}, ['Layout::Never'])], opaque_fn=lambda f: f.name == 'build' and f is not b)
    for a, cs in (('literal::LiteralLayout', [(k, {'self': k}, ['LiteralLayout::%s(%sLayout::build(self:%s))' % (k, k, k)]) for k in ('Data', 'Id')]),
                  ('literal::data::DataLayout', [(k, {'self': k}, ['self']) for k in ('Unit', 'Boolean', 'Number', 'ByteString')] + [
                      ('TextString', {'self': 'TextString'}, ['DataLayout::TextString(TextStringLayout::build(self:TextString))'])])):
        simple(ctx, rep, 'abs %s::build' % last(a), g(name='build', adt=A + 'layout::' + a), ('self',), cs, opaque_fn=lambda f: f.name == 'build')
    for a in ('literal::data::TextStringLayout', 'literal::id::IdLayout'):
        simple(ctx, rep, 'abs %s::build' % last(a), g(name='build', adt=A + 'layout::' + a), ('self',), [
            ('pattern', {'self.pattern': 'Some'}, ['self{extra_properties:=self.properties}{pattern:=Some(RegExp::build(self.pattern!))}']),
            ('no pattern', {'self.pattern': 'None'}, ['self{extra_properties:=self.properties}'])], opaque_fn=lambda f: f.name == 'build')
    voc = 'LiteralInterpretationMut::interpret_literal(self.interpretation, LiteralVocabularyMut::insert_owned_literal(self.vocabulary, Literal::new(value, %s)))'
    both = '(Ref(id, PhantomData), BTreeMap::insert(self.builder.layouts, id, layout)) ; self=self{builder:=self.builder{layouts:=seq[..self.builder.layouts, id => layout]}}'
    new = 'Term::Id(Generator::next(self.generator, ()))'
    known = 'get(self.builder.layouts, %s)' % new
    for n, ps, lexical, interpreted in (
            ('insert_layout', ('self', 'id', 'layout'), [({}, both)], [({}, both)]),
            ('iri_resource', ('self', 'iri'), [({}, 'Term::Id(Id::Iri(iri))')],
             [({}, 'IriInterpretationMut::interpret_iri(self.interpretation, IriVocabularyMut::insert(self.vocabulary, iri))')]),
            ('literal_resource', ('self', 'value', 'type_'), [({'type_': k}, 'Term::Literal(Literal::new(value, type_))') for k in ('Any', 'LangString')],
             [({'type_': 'Any'}, voc % 'LiteralType::Any(IriVocabularyMut::insert(self.vocabulary, type_:Any))'), ({'type_': 'LangString'}, voc % 'type_')]),
            ('anonymous_resource', ('self',), [({known: 'None'}, new), ({known: 'Some'}, None)],
             [({}, 'InterpretationMut::new_resource(self.interpretation, self.vocabulary)')])):
        for f in ctx.fns(2, crate=L, name=n, trait='Context'):
            t = last(str(f.self_adt))
            cs = {'BuilderWithGeneratorMut': lexical, 'BuilderWithInterpretationMut': interpreted}.get(t)
            if cs is None:
                raise Anchor('unknown implementation of Context for ' + t)
            simple(ctx, rep, 'Context for %s::%s' % (t, n), f, ps, [
                (n + str(w.get('type_', '') or w.get(known, '')), w, [o] if o else []) for w, o in cs],
                   cells=(1,) if n == 'insert_layout' else ())
