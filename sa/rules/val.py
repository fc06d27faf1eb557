"""Tree values: conversions from and to JSON, serde and CBOR, and types."""
from contract import *
from rules.prim import simple

L = 'treeldr_layouts'


def conv(ctx, name, frm, to):
    """The conversion `name` (from/try_from) from the type `frm` to `to`."""
    fs = [f for f in ctx.prog.find(crate=L, name=name) if not f.derived and f.trait_ref and f.trait_ref.split('<', 1)[1].startswith(frm)
          and str(f.self_ty).startswith(to)]
    if len(fs) != 1:
        raise Anchor('expected one %s from %s to %s, found %d' % (name, frm, to, len(fs)))
    return fs[0]


def one(ctx, name, ty):
    fs = [f for f in ctx.prog.find(crate=L, name=name) if not f.derived and str(f.self_ty) == ty]
    if len(fs) != 1:
        raise Anchor('expected one %s of %s, found %d' % (name, ty, len(fs)))
    return fs[0]


def number(f):
    """Number conversions are judged by their own rules."""
    return 'value::Number' in str(f.self_ty) or 'value::Number' in str(f.trait_ref or '')


def json_conv(root):
    """Conversions to JSON of the other types, the way `try_into` leaves them to themselves."""
    return lambda f: number(f) or f is not root and f.name == 'try_from' and 'value::' in str(f.trait_ref or '')


# `into` of the same conversion is written as its argument
REC = [(re.compile(r'REC\(([^()]*)\)'), r'\1'), ('seq[value:List[]*]', 'value:List')]
SELF = [('REC(', 'TryInto::try_into('), ('TryFrom::try_from(', 'TryInto::try_into(')]
V = 'treeldr_layouts::value::'
NFMT = {k: lambda a: 'num(%s)' % re.sub(r'^string\((.*)\)$', r'\1', a[0]) for k in ('From::from', 'Number::from_json')}


def json_in(ctx, rep):
    rep.rule('json-in', 'reading JSON maps null, booleans, numbers, strings, arrays and objects to unit, booleans, numbers, text strings, lists '
             'and maps, keeping every item in order and every entry under its key')
    lit = 'Value::Literal(Literal::%s)'
    for frm, B, A, E in (('json_syntax::Value', 'Boolean', None, ('value:Object[].key', 'value:Object[].value')),
                         ('serde_json::value::Value', 'Bool', None, ('value:Object[].0', 'value:Object[].1'))):
        f = conv(ctx, 'from', frm, V + 'Value')
        simple(ctx, rep, 'Value from ' + frm, f, ('value',), [
            ('null', {'value': 'Null'}, [lit % 'Unit']),
            ('boolean', {'value': B}, ['Value::Literal(value)' if B == 'Boolean' else lit % 'Boolean(value:Bool)']),
            ('number', {'value': 'Number'}, [lit % 'Number(num(value:Number))']),
            ('string', {'value': 'String'}, [lit % 'TextString(%s)' % ('string(value:String)' if B == 'Boolean' else 'value:String')]),
            ('array', {'value': 'Array'}, ['Value::List(value:Array)']),
            ('object', {'value': 'Object'}, ['Value::Map(seq[Value::Literal(Literal::TextString(%s)) => %s*])' % E]),
        ], opaque_fn=number, fmt=NFMT)
    f = one(ctx, 'try_from_json_at', V + 'Value')
    a = 'JsonArray::iter_mapped(json:Array, code_map, offset)[]'
    o = 'Object::iter_mapped(json:Object, code_map, offset)[].value'
    simple(ctx, rep, 'Value::try_from_json_at', f, ('json', 'code_map', 'offset'), [
        ('null', {'json': 'Null'}, ['Ok(%s)' % (lit % 'Unit')]),
        ('boolean', {'json': 'Boolean'}, ['Ok(Value::Literal(json))']),
        ('number', {'json': 'Number'}, ['Ok(%s)' % (lit % 'Number(num(NumberBuf::as_number(json:Number)))')]),
        ('string', {'json': 'String'}, ['Ok(%s)' % (lit % 'TextString(string(json:String))')]),
        ('array', {'json': 'Array'}, ['Ok(Value::List(seq[REC(%s.value, code_map, %s.offset)?*]))' % (a, a)]),
        ('object', {'json': 'Object'}, ['Ok(Value::Map(seq[Value::Literal(Literal::TextString(string(%s.key.value))) => '
                                        'REC(%s.value.value, code_map, %s.value.offset)?*]))' % (o, o, o)]),
    ], opaque_fn=number, fmt=NFMT)


def json_out(ctx, rep):
    rep.rule('json-out', 'writing JSON is the inverse of reading it; byte strings, non-string keys and numbers without a JSON form are refused, '
             'never altered')
    n = 'TryInto::try_into(value:Number)'
    for to, B, S, O in (('json_syntax::Value', 'Ok(value)', 'Value::String(value:TextString)', 'Object'),
                        ('serde_json::value::Value', 'Ok(Value::Bool(value:Boolean))', 'Value::String(value:TextString)', 'Map')):
        lits = [
            ('boolean', {'value': 'Boolean'}, [B]),
            ('number', {'value': 'Number'}, ['Ok(Value::Number(%s?))' % n, 'Err(NonJsonValue::Number(%s:Err.0))' % n]),
            ('text', {'value': 'TextString'}, ['Ok(%s)' % S]),
        ]
        simple(ctx, rep, 'Literal to ' + to, conv(ctx, 'try_from', V + 'Literal', to), ('value',), lits + [
            ('unit', {'value': 'Unit'}, ['Ok(Value::Null)']),
            ('bytes', {'value': 'ByteString'}, ['Err(value)'])], opaque_fn=number)
        if to.startswith('serde'):
            simple(ctx, rep, 'TypedLiteral to ' + to, conv(ctx, 'try_from', V + 'TypedLiteral', to), ('value',), [
                ('boolean', {'value': 'Boolean'}, [B]),
                ('number', {'value': 'Number'}, ['Ok(Value::Number(%s?))' % n, 'Err(NonJsonValue::Number(%s:Err.0))' % n]),
                ('text', {'value': 'TextString'}, ['Ok(%s)' % S]),
                ('id', {'value': 'Id'}, ['Ok(Value::String(value:Id))']),
                ('unit', {'value': 'Unit'}, ['TryInto::try_into(value:Unit)']),
                ('bytes', {'value': 'ByteString'}, ['Err(value)'])], opaque_fn=number)
        t = 'TryInto::try_into(value:%s)'
        f = conv(ctx, 'try_from', V + 'Value', to)
        e, v = 'value:Map[].0:Literal:TextString', 'TryInto::try_into(value:Map[].1)'
        k = 'value:Map[].0'
        obj = 'Ok(Value::Object(lv{%s::insert#0(^, %s, %s?)|%s::new()}))' % (O, e, v, O)
        simple(ctx, rep, 'Value to ' + to, f, ('value',), [
            ('literal', {'value': 'Literal'}, [t % 'Literal']),
            ('list', {'value': 'List'}, ['Ok(Value::Array(seq[%s?*]))' % t % 'List[]', 'Err(%s:Err)' % t % 'List[]']),
            ('map', {'value': 'Map', k: 'Literal', k + ':Literal': 'TextString'}, [obj, 'Err(%s:Err)' % v]),
            ('map with another key', {'value': 'Map', k: 'Literal', k + ':Literal': 'Number'},
                ['Err(NonJsonValue::NonStringKey(%s))' % k, 'Ok(Value::Object(%s::new()))' % O]),
            ('map with a list as key', {'value': 'Map', k: 'List'},
                ['Err(NonJsonValue::NonStringKey(%s))' % k, 'Ok(Value::Object(%s::new()))' % O]),
        ], opaque_fn=json_conv(f), abbrev=SELF)
    f = conv(ctx, 'from', V + 'NonJsonNumber', V + 'NonJsonValue')
    simple(ctx, rep, 'NonJsonValue from NonJsonNumber', f, ('value',), [('number', {}, ['NonJsonValue::Number(value.0)'])])


def untyped(ctx, rep):
    rep.rule('untyped', 'stripping the types of a value keeps the whole tree, and the type of a value is the layout it was made with')
    f = ctx.fn(crate=L, name='into_untyped', adt='TypedLiteral')
    cs = [(k, {'self': k}, ['Value::Literal(self)']) for k in ('Boolean', 'Number', 'ByteString', 'TextString')]
    cs += [('Id', {'self': 'Id'}, ['Value::Literal(Literal::TextString(self:Id))']), ('Unit', {'self': 'Unit'}, ['self:Unit'])]
    simple(ctx, rep, 'TypedLiteral::into_untyped', f, ('self',), cs)
    f = ctx.fn(crate=L, name='into_untyped', adt='TypedValue')
    simple(ctx, rep, 'TypedValue::into_untyped', f, ('self',), [
        ('literal', {'self': 'Literal'}, ['TypedLiteral::into_untyped(self:Literal)']),
        ('variant', {'self': 'Variant'}, ['REC(self:Variant)']),
        ('map', {'self': 'Map'}, ['Value::Map(seq[self:Map[].0 => REC(self:Map[].1)*])']),
        ('list', {'self': 'List'}, ['Value::List(seq[REC(self:List[])*])']),
        ('always', {'self': 'Always'}, ['self:Always']),
    ], opaque_fn=lambda g: (g.self_adt or '').endswith('::TypedLiteral'))
    ty = lambda b: 'intrinsics::transmute(%s)' % b
    LITS = ('Unit', 'Boolean', 'Number', 'ByteString', 'TextString', 'Id')
    f = ctx.fn(crate=L, name='type_', adt='TypedLiteral')
    simple(ctx, rep, 'TypedLiteral::type_', f, ('self',), [(k, {'self': k}, ['self:%s.1' % k]) for k in LITS], fmt=CAST)
    f = ctx.fn(crate=L, name='type_', adt='TypedValue')
    simple(ctx, rep, 'TypedValue::type_', f, ('self',),
           [(k, {'self': 'Literal', 'self:Literal': k}, ['Some(self:Literal:%s.1)' % k]) for k in LITS] +
           [(k, {'self': k}, ['Some(self:%s.1)' % k]) for k in ('Variant', 'Map', 'List')] + [('Always', {'self': 'Always'}, ['None'])], fmt=CAST)


# a reference to a `Ref` of another kind is the same reference
CAST = {'intrinsics::transmute': lambda a: a[0]}


def serde_in(ctx, rep):
    rep.rule('serde-in', 'deserializing gives each serde data form its tree form, items and entries in order, and refuses only numbers that are '
             'not finite')
    vis = [f for f in ctx.prog.find(crate=L) if not f.derived and '::value::de::' in f.path and f.name.startswith('visit_') and '{closure' not in f.path]
    by = {f.name: f for f in vis}
    rep.obligations += 1
    lit = 'Ok(Value::Literal(Literal::%s))'
    WANT = {
        'visit_bool': [('bool', {}, [lit % 'Boolean(value)'])],
        'visit_i64': [('integer', {}, [lit % 'Number(Number(Ratio::from_integer(value)))'])],
        'visit_u64': [('integer', {}, [lit % 'Number(Number(Ratio::from_integer(value)))'])],
        'visit_f64': [('finite', {'Ratio::from_float(value)': 'Some'}, [lit % 'Number(Number(Ratio::from_float(value)!))']),
                      ('not finite', {'Ratio::from_float(value)': 'None'}, ['Err(Error::invalid_value(Unexpected::Float(value), self))'])],
        'visit_bytes': [('bytes', {}, [lit % 'ByteString(value)'])],
        'visit_byte_buf': [('bytes', {}, [lit % 'ByteString(value)'])],
        'visit_str': [('string', {}, [lit % 'TextString(value)'])],
        'visit_string': [('string', {}, [lit % 'TextString(value)'])],
        'visit_none': [('none', {}, [lit % 'Unit'])],
        'visit_unit': [('unit', {}, [lit % 'Unit'])],
        'visit_some': [('some', {}, ['Deserializer::deserialize_any(value, ValueVisitor)'])],
        'visit_seq': [('items', {}, ['Ok(Value::List(seq[IT?!*]))', 'Err(IT:Err)'])],
        'visit_map': [('entries', {}, ['Ok(Value::Map(seq[IT?!.0 => IT?!.1*]))', 'Err(IT:Err)'])],
    }
    for n in sorted(set(WANT) | set(by)):
        if n not in by:
            rep.fail('Value visitor/%s: missing' % n, 'the visitor of tree values no longer accepts what %s accepts' % n, 'layouts/src/value/de.rs')
            continue
        if n not in WANT:
            continue
        f = by[n]
        params = ('self', 'value')[:f.mir['argc']]
        it = [(re.compile(r'(SeqAccess::next_element|MapAccess::next_entry)\((?:value|lv\{[^{}]*\})\)'), 'IT')]
        simple(ctx, rep, 'Value visitor/' + n, f, params, WANT[n], abbrev=it)
    f = [f for f in ctx.prog.find(crate=L, name='deserialize') if not f.derived and str(f.self_ty) == V + 'Value']
    if len(f) != 1:
        raise Anchor('expected one Deserialize of Value, found %d' % len(f))
    simple(ctx, rep, 'Value::deserialize', f[0], ('deserializer',), [('any', {}, ['Deserializer::deserialize_any(deserializer, ValueVisitor)'])])


def serde_out(ctx, rep):
    rep.rule('serde-out', 'serializing gives each tree form its serde data form, with every item in order and every entry with its key, and '
             'announces the right length')
    f = one(ctx, 'serialize', V + 'Value')
    e, i = 'self:Map[].0, self:Map[].1', 'self:List[]'
    m, q = 'Serializer::serialize_map(serializer, Some(len(self:Map)))', 'Serializer::serialize_seq(serializer, Some(len(self:List)))'
    me, qe = 'SerializeMap::serialize_entry', 'SerializeSeq::serialize_element'
    lm = 'lv{%s#0(^, %s)|%s?}' % (me, e, m)
    lq = 'lv{%s#0(^, %s)|%s?}' % (qe, i, q)
    simple(ctx, rep, 'Value::serialize', f, ('self', 'serializer'), [
        ('literal', {'self': 'Literal'}, ['Serialize::serialize(self:Literal, serializer)']),
        ('map', {'self': 'Map'}, ['SerializeMap::end(%s)' % lm, 'Err(%s:Err)' % m, 'Err(%s(%s, %s):Err)' % (me, lm, e)]),
        ('list', {'self': 'List'}, {'out': ['SerializeSeq::end(%s)' % lq, 'Err(%s:Err)' % q, 'Err(%s(%s, %s):Err)' % (qe, lq, i)],
                                    'or': [['Serialize::serialize(self:List, serializer)'], ['Serializer::collect_seq(serializer, self:List)']]}),
    ], abbrev=[(re.compile(r'SerializeMap::serialize_value(#0|)\(SerializeMap::serialize_key#0\((.*), self:Map\[\]\.0\), self:Map\[\]\.1\)'),
                r'SerializeMap::serialize_entry\1(\2, self:Map[].0, self:Map[].1)'),
               (re.compile(r'^Err\(SerializeMap::serialize_key\((.*), self:Map\[\]\.0\):Err\)$'),
                r'Err(SerializeMap::serialize_entry(\1, self:Map[].0, self:Map[].1):Err)')] * 2, opaque_fn=lambda g: str(g.self_ty) == V + 'Literal')
    f = one(ctx, 'serialize', V + 'Literal')
    n = 'Number::as_native(self:Number)'
    s = 'Serializer::serialize_%s(serializer%s)'
    simple(ctx, rep, 'Literal::serialize', f, ('self', 'serializer'), [
        ('unit', {'self': 'Unit'}, [s % ('unit', '')]),
        ('boolean', {'self': 'Boolean'}, [s % ('bool', ', self:Boolean')]),
        ('text', {'self': 'TextString'}, [s % ('str', ', self:TextString')]),
        ('bytes', {'self': 'ByteString'}, [s % ('bytes', ', self:ByteString')]),
        ('u64', {'self': 'Number', n: 'U64'}, [s % ('u64', ', %s:U64' % n)]),
        ('i64', {'self': 'Number', n: 'I64'}, [s % ('i64', ', %s:I64' % n)]),
        ('f64', {'self': 'Number', n: 'F64'}, [s % ('f64', ', %s:F64' % n)]),
    ], opaque_fn=number)


def cbor(ctx, rep):
    rep.rule('cbor', 'writing CBOR keeps the whole tree: every form has its CBOR form, items in order, entries under their keys')
    C = 'serde_cbor::value::Value'
    fmt = {'From::from': lambda a: 'cbor(%s)' % a[0]}

    def lits(b):
        return [('boolean', {'value:Literal': 'Boolean'}, ['Value::Bool(value:Literal:Boolean)']),
                ('number', {'value:Literal': 'Number'}, ['cbor(value:Literal:Number)']),
                ('bytes', {'value:Literal': 'ByteString'}, ['Value::Bytes(value:Literal:ByteString)']),
                ('text', {'value:Literal': 'TextString'}, ['Value::Text(value:Literal:TextString)'])]
    structure = lambda k: [('map', {'value': 'Map'}, ['Value::Map(seq[%s => value:Map[].1*])' % k]),
                 ('list', {'value': 'List'}, ['Value::Array(value:List)'])]
    cs = [(a, dict(w, value='Literal'), o) for a, w, o in lits('value:Literal')]
    simple(ctx, rep, 'Value to CBOR', conv(ctx, 'from', V + 'Value', C), ('value',), structure('value:Map[].0') + cs + [
        ('unit', {'value': 'Literal', 'value:Literal': 'Unit'}, ['Value::Null'])], opaque_fn=number, fmt=fmt, abbrev=REC)
    simple(ctx, rep, 'TypedValue to CBOR', conv(ctx, 'from', V + 'TypedValue', C), ('value',), structure('cbor(value:Map[].0)') + cs + [
        ('unit', {'value': 'Literal', 'value:Literal': 'Unit', }, ['cbor(value:Literal:Unit)']),
        ('id', {'value': 'Literal', 'value:Literal': 'Id', }, ['Value::Text(value:Literal:Id)']),
        ('always', {'value': 'Always'}, ['cbor(value:Always)']),
        ('variant', {'value': 'Variant'}, ['value:Variant'])],
        opaque_fn=lambda g: number(g) or (g.trait_ref or '').endswith('From<%sValue>' % V), fmt=fmt, abbrev=REC)


def tagged(ctx, rep):
    rep.rule('tagged', 'a value written to tagged CBOR carries, at each level, the tag its layout declares, around exactly the untagged content')
    f = ctx.fn(crate=L, name='try_into_tagged_serde_cbor_with_ref')
    op = lambda g: g.name == 'get_layout_tag' or number(g) or (g.trait_ref or '').endswith('From<%sValue>' % V)
    params = ('self', 'voc', 'int', 'layouts')
    fmt = {'From::from': lambda a: 'cbor(%s)' % a[0], 'cbor::get_layout_tag': lambda a: 'tag(%s)' % ', '.join(a)}

    def case(name, when, content, ty, errs=()):
        g = 'tag(voc, int, layouts, %s)' % ty
        return [(name + ', layout with a tag', dict(when, **{g: 'Ok', g + '?': 'Some'}), ['Ok(Value::Tag(%s?!, %s))' % (g, content)] + list(errs)),
                (name + ', layout without tag', dict(when, **{g: 'Ok', g + '?': 'None'}), ['Ok(%s)' % content] + list(errs)),
                (name + ', bad tag', dict(when, **{g: 'Err'}), ['Err(%s:Err)' % g] + list(errs))]
    cs = [('top layout', {'self': 'Always'}, ['Ok(cbor(self:Always))'])]
    b = 'self:Literal:'
    for k, c in (('Unit', 'cbor(%sUnit)' % b), ('Boolean', 'Value::Bool(%sBoolean)' % b), ('Number', 'cbor(%sNumber)' % b),
                 ('ByteString', 'Value::Bytes(%sByteString)' % b), ('TextString', 'Value::Text(%sTextString)' % b), ('Id', 'Value::Text(%sId)' % b)):
        cs += case(k, {'self': 'Literal', 'self:Literal': k}, c, b + k + '.1')
    r = lambda x: 'REC(%s, voc, int, layouts)' % x
    cs += case('variant', {'self': 'Variant'}, r('self:Variant') + '?', 'self:Variant.1', ['Err(%s:Err)' % r('self:Variant')])
    cs += case('list', {'self': 'List'}, 'Value::Array(seq[%s?*])' % r('self:List[]'), 'self:List.1', ['Err(%s:Err)' % r('self:List[]')])
    cs += case('map', {'self': 'Map'}, 'Value::Map(seq[(cbor(self:Map[].0), %s?)*])' % r('self:Map[].1'), 'self:Map.1', ['Err(%s:Err)' % r('self:Map[].1')])
    simple(ctx, rep, 'tagged CBOR', f, params, cs, opaque_fn=op, fmt=fmt)
    t = 'TypedValue::try_into_tagged_serde_cbor_with_ref'
    f = ctx.fn(crate=L, name='try_into_tagged_serde_cbor_with')
    inner = opaque_names('try_into_tagged_serde_cbor_with_ref')
    simple(ctx, rep, 'tagged CBOR with', f, params, [('all', {}, [t + '(self, voc, int, layouts)'])], opaque_fn=inner)
    f = ctx.fn(crate=L, name='try_into_tagged_serde_cbor')
    simple(ctx, rep, 'tagged CBOR, terms', f, ('self', 'layouts'), [('all', {}, [t + '(self, (), (), layouts)'])], opaque_fn=inner)


def opaque_names(*names_):
    return lambda g: g.name in names_


def tag(ctx, rep):
    rep.rule('tag', 'the tag of a layout is the unsigned integer its tag property is given, absent when it has no such property, and anything else '
             'is an error')
    f = ctx.fn(crate=L, name='get_layout_tag')
    prop = 'IriInterpretation::lexical_iri_interpretation(int, voc, CBOR_TAG_IRI)'
    get = 'get(Layout::extra_properties(LayoutRegistry::get(layouts, layout)!), PROP!)'
    lits = 'ReverseLiteralInterpretation::literals_of(int, GET!)'
    lit = 'LiteralVocabulary::literal(voc, LITS[])'
    iri = 'IriVocabulary::iri(voc, LIT!.type_:Any)'
    ab = [(prop, 'PROP'), (get, 'GET'), (lits, 'LITS'), (lit, 'LIT'), (iri, 'IRI'), ('UnsignedLongDatatype::from_iri(IRI!)', 'ULD')]

    def case(p, g, more, l=None, ty=None, i=None, d=None, parse=None):
        def h(s, t, st):
            for a, b in ab:
                s = s.replace(a, b)
            return {'PROP': p, 'GET': g, 'more(LITS)': more, 'LIT': l, 'LIT!.type_': ty, 'IRI': i, 'ULD': d, 'str::parse(LIT!.value)': parse,
                    'LayoutRegistry::get(layouts, layout)': 'Some'}.get(s)
        return h
    N = 'Err(InvalidTag::NonLiteral)'
    simple(ctx, rep, 'get_layout_tag', f, ('voc', 'int', 'layouts', 'layout'), [
        ('no tag property', case('None', None, None), ['Ok(None)']),
        ('layout without tag', case('Some', 'None', None), ['Ok(None)']),
        ('tag not a literal', case('Some', 'Some', 'None'), [N]),
        ('unknown literal', case('Some', 'Some', None, 'None'), [N]),
        ('language string', case('Some', 'Some', None, 'Some', 'LangString'), [N]),
        ('unsigned integer', case('Some', 'Some', 'Some', 'Some', 'Any', 'Some', 'Some', 'Ok'), ['Ok(Some(str::parse(LIT!.value)?))']),
        ('integer too large', case('Some', 'Some', 'Some', 'Some', 'Any', 'Some', 'Some', 'Err'), ['Err(InvalidTag::Value(LIT!.value))']),
        ('other datatype', case('Some', 'Some', 'Some', 'Some', 'Any', 'Some', 'None'), ['Err(InvalidTag::Type(IRI!))']),
    ], opaque_fn=opaque_names('extra_properties'), abbrev=ab)
    f = ctx.fn(crate=L, name='extra_properties', adt='Layout')
    e = 'self:%s.extra_properties'
    cs = [(k, {'self': k}, ['NO_EXTRA_PROPERTIES']) for k in ('Never', 'Always')]
    cs += [(k, {'self': k}, [e % k]) for k in ('Product', 'Sum')]
    cs += [(k + ' list', {'self': 'List', 'self:List': k}, [e % ('List:' + k)]) for k in ('Ordered', 'Sized', 'Unordered')]
    cs += [('id', {'self': 'Literal', 'self:Literal': 'Id'}, [e % 'Literal:Id'])]
    cs += [(k, {'self': 'Literal', 'self:Literal': 'Data', 'self:Literal:Data': k}, [e % ('Literal:Data:' + k)])
           for k in ('Unit', 'Boolean', 'Number', 'ByteString', 'TextString')]
    simple(ctx, rep, 'Layout::extra_properties', f, ('self',), cs)


def numbers(ctx, rep):
    rep.rule('numbers', 'a number is read exactly, and written as an integer of the right sign whenever the target has one that can hold it')
    fs = [f for f in ctx.prog.find(crate=L, name='from') if not f.derived and str(f.self_ty) == V + 'Number'
          and re.search(r'From<[ui]\d+>$', f.trait_ref or '')]
    rep.obligations += 1
    if len(fs) < 8:
        raise Anchor('expected the 8 conversions of integers to numbers, found %d' % len(fs))
    for f in fs:
        simple(ctx, rep, 'Number ' + f.trait_ref.rsplit('::', 1)[1], f, ('value',), [('integer', {}, ['Number(Ratio::from_integer(value))'])])
    for ty in ('f32', 'f64'):
        g = 'Ratio::from_float(value)'
        simple(ctx, rep, 'Number from ' + ty, conv(ctx, 'try_from', ty, V + 'Number'), ('value',), [
            ('finite', {g: 'Some'}, ['Ok(Number(%s!))' % g]), ('not finite', {g: 'None'}, ['Err(NonFiniteFloat(value))'])])
    for k, t in (('json_syntax', 'json_number::NumberBuf'), ('json_syntax, borrowed', "&'a json_number::Number"), ('serde_json', 'serde_json::number::Number')):
        simple(ctx, rep, 'Number from ' + k, conv(ctx, 'from', t, V + 'Number'), ('value',), [('number', {}, ['num(value)'])],
               opaque_fn=opaque_names('from_json'), fmt=NFMT)
    for k, t in (('json_syntax', 'json_number::NumberBuf'), ('serde_json', 'serde_json::number::Number')):
        d = 'Number::decimal_representation(value)'

        def case(dec, p):
            def h(s, t, st):
                if s == d:
                    return dec
                if 'from_str(' in s and s.endswith('from_str(%s!)' % d):
                    return p
                return None
            return h
        simple(ctx, rep, 'Number to ' + k, conv(ctx, 'try_from', V + 'Number', t), ('value',), [
            ('decimal', case('Some', 'Ok'), ['Ok(parse(%s!)?)' % d]),
            ('no decimal form', case('None', None), ['Err(NonJsonNumber(value))']),
            ('refused', case('Some', 'Err'), ['Err(NonJsonNumber(value))']),
        ], opaque_fn=opaque_names('decimal_representation'), abbrev=[(re.compile(r'[\w<>\[\];: ]*from_str\('), 'parse(')])
    f = ctx.fn(crate=L, name='as_native', adt='Number')
    n = 'Ratio::numer(self.0)'
    bits = 'BigInt::bits(%s)' % n
    digits = 'BigInt::iter_u64_digits(%s)' % n
    F = 'NativeNumber::F64(ToPrimitive::to_f64(self.0)!)'

    def native(integer, sign=None, fits=None, zero='Some', n=n, sgn=None):
        """A number: integer or not, its sign, its size in bits (the largest that fits, the least that does not)."""
        bits, digits = 'BigInt::bits(%s)' % n, 'BigInt::iter_u64_digits(%s)' % n

        def h(s, t, st):
            if s.startswith('Ratio::is_integer('):
                return integer
            if s == 'BigInt::sign(%s)' % n:
                return sign
            if bits in s and t.op in ('lt', 'le', 'eq', 'bin', 'not'):
                return evalnum(t, lambda x: fits if x.op == 'call' and x.args[0] == 'BigInt::bits' else None)
            if s == 'more(%s)' % digits:
                return zero
            if s == 'Signed::is_positive(%s)' % n:
                return sgn if sgn is None else sgn > 0
            if s == 'Signed::is_negative(%s)' % n:
                return sgn if sgn is None else sgn < 0
            return None
        return h
    simple(ctx, rep, 'Number::as_native', f, ('self',), [
        ('fraction', native(False), [F]),
        ('negative', native(True, 'Minus', 63), ['NativeNumber::I64(un(Neg, %s[]))' % digits]),
        ('large negative', native(True, 'Minus', 64), [F]),
        ('zero', native(True, 'NoSign', 0, 'None'), ['NativeNumber::U64(0)']),
        ('positive', native(True, 'Plus', 64), ['NativeNumber::U64(%s[])' % digits]),
        ('large positive', native(True, 'Plus', 65), [F]),
    ])
    f = conv(ctx, 'from', V + 'Number', 'serde_cbor::value::Value')
    n = 'Ratio::numer(value.0)'
    digits = 'BigInt::iter_u64_digits(%s)' % n
    nat = lambda *a, **k: native(*a, n=n, **k)
    simple(ctx, rep, 'Number to CBOR', f, ('value',), [
        ('fraction', nat(False), ['Value::Float(ToPrimitive::to_f64(value.0)!)']),
        ('positive', nat(True, fits=64, sgn=1), ['Value::Integer(%s[])' % digits]),
        ('negative', nat(True, fits=64, sgn=-1), ['Value::Integer(un(Neg, %s[]))' % digits]),
        ('zero', nat(True, fits=0, zero='None', sgn=0), [('Value::Integer(un(Neg, 0))', 'Value::Integer(0)')]),
        ('large positive', nat(True, fits=65, sgn=1), ['Value::Tag(2, Value::Bytes(BigInt::to_bytes_be(%s).1))' % n]),
        ('large negative', nat(True, fits=65, sgn=-1), ['Value::Tag(3, Value::Bytes(BigInt::to_bytes_be(Sub::sub(-1, %s)).1))' % n]),
    ])
    f = ctx.fn(crate=L, name='decimal_representation', adt='Number')
    whole = 'Signed::abs(Div::div(Ratio::numer(self.0), Ratio::denom(self.0)))'
    ab = [('Lazy::get(const(&lazy_static::lazy::Lazy<num_bigint::bigint::BigInt>, ), deref::__static_ref_initialize)', 'TEN'), (whole, 'WHOLE'),
          ('RemAssign::rem_assign#0(', 'Rem::rem('), ('MulAssign::mul_assign#0(', 'Mul::mul('), ('Ratio::denom(self.0)', 'DEN')]
    frac = lambda num: 'lv{String::new()|string(concat(^, Div::div(Mul::mul(lv{Rem::rem(Mul::mul(^1, TEN), DEN)|Rem::rem(%s, DEN)}, TEN), DEN)))}' % num
    end = lambda sign, *num: tuple('Some(string(concat(%sWHOLE, ".", %s)))' % ('"-", ' if sign else '', frac(x)) for x in num + ('Signed::abs(Ratio::numer(self.0))',))

    def dec(neg, zero, seen=None, frac=None):
        def h(s, t, st):
            if s == 'Signed::is_negative(self.0)':
                return neg
            if s.startswith('Zero::is_zero('):
                return zero
            if t.op == 'call' and s.startswith('get('):
                return seen
            if t.op == 'eq' and s.startswith('0 == len('):
                return frac
            return None
        return h
    simple(ctx, rep, 'Number::decimal_representation', f, ('self',), [
        ('positive integer', dec(False, True, frac=True), ['Some(string(WHOLE))']),
        ('negative integer', dec(True, True, frac=True), ['Some(string(concat("-", WHOLE)))']),
        ('periodic', dec(False, False, 'Some'), ['None']),
        ('neither ended nor seen', dec(False, False, 'None', False), []),
        ('never ended', dec(False, False, None, False), ['None']),
        ('decimal', dec(False, None, 'None', False), ['None', end(False, 'Ratio::numer(self.0)')]),
        ('negative decimal', dec(True, None, 'None', False), ['None', end(True, 'Neg::neg(Ratio::numer(self.0))')]),
    ], abbrev=ab)
    f = ctx.fn(crate=L, name='from_json', adt='Number')
    e = 'str::split_once(value, seq[char(e), char(E)])'
    p = 'ParseXsd::parse_xsd(%s)'
    simple(ctx, rep, 'Number::from_json', f, ('value',), [
        ('exponent', {e: 'Some', 'str::parse(%s!.1)' % e: 'Ok', p % (e + '!.0'): 'Ok'},
            ['Number(Mul::mul(%s?, Ratio::pow(Ratio::from_integer(TEN), str::parse(%s!.1)?)))' % (p % (e + '!.0'), e)]),
        ('no exponent', {e: 'None', p % 'value': 'Ok'}, ['Number(Mul::mul(%s?, Ratio::pow(Ratio::from_integer(TEN), 0)))' % (p % 'value')]),
    ], abbrev=ab)
