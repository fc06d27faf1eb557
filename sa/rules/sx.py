"""Reading layout definitions from JSON: which entries are accepted, where
they end up, and what each JSON form stands for."""
from contract import *
from rules.prim import simple

L = 'treeldr_layouts'
FMT = {
    '@threads': set(),
    '@journal': {('syntax::get_entry', 2): lambda a: '+' + a[1], ('syntax::require_entry', 2): lambda a: '+' + a[1],
                 ('syntax::check_type', 2): lambda a: '+"type"', ('LayoutHeader::try_from_json_object_at', 1): lambda a: '+header',
                 ('syntax::require_type', 1): lambda a: '+"type"', ('ObjectUnusedEntries::remove', 0): lambda a: 'used ' + a[0]},
    'syntax::get_entry': lambda a: 'get(%s)' % a[1],
    'syntax::require_entry': lambda a: 'req(%s)' % a[1],
    'syntax::check_type': lambda a: 'type(%s)' % a[1],
    'LayoutHeader::try_from_json_object_at': lambda a: 'header(%s)' % a[0],
    'ObjectUnusedEntries::new': lambda a: 'unused(%s)' % a[0],
    'ObjectUnusedEntries::check': lambda a: 'check(%s)' % a[0],
}
OPS = ('syntax::get_entry', 'syntax::require_entry', 'syntax::check_type', 'LayoutHeader::try_from_json_object_at', 'ObjectUnusedEntries::check')


def opaque(f):
    return f.name.startswith('try_from_json') or f.name in ('get_entry', 'require_entry', 'check_type', 'require_type') or \
        (f.self_adt or '').endswith('ObjectUnusedEntries')


def hook(some, fail=None):
    def h(s, t, st):
        if t.op != 'call':
            return None
        if t.args[0].endswith(OPS):
            return 'Err' if s == fail else 'Ok'
        return None

    def g(s, t, st):
        r = h(s, t, st)
        if r is None and re.fullmatch(r'get\("\w+"\)\?', s):
            return some
        return r
    g.pl = True     # payloads too are shown as assumed
    return g


def reader(ctx, adt, name='try_from_json_object_at'):
    fs = [f for f in ctx.prog.find(crate=L, name=name) if not f.derived and (f.self_adt or '').endswith('::' + adt)
          and '::abs::syntax::' in f.self_adt]
    if len(fs) != 1:
        raise Anchor('expected one %s of %s, found %d' % (name, adt, len(fs)))
    return fs[0]


DS = 'Dataset(seq[])'
VI = 'ValueIntro(OneOrMany::One("value"))'
OM = 'OneOrMany::Many(seq[])'
OPT = 'None'
REQ = None
# definition -> (`type` entry, has a header, {field: (entry, default, REQ when the entry is required)})
ENTRIES = {
    'UnitLayout': ('unit', True, {'const_': ('const', 'Value::Literal(Literal::Unit)')}),
    'BooleanLayout': ('boolean', True, {'resource': ('resource', OPT), 'datatype': ('datatype', OPT)}),
    'NumberLayout': ('number', True, {'resource': ('resource', OPT), 'datatype': ('datatype', REQ)}),
    'ByteStringLayout': ('bytes', True, {'resource': ('resource', OPT), 'datatype': ('datatype', REQ)}),
    'TextStringLayout': ('string', True, {'pattern': ('pattern', OPT), 'resource': ('resource', OPT), 'datatype': ('datatype', OPT)}),
    'IdLayout': ('id', True, {'pattern': ('pattern', OPT), 'resource': ('resource', OPT)}),
    'SizedListLayout': ('tuple', True, {'items': ('items', 'seq[]')}),
    'UnorderedListLayout': ('set', True, {'item': ('item', REQ)}),
    'OrderedListLayout': ('list', True, {'node': ('node', REQ), 'head': ('head', 'Pattern::Var(VariableNameBuf("self"))'),
                                         'tail': ('tail', 'Pattern::Iri(CompactIri(RDF_NIL))')}),
    'ProductLayout': ('record', True, {'fields': ('fields', 'seq[]', 'seq[Value::Literal(Literal::TextString(get("fields")?![].0)) => get("fields")?![].1*]')}),
    'SumLayout': ('sum', True, {'variants': ('variants', 'seq[]')}),
    'UnionLayout': ('union', True, {}),
    'IntersectionLayout': ('intersection', True, {}),
    'ListItem': (None, False, {'intro': ('intro', VI), 'value': ('value', REQ), 'dataset': ('dataset', DS), 'property': ('property', OPT)}),
    'Field': (None, False, {'intro': ('intro', VI), 'value': ('value', REQ), 'dataset': ('dataset', DS), 'property': ('property', OPT), 'required': ('required', 'false')}),
    'ListNode': (None, False, {'head': ('head', '"head"'), 'rest': ('rest', '"rest"'), 'intro': ('intro', VI), 'value': ('value', REQ),
                               'dataset': ('dataset', OPT)}),
    'Variant': (None, False, {'intro': ('intro', OM), 'value': ('value', REQ), 'dataset': ('dataset', DS)}),
    'VariantFormat': (None, False, {'layout': ('layout', REQ), 'input': ('input', 'VariantInput(OneOrMany::One(Pattern::Var(SELF)))'), 'graph': ('graph', OPT)}),
    'ValueFormat': (None, False, {'layout': ('layout', REQ), 'input': ('input', 'ValueInput(OneOrMany::One(Pattern::Var(VALUE)))'), 'graph': ('graph', OPT)}),
    'TypedString': (None, False, {'value': ('value', REQ), 'type_': ('type', REQ)}),
    'LayoutHeader': (None, None, {'base': ('base', OPT), 'prefixes': ('prefixes', 'seq[]'), 'id': ('id', OPT),
                                  'input': ('input', 'LayoutInput(OneOrMany::One("self"))'), 'intro': ('intro', OM),
                                  'dataset': ('dataset', DS), 'extra': ('extra', 'ExtraProperties(seq[])')}),
}


def entries(ctx, rep):
    rep.rule('entries', 'the JSON reader of each definition puts each entry into its own field, applies the default of an absent optional entry, '
             'rejects a missing required one, and rejects every entry it does not know')
    for adt, (ty, header, fields) in ENTRIES.items():
        f = reader(ctx, adt)
        k = 'read ' + adt
        params = ('object', 'unused_entries', 'code_map', 'offset') if header is None else ('object', 'code_map', 'offset')
        simple(ctx, rep, k, f, params, [], opaque_fn=lambda g: opaque(g) and g is not f, fmt=FMT)
        c = ctx.cache[('simple', k)]
        uses, ops = [], []
        for fd, e in fields.items():
            uses.append('+"%s"' % e[0])
            ops.append('%s("%s")' % ('req' if e[1] is REQ else 'get', e[0]))
        if ty:
            uses.append('+"type"')
            ops.append('type("%s")' % ty)
        if header:
            uses.append('+header')
            ops.append('header(object)')
        for some in ('Some', 'None'):
            fs = {}
            for fd, e in fields.items():
                g = 'get("%s")?' % e[0]
                if e[1] is REQ:
                    fs[fd] = 'req("%s")?' % e[0]
                elif some == 'None':
                    fs[fd] = e[1]
                else:
                    fs[fd] = e[2] if len(e) > 2 else 'Some(%s!)' % g if e[1] == OPT else g + '!'
            if ty:
                fs['type_'] = last(f.self_adt) + 'Type'
            if header:
                fs['header'] = 'header(object)?'
            out = 'Ok(%s{%s})' % (adt, ', '.join('%s: %s' % x for x in sorted(fs.items())))
            h = ctx.cache.setdefault(('sx', some), hook(some))
            c.check(ctx, rep, 'entries ' + {'Some': 'present', 'None': 'absent'}[some], {}, {'out': [out]}, h)
        if header is not None:
            ops.append('check(seq[..unused(object), %s])' % ', '.join(sorted(uses)))
        for x in ops:
            h = ctx.cache.setdefault(('sx', x), hook('Some', x))
            c.check(ctx, rep, 'failing ' + x, {}, {'out': ['Err(%s:Err)' % x]}, h)


AB = [(re.compile(r'Error::Unexpected\{expected: [^{}]*, found: Value::kind\((.*)\), offset: ([^{}]*)\}'), r'unexpected(\1, \2)'),
      (re.compile(r'Error::InvalidType\{expected: [^{}]*, found: (?:string\()?ty\?\.value\)?, offset: ([^{}]*)\}'), r'invalid type at \1'),
      ('code_map, ', ''), ('try_from_json_object_at', 'object'), ('try_from_json_at', 'json'), ('try_from_json_string_at', 'string'),
      ('Object::get_unique_mapped_entry_with_index', 'entry'), ('::read(', '(')]
TYPES = {
    'Layout': ('Layout', {n: ('Literal', 'LiteralLayout') for n in ('id', 'unit', 'boolean', 'number', 'bytes', 'string')} | {
        'record': ('Product', 'ProductLayout'), 'sum': ('Sum', 'SumLayout'), 'list': ('List', 'ListLayout'), 'set': ('List', 'ListLayout'),
        'tuple': ('List', 'ListLayout'), 'union': ('Union', 'UnionLayout'), 'intersection': ('Intersection', 'IntersectionLayout')}),
    'LiteralLayout': ('LiteralLayout', {'id': ('Id', 'IdLayout')} | {n: ('Data', 'DataLayout') for n in ('unit', 'boolean', 'number', 'bytes', 'string')}),
    'DataLayout': ('DataLayout', {'unit': ('Unit', 'UnitLayout'), 'boolean': ('Boolean', 'BooleanLayout'), 'number': ('Number', 'NumberLayout'),
                                  'bytes': ('ByteString', 'ByteStringLayout'), 'string': ('TextString', 'TextStringLayout')}),
    'ListLayout': ('ListLayout', {'list': ('Ordered', 'OrderedListLayout'), 'set': ('Unordered', 'UnorderedListLayout'), 'tuple': ('Sized', 'SizedListLayout')}),
}
KINDS = ('Null', 'Boolean', 'Number', 'String', 'Array', 'Object')
RT = 'ty?.value'


def both(call, wrap='%s'):
    return ['Ok(%s)' % (wrap % (call + '?')), 'Err(%s:Err)' % call]


def unexpected(kinds):
    return [(k, {'json': k}, ['Err(unexpected(json, offset))']) for k in KINDS if k not in kinds]


def ty_hook(name):
    """Assume that the "type" entry holds `name`."""
    def g(s, t, st):
        m = re.fullmatch(r'(?:const\(&str, )?"(\w+)"\)? == %s' % re.escape(RT), s)
        if m:
            return m.group(1) == name
        if s.startswith('ty') and t.op == 'call':
            return 'Ok'
        return None
    return g


FMT2 = dict(FMT)
FMT2['syntax::require_type'] = lambda a: 'ty'


def sub(ctx, rep, key, f, params, cases):
    ps = [(n, w, o) for n, w, o in cases]
    return simple(ctx, rep, key, f, params, ps, opaque_fn=lambda g: opaque(g) and g is not f and not (g.name == f.name and g.self_adt == f.self_adt),
                  fmt=FMT2, abbrev=AB)


def types(ctx, rep):
    rep.rule('types', 'the "type" entry of a layout definition selects the definition to read; any other value is an error at its position')
    for adt, (en, tys) in TYPES.items():
        f = reader(ctx, adt)
        cases = []
        for ty, (v, x) in tys.items():
            cases.append((ty, ctx.cache.setdefault(('ty', ty), ty_hook(ty)), both('%s::object(object, offset)' % x, '%s::%s(%%s)' % (en, v))))
        cases.append(('unknown type', ctx.cache.setdefault(('ty', '?'), ty_hook('?')), ['Err(invalid type at ty?.offset)']))
        cases.append(('no type', {'ty': 'Err'}, ['Err(ty:Err)']))
        sub(ctx, rep, 'read ' + adt, f, ('object', 'code_map', 'offset'), cases)


OBJ = [('object', {'json': 'Object'})]
P3 = ('json', 'code_map', 'offset')


def forms(ctx, rep):
    rep.rule('forms', 'each JSON form (boolean, string, array, object, with or without a "type") stands for one kind of definition; every other '
             'form is an error at its position')
    has = 'Object::contains_key(json:Object, "type")'
    ref = 'LayoutRef::string(json:String, offset)'
    lobj = 'LayoutRef::object(json:Object, offset)'
    F = {
        'Layout': [('boolean', {'json': 'Boolean'}, ['Ok(json)']),
                   ('object', {'json': 'Object'}, ['Layout::object(json:Object, offset)'])] + unexpected(('Boolean', 'Object')),
        'LayoutRef': [('string', {'json': 'String'}, [ref]), ('object', {'json': 'Object'}, [lobj])] + unexpected(('String', 'Object')),
        'ValueFormatOrLayout': [
            ('string', {'json': 'String'}, both(ref, 'ValueFormatOrLayout::Layout(%s)')),
            ('layout', {'json': 'Object', has: True}, both(lobj, 'ValueFormatOrLayout::Layout(%s)')),
            ('format', {'json': 'Object', has: False}, both('ValueFormat::object(json:Object, offset)', 'ValueFormatOrLayout::Format(%s)')),
        ] + unexpected(('String', 'Object')),
        'ListNodeOrLayout': [
            ('string', {'json': 'String'}, both(ref, 'ListNodeOrLayout::Layout(%s)')),
            ('layout', {'json': 'Object', has: True}, both(lobj, 'ListNodeOrLayout::Layout(%s)')),
            ('node', {'json': 'Object', has: False}, both('ListNode::object(json:Object, offset)', 'ListNodeOrLayout::ListNode(%s)')),
        ] + unexpected(('String', 'Object')),
        'VariantFormatOrLayout': [
            ('string', {'json': 'String'}, both(ref, 'VariantFormatOrLayout::Layout(%s)')),
            ('layout', {'json': 'Object', has: True}, both(lobj, 'VariantFormatOrLayout::Layout(%s)')),
            ('format', {'json': 'Object', has: False}, list(zip(both('VariantFormat::json(json, offset)', 'VariantFormatOrLayout::Format(%s)'), both('VariantFormat::object(json:Object, offset)', 'VariantFormatOrLayout::Format(%s)')))),
        ],
        'OneOrMany': [(k, {'json': k}, both('T::json(json, offset)', 'OneOrMany::One(%s)')) for k in KINDS if k != 'Array'] + [
            ('array', {'json': 'Array'}, [
                'Ok(OneOrMany::Many(seq[T::json(JsonArray::iter_mapped(json:Array, offset)[].value, JsonArray::iter_mapped(json:Array, offset)[].offset)?*]))',
                'Err(T::json(JsonArray::iter_mapped(json:Array, offset)[].value, JsonArray::iter_mapped(json:Array, offset)[].offset):Err)'])],
        'Resource': [
            ('boolean', {'json': 'Boolean'}, ['Ok(json)']), ('string', {'json': 'String'}, ['Ok(Resource::String(string(json:String)))']),
            ('object', {'json': 'Object'}, both('TypedString::object(json:Object, offset)', 'Resource::TypedString(%s)')),
            ('number', {'json': 'Number'}, ['Ok(Resource::Number(str::parse(json:Number)?))', 'Err(Error::ExpectedInteger(offset, json:Number))',
                                            'Err(Error::IntegerOverflow(offset, json:Number))']),
        ] + unexpected(('Boolean', 'String', 'Number', 'Object')),
        'Pattern': [
            ('variable', {'json': 'String', 'BlankId::new(json:String)': 'Ok'}, ['Ok(Pattern::Var(VariableNameBuf(BlankId::suffix(BlankId::new(json:String)?))))']),
            ('IRI', {'json': 'String', 'BlankId::new(json:String)': 'Err', 'IriRef::new(json:String)': 'Ok'}, ['Ok(Pattern::Iri(CompactIri(IriRef::new(json:String)?)))']),
            ('invalid', {'json': 'String', 'BlankId::new(json:String)': 'Err', 'IriRef::new(json:String)': 'Err'}, ['Err(Error::InvalidPattern(offset, string(json:String)))']),
            ('literal', {'json': 'Object'}, both('LiteralValue::object(json:Object, offset)', 'Pattern::Literal(%s)')),
        ] + unexpected(('String', 'Object')),
        'CompactIri': [
            ('IRI', {'json': 'String', 'IriRef::new(json:String)': 'Ok'}, ['Ok(CompactIri(IriRef::new(json:String)?))']),
            ('invalid', {'json': 'String', 'IriRef::new(json:String)': 'Err'}, [('Err(Error::InvalidCompactIri(offset, IriRef::new(json:String):Err.0))', 'Err(Error::InvalidCompactIri(offset, json:String))')]),
        ] + unexpected(('String',)),
    }
    for x in ('VariantFormat', 'DataLayout', 'SumLayout', 'ProductLayout', 'ListItem', 'Field', 'Variant'):
        F[x] = [('object', {'json': 'Object'}, ['%s::object(json:Object, offset)' % x])] + unexpected(('Object',))
    for x, t in (('Dataset', 'Vec<Quad>'), ('VariantInput', 'OneOrMany<Pattern>'), ('ValueInput', 'OneOrMany<Pattern>'), ('LayoutInput', 'OneOrMany<String>'),
                 ('ValueIntro', 'OneOrMany<String>'), ('ExtraProperties', 'BTreeMap<CompactIri, Resource>')):
        e = '%s::json(json, offset)' % t
        F[x] = [('any', {}, both(e, x + '(%s)') if t != 'OneOrMany<String>' else ['Ok(%s(%s?))' % (x, e), \
            'Err(Error::Unexpected{expected: %s:Err.value.expected, found: %s:Err.value.found, offset: %s:Err.offset})' % (e, e, e)])]
    for adt, cases in F.items():
        f = reader(ctx, adt, 'try_from_json_at')
        sub(ctx, rep, 'read %s form' % adt, f, P3, cases)
    sub(ctx, rep, 'read LayoutRef string', reader(ctx, 'LayoutRef', 'try_from_json_string_at'), ('value', 'offset'), [
        ('any', {}, ['Ok(LayoutRef::Ref(CompactIri(IriRef::new(value)?)))', 'Err(Error::InvalidCompactIri(offset, value))'])])
    sub(ctx, rep, 'read LayoutRef object', reader(ctx, 'LayoutRef'), ('object', 'code_map', 'offset'), [
        ('any', {}, both('Box<Layout>::object(object, offset)', 'LayoutRef::Layout(%s)'))])
    quads(ctx, rep)


def quads(ctx, rep):
    o = ['offset+1']
    for i in range(3):
        o.append('+'.join(['get(%s)!.volume' % x for x in reversed(o)] + ['offset+1']))
    p = ['Pattern::json(json:Array[%d], %s)' % (i, o[i]) for i in range(3)] + ['Pattern::json(get(json:Array, 3)!, %s)' % o[3]]
    cases = []
    for n in range(6):
        def g(s, t, st, h=length('json:Array', n)):
            return 'Array' if s == 'json' and t.op == 'param' else h(s, t, st)
        h = ctx.cache.setdefault(('quad', n), g)
        if n < 3:
            out = ['Err(Error::MissingQuadPattern(offset))']
        elif n > 4:
            out = ['Err(Error::TooManyQuadPatterns(offset))']
        else:
            out = ['Ok(Quad(%s))' % ', '.join([x + '?' for x in p[:3]] + ['Some(%s?)' % p[3] if n == 4 else 'None'])] + ['Err(%s:Err)' % x for x in p[:n]]
        cases.append(('%d components' % n, h, out))
    cases += unexpected(('Array',))
    sub(ctx, rep, 'read Quad', reader(ctx, 'Quad', 'try_from_json_at'), P3, cases)


def helpers(ctx, rep):
    rep.rule('entry-helpers', 'looking an entry up rejects duplicates, marks the entry as used and reads its value at the position of the value; '
             'a required entry that is missing, and every entry never looked up, is an error')
    M = L + '::abs::syntax::'

    def fn(name):
        fs = [f for f in ctx.prog.find(crate=L, name=name) if f.path.startswith(M + name)]
        if len(fs) != 1:
            raise Anchor('expected one function %s, found %d' % (name, len(fs)))
        return fs[0]
    op = lambda f: lambda g: g is not f and opaque(g) and not (f.name == 'require_entry' and g.name == 'get_entry')
    fmt = {'Object::get_unique_mapped_entry_with_index': lambda a: 'find(%s, %s, %s)' % (a[0], a[2], a[3]), 'syntax::require_type': lambda a: 'ty(%s, %s)' % (a[0], a[1])}
    used = '; unused_entries=ObjectUnusedEntries::remove#0(unused_entries, %s?!.0)'
    for n in ('get_entry', 'require_entry'):
        f = fn(n)
        e = 'find(object, offset, key)'
        t = 'T::json(%s?!.1.value.value.value, %s?!.1.value.value.offset)' % (e, e)
        keep = ' ; unused_entries=unused_entries'
        dup = 'Err(Error::DuplicateEntry{key: key, offset: %s:Err.0.1.value.key.offset, other_offset: %s:Err.1.1.value.key.offset})' % (e, e) + keep
        u = used % e
        miss = ['Ok(None)' + keep] if n == 'get_entry' else ['Err(Error::MissingRequiredEntry{key: key, offset: offset})' + keep]
        simple(ctx, rep, n, f, ('object', 'key', 'unused_entries', 'code_map', 'offset'), [
            ('duplicate', {e: 'Err'}, [dup]),
            ('missing', {e: 'Ok', e + '?': 'None'}, miss),
            ('present', {e: 'Ok', e + '?': 'Some'}, ['Ok(%s) %s' % (('Some(%s?)' if n == 'get_entry' else '%s?') % t, u), 'Err(%s:Err) %s' % (t, u)]),
        ], opaque_fn=op(f), cells=(3,), fmt=fmt, abbrev=AB)
    f = fn('require_type')
    e = 'find(object, offset, "type")'
    v = e + '?!.1.value.value'
    dup = 'Err(Error::DuplicateEntry{key: "type", offset: %s:Err.0.1.value.key.offset, other_offset: %s:Err.1.1.value.key.offset})' % (e, e)
    ok = {e: 'Ok', e + '?': 'Some'}
    simple(ctx, rep, 'require_type', f, ('object', 'unused_entries', 'code_map', 'offset'), [
        ('duplicate', {e: 'Err'}, [dup]),
        ('missing', {e: 'Ok', e + '?': 'None'}, ['Err(Error::MissingType(offset))']),
        ('not a string', {**ok, 'unused_entries': 'None', v + '.value': 'Number'}, ['Err(unexpected(%s.value, %s.offset))' % (v, v)]),
        ('string', {**ok, 'unused_entries': 'None', v + '.value': 'String'}, ['Ok(Mapped::new(%s.offset, %s.value:String))' % (v, v)]),
    ], opaque_fn=op(f), fmt=fmt, abbrev=AB)
    c = ctx.cache[('simple', 'require_type')]
    c.check(ctx, rep, 'marks the entry', {**ok, 'unused_entries': 'Some', v + '.value': 'String'},
            {'out': ['Ok(Mapped::new(%s.offset, %s.value:String))' % (v, v)], 'ev': {'ObjectUnusedEntries::remove': ['(unused_entries!, %s?!.0)' % e]}})
    f = fn('check_type')
    t = 'ty(object, Some(unused_entries))'
    for n, w, o in (('same', True, ['Ok(())']), ('other', False, ['Err(Error::InvalidType{expected: ExpectedType::One(expected), found: string(%s?.value), offset: %s?.offset})' % (t, t)])):
        simple(ctx, rep, 'check_type', f, ('object', 'expected', 'unused_entries', 'code_map', 'offset'), [
            (n, {t: 'Ok', 'expected == %s?.value' % t: w}, o)], opaque_fn=op(f), fmt=fmt, abbrev=AB)
    simple(ctx, rep, 'check_type', f, None, [('no type', {t: 'Err'}, ['Err(%s:Err)' % t])])
    U = 'ObjectUnusedEntries'
    simple(ctx, rep, U + '::new', ctx.fn(crate=L, name='new', adt=U), ('object', 'code_map', 'offset'), [
        ('all unused', {}, ['%s{entries: seq[(Object::iter_mapped(object, offset)[].value.key.offset, true)*], object: object}' % U])], abbrev=AB)
    simple(ctx, rep, U + '::remove', ctx.fn(crate=L, name='remove', adt=U), ('self', 'index'), [
        ('remove', {}, ['() ; self=self{entries:=self.entries{[index]:=self.entries[index]{1:=false}}}'])], cells=(1,))
    simple(ctx, rep, U + '::check', ctx.fn(crate=L, name='check', adt=U), ('self',), [
        ('unused', {'next(self.entries)': 'Some', 'self.entries[].1': True},
         [tuple('Err(Error::UnexpectedEntry{key: Object::entries(self.object)[%s].key, offset: self.entries[].0})' % i for i in ('idx(self.entries)', '')), 'Ok(())']),
        ('used', {'self.entries[].1': False}, ['Ok(())'])])
    for n, k in (('object', 'Object'), ('array', 'Array'), ('string', 'String')):
        simple(ctx, rep, 'expect_' + n, fn('expect_' + n), ('json', 'offset'), [(k, {'json': k}, ['Ok(json:%s)' % k])] + unexpected((k,)), abbrev=AB)


def defaults(ctx, rep):
    rep.rule('defaults', 'an absent optional entry means its documented default')

    def default(adt, name='default'):
        fs = [f for f in ctx.prog.find(crate=L, name=name) if not f.derived and (f.self_adt or '').endswith('::' + adt) and '::abs::syntax::' in f.self_adt]
        if len(fs) != 1:
            raise Anchor('expected one %s of %s, found %d' % (name, adt, len(fs)))
        return fs[0]
    for adt, name, out in (
            ('ValueIntro', 'default', 'ValueIntro(OneOrMany::One("value"))'), ('LayoutInput', 'default', 'LayoutInput(OneOrMany::One("self"))'),
            ('ValueInput', 'default', 'ValueInput(OneOrMany::One(Pattern::Var(VALUE)))'), ('VariantInput', 'default', 'VariantInput(OneOrMany::One(Pattern::Var(SELF)))'),
            ('OneOrMany', 'default', 'OneOrMany::Many(seq[])'), ('Pattern', 'default_head', 'Pattern::Var(VariableNameBuf("self"))'),
            ('Pattern', 'default_tail', 'Pattern::Iri(CompactIri(RDF_NIL))'), ('ListNode', 'default_head', '"head"'), ('ListNode', 'default_rest', '"rest"')):
        simple(ctx, rep, '%s::%s' % (adt, name), default(adt, name), (), [('default', {}, [out])])
    O = 'OneOrMany'
    for name, one, many in (('is_empty', 'false', '0 == len(self:Many)'), ('len', '1', 'len(self:Many)'), ('as_slice', 'seq[self:One]', 'self:Many')):
        simple(ctx, rep, O + '::' + name, default(O, name), ('self',), [('one', {'self': 'One'}, [one]), ('many', {'self': 'Many'}, [many])])
    f = [f for f in ctx.prog.find(crate=L, name='from') if not f.derived and (f.self_adt or '').endswith('::OneOrMany')]
    if len(f) != 1:
        raise Anchor('expected one conversion to OneOrMany, found %d' % len(f))
    simple(ctx, rep, O + '::from', f[0], ('value',), [
        ('one', {'1 == len(value)': True}, ['OneOrMany::One(value[])']), ('several', {'1 == len(value)': False}, ['OneOrMany::Many(value)'])])


def literals(ctx, rep):
    rep.rule('literal-patterns', 'a literal pattern has the type given by "type", else the language given by "language", else is a plain string')
    f = reader(ctx, 'LiteralValue')
    ty, lang, val = 'get("type")', 'get("language")', 'req("value")'
    tag = 'LangTagBuf::new(%s?!)' % lang
    ok = {ty: 'Ok', lang: 'Ok', val: 'Ok'}

    def out(t, used):
        c = 'check(seq[..unused(object), %s])' % ', '.join('+"%s"' % x for x in used)
        return ['Ok(LiteralValue{type_: %s, value: %s?})' % (t, val), 'Err(%s:Err)' % c]
    iri = 'LiteralType::Iri(LiteralTypeIri{type_: %s})'
    sub(ctx, rep, 'read LiteralValue', f, ('object', 'code_map', 'offset'), [
        ('type', {**ok, ty + '?': 'Some'}, out(iri % (ty + '?!'), ['type', 'value'])),
        ('language', {**ok, ty + '?': 'None', lang + '?': 'Some', tag: 'Ok'},
         out('LiteralType::Language(LiteralTypeLanguage{language: %s?})' % tag, ['language', 'type', 'value'])),
        ('plain', {**ok, ty + '?': 'None', lang + '?': 'None'}, out(iri % 'CompactIri(XSD_STRING)', ['language', 'type', 'value'])),
        ('ill-formed language', {**ok, ty + '?': 'None', lang + '?': 'Some', tag: 'Err'}, ['Err(Error::InvalidLangTag(offset, %s:Err.0))' % tag]),
        ('failing type', {ty: 'Err'}, ['Err(%s:Err)' % ty]),
        ('failing language', {**ok, ty + '?': 'None', lang: 'Err'}, ['Err(%s:Err)' % lang]),
        ('failing value', {**ok, ty + '?': 'Some', val: 'Err'}, ['Err(%s:Err)' % val]),
    ])


WFMT = {
    '@threads': set(),
    '@journal': {('SerializeStruct::serialize_field', 0): lambda a: '+%s: %s' % (a[0], a[1]), ('SerializeStruct::skip_field', 0): lambda a: '+skip',
                 ('SerializeMap::serialize_entry', 0): lambda a: '+%s: %s' % (a[0], a[1]), ('Serialize::serialize', 1): lambda a: '+..%s' % a[0],
                 ('SerializeTupleStruct::serialize_field', 0): lambda a: a[0]},
    'Serializer::serialize_struct': lambda a: 'out', 'Serializer::serialize_map': lambda a: 'out', 'Serializer::serialize_tuple_struct': lambda a: 'out',
    'SerializeStruct::end': lambda a: a[0], 'SerializeMap::end': lambda a: a[0], 'SerializeTupleStruct::end': lambda a: a[0],
}
SER = ('Serialize::', 'Serializer::', 'SerializeStruct::', 'SerializeMap::', 'SerializeTupleStruct::')
PRED = re.compile(r'((?:\w+::)*is_\w+)\((self\.\w+(?:\.0)?)\)')
EMPTY = re.compile(r'0 == len\((self\.\w+)(?:\.0)*(?::Many)?\)')


def predicate(default):
    """What tells whether an entry holds its default."""
    m = re.match(r'(\w+)\(|(OneOrMany)::|(Value)::', default)
    if m:
        t = m.group(1) or m.group(2) or m.group(3)
        return t + {'ValueIntro': '::is_default', 'LayoutInput': '::is_default', 'ValueInput': '::is_default', 'VariantInput': '::is_default',
                    'Value': '::is_unit'}.get(t, '::is_empty')
    return {'"head"': 'ListNode::is_default_head', '"rest"': 'ListNode::is_default_rest', 'false': 'abs::is_false',
            'xsd:string': 'CompactIri::is_xsd_string'}.get(default, 'Pattern::is_default_head' if default.startswith('Pattern::Var') else
                                                           'Pattern::is_default_tail' if default.startswith('Pattern::Iri') else None)


def write_hook(skipped, preds):
    """Assume that exactly the fields in `skipped` have their default value."""
    def g(s, t, st):
        if t.op == 'call' and t.args[0].startswith(SER):
            return 'Ok'
        m = EMPTY.fullmatch(s)
        if m:
            return m.group(1)[5:] in skipped
        m = PRED.fullmatch(s)
        if m:
            x = m.group(2)[5:].split('.')[0]
            return x in skipped if preds.get(x) == m.group(1) else None
        if re.fullmatch(r'self\.\w+', s):
            return 'None' if s[5:] in skipped else 'Some'
        if s == 'self.required':
            return s[5:] not in skipped
        return None
    return g


def serializer(ctx, adt):
    fs = [f for f in ctx.prog.find(crate=L, name='serialize') if f.trait_ref and 'Serialize' in f.trait_ref and '::abs::syntax::' in (f.self_adt or '')
          and f.self_adt.endswith('::' + adt)]
    if len(fs) != 1:
        raise Anchor('expected one Serialize implementation of %s, found %d' % (adt, len(fs)))
    return fs[0]


def writing(ctx, rep):
    rep.rule('writing', 'each definition is written with every entry under the name it is read from, leaving out exactly the entries at their default')
    T = dict(ENTRIES)
    T['LiteralTypeIri'] = (None, False, {'type_': ('type', 'xsd:string')})
    T['LiteralTypeLanguage'] = (None, False, {'language': ('language', REQ)})
    for adt, (ty, header, fields) in T.items():
        f = serializer(ctx, adt)
        k = 'write ' + adt
        if k not in ctx.cache:
            ctx.cache[k] = Contract(k, f, ('self', 'serializer'), (), lambda g: g.name.startswith('is_') or g.name == 'serialize', fmt=WFMT,
                                    abbrev=[(re.compile(r'\+skip, |, \+skip'), ''), ('+', ''), ('seq[..out?, skip]', 'seq[..out?]')])
        c = ctx.cache[k]
        always = ['"type": self.type_'] if ty else []
        if header:
            always.append('..self.header')
        preds = {x: predicate(e[1]) for x, e in fields.items() if e[1] not in (REQ, OPT)}
        opt = [x for x, e in fields.items() if e[1] is not REQ]
        for name, skip in [('nothing at its default', ())] + [(x + ' at its default', (x,)) for x in opt] + [('all at their default', tuple(opt))]:
            es = sorted(always + ['"%s": self.%s' % (e[0], x) for x, e in fields.items() if x not in skip])
            h = ctx.cache.setdefault(('write', adt, skip), write_hook(skip, preds))
            c.check(ctx, rep, name, {}, {'out': ['Ok(seq[%s]?)' % ', '.join(['..out?'] + es)]}, h)
    predicates(ctx, rep)


def predicates(ctx, rep):
    A = 'value::Value'

    def fn(adt, name):
        fs = [f for f in ctx.prog.find(crate=L, name=name) if not f.derived and (f.self_adt or '').endswith('::' + adt) and f.mir['argc'] == 1]
        if len(fs) != 1:
            raise Anchor('expected one %s of %s, found %d' % (name, adt, len(fs)))
        return fs[0]
    def test(adt, name, cases, opq=()):
        simple(ctx, rep, '%s::%s' % (adt, name), fn(adt, name), ('self',), cases, opaque=opq)
    is1 = '1 == len(self.0:Many)'
    for adt, d, e in (('ValueIntro', 'value', '"%s" == %s'), ('LayoutInput', 'self', '"%s" == %s'),
                      ('ValueInput', 'value', '"%s" == %s:Var'), ('VariantInput', 'self', '"%s" == %s:Var')):
        one, many = [e % (d, 'self.0:One')], [e % (d, 'self.0:Many[0]')]
        w1, wm = {}, {}
        if 'Var' in e:
            w1, wm = {'self.0:One': 'Var'}, {'self.0:Many[0]': 'Var'}
            test(adt, 'is_default', [('no variable', {'self.0': 'One', 'self.0:One': 'Iri'}, ['false'])])
        test(adt, 'is_default', [
            ('one', {'self.0': 'One', **w1}, one), ('list of one', {'self.0': 'Many', is1: True, **wm}, many), ('other list', {'self.0': 'Many', is1: False}, ['false'])])
    test('OneOrMany', 'is_empty', [('one', {'self': 'One'}, ['false']), ('many', {'self': 'Many'}, ['0 == len(self:Many)'])])
    test('Dataset', 'is_empty', [('any', {}, ['0 == len(self.0)'])])
    test('ExtraProperties', 'is_empty', [('any', {}, ['0 == len(self.0)'])])
    test('CompactIri', 'is_xsd_string', [('any', {}, ['XSD_STRING == self.0'])])
    test('Pattern', 'is_default_head', [('variable', {'self': 'Var'}, ['"self" == self:Var'])] + [(v, {'self': v}, ['false']) for v in ('Iri', 'Literal')])
    test('Pattern', 'is_default_tail', [('IRI', {'self': 'Iri'}, ['RDF_NIL == self:Iri.0'])] + [(v, {'self': v}, ['false']) for v in ('Var', 'Literal')])
    for n in ('head', 'rest'):
        simple(ctx, rep, 'ListNode::is_default_' + n, fn('ListNode', 'is_default_' + n), ('value',), [('any', {}, ['"%s" == value' % n])])
    V = [('unit', {'self': 'Literal', 'self:Literal': 'Unit'}, ['true']), ('map', {'self': 'Map'}, ['false']), ('list', {'self': 'List'}, ['false'])]
    test('Value', 'is_unit', V + [(v, {'self': 'Literal', 'self:Literal': v}, ['false']) for v in ('Boolean', 'Number', 'ByteString', 'TextString')])
    f = [f for f in ctx.prog.find(crate=L, name='is_false')]
    if len(f) != 1:
        raise Anchor('expected one is_false')
    simple(ctx, rep, 'is_false', f[0], ('b',), [('any', {}, ['!(b)'])])


# ---- the derived serde reader -------------------------------------------------
RFMT = {
    '@threads': {('MapAccess::next_key', 0), ('MapAccess::next_value', 0)}, '@journal': {},
    'MapAccess::next_key': lambda a: 'key', 'MapAccess::next_value': lambda a: 'value', 'de::missing_field': lambda a: 'missing(%s)' % a[0],
    'LayoutHeader::deserialize': lambda a: 'header(%s)' % a[0], 'LiteralType::deserialize': lambda a: 'type(%s)' % a[0],
    'abs::deserialize_nullable': lambda a: 'nullable(%s)' % a[0],
}
# how the derived reader shows defaults
SHOWN = {}


def visitor(ctx, adt, which, name):
    p = re.compile(r'::abs::syntax::.*::%s>::deserialize::%s\b' % (adt, which))
    fs = [f for f in ctx.prog.find(crate=L, name=name) if p.search(f.path) and '{' not in f.path]
    if len(fs) != 1:
        raise Anchor('expected one derived %s of %s, found %d' % (name, adt, len(fs)))
    return fs[0]


def one_key(i):
    """Assume that every entry read is field `i` (None: there is no entry, '?': an unknown one)."""
    def g(s, t, st):
        if s in ('key', 'value') or s.startswith(('missing(', 'nullable(')):
            return 'Ok'
        if s == 'key?' and i is None:
            return 'None'
        if s in ('key?!', 'key?!.0'):
            return '__ignore' if i == '?' else '__field%s' % i
        return None
    return g


def named(k):
    """Assume that the name of the entry is `k`."""
    def g(s, t, st):
        m = re.fullmatch(r'(?:const\(&str, )?"(\w+)"\)? == value', s)
        return m.group(1) == k if m else None
    return g


def deserializing(ctx, rep):
    rep.rule('deserializing', 'the serde reader of each definition reads each entry under the same name as the JSON reader, into the same field, with '
             'the same default, and requires the same entries')
    T = {k: v for k, v in ENTRIES.items() if k not in ('ProductLayout',)}
    T['ProductLayout'] = ('record', True, {'fields': ('fields', 'seq[]')})
    T['LiteralTypeIri'] = (None, None, {'type_': ('type', 'CompactIri(XSD_STRING)')})
    T['LiteralTypeLanguage'] = (None, None, {'language': ('language', REQ)})
    loose = ('LiteralTypeIri', 'LiteralTypeLanguage', 'TypedString')
    for adt, (ty, header, fields) in T.items():
        flat = bool(header)
        fields = dict(fields)
        if ty:
            fields['type_'] = ('type', REQ)
        # the position of each entry in the derived code
        f = visitor(ctx, adt, '__FieldVisitor', 'visit_str')
        pos = {}
        k = 'deserialize %s entry' % adt
        if k not in ctx.cache:
            ctx.cache[k] = Contract(k, f, ('self', 'value'), fmt=RFMT)
        c = ctx.cache[k]
        for x, e in fields.items():
            s = c.run(ctx, {}, ctx.cache.setdefault(('named', e[0]), named(e[0])))
            got = sorted(c.short(y) for y in s.summary(()))
            rep.fns |= s.eng.analysed
            m = re.fullmatch(r'Ok\(__Field::__field(\d+)\)', got[0]) if len(got) == 1 else None
            if rep.ob(m and m.group(1) not in pos.values(), '%s: "%s" is no entry of its own' % (k, e[0]),
                      'the serde reader of %s does not have an entry "%s" (it gives %s)' % (adt, e[0], ', '.join(got)), f.span):
                pos[x] = m.group(1)
        c.check(ctx, rep, 'unknown entry', {}, {'out': ['Ok(__Field::__other(Content::String(string(value))))' if flat else
                                                        'Ok(__Field::__ignore)' if adt in loose else 'Err(Error::unknown_field(value, FIELDS))']},
                ctx.cache.setdefault(('named', '?'), named('?')))
        f = visitor(ctx, adt, '__Visitor', 'visit_map')
        k = 'deserialize ' + adt
        if k not in ctx.cache:
            ctx.cache[k] = Contract(k, f, ('self', 'map'), (), lambda g: g.name in ('deserialize', 'deserialize_nullable'), fmt=RFMT)
        c = ctx.cache[k]
        for x in [None] + sorted(pos):
            h = ctx.cache.setdefault(('key', pos.get(x)), one_key(pos.get(x)))
            s = c.run(ctx, {}, h)
            rep.fns |= s.eng.analysed
            got = {c.short(y) for y in s.summary(())}
            oks = {y for y in got if y.startswith('Ok(')}
            want = []
            for fd, e in sorted(fields.items()):
                d = 'missing("%s")?' % e[0] if e[1] is REQ else SHOWN.get(e[1], e[1])
                v = 'value?.value' if fd == 'graph' else 'value?'
                want.append((fd, {d, '{%s|%s}' % (d, v), v, '{%s|%s}' % (v, d)} if fd == x else {d}))
            alt = {}
            for y in oks:
                m = re.fullmatch(r'Ok\(%s\{(.*)\}\)' % adt, y)
                if m:
                    for fd, v in split_fields(m.group(1)):
                        alt.setdefault(fd, set()).add(v)
            case = 'no entry' if x is None else 'only "%s"' % fields[x][0]
            if flat:
                hs = alt.pop('header', set())
                rep.ob(hs and all(v.startswith('header(FlatMapDeserializer(') for v in hs), '%s/%s: header' % (k, case), 'the header is not read from the other entries', f.span)
            rep.ob(set(alt) == {fd for fd, _ in want}, '%s/%s: fields' % (k, case), 'the serde reader of %s sets %s' % (adt, sorted(alt)), f.span)
            for fd, w in want:
                g = alt.get(fd, set())
                rep.ob(g and g <= w and (fd != x or any('value?' in v for v in g)), '%s/%s: %s is %s' % (k, case, fd, ' or '.join(sorted(g))),
                       'when the input has %s, the serde reader of %s sets %s to %s' % (case, adt, fd, ' or '.join(sorted(g))), f.span)


def split_fields(s):
    """The fields of a displayed structure."""
    out, d, b = [], 0, 0
    for i, ch in enumerate(s + ','):
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif ch == ',' and d == 0:
            p = s[b:i].strip()
            if ': ' in p:
                out.append(tuple(p.split(': ', 1)))
            b = i + 1
    return out


def strings(ctx, rep):
    rep.rule('strings', 'patterns, literal types, type names and optional graphs are written as, and read by serde from, the same forms the JSON reader accepts')

    def method(adt, name, pat):
        fs = [f for f in ctx.prog.find(crate=L, name=name) if re.search(pat, f.path) and (adt is None or (f.self_adt or '').endswith('::' + adt))]
        if len(fs) != 1:
            raise Anchor('expected one %s of %s, found %d' % (name, adt, len(fs)))
        return fs[0]
    SF = {'Serialize::serialize': lambda a: 'write(%s)' % a[0], 'LiteralValue::deserialize': lambda a: 'literal(%s)' % a[0]}
    opq = lambda g: g.name in ('serialize', 'deserialize')
    simple(ctx, rep, 'write Pattern', method('Pattern', 'serialize', r'syntax::pattern::Pattern as .*Serialize>'), ('self', 'serializer'), [
        ('variable', {'self': 'Var'}, ['write(string(concat("_:", self:Var)))']),
        ('IRI', {'self': 'Iri'}, ['write(self:Iri)']), ('literal', {'self': 'Literal'}, ['write(self:Literal)'])], opaque_fn=opq, fmt=SF)
    RF = {'<Pattern as Deserialize<\'de>>::StringOrLiteral::deserialize': lambda a: 'in', 'StringOrLiteral::deserialize': lambda a: 'in'}
    f = method('Pattern', 'deserialize', r'syntax::pattern::Pattern as .*Deserialize')
    b, i = 'BlankIdBuf::new(in?:String)', 'IriRefBuf::new(BlankIdBuf::new(in?:String):Err.0)'
    simple(ctx, rep, 'deserialize Pattern', f, ('deserializer',), [
        ('variable', {'in': 'Ok', 'in?': 'String', b: 'Ok'}, ['Ok(Pattern::Var(VariableNameBuf(BlankId::suffix(%s?))))' % b]),
        ('IRI', {'in': 'Ok', 'in?': 'String', b: 'Err', i: 'Ok'}, ['Ok(Pattern::Iri(CompactIri(%s?)))' % i]),
        ('invalid', {'in': 'Ok', 'in?': 'String', b: 'Err', i: 'Err'}, ['Err(Error::invalid_value(Unexpected::Str(%s:Err.0), Expected))' % i]),
        # the canonical form of StringOrLiteral::Literal(x) turned into Pattern::Literal(x) is the value itself
        ('literal', {'in': 'Ok', 'in?': 'Literal'}, ['Ok(in?)'])], opaque_fn=opq, fmt=RF)
    src = {'ContentRefDeserializer::new': lambda a: 'in', 'DeserializeSeed::deserialize': lambda a: 'content'}
    la, ia = 'LiteralTypeLanguage::deserialize(in)', 'LiteralTypeIri::deserialize(in)'
    simple(ctx, rep, 'deserialize LiteralType', method(None, 'deserialize', r'syntax::pattern::literal::LiteralType>::deserialize$'), ('deserializer',), [
        ('language', {'content': 'Ok', la: 'Ok'}, ['Ok(LiteralType::Language(%s?))' % la]),
        ('type', {'content': 'Ok', la: 'Err', ia: 'Ok'}, ['Ok(LiteralType::Iri(%s?))' % ia]),
        ('neither', {'content': 'Ok', la: 'Err', ia: 'Err'}, ['Err(Error::custom("data did not match any variant of untagged enum LiteralType"))'])],
        opaque_fn=opq, fmt=src)
    for adt, (ty, header, fields) in ENTRIES.items():
        if not ty:
            continue
        m = adt + 'Type'
        simple(ctx, rep, 'write ' + m, method(m, 'serialize', m + ' as .*Serialize>'), ('self', 'serializer'), [
            ('any', {}, ['Serializer::serialize_str(serializer, "%s")' % ty])])
        f = method(None, 'visit_str', r'%s as .*Deserialize<.*Visitor.*>::visit_str$' % m)
        n = '"%s" == v' % ty
        simple(ctx, rep, 'deserialize ' + m, f, ('self', 'v'), [
            ('own name', {n: True}, ['Ok(%s)' % m]), ('other name', {n: False}, ['Err(Error::invalid_value(Unexpected::Str(v), self))'])])
    w = [f for f in ctx.prog.find(crate=L, name='deserialize') if '__DeserializeWith' in f.path and 'visit_map' in f.path]
    if len(w) != 2:
        raise Anchor('expected two nullable entries, found %d' % len(w))
    for f in w:
        k = 'VariantFormat' if 'VariantFormat' in f.path else 'ValueFormat'
        simple(ctx, rep, k + ' graph', f, ('deserializer',), [
            ('any', {}, {'sub': ['Err(Option<T>::deserialize(deserializer):Err)',
                                 'Ok(__DeserializeWith{lifetime: PhantomData, phantom: PhantomData, value: Some(Option<T>::deserialize(deserializer)?)})']})], opaque_fn=opq)
