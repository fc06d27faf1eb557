"""The Rust code generator: its runtime library, the derived serializers and
deserializers, the attribute reader and the translation of layouts to types."""
from contract import *
from rules import prim, de
from rules.prim import simple

R = 'treeldr'


def _fmtless(s):
    return s


def runtime_matching(ctx, rep):
    prim.matching(ctx, rep, R)
    prim.withquad(ctx, rep, R, key=R + ' with_quad')


def runtime_scope(ctx, rep):
    rep.rule('derived-scope', 'in the runtime of derived code, variable i is input i or introduced variable i minus the number of variables of '
             'the outer scopes; introduced variables are fresh resources; patterns, quads and datasets are instantiated component by '
             'component, a quad without graph in the current graph')
    A = 'Environment'
    P = R + ' Environment::'
    g = 'Environment::get(self:Child, i)'
    simple(ctx, rep, P + 'get', ctx.fn(crate=R, name='get', adt=A), ('self', 'i'), [
        ('input', {'self': 'Root', 'get(self:Root, i)': 'Some'}, ['Ok(get(self:Root, i)!)']),
        ('not an input', {'self': 'Root', 'get(self:Root, i)': 'None'}, ['Err(bin(Sub, i, len(self:Root)))']),
        ('of an outer scope', {'self': 'Child', g: 'Ok'}, ['Ok(%s?)' % g]),
        ('of this scope', {'self': 'Child', g: 'Err', 'get(self:Child.1, %s:Err)' % g: 'Some'}, ['Ok(get(self:Child.1, %s:Err)!)' % g]),
        ('undeclared', {'self': 'Child', g: 'Err', 'get(self:Child.1, %s:Err)' % g: 'None'}, ['Err(bin(Sub, %s:Err, len(self:Child.1)))' % g]),
    ], opaque={'Environment::get'})
    simple(ctx, rep, P + 'bind', ctx.fn(crate=R, name='bind', adt=A), ('self', 'resources'), [
        ('bind', {}, ['Environment::Child(self, resources)'])])
    fr = {'@fresh': {'InterpretationMut::new_resource'},
          '@threads': {('InterpretationMut::new_resource', 0), ('InterpretationMut::new_resource', 1)}}
    simple(ctx, rep, P + 'intro', ctx.fn(crate=R, name='intro', adt=A), ('self', 'rdf', 'count'), [
        ('intro', {}, ['Environment::Child(self, seq[fresh1*])']),
        ('none', {'more(Range{end: count, start: 0})': 'None'}, ['Environment::Child(self, seq[])']),
        ('some', {'more(Range{end: count, start: 0})': 'Some'}, [])], fmt=fr)
    simple(ctx, rep, P + 'instantiate_pattern', ctx.fn(crate=R, name='instantiate_pattern', adt=A), ('self', 'pattern'), [
        ('resource', {'pattern': 'Resource'}, ['pattern:Resource']),
        ('declared variable', {'pattern': 'Var', 'Environment::get(self, pattern:Var)': 'Ok'}, ['Environment::get(self, pattern:Var)?']),
    ], opaque={'Environment::get'})
    I = lambda p: 'Environment::instantiate_pattern(self, %s)' % p
    simple(ctx, rep, P + 'instantiate_patterns', ctx.fn(crate=R, name='instantiate_patterns', adt=A), ('self', 'patterns'), [
        ('all', {}, ['seq[%s*]' % I('patterns[]')])],
        opaque={'Environment::instantiate_pattern'}, abbrev=[(re.compile(r'^TryInto::try_into\((.*)\)\?$'), r'\1')])
    q = ['quad.0', 'quad.1', 'quad.2', 'quad.3!']
    simple(ctx, rep, P + 'instantiate_quad', ctx.fn(crate=R, name='instantiate_quad', adt=A), ('self', 'quad'), [
        ('default graph', {'quad.3': 'None'}, ['Quad(%s, None)' % ', '.join(I(x) for x in q[:3])]),
        ('named graph', {'quad.3': 'Some'}, ['Quad(%s, Some(%s))' % (', '.join(I(x) for x in q[:3]), I(q[3]))])],
        opaque={'Environment::instantiate_pattern'})
    Q = 'Environment::instantiate_quad(self, input[])'
    simple(ctx, rep, P + 'instantiate_dataset', ctx.fn(crate=R, name='instantiate_dataset', adt=A), ('self', 'input', 'graph', 'output'), [
        ('quad with a graph', {Q + '.3': 'Some'}, ['() ; output=seq[..output, +%s*]' % Q]),
        ('quad without graph', {Q + '.3': 'None', 'graph': 'Some'}, ['() ; output=seq[..output, +%s{3:=Some(graph!)}*]' % Q]),
        ('quad without graph, default graph', {Q + '.3': 'None', 'graph': 'None'}, ['() ; output=seq[..output, +%s*]' % Q])],
        opaque={'Environment::instantiate_quad'}, cells=(4,), fmt={'@journal': {('DatasetMut::insert', 0): lambda a: '+' + a[0]}})


def runtime_selection(ctx, rep):
    rep.rule('derived-selection', 'in the runtime of derived code, patterns are resolved in the solution at hand; a graph is inherited only if '
             'none is declared; a quad pattern without graph is looked up in the current graph')
    simple(ctx, rep, R + ' Pattern::apply', ctx.fn(crate=R, name='apply', adt='Pattern', trait=False), ('self', 'substitution'), [
        ('resource', {'self': 'Resource'}, ['self']),
        ('bound', {'self': 'Var', 'get(substitution.0, self:Var)': 'Some', 'get(substitution.0, self:Var)!': 'Some'},
            ['Pattern::Resource(get(substitution.0, self:Var)!!)']),
        ('unbound', {'self': 'Var', 'get(substitution.0, self:Var)': 'Some', 'get(substitution.0, self:Var)!': 'None'}, ['self']),
        ('undeclared', {'self': 'Var', 'get(substitution.0, self:Var)': 'None'}, ['self'])])
    simple(ctx, rep, R + ' Pattern::into_resource', ctx.fn(crate=R, name='into_resource', adt='Pattern', trait=False), ('self',), [
        ('resource', {'self': 'Resource'}, ['Some(self:Resource)']), ('variable', {'self': 'Var'}, ['None'])])
    simple(ctx, rep, R + ' Pattern::as_ref', ctx.fn(crate=R, name='as_ref', adt='Pattern', trait=False), ('self',), [
        ('resource', {'self': 'Resource'}, ['self']), ('variable', {'self': 'Var'}, ['self'])])
    A = 'Substitution'
    S = R + ' Substitution::'
    simple(ctx, rep, S + 'from_inputs', ctx.fn(crate=R, name='from_inputs', adt=A), ('inputs',), [
        ('inputs', {}, ['Substitution(seq[Some(inputs[])*])'])])
    simple(ctx, rep, S + 'get', ctx.fn(crate=R, name='get', adt=A), ('self', 'i'), [
        ('declared', {'get(self.0, i)': 'Some'}, ['get(self.0, i)!']), ('undeclared', {'get(self.0, i)': 'None'}, ['None'])])
    rs = 'len(self.0) ; self=self{0:=resized(self.0, count+len(self.0), None)}'
    simple(ctx, rep, S + 'intro', ctx.fn(crate=R, name='intro', adt=A), ('self', 'count'), [
        ('intro', {}, [(rs, 'len(self.0) ; self=self{0:=seq[..self.0, None*]}')]),
        ('intro none', {'more(Range{end: count, start: 0})': 'None'}, [(rs, 'len(self.0) ; self=self{0:=seq[..self.0]}', 'len(self.0) ; self=self')]),
    ], cells=(1,))
    simple(ctx, rep, S + 'push', ctx.fn(crate=R, name='push', adt=A), ('self', 'value'), [
        ('push', {}, ['len(self.0) ; self=self{0:=seq[..self.0, value]}'])], cells=(1,))
    simple(ctx, rep, S + 'set', ctx.fn(crate=R, name='set', adt=A), ('self', 'x', 'value'), [
        ('set', {}, ['self.0[x] ; self=self{0:=self.0{[x]:=value}}'])], cells=(1,))
    q = 'self.quads[]'
    m = {'more(self.quads)': 'Some'}
    simple(ctx, rep, R + ' QuadsWithDefaultGraph::next', ctx.fn(crate=R, name='next', adt='QuadsWithDefaultGraph'), ('self',), [
        ('end', {'more(self.quads)': 'None'}, ['None']),
        ('explicit graph', dict(m, **{q + '.3': 'Some'}), ['Some(%s)' % q]),
        ('current named graph', dict(m, **{q + '.3': 'None', 'self.graph': 'Some'}), ['Some(%s{3:=Some(Pattern::Resource(self.graph!))})' % q]),
        ('current default graph', dict(m, **{q + '.3': 'None', 'self.graph': 'None'}), ['Some(%s)' % q])])
    simple(ctx, rep, R + ' with_default_graph', ctx.fn(crate=R, name='with_default_graph', trait='QuadsExt'), ('self', 'graph'), [
        ('wrap', {}, ['QuadsWithDefaultGraph{graph: graph, quads: self}'])])
    strip = [(re.compile(r'^TryInto::try_into\((.*)\)\?$'), r'\1')]
    simple(ctx, rep, R + ' select_inputs', ctx.fn(crate=R, name='select_inputs'), ('inputs', 'substitution'), [
        ('resource', {'inputs[]': 'Resource'}, ['seq[inputs[]:Resource*]']),
        ('variable', {'inputs[]': 'Var'}, ['seq[get(substitution.0, inputs[]:Var)!!*]'])], abbrev=strip)
    g = 'graph_pattern'
    simple(ctx, rep, R + ' select_graph', ctx.fn(crate=R, name='select_graph'), ('current_graph', g, 'substitution'), [
        ('not declared', {g: 'None'}, ['current_graph']),
        ('default graph', {g: 'Some', g + '!': 'None'}, ['None']),
        ('resource', {g: 'Some', g + '!': 'Some', g + '!!': 'Resource'}, ['Some(%s!!:Resource)' % g]),
        ('variable', {g: 'Some', g + '!': 'Some', g + '!!': 'Var'}, ['Some(get(substitution.0, %s!!:Var)!!)' % g])])
    f = [f for f in ctx.prog.find(crate=R, name='from') if 'matching::Error' in str(f.trait_ref)]
    if len(f) != 1:
        raise Anchor('conversion of matching errors')
    simple(ctx, rep, R + ' Error::from', f[0], ('value',), [
        ('ambiguity', {'value': 'Ambiguity'}, ['Error::DataAmbiguity']), ('empty', {'value': 'Empty'}, ['Error::MissingData'])])


def runtime_terms(ctx, rep):
    rep.rule('derived-terms', 'an IRI, blank node or literal is looked up or interned as it is, a literal with its own datatype')
    A = 'RdfContext'
    simple(ctx, rep, 'RdfContext::iri_interpretation', ctx.fn(crate=R, name='iri_interpretation', adt=A), ('self', 'iri'), [
        ('iri', {}, ['IriInterpretation::lexical_iri_interpretation(self.interpretation, self.vocabulary, iri)'])])
    parts = 'Literal::into_parts(literal)'
    get = 'LiteralVocabulary::get_literal(self.vocabulary, Literal::new(%s.0, %s))'
    typed = get % (parts, 'LiteralType::Any(IriVocabulary::get(self.vocabulary, %s.1:Any)!)' % parts)
    lang = get % (parts, parts + '.1')
    simple(ctx, rep, 'RdfContext::literal_interpretation', ctx.fn(crate=R, name='literal_interpretation', adt=A), ('self', 'literal'), [
        ('typed', {parts + '.1': 'Any', 'IriVocabulary::get(self.vocabulary, %s.1:Any)' % parts: 'Some', typed: 'Some'},
            ['LiteralInterpretation::literal_interpretation(self.interpretation, %s!)' % typed]),
        ('unknown datatype', {parts + '.1': 'Any', 'IriVocabulary::get(self.vocabulary, %s.1:Any)' % parts: 'None'}, ['None']),
        ('unknown literal', {parts + '.1': 'Any', 'IriVocabulary::get(self.vocabulary, %s.1:Any)' % parts: 'Some', typed: 'None'}, ['None']),
        ('tagged', {parts + '.1': 'LangString', lang: 'Some'}, ['LiteralInterpretation::literal_interpretation(self.interpretation, %s!)' % lang]),
    ])
    A = 'RdfContextMut'
    simple(ctx, rep, 'RdfContextMut::interpret_iri', ctx.fn(crate=R, name='interpret_iri', adt=A), ('self', 'iri'), [
        ('iri', {}, ['IriInterpretationMut::interpret_iri(self.interpretation, IriVocabularyMut::insert(self.vocabulary, iri))'])])
    simple(ctx, rep, 'RdfContextMut::interpret_blank_id', ctx.fn(crate=R, name='interpret_blank_id', adt=A), ('self', 'blank_id'), [
        ('blank', {}, ['BlankIdInterpretationMut::interpret_blank_id(self.interpretation, '
                       'BlankIdVocabularyMut::insert_blank_id(self.vocabulary, blank_id))'])])
    V = 'LiteralVocabularyMut::insert_owned_literal(self.vocabulary, Literal::insert_type_into_vocabulary(literal, self.vocabulary))'
    for n in ('vocabulary_literal', 'vocabulary_literal_owned'):
        simple(ctx, rep, 'RdfContextMut::' + n, ctx.fn(crate=R, name=n, adt=A), ('self', 'literal'), [('literal', {}, [V])])
    simple(ctx, rep, 'RdfContextMut::interpret_literal', ctx.fn(crate=R, name='interpret_literal', adt=A), ('self', 'literal'), [
        ('literal', {}, ['LiteralInterpretationMut::interpret_literal(self.interpretation, VL(self, literal))'])],
        opaque={'RdfContextMut::vocabulary_literal'}, abbrev=[('RdfContextMut::vocabulary_literal', 'VL')])


# ---- predefined datatypes ------------------------------------------------------
LIT = 'LiteralVocabulary::literal(rdf.vocabulary, ReverseLiteralInterpretation::literals_of(rdf.interpretation, inputs[0])[])!'
TY = 'IriVocabulary::iri(rdf.vocabulary, %s.type_:Any)!' % LIT
LITS = 'more(ReverseLiteralInterpretation::literals_of(rdf.interpretation, inputs[0]))'
XSD = [('u8', 'XSD_UNSIGNED_BYTE'), ('u16', 'XSD_UNSIGNED_SHORT'), ('u32', 'XSD_UNSIGNED_INT'), ('u64', 'XSD_UNSIGNED_LONG'),
       ('i8', 'XSD_BYTE'), ('i16', 'XSD_SHORT'), ('i32', 'XSD_INT'), ('i64', 'XSD_LONG')]
ABBR = [(LIT, 'LIT'), ('ParseXsd::parse_xsd', 'parse')]


def _impls(ctx, name, trait):
    r = {}
    for f in ctx.prog.find(crate=R, name=name):
        if f.trait_ref and ('::%s<' % trait) in f.trait_ref and f.span.split(':')[0].endswith('datatypes.rs'):
            r[str(f.self_ty).split('::')[-1]] = f
    return r


def datatype_reading(ctx, rep):
    rep.rule('derived-datatypes-de', 'a predefined datatype reads the literal of its own XSD datatype among those of the resource: two such '
             'literals are ambiguous, an unreadable one is invalid, other literals are a type mismatch and none is an error')
    impls = _impls(ctx, 'deserialize_ld_with', 'DeserializeLd')
    want = {t for t, _ in XSD} | {'String', 'Id'}
    rep.obligations += len(want)
    for t in sorted(want - set(impls)):
        rep.fail('predefined datatypes: no DeserializeLd for %s' % t, 'deserialization of %s is gone' % t, 'generators/rust/treeldr-rs')
    P = ('rdf', '_dataset', '_graph', 'inputs')

    def h(same, more=None):
        def f(s, t, st):
            if t.op == 'eq' and TY in s:
                return same[1] if same[0] in s else False
            return None
        return f
    for t, iri in XSD + [('String', 'XSD_STRING')]:
        if t not in impls:
            continue
        base = {LIT + '.type_': 'Any'}
        v = '%s.value' % LIT
        p = 'ParseXsd::parse_xsd(%s)' % v
        val = 'parse(LIT.value)?' if t != 'String' else 'LIT.value'
        mis = ['Err(Error::LiteralTypeMismatch)', 'Err(Error::ExpectedLiteral)'] if t != 'String' else ['Err(Error::MissingData)']
        cases = []

        def eq(b):
            def f(s, t_, st):
                if t_.op == 'eq' and TY in s:
                    return b if iri in s else False
            return f
        c = simple(ctx, rep, 'deserialize ' + t, impls[t], P, [('no literal', {LITS: 'None'}, [mis[-1]])], abbrev=ABBR)
        c.check(ctx, rep, 'of this datatype', dict(base, **{p: 'Ok'}), {'out': ['Ok(%s)' % val, 'Err(Error::AmbiguousLiteralValue)', mis[-1]]}, eq(True))
        c.check(ctx, rep, 'of another datatype', dict(base, **{p: 'Ok'}), {'out': mis}, eq(False))
        c.check(ctx, rep, 'with a language', {LIT + '.type_': 'LangString'}, {'out': mis})
        if t != 'String':
            c.check(ctx, rep, 'of this datatype, unreadable', dict(base, **{p: 'Err'}), {'out': ['Err(Error::InvalidLiteralValue)', mis[-1]]}, eq(True))
    if 'Id' in impls:
        I = 'ReverseIriInterpretation::iris_of(rdf.interpretation, inputs[0])'
        B = 'ReverseBlankIdInterpretation::blank_ids_of(rdf.interpretation, inputs[0])'
        iri, bl = 'Ok(Id::Iri(IriVocabulary::iri(rdf.vocabulary, %s[])!))' % I, 'Ok(Id::Blank(BlankIdVocabulary::blank_id(rdf.vocabulary, %s[])!))' % B
        simple(ctx, rep, 'deserialize Id', impls['Id'], P, [
            ('no blank', {'more(%s)' % B: 'None'}, [iri, 'Err(Error::AmbiguousId)', 'Err(Error::MissingId)']),
            ('no IRI', {'more(%s)' % I: 'None'}, [bl, 'Err(Error::AmbiguousId)', 'Err(Error::MissingId)']),
            ('no identifier', {'more(%s)' % I: 'None', 'more(%s)' % B: 'None'}, ['Err(Error::MissingId)']),
        ])
    lits = {str(f.self_ty).split('::')[-1]: f for f in ctx.prog.find(crate=R, name='from_rdf_literal')}
    for t in [x for x, _ in XSD] + ['String', 'bool']:
        if t not in lits:
            rep.fail('literals: no FromRdfLiteral for ' + t, 'reading a literal as %s is gone' % t, 'generators/rust/treeldr-rs')
            continue
        p = 'ParseXsd::parse_xsd(value)'
        ty = ctx.prog
        simple(ctx, rep, 'from_rdf_literal ' + t, lits[t], ('value',), [
            ('readable', {p: 'Ok'}, ['Ok(%s?%s)' % (p, '.0' if t == 'bool' else '')]),
            ('unreadable', {p: 'Err'}, ['Err(InvalidLiteral(value))'])])


def datatype_writing(ctx, rep):
    rep.rule('derived-datatypes-ser', 'a predefined datatype gives the input resource the literal in its lexical form with its own XSD datatype, '
             'an identifier gives it that IRI or blank node')
    impls = _impls(ctx, 'serialize_ld_with', 'SerializeLd')
    want = {t for t, _ in XSD} | {'String', 'Id'}
    rep.obligations += len(want)
    for t in sorted(want - set(impls)):
        rep.fail('predefined datatypes: no SerializeLd for %s' % t, 'serialization of %s is gone' % t, 'generators/rust/treeldr-rs')
    P = ('self', 'rdf', 'inputs', '_graph', 'output')
    for t, iri in XSD + [('String', 'XSD_STRING')]:
        if t not in impls:
            continue
        lit = 'Literal::new(%s, LiteralType::Any(%s))' % ('string(self)' if t != 'String' else 'self', iri)
        c = simple(ctx, rep, 'serialize ' + t, impls[t], P, [], ev=('ReverseLiteralInterpretationMut::assign_literal',),
                   opaque={'RdfContextMut::vocabulary_literal', 'RdfContextMut::vocabulary_literal_owned'},
                   abbrev=[('RdfContextMut::vocabulary_literal_owned', 'VL'), ('RdfContextMut::vocabulary_literal', 'VL')],
                   fmt={'@threads': set()})
        c.check(ctx, rep, 'value', {}, {'out': ['Ok(())'], 'ev': {'ReverseLiteralInterpretationMut::assign_literal': [
            '(rdf.interpretation, inputs[0], VL(rdf, %s))' % lit]}})
    if 'Id' in impls:
        c = simple(ctx, rep, 'serialize Id', impls['Id'], P, [], ev=('ReverseIriInterpretationMut::assign_iri', 'ReverseBlankIdInterpretationMut::assign_blank_id'))
        ai, ab = 'ReverseIriInterpretationMut::assign_iri', 'ReverseBlankIdInterpretationMut::assign_blank_id'
        c.check(ctx, rep, 'IRI', {'self': 'Iri'}, {'out': ['Ok(())'], 'noev': [ab], 'ev': {ai: [
            '(rdf.interpretation, inputs[0], IriVocabularyMut::insert(rdf.vocabulary, self:Iri))']}})
        c.check(ctx, rep, 'blank', {'self': 'Blank'}, {'out': ['Ok(())'], 'noev': [ai], 'ev': {ab: [
            '(rdf.interpretation, inputs[0], BlankIdVocabularyMut::insert_blank_id(rdf.vocabulary, self:Blank))']}})


# ---- derived code --------------------------------------------------------------
def _iri(a):
    if a.startswith('<'):
        return a
    m = re.fullmatch(r'"(.*)"', a)
    return '<%s>' % (m.group(1).replace('http://example.org/#', '') if m else a)


SHOW = [('const(tldr_witness::Unit, )', 'Unit'), ('const(tldr_witness::BUnit, )', 'BUnit'), ('const(tldr_witness::generated::GUnit, )', 'GUnit'), ('Environment::Root(inputs)', 'env'), ('Pattern::Resource(', 'R('), ('Pattern::Var(', 'V('), ('Pattern::', ''), ('TryInto::try_into', '')]
W_SER = {'Environment::intro', 'Environment::instantiate_dataset', 'Environment::instantiate_pattern', 'Environment::instantiate_patterns',
         'Environment::bind', 'RdfContextMut::interpret_iri', 'RdfContextMut::vocabulary_literal', 'RdfContextMut::vocabulary_literal_owned',
         'SerializeLd::serialize_ld_with'}
W_DE = {'Matching::new', 'Matching::into_unique', 'Matching::into_required_unique', 'de::select_inputs', 'de::select_graph',
        'Substitution::from_inputs', 'Substitution::intro', 'Substitution::push', 'Substitution::get', 'Pattern::apply',
        'QuadsExt::with_default_graph', 'RdfContext::iri_interpretation', 'DeserializeLd::deserialize_ld_with',
        'FromRdfLiteral::from_rdf_literal'}
F_SER = {
    'Iri::new_unchecked': lambda a: _iri(a[0]),
    'Environment::intro': lambda a: '%s+%s' % (a[0], a[2]),
    'Environment::bind': lambda a: '%s+%s' % (a[0], a[1]),
    'Environment::instantiate_pattern': lambda a: 'val(%s; %s)' % (a[0], a[1]),
    'Environment::instantiate_patterns': lambda a: 'val(%s; %s)' % (a[0], a[1]),
    'RdfContextMut::interpret_iri': lambda a: _iri(a[1]),
    'RdfContextMut::vocabulary_literal': lambda a: 'LIT(%s, %s)' % tuple(a),
    'RdfContextMut::vocabulary_literal_owned': lambda a: 'LIT(%s, %s)' % tuple(a),
    'SerializeLd::serialize_ld_with': lambda a: 'ser(%s; %s; %s)' % (a[0], a[2], a[3]),
    '@fresh': {'InterpretationMut::new_resource'},
    '@threads': {('Environment::intro', 1), ('RdfContextMut::interpret_iri', 0), ('SerializeLd::serialize_ld_with', 1),
                 ('RdfContextMut::vocabulary_literal', 0), ('RdfContextMut::vocabulary_literal_owned', 0),
                 ('InterpretationMut::new_resource', 0), ('InterpretationMut::new_resource', 1)},
    '@journal': {('Environment::instantiate_dataset', 3): lambda a: 'data(%s; %s; %s)' % (a[0], a[1], a[2]),
                 ('SerializeLd::serialize_ld_with', 4): lambda a: 'ser(%s; %s; %s)' % (a[0], a[2], a[3])},
    '@okcells': True,
}
F_DE = {
    'Iri::new_unchecked': lambda a: _iri(a[0]),
    'Matching::new': lambda a: 'M(%s%s | %s)' % ('' if a[0] == 'dataset' else a[0] + ': ', a[1], a[2]),
    'Matching::into_unique': lambda a: 'opt%s' % a[0],
    'Matching::into_required_unique': lambda a: 'req%s' % a[0],
    'de::select_inputs': lambda a: 'in(%s; %s)' % (a[0], a[1]),
    'de::select_graph': lambda a: 'graph(%s; %s; %s)' % (a[0], a[1], a[2]),
    'QuadsExt::with_default_graph': lambda a: '%s@%s' % (a[0], a[1]),
    'RdfContext::iri_interpretation': lambda a: _iri(a[1]),
    'DeserializeLd::deserialize_ld_with': lambda a: 'de(%s; %s)' % (a[3], a[2]) if a[:2] == ['rdf', 'dataset'] else 'de(%s)' % '; '.join(a),
}


def _matches(t):
    return t.name == 'next' and t.self_adt and t.self_adt.split('::')[-1] == 'Matching'


def known(sel=None):
    """Every term of the layout is known to the vocabulary, except `sel`."""
    def f(s, t, st):
        if t.op == 'call' and ts(t)[0] == 'RdfContext::iri_interpretation':
            return 'None' if sel is not None and s == sel else 'Some'
        return None
    return f


def derived(ctx, ty, name):
    k = ('derived', ty, name)
    if k not in ctx.cache:
        l = [f for f in ctx.prog.find(crate='tldr_witness', name=name) if str(f.self_ty).split('::')[-1] == ty]
        if len(l) != 1:
            raise Anchor('expected one %s of the witness type %s, found %d' % (name, ty, len(l)))
        de_ = name == 'deserialize_ld_with'
        ctx.cache[k] = Contract('%s %s' % ('deserializer of' if de_ else 'serializer of', ty), l[0],
                                ('rdf', 'dataset', 'graph', 'inputs') if de_ else ('self', 'rdf', 'inputs', 'graph', 'output'),
                                W_DE if de_ else W_SER, _matches if de_ else None, (), {}, None, None, F_DE if de_ else F_SER, () if de_ else (5,), (), SHOW)
    return ctx.cache[k]


KEEP, DEFAULT = 'keep', 'default'
RDF = '<http://www.w3.org/1999/02/22-rdf-syntax-ns#%s>'
# kind, introduced variables and dataset of the layout, then its parts: name, introduced variables, dataset, inputs, graph of each
# (variables by number: inputs, then introduced variables, then those of the part)
TYPES = {
    'Record': ('record', 1, [(0, '<type>', 1), (1, '<in>', '<o>', '<g>')], [
        ('a_required', 1, [(0, '<foo>', 2)], [2], KEEP),
        ('b_optional', 1, [(0, '<bar>', 2)], [2], KEEP),
        ('c_outside', 1, [(1, '<p>', 2)], [2, 0], DEFAULT)], {'b_optional'}),
    'Graphs': ('record', 1, [(0, '<type>', 1)], [
        ('d_graph', 1, [(0, '<q>', 2)], [2], 1),
        ('e_named', 1, [(0, '<q>', 2, 1)], [2], '<g>')], {'d_graph'}),
    'Pair': ('record', 0, [(0, '<pair>', 1)], [('value', 1, [(1, '<v>', 2)], [2], KEEP)], set()),
    'Empty': ('record', 0, [], [], set()),
    'Sum': ('sum', 1, [(0, '<s>', 1)], [
        ('Bar', 1, [(1, '<bar>', 2)], [2], 1),
        ('Baz', 0, [], [1, 0], DEFAULT),
        ('Foo', 0, [(0, '<foo>', 1)], [0], KEEP)]),
    'Set': ('set', 1, [(0, '<s>', 1)], [('item', 1, [(1, '<item>', 2)], [2], 2)]),
    'List': ('list', 1, [(0, '<l>', 2)], [('node', 1, [(3, '<item>', 5), (3, '<next>', 4)], [5], DEFAULT)], 0, 1),
    'DefaultList': ('list', 0, [], [('node', 1, [(1, RDF % 'first', 3), (1, RDF % 'rest', 2)], [3], KEEP)], 0, RDF % 'nil'),
    'Tuple': ('tuple', 1, [(0, '<t>', 1)], [
        ('0', 1, [(0, '<fst>', 2)], [2], KEEP),
        ('1', 1, [(1, '<item>', 2)], [2], 1),
        ('2', 1, [], [1, 0], DEFAULT)]),
    'Single': ('tuple', 0, [], [('0', 1, [(0, '<v>', 1)], ['<constant>', 1], KEEP)]),
    'Unit': ('unit', 1, [(0, '<unit>', 1)], []),
    'Id': ('id', 1, [(0, '<id>', 1)], [], 1),
    'Boolean': ('literal', 1, [(0, '<b>', 1)], [], 1, '<http://www.w3.org/2001/XMLSchema#boolean>'),
    'Number': ('literal', 1, [(0, '<b>', 1)], [], 1, '<num>'),
    'Text': ('literal', 1, [(0, '<b>', 1)], [], 1, '<text>'),
    'BRecord': ('record', 0, [(0, '<r>', 1)], [('x', 1, [(0, '<x>', 2)], [2], KEEP), ('y', 1, [(0, '<y>', 2)], [2], DEFAULT)], {'y'}),
    'Pair1': ('tuple', 0, [], [('0', 1, [(0, '<ax>', 1)], [1], KEEP), ('1', 1, [(0, '<bx>', 1)], [1], '<g>')]),
    'BSum': ('sum', 2, [(1, '<c>', 2), (2, '<d>', 3)], [
        ('One', 2, [(2, '<y>', 4), (3, '<z>', 5)], [5], KEEP),
        ('Two', 0, [], [3], KEEP)]),
    'BSet': ('set', 1, [(1, '<c>', 2)], [('item', 1, [(0, '<item>', 3)], [3], KEEP)]),
    'BList': ('list', 1, [(1, '<c>', 2)], [('node', 2, [(1, '<y>', 6), (3, '<n>', 4), (3, '<x>', 5)], [6], 5)], 2, '<end>'),
    'BTuple': ('tuple', 1, [(1, '<c>', 2)], [('0', 1, [(0, '<p>', 3)], [3], KEEP), ('1', 1, [(0, '<q>', 3)], [3], DEFAULT)]),
    'BId': ('id', 0, [(0, '<c>', 1)], [], 0),
    'BUnit': ('unit', 0, [(0, '<c>', 1)], []),
    'BBoolean': ('literal', 0, [(0, '<c>', 1)], [], 0, '<bool>'),
    'BNumber': ('literal', 0, [(0, '<c>', 1)], [], 0, '<num>'),
    'BText': ('literal', 0, [(0, '<c>', 1)], [], 0, '<http://www.w3.org/2001/XMLSchema#string>'),
}

GENERATED = {
    'GRecord': ('record', 1, [(0, '<r>', 2), (2, '<k>', 1, '<g>')], [
        ('o', 1, [(0, '<o>', 3)], [3], DEFAULT),
        ('r', 2, [(1, '<v>', 3), (3, '<w>', 4, 2)], [4, '<fixed>'], 2)], {'o'}),
    'GSum': ('sum', 2, [(1, '<c>', 2), (2, '<d>', 3)], [
        ('One', 2, [(2, '<y>', 4), (3, '<z>', 5)], [5], KEEP),
        ('Two', 0, [], [3, 0], '<g>')]),
    'GSet': ('set', 1, [(1, '<c>', 2)], [('item', 1, [(2, '<item>', 3)], [3], DEFAULT)]),
    'GList': ('list', 1, [(1, '<c>', 2)], [('node', 2, [(1, '<y>', 6), (3, '<n>', 4), (3, '<x>', 5)], [6], 5)], 2, '<end>'),
    'GTuple': ('tuple', 1, [(1, '<c>', 2)], [('0', 1, [(0, '<p>', 3)], [3], KEEP), ('1', 1, [(2, '<q>', 3)], [3, 1], '<g>')]),
    'GUnit': ('unit', 1, [(0, '<c>', 1), (1, '<d>', 2)], []),
    'GId': ('id', 1, [(0, '<c>', 1), (1, '<d>', 2)], [], 2),
    'GBoolean': ('literal', 1, [(0, '<c>', 1)], [], 2, '<bool>'),
    'GText': ('literal', 1, [(0, '<c>', 1)], [], 2, '<text>'),
    'ExtendedOne': ('record', 0, [], [
        ('a', 1, [(0, '<a>', 1)], [1, 0], KEEP), ('b', 1, [(0, '<b>', 1)], [1], KEEP), ('c', 2, [(0, '<c>', 2)], [2], KEEP)], {'b'}),
    'Ints': ('tuple', 0, [], [('0', 1, [(0, '<i16>', 1)], [1], KEEP), ('1', 1, [(0, '<i32>', 1)], [1], KEEP), ('2', 1, [(0, '<u32>', 1)], [1], KEEP)]),
}


class Model:
    """What a layout means, in the notation of the summaries."""

    def __init__(self, deser):
        self.q = '!' if deser else ''

    def pat(self, x):
        return 'Pattern::Var(%d)' % x if isinstance(x, int) else 'Pattern::Resource(%s%s)' % (x, self.q)

    def data(self, quads):
        return 'seq[%s]' % ', '.join('Quad(%s, %s)' % (', '.join(self.pat(x) for x in q[:3]), 'Some(%s)' % self.pat(q[3]) if len(q) > 3 else 'None')
                                     for q in quads)

    def ins(self, l):
        return 'seq[%s]' % ', '.join(self.pat(x) for x in l)


def _derived_missing(ctx, rep):
    if ctx.prog.witness_errors is not None:
        rep.obligations += 1
        rep.fail('derived code does not compile', 'the code generated for the layouts of the witness crate is rejected by the compiler: %s' % (
            ' '.join(' '.join(ctx.prog.witness_errors).split())[:600]), 'generators/rust/treeldr-rs-macros')
        return True
    return False


def _ser(rep, ctx, c, ty, spec):
    m = Model(False)
    kind, intro, data, parts = spec[:4]
    e0 = 'Environment::Root(inputs)+%d' % intro
    head = 'data(%s; %s; graph)' % (e0, m.data(data))

    def part(p, v, e):
        _, i, d, ins, g = p
        e1 = '%s+%d' % (e, i)
        gr = {KEEP: 'graph', DEFAULT: 'None'}.get(g) or 'Some(val(%s; %s))' % (e1, m.pat(g))
        return 'data(%s; %s; graph)' % (e1, m.data(d)), 'ser(%s; val(%s; %s); %s)' % (v, e1, m.ins(ins), gr)

    def expect(name, when, ok, seqs, errs, fn=None):
        out = [c.short('%s ; output=seq[%s]' % (ok, ', '.join(['..output', head] + seqs)))] + [c.short('Err(%s:Err)' % x) for x in errs]
        c.check(ctx, rep, name, when, {'out': out}, fn)

    if kind in ('record', 'tuple'):
        opts = sorted(spec[4]) if kind == 'record' else []
        for mask in range(1 << len(opts)):
            absent = {o for i, o in enumerate(opts) if mask >> i & 1}
            when = {'self.' + o: 'None' if o in absent else 'Some' for o in opts}
            seqs, errs = [], []
            for p in parts:
                if p[0] not in absent:
                    d, v = part(p, 'self.%s%s' % (p[0], '!' if p[0] in opts else ''), e0)
                    seqs += [d, v]
                    errs.append(v)
            expect('without ' + ', '.join(sorted(absent)) if absent else 'all parts', when, 'Ok(())', seqs, errs)
    elif kind == 'sum':
        for p in parts:
            d, v = part(p, 'self:' + p[0], e0)
            expect('variant ' + p[0], {'self': p[0], v: 'Ok'}, 'Ok(%s?)' % v, [d, v], [])
            c.check(ctx, rep, 'variant %s fails' % p[0], {'self': p[0], v: 'Err'}, {'out': [c.short('Err(%s:Err)' % v)]})
    elif kind == 'set':
        d, v = part(parts[0], 'self.0[]', e0)
        expect('items', {}, 'Ok(())', ['(%s %s)*' % (d, v)], [v])
        expect('no item', {'more(self.0)': 'None'}, 'Ok(())', [], [])
    elif kind == 'list':
        hd, tl = ('val(%s; %s)' % (e0, m.pat(x)) for x in spec[4:6])
        cur = 'lv{%s}' % '|'.join(['fresh1'] + sorted([hd, tl]))
        both = '{%s}' % '|'.join(sorted(['seq[%s, fresh1]' % cur, 'seq[%s, %s]' % (cur, tl)]))
        d, v = part(parts[0], 'self.0[]', '%s+%s' % (e0, both))
        expect('items', {}, 'Ok(())', ['(%s %s)*' % (d, v)], [v])
        expect('no item', {'more(self.0)': 'None'}, 'Ok(())', [], [])

        def at(i, n):
            def leaf(t):
                return {'idx': i, 'len': n}.get(t.op)

            def f(s, t, st):
                v = evalnum(t, leaf) if t.op in ('eq', 'lt', 'not') else None
                return v if isinstance(v, bool) else None
            return f
        for i, n in ((0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)):
            rest = tl if i + 1 == n else 'fresh1'
            cur2 = 'lv{%s}' % '|'.join(sorted({hd, rest})) if hd != rest else hd
            d, v = part(parts[0], 'self.0[]', '%s+seq[%s, %s]' % (e0, cur2, rest))
            expect('item %d of %d' % (i + 1, n), {}, 'Ok(())', ['(%s %s)*' % (d, v)], [v], at(i, n))
    elif kind == 'unit':
        expect('value', {}, 'Ok(())', [], [])
    elif kind == 'id':
        ai, ab = 'ReverseIriInterpretationMut::assign_iri', 'ReverseBlankIdInterpretationMut::assign_blank_id'
        res = 'val(%s; %s)' % (e0, m.pat(spec[4]))
        idx = 'Id::as_lexical_id_ref(self.0)'
        out = c.short('Ok(()) ; output=seq[..output, %s]' % head)
        c.check(ctx, rep, 'IRI', {idx: 'Iri'}, {'out': [out], 'noev': [ab], 'ev': {ai: [c.short(
            '(rdf.interpretation, %s, IriVocabularyMut::insert(rdf.vocabulary, %s:Iri))' % (res, idx))]}})
        c.check(ctx, rep, 'blank', {idx: 'Blank'}, {'out': [out], 'noev': [ai], 'ev': {ab: [c.short(
            '(rdf.interpretation, %s, BlankIdVocabularyMut::insert_blank_id(rdf.vocabulary, %s:Blank))' % (res, idx))]}})
    elif kind == 'literal':
        al = 'ReverseLiteralInterpretationMut::assign_literal'
        res = 'val(%s; %s)' % (e0, m.pat(spec[4]))
        val = 'string(self.0)' if not ty.endswith('Text') else 'self.0'
        out = c.short('Ok(()) ; output=seq[..output, %s]' % head)
        c.check(ctx, rep, 'value', {}, {'out': [out], 'ev': {al: [c.short('(rdf.interpretation, %s, LIT(rdf, Literal::new(%s, LiteralType::Any(%s))))' % (
            res, val, spec[5]))]}})


def derived_ser(ctx, rep):
    rep.rule('derived-serialize', 'the serializer generated for a type writes the dataset of its layout, then of each part in its own scope, into '
             'the current graph, and each part on its own inputs and in its own graph; the parts written are those of the value')
    if _derived_missing(ctx, rep):
        return
    for ty, spec in TYPES.items():
        _ser(rep, ctx, derived(ctx, ty, 'serialize_ld_with'), ty, spec)


def _de(rep, ctx, c, ty, spec):
    m = Model(True)
    kind, intro, data, parts = spec[:4]
    R0 = 'reqM(S[inputs]+intro(%d) | map(%s)@graph)' % (intro, m.data(data))
    # an ambiguous or missing match, as the conversion of matching errors makes it
    unmatched = ['Err(Error::DataAmbiguity)', 'Err(Error::MissingData)']
    terms = lambda qs: [x for q in qs for x in q if not isinstance(x, int)]

    def part(p, base=None, req=False, extra=0):
        _, i, d, ins, g = p
        O = '%sM(%s+intro(%d) | map(%s)@graph)' % ('req' if req else 'opt', base or R0 + '?', i + extra, m.data(d))
        sub = O + ('?' if req else '?!')
        gr = {KEEP: 'None', DEFAULT: 'Some(None)'}.get(g) or 'Some(Some(%s))' % m.pat(g)
        return O, 'de(in(%s; %s); graph(graph; %s; %s))' % (m.ins(ins), sub, gr, sub)

    def chk(name, when, out, fn=None):
        c.check(ctx, rep, name, when, {'out': [c.short(x) for x in out]}, fn or known())

    ok0 = {R0: 'Ok'}
    chk('layout dataset not matched', {R0: 'Err'}, unmatched)
    for x in sorted(set(terms(data))):
        chk('unknown term %s of the dataset' % x, {}, ['Err(Error::MissingData)'], known(x))
    if kind == 'record':
        opts = spec[4]
        pv = [(p,) + part(p) for p in parts]
        okall = dict(ok0)
        for p, O, v in pv:
            okall.update({O: 'Ok', O + '?': 'Some', v: 'Ok'})
        val = lambda absent: 'Ok(%s)' % (ty if not parts else '%s{%s}' % (ty, ', '.join('%s: %s' % (
            p[0], 'None' if p[0] in absent else 'Some(%s?)' % v if p[0] in opts else v + '?') for p, O, v in pv)))
        chk('all fields', okall, [val(())])
        for p, O, v in pv:
            gone = 'Err(Error::MissingField("%s"))' % p[0] if p[0] not in opts else val({p[0]})
            chk('field %s absent' % p[0], dict(okall, **{O + '?': 'None'}), [gone])
            chk('field %s ambiguous' % p[0], dict(okall, **{O: 'Err'}), unmatched)
            chk('field %s does not fit' % p[0], dict(okall, **{v: 'Err'}), ['Err(%s:Err)' % v])
            for x in sorted(set(terms(p[2])) - set(terms(data))):
                if sum(x in terms(q[2]) for q in parts) == 1:
                    chk('unknown term of field ' + p[0], okall, [gone], known(x))
    elif kind == 'tuple':
        pv = [(p,) + part(p, None, True) for p in parts]
        okall = dict(ok0)
        for p, O, v in pv:
            okall.update({O: 'Ok', v: 'Ok'})
        chk('all items', okall, ['Ok(%s(%s))' % (ty, ', '.join(v + '?' for p, O, v in pv))])
        for p, O, v in pv:
            chk('item %s missing or ambiguous' % p[0], dict(okall, **{O: 'Err'}), unmatched)
            chk('item %s does not fit' % p[0], dict(okall, **{v: 'Err'}), ['Err(%s:Err)' % v])
    elif kind == 'sum':
        pv = [(p,) + part(p) for p in parts]
        for mask in range(1 << len(pv)):
            on = [j for j in range(len(pv)) if mask >> j & 1]
            for off in ('absent', 'does not fit'):
                when = dict(ok0)
                for j, (p, O, v) in enumerate(pv):
                    when.update({O: 'Ok', O + '?': 'Some' if j in on or off != 'absent' else 'None', v: 'Ok' if j in on else 'Err'})
                out = ['Err(Error::MissingData)'] if not on else ['Err(Error::DataAmbiguity)'] if len(on) > 1 else \
                    ['Ok(%s::%s(%s?))' % (ty, pv[on[0]][0][0], pv[on[0]][2])]
                chk('variants %s, others %s' % ('+'.join(pv[j][0][0] for j in on) or 'none', off), when, out)
        for j, (p, O, v) in enumerate(pv):
            when = dict(ok0)
            for k, (p2, O2, v2) in enumerate(pv):
                when.update({O2: 'Ok', O2 + '?': 'None'})
            chk('variant %s ambiguous' % p[0], dict(when, **{O: 'Err'}), unmatched)
    elif kind == 'set':
        p = parts[0]
        _, i, d, ins, g = p
        M = 'M(%s?+intro(%d) | map(%s)@graph)' % (R0, i, m.data(d))
        sub = 'one0(%s)' % M
        gr = {KEEP: 'None', DEFAULT: 'Some(None)'}.get(g) or 'Some(Some(%s))' % m.pat(g)
        v = 'de(in(%s; %s); graph(graph; %s; %s))' % (m.ins(ins), sub, gr, sub)
        chk('no match', dict(ok0, **{'next0(%s)' % M: 'None', 'more(%s)' % M: 'None'}), ['Ok(%s(seq[]))' % ty])
        chk('items fit', dict(ok0, **{v: 'Ok'}), ['Ok(%s(seq[%s?*]))' % (ty, v)])
        chk('an item does not fit', dict(ok0, **{v: 'Err'}), ['Ok(%s(seq[]))' % ty, 'Err(%s:Err)' % v])
        for x in sorted(set(terms(d)) - set(terms(data))):
            chk('unknown term of the items', ok0, ['Ok(%s(seq[]))' % ty], known(x))
    elif kind == 'list':
        p = parts[0]
        hd, tl = ('apply(%s; %s?):Resource' % (m.pat(x), R0) for x in spec[4:6])
        lv = lambda b: '%s?+push(Some(%s))' % (R0, b)
        # the node after `^`: what the rest variable, the one after the head, is bound to in its match
        node = lambda b: part(p, lv(b), True, 1)
        nxt = 'Substitution::get(%s?, Substitution::intro(%s, %d))!' % (node('^')[0], lv('^'), p[1] + 1)
        cur = 'lv{%s}' % '|'.join(sorted([nxt, hd]))

        def end(b):
            def f(s, t, st):
                if t.op == 'eq':
                    return b
                return known()(s, t, st)
            return f
        O, v = node(cur)
        mark = lambda s: s.replace('^', '^1')
        chk('empty', ok0, ['Ok(%s(seq[]))' % ty], end(True))
        c.check(ctx, rep, 'nodes', ok0, {'out': [c.short(x) for x in (
            'Ok(%s(seq[%s?*]))' % (ty, mark(v)), *unmatched, 'Err(%s:Err)' % v)]}, known())
        chk('never the tail', ok0, unmatched + ['Err(%s:Err)' % v], end(False))
    elif kind == 'unit':
        chk('matched', ok0, ['Ok(%s)' % ty])
    elif kind == 'id':
        I = 'ReverseIriInterpretation::iris_of(rdf.interpretation, apply(%s; %s?):Resource)' % (m.pat(spec[4]), R0)
        tf = 'TryFrom::try_from(Id::Iri(IriVocabulary::iri(rdf.vocabulary, %s[])!))' % I
        chk('no IRI', dict(ok0, **{'more(%s)' % I: 'None'}), ['Err(Error::MissingId)'])
        chk('IRI', dict(ok0, **{tf: 'Ok'}), ['Ok(%s(%s?))' % (ty, tf), 'Err(Error::AmbiguousId)', 'Err(Error::MissingId)'])
        chk('unfit IRI', dict(ok0, **{tf: 'Err'}), ['Err(Error::InvalidId)', 'Err(Error::AmbiguousId)', 'Err(Error::MissingId)'])
    elif kind == 'literal':
        I = 'ReverseLiteralInterpretation::literals_of(rdf.interpretation, apply(%s; %s?):Resource)' % (m.pat(spec[4]), R0)
        lit = 'LiteralVocabulary::literal(rdf.vocabulary, %s[])!' % I
        fr = 'FromRdfLiteral::from_rdf_literal(%s.value)' % lit
        tyi = 'IriVocabulary::iri(rdf.vocabulary, %s.type_:Any)!' % lit

        def same(b):
            def f(s, t, st):
                if t.op == 'eq':
                    return b if tyi in s and (spec[5] if not spec[5].startswith('<') else spec[5].strip('<>')) in s else False
                return known()(s, t, st)
            return f
        mis = ['Err(Error::LiteralTypeMismatch)', 'Err(Error::ExpectedLiteral)']
        amb = ['Err(Error::AmbiguousLiteralValue)']
        typed = dict(ok0, **{lit + '.type_': 'Any'})
        chk('no literal', dict(ok0, **{'more(%s)' % I: 'None'}), mis[1:], same(False))
        chk('of the datatype', dict(typed, **{fr: 'Ok'}), ['Ok(%s?)' % fr, mis[1]] + amb, same(True))
        chk('of the datatype, unreadable', dict(typed, **{fr: 'Err'}), mis, same(True))
        chk('of another datatype', typed, mis, same(False))


def derived_de(ctx, rep):
    rep.rule('derived-deserialize', 'the deserializer generated for a type matches the dataset of its layout, then of each part in its own scope, in '
             'the current graph, and reads each part from its own inputs in its own graph; required parts are required, one variant is selected, '
             'ambiguities are errors, and terms no one has heard of match nothing')
    if _derived_missing(ctx, rep):
        return
    for ty, spec in TYPES.items():
        _de(rep, ctx, derived(ctx, ty, 'deserialize_ld_with'), ty, spec)


def generated(ctx, rep):
    rep.rule('generated-types', 'the serializer and deserializer of a type generated from a layout file mean what the layout file says')
    if _derived_missing(ctx, rep):
        return
    for ty, spec in GENERATED.items():
        _ser(rep, ctx, derived(ctx, ty, 'serialize_ld_with'), ty, spec)
        _de(rep, ctx, derived(ctx, ty, 'deserialize_ld_with'), ty, spec)


# Field types of the generated types, as the compiler resolved them.
S_ = 'alloc::string::String'
W = 'tldr_witness::generated::'
FIELDS = {
    'GRecord': [('GRecord', [('o', 'core::option::Option<%s>' % S_), ('r', W + 'GUnit')])],
    'GSum': [('One', [('0', 'i8')]), ('Two', [('0', W + 'GRecord')])],
    'GSet': [('GSet', [('0', 'alloc::vec::Vec<u16>')])],
    'GList': [('GList', [('0', 'alloc::vec::Vec<i64>')])],
    'GTuple': [('GTuple', [('0', 'u8'), ('1', W + 'GUnit')])],
    'GUnit': [('GUnit', [])],
    'GId': [('GId', [('0', 'rdf_types::term::id::Id')])],
    'GBoolean': [('GBoolean', [('0', 'bool')])],
    'GText': [('GText', [('0', S_)])],
    'ExtendedOne': [('ExtendedOne', [('a', W + 'GText'), ('b', 'core::option::Option<u64>'), ('c', 'rdf_types::term::id::Id')])],
    'Ints': [('Ints', [('0', 'i16'), ('1', 'i32'), ('2', 'u32')])],
}


def generated_types(ctx, rep):
    rep.rule('generated-fields', 'a type generated from a layout file has one part per field, item or variant of the layout, of the type of the '
             'layout its value refers to; optional fields are options and lists are vectors')
    if _derived_missing(ctx, rep):
        return
    adts = {a['path'].split('::')[-1]: a for a in ctx.prog.crates['tldr_witness']['adts'] if '>' not in a['path']}
    for ty, want in FIELDS.items():
        a = adts.get(ty)
        if a is None:
            raise Anchor('generated type %s' % ty)
        got = [(v['name'], [(x['name'], x['ty']) for x in v['fields']]) for v in a['variants']]
        rep.obligations += 1 + sum(len(v[1]) for v in want)
        rep.seen('fields of ' + ty, {repr(got)})
        if got != want:
            rep.fail('fields of generated type %s' % ty, 'the type generated for the layout of %s is %r instead of %r' % (ty, got, want),
                     'generators/rust/generator/src/lib.rs')


PRIV = '__private::push_'
TOK = {'comma': ',', 'pound': '#', 'colon': ':', 'colon2': '::', 'semi': ';', 'lt': '<', 'gt': '>', 'underscore': '_', 'eq': '=', 'star': '*',
       'dot': '.'}


def _tokens():
    j = {(PRIV + k, 0): (lambda a, v=v: v) for k, v in TOK.items()}
    j[(PRIV + 'ident', 0)] = lambda a: a[0].strip('"')
    j[('ToTokens::to_tokens', 1)] = lambda a: a[0]

    def group(a):
        d = {'Parenthesis': '()', 'Bracket': '[]', 'Brace': '{}'}[a[0].split('::')[-1]]
        return d[0] + a[1] + d[1]
    j[(PRIV + 'group', 0)] = group
    return {'@journal': j}


PRESETS = {'Id': '::, treeldr, ::, rdf_types, ::, Id', 'Unit': '(seq[])', 'Boolean': 'bool', 'String': 'String',
           **{k: k.lower() for k in ('U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64')}}


def generated_names(ctx, rep):
    rep.rule('generated-names', 'each preset layout is the Rust type of its name, any other layout the type named after it, in the module '
             'declared for a prefix of its IRI; the name is the one given in the options or the Pascal case of the fragment or last segment of '
             'an IRI of the layout; a pattern is written as its variable or an IRI of its resource')
    C = 'treeldr_gen_rust'
    I = 'ReverseIriInterpretation::iris_of(rdf.interpretation, layout_ref.0)'
    iri = 'IriVocabulary::iri(rdf.vocabulary, %s[])!' % I
    P = 'PresetLayout::from_iri(%s)' % iri
    f = ctx.fn(crate=C, name='layout_ref', adt='Options')
    L = 'Options::layout_ident(self, rdf, layout_ref)'
    none = 'Err(%s:Err)' % L
    seg = lambda i: 'PathSegment{arguments: PathArguments::None, ident: %s}' % i
    cases = []
    for k, v in PRESETS.items():
        cases.append((k, {'more(%s)' % I: 'Some', P: 'Some', P + '!': k}, ['Ok(syn::parse2(seq[%s])?)' % v]))
    simple(ctx, rep, C + ' layout_ref', f, ('self', 'rdf', 'layout_ref'), cases, opaque={'PresetLayout::from_iri', 'Options::layout_ident'},
           fmt=_tokens())
    E = 'self.extern_modules'
    own = 'Ok(Type::Path(TypePath{path: Path{leading_colon: None, segments: Punctuated::push#0(Punctuated::new(), %s)}, qself: None}))' % seg(L + '?')
    simple(ctx, rep, C + ' layout_ref', f, ('self', 'rdf', 'layout_ref'), [
        ('no IRI', {'more(%s)' % I: 'None', L: 'Ok'}, [own]),
        ('no name', {'more(%s)' % I: 'None', L: 'Err'}, [none]),
        ('no preset, no module', {P: 'None', 'more(%s)' % E: 'None', L: 'Ok'}, [own]),
    ], opaque={'PresetLayout::from_iri', 'Options::layout_ident'}, fmt=_tokens())
    ps = lambda x: 'syn::parse_str(string(PascalCase(%s)))' % x
    fr, sg = 'Iri::fragment(iri)', 'Path::segments(Iri::path(iri))'
    simple(ctx, rep, C + ' ident_from_iri', ctx.fn(crate=C, name='ident_from_iri'), ('iri',), [
        ('fragment', {fr: 'Some', ps(fr + '!'): 'Ok'}, ['Some(%s?)' % ps(fr + '!')]),
        ('fragment, not an identifier', {fr: 'Some', ps(fr + '!'): 'Err'}, ['None']),
        ('segment', {fr: 'None'}, ['None', 'Some(%s?)' % ps(sg + '[]')]),
    ])
    simple(ctx, rep, C + ' layout_ident', ctx.fn(crate=C, name='layout_ident', adt='Options'), ('self', 'rdf', 'layout_ref'), [
        ('given', {'get(self.idents, layout_ref)': 'Some'}, ['Ok(get(self.idents, layout_ref)!)']),
        ('default', {'get(self.idents, layout_ref)': 'None', 'treeldr_gen_rust::default_layout_ident(rdf, layout_ref)': 'Some'}, ['Ok(treeldr_gen_rust::default_layout_ident(rdf, layout_ref)!)']),
        ('none', {'get(self.idents, layout_ref)': 'None', 'treeldr_gen_rust::default_layout_ident(rdf, layout_ref)': 'None'}, ['Err(Error::MissingTypeIdentifier(layout_ref.0))'])],
        opaque={'treeldr_gen_rust::default_layout_ident'})
    J = 'ReverseIriInterpretation::iris_of(rdf.interpretation, pattern:Resource)'
    simple(ctx, rep, C + ' pattern_to_id', ctx.fn(crate=C, name='pattern_to_id'), ('rdf', 'pattern'), [
        ('variable', {'pattern': 'Var'}, ['Ok(Id::Blank(BlankIdBuf::from_suffix(string(pattern:Var))?))']),
        ('resource', {'pattern': 'Resource', 'more(%s)' % J: 'Some'}, ['Ok(Id::Iri(IriVocabulary::iri(rdf.vocabulary, %s[])!))' % J]),
        ('resource without IRI', {'pattern': 'Resource', 'more(%s)' % J: 'None'}, ['Err(Error::NoIriRepresentation)'])])
    simple(ctx, rep, C + ' default_layout_ident', ctx.fn(crate=C, name='default_layout_ident'), ('rdf', 'layout_ref'), [
        ('no IRI', {'more(%s)' % I: 'None'}, ['None']),
        ('IRI', {}, ['None', 'Some(utils::ident_from_iri(%s)!)' % iri])], opaque={'utils::ident_from_iri'})
