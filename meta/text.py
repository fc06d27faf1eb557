HY = 'layouts/src/distill/hy/mod.rs'
DE = 'layouts/src/distill/de/mod.rs'
HYD = 'layouts/src/distill/hy/data.rs'
MAT = 'layouts/src/matching.rs'
PAT = 'layouts/src/pattern.rs'
NOTE = '''Exact per case: for every case of the layout kinds and of the outcomes of the sub-steps the rule names, all results the dataflow
derives are compared with the rule, so an added, lost or changed result is reported. Sound up to the modelled std/rdf collections and to
terms the domain merges (loop turns are summarised); termination, numeric value ranges and the behaviour of dependencies are not decided.'''

PROPS = [
 dict(id='H01', title='Hydration returns a value only when the match is unique',
  statement='''Reading a dataset through a layout succeeds only if every product, required field, list item and list node it goes through
  matches the dataset in exactly one way: two matches end in an ambiguity error, no match of something required in a missing-data error, and
  no match of an optional field just leaves that field out. A value is never silently picked among several.''',
  over=['inputs'], forall='every layout, dataset, graph and input resources',
  why='''The tests read six well-formed example files; ambiguity and absence depend on every combination of layout position and number of
  matches, of which no test contains one.''',
  files=[HY, MAT], mech=[('unique and required-unique matching', MAT), ('hydrate per layout kind', HY)], note=NOTE),
 dict(id='H02', title='A match binds all patterns consistently and none is skipped',
  statement='''A substitution reported as a match maps every quad pattern of the dataset pattern to a quad that is present in the dataset,
  uses one resource per variable throughout, extends the bindings it started from, and every such substitution is reported. Resources in
  patterns only match themselves.''',
  over=['inputs'], forall='every dataset, pattern list, and initial substitution',
  why='''Backtracking errors only show on datasets where an early candidate contradicts a later pattern; the example datasets hold one
  candidate per pattern.''',
  files=[MAT, PAT], mech=[('backtracking search over quad patterns', MAT), ('binding a quad into a substitution', MAT), ('pattern application', PAT)],
  note=NOTE),
 dict(id='H03', title='Hydration variables are scoped and passed as the layout declares',
  statement='''While reading, each layout, field, variant, list item and list node is matched with the variables of its enclosing scopes
  bound as found so far plus exactly the number of fresh variables it declares, and a nested layout receives as inputs exactly the resources
  its format lists, in order. Bindings of one field, item or variant never leak into a sibling.''',
  over=['inputs', 'programs'], forall='every layout tree and dataset',
  why='The examples use at most one level of introduced variables, so off-by-one scopes and leaked bindings coincide with correct ones.',
  files=[HY, PAT], mech=[('substitution extension at each layout kind', HY), ('Substitution::intro/get/push', PAT)], note=NOTE),
 dict(id='H04', title='Hydration looks in the graph the layout designates',
  statement='''Quad patterns without an explicit graph are looked up in the graph the enclosing value is being read from, those with one in
  that graph; a nested value is read from the current graph, the default graph or the named graph exactly as its format says.''',
  over=['inputs'], forall='every layout, format and dataset with named graphs',
  why='All example datasets only use the default graph.',
  files=[HY, PAT, 'layouts/src/format.rs'], mech=[('default graph of quad patterns', PAT), ('graph of value formats', HY)], note=NOTE),
 dict(id='H05', title='Hydrated values hold exactly the parts the layout describes',
  statement='''The typed value returned for a layout carries that layout as its type and consists of exactly the hydrated fields under their
  own keys, the hydrated items or the chosen variant with its index; unordered lists hold each matched item once, sized lists one item per
  declared position in order, and an error in any part is the error of the whole.''',
  over=['inputs'], forall='every layout and dataset',
  why='Tests compare a handful of complete outputs; swapped keys, dropped items or wrong type tags depend on layout shapes they do not contain.',
  files=[HY, 'layouts/src/value/mod.rs'], mech=[('building of typed values', HY)], note=NOTE),
 dict(id='H06', title='Sums hydrate to their single matching variant',
  statement='''Reading a sum layout yields the variant, with its index, whose pattern and value match; if two variants do the result is an
  ambiguity error, and if none does an error; other errors of a variant are not mistaken for a value.''',
  over=['inputs'], forall='every sum layout and dataset, in any order of variants',
  why='No test reads a sum where zero or two variants match (both used to crash).',
  files=[HY], mech=[('variant selection', HY)], note=NOTE),
 dict(id='H07', title='Ordered lists are read along the chain from head to tail',
  statement='''An ordered list is read by starting at its head, matching one node pattern per step with the current head and a fresh rest,
  appending that node's item, and moving on to the rest, until the head equals the tail; the items come out in chain order and a node
  that does not match, or matches twice, is an error.''',
  over=['inputs'], forall='every ordered list layout and dataset (finite acyclic chains)',
  why='One example file contains one three-element list; order, node scope and end conditions hold for chains of any length and layout.',
  files=[HY], mech=[('ordered list traversal', HY)], note=NOTE),
 dict(id='H08', title='Literals are read only from the designated lexical values',
  statement='''A literal layout yields a value only from a literal representation of the designated resource with the layout's datatype (no
  language-tagged string), parsed according to that datatype, and an identifier layout only from an IRI of it; several candidates are an
  ambiguity error, none an error.''',
  over=['inputs'], forall='every literal layout, resource, and set of literal representations',
  why='Tests read a few xsd:string and xsd:boolean values; datatype mix-ups, language tags and multiple representations are not exercised.',
  files=[HYD, HY, 'layouts/src/layout/literal/data.rs'], mech=[('literal hydration per kind', HYD), ('identifier hydration', HY)], note=NOTE),
 dict(id='H09', title='Layouts are found by their own reference and inputs are counted',
  statement='''Reading resolves a layout reference to the definition registered under that very identifier or reports that it is not
  found, refuses a number of inputs different from the one the layout declares, and a union of registries answers with whichever member
  knows the identifier.''',
  over=['inputs', 'configurations'], forall='every registry, reference and input list',
  why='Tests always pass the right layout and number of inputs.',
  files=[HY, 'layouts/src/lib.rs', 'layouts/src/layout/mod.rs'], mech=[('layout lookup and arity check', HY), ('registries', 'layouts/src/lib.rs')], note=NOTE),
 dict(id='D01', title='Dehydration writes exactly the quads the layouts prescribe',
  statement='''Writing a tree value through a layout adds to the dataset, for every layout, field, item and node in use, its dataset pattern
  instantiated in its own scope (inputs, then the variables of each enclosing scope, introduced variables being fresh resources) once, in the
  graph the quad or else the enclosing value designates, and nothing else; nested values are written with the inputs and graph their format
  lists; an ordered list is a chain head, rest, ..., tail with one node per item.''',
  over=['inputs', 'programs'], forall='every layout, value, graph and input resources',
  why='''The tests write six example values into the default graph; scope arithmetic, named graphs and list chains depend on layout shapes
  they do not contain (quads without a graph used to ignore the current one).''',
  files=[DE], mech=[('dehydrate per layout kind', DE), ('Environment: scopes and instantiation', DE)], note=NOTE),
 dict(id='D02', title='Dehydration refuses values the layout does not describe',
  statement='''A value of another form than the layout, an unknown key, a missing required key, a sized list of another length, text that is
  no IRI where an identifier is expected, an undeclared variable, an unknown layout, a wrong number of inputs, or any of these in a nested
  value ends in the corresponding error; no such value is partly accepted.''',
  over=['inputs'], forall='every layout and value', why='The tests only write values that conform to their layout.',
  files=[DE], mech=[('case analysis of layout kind against value form', DE)], note=NOTE),
 dict(id='D03', title='Sums are written through the single variant that accepts the value',
  statement='''Writing a value through a sum layout writes it through the one variant that accepts it; if two variants accept it the result is
  an ambiguity error, if none does an incompatibility error, and nothing of a rejected variant remains in the output.''',
  over=['inputs'], forall='every sum layout and value, in any order of variants',
  why='No test writes a value that a variant rejects after having written part of it, or that two variants accept.',
  files=[DE], mech=[('variant selection when dehydrating', DE)], note=NOTE),
 dict(id='D04', title='Dehydrated resources get one term each, consistently',
  statement='''In the dataset returned by dehydrate every resource is replaced by one and the same term everywhere: its own term, the IRI or
  literal the value gives it, or else a generated one (input terms by index, fresh ones for introduced variables); two different terms for a
  resource are an ambiguity error; the terms of the inputs are returned in order, as many as the layout, the options or the default say.''',
  over=['inputs'], forall='every layout, value and options',
  why='Sharing of terms between quads, collisions of assigned terms and input counts only show on values with several resources per position.',
  files=[DE], mech=[('dehydrate: term assignment', DE), ('InputInterpretation', DE), ('Options', DE)], note=NOTE),
 dict(id='D05', title='Literals are written in their own value and datatype',
  statement='''A boolean, number or text is written as the lexical form of that very value with an IRI of the datatype its layout declares; a
  datatype that cannot represent it is an error, never a literal of another type or a crash.''',
  over=['inputs'], forall='every literal layout and value', why='Each literal type is written once in the tests, with the default datatype.',
  files=['layouts/src/distill/de/data.rs'], mech=[('literal writers', 'layouts/src/distill/de/data.rs')], note=NOTE),
dict(id='L01', title='Layout variables are numbered in declaration order and properly scoped',
  statement='''When a layout definition is compiled, every variable name stands for the innermost declaration in scope and gets the index of
  the slot that hydration and dehydration give it: inputs first, in order, then the layout's intros, then the intros of the enclosing field,
  item or variant. Nested layouts start without variables but keep the base IRI and prefixes; an undeclared variable is an error.''',
  over=['inputs'], forall='every layout definition', why='The sample layouts declare one or two variables each, without shadowing.',
  files=['layouts/src/abs/syntax/build.rs'], mech=[('Scope', 'layouts/src/abs/syntax/build.rs')], note=NOTE),
dict(id='L02', title='Compact IRIs, patterns and literals of a layout denote the right resources',
  statement='''In a layout definition a compact IRI denotes its expansion with the prefix in scope, an IRI without known prefix denotes itself, a
  relative reference is resolved against the base IRI (an error without one). Variables denote their index, literals keep their value and type,
  and quads and datasets are built component by component with nothing lost, added or reordered.''',
  over=['inputs'], forall='every pattern, quad and dataset of a layout definition', why='The sample layouts use a handful of prefixes and no relative IRI.',
  files=['layouts/src/abs/syntax/resource.rs', 'layouts/src/abs/syntax/dataset.rs', 'layouts/src/abs/syntax/pattern/compact_iri.rs'],
  mech=[('CompactIri::resolve', 'layouts/src/abs/syntax/pattern/compact_iri.rs'), ('Build for Pattern, Quad, Dataset', 'layouts/src/abs/syntax/dataset.rs')], note=NOTE),
dict(id='L03', title='Literal, record and sum definitions compile to the layout they describe',
  statement='''A literal, record or sum definition compiles to the layout of the same kind whose header, dataset, fields, variants, datatype,
  pattern and value formats are those it declares, each built in its own scope. Omitted parts take the documented defaults (first input as
  represented resource, xsd:boolean and xsd:string datatypes, `property` as a quad from the first input to the field, a bare layout as a
  format over the default variable); a default that cannot apply is an error.''',
  over=['inputs'], forall='every literal, record and sum definition', why='The sample layouts leave most of the optional parts out.',
  files=['layouts/src/abs/syntax/layout/literal.rs', 'layouts/src/abs/syntax/layout/product.rs', 'layouts/src/abs/syntax/layout/sum.rs',
         'layouts/src/abs/syntax/layout/mod.rs', 'layouts/src/abs/syntax/mod.rs'],
  mech=[('Build for literal layouts', 'layouts/src/abs/syntax/layout/literal.rs'), ('Build for ProductLayout', 'layouts/src/abs/syntax/layout/product.rs'),
        ('Build for SumLayout', 'layouts/src/abs/syntax/layout/sum.rs')], note=NOTE),
dict(id='L04', title='List definitions compile to the list layout they describe',
  statement='''A list definition compiles to the ordered, unordered or sized list layout it describes; head, tail, node, items, their intros and
  datasets are those declared. A list node without a dataset is an rdf:first/rdf:rest cell linking the head to its value and to the rest, and
  an item with a `property` is linked from the first input of the list.''',
  over=['inputs'], forall='every list definition', why='The tests define one list of each kind.',
  files=['layouts/src/abs/syntax/layout/list.rs'], mech=[('Build for list layouts', 'layouts/src/abs/syntax/layout/list.rs')], note=NOTE),
dict(id='L05', title='Every layout definition is registered once, under its own name',
  statement='''Compiling a layout definition registers every layout it contains under its IRI (resolved where it occurs) or, without one, under a
  fresh resource; a name already taken is reported as a redefinition, and the compiled collection holds exactly the registered layouts,
  each under its name and of its kind.''',
  over=['inputs', 'histories'], forall='every sequence of layout definitions given to a builder',
  why='The tests build one definition per builder, so no name is ever taken.',
  files=['layouts/src/abs/mod.rs', 'layouts/src/abs/syntax/layout/mod.rs', 'layouts/src/abs/layout/mod.rs', 'layouts/src/lib.rs'],
  mech=[('Build for Layout', 'layouts/src/abs/syntax/layout/mod.rs'), ('Builder', 'layouts/src/abs/mod.rs')], note=NOTE),
dict(id='S01', title='Each entry of a JSON definition is read into its own part of the definition',
  statement='''Reading a layout definition from JSON puts the value of each entry into the part of the definition it names, and nowhere else.
  Absent optional entries take the documented default (which differs from an entry given as null where null means something, as in the graph of a format);
  a missing mandatory entry, a duplicate entry and an entry the definition does not have are errors, reported at their position.''',
  over=['inputs'], forall='every JSON object given as a layout definition, with any subset of its entries',
  why='The sample layouts give each definition a few of its entries and never an unexpected, duplicate or ill-placed one.',
  files=['layouts/src/abs/syntax/layout/product.rs', 'layouts/src/abs/syntax/layout/sum.rs', 'layouts/src/abs/syntax/layout/list.rs',
         'layouts/src/abs/syntax/layout/literal.rs', 'layouts/src/abs/syntax/layout/mod.rs', 'layouts/src/abs/syntax/mod.rs'],
  mech=[('TryFromJson of layout definitions', 'layouts/src/abs/syntax/layout/mod.rs'), ('ObjectUnusedEntries', 'layouts/src/abs/syntax/mod.rs')], note=NOTE),
dict(id='S02', title='Each JSON form of a layout definition means one kind of definition',
  statement='''The kind of definition read from JSON is determined by its form alone: `true`/`false` for the always/never layouts, the "type" entry for all others,
  strings for references, compact IRIs, blank variables and datatypes, objects for literal patterns (typed, tagged or plain), arrays of three or four
  components for quads, one or several inputs and intros. Every other form is an error naming the position and kind found.''',
  over=['inputs'], forall='every JSON value given as (part of) a layout definition',
  why='The sample layouts are valid, so they exercise one accepted form each and no rejected one.',
  files=['layouts/src/abs/syntax/layout/mod.rs', 'layouts/src/abs/syntax/pattern/mod.rs', 'layouts/src/abs/syntax/pattern/literal.rs',
         'layouts/src/abs/syntax/dataset.rs', 'layouts/src/abs/syntax/mod.rs'],
  mech=[('TryFromJson for Layout', 'layouts/src/abs/syntax/layout/mod.rs'), ('TryFromJson for Pattern', 'layouts/src/abs/syntax/pattern/mod.rs'),
        ('TryFromJson for Quad', 'layouts/src/abs/syntax/dataset.rs')], note=NOTE),
dict(id='S03', title='A serialized layout definition reads back as the same definition',
  statement='''A layout definition is serialized with every part under the name it is read from, leaving out only parts at their default, and the serde reader
  and the JSON reader agree on names, forms and defaults: serializing a definition and reading the result with either gives the definition back,
  including language tags, explicit default graphs and absent resources.''',
  over=['inputs'], forall='every layout definition', why='No test serializes a layout definition.',
  files=['layouts/src/abs/syntax/layout/product.rs', 'layouts/src/abs/syntax/layout/sum.rs', 'layouts/src/abs/syntax/layout/list.rs',
         'layouts/src/abs/syntax/layout/literal.rs', 'layouts/src/abs/syntax/pattern/mod.rs', 'layouts/src/abs/syntax/mod.rs'],
  mech=[('Serialize/Deserialize of layout definitions', 'layouts/src/abs/syntax/layout/mod.rs'), ('Serialize for Pattern', 'layouts/src/abs/syntax/pattern/mod.rs')], note=NOTE),
dict(id='V01', title='Trees and JSON values correspond one to one',
  statement='''Reading a JSON value as a tree and writing a tree as a JSON value map null, booleans, numbers, strings, arrays and objects to the
  unit, booleans, numbers, text strings, lists and maps and back, keeping every item in order and every entry under its key; what JSON cannot
  hold (byte strings, non-string keys, numbers without finite decimal form) is an error naming it, never dropped or altered. Stripping the types of a typed
  value keeps the whole tree, and its type is the layout it was made with.''',
  over=['inputs'], forall='every JSON value and every tree', why='The tests convert the few trees of the examples, none with a byte string, a non-string key or nested emptiness.',
  files=['layouts/src/value/mod.rs'], mech=[('JSON conversions', 'layouts/src/value/mod.rs'), ('into_untyped, type_', 'layouts/src/value/mod.rs')], note=NOTE),
dict(id='V02', title='Trees survive serde serialization and deserialization',
  statement='''Serializing a tree emits for each form exactly its serde data form (all items in order, all entries with their keys, the announced length the real one);
  deserializing accepts each of these forms and gives the same form of tree back, refusing only floats that are not finite.''',
  over=['inputs'], forall='every tree and every serde data format', why='The tests use serde_json only, on the example trees.',
  files=['layouts/src/value/ser.rs', 'layouts/src/value/de.rs'], mech=[('Serialize', 'layouts/src/value/ser.rs'), ('ValueVisitor', 'layouts/src/value/de.rs')], note=NOTE),
dict(id='V03', title='CBOR keeps the whole tree and carries the tags layouts declare',
  statement='''Writing a (typed) value as CBOR gives every form its CBOR form, items in order and entries under their keys. Written with tags, each
  level carries the tag its own layout declares, around exactly its untagged content; the tag is the unsigned integer literal of the
  layout's tag property, absent without that property, and anything else there is an error rather than an untagged value.''',
  over=['inputs'], forall='every typed value and every tag property of its layouts', why='One test writes one tagged product; the tag of lists, variants and literals and the bad tags are never met.',
  files=['layouts/src/value/cbor/mod.rs', 'layouts/src/layout/mod.rs'], mech=[('CBOR conversions', 'layouts/src/value/cbor/mod.rs'), ('get_layout_tag', 'layouts/src/value/cbor/mod.rs')], note=NOTE),
dict(id='V04', title='Numbers keep their value and sign between formats',
  statement='''A number is read exactly from integers, finite floats and JSON numbers with or without exponent, and is written with its sign as an integer
  wherever it is one the target can hold, as CBOR bignum bytes of n or -1-n otherwise, as a decimal when it has a finite one, and refused by JSON if it
  has none.''',
  over=['inputs'], forall='every rational number', why='The tests convert small positive numbers; zero, negative, large, fractional and exponent forms used to fail.',
  files=['layouts/src/value/mod.rs', 'layouts/src/value/serde_cbor.rs'],
  mech=[('Number conversions', 'layouts/src/value/mod.rs'), ('Number to CBOR', 'layouts/src/value/cbor/mod.rs')], note=NOTE),
dict(id='R01', title='A registry returns the layout registered under that identifier',
  statement='''Looking a layout up in a collection, a reference to one, an optional one or a union gives the definition registered under that very identifier and
  nothing else (a union prefers its second member); a collection starts empty, keeps what is inserted and iterates over exactly that; typed references keep
  their resource through every cast; the dependencies of a layout are all the layouts its parts use, sorted and without duplicates.''',
  over=['inputs', 'histories'], forall='every registry, sequence of insertions and layout', why='The tests look up the layouts of one small collection and never combine, iterate or ask for dependencies.',
  files=['layouts/src/lib.rs', 'layouts/src/ref.rs', 'layouts/src/layout/mod.rs'], mech=[('LayoutRegistry', 'layouts/src/lib.rs'), ('Ref', 'layouts/src/ref.rs'), ('dependencies', 'layouts/src/layout/mod.rs')], note=NOTE),
dict(id='R02', title='The prelude defines every preset layout with the range of its name',
  statement='''The prelude contains exactly one definition for each preset layout IRI, of the kind its name says, integers with the XSD datatype of the same width and signedness;
  each preset IRI is recognised as its own preset and no other; every definition is built and found under its IRI.''',
  over=['programs'], forall='every preset layout', why='The tests only use the string prelude layout.',
  files=['layouts/src/prelude.rs', 'layouts/src/preset.rs', 'layouts/prelude/u8.json'], mech=[('Prelude', 'layouts/src/prelude.rs'), ('PresetLayout::from_iri', 'layouts/src/preset.rs')],
  note='Exact: every definition, IRI and variant is compared. That a definition parses and builds is covered by the rules on the readers and builder.'),
dict(id='C01', title='Commands process their whole input with the layout and data asked for',
  statement='''`tldr hydrate`, `dehydrate` and `convert` read standard input in the input format, use the layout asked for (or the single default one, none or several
  being errors) with all loaded layouts and the given subjects, and write the result, nothing else, to standard output in the output format with
  the asked-for printing; any failure on the way ends the command with an error and the failure exit status.''',
  over=['inputs'], forall='every command line and input', why='No test runs the command line tool.',
  files=['src/main.rs', 'src/rdf.rs'], mech=[('Command::run', 'src/main.rs'), ('DefaultLayoutRef', 'src/main.rs'), ('parse_term', 'src/rdf.rs')], note=NOTE),
dict(id='C02', title='All layout files are loaded together, each definition under its name',
  statement='''Every file given, positional or included, is parsed, read and built into one collection with one blank node generator; all layouts a file defines are registered under
  their names and a name defined by two files is an error; only positional files count for the default layout, each by its top layout; the prelude is available unless excluded;
  unreadable, ill-formed or unbuildable files are errors.''',
  over=['inputs', 'histories'], forall='every list of layout files', why='No test loads layout files through the tool, let alone several that interact.',
  files=['src/main.rs'], mech=[('run, load_layout', 'src/main.rs')], note=NOTE),
dict(id='C03', title='Each advertised format is read and written by its own codec',
  statement='''Every format name the tool advertises is accepted and selects its own format; reading parses the whole input with that format's parser and converts it, writing converts
  the whole value or every quad (one terminated statement per line) with that format's writer, and parser, conversion and writer errors are all reported.''',
  over=['inputs'], forall='every format name and input', why='No test covers the formats of the tool; a name advertised but not accepted panics.',
  files=['src/format/tree.rs', 'src/format/rdf.rs'], mech=[('TreeFormat', 'src/format/tree.rs'), ('RDFFormat', 'src/format/rdf.rs')], note=NOTE),
dict(id='G01', title='Derived code matches and instantiates patterns as the library does',
  statement='''In the runtime of derived serializers and deserializers, a pattern dataset is matched with every substitution that makes all its quads hold and no other,
  a variable having one value throughout; finding none or several is missing or ambiguous data; variable i is the i-th of the inputs then the introduced variables of each scope;
  introduced variables are fresh; a quad without graph is in the current graph; IRIs and literals are interned as they are.''',
  over=['inputs'], forall='every dataset, pattern, environment and vocabulary', why='The tests of treeldr-rs use patterns of one quad with one variable in the default graph.',
  files=['generators/rust/treeldr-rs/src/de/matching.rs', 'generators/rust/treeldr-rs/src/ser/environment.rs', 'generators/rust/treeldr-rs/src/rdf.rs'],
  mech=[('Matching', 'generators/rust/treeldr-rs/src/de/matching.rs'), ('Environment', 'generators/rust/treeldr-rs/src/ser/environment.rs'),
        ('select_inputs, select_graph', 'generators/rust/treeldr-rs/src/de/mod.rs')], note=NOTE),
dict(id='G02', title='Predefined datatypes read and write literals of their XSD datatype',
  statement='''Every predefined Rust type is read from, and only from, the literal of its own XSD datatype of the given resource: two such literals are ambiguous,
  an unreadable one is invalid, other literals mismatch and none is an error. It is written by giving that resource its lexical form with the same
  datatype; identifiers are read and written as that IRI or blank node.''',
  over=['inputs'], forall='every value, resource and set of literals', why='The tests read one literal each for a few types; second literals, other datatypes and tagged strings are never met.',
  files=['generators/rust/treeldr-rs/src/datatypes.rs'], mech=[('DeserializeLd, SerializeLd', 'generators/rust/treeldr-rs/src/datatypes.rs')], note=NOTE),
dict(id='G03', title='Derived deserializers read what the layout of their type describes',
  statement='''For each form of attribute (record, sum, set, list, tuple, unit, identifier, literal) the generated deserializer matches the dataset of the layout in the current graph,
  then of each part in its own scope, and reads the part from its own inputs in its own graph. Required fields and items must be there, optional fields may be absent, exactly one variant
  must fit, every match of an item is one item, list nodes are followed from head to tail; ambiguity is an error; terms unknown to the vocabulary
  match nothing.''',
  over=['inputs', 'programs'], forall='every dataset, for each construct the derive macro can generate', why='The tests derive four small types on one dataset each; most constructs did not compile or were wrong.',
  files=['generators/rust/treeldr-rs-macros/src/generate/de.rs', 'generators/rust/treeldr-rs-macros/src/parse.rs', 'generators/rust/treeldr-rs/src/de/mod.rs'],
  mech=[('generate::de', 'generators/rust/treeldr-rs-macros/src/generate/de.rs')],
  note='Exact for the types of /verif/witness, which use every construct with its options; the constructs combine independently in the generator. ' + NOTE),
dict(id='G04', title='Derived serializers write what the layout of their type describes',
  statement='''For each form of attribute the generated serializer introduces the variables of the layout as fresh resources, writes its dataset in the current graph, then for each part of the value,
  in its own scope, the dataset of the part and the part itself on its own inputs in its own graph; absent optional fields write nothing; exactly the variant
  of the value, every item, and the nodes of lists linked from head to tail are written; identifiers and literals are given to the resource declared by the layout.''',
  over=['inputs', 'programs'], forall='every value, for each construct the derive macro can generate', why='The tests serialize four small types in the default graph; several constructs did not compile or were wrong.',
  files=['generators/rust/treeldr-rs-macros/src/generate/ser.rs', 'generators/rust/treeldr-rs-macros/src/parse.rs', 'generators/rust/treeldr-rs/src/ser/environment.rs'],
  mech=[('generate::ser', 'generators/rust/treeldr-rs-macros/src/generate/ser.rs')],
  note='Exact for the types of /verif/witness, which use every construct with its options; the constructs combine independently in the generator. ' + NOTE),
dict(id='G05', title='Types generated from layout files mean what the layouts say',
  statement='''A type generated from a layout file (by `tldr("...")`, `tldr_include!` or the generator program) serializes and deserializes exactly as the layout describes: same inputs and
  introduced variables, same datasets (graph component included), same inputs and graph of every field, variant, item and list node, same head and tail, same kind, resource and
  datatype of literals. Its parts have the types of the layouts they refer to (presets, other generated types, types of other modules); optional fields are optional. It is named
  after the IRI of the layout unless a name was given.''',
  over=['inputs', 'programs'], forall='every value of the generated types, for each kind of layout', why='Only two layout files are ever generated from in the tests, and the code is compared to nothing.',
  files=['generators/rust/generator/src/lib.rs', 'generators/rust/generator/src/utils.rs', 'generators/rust/treeldr-rs-macros/src/lib.rs'],
  mech=[('treeldr_gen_rust::generate', 'generators/rust/generator/src/lib.rs')],
  note='The generated code is decided for the layout files of /verif/witness/layouts, which use every kind of layout the generator supports with its options. Always, never, number and byte string layouts are generated as types that do not exist (see DESIGN.md) and are not covered. ' + NOTE),
dict(id='X01', title='Automata of text patterns accept the language of their expression',
  statement='''The automaton built from a regular expression accepts exactly the strings the expression denotes, also after minimization and mapping.''',
  over=['inputs'], forall='every regular expression and string', why='Tests cannot enumerate strings.', files=['layouts/src/abs/regexp.rs', 'layouts/src/utils/automaton.rs'],
  mech=[('RegExp::build', 'layouts/src/abs/regexp.rs'), ('Automaton', 'layouts/src/utils/automaton.rs')], note=NOTE),
dict(id='X02', title='Hydration and dehydration terminate',
  statement='''Reading any finite dataset and writing any finite value ends.''',
  over=['inputs'], forall='every layout, dataset and value', why='Termination is not observable by a finite number of runs.', files=[HY, DE],
  mech=[('list traversal', HY)], note=NOTE),
dict(id='X03', title='Decimal expansions have the digits of the number',
  statement='''The decimal representation of a rational number with a finite decimal expansion denotes that very number.''',
  over=['inputs'], forall='every rational number', why='Only a handful of numbers are tested.', files=['layouts/src/value/mod.rs'],
  mech=[('decimal_representation', 'layouts/src/value/mod.rs')], note=NOTE),
]

NA = [
 ('X01', 'Equality of the languages of a regular expression and of the automaton built from it ranges over unboundedly many strings and states; no static argument in reach decides it without executing or solving.'),
 ('X02', 'Termination depends on data (a cyclic list is followed for ever) and on ranking arguments over graphs, which no dataflow fact bounds.'),
 ('X03', 'That long division produces the right digits is arithmetic over unbounded values; V04 decides signs, forms and the ends of the expansion only.'),
]
