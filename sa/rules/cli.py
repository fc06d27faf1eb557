"""The `tldr` command: formats, loading of layouts, choice of the layout, commands."""
import json
from contract import *
from rules.prim import simple

T = 'tldr'


def foreign(*own):
    """Everything outside the command line tool, and the named functions of the tool."""
    return lambda g: g.crate != T or g.name in own


def fun(ctx, name, has, crate=T):
    fs = [f for f in ctx.prog.find(crate=crate, name=name) if not f.derived and has in f.path]
    if len(fs) != 1:
        raise Anchor('expected one %s in %s, found %d' % (name, has, len(fs)))
    return fs[0]


IO = {'stdio::stdin': lambda a: 'stdin', 'stdio::stdout': lambda a: 'stdout', 'BufReader::new': lambda a: a[0], 'BTreeDataset::into_indexed': lambda a: a[0],
      'Stdin::lock': lambda a: a[0], 'Stdout::lock': lambda a: a[0]}


def commands(ctx, rep):
    rep.rule('commands', 'each command reads its input in the input format, works with the chosen layout and subjects on all loaded layouts, writes the '
             'result in the output format, and any failure on the way is the failure of the command')
    f = fun(ctx, 'run', '::Command::')
    op = foreign('run', 'get', 'load', 'write', 'write_typed', 'write_untyped')
    h, d = 'self:Hydrate', 'self:Dehydrate'
    ld = 'RDFFormat::load(%s.input, stdin)' % h
    ref = 'DefaultLayoutRef::get(default_layout, %s.layout)' % h
    hy = 'hy::hydrate(layouts, %s?, %s?, %s.subjects)' % (ld, ref, h)
    wr = 'TreeFormat::write_typed(%s.output, layouts, %s?, %s.pretty, stdout)' % (h, hy, h)
    dld = 'TreeFormat::load(%s.input, stdin)' % d
    dref = 'DefaultLayoutRef::get(default_layout, %s.layout)' % d
    de = 'de::dehydrate(layouts, %s?, %s?, Default::default())' % (dld, dref)
    dwr = 'RDFFormat::write(%s.output, %s?.0, stdout)' % (d, de)
    err = lambda k, x: 'Err(Error::%s(%s:Err))' % (k, x)
    simple(ctx, rep, 'Command::run', f, ('self', 'layouts', 'default_layout'), [
        ('hydrate', {'self': 'Hydrate'}, ['Err(%s:Err)' % ref, err('LoadRdf', ld), err('Hydrate', hy), err('CreateTree', wr), 'Ok(%s?)' % wr]),
        ('dehydrate', {'self': 'Dehydrate'}, ['Err(%s:Err)' % dref, err('LoadTree', dld), err('Dehydrate', de), err('IO', dwr), 'Ok(%s?)' % dwr]),
        ('convert', {'self': 'Convert'}, ['Convert::run(self:Convert.command)']),
    ], opaque_fn=lambda g: op(g) and g is not f, fmt=IO)
    c = fun(ctx, 'run', '::Convert::')
    tl, rl = 'TreeFormat::load(self:Tree.input, stdin)', 'RDFFormat::load(self:Rdf.input, stdin)'
    tw, rw = 'TreeFormat::write_untyped(self:Tree.output, %s?, self:Tree.pretty, stdout)' % tl, 'RDFFormat::write(self:Rdf.output, %s?, stdout)' % rl
    simple(ctx, rep, 'Convert::run', c, ('self',), [
        ('tree', {'self': 'Tree'}, [err('LoadTree', tl), err('CreateTree', tw), 'Ok(%s?)' % tw]),
        ('rdf', {'self': 'Rdf'}, [err('LoadRdf', rl), err('IO', rw), 'Ok(%s?)' % rw]),
    ], opaque_fn=lambda g: op(g) and g is not c, fmt=IO)
    f = [f for f in ctx.prog.find(crate=T, name='main') if f.path == 'tldr::main']
    if len(f) != 1:
        raise Anchor('main of the command line tool is missing')
    rn = 'tldr::run(SimpleFiles::new(), Parser::parse())'
    simple(ctx, rep, 'main', f[0], (), [('success', {rn: 'Ok'}, ['SUCCESS']), ('failure', {rn: 'Err'}, ['FAILURE'])],
           opaque_fn=foreign('run', 'into_diagnostic'), fmt=IO, abbrev=[('ExitCode::', '')])


def default(ctx, rep):
    rep.rule('default-layout', 'the layout used is the one asked for; without one, the only layout given on the command line; none or several '
             'are an error')
    g = fun(ctx, 'get', '::DefaultLayoutRef::')
    p = 'preferred_layout'
    simple(ctx, rep, 'DefaultLayoutRef::get', g, ('self', p), [
        ('asked for', {p: 'Some'}, ['Ok(Ref::new(%s!))' % p]),
        ('none', {p: 'None', 'self': 'None'}, ['Err(Error::NoDefaultLayout)']),
        ('one', {p: 'None', 'self': 'Some'}, ['Ok(self!)']),
        ('several', {p: 'None', 'self': 'Ambiguous'}, ['Err(Error::AmbiguousDefaultLayout)']),
    ], opaque_fn=foreign())
    s = fun(ctx, 'set', '::DefaultLayoutRef::')
    for k, w, o in (('first', 'None', 'DefaultLayoutRef::Some(layout_ref)'), ('second', 'Some', 'DefaultLayoutRef::Ambiguous'), ('third', 'Ambiguous', 'self')):
        c = Contract('DefaultLayoutRef::set', s, ('self', 'layout_ref'), cells=(1,))
        alt = {'() ; self=' + o}
        if o == 'self':
            alt.add('() ; self=DefaultLayoutRef::Ambiguous')
            c.check(ctx, rep, k, {'self': w}, {'sub': alt})
        else:
            c.check(ctx, rep, k, {'self': w}, {'out': alt})


def loading(ctx, rep):
    rep.rule('loading', 'every layout file named on the command line is loaded into one collection; only the positional ones count for the '
             'default layout; the prelude is added unless excluded; the command runs on all of them')
    f = [f for f in ctx.prog.find(crate=T, name='run') if f.path == 'tldr::run']
    if len(f) != 1:
        raise Anchor('tldr::run is missing')
    f = f[0]
    op = foreign('run', 'load_layout', 'set', 'get')
    names_ = ('DefaultLayoutRef::set', 'tldr::load_layout', 'Command::run')
    add = 'SimpleFiles::add(files, Path::to_string_lossy(args.%s[]), fs::read_to_string(args.%s[])?)'
    for case, when, pre in (('with the prelude', {'args.no_prelude': False}, 'Some(Prelude)'), ('without the prelude', {'args.no_prelude': True}, 'None')):
        s = Scenario(ctx.prog, f, names(f, ('files', 'args')), when, (), lambda g: op(g) and g is not f, watch=set(names_))
        rep.fns |= s.eng.analysed
        rep.count('scenarios')
        s.canon.show(s.when, s.fn)
        ev = {n: [[sorted(unmark(s.canon(a)) for a in alts(v)) for v in e.args] for e in s.events(n)] for n in names_}
        bad = lambda k, m: rep.fail('run/%s: %s' % (case, k), m, f.span)
        ld = {}
        for e in ev['tldr::load_layout']:
            if len(e) != 4:
                raise Anchor('load_layout takes %d parameters, expected 4' % len(e))
            for x in e[1]:
                ld.setdefault(x, []).append(e)
        rep.obligations += 8
        for k in ('layouts', 'include'):
            es = ld.pop(add % (k, k), [])
            if not es:
                bad('%s not loaded' % k, 'the files given as %s are not loaded' % k)
                continue
            for i, what in ((2, 'collection'), (3, 'blank node generator')):
                if not any('load_layout#%d(' % i in x for e in es for x in e[i]):
                    bad('%s: own %s' % (k, what), 'the files given as %s do not share the %s of the other files' % (k, what))
        if k == 'include' and 'args.layouts[]' not in ''.join(x for e in es for x in e[2]):
            bad('include: own collection', 'included layouts are not added to the other layouts')
        for x in sorted(ld):
            bad('loads %s' % x, 'a layout file is loaded from %s' % x)
        st = [x for e in ev['DefaultLayoutRef::set'] for x in e[1]]
        if not st:
            bad('default layout never set', 'the positional layouts are not considered for the default layout')
        for x in st:
            if not x.startswith('tldr::load_layout(files, ' + add % ('layouts', 'layouts')):
                bad('default layout from elsewhere', 'the default layout is set to %s' % x[:200])
        cr = ev['Command::run']
        if not cr:
            bad('command not run', 'the command is never run')
        for e in cr:
            if e[0] != ['args.command!']:
                bad('other command', 'the command run is %s' % e[0])
            for x in e[1]:
                w = re.match(r'^LayoutRegistry::(with|into_with)\((.*), %s\)$' % re.escape(pre), x)
                if not w or 'load_layout#2(' not in w.group(2) or 'args.include[]' not in w.group(2) or 'args.layouts[]' not in w.group(2):
                    bad('command on other layouts', 'the command does not run on all loaded layouts %s' % case)
        if cr and not any('DefaultLayoutRef::set#0(' in x for e in cr for x in e[2]):
            bad('command without default layout', 'the command is not given the default layout')
        outs = s.summary([])
        rep.obligations += len(outs)
        heads = set()
        for x in outs:
            m = re.match(r'^(Ok\(\(\)\)$|Command::run\(|Err\(Error::IO\(fs::read_to_string\(args\.(layouts|include)\[\]\):Err\)\)$|Err\(tldr::load_layout\()', x)
            if not m:
                bad('result %s' % x[:120], 'the tool can end with %s' % x[:200])
            else:
                heads.add(m.group(1)[:60])
        if len(heads) != 5:
            bad('results', 'the tool has results of %d kinds, expected 5: no command, the command, unreadable files, load errors' % len(heads))
        for w, want in (('None', 'Ok(())'), ('Some', 'Command::run(')):
            s2 = Scenario(ctx.prog, f, names(f, ('files', 'args')), dict(when, **{'args.command': w}), (), lambda g: op(g) and g is not f)
            rep.obligations += 1
            for x in s2.summary([]):
                if not x.startswith((want, 'Err(Error::IO(fs::', 'Err(tldr::load_layout(')):
                    bad('command %s: %s' % (w, x[:60]), 'with command %s the tool can end with %s' % (w, x[:200]))


def load_layout(ctx, rep):
    rep.rule('load-layout', 'a layout file is parsed, read and built, every layout it defines is added under its name, redefinitions are refused, and its '
             'top layout is returned')
    f = fun(ctx, 'load_layout', 'tldr::')
    src = 'Parse::parse_str(SimpleFile::source(SimpleFiles::get(files, file_id)?))'
    tr = 'Layout::try_from_json(JSON?.0, JSON?.1)'
    B, X = 'Builder::with_generator_mut(Builder::new(), generator)', 'Builder::with_generator_mut#0(Builder::new(), generator)'
    bl = 'Layout::build_with_context(%s?, %s)' % (tr, B)
    ab2 = [(src, 'JSON'), (re.compile(r'(one0\()?(IntoIterator::into_iter\()?Builder::build\(%s\)\)*(\[\])?' % re.escape(X)), 'ITEM'), ('Ref::into_id(ITEM.0)', 'ITEM.0'),
           ('Ref::into_id(ITEM[].0)', 'ITEM.0'), ('ITEM[]', 'ITEM')]
    simple(ctx, rep, 'load_layout', f, ('files', 'file_id', 'layouts', 'generator'), [
        ('all', {}, ['Err(Error::JsonSyntax(file_id, JSON:Err))', 'Err(Error::LayoutSyntax(file_id, JSON?.1, %s:Err))' % tr,
                     'Err(Error::LayoutBuild(file_id, %s:Err))' % bl, 'Err(Error::LayoutBuild(file_id, BuildError::LayoutRedefinition))', 'Ok(%s?)' % bl]),
    ], opaque_fn=lambda g: g.crate != T, abbrev=ab2)
    c = Contract('load_layout', f, ('files', 'file_id', 'layouts', 'generator'), opaque_fn=lambda g: g.crate != T, abbrev=ab2, ev=('Layouts::insert',))
    s = c.check(ctx, rep, 'insertions', {}, {})
    got = set()
    s.canon.show(s.when, s.fn)
    for e in s.events('Layouts::insert'):
        for k in alts(e.args[1]):
            for v in alts(e.args[2]):
                got.add(c.short('%s => %s' % (unmark(s.canon(k)), unmark(s.canon(v)))))
    rep.obligations += 1
    if got != {'ITEM.0 => ITEM.1'}:
        rep.fail('load_layout/insertions: %s' % ' '.join(sorted(got)), 'the layouts of a file are registered as %s' % sorted(got), f.span)
    old = re.compile(r'^Layouts::insert\(.*\)\.1$')
    for case, v, want in (('new name', 'None', False), ('name taken', 'Some', True)):
        def h(x, t, st):
            return v if old.match(x) else None
        s = c.run(ctx, {}, h)
        red = any('LayoutRedefinition' in x for x in s.summary([]))
        rep.obligations += 1
        if red != want:
            rep.fail('load_layout/%s: redefinition' % case, 'a layout under a %s is %s as a redefinition' % (case, 'reported' if red else 'not reported'), f.span)


def formats(ctx, rep):
    rep.rule('formats', 'each format name the tool advertises selects its own format; reading and writing a format use that format\'s parser and writer '
             'on the whole data, and report their errors')
    for ty, forms in (('TreeFormat', {'Json': ('json', 'application/json'), 'Cbor': ('cbor', 'application/cbor')}),
                      ('RDFFormat', {'NQuads': ('nq', 'nquads', 'n-quads', 'application/n-quads')})):
        new = fun(ctx, 'new', '::%s::' % ty)
        pv = fun(ctx, 'POSSIBLE_VALUES', '::%s::' % ty)
        vals = set()
        for x in Scenario(ctx.prog, pv, {}, {}).summary([]):
            vals |= set(json.loads(m.group(0)) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', x))
        want = {n: k for k, ns in forms.items() for n in ns}
        rep.obligations += len(vals | set(want))
        for n in sorted(vals ^ set(want)):
            rep.fail('%s/%s: name' % (ty, n), 'the format name "%s" is %s' % (n, 'unknown to the rule' if n in vals else 'no longer accepted'), pv.span)

        def hook(n):
            def h(s, t, st):
                if t.op != 'eq':
                    return None
                xs = re.findall(r'"((?:[^"\\]|\\.)*)"', s)
                return xs[0] == n if len(xs) == 1 and 'name' in s else None
            return h
        simple(ctx, rep, ty + '::new', new, ('name',), [(n, hook(n), ['Some(%s::%s)' % (ty, k)]) for n, k in sorted(want.items())] +
               [('other', hook('text/turtle'), ['None'])])
        pa = fun(ctx, 'parser', '::%s::' % ty)
        simple(ctx, rep, ty + '::parser', pa, (), [('any', {}, ['TypedValueParser::map(PossibleValuesParser::new(POSSIBLE_VALUES), closure)'])],
               opaque_fn=lambda g: g.name == 'POSSIBLE_VALUES')
        cl = [g for g in ctx.prog.find(crate=T) if g.path.startswith(pa.path + '::{closure')]
        for g in cl:
            simple(ctx, rep, ty + '::parser, value', g, None, [('any', {}, ['%s::new(%s)?' % (ty, names(g)[2])])], opaque_fn=lambda g: g.name == 'new',
                   fmt={'Deref::deref': lambda a: a[0]}, abbrev=[(re.compile(r'\)[!?]$'), ')?')])
        d = fun(ctx, 'as_str', '::%s::' % ty)
        simple(ctx, rep, ty + '::as_str', d, ('self',), [(k, {'self': k}, ['"%s"' % [n for n in ns if '/' in n][0]]) for k, ns in sorted(forms.items())])
    op = lambda g: g.crate != T
    P = 'Parse::parse_utf8(UnsafeDecoder::new(Read::bytes(input)))'
    fr = {'From::from': lambda a: 'tree(%s)' % a[0], 'Into::into': lambda a: 'tree(%s)' % a[0]}
    f = fun(ctx, 'load', '::TreeFormat::')
    simple(ctx, rep, 'TreeFormat::load', f, ('self', 'input'), [
        ('JSON', {'self': 'Json'}, ['Err(LoadError::Json(%s:Err))' % P, 'Ok(tree(%s?.0))' % P]),
        ('CBOR', {'self': 'Cbor'}, ['Err(LoadError::Cbor(de::from_reader(input):Err))', 'Ok(de::from_reader(input)?)']),
    ], opaque_fn=op, fmt=fr)
    pr = lambda x, k: 'Write::write_fmt(output, Print::%s_print(%s))' % (k, x)
    ti = 'json(%s)'
    fj = {'TryFrom::try_from': lambda a: ti % a[0], 'TryInto::try_into': lambda a: ti % a[0]}
    f = fun(ctx, 'write_typed', '::TreeFormat::')
    j = ti % 'TypedValue::into_untyped(value)'
    tg = 'TypedValue::try_into_tagged_serde_cbor(value, layouts)'
    both = lambda x: [c for p, k in ((True, 'pretty'), (False, 'compact')) for c in [('JSON ' + k, {'self': 'Json', 'pretty': p}, [
        'Err(WriteError::NonJsonValue(%s:Err))' % x, 'Err(WriteError::IO(%s:Err))' % pr(x + '?', k), 'Ok(%s?)' % pr(x + '?', k)])]]
    simple(ctx, rep, 'TreeFormat::write_typed', f, ('self', 'layouts', 'value', 'pretty', 'output'), both(j) + [
        ('CBOR', {'self': 'Cbor'}, ['Err(WriteError::CborTag(%s:Err))' % tg, 'Err(WriteError::Cbor(ser::to_writer(output, %s?):Err))' % tg,
                                    'Ok(ser::to_writer(output, %s?)?)' % tg])], opaque_fn=op, fmt=fj)
    f = fun(ctx, 'write_untyped', '::TreeFormat::')
    simple(ctx, rep, 'TreeFormat::write_untyped', f, ('self', 'value', 'pretty', 'output'), both(ti % 'value') + [
        ('CBOR', {'self': 'Cbor'}, ['Err(WriteError::Cbor(ser::to_writer(output, value):Err))', 'Ok(ser::to_writer(output, value)?)'])], opaque_fn=op, fmt=fj)
    f = fun(ctx, 'load', '::RDFFormat::')
    simple(ctx, rep, 'RDFFormat::load', f, ('self', 'input'), [('N-Quads', {'self': 'NQuads'}, [
        'Err(LoadError::NQuads(%s:Err))' % P, 'Ok(seq[nquads_syntax::strip_quad(%s?[])*])' % P])], opaque_fn=op, fmt={'Meta::into_value': lambda a: a[0], '@journal': {('BTreeDataset::insert', 0): lambda a: a[0], ('DatasetMut::insert', 0): lambda a: a[0]}},
           abbrev=[('..BTreeDataset::new(), ', ''), ('..Default::default(), ', '')])
    f = fun(ctx, 'write', '::RDFFormat::')
    w = 'Write::write_fmt(lv{Write::write_fmt#0(^, concat(dataset[], " .\\n"))|output}, concat(dataset[], " .\\n"))'
    simple(ctx, rep, 'RDFFormat::write', f, ('self', 'dataset', 'output'), [('N-Quads', {'self': 'NQuads'}, ['Err(%s:Err)' % w, 'Ok(())'])], opaque_fn=op)


def terms(ctx, rep):
    rep.rule('cli-terms', 'a term on the command line is a blank node if it has the form of one, an IRI if it has the form of one, and otherwise refused')
    f = fun(ctx, 'parse_term', 'tldr::rdf')
    b, i = 'BlankId::new(input)', 'Iri::new(input)'
    simple(ctx, rep, 'parse_term', f, ('input',), [
        ('blank node', {b: 'Ok', i: 'Err'}, ['Ok(Term::blank(%s?))' % b]), ('IRI', {b: 'Err', i: 'Ok'}, ['Ok(Term::iri(%s?))' % i]),
        ('neither', {b: 'Err', i: 'Err'}, ['Err(InvalidTerm(input))'])], opaque_fn=lambda g: g.crate != T)
