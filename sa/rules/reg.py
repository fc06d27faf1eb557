"""Collections of layouts: registration, lookup, dependencies, the prelude."""
import json
from contract import *
from rules.prim import simple, L

REF = {'intrinsics::transmute': lambda a: a[0]}


def lookups(ctx, rep):
    rep.rule('lookups', 'every registry answers with the definition registered under the very identifier asked for, and contains exactly '
             'the identifiers it has a definition for')
    dr = 'DerefResource::deref_resource'
    simple(ctx, rep, 'Layouts::deref_resource', ctx.fn(crate=L, name='deref_resource', adt='Layouts'), ('self', 'r'), [
        ('any', {}, ['get(self.layouts, r.0)'])])
    simple(ctx, rep, 'Layouts::layout', ctx.fn(crate=L, name='layout', adt='Layouts'), ('self', 'id'), [('any', {}, ['get(self.layouts, id)'])])
    for f in ctx.fns(2, crate=L, name='get', adt='Layouts'):
        simple(ctx, rep, 'Layouts::get' + (' (registry)' if f.trait_ref else ''), f, ('self', 'id'), [('any', {}, [dr + '(self, id)'])])
    by = {str(f.self_ty): f for f in ctx.prog.find(crate=L, name='get') if not f.derived and 'LayoutRegistry' in (f.trait_ref or '')}
    g = 'LayoutRegistry::get(self%s, id)'
    for ty, f in sorted(by.items()):
        if ty.startswith('&'):
            simple(ctx, rep, '&registry::get', f, ('self', 'id'), [('any', {}, [g % ''])])
        elif 'Option<' in ty:
            simple(ctx, rep, 'Option<registry>::get', f, ('self', 'id'), [
                ('present', {'self': 'Some'}, [g % '!']), ('absent', {'self': 'None'}, ['None'])])
    has = [f for f in ctx.prog.find(crate=L, name='contains') if not f.derived and 'LayoutRegistry' in (f.path + (f.trait_ref or ''))]
    rep.obligations += 1
    if not has:
        raise Anchor('no LayoutRegistry::contains')
    for f in has:
        ty = str(f.self_ty or '')
        c, x = 'LayoutRegistry::contains(self%s, id)', '!' if 'Option<' in ty else ''
        own = {'self': 'Some'} if x else {}
        cs = [('there', dict(own, **{g % x: 'Some', c % x: True}), ['true']), ('not there', dict(own, **{g % x: 'None', c % x: False}), ['false'])]
        if x:
            cs.append(('absent', {'self': 'None'}, ['false']))
        simple(ctx, rep, 'contains of ' + (ty or 'any registry'), f, ('self', 'id'), cs)
    for n in ('with', 'into_with'):
        f = [f for f in ctx.prog.find(crate=L, name=n) if not f.derived and 'LayoutRegistry' in f.path]
        if len(f) != 1:
            raise Anchor('expected one LayoutRegistry::%s, found %d' % (n, len(f)))
        simple(ctx, rep, 'LayoutRegistry::' + n, f[0], ('self', 'other'), [('any', {}, ['LayoutRegistryUnion(other, self)'])])


def collections(ctx, rep):
    rep.rule('collections', 'a collection starts empty, keeps each definition under the identifier it is inserted with, hands the previous one '
             'back, and iterates over exactly its definitions')
    fn = lambda name: ctx.fn(crate=L, name=name, adt='Layouts')
    simple(ctx, rep, 'Layouts::new', fn('new'), (), [('any', {}, ['Layouts{layouts: seq[]}'])])
    simple(ctx, rep, 'Layouts::default', fn('default'), (), [('any', {}, ['Layouts{layouts: seq[]}'])])
    r = 'Ref(id, PhantomData)'
    out = '(%s, BTreeMap::insert(self.layouts, id, %s)) ; self=self{layouts:=seq[..self.layouts, id => %s]}'
    for n, ps, v in (('insert', ('self', 'id', 'layout'), 'layout'), ('insert_with', ('self', 'id', 'builder'), 'fnptr(builder, %s)' % r)):
        c = Contract('Layouts::' + n, fn(n), ps, cells=(1,))
        c.check(ctx, rep, 'any', {}, {'out': [out % (r, v, v)]})
    simple(ctx, rep, 'Layouts::iter', fn('iter'), ('self',), [('any', {}, ['LayoutsIter(self.layouts)'])])
    its = [f for f in ctx.prog.find(crate=L, name='into_iter') if not f.derived and 'Layouts<' in str(f.self_ty)]
    if len(its) != 2:
        raise Anchor('expected two IntoIterator for Layouts, found %d' % len(its))
    for f in its:
        b = str(f.self_ty).startswith('&')
        simple(ctx, rep, 'Layouts::into_iter' + (' (borrowed)' if b else ''), f, ('self',), [
            ('any', {}, ['LayoutsIter(self.layouts)' if b else 'LayoutsIntoIter(self.layouts)'])])
    for a, k in (('LayoutsIter', '(self.0[].0, self.0[].1)'), ('LayoutsIntoIter', '(self.0[], self.0[].1)')):
        simple(ctx, rep, a + '::next', ctx.fn(crate=L, name='next', adt=a), ('self',), [
            ('end', {'more(self.0)': 'None'}, ['None']), ('entry', {'more(self.0)': 'Some'}, ['Some(%s)' % k])],
            fmt=REF, abbrev=[('(Ref(self.0[].0, PhantomData), ', '(self.0[], ')])


def dependencies(ctx, rep):
    rep.rule('dependencies', 'the dependencies of a layout are the layouts of all its fields, variants and items, sorted and without duplicates')
    f = ctx.fn(crate=L, name='dependencies', adt='Layout')
    ab = [(re.compile(r'(Vec|slice)::(dedup|sort|sort_unstable)#0\('), r'\2('), ('sort_unstable(', 'sort(')]
    d = 'dedup(seq[sorted seq[%s]])'
    simple(ctx, rep, 'Layout::dependencies', f, ('self',), [
        ('never', {'self': 'Never'}, [d % '']), ('always', {'self': 'Always'}, [d % '']), ('literal', {'self': 'Literal'}, [d % '']),
        ('product', {'self': 'Product'}, [d % 'self:Product.fields[].1.value.layout*']),
        ('sum', {'self': 'Sum'}, [d % 'self:Sum.variants[].value.layout*']),
        ('ordered list', {'self': 'List', 'self:List': 'Ordered'}, [d % 'self:List:Ordered.node.value.layout']),
        ('unordered list', {'self': 'List', 'self:List': 'Unordered'}, [d % 'self:List:Unordered.item.value.layout']),
        ('sized list', {'self': 'List', 'self:List': 'Sized'}, [d % 'self:List:Sized.items[].value.layout*']),
    ], abbrev=ab)


def refs(ctx, rep):
    rep.rule('refs', 'changing the type of a reference never changes the resource it refers to')
    R = 'Ref(%s, PhantomData)'
    fn = lambda n: ctx.fn(crate=L, name=n, adt='Ref')
    same = [('Ref(self.0, PhantomData)', 'self')]
    simple(ctx, rep, 'Ref::new', fn('new'), ('id',), [('any', {}, [R % 'id'])])
    simple(ctx, rep, 'Ref::new_ref', fn('new_ref'), ('id',), [('any', {}, ['id'])], fmt=REF)
    for n in ('id', 'into_id'):
        simple(ctx, rep, 'Ref::' + n, fn(n), ('self',), [('any', {}, ['self.0'])])
    for n in ('cast', 'casted', 'as_casted'):
        simple(ctx, rep, 'Ref::' + n, fn(n), ('self',), [('any', {}, ['self'])], fmt=REF, abbrev=same)
    simple(ctx, rep, 'Ref::map', fn('map'), ('self', 'f'), [('any', {}, [R % 'fnptr(f, self.0)'])])


XSD = {'u8': 'unsignedByte', 'u16': 'unsignedShort', 'u32': 'unsignedInt', 'u64': 'unsignedLong',
       'i8': 'byte', 'i16': 'short', 'i32': 'int', 'i64': 'long'}
NS = 'https://treeldr.org/prelude#'
KINDS = dict({k: {'type': 'number', 'datatype': 'http://www.w3.org/2001/XMLSchema#' + v} for k, v in XSD.items()},
             unit={'type': 'unit'}, boolean={'type': 'boolean'}, string={'type': 'string'}, id={'type': 'id'})


def strings(prog, f, seen=None):
    """String literals of a constant, transitively through the constants it names."""
    s = Scenario(prog, f, names(f), {})
    out = []
    for x in s.summary([]):
        out += [json.loads(m.group(0).replace('\\\'', '\'')) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', x)]
    return out


def prelude(ctx, rep):
    rep.rule('prelude', 'the prelude holds exactly the preset layouts, each with the type (and the XSD datatype of its range) its name says, and '
             'every one of them is built and found under its IRI')
    c = [f for f in ctx.prog.find(crate=L, name='LAYOUTS') if f.path.endswith('::prelude::LAYOUTS')]
    if len(c) != 1:
        raise Anchor('the definitions of the prelude (prelude::LAYOUTS) are missing')
    c = c[0]
    defs = {}
    for s in strings(ctx.prog, c):
        try:
            d = json.loads(s)
            i = d.pop('id')
        except Exception as e:
            rep.fail('prelude: unreadable definition', 'a definition of the prelude is not a JSON object with an id (%s): %.80s' % (e, s), c.span)
            continue
        if i in defs:
            rep.fail('prelude/%s: duplicate' % i, 'the prelude defines %s twice' % i, c.span)
        defs[i] = d
    rep.count('definitions', len(defs))
    for k, want in sorted(KINDS.items()):
        rep.obligations += 1
        got = defs.pop(NS + k, None)
        if got != want:
            rep.fail('prelude/%s: definition' % k, 'the prelude layout %s is %s instead of %s' % (k, json.dumps(got), json.dumps(want)), c.span)
    for i in sorted(defs):
        rep.fail('prelude/%s: not a preset' % i, 'the prelude defines %s, which is no preset layout' % i, c.span)
    # preset IRIs
    f = ctx.fn(crate=L, name='from_iri', adt='PresetLayout')
    const = {g.name: strings(ctx.prog, g) for g in ctx.prog.find(crate=L) if '::preset::' in g.path and g.name.isupper() and g.mir['argc'] == 0}

    def hook(iri):
        def h(s, t, st):
            if t.op != 'eq':
                return None
            xs = re.findall(r'"((?:[^"\\]|\\.)*)"', s) + [v for n in re.findall(r'\b[A-Z][A-Z0-9_]+\b', s) for v in const.get(n, ())]
            return xs[0] == iri if len(xs) == 1 else None
        return h
    cs = [(k, hook(NS + k), ['Some(PresetLayout::%s)' % k.capitalize()]) for k in sorted(KINDS)]
    simple(ctx, rep, 'PresetLayout::from_iri', f, ('iri',), cs + [('other IRI', hook('https://example.org/'), ['None'])])
    # building
    op = lambda g: g.name in ('build', 'build_with_interpretation', 'build_with', 'LAYOUTS')
    fs = 'de::from_str(LAYOUTS[])?'
    for n, callee in (('build', 'build'), ('build_with', 'build_with_interpretation')):
        f = ctx.fn(crate=L, name=n, adt='Prelude')
        s = Scenario(ctx.prog, f, names(f), {}, (), lambda g: op(g) and g is not f)
        rep.fns |= s.eng.analysed
        outs = s.summary([])
        rep.obligations += 1
        acc = re.compile(r'^Builder::build\(lv\{Builder\{layouts: seq\[\]\}\|Layout::%s#\d\(\^\d?, %s' % (callee, re.escape(fs)))
        for x in outs:
            if not acc.match(x):
                rep.fail('Prelude::%s: result' % n, 'Prelude::%s returns %s, not the layouts built from every definition' % (n, x[:200]), f.span)
    f = ctx.fn(crate=L, name='get', adt='Prelude')
    simple(ctx, rep, 'Prelude::get', f, ('self', 'id'), [('any', {}, ['DerefResource::deref_resource(BUILT, id)'])],
           opaque_fn=lambda g: g.name == 'build', abbrev=[(re.compile(r'Prelude::build(\(\))?'), 'BUILT')])
