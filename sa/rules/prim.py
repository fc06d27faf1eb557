"""Patterns, substitutions, pattern matching: the primitives hydration and the
layouts rest on."""
from contract import *

L = 'treeldr_layouts'


def simple(ctx, rep, key, root, params, cases, opaque=(), cells=(), fn=None, opaque_fn=None, fmt=None, bases=(), base=None, ev=(), abbrev=()):
    k = ('simple', key)
    if k not in ctx.cache:
        ctx.cache[k] = Contract(key, root, params, opaque, opaque_fn, bases, base, fn, None, fmt, cells, ev, abbrev)
    c = ctx.cache[k]
    for name, when, spec in cases:
        f = None
        if callable(when):
            f, when = when, {}
        if not isinstance(spec, dict):
            spec = {'out': spec}
        c.check(ctx, rep, name, when, spec, f)
    return c


def patterns(ctx, rep):
    rep.rule('pattern-apply', 'applying a substitution to a pattern keeps resources, replaces bound variables by the resource bound to them '
             'and leaves unbound variables as they are')
    f = ctx.fn(crate=L, name='apply', adt='Pattern', trait=False)
    g = 'get(substitution.0, self:Var)'
    simple(ctx, rep, 'Pattern::apply', f, ('self', 'substitution'), [
        ('resource', {'self': 'Resource'}, ['self']),
        ('bound variable', {'self': 'Var', g: 'Some', g + '!': 'Some'}, ['Pattern::Resource(%s!!)' % g]),
        ('unbound variable', {'self': 'Var', g: 'Some', g + '!': 'None'}, ['self']),
        ('undeclared variable', {'self': 'Var', g: 'None'}, ['self']),
    ])
    simple(ctx, rep, 'Pattern::into_resource', ctx.fn(crate=L, name='into_resource', adt='Pattern', trait=False), ('self',), [
        ('resource', {'self': 'Resource'}, ['Some(self:Resource)']),
        ('variable', {'self': 'Var'}, ['None']),
    ])
    simple(ctx, rep, 'Pattern::as_ref', ctx.fn(crate=L, name='as_ref', adt='Pattern', trait=False), ('self',), [
        ('resource', {'self': 'Resource'}, ['self']), ('variable', {'self': 'Var'}, ['self'])])
    for f in [f for f in ctx.prog.find(crate=L, name='from') if f.trait_ref and 'pattern::Pattern<' in f.trait_ref and 'ResourceOrVar' in str(f.self_ty)]:
        simple(ctx, rep, 'Pattern into matcher pattern', f, ('self',), [
            # a matcher pattern has the same two forms: the canonical form of the rebuilt value is the value itself
            ('resource', {'self': 'Resource'}, ['self']),
            ('variable', {'self': 'Var'}, ['self'])])


def substitutions(ctx, rep):
    rep.rule('substitution', 'a substitution binds the inputs in order, declares new variables after the existing ones, unbound, and gives '
             'back what was bound')
    A = 'Substitution'
    simple(ctx, rep, 'Substitution::from_inputs', ctx.fn(crate=L, name='from_inputs', adt=A), ('inputs',),
           [('inputs', {}, ['Substitution(seq[Some(inputs[])*])'])])
    simple(ctx, rep, 'Substitution::get', ctx.fn(crate=L, name='get', adt=A), ('self', 'i'), [
        ('declared', {'get(self.0, i)': 'Some'}, ['get(self.0, i)!']), ('undeclared', {'get(self.0, i)': 'None'}, ['None'])])
    rs = 'len(self.0) ; self=self{0:=resized(self.0, count+len(self.0), None)}'
    simple(ctx, rep, 'Substitution::intro', ctx.fn(crate=L, name='intro', adt=A), ('self', 'count'), [
        ('intro', {}, [(rs, 'len(self.0) ; self=self{0:=seq[..self.0, None*]}')]),
        ('intro none', {'more(Range{end: count, start: 0})': 'None'}, [(rs, 'len(self.0) ; self=self{0:=seq[..self.0]}', 'len(self.0) ; self=self')]),
    ], cells=(1,))
    simple(ctx, rep, 'Substitution::push', ctx.fn(crate=L, name='push', adt=A), ('self', 'value'), [
        ('push', {}, ['len(self.0) ; self=self{0:=seq[..self.0, value]}'])], cells=(1,))
    simple(ctx, rep, 'Substitution::set', ctx.fn(crate=L, name='set', adt=A), ('self', 'x', 'value'), [
        ('set', {}, ['self.0[x] ; self=self{0:=self.0{[x]:=value}}'])], cells=(1,))
    simple(ctx, rep, 'Substitution::len', ctx.fn(crate=L, name='len', adt=A), ('self',), [('len', {}, ['len(self.0)'])])


def withquad(ctx, rep, crate=L, key='with_quad'):
    rep.rule('with-quad', 'matching a quad binds each variable component to the corresponding component of the quad, and fails exactly when '
             'a variable is already bound to something else')
    f = ctx.fn(crate=crate, name='with_quad', adt='Substitution')
    P = ['pattern.0', 'pattern.1', 'pattern.2', 'pattern.3!']
    V = ['value.0', 'value.1', 'value.2', 'value.3!']

    def setf(a):
        return 'SET(%s, %s, %s)' % tuple(a) if len(a) == 3 else None
    for mask in range(16):
        on = [i for i in range(4) if mask >> i & 1]
        base = {}
        for i in range(3):
            base[P[i]] = 'Var' if i in on else 'Resource'
        gname = ['var'] if 3 in on else ['resource', 'none']
        for g in gname:
            w = dict(base)
            w['pattern.3'] = 'None' if g == 'none' else 'Some'
            w['pattern.3!'] = 'Var' if g == 'var' else 'Resource'
            w['value.3'] = 'Some'
            subst = 'self'
            olds = []
            for i in on:
                olds.append((i, 'Substitution::set(%s, %s:Var, Some(%s))' % (subst, P[i], V[i])))
                subst = 'Substitution::set#0(%s, %s:Var, Some(%s))' % (subst, P[i], V[i])
            nm = '/'.join(str(i) for i in on) + ' ' + g
            w1 = dict(w)
            for i, o in olds:
                w1[o] = 'None'
            simple(ctx, rep, key, f, ('self', 'pattern', 'value'), [('fresh variables at ' + nm, w1, ['Some(%s)' % subst])],
                   opaque={'Substitution::set'})
            for j, o in olds:
                w2 = dict(w1)
                w2[o] = 'Some'

                def eqf(b):
                    def h(s, t, st):
                        if t.op == 'eq' and o + '!' in s:
                            return b
                        return None
                    return h
                simple(ctx, rep, key, f, ('self', 'pattern', 'value'), [], opaque={'Substitution::set'})
                c = ctx.cache[('simple', key)]
                c.check(ctx, rep, 'same binding at %d of %s' % (j, nm), w2, {'out': ['Some(%s)' % subst]}, eqf(True))
                c.check(ctx, rep, 'other binding at %d of %s' % (j, nm), w2, {'out': ['None']}, eqf(False))


def matching(ctx, rep, crate=L):
    rep.rule('matching', 'pattern matching enumerates, depth first, every extension of the initial substitution under which all quad '
             'patterns occur in the dataset, each once')
    f = ctx.fn(crate=crate, name='new', adt='Matching')
    simple(ctx, rep, crate + ' Matching::new', f, ('dataset', 'substitution', 'patterns'), [
        ('new', {}, ['Matching{dataset: dataset, stack: seq[State{quad_state: None, rest: patterns, substitution: substitution}]}'])])
    f = ctx.fn(crate=crate, name='next', adt='Matching')

    def case(last_, quad=None, m=None, w=None, rest=None):
        def h(s, t, st):
            if t.op == 'some_last':
                return last_
            if s.endswith('.stack[last].quad_state'):
                return quad
            if t.op == 'next' and s.endswith('.quad_matching)'):
                return m
            if t.op == 'next' and s.endswith('.rest)'):
                return rest
            if s.startswith('Substitution::with_quad('):
                return w
            if s.endswith('.rest[].3'):
                return 'Some'
            return None
        return h
    S = '^.stack[last]'
    a = [('PatternMatchingDataset::quad_pattern_matching', 'qpm'), ('Substitution::with_quad', 'WQ')]
    QS = lambda b: '%s{stack:=%s.stack{[last]:=%s.stack[last]{quad_state:=Some(QuadState{pattern: %s.stack[last].rest[], quad_matching: ' \
        'qpm(self.dataset, matching::quad_matching_pattern(%s.stack[last].rest[]))})}}}' % ((b,) * 5)
    PUSH = lambda b: '%s{stack:=seq[..%s.stack, State{quad_state: None, rest: %s.stack[last].rest, substitution: WQ(%s.stack[last].substitution, ' \
        '%s.stack[last].quad_state!.pattern, %s.stack[last].quad_state!.quad_matching[])!}]}' % ((b,) * 6)
    POP = lambda b: '%s{stack:=popped(%s.stack)}' % (b, b)
    st = lambda f_: (1, ['self', f_('^')])
    simple(ctx, rep, crate + ' Matching::next', f, ('self',), [
        ('a quad matches and agrees with the bindings', case('Some', 'Some', 'Some', 'Some'), {'out': [], 'steps': st(PUSH)}),
        ('a quad matches but contradicts the bindings', case('Some', 'Some', 'Some', 'None'), {'out': [], 'steps': (1, [])}),
        ('no more quad for the current pattern', case('Some', 'Some', 'None'), {'out': [], 'steps': st(POP)}),
        ('next pattern', case('Some', 'None', rest='Some'), {'out': [], 'steps': st(QS)}),
        ('all patterns matched', case('Some', 'None', rest='None'),
            {'out': ['Some(self.stack[last].substitution) ; self=self{stack:=popped(self.stack)}']}),
        ('search space exhausted', case('None'), {'out': ['None ; self=self']}),
    ], opaque={'Substitution::with_quad', 'matching::quad_matching_pattern'}, cells=(1,), abbrev=a)
    f = ctx.fn(crate=crate, name='quad_matching_pattern')
    simple(ctx, rep, crate + ' quad_matching_pattern', f, ('p',), [
        ('named graph', {'p.3': 'Some'}, ['CanonicalQuadPattern::from_pattern(p)']),
        ('default graph', {'p.3': 'None'}, ['CanonicalQuadPattern::from_pattern(p)']),
    ], fmt={})
    f = ctx.fn(crate=crate, name='into_unique', adt='Matching')
    simple(ctx, rep, crate + ' Matching::into_unique', f, ('self',), [
        ('no match', {'next0(self)': 'None'}, ['Ok(None)']),
        ('one match', {'next0(self)': 'Some', 'next1(self)': 'None'}, ['Ok(Some(one0(self)))']),
        ('several matches', {'next0(self)': 'Some', 'next1(self)': 'Some'}, ['Err(Error::Ambiguity)']),
    ], opaque={'Iterator::next'})
    f = ctx.fn(crate=crate, name='into_required_unique', adt='Matching')
    simple(ctx, rep, crate + ' Matching::into_required_unique', f, ('self',), [
        ('no match', {'next0(self)': 'None'}, ['Err(Error::Empty)']),
        ('one match', {'next0(self)': 'Some', 'next1(self)': 'None'}, ['Ok(one0(self))']),
        ('several matches', {'next0(self)': 'Some', 'next1(self)': 'Some'}, ['Err(Error::Ambiguity)']),
    ], opaque={'Iterator::next'})


def default_graph(ctx, rep):
    rep.rule('default-graph', 'a quad pattern without graph is looked up in the current graph, one with a graph in that graph; the other '
             'components are untouched')
    f = ctx.fn(crate=L, name='next', adt='QuadsWithDefaultGraph')
    q = 'self.quads[]'
    m = {'more(self.quads)': 'Some'}
    simple(ctx, rep, 'QuadsWithDefaultGraph::next', f, ('self',), [
        ('end', {'more(self.quads)': 'None'}, ['None']),
        ('explicit graph', dict(m, **{q + '.3': 'Some'}), ['Some(%s)' % q]),
        ('current named graph', dict(m, **{q + '.3': 'None', 'self.graph': 'Some'}),
            ['Some(%s{3:=Some(Pattern::Resource(self.graph!))})' % q]),
        ('current default graph', dict(m, **{q + '.3': 'None', 'self.graph': 'None'}), ['Some(%s)' % q]),
    ])
    f = ctx.fn(crate=L, name='with_default_graph', trait='QuadsExt')
    simple(ctx, rep, 'with_default_graph', f, ('self', 'graph'), [('wrap', {}, ['QuadsWithDefaultGraph{graph: graph, quads: self}'])])


def input_count(ctx, rep):
    rep.rule('input-count', 'the declared number of inputs of a layout is the one of its definition: any number for the top and '
             'bottom layouts')
    f = ctx.fn(crate=L, name='input_count', adt='Layout')
    cases = [('Never', {'self': 'Never'}, ['None']), ('Always', {'self': 'Always'}, ['None']), 
             ('Product', {'self': 'Product'}, ['Some(self:Product.input)']), ('Sum', {'self': 'Sum'}, ['Some(self:Sum.input)'])]
    cases.append(('Id', {'self': 'Literal', 'self:Literal': 'Id'}, ['Some(self:Literal:Id.input)']))
    for k in ('Unit', 'Boolean', 'Number', 'ByteString', 'TextString'):
        cases.append((k, {'self': 'Literal', 'self:Literal': 'Data', 'self:Literal:Data': k}, ['Some(self:Literal:Data:%s.input)' % k]))
    for k in ('Unordered', 'Ordered', 'Sized'):
        cases.append(('List ' + k, {'self': 'List', 'self:List': k}, ['Some(self:List:%s.input)' % k]))
    simple(ctx, rep, 'Layout::input_count', f, ('self',), cases)


def registry(ctx, rep):
    rep.rule('registry', 'looking a layout up returns the definition registered under that very identifier; a union of registries prefers '
             'its second member and falls back on the first')
    f = ctx.fn(crate=L, name='get', adt='LayoutRegistryUnion', trait='LayoutRegistry')
    g = 'LayoutRegistry::get(self.%d, id)'
    simple(ctx, rep, 'LayoutRegistryUnion::get', f, ('self', 'id'), [
        ('second has it', {g % 1: 'Some'}, ['Some(%s!)' % (g % 1)]),
        ('only first may have it', {g % 1: 'None'}, [g % 0]),
    ])
