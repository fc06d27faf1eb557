"""Which rules decide which property."""
from rules import ab, cli, de, gen, hy, prim, reg, sx, val

ASSUMPTIONS = [
    'std, serde and the rdf_types/grdf collections behave as documented (modelled by name in sa/models.py)',
    'dependencies are the locked versions in /repo/Cargo.lock',
    'functions of other crates without a model are treated as uninterpreted: equal arguments, equal results',
]

RULES = {
    'H01': [hy.unique, prim.matching],
    'H02': [prim.withquad, prim.matching, prim.patterns],
    'H03': [hy.scope, hy.inputs, prim.substitutions],
    'H04': [hy.graphs, prim.default_graph],
    'H05': [hy.compose],
    'H06': [hy.sums, hy.sum_matches],
    'H07': [hy.ordered, hy.list_nodes],
    'H08': [hy.literals, hy.literal_matches],
    'H09': [hy.lookup, prim.input_count, prim.registry],
    'D01': [de.quads, de.environment],
    'D02': [de.strict, de.lookup],
    'D03': [de.sums, de.isolated],
    'D04': [de.terms],
    'D05': [de.literals],
    'L01': [ab.scopes],
    'L02': [ab.names],
    'L03': [ab.layouts, ab.sums],
    'L04': [ab.lists],
    'L05': [ab.nodes, ab.builder],
    'S01': [sx.entries, sx.helpers, sx.defaults],
    'S02': [sx.types, sx.forms, sx.literals],
    'S03': [sx.writing, sx.deserializing, sx.strings],
    'V01': [val.json_in, val.json_out, val.untyped],
    'V02': [val.serde_in, val.serde_out],
    'V03': [val.cbor, val.tagged, val.tag],
    'V04': [val.numbers],
    'R01': [reg.lookups, reg.collections, reg.dependencies, reg.refs, prim.registry],
    'R02': [reg.prelude],
    'C01': [cli.commands, cli.default, cli.terms],
    'C02': [cli.loading, cli.load_layout],
    'C03': [cli.formats],
    'G01': [gen.runtime_matching, gen.runtime_scope, gen.runtime_selection, gen.runtime_terms],
    'G02': [gen.datatype_reading, gen.datatype_writing],
    'G03': [gen.derived_de],
    'G04': [gen.derived_ser],
    'G05': [gen.generated, gen.generated_types, gen.generated_names],
}
