//! Types whose serializers and deserializers are generated by the derive
//! macros of the repository.  Nothing here is ever run: the generated functions
//! are analysed.
#![allow(dead_code, unused)]
use treeldr::{iref, rdf_types, AsId, DeserializeLd, SerializeLd};

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:type", "_:x"), ("_:x", "ex:in", "ex:o", "ex:g")))]
pub struct Record {
	#[tldr("ex:foo")]
	a_required: String,
	#[tldr("ex:bar")]
	b_optional: Option<u32>,
	#[tldr(intro("v"), dataset(("_:x", "ex:p", "_:v")), input("_:v", "_:self"), graph(None))]
	c_outside: Pair,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:type", "_:x")))]
pub struct Graphs {
	#[tldr(intro("v"), dataset(("_:self", "ex:q", "_:v")), input("_:v"), graph(Some("_:x")))]
	d_graph: Option<String>,
	#[tldr(intro("v"), dataset(("_:self", "ex:q", "_:v", "_:x")), input("_:v"), graph(Some("ex:g")))]
	e_named: String,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"), input("a", "b"), dataset(("_:a", "ex:pair", "_:b")))]
pub struct Pair {
	#[tldr(intro("v"), dataset(("_:b", "ex:v", "_:v")), input("_:v"), graph(_))]
	value: String,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:s", "_:x")))]
pub enum Sum {
	#[tldr(dataset(("_:self", "ex:foo", "_:x")))]
	Foo(String),
	#[tldr(intro("y"), dataset(("_:x", "ex:bar", "_:y")), input("_:y"), graph(Some("_:x")))]
	Bar(u64),
	#[tldr(input("_:x", "_:self"), graph(None))]
	Baz(Pair),
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:s", "_:x")))]
pub struct Set(#[tldr(intro("i"), dataset(("_:x", "ex:item", "_:i")), input("_:i"), graph(Some("_:i")))] Vec<String>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "http://example.org/#"), input("first", "last"), intro("x"), head("_:first"), tail("_:last"), dataset(("_:first", "ex:l", "_:x")))]
pub struct List(
	#[tldr(head("h"), rest("r"), intro("i"), dataset(("_:h", "ex:item", "_:i"), ("_:h", "ex:next", "_:r")), input("_:i"), graph(None))]
	Vec<u8>,
);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
pub struct DefaultList(Vec<String>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:t", "_:x")))]
pub struct Tuple(
	#[tldr("ex:fst")] String,
	#[tldr(intro("i"), dataset(("_:x", "ex:item", "_:i")), input("_:i"), graph(Some("_:x")))] i16,
	#[tldr(input("_:x", "_:self"), graph(None))] Pair,
);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(id, prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:id", "_:x")), resource("_:x"))]
pub struct Id(rdf_types::Id);

impl AsId for Id {
	fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
		self.0.as_lexical_id_ref()
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:unit", "_:x")))]
pub struct Unit;

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:b", "_:x")), resource("_:x"))]
pub struct Boolean(bool);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, datatype("ex:num"), prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:b", "_:x")), resource("_:x"))]
pub struct Number(i32);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(string, datatype("ex:text"), prefix("ex" = "http://example.org/#"), intro("x"), dataset(("_:self", "ex:b", "_:x")), resource("_:x"))]
pub struct Text(String);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, prefix("ex" = "http://example.org/#"))]
pub struct Single(#[tldr(intro("i"), dataset(("_:self", "ex:v", "_:i")), input("ex:constant", "_:i"))] Pair);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record)]
pub struct Empty {}

// The same forms with their other options: relative IRIs, several inputs,
// properties and everything optional left out.

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record, base("http://example.org/"), input("self", "b"), dataset(("_:self", "#r", "_:b")))]
pub struct BRecord {
	#[tldr("#x")]
	x: u8,
	#[tldr("#y", graph(None))]
	y: Option<Pair1>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, base("http://example.org/"), prefix("a" = "http://example.org/#a", "b" = "http://example.org/#b"))]
pub struct Pair1(#[tldr("a:x")] String, #[tldr("b:x", graph(Some("#g")))] String);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(sum, base("http://example.org/"), input("self", "b"), intro("c", "d"), dataset(("_:b", "#c", "_:c"), ("_:c", "#d", "_:d")))]
pub enum BSum {
	#[tldr(intro("y", "z"), dataset(("_:c", "#y", "_:y"), ("_:d", "#z", "_:z")), input("_:z"))]
	One(i8),
	#[tldr(input("_:d"))]
	Two(String),
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, base("http://example.org/"), input("self", "b"), intro("c"), dataset(("_:b", "#c", "_:c")))]
pub struct BSet(#[tldr("#item")] Vec<u16>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, base("http://example.org/"), input("self", "b"), intro("c"), dataset(("_:b", "#c", "_:c")), head("_:c"), tail("#end"))]
pub struct BList(#[tldr(intro("x", "y"), dataset(("_:head", "#x", "_:x"), ("_:b", "#y", "_:y"), ("_:head", "#n", "_:rest")), input("_:y"), graph(Some("_:x")))] Vec<i64>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, base("http://example.org/"), input("self", "b"), intro("c"), dataset(("_:b", "#c", "_:c")))]
pub struct BTuple(#[tldr("#p")] u8, #[tldr("#q", graph(None))] Pair1);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(id, base("http://example.org/"), input("self", "b"), dataset(("_:self", "#c", "_:b")))]
pub struct BId(rdf_types::Id);

impl AsId for BId {
	fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
		self.0.as_lexical_id_ref()
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(unit, base("http://example.org/"), input("self", "b"), dataset(("_:self", "#c", "_:b")))]
pub struct BUnit;

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, base("http://example.org/"), datatype("#bool"), input("self", "b"), dataset(("_:self", "#c", "_:b")))]
pub struct BBoolean(bool);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, base("http://example.org/"), datatype("#num"), input("self", "b"), dataset(("_:self", "#c", "_:b")))]
pub struct BNumber(u64);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(string, base("http://example.org/"), input("self", "b"), dataset(("_:self", "#c", "_:b")))]
pub struct BText(String);

// Types generated from layout files.

#[treeldr::tldr("layouts/unit.json", "layouts/record.json", "layouts/sum.json", "layouts/set.json", "layouts/list.json", "layouts/tuple.json", "layouts/id.json", "layouts/boolean.json", "layouts/text.json")]
pub mod generated {}

#[treeldr::tldr("layouts/ext.json")]
pub mod extended {
	#[tldr("http://example.org/")]
	use super::generated;
}

pub mod included {
	treeldr::tldr_include!("layouts/ints.json");
}
