From ee8d504178d713d76feb29cd1672b1170f15ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:38 +0000
Subject: [PATCH 01/30] fix: match sum variants with their own intro variables
 when hydrating

---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..4b50aa6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From 6e3b43eceb74586b8d2b8f49253fe8f38f8d9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 02/30] fix: report ambiguous and unmatched sum variants
 instead of panicking when hydrating

---
 layouts/src/distill/hy/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4b50aa6..cee033c 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -294,14 +294,14 @@ where
 						);
 
 						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
+							Ok(value) => match selected.take() {
+								Some((_j, _other_value)) => {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Discriminant(layout_ref.clone()),
+									)))
 								}
-							}
+								None => selected = Some((i, value)),
+							},
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -315,9 +315,7 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::IncompatibleLayout),
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From 186e25ae7052d03a18397c33c1f11996cd028d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:18 +0000
Subject: [PATCH 03/30] fix: report ambiguous and missing IRIs instead of
 panicking when hydrating identifiers

---
 layouts/src/distill/hy/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index cee033c..92ec991 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,7 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::NoMatchingLiteral),
 					}
 				}
 			}
-- 
2.43.0


From b39bd594032863c13c1b9b65c16a29282b95e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:18 +0000
Subject: [PATCH 04/30] fix: report ambiguous, language-tagged and ill-typed
 literals instead of panicking

---
 layouts/src/distill/hy/data.rs | 40 ++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..98b65cd 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral)
 	}
 }
 
@@ -241,9 +241,7 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 				let decimal = value.value();
 				Ok(decimal.into_big_rational().into())
 			}
-			Err(_) => {
-				todo!()
-			}
+			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
-- 
2.43.0


From 9b14e1ee66254f3db506e82f14b08dcac0a77acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 05/30] fix: keep the quads of rejected variants out of the
 dehydrated dataset

---
 layouts/src/distill/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..1ce8cca 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -684,7 +684,7 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
 				)
 				.is_ok() && selection.replace(variant_dataset).is_some()
 				{
-- 
2.43.0


From 9ca90cfb973c188228f589d9183e3143915e7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 06/30] fix: dehydrate quads without graph into the current
 graph

---
 layouts/src/distill/de/mod.rs | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 1ce8cca..e5b6e63 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -955,6 +959,7 @@ impl<R: Clone> Environment<'_, R> {
 	pub fn instantiate_dataset<Q, D>(
 		&self,
 		input: &BTreeDataset<Pattern<Q>>,
+		current_graph: Option<&R>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
 	where
@@ -962,7 +967,8 @@ impl<R: Clone> Environment<'_, R> {
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			let Quad(s, p, o, g) = self.instantiate_quad(quad)?;
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 
 		Ok(())
-- 
2.43.0


From 58f2d6f125a0fef89e8091e202b88f25a33cfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 07/30] fix: report unsupported literal datatypes instead of
 panicking when dehydrating

---
 layouts/src/distill/de/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..2417c34 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,7 +54,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
@@ -85,6 +85,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout),
 	}
 }
-- 
2.43.0


From 492fa0b4aa0b913a8e9802b23bb09e9cef8858c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:07 +0000
Subject: [PATCH 08/30] fix: keep the language tag of literal patterns when
 deserializing layouts

---
 layouts/src/abs/syntax/pattern/literal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..2cb008b 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -59,8 +59,10 @@ impl From<rdf_types::Literal> for LiteralValue {
 )]
 #[serde(untagged)]
 pub enum LiteralType {
-	Iri(LiteralTypeIri),
+	// Must come first: the `type` entry of `Iri` is optional, so `Iri` would
+	// also match (and lose) language tags.
 	Language(LiteralTypeLanguage),
+	Iri(LiteralTypeIri),
 }
 
 impl Default for LiteralType {
-- 
2.43.0


From 7bfab53982eacbd5cd640ed4bb212777315dceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:12 +0000
Subject: [PATCH 09/30] fix: read literal patterns without type nor language as
 plain strings

---
 layouts/src/abs/syntax/pattern/literal.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 2cb008b..a38e8fe 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -29,11 +29,12 @@ impl LiteralValue {
 				LiteralType::Iri(LiteralTypeIri { type_: ty })
 			}
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
-- 
2.43.0


From b6d481df47b68445651ffedd0f201d7229165813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:27 +0000
Subject: [PATCH 10/30] fix: do not serialize absent resources of literal
 layouts as null

---
 layouts/src/abs/syntax/layout/literal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..c788371 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -253,6 +253,7 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -346,6 +347,7 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -415,6 +417,7 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -487,6 +490,7 @@ pub struct TextStringLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -568,6 +572,7 @@ pub struct IdLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 }
 
-- 
2.43.0


From 19088cfb9a3df7e721bfa58c150fe9a9cf6dc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:51 +0000
Subject: [PATCH 11/30] fix: keep explicit default graphs (null) when reading
 layouts

---
 layouts/src/abs/mod.rs               | 9 +++++++++
 layouts/src/abs/syntax/layout/sum.rs | 9 ++++++---
 layouts/src/abs/syntax/mod.rs        | 9 ++++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/mod.rs b/layouts/src/abs/mod.rs
index 30109ee..f9b2b46 100644
--- a/layouts/src/abs/mod.rs
+++ b/layouts/src/abs/mod.rs
@@ -114,3 +114,12 @@ pub struct BuilderWithInterpretationMut<'a, V, I: Interpretation> {
 fn is_false(b: &bool) -> bool {
 	!*b
 }
+
+/// Deserializes a nullable entry, without mistaking `null` for a missing entry.
+fn deserialize_nullable<'de, D, T>(deserializer: D) -> Result<Option<Option<T>>, D::Error>
+where
+	D: serde::Deserializer<'de>,
+	T: serde::Deserialize<'de>,
+{
+	serde::Deserialize::deserialize(deserializer).map(Some)
+}
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..2485ee7 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -209,7 +209,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		skip_serializing_if = "Option::is_none",
+		deserialize_with = "crate::abs::deserialize_nullable"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -239,8 +243,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..3a3e06f 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -503,7 +503,11 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		skip_serializing_if = "Option::is_none",
+		deserialize_with = "crate::abs::deserialize_nullable"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -520,8 +524,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
-- 
2.43.0


From c786abe0bc37477f1b0341306a5e0133d845c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:16 +0000
Subject: [PATCH 12/30] fix: give anonymous layouts identifiers the builder
 does not know yet

---
 layouts/src/abs/mod.rs          | 5 +++++
 layouts/src/abs/syntax/build.rs | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/mod.rs b/layouts/src/abs/mod.rs
index f9b2b46..a46df0a 100644
--- a/layouts/src/abs/mod.rs
+++ b/layouts/src/abs/mod.rs
@@ -73,6 +73,11 @@ impl<R: Clone + Eq + Ord> Builder<R> {
 		(layout_ref, old_layout)
 	}
 
+	/// Checks if a layout is registered under the given identifier.
+	pub fn contains(&self, id: &R) -> bool {
+		self.layouts.contains_key(id)
+	}
+
 	pub fn get_or_insert_with(
 		&mut self,
 		layout_ref: Ref<LayoutType, R>,
diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..3d766c9 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,13 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		loop {
+			// The generator does not know the layouts built previously.
+			let id = Term::Id(self.generator.next(&mut ()));
+			if !self.builder.contains(&id) {
+				break id;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From ba15dc5861bba24e17625ebd06c1c3d6921d6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:21 +0000
Subject: [PATCH 13/30] fix: do not panic when converting the number zero to
 serde and CBOR values

---
 layouts/src/value/cbor/serde_cbor.rs | 2 +-
 layouts/src/value/mod.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..2da10a4 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -141,7 +141,7 @@ impl From<Number> for serde_cbor::Value {
 		match value.as_integer() {
 			Some(i) => {
 				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
+					let unsigned = i.iter_u64_digits().next().unwrap_or(0) as i128;
 
 					let signed = if i.is_positive() { unsigned } else { -unsigned };
 
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..5447bc2 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -69,7 +69,7 @@ impl Number {
 				}
 				Sign::NoSign | Sign::Plus => {
 					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
+						NativeNumber::U64(n.iter_u64_digits().next().unwrap_or(0))
 					} else {
 						NativeNumber::F64(self.0.to_f64().unwrap())
 					}
-- 
2.43.0


From 29edc869c34b49ee306b4134cc1e372c7f71260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:21 +0000
Subject: [PATCH 14/30] fix: write a single minus sign in the decimal
 representation of negative numbers

---
 layouts/src/value/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 5447bc2..6d2c458 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -111,7 +111,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer() / self.0.denom()).abs().to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From ee1b7cec375bfdf25a845016d66dde3303637505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 15/30] fix: encode negative CBOR bignums as the bytes of -1 -
 n

---
 layouts/src/value/cbor/serde_cbor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index 2da10a4..dbcff93 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::Signed;
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -147,9 +147,14 @@ impl From<Number> for serde_cbor::Value {
 
 					serde_cbor::Value::Integer(signed)
 				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+					// A negative bignum `n` is represented by the bytes of `-1 - n`.
+					let (tag, (_, bytes)) = if i.is_positive() {
+						(2, i.to_bytes_be())
+					} else {
+						(3, (-1i32 - i).to_bytes_be())
+					};
+
+					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(bytes)))
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From 128f318ca8241dbef9737025515be2fc97d8ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:53 +0000
Subject: [PATCH 16/30] fix: write the constant of a unit layout to CBOR, as is
 done for JSON

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index dbcff93..8b586d7 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From 3127717baf00ab74c2b6d35ccb55cef3a56791e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:37 +0000
Subject: [PATCH 17/30] fix: accept JSON numbers with an exponent instead of
 panicking

---
 layouts/src/value/mod.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 6d2c458..44b7d64 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -35,6 +35,21 @@ impl Number {
 		Self(rational)
 	}
 
+	/// Parses a JSON number, which unlike an XSD decimal may have an exponent.
+	fn from_json(value: &str) -> Self {
+		let (mantissa, exponent) = match value.split_once(['e', 'E']) {
+			Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().unwrap()),
+			None => (value, 0),
+		};
+
+		let mantissa: BigRational = xsd_types::Decimal::parse_xsd(mantissa)
+			.ok()
+			.unwrap()
+			.into();
+
+		Self(mantissa * BigRational::from_integer(TEN.clone()).pow(exponent))
+	}
+
 	pub fn is_integer(&self) -> bool {
 		self.0.is_integer()
 	}
@@ -187,34 +202,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_json(&value.to_string())
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_json(value.as_str())
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_json(value.as_str())
 	}
 }
 
-- 
2.43.0


From 64d877fa8c983e4a3852f72c81381661e0ccf856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:10 +0000
Subject: [PATCH 18/30] fix: report ambiguous string literals when
 deserializing a String

---
 generators/rust/treeldr-rs/src/datatypes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..8e9543e 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,19 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		result.ok_or(DeserializeError::MissingData)
 	}
 }
 
-- 
2.43.0


From 90bb22b4cc7a4248f6f981c6c036c8fee98dd029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 19/30] fix: generate a compiling serializer for values in an
 explicit graph

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..c0fd8a5 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -182,7 +182,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -245,7 +245,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -292,7 +292,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -338,7 +338,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -393,7 +393,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
-- 
2.43.0


From bbdafcc933fe0c47af1a182e3b6a250b1f40231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 20/30] fix: generate a compiling serializer for text strings

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index c0fd8a5..ff92c83 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -150,7 +150,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						rdf.interpretation.assign_literal(#target, literal);
-- 
2.43.0


From 23526c9243b5a2b706de3419fec507dd30179020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 21/30] fix: serialize the quads of derived types into the
 current graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 11 ++++--
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index ff92c83..733bc4a 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..f3f630f 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -81,13 +81,18 @@ where
 		)
 	}
 
-	pub fn instantiate_dataset<D>(&self, input: &[PatternQuad<R>], output: &mut D)
-	where
+	pub fn instantiate_dataset<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		graph: Option<&R>,
+		output: &mut D,
+	) where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			let Quad(s, p, o, g) = self.instantiate_quad(quad.as_ref());
+			output.insert(Quad(s, p, o, g.or_else(|| graph.cloned())));
 		}
 	}
 }
-- 
2.43.0


From a1b19287d798861cb2be4e1eb258ab58644a9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 22/30] fix: serialize identifiers and literals on the resource
 declared by the layout

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 62 ++++---------------
 1 file changed, 12 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 733bc4a..e9d7dca 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let resource = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, current_graph, output);
+					let resource = env.instantiate_pattern(&#resource);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&resource, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&resource, id);
 							Ok(())
 						}
 					}
@@ -89,7 +91,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -99,7 +101,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&env.instantiate_pattern(&#resource), literal);
 						Ok(())
 					}
 				}
@@ -107,7 +109,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -117,7 +119,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&env.instantiate_pattern(&#resource), literal);
 						Ok(())
 					}
 				}
@@ -125,7 +127,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -135,7 +137,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&env.instantiate_pattern(&#resource), literal);
 						Ok(())
 					}
 				}
@@ -143,7 +145,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -153,7 +155,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&env.instantiate_pattern(&#resource), literal);
 						Ok(())
 					}
 				}
@@ -453,46 +455,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From aa52fe669bd9a95e34aef7098d7520e84a60670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 23/30] fix: generate a compiling deserializer for tuples of
 one item

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..39e703e 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -573,7 +573,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
-- 
2.43.0


From ccfc083256da53ee4ac9853ff002c4043ba24540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:55 +0000
Subject: [PATCH 24/30] fix: generate a compiling serializer for values with a
 constant input or graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index e9d7dca..afcd496 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -196,11 +196,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -210,11 +212,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -258,11 +262,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, current_graph, output);
+						let inputs = env.instantiate_patterns(&#variant_inputs);
+						let graph = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)
 					}
@@ -309,11 +315,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+						let inputs = env.instantiate_patterns(&#item_value_inputs);
+						let graph = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 					}
@@ -364,11 +372,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
+						let inputs = env.instantiate_patterns(&#node_value_inputs);
+						let graph = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 
@@ -408,11 +418,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+							let inputs = env.instantiate_patterns(&#item_value_inputs);
+							let graph = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&inputs,
+								graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From 0a90f0dc40a29eda552a58597f3c4f24a7b889b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:54 +0000
Subject: [PATCH 25/30] fix: try the other variants when a variant does not
 match in derived deserializers

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 39e703e..895747e 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -311,10 +311,12 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
+						);
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						if let Ok(value) = value {
+							if result.replace(Self::#variant_ident(value)).is_some() {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From f1b7788ef36f60ac8782f5770039dead7a402ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:54 +0000
Subject: [PATCH 26/30] fix: deserialize absent optional fields, variants and
 items whose terms are unknown

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 110 ++++++++++--------
 1 file changed, 59 insertions(+), 51 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 895747e..8260f64 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					let field_substitution = match #field_dataset {
+						Some(field_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								field_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						// A term of the pattern is unknown: nothing can match.
+						None => None
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
@@ -287,18 +290,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					let variant_substitution = match #variant_dataset {
+						Some(variant_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								variant_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						// A term of the pattern is unknown: nothing can match.
+						None => None
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
@@ -382,37 +388,39 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
-					let matching = ::treeldr::de::Matching::new(
-						dataset,
-						substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							matching_dataset
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						)
-					);
 
-					for item_substitution in matching {
-						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
-
-						let item_graph = ::treeldr::de::select_graph(
-							current_graph,
-							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
-							&item_substitution,
+					// If a term of the pattern is unknown, nothing can match.
+					if let Some(matching_dataset) = #node_dataset {
+						let matching = ::treeldr::de::Matching::new(
+							dataset,
+							substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								matching_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							)
 						);
 
-						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
-							rdf,
-							dataset,
-							item_graph.as_ref(),
-							&item_inputs
-						)?;
+						for item_substitution in matching {
+							let item_inputs =
+								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
 
-						items.push(item);
+							let item_graph = ::treeldr::de::select_graph(
+								current_graph,
+								&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
+								&item_substitution,
+							);
+
+							let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+								rdf,
+								dataset,
+								item_graph.as_ref(),
+								&item_inputs
+							)?;
+
+							items.push(item);
+						}
 					}
 
 					Ok(Self(items))
-- 
2.43.0


From 07a667f397681cfba21db49a266df641906f5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:09 +0000
Subject: [PATCH 27/30] fix: count the declared inputs of literal layouts

---
 layouts/src/layout/literal/data.rs | 10 ++++++++++
 layouts/src/layout/literal/mod.rs  |  7 +++++++
 layouts/src/layout/mod.rs          |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/data.rs b/layouts/src/layout/literal/data.rs
index c70ab4f..dca15d0 100644
--- a/layouts/src/layout/literal/data.rs
+++ b/layouts/src/layout/literal/data.rs
@@ -33,6 +33,16 @@ pub enum DataLayout<R> {
 }
 
 impl<R> DataLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Unit(l) => l.input,
+			Self::Boolean(l) => l.input,
+			Self::Number(l) => l.input,
+			Self::ByteString(l) => l.input,
+			Self::TextString(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Unit(l) => &l.extra_properties,
diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..63da1aa 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,13 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(d) => d.input_count(),
+			Self::Id(d) => d.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From 2d745688fb1958fd508a3748512e9a6324657db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 28/30] fix: generate optional types for the optional fields of
 a record

---
 generators/rust/generator/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..2602452 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -375,9 +375,15 @@ where
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
 						let layout = options.layout_ref(rdf, &f.value.layout)?;
 
+						let ty = if f.required {
+							quote!(#layout)
+						} else {
+							quote!(Option<#layout>)
+						};
+
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #layout
+							#f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
-- 
2.43.0


From 067ff4b9c35a296cbdbe9afc6681bf40dfc8adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 29/30] fix: generate a vector for the items of an unordered
 list, as the derive macros expect

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 2602452..221ce70 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -448,7 +448,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From f0bc903fb908009c2f32fe8d3ea7038c25fc3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 30/30] fix: generate the kind, resource and datatype of
 literal layouts

---
 generators/rust/generator/src/lib.rs | 58 +++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 221ce70..11cd1a3 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -229,6 +229,37 @@ where
 	Ok(quote!(dataset(#(#quads),*)))
 }
 
+pub fn generate_resource_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &Pattern<I::Resource>,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let resource = pattern_to_id(rdf, resource)?.to_string();
+
+	Ok(quote!(resource(#resource)))
+}
+
+pub fn generate_datatype_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let datatype = rdf
+		.interpretation
+		.iris_of(datatype)
+		.next()
+		.map(|i| rdf.vocabulary.iri(i).unwrap().as_str())
+		.ok_or(Error::NoIriRepresentation)?;
+
+	Ok(quote!(datatype(#datatype)))
+}
+
 pub fn generate_value_input_attribute<V, I>(
 	rdf: RdfContext<V, I>,
 	input: &[Pattern<I::Resource>],
@@ -304,10 +335,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(boolean, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(bool);
 					})
 				}
@@ -315,10 +348,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(number, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(Number);
 					})
 				}
@@ -326,10 +361,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(string, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(String);
 					})
 				}
@@ -337,10 +374,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(bytes, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(Vec<u8>);
 					})
 				}
@@ -349,11 +388,18 @@ where
 				let input = generate_input_attribute(layout.input);
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+				let resource = generate_resource_attribute(rdf, &layout.resource)?;
 
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
-					pub struct #ident(Id);
+					#[tldr(id, #input, #intro, #dataset, #resource)]
+					pub struct #ident(::treeldr::rdf_types::Id);
+
+					impl ::treeldr::AsId for #ident {
+						fn as_id(&self) -> ::treeldr::rdf_types::Id<&::treeldr::iref::Iri, &::treeldr::rdf_types::BlankId> {
+							::treeldr::AsId::as_id(&self.0)
+						}
+					}
 				})
 			}
 		},
-- 
2.43.0

