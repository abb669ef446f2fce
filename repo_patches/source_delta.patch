From ce642cca5fe0ea2ad552da12a8c8877da11c1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 01/79] fix: CLOSED shape without triple constraints must see
 the arcs of the node

---
 rudof_rdf/src/rdf_impl/backend.rs        | 3 ---
 sparql_service/src/srdf_data/rdf_data.rs | 8 +++++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..b31cf41 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,6 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..1bba764 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -476,14 +476,16 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
             .outgoing_arcs_from_list(subject, preds)
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        // No predicate is needed from the endpoints, but the remainder is still reported: a CLOSED
+        // shape without triple constraints must see the arcs of the node
+        if preds.is_empty() {
+            return Ok((results, reminder));
+        }
         // Active SPARQL endpoints: each issues a single FILTER query for only the needed predicates
         for endpoint in self.use_endpoints.values() {
             let (ep_results, _) = endpoint.outgoing_arcs_from_list(subject, preds)?;
-- 
2.43.0


From 39a98c906be967bf61d3ec36476e28fa001d55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 02/79] fix: typed literals keep their lexical form and are
 matched and compared independently of their representation

---
 .../src/rdf_core/term/literal/literal.rs      | 57 +++++++++++--------
 .../shape_based/qualified_value_shape.rs      |  4 ++
 shex_ast/src/ir/object_value.rs               |  9 ++-
 3 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..42bb307 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -643,6 +643,19 @@ impl ConcreteLiteral {
         }
     }
 
+    /// Returns the native value denoted by a `DatatypeLiteral` of a supported datatype with a valid lexical form.
+    fn value_of_datatype_literal(&self) -> Option<Self> {
+        match self {
+            Self::DatatypeLiteral { lexical_form, datatype } => {
+                match check_literal_datatype(lexical_form, datatype).ok()? {
+                    Self::DatatypeLiteral { .. } | Self::WrongDatatypeLiteral { .. } => None,
+                    lit => Some(lit),
+                }
+            },
+            _ => None,
+        }
+    }
+
     /// Returns the numeric literal value, if this literal is numeric.
     pub fn numeric_value(&self) -> Option<NumericLiteral> {
         match self {
@@ -935,6 +948,13 @@ impl Default for ConcreteLiteral {
 #[allow(clippy::non_canonical_partial_ord_impl)]
 impl PartialOrd for ConcreteLiteral {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        // Literals which keep their lexical form are compared by the value it denotes
+        if let Some(lit) = self.value_of_datatype_literal() {
+            return lit.partial_cmp(other);
+        }
+        if let Some(lit) = other.value_of_datatype_literal() {
+            return self.partial_cmp(&lit);
+        }
         match (self, other) {
             // Chronological comparison for datetime literals
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.partial_cmp(dt2),
@@ -942,8 +962,7 @@ impl PartialOrd for ConcreteLiteral {
             (Self::StringLiteral { lexical_form: lf1, .. }, Self::StringLiteral { lexical_form: lf2, .. }) => {
                 Some(lf1.cmp(lf2))
             },
-            // Datatype literals: try numeric comparison for numeric types (cross-type allowed),
-            // fall back to lexical for same-datatype non-numeric, incomparable otherwise
+            // Other datatypes: lexical comparison if the datatype is the same, incomparable otherwise
             (
                 Self::DatatypeLiteral {
                     lexical_form: lf1,
@@ -953,11 +972,7 @@ impl PartialOrd for ConcreteLiteral {
                     lexical_form: lf2,
                     datatype: dt2,
                 },
-            ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
-                (Ok(Self::NumericLiteral(n1)), Ok(Self::NumericLiteral(n2))) => n1.partial_cmp(&n2),
-                _ if dt1 == dt2 => Some(lf1.cmp(lf2)),
-                _ => None,
-            },
+            ) => (dt1 == dt2).then(|| lf1.cmp(lf2)),
             // Numeric comparison (may return None for NaN)
             (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.partial_cmp(n2),
             // Boolean ordering: false < true
@@ -1068,27 +1083,19 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
                 let iri_str = dtype.as_str();
                 // For bare numeric types in Turtle, preserve original lexical form for valid values
                 // (ShEx value set matching requires lexical-form equality, not value equality).
+                // The same holds for any other value whose lexical form is not the canonical one.
                 // But invalid lexical forms must still produce WrongDatatypeLiteral.
-                if iri_str == XsdVocab::XSD_INTEGER
+                let is_bare_numeric = iri_str == XsdVocab::XSD_INTEGER
                     || iri_str == XsdVocab::XSD_DECIMAL
                     || iri_str == XsdVocab::XSD_DOUBLE
-                    || iri_str == XsdVocab::XSD_FLOAT
-                {
-                    match check_literal_datatype(s.as_ref(), &datatype_iri) {
-                        Ok(ConcreteLiteral::WrongDatatypeLiteral { error, .. }) => {
-                            Ok(ConcreteLiteral::WrongDatatypeLiteral {
-                                lexical_form: s.to_string(),
-                                datatype: datatype_iri,
-                                error,
-                            })
-                        },
-                        _ => Ok(ConcreteLiteral::DatatypeLiteral {
-                            lexical_form: s.to_string(),
-                            datatype: datatype_iri,
-                        }),
-                    }
-                } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                    || iri_str == XsdVocab::XSD_FLOAT;
+                match check_literal_datatype(s.as_ref(), &datatype_iri) {
+                    Ok(lit @ ConcreteLiteral::WrongDatatypeLiteral { .. }) => Ok(lit),
+                    Ok(lit) if !is_bare_numeric && lit.lexical_form() == s => Ok(lit),
+                    _ => Ok(ConcreteLiteral::DatatypeLiteral {
+                        lexical_form: s.to_string(),
+                        datatype: datatype_iri,
+                    }),
                 }
             },
 
diff --git a/shacl/src/rdf/parsers/shape_based/qualified_value_shape.rs b/shacl/src/rdf/parsers/shape_based/qualified_value_shape.rs
index 8e067f2..1ac8ae1 100644
--- a/shacl/src/rdf/parsers/shape_based/qualified_value_shape.rs
+++ b/shacl/src/rdf/parsers/shape_based/qualified_value_shape.rs
@@ -36,6 +36,10 @@ impl<RDF: FocusRDF> RDFNodeParse<RDF> for QualifiedValueShapeSiblings<RDF> {
                 let mut siblings = Vec::new();
                 let maybe_disjoint = rdf.object_for(focus, &ShaclVocab::sh_qualified_value_shapes_disjoint().into())?;
                 if let Some(disjoint) = maybe_disjoint {
+                    let disjoint = match disjoint {
+                        Object::Literal(lit) => Object::Literal(lit.into_checked_literal()?),
+                        other => other,
+                    };
                     match disjoint {
                         Object::Literal(ConcreteLiteral::BooleanLiteral(true)) => {
                             let qvs = rdf.objects_for(focus, &ShaclVocab::sh_qualified_value_shape().into())?;
diff --git a/shex_ast/src/ir/object_value.rs b/shex_ast/src/ir/object_value.rs
index 44c83a2..8232fdc 100644
--- a/shex_ast/src/ir/object_value.rs
+++ b/shex_ast/src/ir/object_value.rs
@@ -18,7 +18,14 @@ impl ObjectValue {
                 _ => false,
             },
             ObjectValue::ObjectLiteral(literal_expected) => match object {
-                Object::Literal(lit) => lit.match_literal(literal_expected),
+                Object::Literal(lit) => {
+                    // The same RDF term can have different internal representations (e.g. `"true"^^xsd:boolean`
+                    // read from a schema and from RDF data)
+                    lit.match_literal(literal_expected)
+                        || (lit.lexical_form() == literal_expected.lexical_form()
+                            && lit.datatype() == literal_expected.datatype()
+                            && lit.lang() == literal_expected.lang())
+                },
                 _ => false,
             },
         }
-- 
2.43.0


From c470ee9cf74f869913affe19aeddaf274a4b1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 03/79] fix: a value rejected by every triple constraint with
 its predicate makes the match fail

---
 rbe/src/rbe_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 6ffd776..4af86be 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -232,7 +232,9 @@ where
             candidates.push(pairs);
         }
 
-        if candidates.is_empty() || pairs_found == 0 {
+        // A value rejected by all its components must make the match fail: it goes through the
+        // cartesian product (which is empty in that case), as when other values have candidates.
+        if candidates.is_empty() || (pairs_found == 0 && prefilter_failed.is_empty()) {
             /*tracing::trace!(
                 "No candidates for rbe: {}, candidates: {:?}, pairs_found: {pairs_found}",
                 self.rbe,
-- 
2.43.0


From a68d34570a8c6f71e0558fc40c8427b617e0a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 04/79] fix: cardinalities of groups are matched exactly when
 groups are nested or excluded

---
 rbe/src/rbe.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..2003a31 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -181,13 +181,16 @@ where
                     if inner.is_empty() {
                         inner
                     } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
-                            Interval::fail()
-                        } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
-                        }
+                        // k repetitions of the group take between k*min and k*max of the iterations in `inner`
+                        let lower = match inner.n {
+                            Max::IntMax(n) => card.max.div_up(&n),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        let upper = match (card.min.value, inner.m) {
+                            (0, _) | (_, Max::Unbounded) => Max::Unbounded,
+                            (min, Max::IntMax(m)) => Max::IntMax(m / min),
+                        };
+                        Interval::new(lower, upper)
                     }
                 }
             },
@@ -402,13 +405,13 @@ where
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
             Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
-                let d = value.deriv(x, n, open, controlled);
-                if d.is_nullable() {
+                // No repetition can consume a symbol: only symbols ignored by an open expression are allowed
+                if open && !controlled.contains(x) {
+                    self.clone()
+                } else {
                     Rbe::Fail {
                         error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
                     }
-                } else {
-                    Rbe::Empty
                 }
             },
             Rbe::Repeat { ref value, ref card } => {
-- 
2.43.0


From 3d8bd7e04a12beea78221dbfaf880b071315d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 05/79] fix: open repetitions do not consume an iteration for
 symbols they ignore

---
 rbe/src/rbe.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index 2003a31..ec7e7ca 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -400,18 +400,16 @@ where
             },
             Rbe::And { ref values } => Self::deriv_and(values, x, n, open, controlled),
             Rbe::Or { ref values } => Self::mk_or_values(values.iter().map(|rbe| rbe.deriv(x, n, open, controlled))),
+            // An open repetition ignores the symbols it doesn't control: no iteration is consumed
+            Rbe::Plus { .. } | Rbe::Repeat { .. } if open && !controlled.contains(x) => self.clone(),
             Rbe::Plus { ref value } => {
                 let d = value.deriv(x, n, open, controlled);
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
-            Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
-                // No repetition can consume a symbol: only symbols ignored by an open expression are allowed
-                if open && !controlled.contains(x) {
-                    self.clone()
-                } else {
-                    Rbe::Fail {
-                        error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
-                    }
+            Rbe::Repeat { ref card, .. } if card.is_0_0() => {
+                // No repetition can consume a symbol
+                Rbe::Fail {
+                    error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
                 }
             },
             Rbe::Repeat { ref value, ref card } => {
-- 
2.43.0


From e8c9dc9a71eb9f5985025c2683b0bd1eb8da0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 06/79] fix: ShExC parser accepts whitespace between string
 facets

---
 shex_ast/src/compact/shex_grammar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..729aedc 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -463,10 +463,13 @@ fn xs_facet<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 /// `[28] stringFacet ::= stringLength INTEGER | REGEXP`
 fn string_facet(i: Span) -> IRes<XsFacet> {
-    alt((
-        string_length,
-        map(regexp, |p| XsFacet::StringFacet(StringFacet::Pattern(p))),
-    ))
+    preceded(
+        tws0,
+        alt((
+            string_length,
+            map(regexp, |p| XsFacet::StringFacet(StringFacet::Pattern(p))),
+        )),
+    )
     .parse(i)
 }
 
-- 
2.43.0


From f776e29c0c5f6d952bccf23e552d28589f713080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 07/79] fix: ShExC parser accepts whitespace after literal
 exclusions

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 729aedc..7251d0a 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1040,7 +1040,7 @@ fn dash<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
 
 /// `[54] literalExclusion ::= '-' literal '~'?`
 fn literal_exclusion(i: Span) -> IRes<LiteralExclusion> {
-    let (i, (_, literal, maybe_tilde)) = (dash(), literal(), opt(tilde())).parse(i)?;
+    let (i, (_, literal, maybe_tilde, _)) = (dash(), literal(), opt(tilde()), tws0).parse(i)?;
     let le = match maybe_tilde {
         Some(_) => LiteralExclusion::LiteralStem(literal.lexical_form()),
         None => LiteralExclusion::Literal(literal.lexical_form()),
-- 
2.43.0


From 3ba5487885d8d6cc58a06df3248210f0e4bb2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 08/79] fix: ShExJ exclusions are read according to their
 declared type

---
 shex_ast/src/ast/exclusion.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/shex_ast/src/ast/exclusion.rs b/shex_ast/src/ast/exclusion.rs
index 43d8d98..59b7525 100644
--- a/shex_ast/src/ast/exclusion.rs
+++ b/shex_ast/src/ast/exclusion.rs
@@ -3,7 +3,7 @@ use crate::language_exclusion::LanguageExclusion;
 use crate::literal_exclusion::LiteralExclusion;
 use prefixmap::IriRef;
 use rudof_rdf::rdf_core::term::literal::Lang;
-use serde::de::{MapAccess, Visitor};
+use serde::de::{IntoDeserializer, MapAccess, Visitor};
 use serde::ser::SerializeMap;
 use serde::{Deserialize, Serialize, Serializer, de};
 use std::str::FromStr;
@@ -168,7 +168,7 @@ impl<'de> Deserialize<'de> for Exclusion {
                 V: MapAccess<'de>,
             {
                 let mut type_: Option<ExclusionType> = None;
-                let mut stem: Option<StemValue> = None;
+                let mut stem: Option<String> = None;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::Type => {
@@ -192,27 +192,22 @@ impl<'de> Deserialize<'de> for Exclusion {
                 }
                 match type_ {
                     Some(ExclusionType::LiteralStem) => match stem {
-                        Some(StemValue::Literal(lit)) => {
-                            Ok(Exclusion::LiteralExclusion(LiteralExclusion::LiteralStem(lit)))
-                        },
-                        Some(_) => Err(de::Error::custom(format!("Stem {stem:?} must be a literal"))),
+                        Some(lit) => Ok(Exclusion::LiteralExclusion(LiteralExclusion::LiteralStem(lit))),
                         None => Err(de::Error::missing_field("stem")),
                     },
                     Some(ExclusionType::LanguageStem) => match stem {
-                        Some(StemValue::Language(lang)) => {
-                            Ok(Exclusion::LanguageExclusion(LanguageExclusion::LanguageStem(lang)))
-                        },
-                        Some(StemValue::Literal(l)) => {
+                        Some(l) => {
                             let lang = Lang::new(&l)
                                 .map_err(|e| de::Error::custom(format!("Invalid language tag {l} in stem: {e}")))?;
                             Ok(Exclusion::LanguageExclusion(LanguageExclusion::LanguageStem(lang)))
                         },
-                        Some(_) => Err(de::Error::custom(format!("Stem {stem:?} must be a language"))),
                         None => Err(de::Error::missing_field("stem")),
                     },
                     Some(ExclusionType::IriStem) => match stem {
-                        Some(StemValue::Iri(iri_ref)) => Ok(Exclusion::IriExclusion(IriExclusion::IriStem(iri_ref))),
-                        Some(_) => Err(de::Error::custom(format!("Stem {stem:?} must be an IRI"))),
+                        Some(iri) => {
+                            let iri_ref = IriRef::deserialize(iri.as_str().into_deserializer())?;
+                            Ok(Exclusion::IriExclusion(IriExclusion::IriStem(iri_ref)))
+                        },
                         None => Err(de::Error::missing_field("stem")),
                     },
                     None => Err(de::Error::custom("No value of exclusion type")),
@@ -232,14 +227,6 @@ enum ExclusionType {
     LanguageStem,
 }
 
-#[derive(Debug, PartialEq, Deserialize)]
-#[serde(untagged)]
-enum StemValue {
-    Iri(IriRef),
-    Literal(String),
-    Language(Lang),
-}
-
 #[derive(Debug)]
 #[allow(dead_code)]
 struct ExclusionTypeError {
-- 
2.43.0


From e160dbb346b821ff7e2a998ebd8d34c66b29d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 09/79] fix: a LiteralStemRange without exclusions is reported
 instead of panicking

---
 shex_ast/src/ast/value_set_value.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 192ecef..9647d16 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -600,9 +600,7 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                                     exclusions: Some(lit_excs),
                                 })
                             },
-                            None => {
-                                todo!()
-                            },
+                            None => Err(de::Error::missing_field("exclusions")),
                         },
                         None => Err(de::Error::missing_field("stem")),
                     },
-- 
2.43.0


From 8290c4ecc5f87bcc8bd9ff2797dbe527b8502fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 10/79] fix: wildcard stem ranges only match nodes of their
 kind

---
 shex_ast/src/ir/value_set_value.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shex_ast/src/ir/value_set_value.rs b/shex_ast/src/ir/value_set_value.rs
index d5dad8b..d4283e9 100644
--- a/shex_ast/src/ir/value_set_value.rs
+++ b/shex_ast/src/ir/value_set_value.rs
@@ -106,7 +106,7 @@ impl ValueSetValue {
                         Object::Iri(iri_s) => iri_s.as_str().starts_with(iri.as_str()),
                         _ => false,
                     },
-                    IriOrWildcard::Wildcard { type_: _ } => true, // Matches everything for now
+                    IriOrWildcard::Wildcard { type_: _ } => matches!(object, Object::Iri(_)),
                 };
                 if !matches_stem {
                     return false;
@@ -149,7 +149,7 @@ impl ValueSetValue {
                         },
                         _ => false,
                     },
-                    StringOrWildcard::Wildcard { type_: _ } => true, // Matches everything for now
+                    StringOrWildcard::Wildcard { type_: _ } => matches!(object, Object::Literal(_)),
                 };
                 if !matches_stem {
                     return false;
@@ -183,7 +183,7 @@ impl ValueSetValue {
                 .lang()
                 .map(|lang| match stem {
                     LangOrWildcard::Lang(s) => lang_stem_matches(s.as_str(), lang.as_str()),
-                    LangOrWildcard::Wildcard { .. } => true, // Matches everything for now
+                    LangOrWildcard::Wildcard { .. } => true, // Any language tag
                 })
                 .unwrap_or(false),
             ValueSetValue::LanguageStemRange { stem, exclusions } => {
@@ -194,7 +194,7 @@ impl ValueSetValue {
                         },
                         _ => false,
                     },
-                    LangOrWildcard::Wildcard { type_: _ } => true, // Matches everything for now
+                    LangOrWildcard::Wildcard { type_: _ } => object.lang().is_some(),
                 };
                 if !matches_stem {
                     return false;
-- 
2.43.0


From ccd6401afc431c00d696752c1c7c2f94c24b8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 11/79] fix: typed literals in ShExJ value sets keep their
 lexical form

---
 shex_ast/src/ast/object_value.rs    | 53 ++++++++++++++++-------------
 shex_ast/src/ast/value_set_value.rs | 32 +++--------------
 2 files changed, 34 insertions(+), 51 deletions(-)

diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 548bc0e..9c22201 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -7,7 +7,6 @@ use rudof_rdf::rdf_core::term::{
     literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
 use rust_decimal::Decimal;
-use serde::de::Unexpected;
 use serde::ser::SerializeMap;
 use serde::{
     Deserialize, Serialize, Serializer,
@@ -52,6 +51,31 @@ impl ObjectValue {
         ObjectValue::Literal(ConcreteLiteral::boolean(b))
     }
 
+    /// The value obtained from `lexical_form` if writing it again gives the same lexical form.
+    /// Otherwise the literal keeps its lexical form: value sets match terms, not values.
+    fn keep_lexical(value: Option<ObjectValue>, lexical_form: &str, datatype: &str) -> ObjectValue {
+        match value {
+            Some(v) if v.lexical_form() == lexical_form => v,
+            _ => ObjectValue::datatype_literal(lexical_form, &IriRef::iri(IriS::new_unchecked(datatype))),
+        }
+    }
+
+    pub(crate) fn boolean_lexical(s: &str) -> ObjectValue {
+        Self::keep_lexical(s.parse().ok().map(ObjectValue::bool), s, BOOLEAN_STR)
+    }
+
+    pub(crate) fn integer_lexical(s: &str) -> ObjectValue {
+        Self::keep_lexical(s.parse().ok().map(ObjectValue::integer), s, INTEGER_STR)
+    }
+
+    pub(crate) fn decimal_lexical(s: &str) -> ObjectValue {
+        Self::keep_lexical(s.parse().ok().map(ObjectValue::decimal), s, DECIMAL_STR)
+    }
+
+    pub(crate) fn double_lexical(s: &str) -> ObjectValue {
+        Self::keep_lexical(s.parse().ok().map(ObjectValue::double), s, DOUBLE_STR)
+    }
+
     pub fn literal(lit: ConcreteLiteral) -> ObjectValue {
         ObjectValue::Literal(lit)
     }
@@ -308,38 +332,19 @@ impl<'de> Deserialize<'de> for ObjectValue {
                 }
                 match type_ {
                     Some(ObjectValueType::Boolean) => match value {
-                        Some(s) => match s.as_str() {
-                            "false" => Ok(ObjectValue::bool(false)),
-                            "true" => Ok(ObjectValue::bool(true)),
-                            _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
-                        },
+                        Some(s) => Ok(ObjectValue::boolean_lexical(&s)),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Decimal) => match value {
-                        Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::decimal(n))
-                        },
+                        Some(s) => Ok(ObjectValue::decimal_lexical(&s)),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Double) => match value {
-                        Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::double(n))
-                        },
+                        Some(s) => Ok(ObjectValue::double_lexical(&s)),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Integer) => match value {
-                        Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::integer(n))
-                        },
+                        Some(s) => Ok(ObjectValue::integer_lexical(&s)),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Other(iri)) => match value {
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 9647d16..ae5a02a 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -8,11 +8,10 @@ use prefixmap::error::DerefError;
 use prefixmap::{DerefIri, IriRef};
 use rudof_iri::error::IriSError;
 use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
-use rust_decimal::Decimal;
 use serde::ser::SerializeMap;
 use serde::{
     Deserialize, Serialize, Serializer,
-    de::{self, MapAccess, Unexpected, Visitor},
+    de::{self, MapAccess, Visitor},
 };
 use std::{fmt, str::FromStr};
 use thiserror::Error;
@@ -697,40 +696,19 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                         None => Err(de::Error::missing_field("stem")),
                     },
                     Some(ValueSetValueType::Boolean) => match value {
-                        Some(s) => match s.as_str() {
-                            "false" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(false))),
-                            "true" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(true))),
-                            _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
-                        },
+                        Some(s) => Ok(ValueSetValue::ObjectValue(ObjectValue::boolean_lexical(&s))),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Double) => match value {
-                        Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
-                            })?;
-                            Ok(ValueSetValue::ObjectValue(ObjectValue::double(n)))
-                        },
+                        Some(s) => Ok(ValueSetValue::ObjectValue(ObjectValue::double_lexical(&s))),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Decimal) => match value {
-                        Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
-                            })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::decimal(n));
-                            Ok(v)
-                        },
+                        Some(s) => Ok(ValueSetValue::ObjectValue(ObjectValue::decimal_lexical(&s))),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Integer) => match value {
-                        Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
-                            })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::integer(n));
-                            Ok(v)
-                        },
+                        Some(s) => Ok(ValueSetValue::ObjectValue(ObjectValue::integer_lexical(&s))),
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Other(iri)) => match value {
-- 
2.43.0


From 8a3ac7aaf6ce2fc01bec3fe1e4ee89e903010e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 12/79] fix: string length facets count characters instead of
 bytes

---
 rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs |  6 +++---
 rudof_rdf/src/rdf_core/term/triple.rs           | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
index fef5ca2..563c1e1 100644
--- a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
+++ b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
@@ -19,14 +19,14 @@ pub enum IriOrBlankNode {
 }
 
 impl IriOrBlankNode {
-    /// Returns the length (in bytes) of this resource's string representation.
+    /// Returns the length (in characters) of this resource's string representation.
     ///
     /// - For blank nodes: the length of the identifier string
     /// - For IRIs: the length of the full IRI string
     pub fn length(&self) -> usize {
         match self {
-            IriOrBlankNode::BlankNode(label) => label.len(),
-            IriOrBlankNode::Iri(iri) => iri.as_str().len(),
+            IriOrBlankNode::BlankNode(label) => label.chars().count(),
+            IriOrBlankNode::Iri(iri) => iri.as_str().chars().count(),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index de7ef97..f28fec7 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -241,7 +241,7 @@ impl Object {
 
 /// ## Accessors methods
 impl Object {
-    // Returns the length (in bytes) of this object's string representation.
+    // Returns the length (in characters) of this object's string representation.
     ///
     /// - For IRIs: the length of the IRI string
     /// - For blank nodes: the length of the identifier
@@ -249,14 +249,14 @@ impl Object {
     /// - For triples: the sum of all component lengths
     pub fn length(&self) -> usize {
         match self {
-            Object::Iri(iri) => iri.as_str().len(),
-            Object::BlankNode(bn) => bn.len(),
-            Object::Literal(lit) => lit.lexical_form().len(),
+            Object::Iri(iri) => iri.as_str().chars().count(),
+            Object::BlankNode(bn) => bn.chars().count(),
+            Object::Literal(lit) => lit.lexical_form().chars().count(),
             Object::Triple {
                 subject,
                 predicate,
                 object,
-            } => subject.as_ref().length() + predicate.as_str().len() + object.as_ref().length(),
+            } => subject.as_ref().length() + predicate.as_str().chars().count() + object.as_ref().length(),
         }
     }
 
-- 
2.43.0


From 138efb46a13803d0acfcb094c9ddd094ace4a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 13/79] fix: xsd:double, xsd:float and xsd:decimal reject
 lexical forms outside their lexical space

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 42bb307..7cd83ad 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -841,8 +841,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `f64`.
     pub fn parse_double(s: &str) -> Result<f64, String> {
-        // XSD double lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The only special values in the XSD double lexical space are "INF", "-INF" and "NaN"
+        if !matches!(s, "INF" | "-INF" | "NaN") && s.contains(|c: char| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) {
             return Err(format!("{s} is not a valid xsd:double lexical form"));
         }
         s.parse::<f64>()
@@ -869,7 +869,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `Decimal`.
     pub fn parse_decimal(s: &str) -> Result<Decimal, String> {
-        if s.contains('e') || s.contains('E') {
+        if s.contains(['e', 'E', '_']) {
             return Err("Invalid decimal: unknown character".to_string());
         }
         s.parse::<Decimal>()
@@ -882,8 +882,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a float.
     pub fn parse_float(s: &str) -> Result<f32, String> {
-        // XSD float lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The only special values in the XSD float lexical space are "INF", "-INF" and "NaN"
+        if !matches!(s, "INF" | "-INF" | "NaN") && s.contains(|c: char| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) {
             return Err(format!("{s} is not a valid xsd:float lexical form"));
         }
         s.parse::<f32>()
-- 
2.43.0


From 181c99a55d3436370e71bd24b1e171d143fd46f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 14/79] fix: xsd:int literals are checked and have a numeric
 value

---
 .../src/rdf_core/term/literal/literal.rs      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 7cd83ad..ed1d8f7 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -660,6 +660,12 @@ impl ConcreteLiteral {
     pub fn numeric_value(&self) -> Option<NumericLiteral> {
         match self {
             Self::NumericLiteral(nl) => Some(nl.clone()),
+            Self::DatatypeLiteral { lexical_form, datatype }
+                if datatype.get_iri().is_ok_and(|iri| iri.as_str() == XsdVocab::XSD_INT) =>
+            {
+                let n = Self::parse_int(lexical_form).ok()?;
+                Some(NumericLiteral::Integer(n.into()))
+            },
             _ => None,
         }
     }
@@ -899,6 +905,15 @@ impl ConcreteLiteral {
         s.parse::<i8>().map_err(|e| format!("Cannot convert {s} to byte: {e}"))
     }
 
+    /// Parses a signed int (32-bit) from its string representation.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the string cannot be parsed as an `i32`.
+    pub fn parse_int(s: &str) -> Result<i32, String> {
+        s.parse::<i32>().map_err(|e| format!("Cannot convert {s} to int: {e}"))
+    }
+
     /// Parses a signed short (-32768 to 32767) from its string representation.
     ///
     /// # Errors
@@ -1279,6 +1294,10 @@ fn check_literal_datatype(lexical_form: &str, datatype: &IriRef) -> Result<Concr
         ConcreteLiteral::parse_non_positive_integer,
         ConcreteLiteral::non_positive_integer
     );
+    // There is no native representation of xsd:int: a valid lexical form is kept as it is
+    check_xsd_type!(XsdVocab::XSD_INT, ConcreteLiteral::parse_int, |_| {
+        ConcreteLiteral::lit_datatype(lexical_form, datatype)
+    });
     check_xsd_type!(
         XsdVocab::XSD_DATE_TIME,
         ConcreteLiteral::parse_datetime,
-- 
2.43.0


From f240ff8576db9b94bac2c7c726a0287d55eb78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 15/79] fix: numeric literals of different datatypes are
 different RDF terms

---
 .../src/rdf_core/term/literal/literal.rs      | 45 +++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index ed1d8f7..50d1606 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -158,8 +158,8 @@ pub trait Literal: Debug + Clone + Display + PartialEq + Eq + Hash {
 /// The [`Ord`] implementation panics when comparing incomparable literals (e.g., NaN
 /// floating-point values or literals with different datatypes). Use [`PartialOrd`]
 /// when comparing arbitrary literals to avoid panics.
-#[derive(PartialEq, Eq, Hash, Debug, Serialize, Deserialize, Clone)]
-#[allow(clippy::enum_variant_names)]
+#[derive(Eq, Hash, Debug, Serialize, Deserialize, Clone)]
+#[allow(clippy::enum_variant_names, clippy::derived_hash_with_manual_eq)]
 pub enum ConcreteLiteral {
     /// A plain string literal, optionally with a language tag.
     StringLiteral { lexical_form: String, lang: Option<Lang> },
@@ -386,7 +386,7 @@ impl ConcreteLiteral {
                     datatype: expected_datatype,
                 },
             ) => lexical_form == expected_lexical_form && datatype == expected_datatype,
-            (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1 == n2,
+            (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.datatype() == n2.datatype() && n1 == n2,
             // Cross-match: DatatypeLiteral (from data/grammar) vs NumericLiteral (from API).
             // ShEx value set matching requires term equality, so these never match.
             (Self::DatatypeLiteral { .. }, Self::NumericLiteral(_))
@@ -934,6 +934,45 @@ impl ConcreteLiteral {
 // Trait Implementations
 // ============================================================================
 
+/// Equality of literals as RDF terms: numeric literals with the same value but
+/// different datatypes are different terms.
+impl PartialEq for ConcreteLiteral {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (
+                Self::StringLiteral { lexical_form, lang },
+                Self::StringLiteral {
+                    lexical_form: other_lexical_form,
+                    lang: other_lang,
+                },
+            ) => lexical_form == other_lexical_form && lang == other_lang,
+            (
+                Self::DatatypeLiteral { lexical_form, datatype },
+                Self::DatatypeLiteral {
+                    lexical_form: other_lexical_form,
+                    datatype: other_datatype,
+                },
+            ) => lexical_form == other_lexical_form && datatype == other_datatype,
+            (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.datatype() == n2.datatype() && n1 == n2,
+            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
+            (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
+            (
+                Self::WrongDatatypeLiteral {
+                    lexical_form,
+                    datatype,
+                    error,
+                },
+                Self::WrongDatatypeLiteral {
+                    lexical_form: other_lexical_form,
+                    datatype: other_datatype,
+                    error: other_error,
+                },
+            ) => lexical_form == other_lexical_form && datatype == other_datatype && error == other_error,
+            _ => false,
+        }
+    }
+}
+
 impl Default for ConcreteLiteral {
     /// Returns an empty string literal without a language tag.
     ///
-- 
2.43.0


From 763659698b0b35de5c0e48872ad36f5c6737865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 16/79] fix: ShExC keywords are case insensitive and don't
 match prefixes of names

---
 shex_ast/src/compact/grammar.rs      | 22 ++++++++++++-----
 shex_ast/src/compact/shex_grammar.rs | 36 ++++++++++++++--------------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/shex_ast/src/compact/grammar.rs b/shex_ast/src/compact/grammar.rs
index 134eeff..e04a84c 100644
--- a/shex_ast/src/compact/grammar.rs
+++ b/shex_ast/src/compact/grammar.rs
@@ -3,10 +3,10 @@ use nom::{
     Err, Parser,
     branch::alt,
     bytes::complete::{is_not, tag, tag_no_case, take_until},
-    character::complete::multispace1,
-    combinator::value,
+    character::complete::{multispace1, satisfy},
+    combinator::{not, value},
     multi::many0,
-    sequence::{delimited, pair},
+    sequence::{delimited, pair, terminated},
 };
 use std::fmt::Debug;
 
@@ -111,10 +111,20 @@ pub(crate) fn token_tws<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a,
     })
 }
 
-/// A combinator that creates a parser for a specific token,
+/// A combinator that recognises a case insensitive keyword, which can't be a
+/// prefix of a longer name (`ORDER`) or the prefix of a prefixed name (`or:der`).
+pub(crate) fn keyword_no_case<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
+    move |i| terminated(tag_no_case(token), not(satisfy(is_name_char))).parse(i)
+}
+
+fn is_name_char(c: char) -> bool {
+    c.is_alphabetic() || c == '_' || c == ':'
+}
+
+/// A combinator that creates a parser for a case insensitive keyword,
 /// surrounded by trailing whitespace or comments.
 pub(crate) fn token_tws_no_case<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
-    map_error(delimited(tws0, tag_no_case(token), tws0), || {
+    map_error(delimited(tws0, keyword_no_case(token), tws0), || {
         ShExParseError::ExpectedToken(token.to_string())
     })
 }
@@ -122,7 +132,7 @@ pub(crate) fn token_tws_no_case<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> I
 /// A combinator that creates a parser for a case insensitive tag,
 /// surrounded by trailing whitespace or comments.
 pub(crate) fn tag_no_case_tws<'a>(token: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
-    map_error(delimited(tws0, tag_no_case(token), tws0), || {
+    map_error(delimited(tws0, keyword_no_case(token), tws0), || {
         ShExParseError::ExpectedToken(token.to_string())
     })
 }
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 7251d0a..cca0027 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1,4 +1,4 @@
-use crate::compact::grammar::token_tws_no_case;
+use crate::compact::grammar::{keyword_no_case, token_tws_no_case};
 use crate::compact::grammar_structs::{Cardinality, NumericLength, NumericRange, Qualifier, SenseFlags, ShExStatement};
 use crate::compact::{
     IRes, Span, grammar::map_error, grammar::tag_no_case_tws, grammar::token, grammar::token_tws, grammar::tws0,
@@ -19,11 +19,11 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_while, take_while1},
     character::complete::{alpha1, alphanumeric1, char, digit0, digit1, none_of, one_of, satisfy},
-    combinator::{cut, map, map_res, opt, recognize},
+    combinator::{cut, map, map_res, not, opt, recognize},
     error::ErrorKind,
     error_position,
     multi::{count, fold_many0, many0, many1},
-    sequence::{delimited, pair, preceded},
+    sequence::{delimited, pair, preceded, terminated},
 };
 use nom_locate::LocatedSpan;
 use prefixmap::IriRef;
@@ -83,7 +83,7 @@ fn prefix_decl<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
 fn import_decl<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
     map_error(
         move |i| {
-            let (i, (_, _, iri)) = (tag_no_case("IMPORT"), tws0, cut(iri)).parse(i)?;
+            let (i, (_, _, iri)) = (keyword_no_case("IMPORT"), tws0, cut(iri)).parse(i)?;
             tracing::debug!("grammar: Import {iri:?}");
             Ok((i, ShExStatement::ImportDecl { iri }))
         },
@@ -101,7 +101,7 @@ fn start<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
     map_error(
         move |i| {
             let (i, (_, _, _, _, se)) = (
-                tag_no_case("START"),
+                keyword_no_case("START"),
                 tws0,
                 cut(char('=')),
                 tws0,
@@ -158,7 +158,7 @@ fn shape_expr_or_external<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShapeExpr> {
 }
 
 fn external(i: Span) -> IRes<ShapeExpr> {
-    let (i, _) = tag_no_case("EXTERNAL")(i)?;
+    let (i, _) = keyword_no_case("EXTERNAL")(i)?;
     Ok((i, ShapeExpr::external()))
 }
 
@@ -386,7 +386,7 @@ fn lit_node_constraint<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, NodeConstraint>
 
 fn literal_facets<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, NodeConstraint> {
     move |i| {
-        let (i, (_, _, facets)) = (tag_no_case("LITERAL"), tws0, facets()).parse(i)?;
+        let (i, (_, _, facets)) = (keyword_no_case("LITERAL"), tws0, facets()).parse(i)?;
         Ok((
             i,
             NodeConstraint::new()
@@ -537,8 +537,8 @@ fn numeric_length_int<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 fn numeric_length(i: Span) -> IRes<NumericLength> {
     alt((
-        map(token_tws("TOTALDIGITS"), |_| NumericLength::TotalDigits),
-        map(token_tws("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
+        map(token_tws_no_case("TOTALDIGITS"), |_| NumericLength::TotalDigits),
+        map(token_tws_no_case("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
     ))
     .parse(i)
 }
@@ -546,10 +546,10 @@ fn numeric_length(i: Span) -> IRes<NumericLength> {
 /// `[31] numericRange ::= "MININCLUSIVE" | "MINEXCLUSIVE" | "MAXINCLUSIVE" | "MAXEXCLUSIVE"`
 fn numeric_range(i: Span) -> IRes<NumericRange> {
     alt((
-        map(token_tws("MININCLUSIVE"), |_| NumericRange::MinInclusive),
-        map(token_tws("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
-        map(token_tws("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
-        map(token_tws("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
+        map(token_tws_no_case("MININCLUSIVE"), |_| NumericRange::MinInclusive),
+        map(token_tws_no_case("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
+        map(token_tws_no_case("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
+        map(token_tws_no_case("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
     ))
     .parse(i)
 }
@@ -671,7 +671,7 @@ fn extension<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, _) = token_tws("CLOSED")(i)?;
+            let (i, _) = token_tws_no_case("CLOSED")(i)?;
             Ok((i, Qualifier::Closed))
         },
         || ShExParseError::ExpectedClosed,
@@ -682,7 +682,7 @@ fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn extra_property_set<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, (_, ps)) = (token_tws("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
+            let (i, (_, ps)) = (token_tws_no_case("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
             let ps = ps.into_iter().map(|(p, _)| p).collect();
             Ok((i, Qualifier::Extra(ps)))
         },
@@ -1618,7 +1618,7 @@ fn integer_or_star(i: Span) -> IRes<i32> {
 
 /// `[69] <RDF_TYPE> ::= "a"`
 fn rdf_type(i: Span) -> IRes<IriRef> {
-    let (i, _) = tag("a")(i)?;
+    let (i, _) = terminated(tag("a"), not(satisfy(is_pn_chars_colon))).parse(i)?;
     let rdf_type: IriRef = IriRef::iri(RdfVocab::rdf_type());
     Ok((i, rdf_type))
 }
@@ -2173,9 +2173,9 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     }
 }
 
-fn symbol(value: &str) -> impl FnMut(Span) -> IRes<()> {
+fn symbol<'a>(value: &'a str) -> impl FnMut(Span<'a>) -> IRes<'a, ()> {
     move |i| {
-        let (i, (_, _, _)) = (tws0, tag_no_case(value), tws0).parse(i)?;
+        let (i, (_, _, _)) = (tws0, keyword_no_case(value), tws0).parse(i)?;
         Ok((i, ()))
     }
 }
-- 
2.43.0


From 10576b8a167d07850e848c346deb5dc2ec58000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 17/79] fix: ShExC decimal facet values keep leading zeros of
 their fraction and their sign

---
 shex_ast/src/compact/shex_grammar.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index cca0027..b224ff5 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -33,6 +33,7 @@ use rudof_rdf::rdf_core::{
     RDFError,
     term::literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
+use rust_decimal::Decimal;
 use std::{collections::VecDeque, fmt::Debug};
 use thiserror::Error;
 
@@ -1837,17 +1838,16 @@ fn integer<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, i128> {
 /// `[20t] <DECIMAL> ::= [+-]? [0-9]* "." [0-9]+`
 fn decimal(i: Span) -> IRes<NumericLiteral> {
     map_res(
-        pair(recognize(preceded(opt(sign), digit0)), preceded(token("."), digit1)),
-        |(whole, fraction)| {
-            let w = whole
-                .fragment()
-                .parse::<i64>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            let f = fraction
-                .fragment()
-                .parse::<u32>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            NumericLiteral::decimal_from_parts(w, f)
+        recognize((opt(sign), digit0, token("."), digit1)),
+        |value: LocatedSpan<&str>| {
+            let (sign, digits) = match value.fragment().strip_prefix('-') {
+                Some(rest) => ("-", rest),
+                None => ("", value.fragment().trim_start_matches('+')),
+            };
+            let whole = if digits.starts_with('.') { "0" } else { "" };
+            Decimal::from_str_exact(&format!("{sign}{whole}{digits}"))
+                .map(NumericLiteral::Decimal)
+                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })
         },
     )
     .parse(i)
-- 
2.43.0


From 4c1ef8b4f3366c4b0f3a691340886a9986e030f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 18/79] fix: ShExC parser accepts EXTENDS in inline shapes,
 quotes in long strings, and rejects invalid code points instead of panicking

---
 shex_ast/src/compact/shex_grammar.rs | 152 +++++----------------------
 1 file changed, 29 insertions(+), 123 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index b224ff5..4099821 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -34,8 +34,6 @@ use rudof_rdf::rdf_core::{
     term::literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
 use rust_decimal::Decimal;
-use std::{collections::VecDeque, fmt::Debug};
-use thiserror::Error;
 
 /// `[1] shexDoc ::= directive* ((notStartAction | startActions) statement*)?`
 pub(crate) fn shex_statement<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, ShExStatement<'a>> {
@@ -619,11 +617,10 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         None
     };
     let mut extra = Vec::new();
+    let mut extends = Vec::new();
     for q in qualifiers {
         match q {
-            Qualifier::Extends(_) => {
-                todo!()
-            },
+            Qualifier::Extends(label) => extends.push(label),
             Qualifier::Closed => {},
             Qualifier::Extra(ps) => {
                 for p in ps {
@@ -633,7 +630,11 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         }
     }
     let maybe_extra = if extra.is_empty() { None } else { Some(extra) };
-    Ok((i, ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr))))
+    let maybe_extends = if extends.is_empty() { None } else { Some(extends) };
+    Ok((
+        i,
+        ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr).with_extends(maybe_extends)),
+    ))
 }
 
 fn maybe_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Option<TripleExpr>> {
@@ -1362,7 +1363,12 @@ fn single_quote_char<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, char> {
 fn string_literal_long1(i: Span) -> IRes<String> {
     let (i, chars) = delimited(
         token("'''"),
-        cut(many0(alt((none_of(r"'\"), echar, uchar)))),
+        cut(many0(alt((
+            none_of(r"'\"),
+            terminated(char('\''), not(tag("''"))),
+            echar,
+            uchar,
+        )))),
         token("'''"),
     )
     .parse(i)?;
@@ -1374,7 +1380,12 @@ fn string_literal_long1(i: Span) -> IRes<String> {
 fn string_literal_long2(i: Span) -> IRes<String> {
     let (i, chars) = delimited(
         token(r#"""""#),
-        cut(many0(alt((none_of(r#""\"#), echar, uchar)))),
+        cut(many0(alt((
+            none_of(r#""\"#),
+            terminated(char('"'), not(tag(r#""""#))),
+            echar,
+            uchar,
+        )))),
         token(r#"""""#),
     )
     .parse(i)?;
@@ -1429,8 +1440,10 @@ fn uchar(i: Span) -> IRes<char> {
         preceded(token(r"\U"), count(hex, 8)),
     )))
     .parse(i)?;
-    let c = unescape_uchar(str.fragment()).unwrap();
-    Ok((i, c))
+    match u32::from_str_radix(&str.fragment()[2..], 16).ok().and_then(char::from_u32) {
+        Some(c) => Ok((i, c)),
+        None => Err(Err::Error(error_position!(str, ErrorKind::Char))),
+    }
 }
 
 /// `[160s] <ECHAR> ::= "\\" [tbnrf\\\"\\']`
@@ -1649,62 +1662,9 @@ fn regexp(i: Span) -> IRes<Pattern> {
     } else {
         Some(flags.to_string())
     };
-    let str = unescape_pattern(&str);
     Ok((i, Pattern { str, flags }))
 }
 
-/// unescape characters in pattern strings
-fn unescape_pattern(str: &str) -> String {
-    let non_escaped = [
-        'n', 'r', 't', '\\', '|', '.', '?', '*', '+', '(', ')', '{', '}', '$', '-', '[', ']', '^',
-    ];
-    let mut queue: VecDeque<_> = str.chars().collect();
-    let mut r = String::new();
-    while let Some(c) = queue.pop_front() {
-        if c != '\\' {
-            r.push(c);
-            continue;
-        }
-        match queue.pop_front() {
-            Some(c) if non_escaped.contains(&c) => {
-                r.push('\\');
-                r.push(c)
-            },
-            Some('u') => {
-                let mut s = String::new();
-                for _ in 0..4 {
-                    if let Some(c) = queue.pop_front() {
-                        s.push(c)
-                    } else {
-                        panic!("unescape_pattern: \\u is not followed by 4 chars")
-                    }
-                }
-
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                let c = char::from_u32(u).unwrap();
-                r.push(c)
-            },
-            Some('U') => {
-                let mut s = String::new();
-                for _ in 0..8 {
-                    if let Some(c) = queue.pop_front() {
-                        s.push(c)
-                    } else {
-                        panic!("unescape_pattern: \\u is not followed by 8 chars")
-                    }
-                }
-
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                let c = char::from_u32(u).unwrap();
-                r.push(c)
-            },
-            Some(c) => r.push(c),
-            None => panic!("unescape pattern. No more characters after \\"),
-        }
-    }
-    r
-}
-
 /// [72b] from [72] pattern = ([^/\\\n\r] | '\\' [nrt\\|.?*+(){}$-\[\]^/] | UCHAR) +
 fn pattern(i: Span) -> IRes<String> {
     let (i, chars) = many1(alt((
@@ -1720,7 +1680,12 @@ fn pattern(i: Span) -> IRes<String> {
 /// from [72b] escaped_pattern = '\\' [nrt\\|.?*+(){}$-\[\]^/]
 fn escaped_pattern(i: Span) -> IRes<Vec<char>> {
     let (i, c) = preceded(token(r"\"), one_of(r#"nrt\|.?*+(){}$-[]^/"#)).parse(i)?;
-    Ok((i, vec!['\\', c]))
+    // The slash is only escaped because it delimits the pattern
+    if c == '/' {
+        Ok((i, vec![c]))
+    } else {
+        Ok((i, vec!['\\', c]))
+    }
 }
 
 /// Characters requiring escape sequences in patterns
@@ -1986,65 +1951,6 @@ fn iri_char(i: Span) -> IRes<char> {
     Ok((i, char))
 }
 
-#[derive(Error, Debug)]
-enum UCharError {
-    #[error("Doesn't start by \\")]
-    NoStartByBackSlash,
-
-    #[error("unescape_code: \\u is not followed by 4 chars")]
-    LowercaseUNotFollowedBy4chars,
-
-    #[error("unescape code: \\U is not followed by 8 chars")]
-    UppercaseUNotFollowedBy8chars,
-
-    #[error("Unexpected {c} after \\")]
-    UnexpectedCharacterAfterBackSlash { c: char },
-
-    #[error("No character after \\")]
-    NoCharAfterBackSlash,
-}
-
-fn unescape_uchar(str: &str) -> Result<char, UCharError> {
-    let mut r: char = '?';
-    let mut queue: VecDeque<_> = str.chars().collect();
-    while let Some(c) = queue.pop_front() {
-        if c != '\\' {
-            return Err(UCharError::NoStartByBackSlash);
-        }
-        match queue.pop_front() {
-            Some('u') => {
-                let mut s = String::new();
-                for _ in 0..4 {
-                    if let Some(c) = queue.pop_front() {
-                        s.push(c)
-                    } else {
-                        return Err(UCharError::LowercaseUNotFollowedBy4chars);
-                    }
-                }
-
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
-            },
-            Some('U') => {
-                let mut s = String::new();
-                for _ in 0..8 {
-                    if let Some(c) = queue.pop_front() {
-                        s.push(c)
-                    } else {
-                        return Err(UCharError::UppercaseUNotFollowedBy8chars);
-                    }
-                }
-
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
-            },
-            Some(c) => return Err(UCharError::UnexpectedCharacterAfterBackSlash { c }),
-            None => return Err(UCharError::NoCharAfterBackSlash),
-        }
-    }
-    Ok(r)
-}
-
 /// `iri_chr = [^#0000- <>\"{}|^`\\]`
 fn iri_chr(i: Span) -> IRes<char> {
     satisfy(is_iri_ref)(i)
-- 
2.43.0


From 852c43d67c6dc1e980170edbcfd8fb27e9c6fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 19/79] fix: properties of a bracketed triple expression don't
 replace the ones of its content; prefixed IRI stems are resolved

---
 shex_ast/src/ast/iri_exclusion.rs    | 13 +++++-
 shex_ast/src/ast/value_set_value.rs  | 16 +++++--
 shex_ast/src/compact/shex_grammar.rs | 65 ++++++++++++++++++++++++++--
 3 files changed, 85 insertions(+), 9 deletions(-)

diff --git a/shex_ast/src/ast/iri_exclusion.rs b/shex_ast/src/ast/iri_exclusion.rs
index 45d603e..f829630 100644
--- a/shex_ast/src/ast/iri_exclusion.rs
+++ b/shex_ast/src/ast/iri_exclusion.rs
@@ -1,4 +1,6 @@
-use prefixmap::IriRef;
+use prefixmap::error::DerefError;
+use prefixmap::{DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use serde::ser::SerializeMap;
 use serde::{Deserialize, Serialize, Serializer};
 use std::fmt::Display;
@@ -10,6 +12,15 @@ pub enum IriExclusion {
     IriStem(IriRef),
 }
 
+impl DerefIri for IriExclusion {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriExclusion::Iri(iri) => Ok(IriExclusion::Iri(iri.deref_iri(base, prefixmap)?)),
+            IriExclusion::IriStem(stem) => Ok(IriExclusion::IriStem(stem.deref_iri(base, prefixmap)?)),
+        }
+    }
+}
+
 impl Serialize for IriExclusion {
     fn serialize<S>(&self, serializer: S) -> result::Result<S::Ok, S::Error>
     where
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index ae5a02a..022321c 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -108,11 +108,19 @@ impl DerefIri for ValueSetValue {
                 language_tag: language_tag.clone(),
             }),
             ValueSetValue::LanguageStem { stem } => Ok(ValueSetValue::LanguageStem { stem: stem.clone() }),
-            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem { stem: stem.clone() }),
-            ValueSetValue::IriStemRange { stem, exclusions } => Ok(ValueSetValue::IriStemRange {
-                stem: stem.clone(),
-                exclusions: exclusions.clone(),
+            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem {
+                stem: stem.deref_iri(base, prefixmap)?,
             }),
+            ValueSetValue::IriStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    IriRefOrWildcard::IriRef(iri) => IriRefOrWildcard::IriRef(iri.deref_iri(base, prefixmap)?),
+                    IriRefOrWildcard::Wildcard => IriRefOrWildcard::Wildcard,
+                };
+                let exclusions = exclusions
+                    .map(|es| es.into_iter().map(|e| e.deref_iri(base, prefixmap)).collect())
+                    .transpose()?;
+                Ok(ValueSetValue::IriStemRange { stem, exclusions })
+            },
             ValueSetValue::LanguageStemRange { stem, exclusions } => Ok(ValueSetValue::LanguageStemRange {
                 stem: stem.clone(),
                 exclusions: exclusions.clone(),
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 4099821..fcd919d 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -780,7 +780,12 @@ fn unary_triple_expr_opt1(i: Span) -> IRes<TripleExpr> {
         alt((bracketed_triple_expr(), triple_constraint())),
     )
         .parse(i)?;
-    Ok((i, te.with_id(id)))
+    let te = match (id, te) {
+        (None, te) => te,
+        (Some(id), te) if is_labelled(&te) => TripleExpr::each_of(vec![te]).with_id(Some(id)),
+        (Some(id), te) => te.with_id(Some(id)),
+    };
+    Ok((i, te))
 }
 
 // From unary_triple_expr_opt1
@@ -805,7 +810,13 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
                 semantic_actions,
             )
                 .parse(i)?;
-            let mut te = te;
+            let has_properties = maybe_card.is_some() || !annotations.is_empty() || sem_acts.is_some();
+            // The properties of the group must not replace the ones of its content
+            let mut te = if has_properties && has_own_properties(&te) {
+                TripleExpr::each_of(vec![te])
+            } else {
+                te
+            };
             if let Some(card) = maybe_card {
                 te = te.with_min(card.min());
                 te = te.with_max(card.max());
@@ -813,13 +824,56 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
             if !annotations.is_empty() {
                 te = te.with_annotations(Some(annotations));
             }
-            te = te.with_sem_acts(sem_acts);
+            if sem_acts.is_some() {
+                te = te.with_sem_acts(sem_acts);
+            }
             Ok((i, te))
         },
         || ShExParseError::BracketedTripleExpr,
     )
 }
 
+/// Checks if a triple expression already has a label
+fn is_labelled(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf { id, .. } | TripleExpr::OneOf { id, .. } | TripleExpr::TripleConstraint { id, .. } => {
+            id.is_some()
+        },
+        TripleExpr::Ref(_) => true,
+    }
+}
+
+/// Checks if a triple expression already has a label, a cardinality, annotations or semantic actions
+fn has_own_properties(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::TripleConstraint {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => id.is_some() || min.is_some() || max.is_some() || sem_acts.is_some() || annotations.is_some(),
+        TripleExpr::Ref(_) => true,
+    }
+}
+
 /// `[45] tripleConstraint ::= senseFlags? predicate inlineShapeExpression cardinality? annotation* semanticActions`
 fn triple_constraint<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
     map_error(
@@ -1440,7 +1494,10 @@ fn uchar(i: Span) -> IRes<char> {
         preceded(token(r"\U"), count(hex, 8)),
     )))
     .parse(i)?;
-    match u32::from_str_radix(&str.fragment()[2..], 16).ok().and_then(char::from_u32) {
+    match u32::from_str_radix(&str.fragment()[2..], 16)
+        .ok()
+        .and_then(char::from_u32)
+    {
         Some(c) => Ok((i, c)),
         None => Err(Err::Error(error_position!(str, ErrorKind::Char))),
     }
-- 
2.43.0


From eb9bb555886e0a952cb8eff3141add33b902ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 20/79] fix: PN_LOCAL_ESC sequences in ShExC local names are
 unescaped

---
 shex_ast/src/compact/shex_grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index fcd919d..96d5d47 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1907,7 +1907,8 @@ fn digits(i: Span) -> IRes<i128> {
 fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local)))
+    // PN_LOCAL_ESC sequences: the backslash is not part of the local name
+    Ok((i, IriRef::prefixed(*prefix.fragment(), local.replace('\\', "").as_str())))
 }
 
 /// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
-- 
2.43.0


From 47661b24f4e05a170bb0952fde7c5ac90a797049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 21/79] fix: a maximum cardinality of 0 can be read from a
 compiled schema

---
 rbe/src/max.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rbe/src/max.rs b/rbe/src/max.rs
index abccb26..a6cd4d8 100644
--- a/rbe/src/max.rs
+++ b/rbe/src/max.rs
@@ -113,7 +113,7 @@ impl From<i64> for Max {
     fn from(m: i64) -> Self {
         match m {
             -1 => Max::Unbounded,
-            n if n > 0 => Max::IntMax(n as usize),
+            n if n >= 0 => Max::IntMax(n as usize),
             _ => panic!("Error converting i64 to Max, value {m} < -1"),
         }
     }
-- 
2.43.0


From fd19046d1c0ad0c65280c21b39eb12b053a8ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 22/79] fix: boolean literals can be read back from the
 serialised form they were written in

---
 .../src/rdf_core/term/literal/literal.rs      | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 50d1606..3ee34a5 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -6,13 +6,12 @@ use rust_decimal::Decimal;
 use std::{
     fmt::{self, Debug, Display},
     hash::Hash,
-    result,
 };
 
 use crate::rdf_core::vocabs::{RdfVocab, XsdVocab};
 use prefixmap::{DerefError, DerefIri, IriRef, PrefixMap};
 use rudof_iri::IriS;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{Deserialize, Serialize};
 
 /// Types that implement this trait can be used as RDF Literals.
 ///
@@ -174,7 +173,6 @@ pub enum ConcreteLiteral {
     DatetimeLiteral(XsdDateTime),
 
     /// A boolean literal (true or false).
-    #[serde(serialize_with = "serialize_boolean_literal")]
     BooleanLiteral(bool),
 
     /// Represents a literal with an invalid datatype.
@@ -848,7 +846,9 @@ impl ConcreteLiteral {
     /// Returns an error if the string cannot be parsed as a `f64`.
     pub fn parse_double(s: &str) -> Result<f64, String> {
         // The only special values in the XSD double lexical space are "INF", "-INF" and "NaN"
-        if !matches!(s, "INF" | "-INF" | "NaN") && s.contains(|c: char| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) {
+        if !matches!(s, "INF" | "-INF" | "NaN")
+            && s.contains(|c: char| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E'))
+        {
             return Err(format!("{s} is not a valid xsd:double lexical form"));
         }
         s.parse::<f64>()
@@ -889,7 +889,9 @@ impl ConcreteLiteral {
     /// Returns an error if the string cannot be parsed as a float.
     pub fn parse_float(s: &str) -> Result<f32, String> {
         // The only special values in the XSD float lexical space are "INF", "-INF" and "NaN"
-        if !matches!(s, "INF" | "-INF" | "NaN") && s.contains(|c: char| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) {
+        if !matches!(s, "INF" | "-INF" | "NaN")
+            && s.contains(|c: char| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E'))
+        {
             return Err(format!("{s} is not a valid xsd:float lexical form"));
         }
         s.parse::<f32>()
@@ -1200,18 +1202,6 @@ impl From<&ConcreteLiteral> for oxrdf::Literal {
 // Helper Functions
 // ============================================================================
 
-/// Serializes a boolean literal as a string ("true" or "false").
-///
-/// # Parameters
-/// - `value`: A reference to the boolean value to serialize.
-/// - `serializer`: The serializer to use (implements the `Serializer` trait).
-fn serialize_boolean_literal<S>(value: &bool, serializer: S) -> result::Result<S::Ok, S::Error>
-where
-    S: Serializer,
-{
-    serializer.serialize_str(if *value { "true" } else { "false" })
-}
-
 /// Validates a literal's lexical form against its declared datatype.
 ///
 /// Returns a properly typed literal if validation succeeds, or a
-- 
2.43.0


From 8be81fe95a2e903fe5d12ed988db0fb2d19626af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 23/79] fix: the ShExC serialiser writes every schema it can
 read back: literals, value sets, stems, groups, cardinalities, EXTENDS,
 facets and semantic actions

---
 shex_ast/src/compact/compact_printer.rs       | 126 +++--
 .../src/compact/shapemap_compact_printer.rs   | 123 +----
 shex_ast/src/compact/shex_compact_printer.rs  | 461 +++++++++++++-----
 shex_ast/src/compact/shex_grammar.rs          |   5 +-
 4 files changed, 431 insertions(+), 284 deletions(-)

diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 26b2d2d..d12ae5f 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -3,24 +3,93 @@ use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder};
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, NumericLiteral};
+use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
 use std::borrow::Cow;
 
 pub(crate) fn pp_object_value<'a, A>(
     v: &ObjectValue,
     doc: &'a Arena<'a, A>,
     prefixmap: &PrefixMap,
+    string_color: Option<Color>,
 ) -> DocBuilder<'a, Arena<'a, A>, A> {
     match v {
         ObjectValue::IriRef(i) => pp_iri_ref(i, doc, prefixmap),
-        ObjectValue::Literal(ConcreteLiteral::BooleanLiteral(_value)) => {
-            todo!()
+        ObjectValue::Literal(literal) => pp_literal(literal, doc, prefixmap, string_color),
+    }
+}
+
+pub(crate) fn pp_literal<'a, A>(
+    literal: &ConcreteLiteral,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+    string_color: Option<Color>,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
+    match literal {
+        ConcreteLiteral::StringLiteral { lexical_form, lang } => {
+            let str = pp_string(lexical_form, doc, string_color);
+            match lang {
+                Some(lang) => str.append(doc.text(format!("@{lang}"))),
+                None => str,
+            }
+        },
+        ConcreteLiteral::BooleanLiteral(value) => doc.text(value.to_string()),
+        // Literals which can be written without quotes
+        ConcreteLiteral::DatatypeLiteral { .. } | ConcreteLiteral::NumericLiteral(_)
+            if is_plain_number(&literal.lexical_form(), &literal.datatype()) =>
+        {
+            doc.text(literal.lexical_form())
+        },
+        literal => pp_string(&literal.lexical_form(), doc, string_color)
+            .append(doc.text("^^"))
+            .append(pp_iri_ref(&literal.datatype(), doc, prefixmap)),
+    }
+}
+
+/// Prints a quoted string
+pub(crate) fn pp_string<'a, A>(
+    str: &str,
+    doc: &'a Arena<'a, A>,
+    string_color: Option<Color>,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
+    let mut quoted = String::from("\"");
+    for c in str.chars() {
+        match c {
+            '"' => quoted.push_str("\\\""),
+            '\\' => quoted.push_str("\\\\"),
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    match string_color {
+        Some(color) => doc.text(quoted.as_str().color(color).to_string()),
+        None => doc.text(quoted),
+    }
+}
+
+/// Checks if a literal can be written as an unsigned number without quotes.
+/// A signed number could be read as an exclusion.
+fn is_plain_number(lexical_form: &str, datatype: &IriRef) -> bool {
+    let IriRef::Iri(datatype) = datatype else { return false };
+    let is_digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
+    match datatype.as_str() {
+        "http://www.w3.org/2001/XMLSchema#integer" => is_digits(lexical_form),
+        "http://www.w3.org/2001/XMLSchema#decimal" => lexical_form
+            .split_once('.')
+            .is_some_and(|(whole, fraction)| is_digits(whole) && is_digits(fraction)),
+        "http://www.w3.org/2001/XMLSchema#double" => {
+            let Some((mantissa, exponent)) = lexical_form.split_once(['e', 'E']) else {
+                return false;
+            };
+            let is_mantissa = match mantissa.split_once('.') {
+                Some((whole, fraction)) => is_digits(whole) && (fraction.is_empty() || is_digits(fraction)),
+                None => is_digits(mantissa),
+            };
+            is_mantissa && is_digits(exponent.trim_start_matches(['+', '-']))
         },
-        ObjectValue::Literal(ConcreteLiteral::NumericLiteral(num)) => pp_numeric_literal(num, doc),
-        ObjectValue::Literal(ConcreteLiteral::DatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::WrongDatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::DatetimeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::StringLiteral { .. }) => todo!(),
+        _ => false,
     }
 }
 
@@ -41,26 +110,6 @@ pub(crate) fn pp_bnode<'a, A>(value: &BNode, doc: &'a Arena<'a, A>) -> DocBuilde
     doc.text(format!("{value}"))
 }
 
-fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
-    match value {
-        NumericLiteral::Integer(n) => doc.text(n.to_string()),
-        NumericLiteral::Decimal(decimal) => doc.text(decimal.to_string()),
-        NumericLiteral::Double(d) => doc.text(d.to_string()),
-        NumericLiteral::Long(l) => doc.text(l.to_string()),
-        NumericLiteral::Float(n) => doc.text(n.to_string()),
-        NumericLiteral::Byte(n) => doc.text(n.to_string()),
-        NumericLiteral::Short(n) => doc.text(n.to_string()),
-        NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedShort(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedByte(n) => doc.text(n.to_string()),
-        NumericLiteral::PositiveInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NonPositiveInteger(n) => doc.text(n.to_string()),
-    }
-}
-
 fn pp_iri_ref<'a, A>(value: &IriRef, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
     match value {
         IriRef::Iri(iri) => pp_iri(iri, doc, prefixmap),
@@ -88,6 +137,23 @@ where
     }
 }
 
-fn pp_iri<'a, A>(iri: &IriS, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
-    doc.text(prefixmap.qualify(iri))
+/// Prints an IRI, as a prefixed name only if its local part is a valid local name
+pub(crate) fn pp_iri<'a, A>(
+    iri: &IriS,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
+    match prefixmap.qualify_local(iri) {
+        Some(local) if is_local_name(&local) => doc.text(prefixmap.qualify(iri)),
+        _ => doc.text(format!("<{iri}>")),
+    }
+}
+
+/// Checks if a string can be the local part of a prefixed name without escaping
+fn is_local_name(local: &str) -> bool {
+    let is_name_char = |c: char| c.is_ascii_alphanumeric() || c == '_';
+    match local.chars().next() {
+        None => true,
+        Some(c) => is_name_char(c) && local.chars().all(|c| is_name_char(c) || c == '-'),
+    }
 }
diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index d247cc4..e323d4c 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -2,12 +2,10 @@ use crate::ObjectValue;
 use crate::shapemap::Pattern;
 use crate::shapemap::SHACLPathRef;
 use crate::shapemap::{Association, NodeSelector, ShapeSelector, query_shape_map::QueryShapeMap};
-use crate::{keyword, pp_label, pp_object_value};
+use crate::{keyword, pp_iri, pp_label, pp_object_value};
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder};
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
 use std::borrow::Cow;
 use std::marker::PhantomData;
 
@@ -179,7 +177,7 @@ where
 
     fn pp_node_selector(&self, ns: &NodeSelector) -> DocBuilder<'a, Arena<'a, A>, A> {
         match ns {
-            NodeSelector::Node(v) => pp_object_value(v, self.doc, &self.nodes_prefixmap),
+            NodeSelector::Node(v) => self.pp_object_value(v),
             NodeSelector::BNode(label) => self.doc.text(format!("_:{label}")),
             NodeSelector::TriplePattern { subject, path, object } => self
                 .doc
@@ -224,125 +222,12 @@ where
     }
 
     pub fn pp_object_value(&self, ov: &ObjectValue) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match ov {
-            ObjectValue::IriRef(iri_ref) => self.pp_iri_ref(iri_ref, &self.nodes_prefixmap),
-            ObjectValue::Literal(sliteral) => self.pp_literal(sliteral),
-        }
-    }
-
-    fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
-        }
-    }
-
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
-        }
-    }
-
-    fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
-        if let Some(color) = self.string_color {
-            self.doc.text(s.as_str().color(color).to_string())
-        } else {
-            self.doc.text(s)
-        }
+        pp_object_value(ov, self.doc, &self.nodes_prefixmap, self.string_color)
     }
 
     fn pp_iri_ref(&self, value: &IriRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
         match value {
-            IriRef::Iri(iri) => self.doc.text(prefixmap.qualify(iri)),
+            IriRef::Iri(iri) => pp_iri(iri, self.doc, prefixmap),
             IriRef::Prefixed { prefix, local } => self
                 .doc
                 .text(prefix.clone())
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index a564ed2..384579c 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -1,10 +1,16 @@
 /// This file converts ShEx AST to ShEx compact syntax
 use crate::{
-    IriOrStr,
+    IriOrStr, LangOrWildcard, TripleExprLabel, TripleExprWrapper,
     ast::{
         Annotation, BNode, NodeConstraint, NodeKind, NumericFacet, ObjectValue, Pattern, Schema, SemAct, Shape,
-        ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, TripleExpr, XsFacet, value_set_value::ValueSetValue,
+        ShapeDecl, ShapeExpr, ShapeExprLabel, ShapeExprWrapper, StringFacet, TripleExpr, XsFacet,
+        value_set_value::ValueSetValue,
     },
+    iri_exclusion::IriExclusion,
+    iri_ref_or_wildcard::IriRefOrWildcard,
+    language_exclusion::LanguageExclusion,
+    literal_exclusion::LiteralExclusion,
+    string_or_wildcard::StringOrWildcard,
 };
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
@@ -15,7 +21,7 @@ use rust_decimal::Decimal;
 use std::{borrow::Cow, io, marker::PhantomData};
 use tracing::trace;
 
-use crate::pp_object_value;
+use crate::{pp_iri, pp_literal, pp_object_value, pp_string};
 
 /// Struct that can be used to pretty print ShEx schemas
 ///
@@ -253,7 +259,13 @@ where
     }
 
     fn pp_shape_decl(&self, sd: &ShapeDecl) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.pp_label(&sd.id)
+        let abstract_ = if sd.is_abstract {
+            self.keyword("abstract ")
+        } else {
+            self.doc.nil()
+        };
+        abstract_
+            .append(self.pp_label(&sd.id))
             .append(self.space())
             .append(self.pp_shape_expr(&sd.shape_expr))
     }
@@ -265,7 +277,7 @@ where
                 .append(printer.space())
                 .append("=")
                 .append(printer.space())
-                .append(printer.pp_shape_expr(se))
+                .append(printer.pp_inline_shape_expr(se))
                 .append(printer.doc.hardline())
         }
     }
@@ -278,33 +290,58 @@ where
             ShapeExpr::External => self.pp_external(),
             ShapeExpr::ShapeAnd { shape_exprs } => {
                 trace!("Displaying ShapeExpr::ShapeAnd");
-                let mut docs = Vec::new();
-                for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
-                }
-                self.doc
-                    .intersperse(docs, self.keyword(" AND "))
-                    .group()
-                    .nest(self.indent)
-            },
-            ShapeExpr::ShapeOr { shape_exprs } => {
-                let mut docs = Vec::new();
-                for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
-                }
-                self.doc
-                    .intersperse(docs, self.keyword(" OR "))
-                    .group()
-                    .nest(self.indent)
+                self.pp_shape_exprs(shape_exprs, " AND ")
             },
+            ShapeExpr::ShapeOr { shape_exprs } => self.pp_shape_exprs(shape_exprs, " OR "),
             ShapeExpr::ShapeNot { shape_expr } => self
                 .doc
                 .nil()
                 .append(self.keyword("NOT "))
-                .append(self.pp_shape_expr(&shape_expr.se)),
+                .append(self.pp_shape_expr_atom(&shape_expr.se)),
+        }
+    }
+
+    fn pp_shape_exprs(
+        &self,
+        shape_exprs: &[ShapeExprWrapper],
+        operator: &'static str,
+    ) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let mut docs = Vec::new();
+        for sew in shape_exprs {
+            docs.push(self.pp_shape_expr_atom(&sew.se))
+        }
+        self.doc
+            .intersperse(docs, self.keyword(operator))
+            .group()
+            .nest(self.indent)
+    }
+
+    /// Prints the operand of a boolean operator: nested operators need parentheses
+    fn pp_shape_expr_atom(&self, se: &ShapeExpr) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match se {
+            ShapeExpr::ShapeAnd { .. } | ShapeExpr::ShapeOr { .. } | ShapeExpr::ShapeNot { .. } => {
+                self.parens(self.pp_shape_expr(se))
+            },
+            ShapeExpr::Shape(s) if s.annotations.is_some() || s.sem_acts.is_some() => {
+                self.parens(self.pp_shape_expr(se))
+            },
+            _ => self.pp_shape_expr(se),
         }
     }
 
+    /// Prints a shape expression in a place where annotations and semantic actions would
+    /// belong to the enclosing expression
+    fn pp_inline_shape_expr(&self, se: &ShapeExpr) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match se {
+            ShapeExpr::Shape(_) => self.pp_shape_expr_atom(se),
+            _ => self.pp_shape_expr(se),
+        }
+    }
+
+    fn parens(&self, doc: DocBuilder<'a, Arena<'a, A>, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text("(").append(doc).append(self.doc.text(")"))
+    }
+
     fn space(&self) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.space()
     }
@@ -318,6 +355,7 @@ where
         let extra = self.opt_pp1(&s.extra, self.pp_extra());
         let extends = self.opt_pp1(&s.extends, self.pp_extends());
         let annotations = self.opt_pp1(&s.annotations, self.pp_annotations());
+        let sem_acts = self.opt_pp1(&s.sem_acts, self.pp_sem_acts());
         closed
             .append(extra)
             .append(extends)
@@ -328,6 +366,7 @@ where
             .append(self.doc.line())
             .append(self.doc.text("}"))
             .append(annotations)
+            .append(sem_acts)
             .group()
     }
 
@@ -337,15 +376,15 @@ where
         move |vs, printer| {
             let mut docs = Vec::new();
             for v in vs {
-                docs.push(printer.pp_reference(v))
+                docs.push(
+                    printer
+                        .keyword("EXTENDS")
+                        .append(printer.space())
+                        .append(printer.pp_reference(v))
+                        .append(printer.space()),
+                )
             }
-            printer
-                .doc
-                .nil()
-                .append(printer.keyword("EXTENDS"))
-                .append(printer.space())
-                .append(printer.doc.intersperse(docs, printer.doc.space()))
-                .append(printer.space())
+            printer.doc.concat(docs)
         }
     }
 
@@ -369,18 +408,23 @@ where
         &self,
     ) -> impl Fn(&TripleExpr, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> + '_ {
         move |te, printer| match te {
+            TripleExpr::EachOf { .. } | TripleExpr::OneOf { .. } if has_group_properties(te) => {
+                printer.pp_triple_expr_group(te)
+            },
             TripleExpr::EachOf { expressions, .. } => {
-                let mut docs = Vec::new();
-                for e in expressions {
-                    let pp_te = printer.pp_triple_expr()(&e.te, printer);
-                    docs.push(pp_te)
-                }
+                let separator = printer.doc.text(";").append(printer.doc.line());
+                printer
+                    .doc
+                    .intersperse(printer.pp_triple_expr_operands(expressions), separator)
+            },
+            TripleExpr::OneOf { expressions, .. } => {
+                let separator = printer.doc.line().append(printer.doc.text("| "));
                 printer
                     .doc
-                    .intersperse(docs, printer.doc.text(";").append(printer.doc.line()))
+                    .intersperse(printer.pp_triple_expr_operands(expressions), separator)
             },
-            TripleExpr::OneOf { .. } => todo!(),
             TripleExpr::TripleConstraint {
+                id,
                 negated,
                 inverse,
                 predicate,
@@ -389,25 +433,90 @@ where
                 max,
                 sem_acts,
                 annotations,
-                ..
             } => {
                 let doc_expr = match value_expr {
-                    Some(se) => printer.pp_shape_expr(se),
+                    Some(se) => printer.pp_inline_shape_expr(se),
                     None => printer.doc.text("."),
                 };
                 printer
                     .doc
                     .nil()
+                    .append(self.pp_triple_expr_id(id))
                     .append(self.pp_negated(negated))
                     .append(self.pp_inverse(inverse))
                     .append(self.pp_iri_ref(predicate))
                     .append(self.doc.space())
                     .append(doc_expr)
                     .append(self.pp_cardinality(min, max))
-                    .append(self.opt_pp1(sem_acts, self.pp_actions()))
                     .append(self.opt_pp1(annotations, self.pp_annotations()))
+                    .append(self.opt_pp1(sem_acts, self.pp_sem_acts()))
             },
-            TripleExpr::Ref(_) => todo!(),
+            TripleExpr::Ref(label) => printer.doc.text("&").append(printer.pp_triple_expr_label(label)),
+        }
+    }
+
+    /// Prints the operands of a group, nested groups need parentheses
+    fn pp_triple_expr_operands(&self, expressions: &[TripleExprWrapper]) -> Vec<DocBuilder<'a, Arena<'a, A>, A>> {
+        expressions
+            .iter()
+            .map(|e| match &e.te {
+                te @ (TripleExpr::EachOf { .. } | TripleExpr::OneOf { .. }) => self.pp_triple_expr_group(te),
+                te => self.pp_triple_expr()(te, self),
+            })
+            .collect()
+    }
+
+    /// Prints a group between parentheses with its label, cardinality, annotations and semantic actions
+    fn pp_triple_expr_group(&self, te: &TripleExpr) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match te {
+            TripleExpr::EachOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            }
+            | TripleExpr::OneOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => {
+                let separator = match te {
+                    TripleExpr::OneOf { .. } => " | ",
+                    _ => "; ",
+                };
+                let body = self
+                    .doc
+                    .intersperse(self.pp_triple_expr_operands(expressions), self.doc.text(separator));
+                self.pp_triple_expr_id(id)
+                    .append(self.parens(body))
+                    .append(self.pp_cardinality(min, max))
+                    .append(self.opt_pp1(annotations, self.pp_annotations()))
+                    .append(self.opt_pp1(sem_acts, self.pp_sem_acts()))
+            },
+            te => self.pp_triple_expr()(te, self),
+        }
+    }
+
+    fn pp_triple_expr_id(&self, id: &Option<TripleExprLabel>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match id {
+            Some(label) => self
+                .doc
+                .text("$")
+                .append(self.pp_triple_expr_label(label))
+                .append(self.doc.text(" ")),
+            None => self.doc.nil(),
+        }
+    }
+
+    fn pp_triple_expr_label(&self, label: &TripleExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match label {
+            TripleExprLabel::IriRef { value } => self.pp_iri_ref(value),
+            TripleExprLabel::BNode { value } => self.pp_bnode(value),
         }
     }
 
@@ -428,37 +537,16 @@ where
     }
 
     fn pp_cardinality(&self, min: &Option<i32>, max: &Option<i32>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match (min, max) {
-            (Some(1), Some(1)) => self.doc.nil(),
-            (Some(0), Some(1)) => self.doc.space().append(self.doc.text("?")),
-            (Some(0), Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (Some(1), Some(-1)) => self.doc.space().append(self.doc.text("+")),
-            (Some(1), None) => self.doc.space().append(self.doc.text("+")),
-            (Some(m), Some(n)) => self.doc.space().append(
-                self.enclose_space(
-                    "{",
-                    self.doc
-                        .text(m.to_string())
-                        .append(self.doc.text(","))
-                        .append(self.doc.text(n.to_string())),
-                    "}",
-                ),
-            ),
-            (Some(m), None) => self
-                .doc
-                .space()
-                .append(self.doc.text("{"))
-                .append(self.doc.text(m.to_string()))
-                .append(self.doc.text(",}")),
-            (None, Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (None, Some(n)) => self
-                .doc
-                .space()
-                .append(self.doc.text("{,"))
-                .append(self.doc.text(n.to_string()))
-                .append(self.doc.text("}")),
-            (None, None) => self.doc.nil(),
-        }
+        // Missing bounds are 1 and -1 means unbounded
+        let cardinality = match (min.unwrap_or(1), max.unwrap_or(1)) {
+            (1, 1) => return self.doc.nil(),
+            (0, 1) => "?".to_string(),
+            (0, -1) => "*".to_string(),
+            (1, -1) => "+".to_string(),
+            (m, -1) => format!("{{{m},}}"),
+            (m, n) => format!("{{{m},{n}}}"),
+        };
+        self.doc.space().append(self.doc.text(cardinality))
     }
 
     fn pp_extra(&self) -> impl Fn(&Vec<IriRef>, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -472,6 +560,7 @@ where
                 .nil()
                 .append(printer.keyword("EXTRA "))
                 .append(printer.doc.intersperse(docs, printer.doc.space()))
+                .append(printer.doc.space())
         }
     }
 
@@ -493,44 +582,57 @@ where
     }
 
     fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
-        }
+        pp_literal(literal, self.doc, &self.prefixmap, self.string_color)
     }
 
     fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
-        if let Some(color) = self.string_color {
-            self.doc.text(s.as_str().color(color).to_string())
-        } else {
-            self.doc.text(s)
-        }
+        pp_string(str, self.doc, self.string_color)
     }
 
+    /// Prints a node constraint. The combinations which don't exist in the compact syntax
+    /// are printed as a conjunction
     fn pp_node_constraint(&self, nc: &NodeConstraint) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.opt_pp(nc.node_kind(), self.pp_node_kind())
-            .append(self.opt_pp(nc.datatype(), self.pp_datatype()))
-            .append(self.opt_pp(nc.values(), self.pp_value_set()))
-            .append(self.opt_pp(nc.xs_facet(), self.pp_xsfacets()))
+        let mut kinds = Vec::new();
+        let mut non_literal = false;
+        if let Some(node_kind) = nc.node_kind() {
+            non_literal = node_kind != NodeKind::Literal;
+            kinds.push(self.pp_node_kind()(&node_kind, self));
+        }
+        if let Some(datatype) = nc.datatype() {
+            non_literal = false;
+            kinds.push(self.pp_datatype()(&datatype, self));
+        }
+        if let Some(values) = nc.values() {
+            non_literal = false;
+            kinds.push(self.pp_value_set()(&values, self));
+        }
+        let (numeric, string): (Vec<_>, Vec<_>) = nc
+            .xs_facet()
+            .unwrap_or_default()
+            .into_iter()
+            .partition(|f| matches!(f, XsFacet::NumericFacet(_)));
+        let mut facets = self.doc.nil();
+        let any_kind = !kinds.is_empty();
+        if !string.is_empty() {
+            let string = self.pp_xsfacets()(&string, self);
+            match kinds.pop() {
+                Some(kind) => kinds.push(kind.append(self.doc.text(" ")).append(string)),
+                None => kinds.push(string),
+            }
+        }
+        if !numeric.is_empty() {
+            let numeric = self.pp_xsfacets()(&numeric, self);
+            if any_kind && !non_literal {
+                facets = self.doc.text(" ").append(numeric);
+            } else {
+                kinds.push(numeric);
+            }
+        }
+        match kinds.len() {
+            0 => self.doc.text("."),
+            1 => self.doc.concat(kinds).append(facets),
+            _ => self.parens(self.doc.intersperse(kinds, self.keyword(" AND ")).append(facets)),
+        }
     }
 
     fn pp_node_kind(&self) -> impl Fn(&NodeKind, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -550,11 +652,7 @@ where
             for v in values {
                 docs.push(printer.pp_value_set_value(v))
             }
-            printer.doc.space().append(printer.enclose_space(
-                "[",
-                printer.doc.intersperse(docs, printer.doc.space()),
-                "]",
-            ))
+            printer.enclose_space("[", printer.doc.intersperse(docs, printer.doc.space()), "]")
         }
     }
 
@@ -564,10 +662,7 @@ where
             for v in xsfacets {
                 docs.push(printer.pp_xsfacet(v))
             }
-            printer
-                .doc
-                .space()
-                .append(printer.doc.intersperse(docs, printer.doc.space()))
+            printer.doc.intersperse(docs, printer.doc.space())
         }
     }
 
@@ -621,8 +716,24 @@ where
             Some(flags) => flags.clone(),
             None => "".to_string(),
         };
-        let str = format!("/{}/{}", pattern.str, flags);
-        self.doc.text(str)
+        // The slash delimits the pattern and line terminators can't appear in it
+        let mut escaped = String::new();
+        let mut chars = pattern.str.chars();
+        while let Some(c) = chars.next() {
+            match c {
+                '\\' => {
+                    escaped.push('\\');
+                    if let Some(next) = chars.next() {
+                        escaped.push(next)
+                    }
+                },
+                '/' => escaped.push_str("\\/"),
+                '\n' => escaped.push_str("\\n"),
+                '\r' => escaped.push_str("\\r"),
+                c => escaped.push(c),
+            }
+        }
+        self.doc.text(format!("/{escaped}/{flags}"))
     }
 
     fn pp_datatype(&self) -> impl Fn(&IriRef, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -635,17 +746,64 @@ where
 
     fn pp_value_set_value(&self, v: &ValueSetValue) -> DocBuilder<'a, Arena<'a, A>, A> {
         match v {
-            ValueSetValue::LanguageStem { .. } => todo!(),
-            ValueSetValue::LanguageStemRange { .. } => todo!(),
-            ValueSetValue::ObjectValue(ov) => pp_object_value(ov, self.doc, &self.prefixmap),
-            ValueSetValue::IriStem { .. } => todo!(),
-            ValueSetValue::IriStemRange { .. } => todo!(),
-            ValueSetValue::LiteralStem { .. } => todo!(),
-            ValueSetValue::LiteralStemRange { .. } => todo!(),
-            ValueSetValue::Language { .. } => todo!(),
+            ValueSetValue::ObjectValue(ov) => pp_object_value(ov, self.doc, &self.prefixmap, self.string_color),
+            ValueSetValue::IriStem { stem } => self.pp_iri_ref(stem).append(self.doc.text("~")),
+            ValueSetValue::IriStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    IriRefOrWildcard::IriRef(iri) => self.pp_iri_ref(iri).append(self.doc.text("~")),
+                    IriRefOrWildcard::Wildcard => self.doc.text("."),
+                };
+                self.pp_stem_range(stem, exclusions, |e| match e {
+                    IriExclusion::Iri(iri) => self.pp_iri_ref(iri),
+                    IriExclusion::IriStem(iri) => self.pp_iri_ref(iri).append(self.doc.text("~")),
+                })
+            },
+            ValueSetValue::LiteralStem { stem } => self.pp_string(stem).append(self.doc.text("~")),
+            ValueSetValue::LiteralStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    StringOrWildcard::String(str) => self.pp_string(str).append(self.doc.text("~")),
+                    StringOrWildcard::Wildcard => self.doc.text("."),
+                };
+                self.pp_stem_range(stem, exclusions, |e| match e {
+                    LiteralExclusion::Literal(str) => self.pp_string(str),
+                    LiteralExclusion::LiteralStem(str) => self.pp_string(str).append(self.doc.text("~")),
+                })
+            },
+            ValueSetValue::Language { language_tag } => self.pp_lang(language_tag),
+            ValueSetValue::LanguageStem { stem } => self.pp_lang_stem(stem),
+            ValueSetValue::LanguageStemRange { stem, exclusions } => {
+                self.pp_stem_range(self.pp_lang_stem(stem), exclusions, |e| match e {
+                    LanguageExclusion::Language(lang) => self.pp_lang(lang),
+                    LanguageExclusion::LanguageStem(lang) => self.pp_lang(lang).append(self.doc.text("~")),
+                })
+            },
+        }
+    }
+
+    fn pp_lang(&self, lang: &Lang) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(format!("@{lang}"))
+    }
+
+    fn pp_lang_stem(&self, stem: &LangOrWildcard) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match stem {
+            LangOrWildcard::Lang(lang) => self.pp_lang(lang).append(self.doc.text("~")),
+            LangOrWildcard::Wildcard { .. } => self.doc.text("@~"),
         }
     }
 
+    fn pp_stem_range<E>(
+        &self,
+        stem: DocBuilder<'a, Arena<'a, A>, A>,
+        exclusions: &Option<Vec<E>>,
+        pp_exclusion: impl Fn(&E) -> DocBuilder<'a, Arena<'a, A>, A>,
+    ) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let mut doc = stem;
+        for exclusion in exclusions.iter().flatten() {
+            doc = doc.append(self.doc.text(" - ")).append(pp_exclusion(exclusion));
+        }
+        doc
+    }
+
     fn pp_label(&self, ref_: &ShapeExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
         match ref_ {
             ShapeExprLabel::BNode { value } => self.pp_bnode(value),
@@ -660,10 +818,10 @@ where
 
     fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
         match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
+            NumericLiteral::Integer(n) => self.doc.text(n.to_string()),
             NumericLiteral::Decimal(d) => self.pp_decimal(d),
             NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
+            NumericLiteral::Long(l) => self.doc.text(l.to_string()),
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
@@ -682,10 +840,6 @@ where
         self.doc.text(format!("{value}"))
     }
 
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
     fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
@@ -756,7 +910,7 @@ where
     fn pp_iri_or_str(&self, iri_or_str: &IriOrStr) -> DocBuilder<'a, Arena<'a, A>, A> {
         match iri_or_str {
             IriOrStr::IriRef(iri) => self.pp_iri_ref(iri),
-            IriOrStr::String(str) => self.pp_string(str.as_str()),
+            IriOrStr::String(str) => self.doc.text(format!("<{str}>")),
         }
     }
 
@@ -790,6 +944,17 @@ where
         }
     }
 
+    /// Prints the semantic actions of a shape or of a triple expression
+    fn pp_sem_acts(&self) -> impl Fn(&Vec<SemAct>, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        move |actions, printer| {
+            let docs: Vec<_> = actions
+                .iter()
+                .map(|a| printer.doc.text(" ").append(printer.pp_action(a)))
+                .collect();
+            printer.doc.concat(docs)
+        }
+    }
+
     fn pp_action(&self, a: &SemAct) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc
             .text("%")
@@ -799,7 +964,7 @@ where
                 Some(str) => self
                     .doc
                     .text("{")
-                    .append(self.doc.text(str))
+                    .append(self.doc.text(str.replace('\\', "\\\\").replace('%', "\\%")))
                     .append(self.doc.text("%}")),
             })
     }
@@ -843,7 +1008,7 @@ where
     }
 
     fn pp_iri(&self, iri: &IriS) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(self.prefixmap.qualify(iri))
+        pp_iri(iri, self.doc, &self.prefixmap)
     }
 
     /*fn pp_str(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -919,6 +1084,34 @@ where
     }
 }
 
+/// Checks if a group has a label, a cardinality, annotations or semantic actions
+fn has_group_properties(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => {
+            id.is_some()
+                || sem_acts.is_some()
+                || annotations.is_some()
+                || (min.unwrap_or(1), max.unwrap_or(1)) != (1, 1)
+        },
+        TripleExpr::TripleConstraint { .. } | TripleExpr::Ref(_) => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 96d5d47..80965e2 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1908,7 +1908,10 @@ fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
     // PN_LOCAL_ESC sequences: the backslash is not part of the local name
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local.replace('\\', "").as_str())))
+    Ok((
+        i,
+        IriRef::prefixed(*prefix.fragment(), local.replace('\\', "").as_str()),
+    ))
 }
 
 /// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
-- 
2.43.0


From dc6cb0a44ae68ce1bcc162684bd8b474de7a2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 24/79] fix: property paths from literals have no values, and
 complex paths can be inverted

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 14 ++++++++++----
 rudof_rdf/src/rdf_core/shacl_path.rs | 27 +++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..59bdd68 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // Terms that can't be subjects, like literals, don't have outgoing arcs
+                if Self::term_as_subject(subject).is_err() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
@@ -349,10 +353,12 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.pred() {
+                Some(pred) => {
+                    let pred: Self::IRI = pred.clone().into();
+                    self.subjects_for(&pred, subject)
+                },
+                None => self.objects_for_shacl_path(subject, &path.inverted()),
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
diff --git a/rudof_rdf/src/rdf_core/shacl_path.rs b/rudof_rdf/src/rdf_core/shacl_path.rs
index c222608..e6c7631 100644
--- a/rudof_rdf/src/rdf_core/shacl_path.rs
+++ b/rudof_rdf/src/rdf_core/shacl_path.rs
@@ -48,6 +48,33 @@ impl SHACLPath {
         }
     }
 
+    /// Returns the path that relates the same nodes in the opposite direction.
+    ///
+    /// The inverse is pushed down to the predicates of the path.
+    pub fn inverted(&self) -> Self {
+        match self {
+            SHACLPath::Predicate { .. } => SHACLPath::Inverse {
+                path: Box::new(self.clone()),
+            },
+            SHACLPath::Alternative { paths } => SHACLPath::Alternative {
+                paths: paths.iter().map(SHACLPath::inverted).collect(),
+            },
+            SHACLPath::Sequence { paths } => SHACLPath::Sequence {
+                paths: paths.iter().rev().map(SHACLPath::inverted).collect(),
+            },
+            SHACLPath::Inverse { path } => path.as_ref().clone(),
+            SHACLPath::ZeroOrMore { path } => SHACLPath::ZeroOrMore {
+                path: Box::new(path.inverted()),
+            },
+            SHACLPath::OneOrMore { path } => SHACLPath::OneOrMore {
+                path: Box::new(path.inverted()),
+            },
+            SHACLPath::ZeroOrOne { path } => SHACLPath::ZeroOrOne {
+                path: Box::new(path.inverted()),
+            },
+        }
+    }
+
     /// Creates a sequence path from multiple paths.
     ///
     /// # Arguments
-- 
2.43.0


From 1a7ab48c7f57b0e6b0ceff2eaa2f3a532bc32acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 25/79] fix: parsing sh:ignoredProperties restores the focus
 node

---
 .../parser/rdf_node_parser/constructors/property.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
index e64af6b..cc7ac64 100644
--- a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
+++ b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
@@ -163,9 +163,17 @@ where
     type Output = Vec<RDF::Term>;
 
     fn parse_focused(&self, rdf: &mut RDF) -> Result<Self::Output, RDFError> {
-        SingleValuePropertyParser::new(self.property.clone())
+        let saved_focus = rdf.get_focus().cloned();
+        let result = SingleValuePropertyParser::new(self.property.clone())
             .then(|node| SetFocusParser::new(node).then(|_| ListParser::new()))
-            .parse_focused(rdf)
+            .parse_focused(rdf);
+
+        // Restore focus node
+        if let Some(ref focus) = saved_focus {
+            rdf.set_focus(focus);
+        }
+
+        result
     }
 }
 
-- 
2.43.0


From c299672531150ec50ef21e6ea28460884aa8a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 26/79] fix: numeric literals are compared by value, and
 strings only in the same language

---
 .../src/rdf_core/term/literal/literal.rs      | 20 +++++++++++++------
 .../rdf_core/term/literal/numeric_literal.rs  |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 3ee34a5..0bd62dc 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -646,7 +646,8 @@ impl ConcreteLiteral {
         match self {
             Self::DatatypeLiteral { lexical_form, datatype } => {
                 match check_literal_datatype(lexical_form, datatype).ok()? {
-                    Self::DatatypeLiteral { .. } | Self::WrongDatatypeLiteral { .. } => None,
+                    Self::DatatypeLiteral { .. } => self.numeric_value().map(Self::NumericLiteral),
+                    Self::WrongDatatypeLiteral { .. } => None,
                     lit => Some(lit),
                 }
             },
@@ -991,7 +992,7 @@ impl Default for ConcreteLiteral {
 /// Partial ordering for literals following SPARQL comparison semantics.
 ///
 /// Comparison rules:
-/// - String literals are compared lexicographically by their lexical form.
+/// - String literals are compared lexicographically by their lexical form, if they are in the same language.
 /// - Datatype literals are comparable **only if** they share the same datatype,
 ///   and are then compared by lexical form.
 /// - Numeric literals are compared by numeric value.
@@ -1014,10 +1015,17 @@ impl PartialOrd for ConcreteLiteral {
         match (self, other) {
             // Chronological comparison for datetime literals
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.partial_cmp(dt2),
-            // Lexicographic comparison for plain string literals
-            (Self::StringLiteral { lexical_form: lf1, .. }, Self::StringLiteral { lexical_form: lf2, .. }) => {
-                Some(lf1.cmp(lf2))
-            },
+            // Lexicographic comparison for string literals in the same language
+            (
+                Self::StringLiteral {
+                    lexical_form: lf1,
+                    lang: lang1,
+                },
+                Self::StringLiteral {
+                    lexical_form: lf2,
+                    lang: lang2,
+                },
+            ) => (lang1 == lang2).then(|| lf1.cmp(lf2)),
             // Other datatypes: lexical comparison if the datatype is the same, incomparable otherwise
             (
                 Self::DatatypeLiteral {
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index de06ac9..cbeb931 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -686,7 +686,7 @@ impl From<NumericLiteral> for oxrdf::Literal {
             NumericLiteral::Long(l) => oxrdf::Literal::new_typed_literal(l.to_string(), oxrdf::vocab::xsd::LONG),
             NumericLiteral::Float(f) => oxrdf::Literal::from(f),
             NumericLiteral::Byte(b) => oxrdf::Literal::new_typed_literal(b.to_string(), oxrdf::vocab::xsd::BYTE),
-            NumericLiteral::Short(s) => oxrdf::Literal::from(s),
+            NumericLiteral::Short(s) => oxrdf::Literal::new_typed_literal(s.to_string(), oxrdf::vocab::xsd::SHORT),
             NumericLiteral::NonNegativeInteger(n) => {
                 oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::NON_NEGATIVE_INTEGER)
             },
-- 
2.43.0


From 7f2808af5716a6fa90e3e687f9f89a1d93eb90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 27/79] fix: sh:deactivated is honoured on property shapes

---
 shacl/src/ast/property_shape.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shacl/src/ast/property_shape.rs b/shacl/src/ast/property_shape.rs
index 22a08ba..d30c67a 100644
--- a/shacl/src/ast/property_shape.rs
+++ b/shacl/src/ast/property_shape.rs
@@ -157,7 +157,12 @@ impl ASTPropertyShape {
     }
 
     pub fn is_deactivated(&self) -> bool {
+        // TODO - Adapt for node expr since the expr needs to be computed
         self.deactivated
+            || self
+                .components
+                .iter()
+                .any(|component| matches!(component, ASTComponent::Deactivated(true)))
     }
 
     pub fn severity(&self) -> Option<&Severity> {
-- 
2.43.0


From d799b32e6c02f6acea70c473f5007ee55531d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 28/79] fix: nested results are attributed to their own focus
 node

---
 shacl/src/validator/engine/validate.rs | 53 +++++++++++++++-----------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..66cea87 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -108,34 +108,41 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
-        let mut property_shapes_validation_results = Vec::new();
+        //
+        // The results of nested shapes are about other focus nodes, so they are kept
+        // together with the focus node of this shape that they come from.
+        let mut nested_validation_results: Vec<(Option<Object>, ValidationResult)> = Vec::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
-                property_shapes_validation_results.extend(results);
+                let fnode = RDF::term_as_object(fnode).ok();
+                nested_validation_results.extend(results.into_iter().map(|r| (fnode.clone(), r)));
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(
+                    self,
+                    store,
+                    runner,
+                    source_shape,
+                    reifier_info,
+                    &FocusNodes::single(fnode.clone()),
+                    shapes_graph,
+                )?;
+                let fnode = RDF::term_as_object(fnode).ok();
+                nested_validation_results.extend(results.into_iter().map(|r| (fnode.clone(), r)));
+            }
+        }
 
-        // Collect all NEW validation results (from uncached focus nodes)
-        let new_results: Vec<ValidationResult> = component_validation_results
+        // Collect all NEW validation results (from uncached focus nodes), with the focus node
+        // of this shape that each of them comes from
+        let new_results: Vec<(Option<Object>, ValidationResult)> = component_validation_results
             .into_iter()
-            .chain(property_shapes_validation_results)
-            .chain(reification_results)
+            .map(|r: ValidationResult| (Some(r.focus_node().clone()), r))
+            .chain(nested_validation_results)
             .collect();
 
         // Record new results in the cache per focus node
@@ -146,8 +153,8 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                 .filter_map(|n| RDF::term_as_object(n).ok())
                 .map(|obj| (obj, Vec::new()))
                 .collect();
-            for r in &new_results {
-                if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
+            for (fnode, r) in &new_results {
+                if let Some(bucket) = fnode.as_ref().and_then(|n| by_focus.get_mut(n)) {
                     bucket.push(r.clone());
                 }
             }
@@ -158,7 +165,7 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Merge cached results with newly computed results
         let mut all_results = cached_results;
-        all_results.extend(new_results);
+        all_results.extend(new_results.into_iter().map(|(_, r)| r));
         Ok(all_results)
     }
 }
-- 
2.43.0


From 4ff41e9fca9a4c583a7b048e0124bf61d9b08de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 29/79] fix: sh:class, class targets and implicit class targets
 follow rdfs:subClassOf transitively

---
 .../validator/constraints/core/value/class.rs | 32 ++++++-----------
 shacl/src/validator/engine/native.rs          | 34 +++++--------------
 shacl/src/validator/index/class.rs            | 19 ++++++-----
 3 files changed, 29 insertions(+), 56 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..c86b40f 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -41,17 +41,7 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
             }
             let term = S::object_as_term(self.class_rule());
 
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            !is_instance::<S>(store, vn, &term).unwrap_or(false)
         };
 
         validate_with(
@@ -94,7 +84,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_instance::<S>(store, vn, &class_term)?
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +111,12 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                .unwrap_or_default()
-                .contains(class_term)
-    }))
+/// Checks if a node is a SHACL instance of a class: it has a type that is the class or one of its
+/// direct or indirect subclasses
+fn is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
+    let instance_of = SHACLPath::sequence(vec![
+        SHACLPath::iri(RdfVocab::rdf_type()),
+        SHACLPath::zero_or_more(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())),
+    ]);
+    Ok(store.objects_for_shacl_path(vn, &instance_of)?.contains(class_term))
 }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..dbd5b91 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -55,18 +55,8 @@ impl NativeEngine {
         store: &RDF,
         class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
-        if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
-            return Ok(FocusNodes::from_iter(focus_nodes));
-        }
-
-        let cls: RDF::Term = class.clone().into();
-        let focus_nodes = store
-            .shacl_instances_of(&cls)
-            .map_err(ValidationError::new_graph_error::<RDF>)?
-            .map(|s| RDF::subject_as_term(&s));
-
-        Ok(FocusNodes::from_iter(focus_nodes))
+        // The instances of a class include the ones of its subclasses
+        self.implicit_target_class_impl(store, class)
     }
 
     fn target_subject_of_impl<RDF: NeighsRDF + Debug + 'static>(
@@ -108,19 +98,13 @@ impl NativeEngine {
         }
 
         let term: RDF::Term = shape.clone().into();
-        let targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
-
-        let subclass_targets = store
-            .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
-            .into_iter()
-            .flat_map(move |subclass| {
-                store
-                    .subjects_for(&RdfVocab::rdf_type().into(), &subclass)
-                    .into_iter()
-                    .flatten()
-            });
-
-        Ok(FocusNodes::from_iter(targets.into_iter().chain(subclass_targets)))
+        let instance_of = SHACLPath::sequence(vec![
+            SHACLPath::iri(RdfVocab::rdf_type()),
+            SHACLPath::zero_or_more(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())),
+        ]);
+        let instances = store.objects_for_shacl_path(&term, &instance_of.inverted())?;
+
+        Ok(FocusNodes::new(instances))
     }
 }
 
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..870f8ff 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -68,16 +68,17 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
-    pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
-        let mut result: HashSet<_> = self.instances_of(class).collect();
-
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
+    /// Returns instances of the class and instances of all its direct or indirect subclasses.
+    pub fn instances_of_with_subclasses<'a>(&'a self, class: &'a Object) -> HashSet<&'a Object> {
+        let mut classes = HashSet::from([class]);
+        let mut to_process = vec![class];
+        while let Some(current) = to_process.pop() {
+            for subclass in self.subclasses_of(current) {
+                if classes.insert(subclass) {
+                    to_process.push(subclass);
+                }
             }
         }
-
-        result
+        classes.into_iter().flat_map(|c| self.instances_of(c)).collect()
     }
 }
-- 
2.43.0


From e5d4e3029d8c4ca9fc90a100d011ef75fd2aa3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 30/79] fix: sh:minLength, sh:maxLength and sh:pattern are
 checked on the characters of the lexical form

---
 .../core/string_based/max_length.rs           | 10 ++++----
 .../core/string_based/min_length.rs           | 10 ++++----
 .../constraints/core/string_based/pattern.rs  |  6 ++---
 shacl/src/validator/constraints/mod.rs        | 25 +++++++++++++++++++
 4 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 07ae4eb..10f8dce 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -12,7 +12,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, str_as_sparql, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() > self.max_length() as usize;
+                return iri.as_str().chars().count() > self.max_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() > self.max_length() as usize;
+                return lit.lexical_form().chars().count() > self.max_length() as usize;
             }
             true
         };
@@ -74,9 +74,9 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MaxL
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            let vn_str = str_as_sparql::<S>(vn)?;
             Some(formatdoc! {"
-                ASK {{ FILTER(STRLEN(STR({vn_sparql})) <= {max}) }}
+                ASK {{ FILTER(STRLEN({vn_str}) <= {max}) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index b1e6dec..9d04d3f 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -12,7 +12,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, str_as_sparql, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() < self.min_length() as usize;
+                return iri.as_str().chars().count() < self.min_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() < self.min_length() as usize;
+                return lit.lexical_form().chars().count() < self.min_length() as usize;
             }
             true
         };
@@ -74,9 +74,9 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MinL
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            let vn_str = str_as_sparql::<S>(vn)?;
             Some(formatdoc! {"
-                ASK {{ FILTER(STRLEN(STR({vn_sparql})) >= {min}) }}
+                ASK {{ FILTER(STRLEN({vn_str}) >= {min}) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/core/string_based/pattern.rs b/shacl/src/validator/constraints/core/string_based/pattern.rs
index 918c9ee..4603d7f 100644
--- a/shacl/src/validator/constraints/core/string_based/pattern.rs
+++ b/shacl/src/validator/constraints/core/string_based/pattern.rs
@@ -13,7 +13,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, str_as_sparql, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -72,9 +72,9 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Patt
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            let vn_str = str_as_sparql::<S>(vn)?;
             Some(formatdoc! {"
-                ASK {{ FILTER(REGEX(STR({vn_sparql}), \"{pattern}\"{flags_arg})) }}
+                ASK {{ FILTER(REGEX({vn_str}, \"{pattern}\"{flags_arg})) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b9578a7..8012873 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -392,6 +392,19 @@ fn validate_ask_with_opt<S: QueryRDF>(
     )
 }
 
+/// Checks if a term of the data graph is a value written in the shapes graph
+///
+/// Language tags are case-insensitive, and the ones in the shapes graph have been normalized.
+fn is_value<S: Rdf>(term: &S::Term, value: &Object) -> bool {
+    if *term == S::object_as_term(value) {
+        return true;
+    }
+    match value {
+        Object::Literal(lit) if lit.lang().is_some() => S::term_as_object(term).is_ok_and(|t| t == *value),
+        _ => false,
+    }
+}
+
 /// Format an [`Object`] as SPARQL term syntax.
 /// Returns `None` for blank nodes, which can't be
 /// referenced by label in a SPARQL query — bare `_:foo`
@@ -424,6 +437,18 @@ pub(crate) fn term_as_sparql<S: Rdf>(term: &S::Term) -> Option<String> {
     object_as_sparql(&obj)
 }
 
+/// Formats the string value of a Term (see the function `STR`) as a SPARQL expression.
+///
+/// Literals are represented by their lexical form, because literals with a datatype can be
+/// replaced by another literal with the same value when the query is parsed.
+#[cfg(feature = "sparql")]
+pub(crate) fn str_as_sparql<S: Rdf>(term: &S::Term) -> Option<String> {
+    match S::term_as_object(term).ok()? {
+        Object::Literal(lit) => Some(format!("\"{}\"", escape_sparql_string(lit.lexical_form()))),
+        obj => Some(format!("STR({})", object_as_sparql(&obj)?)),
+    }
+}
+
 /// Escape a string for inclusion in a SPARQL double-quoted literal.
 #[cfg(feature = "sparql")]
 fn escape_sparql_string(s: impl AsRef<str>) -> String {
-- 
2.43.0


From 00eabe80a56c2268bb68ccf006667a305adfe611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 31/79] fix: property pair constraints accept literal focus
 nodes and compare only literals

---
 .../core/property_pair/disjoint.rs            | 20 +++---
 .../constraints/core/property_pair/equals.rs  | 36 ++++------
 .../core/property_pair/less_than.rs           | 35 +++++-----
 .../core/property_pair/less_than_or_equals.rs | 31 ++++----
 .../constraints/core/property_pair/mod.rs     | 70 +++++++++++++++++++
 5 files changed, 122 insertions(+), 70 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..0f5a639 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -3,14 +3,14 @@ use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::core::property_pair::property_values;
 use crate::validator::constraints::{NativeValidator, validate_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::term::Object;
@@ -31,7 +31,11 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
+            // Focus nodes that can't be subjects, like literals, don't have values
+            let subject = match S::term_as_subject(f) {
+                Ok(subject) => subject,
+                Err(_) => return false,
+            };
             let iri: S::IRI = self.iri().clone().into();
             let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
                 Ok(iter) => iter,
@@ -80,14 +84,10 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Disj
         for (fnode, nodes) in value_nodes.iter() {
             let fnode_obj = S::term_as_object(fnode)?;
 
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    ASK {{ {} <{}> {} }}
-                ", fnode, self.iri(), vn};
-
-                let ask = store.query_ask(&query).map_err(ValidationError::ask_query_error::<S>)?;
+            let prop_values = property_values(store, fnode, self.iri())?;
 
-                if ask {
+            for vn in nodes.iter() {
+                if prop_values.contains(vn) {
                     let value = S::term_as_object(vn).ok();
                     let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
                         .with_source(Some(shape.id().clone()))
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..540ebe1 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -4,12 +4,12 @@ use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::core::property_pair::property_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
@@ -32,18 +32,17 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
             let iri: S::IRI = self.iri().clone().into();
 
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
+            // Focus nodes that can't be subjects, like literals, don't have values
+            let prop_values = match S::term_as_subject(fnode) {
+                Ok(subject) => store
+                    .triples_with_subject_predicate(&subject, &iri)
+                    .map_err(ValidationError::new_graph_error::<S>)?
+                    .map(|t| t.obj().clone())
+                    .collect::<HashSet<_>>(),
+                Err(_) => HashSet::new(),
+            };
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
@@ -93,18 +92,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Equa
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let query = formatdoc! {"
-                SELECT ?o WHERE {{ {} <{}> ?o }}
-            ", fnode, self.iri()};
-
-            let solutions = store
-                .query_select(&query)
-                .map_err(ValidationError::select_query_error::<S>)?;
-
-            let prop_values: HashSet<S::Term> = solutions
-                .iter()
-                .filter_map(|sol| sol.find_solution("o").cloned())
-                .collect();
+            let prop_values = property_values(store, fnode, self.iri())?;
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
             let fnode_obj = S::term_as_object(fnode)?;
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..e030e68 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -5,12 +5,13 @@ use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::core::property_pair::compare_values;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::core::property_pair::{property_values, sparql_compare};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
@@ -32,7 +33,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // Focus nodes that can't be subjects, like literals, don't have values to compare
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
@@ -43,7 +47,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare_values(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThan constraint violated: {node1} is not comparable to {node2}"
                                 )),
@@ -106,24 +110,17 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Less
         for (fnode, nodes) in value_nodes.iter() {
             let fnode_obj = S::term_as_object(fnode)?;
 
+            let others = property_values(store, fnode, self.iri())?;
+
             // emit one violation per (value_node, comparator) pair where
-            // value_node is not strictly less than the comparator. COALESCE(?, false)
-            // treats incomparable terms (e.g. cross-datatype) as violations.
+            // value_node is not strictly less than the comparator. Incomparable
+            // terms (e.g. cross-datatype) are violations.
             for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} < ?other, false) AS ?lt)
-                        FILTER (!?lt)
-                    }}
-                ", fnode, self.iri(), vn};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
-
                 let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
+                for other in others.iter() {
+                    if sparql_compare(store, vn, "<", other)? {
+                        continue;
+                    }
                     let msg = format!(
                         "LessThan constraint violated for property {}: value is not strictly less than every comparator",
                         self.iri()
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..256c2de 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -5,12 +5,13 @@ use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::core::property_pair::compare_values;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::core::property_pair::{property_values, sparql_compare};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
@@ -32,7 +33,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // Focus nodes that can't be subjects, like literals, don't have values to compare
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
@@ -43,7 +47,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare_values(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
                                 )),
@@ -106,21 +110,14 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Less
         for (fnode, nodes) in value_nodes.iter() {
             let fnode_obj = S::term_as_object(fnode)?;
 
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} <= ?other, false) AS ?lte)
-                        FILTER (!?lte)
-                    }}
-                ", fnode, self.iri(), vn};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
+            let others = property_values(store, fnode, self.iri())?;
 
+            for vn in nodes.iter() {
                 let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
+                for other in others.iter() {
+                    if sparql_compare(store, vn, "<=", other)? {
+                        continue;
+                    }
                     let msg = format!(
                         "LessThanOrEquals constraint violated for property {}: value is not less than or equal to every comparator",
                         self.iri()
diff --git a/shacl/src/validator/constraints/core/property_pair/mod.rs b/shacl/src/validator/constraints/core/property_pair/mod.rs
index a792644..60456a4 100644
--- a/shacl/src/validator/constraints/core/property_pair/mod.rs
+++ b/shacl/src/validator/constraints/core/property_pair/mod.rs
@@ -2,3 +2,73 @@ mod disjoint;
 mod equals;
 mod less_than;
 mod less_than_or_equals;
+
+#[cfg(feature = "sparql")]
+use crate::error::ValidationError;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::term_as_sparql;
+#[cfg(feature = "sparql")]
+use indoc::formatdoc;
+#[cfg(feature = "sparql")]
+use rudof_iri::IriS;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::NeighsRDF;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::query::QueryRDF;
+use rudof_rdf::rdf_core::term::Object;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::term::{Term, Triple};
+use std::cmp::Ordering;
+#[cfg(feature = "sparql")]
+use std::collections::HashSet;
+
+/// Compares two values with the meaning of the SPARQL operator `<`, which is only defined between literals
+fn compare_values(value: &Object, other: &Object) -> Option<Ordering> {
+    match (value, other) {
+        (Object::Literal(value), Object::Literal(other)) => value.partial_cmp(other),
+        _ => None,
+    }
+}
+
+/// Values of a property of a focus node. Focus nodes that can't be subjects, like literals, don't have values.
+///
+/// They are obtained without SPARQL because blank nodes act as variables in queries, and because
+/// the results of queries may have other lexical forms.
+#[cfg(feature = "sparql")]
+fn property_values<S: NeighsRDF>(
+    store: &S,
+    focus: &S::Term,
+    property: &IriS,
+) -> Result<HashSet<S::Term>, ValidationError> {
+    match S::term_as_subject(focus) {
+        Ok(subject) => Ok(store
+            .triples_with_subject_predicate(&subject, &property.clone().into())
+            .map_err(ValidationError::new_graph_error::<S>)?
+            .map(|t| t.obj().clone())
+            .collect()),
+        Err(_) => Ok(HashSet::new()),
+    }
+}
+
+/// Checks with SPARQL if two values are related by a comparison operator. Values that are not
+/// comparable are not related.
+#[cfg(feature = "sparql")]
+fn sparql_compare<S: QueryRDF + NeighsRDF>(
+    store: &S,
+    value: &S::Term,
+    operator: &str,
+    other: &S::Term,
+) -> Result<bool, ValidationError> {
+    if !value.is_literal() || !other.is_literal() {
+        return Ok(false);
+    }
+    match (term_as_sparql::<S>(value), term_as_sparql::<S>(other)) {
+        (Some(value), Some(other)) => {
+            let query = formatdoc! {"
+                ASK {{ FILTER(COALESCE({value} {operator} {other}, false)) }}
+            "};
+            store.query_ask(&query).map_err(ValidationError::ask_query_error::<S>)
+        },
+        _ => Ok(false),
+    }
+}
-- 
2.43.0


From 9c1657a530ec38fe3308e574f49d15fef90153c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 32/79] fix: sh:closed in SPARQL mode reports lexical forms and
 skips literals

---
 .../constraints/core/other/closed.rs          | 25 ++++++++++++-------
 shacl/src/validator/engine/sparql.rs          | 19 +++++++-------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/shacl/src/validator/constraints/core/other/closed.rs b/shacl/src/validator/constraints/core/other/closed.rs
index aad1db3..4966593 100644
--- a/shacl/src/validator/constraints/core/other/closed.rs
+++ b/shacl/src/validator/constraints/core/other/closed.rs
@@ -101,13 +101,14 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clos
         };
 
         for (fnode, _) in value_nodes.iter() {
+            // Focus nodes that can't be subjects, like literals, don't have properties
+            let subject = match S::term_as_subject(fnode) {
+                Ok(s) => s,
+                Err(_) => continue,
+            };
             let focus_obj = S::term_as_object(fnode)?;
 
             let triples_iter: Box<dyn Iterator<Item = (Object, Option<Object>)>> = if fnode.is_blank_node() {
-                let subject = match S::term_as_subject(fnode) {
-                    Ok(s) => s,
-                    Err(_) => continue,
-                };
                 let triples = store
                     .triples_with_subject(&subject)
                     .map_err(ValidationError::new_graph_error::<S>)?;
@@ -122,7 +123,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clos
                 }))
             } else {
                 let query = formatdoc! {"
-                    SELECT ?p ?o WHERE {{ {} ?p ?o .{} }}
+                    SELECT DISTINCT ?p WHERE {{ {} ?p ?o .{} }}
                 ", fnode, not_in_clause};
 
                 let solutions = store
@@ -135,12 +136,18 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clos
                         Some(t) => t,
                         None => continue,
                     };
-                    let pred_obj = match S::term_as_object(pred_term) {
-                        Ok(obj @ Object::Iri(_)) => obj,
+                    let pred_iri = match S::term_as_object(pred_term) {
+                        Ok(Object::Iri(iri)) => iri,
                         _ => continue,
                     };
-                    let value = sol.find_solution("o").and_then(|t| S::term_as_object(t).ok());
-                    rows.push((pred_obj, value));
+                    // The values are obtained without SPARQL because the results of queries may
+                    // have other lexical forms
+                    for triple in store
+                        .triples_with_subject_predicate(&subject, &pred_iri.clone().into())
+                        .map_err(ValidationError::new_graph_error::<S>)?
+                    {
+                        rows.push((Object::Iri(pred_iri.clone()), S::term_as_object(triple.obj()).ok()));
+                    }
                 }
                 Box::new(rows.into_iter())
             };
diff --git a/shacl/src/validator/engine/sparql.rs b/shacl/src/validator/engine/sparql.rs
index 4719fc7..7710695 100644
--- a/shacl/src/validator/engine/sparql.rs
+++ b/shacl/src/validator/engine/sparql.rs
@@ -8,7 +8,7 @@ use crate::validator::report::ValidationResult;
 use indoc::formatdoc;
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Term};
+use rudof_rdf::rdf_core::term::{Object, Term, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
@@ -94,16 +94,15 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> Engine<S> for SparqlEngine {
         Ok(FocusNodes::new(results))
     }
 
+    // Resolved without SPARQL because the targets can be literals, whose lexical form may be changed by queries
+    // (see `target_node`)
     fn target_object_of(&self, store: &S, predicate: &IriS) -> Result<FocusNodes<S>, ValidationError> {
-        let query = formatdoc! {"
-            SELECT DISTINCT ?this
-            WHERE {{
-                ?any <{}> ?this.
-            }}
-        ", predicate};
-
-        let results = select(store, &query, "this")?;
-        Ok(FocusNodes::new(results))
+        let pred: S::IRI = predicate.clone().into();
+        let objects = store
+            .triples_with_predicate(&pred)
+            .map_err(ValidationError::new_graph_error::<S>)?
+            .map(Triple::into_object);
+        Ok(FocusNodes::from_iter(objects))
     }
 
     fn implicit_target_class(&self, store: &S, shape: &Object) -> Result<FocusNodes<S>, ValidationError> {
-- 
2.43.0


From ee64e9bf1b42a00613337f65f4ab89994449b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 33/79] fix: sh:hasValue and sh:in compare language tags
 case-insensitively

---
 shacl/src/validator/constraints/core/other/has_value.rs    | 7 ++-----
 .../src/validator/constraints/core/other/in_constraint.rs  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/shacl/src/validator/constraints/core/other/has_value.rs b/shacl/src/validator/constraints/core/other/has_value.rs
index 361ef1b..1eb2a72 100644
--- a/shacl/src/validator/constraints/core/other/has_value.rs
+++ b/shacl/src/validator/constraints/core/other/has_value.rs
@@ -1,7 +1,7 @@
 use crate::error::ValidationError;
 use crate::ir::components::HasValue;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-use crate::validator::constraints::{Validator, validate_with};
+use crate::validator::constraints::{Validator, is_value, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::FocusNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -26,10 +26,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for HasValue {
             shape,
             value_nodes,
             FocusNodeIteration,
-            |t| {
-                let value_term = &S::object_as_term(self.value());
-                !t.iter().any(|v| v == value_term)
-            },
+            |t| !t.iter().any(|v| is_value::<S>(v, self.value())),
             &format!("HasValue({}) not satisfied", self.value()),
             maybe_path,
         )
diff --git a/shacl/src/validator/constraints/core/other/in_constraint.rs b/shacl/src/validator/constraints/core/other/in_constraint.rs
index ad7f524..9396ae1 100644
--- a/shacl/src/validator/constraints/core/other/in_constraint.rs
+++ b/shacl/src/validator/constraints/core/other/in_constraint.rs
@@ -1,7 +1,7 @@
 use crate::error::ValidationError;
 use crate::ir::components::In;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-use crate::validator::constraints::{Validator, validate_with};
+use crate::validator::constraints::{Validator, is_value, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -26,10 +26,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for In {
             shape,
             value_nodes,
             ValueNodeIteration,
-            |vn| {
-                let values = self.values().iter().map(S::object_as_term).collect::<Vec<_>>();
-                !values.contains(vn)
-            },
+            |vn| !self.values().iter().any(|v| is_value::<S>(vn, v)),
             &format!("In constraint not satisfied. Expected one of {:?}", self.values()),
             maybe_path,
         )
-- 
2.43.0


From fe0b08b634308ed8401cd9d6490d31bd6ed8e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 34/79] fix: SPARQL queries see the triples added or removed
 after the first query

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 32 ++++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 8bd6edd..16f9220 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -107,6 +107,18 @@ impl OxigraphInMemory {
         self.graph.is_empty()
     }
 
+    /// Returns the graph for modification.
+    ///
+    /// The embedded SPARQL store is a snapshot of the graph, so it is dropped
+    /// here and rebuilt by the next call to `ensure_store`.
+    fn graph_mut(&mut self) -> &mut Graph {
+        #[cfg(feature = "sparql")]
+        {
+            self.store = None;
+        }
+        Arc::make_mut(&mut self.graph)
+    }
+
     pub fn set_default_base_prefixes(&mut self, default_base: Option<IriS>) {
         self.base = default_base;
     }
@@ -190,7 +202,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -245,7 +257,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -279,7 +291,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = RdfXmlParser::new();
         let mut xml_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -313,7 +325,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -346,7 +358,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = JsonLdParser::new();
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -482,7 +494,7 @@ impl OxigraphInMemory {
         O: Into<TermRef<'a>>,
     {
         let triple = TripleRef::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(triple);
+        self.graph_mut().insert(triple);
         Ok(())
     }
 }
@@ -585,7 +597,7 @@ impl OxigraphInMemory {
     ///
     /// SPARQL evaluation on the in-memory backend goes through an
     /// `oxigraph::store::Store`. It is not built eagerly because indexing the
-    /// quads costs memory and most callers never run SPARQL. Run this once
+    /// quads costs memory and most callers never run SPARQL. Run this
     /// before issuing `query_select`, `query_ask`, or `query_construct`.
     #[cfg(feature = "sparql")]
     pub fn ensure_store(&mut self) -> Result<(), OxigraphInMemoryError> {
@@ -993,7 +1005,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
@@ -1011,7 +1023,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).remove(&triple);
+        self.graph_mut().remove(&triple);
         Ok(())
     }
 
@@ -1029,7 +1041,7 @@ impl BuildRDF for OxigraphInMemory {
         T: Into<Self::Term>,
     {
         let triple = OxTriple::new(node.into(), rdf_type(), type_.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
-- 
2.43.0


From 7fac19419971226e800ab6f48de87bc73e2a992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 35/79] fix: relative IRIs in RDF/XML and JSON-LD data are
 resolved against the given base

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 16f9220..29d6e8d 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -155,7 +155,7 @@ impl OxigraphInMemory {
                 self.parse_ntriples(reader, reader_mode)?;
             },
             RDFFormat::Rdfxml => {
-                self.parse_rdfxml(reader, reader_mode)?;
+                self.parse_rdfxml(reader, base, reader_mode)?;
             },
             RDFFormat::TriG => {
                 todo!();
@@ -167,7 +167,7 @@ impl OxigraphInMemory {
                 self.parse_nquads(reader, reader_mode)?;
             },
             RDFFormat::JsonLd => {
-                self.parse_jsonld(reader, reader_mode)?;
+                self.parse_jsonld(reader, base, reader_mode)?;
             },
         }
         if let Some(base) = base {
@@ -279,6 +279,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing RDF/XML data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -287,9 +288,13 @@ impl OxigraphInMemory {
     fn parse_rdfxml<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = RdfXmlParser::new();
+        let mut parser = RdfXmlParser::new();
+        if let Some(iri) = base {
+            parser = parser.with_base_iri(iri)?;
+        }
         let mut xml_reader = parser.for_reader(reader);
         let graph = self.graph_mut();
 
@@ -346,6 +351,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing JSON-LD data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -354,9 +360,13 @@ impl OxigraphInMemory {
     fn parse_jsonld<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = JsonLdParser::new();
+        let mut parser = JsonLdParser::new();
+        if let Some(iri) = base {
+            parser = parser.with_base_iri(iri)?;
+        }
         let mut jsonld_reader = parser.for_reader(reader);
         let graph = self.graph_mut();
 
-- 
2.43.0


From 6cb0fd87382d25f8ae6bd21d8b79659a41b8acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 36/79] fix: TriG and N3 data can be loaded

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  | 83 ++++++++++++++++++-
 .../src/rdf_impl/oxigraph/in_memory_error.rs  | 16 ++++
 2 files changed, 95 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 29d6e8d..525d998 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -11,9 +11,9 @@ use oxrdf::{
     NamedOrBlankNode as OxSubject, NamedOrBlankNodeRef as OxSubjectRef, Quad, Term as OxTerm, TermRef,
     Triple as OxTriple, TripleRef,
 };
-use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfSerializer};
+use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfParser, RdfSerializer};
 use oxrdfxml::RdfXmlParser;
-use oxttl::{NQuadsParser, NTriplesParser, TurtleParser};
+use oxttl::{NQuadsParser, NTriplesParser, TriGParser, TurtleParser};
 use prefixmap::{PrefixMapError, prefix_map::*};
 use rudof_iri::IriS;
 use serde::{Serialize, ser::SerializeStruct};
@@ -158,10 +158,10 @@ impl OxigraphInMemory {
                 self.parse_rdfxml(reader, base, reader_mode)?;
             },
             RDFFormat::TriG => {
-                todo!();
+                self.parse_trig(reader, source_name, base, reader_mode)?;
             },
             RDFFormat::N3 => {
-                todo!();
+                self.parse_n3(reader, source_name, base, reader_mode)?;
             },
             RDFFormat::NQuads => {
                 self.parse_nquads(reader, reader_mode)?;
@@ -240,6 +240,81 @@ impl OxigraphInMemory {
         Ok(())
     }
 
+    /// Parses TriG data and merges it into the graph.
+    ///
+    /// As with N-Quads, the triples of all the graphs are merged.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_trig<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        source_name: &str,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let mut parser = TriGParser::new();
+        if let Some(iri) = base {
+            parser = parser.with_base_iri(iri)?;
+        }
+        let mut trig_reader = parser.for_reader(reader);
+        let graph = self.graph_mut();
+
+        for quad_result in trig_reader.by_ref() {
+            let quad = match handle_parse_error(quad_result, reader_mode, |e| OxigraphInMemoryError::TriGError {
+                source_name: source_name.to_string(),
+                error: e,
+            })? {
+                Some(q) => q,
+                None => continue,
+            };
+            graph.insert(TripleRef::from(quad.as_ref()));
+        }
+
+        let prefixes: HashMap<&str, &str> = trig_reader.prefixes().collect();
+        self.merge_prefixes(prefixes.try_into()?);
+        Ok(())
+    }
+
+    /// Parses N3 data and merges it into the graph.
+    ///
+    /// Only the statements that are RDF triples are supported: variables, formulas
+    /// and literal subjects are reported as errors.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_n3<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        source_name: &str,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let mut parser = RdfParser::from_format(RdfFormat::N3).without_named_graphs();
+        if let Some(iri) = base {
+            parser = parser.with_base_iri(iri)?;
+        }
+        let mut n3_reader = parser.for_reader(reader);
+        let graph = self.graph_mut();
+
+        for quad_result in n3_reader.by_ref() {
+            let quad = match handle_parse_error(quad_result, reader_mode, |e| OxigraphInMemoryError::N3Error {
+                source_name: source_name.to_string(),
+                error: e,
+            })? {
+                Some(q) => q,
+                None => continue,
+            };
+            graph.insert(TripleRef::from(quad.as_ref()));
+        }
+
+        let prefixes: HashMap<&str, &str> = n3_reader.prefixes().collect();
+        self.merge_prefixes(prefixes.try_into()?);
+        Ok(())
+    }
+
     /// Parses N-Triples data and merges it into the graph.
     ///
     /// # Parameters
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
index 2d7b590..5b43692 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
@@ -125,6 +125,22 @@ pub enum OxigraphInMemoryError {
     #[error("NQuads error: {error}\nData: {data}")]
     NQuadsError { data: String, error: String },
 
+    /// Error parsing TriG data.
+    ///
+    /// # Fields
+    /// - `source_name`: The name or path of the data source
+    /// - `error`: Detailed description of the parsing error
+    #[error("Error parsing TriG data from {source_name}: {error}")]
+    TriGError { source_name: String, error: String },
+
+    /// Error parsing N3 data.
+    ///
+    /// # Fields
+    /// - `source_name`: The name or path of the data source
+    /// - `error`: Detailed description of the parsing error
+    #[error("Error parsing N3 data from {source_name}: {error}")]
+    N3Error { source_name: String, error: String },
+
     /// Error parsing JSON-LD data.
     ///
     /// # Fields
-- 
2.43.0


From e59b8e293621e38ccf8b54a272208f51f7d4e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 37/79] fix: replacing the data by several documents keeps all
 of them

---
 rudof_lib/src/api/data/implementations/load_data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 3a0c3a4..8c6d7f9 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -61,7 +61,9 @@ fn init_defaults(
 }
 
 fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -> Result<()> {
-    for input_spec in data {
+    for (index, input_spec) in data.iter().enumerate() {
+        // All the data loaded by one request belong together, so only the first one can replace.
+        let merge = merge || index > 0;
         let mut data_reader = input_spec
             .open_read(Some(DataFormat::Pg.mime_type()), "PG data")
             .map_err(|error| {
@@ -85,7 +87,9 @@ fn load_data_from_specs_rdf(
     merge: bool,
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
-    for input_spec in data {
+    for (index, input_spec) in data.iter().enumerate() {
+        // All the data loaded by one request belong together, so only the first one can replace.
+        let merge = merge || index > 0;
         let mut data_reader = input_spec
             .open_read(Some(data_format.mime_type()), "RDF data")
             .map_err(|error| {
-- 
2.43.0


From 4fbbbea2d567e1dcc01d825dd0e31052cd9a9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 38/79] fix: DESCRIBE queries are run instead of aborting

---
 rudof_lib/src/api/query/implementations/run_query.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/query/implementations/run_query.rs b/rudof_lib/src/api/query/implementations/run_query.rs
index a662228..bd42cec 100644
--- a/rudof_lib/src/api/query/implementations/run_query.rs
+++ b/rudof_lib/src/api/query/implementations/run_query.rs
@@ -56,7 +56,16 @@ pub fn run_query(rudof: &mut Rudof, result_query_format: Option<&ResultQueryForm
             rudof.query_results = Some(QueryResult::Ask(results));
         },
         QueryType::Describe => {
-            todo!("Implement DESCRIBE query execution")
+            // DESCRIBE returns a graph, as CONSTRUCT does.
+            let results = data
+                .unwrap_rdf_mut()
+                .query_construct(&query.serialize(), &result_query_format.into())
+                .map_err(|error| QueryError::FailedExecutingQuery {
+                    query_type: "describe".to_string(),
+                    error: error.to_string(),
+                })?;
+
+            rudof.query_results = Some(QueryResult::Construct(results));
         },
     }
 
-- 
2.43.0


From 22f0ca849ebb4e367da1415f77fb97b62ea19c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 39/79] fix: prefixed names are the concatenation of the
 namespace and the local name, which can contain colons

---
 prefixmap/src/prefix_map.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 42d3cf2..98fa41e 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -511,7 +511,8 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn resolve(&self, str: &str) -> Result<IriS, PrefixMapError> {
-        match str.rsplit_once(':') {
+        // The first colon ends the alias: the local name can contain others
+        match str.split_once(':') {
             Some((prefix, local)) => Ok(self.resolve_prefix_local(prefix, local)?),
             None => Ok(IriS::from_str(str)?),
         }
@@ -566,8 +567,8 @@ impl PrefixMap {
                 if local.is_empty() {
                     return Ok(iri.clone());
                 }
-                let new_iri = iri.extend(local.as_str())?;
-                Ok(new_iri)
+                // A prefixed name is the concatenation of the namespace and the local name
+                Ok(IriS::from_str(&format!("{iri}{local}"))?)
             },
             None => Err(PrefixMapError::PrefixNotFound {
                 prefix,
-- 
2.43.0


From 756b9444677ab38bd6d755124a8e823686e79296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 40/79] fix: names starting with a non-ASCII character can be
 used in ShExC

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 80965e2..78855c9 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -2129,7 +2129,7 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     move |i| {
         if let Some(c) = i.chars().next() {
             if f(c) {
-                Ok(i.take_split(1))
+                Ok(i.take_split(c.len_utf8()))
             } else {
                 Err(Err::Error(error_position!(i, ErrorKind::OneOf)))
             }
-- 
2.43.0


From ab9e9f7d40f099dc874ccdb5f55bd4e1b668524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 41/79] fix: dots that end a prefixed name or a blank node
 label are not part of it in ShExC

---
 shex_ast/src/compact/shex_grammar.rs | 56 ++++++----------------------
 1 file changed, 11 insertions(+), 45 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 78855c9..05e5ba8 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -22,7 +22,7 @@ use nom::{
     combinator::{cut, map, map_res, not, opt, recognize},
     error::ErrorKind,
     error_position,
-    multi::{count, fold_many0, many0, many1},
+    multi::{count, fold_many0, many0, many0_count, many1, many1_count},
     sequence::{delimited, pair, preceded, terminated},
 };
 use nom_locate::LocatedSpan;
@@ -1814,30 +1814,9 @@ fn is_pn_chars_u_digit(c: char) -> bool {
     is_digit(c) || is_pn_chars_u(c)
 }
 
-fn is_pn_chars_or_dot(c: char) -> bool {
-    c == '.' || is_pn_chars(c)
-}
-
-fn blank_node_label2(src: Span) -> IRes<()> {
-    match blank_node_label3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
-}
-
-fn blank_node_label3(i: Span) -> IRes<Span> {
-    take_while(is_pn_chars_or_dot)(i)
+/// `((PN_CHARS | ".")* PN_CHARS)?`: the trailing dots are not part of the label
+fn blank_node_label2(i: Span) -> IRes<Span> {
+    recognize(many0_count((many0_count(char_dot), take_while1(is_pn_chars)))).parse(i)
 }
 
 /// `[19t] <INTEGER> ::= [+-]? [0-9]+`
@@ -1924,26 +1903,13 @@ fn is_pn_local_start(c: char) -> bool {
     c == ':' || is_digit(c) || is_pn_chars_u(c)
 }
 
-fn pn_local2(src: Span) -> IRes<()> {
-    match pn_local3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
-}
-
-fn pn_local3(i: Span) -> IRes<Span> {
-    recognize(many0(alt((pn_chars_colon, plx, char_dot)))).parse(i)
+/// `((PN_CHARS | "." | ":" | PLX)* (PN_CHARS | ":" | PLX))?`: the trailing dots are not part of the name
+fn pn_local2(i: Span) -> IRes<Span> {
+    recognize(many0_count((
+        many0_count(char_dot),
+        many1_count(alt((pn_chars_colon, plx))),
+    )))
+    .parse(i)
 }
 
 fn pn_chars_colon(i: Span) -> IRes<Span> {
-- 
2.43.0


From de1af9ca9b347e833c04a6ecf57718d08e00a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 42/79] fix: literals which look like a prefix declaration
 don't hide a default prefix

---
 .../src/api/data/implementations/load_data.rs |  2 +-
 .../implementations/load_sparql_query.rs      |  2 +-
 .../implementations/load_shacl_schema.rs      |  2 +-
 .../shex/implementations/load_shex_schema.rs  |  2 +-
 rudof_lib/src/utils/prefix_header.rs          | 28 ++++---------------
 5 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 8c6d7f9..45097fd 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -208,7 +208,7 @@ fn read_rdf_data<R: Read>(
                 error: error.to_string(),
             })
         })?;
-        let header = default_prefix_header(rudof, &content, PrefixDirective::Turtle);
+        let header = default_prefix_header(rudof, PrefixDirective::Turtle);
         let mut prefixed_reader = io::Cursor::new(format!("{header}{content}").into_bytes());
         rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_from_reader(
             &mut prefixed_reader,
diff --git a/rudof_lib/src/api/query/implementations/load_sparql_query.rs b/rudof_lib/src/api/query/implementations/load_sparql_query.rs
index d7302b3..c7facf9 100644
--- a/rudof_lib/src/api/query/implementations/load_sparql_query.rs
+++ b/rudof_lib/src/api/query/implementations/load_sparql_query.rs
@@ -22,7 +22,7 @@ pub fn load_sparql_query(rudof: &mut Rudof, query: &InputSpec, _query_type: Opti
             message: format!("Failed to read data source '{}': {error}", query.source_name()),
         })?;
 
-    let header = default_prefix_header(rudof, &query_string, PrefixDirective::Sparql);
+    let header = default_prefix_header(rudof, PrefixDirective::Sparql);
     let prefixed_query_string = format!("{header}{query_string}");
 
     let parsed_query = SparqlQuery::new(&prefixed_query_string).map_err(|error| QueryError::FailedParsingQuery {
diff --git a/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs b/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs
index a693ff7..4ca93da 100644
--- a/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs
+++ b/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs
@@ -65,7 +65,7 @@ fn read_shacl_schema(
             .map_err(|error| ShaclError::DataSourceSpec {
                 message: format!("Failed to read shacl schema source '{}': {error}", schema.source_name()),
             })?;
-        let header = default_prefix_header(rudof, &content, PrefixDirective::Turtle);
+        let header = default_prefix_header(rudof, PrefixDirective::Turtle);
         let mut prefixed_reader = std::io::Cursor::new(format!("{header}{content}").into_bytes());
         OxigraphInMemory::from_reader(
             &mut prefixed_reader,
diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index a7b4910..3e27028 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -78,7 +78,7 @@ fn load_shex_schema_shexc<R: io::Read>(
             source_name: source_name.to_string(),
             format: "ShExC".to_string(),
         })?;
-    let header = default_prefix_header(rudof, &content, PrefixDirective::Sparql);
+    let header = default_prefix_header(rudof, PrefixDirective::Sparql);
     let prefixed_reader = io::Cursor::new(format!("{header}{content}"));
     #[cfg(target_family = "wasm")]
     let source_iri = {
diff --git a/rudof_lib/src/utils/prefix_header.rs b/rudof_lib/src/utils/prefix_header.rs
index ba198b3..17d7a6f 100644
--- a/rudof_lib/src/utils/prefix_header.rs
+++ b/rudof_lib/src/utils/prefix_header.rs
@@ -1,7 +1,4 @@
 use crate::Rudof;
-use regex::Regex;
-use std::collections::HashSet;
-use std::sync::LazyLock;
 
 /// Which directive syntax to emit a default prefix declaration in.
 pub(crate) enum PrefixDirective {
@@ -11,18 +8,15 @@ pub(crate) enum PrefixDirective {
     Sparql,
 }
 
-static TURTLE_PREFIX_DECL: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"(?m)^\s*@prefix\s+([^\s:]*)\s*:").unwrap());
-static SPARQL_PREFIX_DECL: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"(?mi)^\s*PREFIX\s+([^\s:]*)\s*:").unwrap());
-
 /// Builds prefix-declaration lines, in `directive`'s syntax, for every alias
-/// in `rudof`'s default prefixes that `source` doesn't already declare
-/// itself -- ready to prepend to `source` before parsing it, so a prefixed
-/// name the document doesn't declare can still resolve, without ever
-/// overriding a declaration the document does have.
+/// in `rudof`'s default prefixes -- ready to prepend to a document before
+/// parsing it, so a prefixed name the document doesn't declare can still
+/// resolve. A declaration the document does have comes later, so it
+/// redefines the default.
 ///
 /// Returns an empty string if there are no default prefixes to add, so
 /// callers can skip the prepend (and the buffering it requires) entirely.
-pub(crate) fn default_prefix_header(rudof: &Rudof, source: &str, directive: PrefixDirective) -> String {
+pub(crate) fn default_prefix_header(rudof: &Rudof, directive: PrefixDirective) -> String {
     let Some(defaults) = rudof.prefixes.as_ref() else {
         return String::new();
     };
@@ -30,20 +24,8 @@ pub(crate) fn default_prefix_header(rudof: &Rudof, source: &str, directive: Pref
         return String::new();
     }
 
-    let declared_regex = match directive {
-        PrefixDirective::Turtle => &*TURTLE_PREFIX_DECL,
-        PrefixDirective::Sparql => &*SPARQL_PREFIX_DECL,
-    };
-    let declared: HashSet<&str> = declared_regex
-        .captures_iter(source)
-        .map(|c| c.get(1).map_or("", |m| m.as_str()))
-        .collect();
-
     let mut header = String::new();
     for (alias, iri) in defaults.iter() {
-        if declared.contains(alias.as_str()) {
-            continue;
-        }
         match directive {
             PrefixDirective::Turtle => header.push_str(&format!("@prefix {alias}: <{iri}> .\n")),
             PrefixDirective::Sparql => header.push_str(&format!("PREFIX {alias}: <{iri}>\n")),
-- 
2.43.0


From 7bc9b1060213379b79a816935007f1f2d862aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 43/79] fix: unsupported formats are refused with an error
 instead of aborting

---
 .../implementations/show_schema_comparison.rs       | 13 +++++++++----
 .../serialize_pgschema_validation_results.rs        |  5 ++++-
 .../serialize_shacl_validation_results.rs           |  5 ++++-
 .../src/api/shex/implementations/load_shapemap.rs   |  6 +++++-
 .../api/shex/implementations/load_shex_schema.rs    |  7 ++++++-
 .../api/shex/implementations/serialize_shapemap.rs  |  6 +++++-
 .../shex/implementations/serialize_shex_schema.rs   |  6 +++++-
 .../serialize_shex_validation_results.rs            |  6 +++++-
 8 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs b/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
index f11ac07..ea8aaf7 100644
--- a/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
+++ b/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
@@ -123,7 +123,7 @@ fn get_coshamo<R: io::Read>(
     source_name: &str,
 ) -> Result<CoShaMo> {
     match mode {
-        ComparisonMode::Shacl => todo!("Not yet implemented comparison between SHACL files"),
+        ComparisonMode::Shacl => Err(ComparisonError::UnsupportedComparisonMode { mode: mode.to_string() }.into()),
         ComparisonMode::ShEx => {
             let shex = read_shex_only(reader, &(*format).into(), base, source_name)?;
             let mut converter = CoShaMoConverter::new(rudof.config.comparator());
@@ -136,8 +136,8 @@ fn get_coshamo<R: io::Read>(
                     })?;
             Ok(coshamo)
         },
-        ComparisonMode::Service => todo!("Not yet implemented comparison between SPARQL endpoints"),
-        ComparisonMode::Dctap => todo!("Not yet implemented comparison between DCTAP files"),
+        ComparisonMode::Service => Err(ComparisonError::UnsupportedComparisonMode { mode: mode.to_string() }.into()),
+        ComparisonMode::Dctap => Err(ComparisonError::UnsupportedComparisonMode { mode: mode.to_string() }.into()),
     }
 }
 
@@ -172,6 +172,11 @@ pub fn read_shex_only<R: io::Read>(reader: R, format: &ShExFormat, base: IriS, s
             })?;
             Ok(schema_json)
         },
-        _ => todo!("Not yet implemented reading ShEx from RDF files"),
+        _ => Err(ShExError::FailedParsingShExSchema {
+            error: "Not yet implemented reading ShEx from RDF files".to_string(),
+            source_name: source_name.to_string(),
+            format: format.to_string(),
+        }
+        .into()),
     }
 }
diff --git a/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs b/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
index a4cafad..357e2d7 100644
--- a/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
+++ b/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
@@ -30,7 +30,10 @@ pub fn serialize_pgschema_validation_results<W: io::Write>(
                 .map_err(|e| PgSchemaError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultPgSchemaValidationFormat::Details => {
-            todo!("Implement details format for Property Graph schema validation results serialization");
+            return Err(PgSchemaError::FailedIoOperation {
+                error: "Details format for Property Graph schema validation results is not implemented yet".to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
index c7f7de2..0a720a7 100644
--- a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
+++ b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
@@ -39,7 +39,10 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultShaclValidationFormat::Json => {
-            todo!("Generation of JSON for SHACL validation report is not implemented yet")
+            return Err(ShaclError::FailedIoOperation {
+                error: "Generation of JSON for SHACL validation report is not implemented yet".to_string(),
+            }
+            .into());
         },
         _ => {
             serialize_shacl_validation_results_rdf(
diff --git a/rudof_lib/src/api/shex/implementations/load_shapemap.rs b/rudof_lib/src/api/shex/implementations/load_shapemap.rs
index 54f6cad..7325c71 100644
--- a/rudof_lib/src/api/shex/implementations/load_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shapemap.rs
@@ -29,7 +29,11 @@ pub fn load_shapemap(
             rudof.shapemap = Some(shapemap);
         },
         _ => {
-            todo!("ShapeMap format {:?} not yet implemented", shapemap_format);
+            return Err(ShExError::FailedParsingShapeMap {
+                source_name: shapemap.source_name().to_string(),
+                error: format!("not implemented for format '{shapemap_format}'"),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index 3e27028..286cbc3 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -42,7 +42,12 @@ pub fn load_shex_schema(
             load_shex_schema_shexj(rudof, schema_reader, &schema.source_name(), base_schema, &reader_mode)?;
         },
         _ => {
-            todo!("Implement loading for ShEx format '{}'", schema_format);
+            return Err(ShExError::FailedParsingShExSchema {
+                error: "not implemented for this format".to_string(),
+                source_name: schema.source_name().to_string(),
+                format: schema_format.to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs b/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
index 868626e..a77c8ce 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
@@ -20,7 +20,11 @@ pub fn serialize_shapemap<W: io::Write>(
             serialize_shapemap_json(shapemap, writer)?;
         },
         _ => {
-            todo!("Implement serialization for ShapeMap format '{}'", shapemap_format);
+            return Err(ShExError::FailedSerializingShapemap {
+                format: shapemap_format.to_string(),
+                error: "not implemented for this format".to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs b/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
index 3f4cb9f..2feeed4 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
@@ -183,7 +183,11 @@ fn serialize_schema(
                 .map_err(|e| ShExError::FailedIoOperation { error: e.to_string() })?;
         },
         _ => {
-            todo!("Implement serialization for ShEx format '{}'", shex_format);
+            return Err(ShExError::FailedSerializingShExSchema {
+                format: shex_format.to_string(),
+                error: "not implemented for this format".to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs b/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
index 16c2287..4eed801 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
@@ -54,7 +54,11 @@ pub fn serialize_shex_validation_results<W: io::Write>(
             writeln!(writer, "{str}").map_err(|e| ShExError::FailedIoOperation { error: e.to_string() })?;
         },
         _ => {
-            todo!("Implement serialization for the specified format: {result_shex_validation_format:?}");
+            return Err(ShExError::FailedSerializingShExValidationResults {
+                format: result_shex_validation_format.to_string(),
+                error: "not implemented for this format".to_string(),
+            }
+            .into());
         },
     }
 
-- 
2.43.0


From 2f42430e06509a58d6aaf7830d111a2ec130272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 44/79] fix: every sh:nodeKind is written when SHACL shapes are
 serialized

---
 shacl/src/ir/component.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index 8cc2cc9..88c0569 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -169,9 +169,13 @@ impl IRComponent {
             IRComponent::NodeKind(nk) => {
                 let iri = match nk.node_kind() {
                     NodeKind::Iri => ShaclVocab::sh_iri_ref(),
-                    _ => unimplemented!(),
+                    NodeKind::Lit => ShaclVocab::sh_literal(),
+                    NodeKind::BNode => ShaclVocab::sh_blank_node(),
+                    NodeKind::BNodeOrIri => ShaclVocab::sh_blank_node_or_iri(),
+                    NodeKind::BNodeOrLit => ShaclVocab::sh_blank_node_or_literal(),
+                    NodeKind::IriOrLit => ShaclVocab::sh_iri_or_literal(),
                 };
-                register_iri(iri, ShaclVocab::sh_datatype(), id, graph)
+                register_iri(&iri, ShaclVocab::sh_node_kind(), id, graph)
             },
             IRComponent::MinCount(mc) => {
                 register_integer(mc.min_count() as isize, ShaclVocab::sh_min_count(), id, graph)
-- 
2.43.0


From 24cfc7da6ccea373c6571a7300c9952748f6955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 45/79] fix: literals keep their datatype and language when
 SHACL shapes are serialized

---
 shacl/src/ir/component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index 88c0569..94c2518 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -467,7 +467,7 @@ fn register_literal<RDF: BuildRDF>(
     node: &Object,
     graph: &mut RDF,
 ) -> Result<(), IRError> {
-    let literal: RDF::Literal = value.lexical_form().into();
+    let literal: RDF::Literal = value.clone().into();
     register_term(&literal.into(), predicate, node, graph)
 }
 
-- 
2.43.0


From 6f120d72bbca95031516891679b1055f1b5fb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 46/79] fix: SHACL lists, values and shapes are serialized as
 RDF lists and terms

---
 shacl/src/ir/component.rs | 119 ++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 43 deletions(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index 94c2518..60270b8 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -16,7 +16,7 @@ use rudof_iri::IriS;
 use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
-use rudof_rdf::rdf_core::vocabs::ShaclVocab;
+use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
 
@@ -168,7 +168,7 @@ impl IRComponent {
             IRComponent::Datatype(iri) => register_iri(iri.datatype(), ShaclVocab::sh_datatype(), id, graph),
             IRComponent::NodeKind(nk) => {
                 let iri = match nk.node_kind() {
-                    NodeKind::Iri => ShaclVocab::sh_iri_ref(),
+                    NodeKind::Iri => ShaclVocab::sh_iri(),
                     NodeKind::Lit => ShaclVocab::sh_literal(),
                     NodeKind::BNode => ShaclVocab::sh_blank_node(),
                     NodeKind::BNodeOrIri => ShaclVocab::sh_blank_node_or_iri(),
@@ -204,14 +204,14 @@ impl IRComponent {
                 register_literal(&ConcreteLiteral::str(p.pattern()), ShaclVocab::sh_pattern(), id, graph)
             },
             IRComponent::UniqueLang(ul) => register_boolean(ul.unique_lang(), ShaclVocab::sh_unique_lang(), id, graph),
-            IRComponent::LanguageIn(li) => li.langs().iter().try_for_each(|l| {
-                register_literal(
-                    &ConcreteLiteral::str(&l.to_string()),
-                    ShaclVocab::sh_language_in(),
-                    id,
-                    graph,
-                )
-            }),
+            IRComponent::LanguageIn(li) => {
+                let langs = li
+                    .langs()
+                    .iter()
+                    .map(|l| RDF::Literal::from(ConcreteLiteral::str(&l.to_string())).into())
+                    .collect();
+                register_list(langs, ShaclVocab::sh_language_in(), id, graph)
+            },
             IRComponent::Equals(eq) => register_iri(eq.iri(), ShaclVocab::sh_equals(), id, graph),
             IRComponent::Disjoint(d) => register_iri(d.iri(), ShaclVocab::sh_disjoint(), id, graph),
             IRComponent::LessThan(lt) => register_iri(lt.iri(), ShaclVocab::sh_less_than(), id, graph),
@@ -219,52 +219,35 @@ impl IRComponent {
                 register_iri(lte.iri(), ShaclVocab::sh_less_than_or_equals(), id, graph)
             },
             IRComponent::Or(or) => {
-                or.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_or(), id, graph)
-                })
+                let shapes = shape_terms::<RDF>(or.shapes(), shape_map)?;
+                register_list(shapes, ShaclVocab::sh_or(), id, graph)
             },
             IRComponent::And(and) => {
-                and.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_and(), id, graph)
-                })
+                let shapes = shape_terms::<RDF>(and.shapes(), shape_map)?;
+                register_list(shapes, ShaclVocab::sh_and(), id, graph)
             },
             IRComponent::Not(not) => register_term(
-                // TODO - Throw error instead of unwrap
-                &shape_map.get(not.shape()).unwrap().id().clone().into(),
+                &shape_term::<RDF>(not.shape(), shape_map)?,
                 ShaclVocab::sh_not(),
                 id,
                 graph,
             ),
             IRComponent::Xone(xone) => {
-                xone.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_xone(), id, graph)
-                })
+                let shapes = shape_terms::<RDF>(xone.shapes(), shape_map)?;
+                register_list(shapes, ShaclVocab::sh_xone(), id, graph)
             },
             IRComponent::Node(n) => register_term(
-                // TODO - Throw error instead of unwrap
-                &shape_map.get(n.shape()).unwrap().id().clone().into(),
+                &shape_term::<RDF>(n.shape(), shape_map)?,
                 ShaclVocab::sh_node(),
                 id,
                 graph,
             ),
-            IRComponent::HasValue(hv) => match hv.value() {
-                Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_has_value(), id, graph),
-                Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_has_value(), id, graph),
-                _ => unreachable!(),
+            IRComponent::HasValue(hv) => {
+                register_term(&hv.value().clone().into(), ShaclVocab::sh_has_value(), id, graph)
             },
             IRComponent::In(i) => {
-                // TODO - Review this code
-                i.values().iter().try_for_each(|v| match v {
-                    Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_in(), id, graph),
-                    Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_in(), id, graph),
-                    _ => unreachable!(),
-                })
+                let values = i.values().iter().map(|v| v.clone().into()).collect();
+                register_list(values, ShaclVocab::sh_in(), id, graph)
             },
             IRComponent::QualifiedValueShape(qvs) => {
                 if let Some(value) = qvs.qualified_min_count() {
@@ -292,10 +275,15 @@ impl IRComponent {
             IRComponent::Closed(closed) => {
                 register_boolean(closed.is_closed(), ShaclVocab::sh_closed(), id, graph)?;
 
-                closed
-                    .ignored_properties()
-                    .iter()
-                    .try_for_each(|iri| register_iri(iri, ShaclVocab::sh_ignored_properties(), id, graph))
+                if !closed.ignored_properties().is_empty() {
+                    let ignored = closed
+                        .ignored_properties()
+                        .iter()
+                        .map(|iri| iri.clone().into())
+                        .collect();
+                    register_list(ignored, ShaclVocab::sh_ignored_properties(), id, graph)?;
+                }
+                Ok(())
             },
             IRComponent::Deactivated(deactivated) => {
                 // TODO - Adapt for node expression
@@ -475,6 +463,51 @@ fn register_iri<RDF: BuildRDF>(value: &IriS, predicate: IriS, node: &Object, gra
     register_term(&value.clone().into(), predicate, node, graph)
 }
 
+/// Registers an RDF collection with the given values
+fn register_list<RDF: BuildRDF>(
+    values: Vec<RDF::Term>,
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+) -> Result<(), IRError> {
+    let list = list_to_rdf(values, graph)?;
+    register_term(&list, predicate, node, graph)
+}
+
+/// Adds an RDF collection to the graph, returning the head of the list
+pub(crate) fn list_to_rdf<RDF: BuildRDF>(values: Vec<RDF::Term>, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let mut rest: RDF::Term = RdfVocab::rdf_nil().into();
+    for value in values.into_iter().rev() {
+        let cell: RDF::Subject = graph
+            .add_bnode()
+            .map_err(|e| IRError::from_rdf_err::<RDF>("add list node", e))?
+            .into();
+        graph
+            .add_triple(cell.clone(), RdfVocab::rdf_first(), value)
+            .map_err(IRError::add_triple::<RDF>)?;
+        graph
+            .add_triple(cell.clone(), RdfVocab::rdf_rest(), rest)
+            .map_err(IRError::add_triple::<RDF>)?;
+        rest = cell.into();
+    }
+    Ok(rest)
+}
+
+fn shape_term<RDF: BuildRDF>(
+    idx: &ShapeLabelIdx,
+    shape_map: &HashMap<ShapeLabelIdx, IRShape>,
+) -> Result<RDF::Term, IRError> {
+    let shape = shape_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+    Ok(shape.id().clone().into())
+}
+
+fn shape_terms<RDF: BuildRDF>(
+    idxs: &[ShapeLabelIdx],
+    shape_map: &HashMap<ShapeLabelIdx, IRShape>,
+) -> Result<Vec<RDF::Term>, IRError> {
+    idxs.iter().map(|idx| shape_term::<RDF>(idx, shape_map)).collect()
+}
+
 fn register_term<RDF: BuildRDF>(
     value: &RDF::Term,
     predicate: IriS,
-- 
2.43.0


From 66484755cc49b285213e3698b403e84261d8e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 47/79] fix: SHACL property shapes with complex paths can be
 serialized

---
 shacl/src/ir/property_shape.rs | 42 +++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/shacl/src/ir/property_shape.rs b/shacl/src/ir/property_shape.rs
index cbdb641..a49067a 100644
--- a/shacl/src/ir/property_shape.rs
+++ b/shacl/src/ir/property_shape.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ASTPropertyShape, ASTSchema};
-use crate::ir::component::IRComponent;
+use crate::ir::component::{IRComponent, list_to_rdf};
 use crate::ir::dg::{DependencyGraph, PosNeg};
 use crate::ir::error::IRError;
 use crate::ir::schema::IRSchema;
@@ -252,13 +252,10 @@ impl IRPropertyShape {
                 .map_err(IRError::add_triple::<RDF>)?;
         }
 
-        if let SHACLPath::Predicate { pred } = &self.path {
-            graph
-                .add_triple(id.clone(), ShaclVocab::sh_path(), pred.clone())
-                .map_err(IRError::add_triple::<RDF>)?;
-        } else {
-            unimplemented!()
-        }
+        let path = path_to_rdf(&self.path, graph)?;
+        graph
+            .add_triple(id.clone(), ShaclVocab::sh_path(), path)
+            .map_err(IRError::add_triple::<RDF>)?;
 
         self.components
             .iter()
@@ -287,6 +284,35 @@ impl IRPropertyShape {
     }
 }
 
+/// Adds the triples that describe a path to the graph, returning the node that represents the path
+fn path_to_rdf<RDF: BuildRDF>(path: &SHACLPath, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let (predicate, object) = match path {
+        SHACLPath::Predicate { pred } => return Ok(pred.clone().into()),
+        SHACLPath::Sequence { paths } => return paths_to_rdf(paths, graph),
+        SHACLPath::Alternative { paths } => (ShaclVocab::sh_alternative_path(), paths_to_rdf(paths, graph)?),
+        SHACLPath::Inverse { path } => (ShaclVocab::sh_inverse_path(), path_to_rdf(path, graph)?),
+        SHACLPath::ZeroOrMore { path } => (ShaclVocab::sh_zero_or_more_path(), path_to_rdf(path, graph)?),
+        SHACLPath::OneOrMore { path } => (ShaclVocab::sh_one_or_more_path(), path_to_rdf(path, graph)?),
+        SHACLPath::ZeroOrOne { path } => (ShaclVocab::sh_zero_or_one_path(), path_to_rdf(path, graph)?),
+    };
+    let node: RDF::Subject = graph
+        .add_bnode()
+        .map_err(|e| IRError::from_rdf_err::<RDF>("add path node", e))?
+        .into();
+    graph
+        .add_triple(node.clone(), predicate, object)
+        .map_err(IRError::add_triple::<RDF>)?;
+    Ok(node.into())
+}
+
+fn paths_to_rdf<RDF: BuildRDF>(paths: &[SHACLPath], graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let nodes = paths
+        .iter()
+        .map(|path| path_to_rdf(path, graph))
+        .collect::<Result<Vec<_>, _>>()?;
+    list_to_rdf(nodes, graph)
+}
+
 impl IRPropertyShape {
     pub fn add_edges(
         &self,
-- 
2.43.0


From d376e0e2e0adc3f66d8b56ad2dc9d1e679095be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 48/79] fix: nested properties, messages and reifier shapes are
 kept when SHACL shapes are serialized

---
 shacl/src/ir/node_shape.rs     |  8 ++++++++
 shacl/src/ir/property_shape.rs | 32 +++++++++++++++++++++++++++-----
 shacl/src/types/target.rs      | 12 +++++++-----
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/shacl/src/ir/node_shape.rs b/shacl/src/ir/node_shape.rs
index f97cd7c..6c97c95 100644
--- a/shacl/src/ir/node_shape.rs
+++ b/shacl/src/ir/node_shape.rs
@@ -211,6 +211,14 @@ impl IRNodeShape {
             })?;
         }
 
+        if let Some(message) = &self.message {
+            message.iter_literals().try_for_each(|lit| {
+                graph
+                    .add_triple::<_, _, RDF::Literal>(id.clone(), ShaclVocab::sh_message(), lit.into())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
+        }
+
         self.components
             .iter()
             .try_for_each(|c| c.register(&self.id, graph, shapes_map))?;
diff --git a/shacl/src/ir/property_shape.rs b/shacl/src/ir/property_shape.rs
index a49067a..399c3fd 100644
--- a/shacl/src/ir/property_shape.rs
+++ b/shacl/src/ir/property_shape.rs
@@ -266,12 +266,34 @@ impl IRPropertyShape {
             .try_for_each(|target| target.register(&self.id, graph))
             .map_err(|e| IRError::from_rdf_err::<RDF>("add target to graph", e))?;
 
-        if self.deactivated {
-            let lit: RDF::Literal = "true".to_string().into();
-
+        self.property_shapes.iter().try_for_each(|idx| {
+            let ps = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
             graph
-                .add_triple(id.clone(), ShaclVocab::sh_deactivated(), lit)
-                .map_err(IRError::add_triple::<RDF>)?;
+                .add_triple(id.clone(), ShaclVocab::sh_property(), ps.id().clone())
+                .map_err(IRError::add_triple::<RDF>)
+        })?;
+
+        if let Some(message) = &self.message {
+            message.iter_literals().try_for_each(|lit| {
+                graph
+                    .add_triple::<_, _, RDF::Literal>(id.clone(), ShaclVocab::sh_message(), lit.into())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
+        }
+
+        if let Some(reifier_info) = &self.reifier_info {
+            if reifier_info.reification_required() {
+                let lit: RDF::Literal = true.into();
+                graph
+                    .add_triple(id.clone(), ShaclVocab::sh_reification_required(), lit)
+                    .map_err(IRError::add_triple::<RDF>)?;
+            }
+            reifier_info.reifier_shape().iter().try_for_each(|idx| {
+                let shape = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+                graph
+                    .add_triple(id.clone(), ShaclVocab::sh_reifier_shape(), shape.id().clone())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
         }
 
         if let Some(severity) = &self.severity {
diff --git a/shacl/src/types/target.rs b/shacl/src/types/target.rs
index c4f90bb..d97d55f 100644
--- a/shacl/src/types/target.rs
+++ b/shacl/src/types/target.rs
@@ -33,11 +33,13 @@ impl Target {
             Target::ObjectsOf(o) => graph.add_triple(node, ShaclVocab::sh_target_objects_of(), o.clone()),
             // TODO - Review this code and in SHACL 1.2, add sh_shape_class ?
             Target::ImplicitClass(_) => graph.add_triple(node, RdfVocab::rdf_type().clone(), RdfsVocab::rdfs_class()),
-            Target::WrongNode(_) => todo!(),
-            Target::WrongClass(_) => todo!(),
-            Target::WrongSubjectsOf(_) => todo!(),
-            Target::WrongObjectsOf(_) => todo!(),
-            Target::WrongImplicitClass(_) => todo!(),
+            Target::WrongNode(n) => graph.add_triple(node, ShaclVocab::sh_target_node(), n.clone()),
+            Target::WrongClass(c) => graph.add_triple(node, ShaclVocab::sh_target_class(), c.clone()),
+            Target::WrongSubjectsOf(s) => graph.add_triple(node, ShaclVocab::sh_target_subjects_of(), s.clone()),
+            Target::WrongObjectsOf(o) => graph.add_triple(node, ShaclVocab::sh_target_objects_of(), o.clone()),
+            Target::WrongImplicitClass(_) => {
+                graph.add_triple(node, RdfVocab::rdf_type().clone(), RdfsVocab::rdfs_class())
+            },
         }
     }
 }
-- 
2.43.0


From 5798c1fe1462b80b675495d0d5c62c69cfeff66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 49/79] fix: new blank nodes don't clash with the ones of the
 data and can be written in RDF/XML

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 525d998..e03cfc4 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -54,9 +54,6 @@ pub struct OxigraphInMemory {
     /// Optional base IRI for resolving relative IRIs.
     base: Option<IriS>,
 
-    /// Counter used to generate unique blank node identifiers.
-    bnode_counter: usize,
-
     /// Optional Oxigraph store used for SPARQL evaluation.
     #[cfg(feature = "sparql")]
     store: Option<Store>,
@@ -1063,17 +1060,10 @@ impl BuildRDF for OxigraphInMemory {
 
     /// Generates a new unique blank node.
     ///
-    /// Each call to this method increments an internal counter to ensure uniqueness.
-    ///
-    /// # Errors
-    ///
-    /// Returns an error if the blank node counter overflows (extremely unlikely).
+    /// The label is random so that it doesn't clash with the labels of blank nodes which are
+    /// already in the graph or can be added later. It starts with a letter, as required by RDF/XML.
     fn add_bnode(&mut self) -> Result<Self::BNode, Self::Err> {
-        self.bnode_counter += 1;
-        let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
-            msg: format!("Blank node counter overflow: {}", self.bnode_counter),
-        })?;
-        Ok(OxBlankNode::new_from_unique_id(bn))
+        Ok(OxBlankNode::default())
     }
 
     /// Adds a triple to the graph.
@@ -1141,7 +1131,6 @@ impl BuildRDF for OxigraphInMemory {
             graph: Graph::new().into(),
             pm: PrefixMap::new(),
             base: None,
-            bnode_counter: 0,
             #[cfg(feature = "sparql")]
             store: None,
         }
-- 
2.43.0


From 2590d83638c96bd931cbdee3fba0a3d42fd4283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 50/79] fix: reifier shapes report the focus node and ignore
 literals

---
 shacl/src/validator/engine/validate.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 66cea87..12237d7 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -185,7 +185,10 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
         for reifier_shape in reifier_info.reifier_shape() {
             let pred = reifier_info.predicate();
             let pred_iri: RDF::IRI = pred.clone().into();
-            let subject = RDF::term_as_subject(node)?;
+            // Literals are not the subject of any triple
+            let Ok(subject) = RDF::term_as_subject(node) else {
+                continue;
+            };
             let triples = store
                 .triples_with_subject_predicate(&subject, &pred_iri)
                 .map_err(ValidationError::new_graph_error::<RDF>)?;
@@ -197,7 +200,7 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
                     .collect::<Vec<_>>();
                 if reifier_subjects.is_empty() && reifier_info.reification_required() {
                     let vr_single = ValidationResult::new(
-                        shape.id().clone(),
+                        RDF::term_as_object(node)?,
                         Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
                         shape.severity().clone(),
                     )
-- 
2.43.0


From d5fd122cc91c2650dae21688ceada77a3560f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 51/79] fix: shapes which can't be converted are refused with
 an error instead of aborting

---
 shapes_converter/src/lib.rs                   |  2 +-
 .../src/shacl_to_shex/shacl2shex.rs           | 68 +++++++------------
 .../src/shex_to_html/cardinality.rs           |  4 +-
 .../src/shex_to_html/shex2html.rs             | 10 +--
 .../src/shex_to_sparql/shex2sparql.rs         | 35 +++++-----
 shapes_converter/src/shex_to_uml/shex2uml.rs  | 10 +--
 6 files changed, 55 insertions(+), 74 deletions(-)

diff --git a/shapes_converter/src/lib.rs b/shapes_converter/src/lib.rs
index 96179c7..086f9fa 100755
--- a/shapes_converter/src/lib.rs
+++ b/shapes_converter/src/lib.rs
@@ -56,7 +56,7 @@ pub fn find_annotation(
 
 fn object_value2string(object_value: &ObjectValue) -> String {
     match object_value {
-        ObjectValue::IriRef(_) => todo!(),
+        ObjectValue::IriRef(iri) => iri.to_string(),
         ObjectValue::Literal(lit) => lit.lexical_form(),
     }
 }
diff --git a/shapes_converter/src/shacl_to_shex/shacl2shex.rs b/shapes_converter/src/shacl_to_shex/shacl2shex.rs
index 28bd3ae..5d68e04 100644
--- a/shapes_converter/src/shacl_to_shex/shacl2shex.rs
+++ b/shapes_converter/src/shacl_to_shex/shacl2shex.rs
@@ -62,7 +62,7 @@ impl Shacl2ShEx {
             Object::Iri(iri) => Ok(ShapeExprLabel::iri(iri.clone())),
             Object::BlankNode(bn) => Ok(ShapeExprLabel::bnode(BNode::new(bn))),
             Object::Literal(lit) => Err(Shacl2ShExError::RDFNode2LabelLiteral { literal: lit.clone() }),
-            Object::Triple { .. } => todo!(),
+            Object::Triple { .. } => Err(Shacl2ShExError::not_implemented("triple terms as shapes")),
         }
     }
 
@@ -70,7 +70,9 @@ impl Shacl2ShEx {
         let mut exprs = Vec::new();
         for node in shape.property_shapes() {
             match schema.get_shape_from_idx(node) {
-                None => todo!(),
+                None => Err(Shacl2ShExError::not_implemented(
+                    "property shapes which are not in the schema",
+                )),
                 Some(shape) => match shape {
                     IRShape::PropertyShape(ps) => {
                         let tc = self.property_shape2triple_constraint(ps)?;
@@ -97,7 +99,7 @@ impl Shacl2ShEx {
                 (None, None) => None,
                 (None, Some(t)) => Some(t),
                 (Some(t), None) => Some(t),
-                (Some(t1), Some(t2)) => Some(self.merge_triple_exprs(&t1, &t2)),
+                (Some(t1), Some(t2)) => Some(self.merge_triple_exprs(&t1, &t2)?),
             };
         }
         let shape = ShExShape::new(is_closed, extra, te);
@@ -137,23 +139,23 @@ impl Shacl2ShEx {
                     Object::Literal(lit) => {
                         Err(Shacl2ShExError::UnexpectedLiteralForTargetClass { literal: lit.clone() })
                     },
-                    Object::Triple { .. } => todo!(),
+                    Object::Triple { .. } => Err(Shacl2ShExError::not_implemented("triple terms as target classes")),
                 }?;
                 Ok(Some(value_set_value))
             },
             Target::SubjectsOf(_) => Ok(None),
             Target::ObjectsOf(_) => Ok(None),
             Target::ImplicitClass(_) => Ok(None),
-            Target::WrongNode(_) => todo!(),
-            Target::WrongClass(_) => todo!(),
-            Target::WrongSubjectsOf(_) => todo!(),
-            Target::WrongObjectsOf(_) => todo!(),
-            Target::WrongImplicitClass(_) => todo!(),
+            Target::WrongNode(_)
+            | Target::WrongClass(_)
+            | Target::WrongSubjectsOf(_)
+            | Target::WrongObjectsOf(_)
+            | Target::WrongImplicitClass(_) => Err(Shacl2ShExError::not_implemented("ill-formed targets")),
         }
     }
 
-    pub fn merge_triple_exprs(&self, te1: &TripleExpr, te2: &TripleExpr) -> TripleExpr {
-        match te1 {
+    pub fn merge_triple_exprs(&self, te1: &TripleExpr, te2: &TripleExpr) -> Result<TripleExpr, Shacl2ShExError> {
+        let merged = match te1 {
             TripleExpr::EachOf {
                 id,
                 expressions,
@@ -195,7 +197,7 @@ impl Shacl2ShEx {
                     sem_acts: sem_acts.clone(),
                     annotations: annotations.clone(),
                 },
-                _ => todo!(),
+                _ => return Err(Shacl2ShExError::not_implemented("merging of triple expressions")),
             },
             tc @ TripleExpr::TripleConstraint {
                 id,
@@ -244,10 +246,11 @@ impl Shacl2ShEx {
                     sem_acts: sem_acts.clone(),
                     annotations: annotations.clone(),
                 },
-                _ => todo!(),
+                _ => return Err(Shacl2ShExError::not_implemented("merging of triple expressions")),
             },
-            _ => todo!(),
-        }
+            _ => return Err(Shacl2ShExError::not_implemented("merging of triple expressions")),
+        };
+        Ok(merged)
     }
 
     pub fn merge_expressions(e1: &Vec<TripleExprWrapper>, e2: &Vec<TripleExprWrapper>) -> Vec<TripleExprWrapper> {
@@ -299,9 +302,9 @@ impl Shacl2ShEx {
         let rdf_type = IriRef::iri(IriS::rdf_type());
         let value = match cls {
             Object::Iri(iri) => ValueSetValue::iri(IriRef::iri(iri.clone())),
-            Object::BlankNode(_) => todo!(),
-            Object::Literal(_) => todo!(),
-            Object::Triple { .. } => todo!(),
+            Object::BlankNode(_) | Object::Literal(_) | Object::Triple { .. } => {
+                return Err(Shacl2ShExError::not_implemented("classes that are not IRIs"));
+            },
         };
         let cls = NodeConstraint::new().with_values(vec![value]);
         let te = TripleExpr::triple_constraint(None, None, rdf_type, Some(ShapeExpr::node_constraint(cls)), None, None);
@@ -319,43 +322,18 @@ impl Shacl2ShEx {
             IRComponent::Datatype(dt) => Ok(ShapeExpr::node_constraint(
                 NodeConstraint::new().with_datatype(dt.datatype().clone().into()),
             )),
-            IRComponent::NodeKind(_) => todo!(),
-            IRComponent::MinCount(_) => todo!(),
-            IRComponent::MaxCount(_) => todo!(),
-            IRComponent::MinExclusive(_) => todo!(),
-            IRComponent::MaxExclusive(_) => todo!(),
-            IRComponent::MinInclusive(_) => todo!(),
-            IRComponent::MaxInclusive(_) => todo!(),
-            IRComponent::MinLength(_) => todo!(),
-            IRComponent::MaxLength(_) => todo!(),
-            IRComponent::Pattern(_) => todo!(),
-            IRComponent::UniqueLang(_) => todo!(),
-            IRComponent::LanguageIn(_) => todo!(),
-            IRComponent::Equals(_) => todo!(),
-            IRComponent::Disjoint(_) => todo!(),
-            IRComponent::LessThan(_) => todo!(),
-            IRComponent::LessThanOrEquals(_) => todo!(),
             IRComponent::Or(_) => {
                 debug!("Not implemented OR Shapes");
                 Ok(ShapeExpr::empty_shape())
             },
-            IRComponent::And(_) => todo!(),
-            IRComponent::Not(_) => todo!(),
-            IRComponent::Xone(_) => todo!(),
-            IRComponent::Closed(_) => todo!(),
-            IRComponent::Node(_) => todo!(),
-            IRComponent::HasValue(_) => todo!(),
-            IRComponent::In(_) => todo!(),
-            IRComponent::QualifiedValueShape(_) => todo!(),
-            IRComponent::Deactivated(_) => todo!(),
-            IRComponent::BasicSparql(_) => todo!(),
+            other => Err(Shacl2ShExError::not_implemented(&format!("component {other}"))),
         }
     }
 
     pub fn shacl_path2predicate(&self, path: &SHACLPath) -> Result<IriRef, Shacl2ShExError> {
         match path {
             SHACLPath::Predicate { pred } => Ok(IriRef::iri(pred.clone())),
-            _ => todo!(),
+            other => Err(Shacl2ShExError::not_implemented(&format!("path {other}"))),
         }
     }
 }
diff --git a/shapes_converter/src/shex_to_html/cardinality.rs b/shapes_converter/src/shex_to_html/cardinality.rs
index dfbd997..473bb45 100644
--- a/shapes_converter/src/shex_to_html/cardinality.rs
+++ b/shapes_converter/src/shex_to_html/cardinality.rs
@@ -23,8 +23,8 @@ impl Serialize for Cardinality {
             Cardinality::Star => serializer.serialize_str("Zero or more"),
             Cardinality::Plus => serializer.serialize_str("One or more"),
             Cardinality::Optional => serializer.serialize_str("Zero or one (optional)"),
-            Cardinality::Range(_, _) => todo!(),
-            Cardinality::Fixed(_) => todo!(),
+            Cardinality::Range(min, max) => serializer.serialize_str(&format!("Between {min} and {max}")),
+            Cardinality::Fixed(n) => serializer.serialize_str(&format!("Exactly {n}")),
         }
     }
 }
diff --git a/shapes_converter/src/shex_to_html/shex2html.rs b/shapes_converter/src/shex_to_html/shex2html.rs
index 3b0450c..a63de90 100644
--- a/shapes_converter/src/shex_to_html/shex2html.rs
+++ b/shapes_converter/src/shex_to_html/shex2html.rs
@@ -149,8 +149,10 @@ impl ShEx2Html {
     fn shape_label2name(&mut self, label: &ShapeExprLabel, prefixmap: &PrefixMap) -> Result<Name, ShEx2HtmlError> {
         match label {
             ShapeExprLabel::IriRef { value } => iri_ref2name(value, &self.config, &None, prefixmap),
-            ShapeExprLabel::BNode { value: _ } => todo!(),
-            ShapeExprLabel::Start => todo!(),
+            ShapeExprLabel::BNode { value } => Err(ShEx2HtmlError::not_implemented(&format!(
+                "shape with blank node label {value}"
+            ))),
+            ShapeExprLabel::Start => Err(ShEx2HtmlError::not_implemented("start as shape label")),
         }
     }
 
@@ -242,7 +244,7 @@ impl ShEx2Html {
                                     },
                                 }
                             },
-                            _ => todo!(),
+                            _ => return Err(ShEx2HtmlError::not_implemented("nested triple expressions")),
                         }
                     }
                     Ok(())
@@ -254,7 +256,7 @@ impl ShEx2Html {
                     max: _,
                     sem_acts: _,
                     annotations: _,
-                } => todo!(),
+                } => Err(ShEx2HtmlError::not_implemented("OneOf expressions")),
                 TripleExpr::TripleConstraint {
                     id: _,
                     negated: _,
diff --git a/shapes_converter/src/shex_to_sparql/shex2sparql.rs b/shapes_converter/src/shex_to_sparql/shex2sparql.rs
index 2c434bb..24fb7ec 100644
--- a/shapes_converter/src/shex_to_sparql/shex2sparql.rs
+++ b/shapes_converter/src/shex_to_sparql/shex2sparql.rs
@@ -78,7 +78,7 @@ fn shape_expr2patterns(
             Err(ShEx2SparqlError::not_implemented(msg.as_str()))
         },
         ShapeExpr::Shape(s) => {
-            shape2patterns(s, &mut ps, config, schema, var_builder);
+            shape2patterns(s, &mut ps, config, schema, var_builder)?;
             Ok(ps)
         },
         ShapeExpr::External => Err(ShEx2SparqlError::not_implemented("ShapeExternal")),
@@ -101,11 +101,12 @@ fn shape2patterns(
     config: &ShEx2SparqlConfig,
     schema: &Schema,
     var_builder: &mut VarBuilder,
-) {
+) -> Result<(), ShEx2SparqlError> {
     // Maybe add triples for extra?
     if let Some(expr) = s.triple_expr() {
-        triple_expr2patterns(&expr, ps, config, schema, var_builder)
+        triple_expr2patterns(&expr, ps, config, schema, var_builder)?;
     }
+    Ok(())
 }
 
 fn triple_expr2patterns(
@@ -114,33 +115,33 @@ fn triple_expr2patterns(
     config: &ShEx2SparqlConfig,
     schema: &Schema,
     var_builder: &mut VarBuilder,
-) {
+) -> Result<(), ShEx2SparqlError> {
     match te {
         TripleExpr::EachOf { expressions, .. } => {
             for tew in expressions {
-                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)
+                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)?;
             }
         },
         TripleExpr::OneOf { expressions, .. } => {
             for tew in expressions {
-                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)
+                triple_expr2patterns(&tew.te, ps, config, schema, var_builder)?;
             }
         },
         TripleExpr::TripleConstraint { inverse, predicate, .. } => {
             // TODO: check min and max cardinalities
-            if let Some(true) = inverse {
-                todo!()
+            // TODO: check if value_expr is a single valuevalueset
+            let this = Var::new(config.this_variable_name.as_str());
+            let value = var_from_predicate(predicate, schema, var_builder);
+            let tp = if let Some(true) = inverse {
+                TriplePattern::new(&value, predicate, &this)
             } else {
-                // TODO: check if value_expr is a single valuevalueset
-                let subj = Var::new(config.this_variable_name.as_str());
-                let pred = predicate;
-                let obj = var_from_predicate(predicate, schema, var_builder);
-                let tp = TriplePattern::new(&subj, pred, &obj);
-                ps.push(tp)
-            }
+                TriplePattern::new(&this, predicate, &value)
+            };
+            ps.push(tp)
         },
-        TripleExpr::Ref(_) => todo!(),
+        TripleExpr::Ref(_) => return Err(ShEx2SparqlError::not_implemented("references to triple expressions")),
     }
+    Ok(())
 }
 
 fn var_from_predicate(predicate: &IriRef, schema: &Schema, var_builder: &mut VarBuilder) -> Var {
@@ -151,7 +152,7 @@ fn var_from_predicate(predicate: &IriRef, schema: &Schema, var_builder: &mut Var
                 if let Some(local) = prefixmap.qualify_local(iri) {
                     Var::new(local.as_str())
                 } else {
-                    todo!()
+                    Var::new_from_iri(iri, var_builder)
                 }
             },
         },
diff --git a/shapes_converter/src/shex_to_uml/shex2uml.rs b/shapes_converter/src/shex_to_uml/shex2uml.rs
index 12e87b2..6391afc 100644
--- a/shapes_converter/src/shex_to_uml/shex2uml.rs
+++ b/shapes_converter/src/shex_to_uml/shex2uml.rs
@@ -164,13 +164,13 @@ impl ShEx2Uml {
                                 }
                             },
                             TripleExpr::EachOf { .. } => {
-                                todo!()
+                                return Err(ShEx2UmlError::not_implemented("nested triple expressions"));
                             },
                             TripleExpr::OneOf { .. } => {
-                                todo!()
+                                return Err(ShEx2UmlError::not_implemented("nested triple expressions"));
                             },
                             TripleExpr::Ref(_) => {
-                                todo!()
+                                return Err(ShEx2UmlError::not_implemented("nested triple expressions"));
                             },
                         }
                     }
@@ -183,7 +183,7 @@ impl ShEx2Uml {
                     sem_acts: _,
                     annotations: _,
                 } => {
-                    todo!()
+                    return Err(ShEx2UmlError::not_implemented("OneOf expressions"));
                 },
                 TripleExpr::TripleConstraint {
                     id: _,
@@ -211,7 +211,7 @@ impl ShEx2Uml {
                         },
                     }
                 },
-                TripleExpr::Ref(_) => todo!(),
+                TripleExpr::Ref(_) => return Err(ShEx2UmlError::not_implemented("references to triple expressions")),
             }
             Ok(UmlComponent::class(uml_class))
         } else {
-- 
2.43.0


From dd7d3987643d966ad2a724821f7435e3fea1e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 52/79] fix: language tags which are not well formed are
 refused with an error instead of aborting

---
 rudof_rdf/src/rdf_core/rdf.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/rdf.rs b/rudof_rdf/src/rdf_core/rdf.rs
index f5a7d3d..e280a6c 100644
--- a/rudof_rdf/src/rdf_core/rdf.rs
+++ b/rudof_rdf/src/rdf_core/rdf.rs
@@ -315,17 +315,10 @@ pub trait Rdf: Sized {
     ///
     /// Returns `RDFError::TermAsLang` if the term is not a language-tagged literal.
     fn term_as_lang(term: &Self::Term) -> std::result::Result<Lang, RDFError> {
-        if term.is_blank_node() {
-            Err(RDFError::TermAsLang { term: term.to_string() })
-        } else if let Ok(literal) = Self::term_as_literal(term) {
-            let lang = Lang::new(literal.lexical_form());
-            match lang {
-                Ok(lang) => Ok(lang),
-                Err(_) => todo!(),
-            }
-        } else {
-            todo!()
-        }
+        Self::term_as_literal(term)
+            .ok()
+            .and_then(|literal| Lang::new(literal.lexical_form()).ok())
+            .ok_or_else(|| RDFError::TermAsLang { term: term.to_string() })
     }
 
     /// Compares two terms according to SPARQL ordering semantics.
-- 
2.43.0


From 5f8c68731184994537eedab7a21c5b812ca9e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 53/79] fix: literals have a total order, and numbers which are
 too large for a decimal are compared by value

---
 .../src/rdf_core/term/literal/literal.rs      | 48 +++++++++++++------
 .../rdf_core/term/literal/numeric_literal.rs  | 33 +++++++++++--
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 0bd62dc..04688c7 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -1049,24 +1049,42 @@ impl PartialOrd for ConcreteLiteral {
     }
 }
 
-/// Total ordering for literals.
+/// Total ordering for literals, used to sort them.
 ///
-/// # Panics
-///
-/// This implementation **panics** if two literals are not comparable, such as:
-/// - Literals with different datatypes
-/// - Numeric literals involving `NaN`
-///
-/// This is intended as a temporary solution to support sorting in validation
-/// workflows where such cases are not expected.
-///
-/// # TODO
-///
-/// Define a total ordering that is well-defined for *all* literals.
+/// Literals are grouped by kind, then numbers and booleans are ordered by value, dates chronologically
+/// and the rest by their lexical form. The datatype and the language decide between literals which are
+/// still equal.
 impl Ord for ConcreteLiteral {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.partial_cmp(other)
-            .unwrap_or_else(|| panic!("Cannot compare literals {self} and {other}"))
+        fn kind(lit: &ConcreteLiteral) -> u8 {
+            match lit {
+                ConcreteLiteral::BooleanLiteral(_) => 0,
+                ConcreteLiteral::NumericLiteral(_) => 1,
+                // Dates with and without timezone can't always be compared
+                ConcreteLiteral::DatetimeLiteral(dt) if dt.value().timezone_offset().is_some() => 2,
+                ConcreteLiteral::DatetimeLiteral(_) => 3,
+                ConcreteLiteral::StringLiteral { .. } => 4,
+                ConcreteLiteral::DatatypeLiteral { .. } => 5,
+                ConcreteLiteral::WrongDatatypeLiteral { .. } => 6,
+            }
+        }
+        let value = match (self, other) {
+            (Self::NumericLiteral(a), Self::NumericLiteral(b)) => a.to_double().total_cmp(&b.to_double()),
+            (Self::DatetimeLiteral(a), Self::DatetimeLiteral(b)) => {
+                a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal)
+            },
+            _ => std::cmp::Ordering::Equal,
+        };
+        kind(self)
+            .cmp(&kind(other))
+            .then(value)
+            .then_with(|| self.lexical_form().cmp(&other.lexical_form()))
+            .then_with(|| self.datatype().to_string().cmp(&other.datatype().to_string()))
+            .then_with(|| {
+                self.lang()
+                    .map(|l| l.to_string())
+                    .cmp(&other.lang().map(|l| l.to_string()))
+            })
     }
 }
 
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index cbeb931..a560b0a 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -232,6 +232,26 @@ impl NumericLiteral {
             NumericLiteral::NonPositiveInteger(n) => Decimal::from_i128(*n),
         }
     }
+
+    /// Returns the double which is nearest to the value of this literal.
+    pub(crate) fn to_double(&self) -> f64 {
+        match self {
+            NumericLiteral::Double(d) => *d,
+            NumericLiteral::Float(f) => f64::from(*f),
+            NumericLiteral::Decimal(d) => d.to_f64().unwrap_or(f64::NAN),
+            NumericLiteral::Integer(n) | NumericLiteral::NegativeInteger(n) | NumericLiteral::NonPositiveInteger(n) => {
+                *n as f64
+            },
+            NumericLiteral::NonNegativeInteger(n) | NumericLiteral::PositiveInteger(n) => *n as f64,
+            NumericLiteral::Long(l) => *l as f64,
+            NumericLiteral::UnsignedLong(n) => *n as f64,
+            NumericLiteral::UnsignedInt(n) => f64::from(*n),
+            NumericLiteral::UnsignedShort(n) => f64::from(*n),
+            NumericLiteral::UnsignedByte(n) => f64::from(*n),
+            NumericLiteral::Short(s) => f64::from(*s),
+            NumericLiteral::Byte(b) => f64::from(*b),
+        }
+    }
 }
 
 /// ## Utility Methods
@@ -638,11 +658,16 @@ impl Display for NumericLiteral {
 /// Ordering based on decimal conversion for cross-type comparisons.
 impl PartialOrd for NumericLiteral {
     // Convert both to Decimal and compare
-    // Returns None if conversion fails (e.g., NaN)
+    // Values which don't fit in a Decimal (very large ones and infinities) are compared as doubles
+    // Returns None for NaN
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let self_decimal = self.to_decimal()?;
-        let other_decimal = other.to_decimal()?;
-        self_decimal.partial_cmp(&other_decimal)
+        match (self.to_decimal(), other.to_decimal()) {
+            (Some(self_decimal), Some(other_decimal)) => self_decimal.partial_cmp(&other_decimal),
+            _ => match (self, other) {
+                (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => Some(a.cmp(b)),
+                _ => self.to_double().partial_cmp(&other.to_double()),
+            },
+        }
     }
 }
 
-- 
2.43.0


From b7fb4b2e8afdd9b89a40dbb361c1bf6cf55ac7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 54/79] fix: triple terms are displayed and validated instead
 of aborting

---
 rudof_rdf/src/rdf_core/term/triple.rs         | 68 ++++++++++++++++---
 rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs   |  7 +-
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  |  9 ++-
 .../src/rdf_impl/qlever/graph_container.rs    |  7 +-
 shacl/src/rdf/parsers/utils.rs                |  7 +-
 shex_validation/src/engine.rs                 |  2 +-
 sparql_service/src/srdf_data/rdf_data.rs      |  7 +-
 7 files changed, 90 insertions(+), 17 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index f28fec7..eaa7271 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -386,7 +386,16 @@ impl From<Object> for oxrdf::Term {
             Object::Iri(iri_s) => oxrdf::NamedNode::new_unchecked(iri_s.as_str()).into(),
             Object::BlankNode(bnode) => oxrdf::BlankNode::new_unchecked(bnode).into(),
             Object::Literal(literal) => oxrdf::Term::Literal(literal.into()),
-            Object::Triple { .. } => todo!(),
+            Object::Triple {
+                subject,
+                predicate,
+                object,
+            } => oxrdf::Triple::new(
+                oxrdf::NamedOrBlankNode::from(*subject),
+                oxrdf::NamedNode::new_unchecked(predicate.as_str()),
+                oxrdf::Term::from(*object),
+            )
+            .into(),
         }
     }
 }
@@ -437,8 +446,18 @@ impl TryFrom<Object> for oxrdf::NamedOrBlankNode {
         match value {
             Object::Iri(iri_s) => Ok(oxrdf::NamedNode::new_unchecked(iri_s.as_str()).into()),
             Object::BlankNode(bnode) => Ok(oxrdf::BlankNode::new_unchecked(bnode).into()),
-            Object::Literal(_) => todo!(),
-            Object::Triple { .. } => todo!(),
+            Object::Literal(literal) => Err(RDFError::ExpectedIriOrBlankNodeFoundLiteral {
+                literal: literal.to_string(),
+            }),
+            Object::Triple {
+                subject,
+                predicate,
+                object,
+            } => Err(RDFError::ExpectedIriOrBlankNodeFoundTriple {
+                subject: subject.to_string(),
+                predicate: predicate.to_string(),
+                object: object.to_string(),
+            }),
         }
     }
 }
@@ -474,13 +493,17 @@ impl Display for Object {
     /// - IRIs: displayed as-is
     /// - Blank nodes: prefixed with "_:"
     /// - Literals: uses the literal's Display implementation
-    /// - Triples: not yet implemented
+    /// - Triples: formatted as `<<( subject predicate object )>>`
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Object::Iri(iri) => write!(f, "{iri}"),
             Object::BlankNode(bnode) => write!(f, "_:{bnode}"),
             Object::Literal(lit) => write!(f, "{lit}"),
-            Object::Triple { .. } => todo!(),
+            Object::Triple {
+                subject,
+                predicate,
+                object,
+            } => write!(f, "<<( {subject} {predicate} {object} )>>"),
         }
     }
 }
@@ -539,11 +562,40 @@ impl PartialOrd for Object {
 }
 
 impl Ord for Object {
-    /// Implements total ordering for objects according to RDF semantics.
+    /// Implements total ordering for objects, used to sort them.
     ///
-    /// If elements are not comparable, [`Ordering::Less`] is returned
+    /// The ordering priority is: IRIs < Blank Nodes < Literals < Triples.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.partial_cmp(other).unwrap_or(Ordering::Less)
+        fn kind(object: &Object) -> u8 {
+            match object {
+                Object::Iri(_) => 0,
+                Object::BlankNode(_) => 1,
+                Object::Literal(_) => 2,
+                Object::Triple { .. } => 3,
+            }
+        }
+        match (self, other) {
+            (Object::Iri(a), Object::Iri(b)) => a.cmp(b),
+            (Object::BlankNode(a), Object::BlankNode(b)) => a.cmp(b),
+            (Object::Literal(a), Object::Literal(b)) => a.cmp(b),
+            (
+                Object::Triple {
+                    subject: s1,
+                    predicate: p1,
+                    object: o1,
+                },
+                Object::Triple {
+                    subject: s2,
+                    predicate: p2,
+                    object: o2,
+                },
+            ) => s1
+                .to_string()
+                .cmp(&s2.to_string())
+                .then_with(|| p1.cmp(p2))
+                .then_with(|| o1.cmp(o2)),
+            _ => kind(self).cmp(&kind(other)),
+        }
     }
 }
 
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs b/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs
index 5edaaa3..e2d0073 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs
@@ -474,7 +474,12 @@ impl Rdf for OxigraphEndpoint {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!("Triple terms not yet supported"),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index e03cfc4..9331c88 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -769,7 +769,7 @@ impl Rdf for OxigraphInMemory {
     /// - Named nodes: qualified using prefix map
     /// - Blank nodes: formatted with green color
     /// - Literals: formatted with red color
-    /// - RDF-star triples: not yet supported
+    /// - Triple terms: formatted as `<<( subject predicate object )>>`
     ///
     /// # Parameters
     ///
@@ -783,7 +783,12 @@ impl Rdf for OxigraphInMemory {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!("RDF-star triples not yet supported"),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_impl/qlever/graph_container.rs b/rudof_rdf/src/rdf_impl/qlever/graph_container.rs
index 8f2e223..3b08eca 100644
--- a/rudof_rdf/src/rdf_impl/qlever/graph_container.rs
+++ b/rudof_rdf/src/rdf_impl/qlever/graph_container.rs
@@ -242,7 +242,12 @@ impl Rdf for QleverGraphContainer {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!("Triple terms not yet supported"),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
diff --git a/shacl/src/rdf/parsers/utils.rs b/shacl/src/rdf/parsers/utils.rs
index c84e1de..abf8b49 100644
--- a/shacl/src/rdf/parsers/utils.rs
+++ b/shacl/src/rdf/parsers/utils.rs
@@ -46,8 +46,9 @@ pub(crate) fn term_to_value<RDF: Rdf>(term: &RDF::Term, msg: &str) -> Result<Val
         })?;
         Ok(Value::Literal(slit))
     } else {
-        // TODO - return error?
-        println!("Unexpected code in term_to_value: {term}: {msg}");
-        todo!()
+        Err(RDFError::ExpectedIriOrBlankNodeError {
+            term: term.to_string(),
+            error: msg.to_string(),
+        })
     }
 }
diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..0e81bd9 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -1688,7 +1688,7 @@ impl Engine {
                 let term: S::Term = lit.into();
                 term
             },
-            Object::Triple { .. } => todo!(),
+            triple @ Object::Triple { .. } => triple.clone().into(),
         }
     }
 
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 1bba764..182b53a 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -344,7 +344,12 @@ impl Rdf for RdfData {
             OxTerm::BlankNode(bn) => self.show_blanknode(bn),
             OxTerm::Literal(lit) => self.show_literal(lit),
             OxTerm::NamedNode(n) => self.qualify_iri(n),
-            OxTerm::Triple(_) => unimplemented!(),
+            OxTerm::Triple(triple) => format!(
+                "<<( {} {} {} )>>",
+                self.qualify_subject(&triple.subject),
+                self.qualify_iri(&triple.predicate),
+                self.qualify_term(&triple.object)
+            ),
         }
     }
 
-- 
2.43.0


From 7ded886bb68b67908407ba4d19b849a4bda2cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 55/79] fix: very large numbers, infinities and NaN are
 compared by value in ShEx facets

---
 .../src/rdf_core/term/literal/numeric_literal.rs  | 15 ++-------------
 shex_ast/src/ast/cond_kind.rs                     |  4 ++--
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index a560b0a..81d2587 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -264,24 +264,13 @@ impl NumericLiteral {
     }
 
     /// Checks if this numeric literal is less than another.
-    ///
-    /// Optimized for integer comparisons; falls back to decimal conversion
-    /// for mixed-type comparisons.
     pub fn less_than(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            // Fast path: direct integer comparison
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 < n2,
-            // Generic path: convert to decimal for comparison
-            (v1, v2) => v1.to_decimal() < v2.to_decimal(),
-        }
+        self.partial_cmp(other).is_some_and(|ord| ord.is_lt())
     }
 
     /// Checks if this numeric literal is less than or equal to another.
     pub fn less_than_or_eq(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 <= n2,
-            (v1, v2) => v1.to_decimal() <= v2.to_decimal(),
-        }
+        self.partial_cmp(other).is_some_and(|ord| ord.is_le())
     }
 
     /// Returns the total number of digits in the literal.
diff --git a/shex_ast/src/ast/cond_kind.rs b/shex_ast/src/ast/cond_kind.rs
index 9dad5ef..335b7a1 100644
--- a/shex_ast/src/ast/cond_kind.rs
+++ b/shex_ast/src/ast/cond_kind.rs
@@ -316,7 +316,7 @@ pub(crate) fn check_node_min_inclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_inclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than(&min) {
+    if min.less_than_or_eq(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinInclusiveError {
@@ -339,7 +339,7 @@ pub(crate) fn check_node_min_exclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_exclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than_or_eq(&min) {
+    if min.less_than(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinExclusiveError {
-- 
2.43.0


From 19da580b2911e120637221afc5c33dac76f6ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 56/79] fix: invalid IRIs of datatypes and triple terms are
 errors in Turtle data

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 9331c88..8f6bdb1 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1239,8 +1239,15 @@ fn validate_triple_iris(triple: TripleRef) -> Result<(), String> {
         OxNamedNode::new(n.as_str()).map_err(|e| e.to_string())?;
     }
     OxNamedNode::new(triple.predicate.as_str()).map_err(|e| e.to_string())?;
-    if let TermRef::NamedNode(n) = triple.object {
-        OxNamedNode::new(n.as_str()).map_err(|e| e.to_string())?;
+    match triple.object {
+        TermRef::NamedNode(n) => {
+            OxNamedNode::new(n.as_str()).map_err(|e| e.to_string())?;
+        },
+        TermRef::Literal(l) => {
+            OxNamedNode::new(l.datatype().as_str()).map_err(|e| e.to_string())?;
+        },
+        TermRef::Triple(t) => validate_triple_iris(t.as_ref())?,
+        TermRef::BlankNode(_) => {},
     }
     Ok(())
 }
-- 
2.43.0


From 9ce70347febb50f630290f2f92fb8c1f978a0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 57/79] fix: all the types of a union or intersection of more
 than two types are kept in PGSchema

---
 pgschema/src/parser/pgs_builder.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index fc5983f..8ad22bd 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -212,26 +212,32 @@ fn get_number(number: String) -> Result<usize, PgsError> {
 
 fn get_type_spec(type_spec: TypeSpec) -> Result<PGTypeSpec, PgsError> {
     let simple_type = get_simple_type(type_spec.simple_type)?;
-    if let Some(more_types) = type_spec.more_types_opt {
-        get_more_types(more_types, simple_type)
-    } else {
-        Ok(simple_type)
-    }
+    get_rest_types(type_spec.more_types_opt, simple_type)
 }
 
 fn get_more_types(more_types: MoreTypes, current: PGTypeSpec) -> Result<PGTypeSpec, PgsError> {
     match more_types {
         MoreTypes::UnionType(union_type) => {
             let right = get_simple_type(union_type.simple_type)?;
-            Ok(PGTypeSpec::union(current, right))
+            get_rest_types(*union_type.more_types_opt, PGTypeSpec::union(current, right))
         },
         MoreTypes::IntersectionType(intersection_type) => {
             let right = get_simple_type(intersection_type.simple_type)?;
-            Ok(PGTypeSpec::intersection(current, right))
+            get_rest_types(
+                *intersection_type.more_types_opt,
+                PGTypeSpec::intersection(current, right),
+            )
         },
     }
 }
 
+fn get_rest_types(more_types: Option<MoreTypes>, current: PGTypeSpec) -> Result<PGTypeSpec, PgsError> {
+    match more_types {
+        Some(more_types) => get_more_types(more_types, current),
+        None => Ok(current),
+    }
+}
+
 fn get_simple_type(simple_type: SimpleType) -> Result<PGTypeSpec, PgsError> {
     match simple_type {
         SimpleType::StringSpec(str) => {
-- 
2.43.0


From 4fe92eac1283b72fb12351d6ba413e6ebb9b0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 58/79] fix: PGSchema types without labels keep their
 properties and describe elements without labels

---
 pgschema/src/formal_base_type.rs   |  4 +++-
 pgschema/src/parser/pgs_builder.rs | 23 +++++++++++------------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pgschema/src/formal_base_type.rs b/pgschema/src/formal_base_type.rs
index 3f0ae5c..b1661c7 100644
--- a/pgschema/src/formal_base_type.rs
+++ b/pgschema/src/formal_base_type.rs
@@ -60,7 +60,9 @@ impl FormalBaseType {
 
     /// Checks if the FormalBaseType conforms to the given labels and content.
     pub fn conforms(&self, labels: &LabelSet, content: &Record) -> Either<Vec<PgsError>, Vec<Evidence>> {
-        if !self.labels.contains(labels) {
+        // A type without label sets describes elements without labels
+        let unlabelled = self.labels.is_empty() && labels.is_empty();
+        if !unlabelled && !self.labels.contains(labels) {
             tracing::trace!(
                 "Labels do not conform: record labels = [{}], expected labels = [{}]",
                 labels.iter().cloned().collect::<Vec<_>>().join(", "),
diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index 8ad22bd..58d433c 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -74,19 +74,18 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
 }
 
 fn get_label_property_spec(label_property_spec: LabelPropertySpec) -> Result<PGLabelPropertySpec, PgsError> {
-    if let Some(label_spec) = label_property_spec.label_spec_opt {
-        let label_spec = get_labels(label_spec)?;
-        if let Some(property_spec) = label_property_spec.property_spec_opt {
-            let property_value_spec = get_property_value_spec(property_spec)?;
-            Ok(PGLabelPropertySpec::content(
-                label_spec,
-                PGPropertyValueSpec::closed(property_value_spec),
-            ))
-        } else {
-            Ok(label_spec)
-        }
+    let label_spec = match label_property_spec.label_spec_opt {
+        Some(label_spec) => get_labels(label_spec)?,
+        None => PGLabelPropertySpec::new(),
+    };
+    if let Some(property_spec) = label_property_spec.property_spec_opt {
+        let property_value_spec = get_property_value_spec(property_spec)?;
+        Ok(PGLabelPropertySpec::content(
+            label_spec,
+            PGPropertyValueSpec::closed(property_value_spec),
+        ))
     } else {
-        Ok(PGLabelPropertySpec::new())
+        Ok(label_spec)
     }
 }
 
-- 
2.43.0


From 777e75fa3773377574abf3650be05f07b4f36534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 59/79] fix: PGSchema graph types are refused with an error
 instead of aborting

---
 pgschema/src/parser/pgs_builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index 58d433c..86aa46b 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -67,7 +67,11 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
                     let _ = schema.add_blank_edge_spec(source_spec, label_property_spec, target_spec);
                 }
             },
-            CreateType::CreateGraphType(_) => todo!(),
+            CreateType::CreateGraphType(_) => {
+                return Err(PgsError::ParserError {
+                    error: "graph types are not supported yet".to_string(),
+                });
+            },
         }
     }
     Ok(())
-- 
2.43.0


From f6fc8fce32e1fb70fbe7365f4771a01f031dfc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 60/79] fix: merging a property graph with redefined nodes does
 not abort

---
 pgschema/src/pg.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pgschema/src/pg.rs b/pgschema/src/pg.rs
index 2ed044d..b7ee91e 100644
--- a/pgschema/src/pg.rs
+++ b/pgschema/src/pg.rs
@@ -76,6 +76,17 @@ impl PropertyGraph {
             }
         }
 
+        // Nodes whose name has been redefined can still be the source or target of an edge
+        for (other_id, other_node) in &other.nodes {
+            if !id_map.contains_key(other_id) {
+                let new_id = NodeId::new(self.node_id_counter);
+                self.node_id_counter += 1;
+                self.nodes
+                    .insert(new_id.clone(), other_node.clone().with_id(new_id.clone()));
+                id_map.insert(other_id.clone(), new_id);
+            }
+        }
+
         // Merge edges
         for (other_edge_id, other_edge) in &other.edges {
             // Remap source/target IDs
-- 
2.43.0


From 4d4ece86e5eaf6983a9e44cde55965b5d643e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 61/79] fix: PGSchema types defined in terms of themselves are
 an error instead of a stack overflow

---
 pgschema/src/label_property_spec.rs | 27 +++++++++++++++++++--------
 pgschema/src/pgs_error.rs           |  3 +++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pgschema/src/label_property_spec.rs b/pgschema/src/label_property_spec.rs
index 1cd8bb8..b05f4ff 100644
--- a/pgschema/src/label_property_spec.rs
+++ b/pgschema/src/label_property_spec.rs
@@ -56,33 +56,44 @@ impl LabelPropertySpec {
     }
 
     pub fn semantics(&self, schema: &PropertyGraphSchema) -> Result<FormalBaseType, PgsError> {
+        self.semantics_in(schema, &mut Vec::new())
+    }
+
+    /// `refs` are the types whose definition is being expanded
+    fn semantics_in(&self, schema: &PropertyGraphSchema, refs: &mut Vec<TypeName>) -> Result<FormalBaseType, PgsError> {
         match self {
             LabelPropertySpec::Empty => Ok(FormalBaseType::type_0()),
             LabelPropertySpec::Label(label) => Ok(FormalBaseType::from_label(label.clone())),
             LabelPropertySpec::Ref(type_name) => {
+                if refs.contains(type_name) {
+                    return Err(PgsError::CyclicType(type_name.clone()));
+                }
                 let label_property_spec = schema.get_node_semantics(type_name)?;
-                label_property_spec.semantics(schema)
+                refs.push(type_name.clone());
+                let base_type = label_property_spec.semantics_in(schema, refs)?;
+                refs.pop();
+                Ok(base_type)
             },
             LabelPropertySpec::Optional(label_property_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_in(schema, refs)?;
                 Ok(base_type.union(&FormalBaseType::type_0()))
             },
             LabelPropertySpec::And(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics(schema)?;
-                let base_type1 = label_property_spec1.semantics(schema)?;
+                let base_type = label_property_spec.semantics_in(schema, refs)?;
+                let base_type1 = label_property_spec1.semantics_in(schema, refs)?;
                 Ok(base_type.combine(&base_type1))
             },
             LabelPropertySpec::Or(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics(schema)?;
-                let base_type1 = label_property_spec1.semantics(schema)?;
+                let base_type = label_property_spec.semantics_in(schema, refs)?;
+                let base_type1 = label_property_spec1.semantics_in(schema, refs)?;
                 Ok(base_type.union(&base_type1))
             },
             LabelPropertySpec::Open(label_property_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_in(schema, refs)?;
                 Ok(base_type.with_open())
             },
             LabelPropertySpec::Content(label_property_spec, property_value_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_in(schema, refs)?;
                 let property_value_semantics = property_value_spec.semantics()?;
                 let result = base_type.combine(&property_value_semantics);
                 Ok(result)
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 50263a9..a68bccb 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -24,6 +24,9 @@ pub enum PgsError {
     #[error("Not found type: {0}")]
     MissingType(TypeName),
 
+    #[error("Type {0} is defined in terms of itself")]
+    CyclicType(TypeName),
+
     #[error("Invalid regex pattern /{pattern}/: {error}")]
     InvalidRegex { pattern: String, error: String },
 
-- 
2.43.0


From 8b2469ba327de00f5c80e45e8b9e04592602b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 62/79] fix: converting a schema does not replace the schemas
 loaded in the session

---
 .../api/conversion/implementations/show_schema_conversion.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs b/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
index e7c7ff0..9c9ee76 100644
--- a/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
+++ b/rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs
@@ -35,6 +35,11 @@ pub fn show_schema_conversion<W: io::Write>(
     output_folder: Option<&Path>,
     writer: &mut W,
 ) -> Result<()> {
+    // The schema is converted in a session of its own, as it must not replace the schemas loaded in this one.
+    let mut scratch = Rudof::new(rudof.config.clone());
+    scratch.prefixes = rudof.prefixes.clone();
+    let rudof = &mut scratch;
+
     match (input_mode, output_mode) {
         (ConversionMode::ShEx, ResultConversionMode::ShEx) => show_schema_conversion_shex_to_shex(
             rudof,
-- 
2.43.0


From aab990f05c20294be4e993604d50f634053ee4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 63/79] fix: resetting PGSchema validation clears the type map
 and not the shape map

---
 .../api/pgschema/implementations/reset_pgschema_validation.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs b/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
index 41dc38d..759efea 100644
--- a/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
+++ b/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
@@ -2,6 +2,6 @@ use crate::Rudof;
 
 pub fn reset_pgschema_validation(rudof: &mut Rudof) {
     rudof.pg_schema = None;
-    rudof.shapemap = None;
+    rudof.typemap = None;
     rudof.pg_schema_validation_results = None;
 }
-- 
2.43.0


From d76faab6216a332c5776c7bb9eaa33ea87237204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 64/79] fix: reset_all clears the default prefixes of the
 session

---
 rudof_lib/src/api/core/implementations/reset_all.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/core/implementations/reset_all.rs b/rudof_lib/src/api/core/implementations/reset_all.rs
index b8dbf3e..6f5a295 100644
--- a/rudof_lib/src/api/core/implementations/reset_all.rs
+++ b/rudof_lib/src/api/core/implementations/reset_all.rs
@@ -18,4 +18,5 @@ pub fn reset_all(rudof: &mut Rudof) {
     rudof.service_description = None;
     rudof.rdf_config = None;
     rudof.map_state = None;
+    rudof.prefixes = None;
 }
-- 
2.43.0


From 9a265a03af2eaad00c8679abd20445da930fb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 65/79] fix: checking a ShEx schema uses the default prefixes
 of the session

---
 rudof_lib/src/api/shex/implementations/check_shex_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/shex/implementations/check_shex_schema.rs b/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
index f2344b5..57a0e7d 100644
--- a/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
@@ -21,6 +21,7 @@ pub fn check_shex_schema<W: io::Write>(
         .with_check_negation_requirement(false);
     temp_config.shex_validator = validator_cfg;
     let mut temp_rudof = Rudof::new(temp_config);
+    temp_rudof.prefixes = rudof.prefixes.clone();
 
     let is_schema_well_formed = match load_shex_schema(
         &mut temp_rudof,
-- 
2.43.0


From 64b22082df12176818aea513ee3f5a7a364289dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 66/79] fix: node information finds the nodes of triple
 patterns and SPARQL queries before any query is run

---
 .../src/api/data/implementations/show_node_info.rs     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rudof_lib/src/api/data/implementations/show_node_info.rs b/rudof_lib/src/api/data/implementations/show_node_info.rs
index 99a7ab1..6dcd691 100644
--- a/rudof_lib/src/api/data/implementations/show_node_info.rs
+++ b/rudof_lib/src/api/data/implementations/show_node_info.rs
@@ -31,6 +31,16 @@ pub fn show_node_info<W: io::Write>(
 
     let node_selector = parse_node_selector(node, iri_mode)?;
 
+    // Triple patterns and SPARQL queries are evaluated on the store, which is built on demand.
+    if matches!(
+        node_selector,
+        NodeSelector::Sparql { .. } | NodeSelector::TriplePattern { .. }
+    ) {
+        data.unwrap_rdf_mut()
+            .check_store()
+            .map_err(|e| Box::new(DataError::FailedArcRetrieval { error: e.to_string() }))?;
+    }
+
     let node_infos = collect_node_information(data.unwrap_rdf_mut(), node_selector, &config)?;
 
     write_node_information_list(&node_infos, data.unwrap_rdf_mut(), writer, &config)?;
-- 
2.43.0


From 8389c9df78c01b22eee3d3122a31b2062d6d56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:56 +0000
Subject: [PATCH 67/79] fix: SHACL validation results are written in the
 requested order

---
 .../serialize_shacl_validation_results.rs     | 56 +++++++++++++++++--
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
index 0a720a7..fc0f901 100644
--- a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
+++ b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use rudof_rdf::{rdf_core::BuildRDF, rdf_impl::OxigraphInMemory};
 use shacl::types::Severity;
-use shacl::validator::report::ValidationReport;
+use shacl::validator::report::{ValidationReport, ValidationResult};
 use std::io;
 
 pub fn serialize_shacl_validation_results<W: io::Write>(
@@ -16,7 +16,7 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
     result_shacl_validation_format: Option<&ResultShaclValidationFormat>,
     writer: &mut W,
 ) -> Result<()> {
-    let (_shacl_validation_sort_order_mode, result_shacl_validation_format) =
+    let (shacl_validation_sort_order_mode, result_shacl_validation_format) =
         init_defaults(shacl_validation_sort_order_mode, result_shacl_validation_format);
 
     let serialize_shacl_validation_results = rudof
@@ -29,12 +29,12 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
             serialize_shacl_validation_results_minimal(serialize_shacl_validation_results, writer)?;
         },
         ResultShaclValidationFormat::Compact => {
-            serialize_shacl_validation_results
+            sort_results(serialize_shacl_validation_results, shacl_validation_sort_order_mode)
                 .table(writer, Some(false), Some(true), Some(terminal_width()))
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultShaclValidationFormat::Details => {
-            serialize_shacl_validation_results
+            sort_results(serialize_shacl_validation_results, shacl_validation_sort_order_mode)
                 .table(writer, Some(true), Some(true), Some(terminal_width()))
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
@@ -66,6 +66,54 @@ fn init_defaults(
     )
 }
 
+/// Returns a copy of the report with its results in the given order.
+///
+/// Results which are equal in that order are ordered by severity (the most severe first), focus node,
+/// path, value, component and source shape.
+fn sort_results(report: &ValidationReport, sort_mode: ShaclValidationSortByMode) -> ValidationReport {
+    fn severity(result: &ValidationResult) -> (u8, String) {
+        let rank = match result.severity() {
+            Severity::Violation => 0,
+            Severity::Warning => 1,
+            Severity::Info => 2,
+            Severity::Debug => 3,
+            Severity::Trace => 4,
+            Severity::Generic(_) => 5,
+        };
+        (rank, result.severity().to_string())
+    }
+    fn path(result: &ValidationResult) -> Option<String> {
+        result.path().map(|path| path.to_string())
+    }
+    fn message(result: &ValidationResult) -> Vec<String> {
+        result
+            .message()
+            .iter()
+            .map(|(_, message)| message.to_string())
+            .collect()
+    }
+
+    let mut results = report.results().clone();
+    results.sort_by(|a, b| {
+        match sort_mode {
+            ShaclValidationSortByMode::Severity => severity(a).cmp(&severity(b)),
+            ShaclValidationSortByMode::Node => a.focus_node().cmp(b.focus_node()),
+            ShaclValidationSortByMode::Component => a.constraint_component().cmp(b.constraint_component()),
+            ShaclValidationSortByMode::Value => a.value().cmp(&b.value()),
+            ShaclValidationSortByMode::Path => path(a).cmp(&path(b)),
+            ShaclValidationSortByMode::SourceShape => a.source().cmp(&b.source()),
+            ShaclValidationSortByMode::Details => message(a).cmp(&message(b)),
+        }
+        .then_with(|| severity(a).cmp(&severity(b)))
+        .then_with(|| a.focus_node().cmp(b.focus_node()))
+        .then_with(|| path(a).cmp(&path(b)))
+        .then_with(|| a.value().cmp(&b.value()))
+        .then_with(|| a.constraint_component().cmp(b.constraint_component()))
+        .then_with(|| a.source().cmp(&b.source()))
+    });
+    report.clone().with_results(results)
+}
+
 fn serialize_shacl_validation_results_minimal<W: io::Write>(
     shacl_validation_results: &ValidationReport,
     writer: &mut W,
-- 
2.43.0


From a81a255a9e1bc739723ae34d0f2406b41801bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:56 +0000
Subject: [PATCH 68/79] fix: SHACL result tables have as many headers as
 columns

---
 rudof_lib/src/display/table.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/rudof_lib/src/display/table.rs b/rudof_lib/src/display/table.rs
index 5dd6d60..ec4a826 100644
--- a/rudof_lib/src/display/table.rs
+++ b/rudof_lib/src/display/table.rs
@@ -36,15 +36,7 @@ impl Table for ValidationReport {
         let colored = colored.unwrap_or(false);
 
         let mut builder = Builder::default();
-        let mut header = vec![
-            "Severity",
-            "Node",
-            "Component",
-            "Path",
-            "Value",
-            "Source shape",
-            "Details",
-        ];
+        let mut header = vec!["Severity", "Node", "Component", "Path", "Value", "Source shape"];
         if detailed {
             header.push("Details");
         }
-- 
2.43.0


From 281858f174ba430a5e3831511b12f5a3fd5d4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:56 +0000
Subject: [PATCH 69/79] fix: dateTimes of the same instant in different
 timezones are different RDF terms

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 04688c7..88295cf 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -389,7 +389,8 @@ impl ConcreteLiteral {
             // ShEx value set matching requires term equality, so these never match.
             (Self::DatatypeLiteral { .. }, Self::NumericLiteral(_))
             | (Self::NumericLiteral(_), Self::DatatypeLiteral { .. }) => false,
-            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
+            // The same instant in different timezones is described by different literals
+            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.value().is_identical_with(*dt2.value()),
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
             (
                 Self::WrongDatatypeLiteral {
@@ -957,7 +958,8 @@ impl PartialEq for ConcreteLiteral {
                 },
             ) => lexical_form == other_lexical_form && datatype == other_datatype,
             (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.datatype() == n2.datatype() && n1 == n2,
-            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
+            // The same instant in different timezones is described by different literals
+            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.value().is_identical_with(*dt2.value()),
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
             (
                 Self::WrongDatatypeLiteral {
-- 
2.43.0


From 10d5a0221658cd257d0454f3980cde1bd24673b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 70/79] fix: doubles and floats which differ in their last
 digits are different values

---
 rudof_rdf/src/rdf_core/rdf.rs                          | 2 +-
 rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/rdf.rs b/rudof_rdf/src/rdf_core/rdf.rs
index e280a6c..000917b 100644
--- a/rudof_rdf/src/rdf_core/rdf.rs
+++ b/rudof_rdf/src/rdf_core/rdf.rs
@@ -134,7 +134,7 @@ pub trait Rdf: Sized {
     fn numeric_value(&self, term: &Self::Term) -> Option<Decimal> {
         let maybe_object: Result<Object, _> = term.clone().try_into();
         match maybe_object {
-            Ok(object) => object.numeric_value().map(|n| n.to_decimal().unwrap()),
+            Ok(object) => object.numeric_value().and_then(|n| n.to_decimal()),
             Err(_) => None,
         }
     }
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 81d2587..5045962 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -216,10 +216,11 @@ impl NumericLiteral {
     pub fn to_decimal(&self) -> Option<Decimal> {
         match self {
             NumericLiteral::Integer(n) => Decimal::from_i128(*n),
-            NumericLiteral::Double(d) => Decimal::from_f64(*d),
+            // Some doubles and floats have more digits than the decimals they are converted to
+            NumericLiteral::Double(d) => Decimal::from_f64(*d).filter(|decimal| decimal.to_f64() == Some(*d)),
             NumericLiteral::Decimal(d) => Some(*d),
             NumericLiteral::Long(l) => Decimal::from_i64(*l),
-            NumericLiteral::Float(f) => Decimal::from_f32(*f),
+            NumericLiteral::Float(f) => Decimal::from_f32(*f).filter(|decimal| decimal.to_f32() == Some(*f)),
             NumericLiteral::Byte(b) => Decimal::from_i8(*b),
             NumericLiteral::Short(s) => Decimal::from_i16(*s),
             NumericLiteral::NonNegativeInteger(n) => Decimal::from_u128(*n),
@@ -647,7 +648,7 @@ impl Display for NumericLiteral {
 /// Ordering based on decimal conversion for cross-type comparisons.
 impl PartialOrd for NumericLiteral {
     // Convert both to Decimal and compare
-    // Values which don't fit in a Decimal (very large ones and infinities) are compared as doubles
+    // Values which don't fit in a Decimal (very large or precise ones and infinities) are compared as doubles
     // Returns None for NaN
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self.to_decimal(), other.to_decimal()) {
-- 
2.43.0


From 6c703676b0ebdc5740f40169dd2c361c9566aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:43 +0000
Subject: [PATCH 71/79] fix: the check of cyclic PGSchema types is done where
 types are looked up

---
 pgschema/src/label_property_spec.rs | 27 +++++++----------------
 pgschema/src/pgs.rs                 | 34 ++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/pgschema/src/label_property_spec.rs b/pgschema/src/label_property_spec.rs
index b05f4ff..1cd8bb8 100644
--- a/pgschema/src/label_property_spec.rs
+++ b/pgschema/src/label_property_spec.rs
@@ -56,44 +56,33 @@ impl LabelPropertySpec {
     }
 
     pub fn semantics(&self, schema: &PropertyGraphSchema) -> Result<FormalBaseType, PgsError> {
-        self.semantics_in(schema, &mut Vec::new())
-    }
-
-    /// `refs` are the types whose definition is being expanded
-    fn semantics_in(&self, schema: &PropertyGraphSchema, refs: &mut Vec<TypeName>) -> Result<FormalBaseType, PgsError> {
         match self {
             LabelPropertySpec::Empty => Ok(FormalBaseType::type_0()),
             LabelPropertySpec::Label(label) => Ok(FormalBaseType::from_label(label.clone())),
             LabelPropertySpec::Ref(type_name) => {
-                if refs.contains(type_name) {
-                    return Err(PgsError::CyclicType(type_name.clone()));
-                }
                 let label_property_spec = schema.get_node_semantics(type_name)?;
-                refs.push(type_name.clone());
-                let base_type = label_property_spec.semantics_in(schema, refs)?;
-                refs.pop();
-                Ok(base_type)
+                label_property_spec.semantics(schema)
             },
             LabelPropertySpec::Optional(label_property_spec) => {
-                let base_type = label_property_spec.semantics_in(schema, refs)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 Ok(base_type.union(&FormalBaseType::type_0()))
             },
             LabelPropertySpec::And(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics_in(schema, refs)?;
-                let base_type1 = label_property_spec1.semantics_in(schema, refs)?;
+                let base_type = label_property_spec.semantics(schema)?;
+                let base_type1 = label_property_spec1.semantics(schema)?;
                 Ok(base_type.combine(&base_type1))
             },
             LabelPropertySpec::Or(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics_in(schema, refs)?;
-                let base_type1 = label_property_spec1.semantics_in(schema, refs)?;
+                let base_type = label_property_spec.semantics(schema)?;
+                let base_type1 = label_property_spec1.semantics(schema)?;
                 Ok(base_type.union(&base_type1))
             },
             LabelPropertySpec::Open(label_property_spec) => {
-                let base_type = label_property_spec.semantics_in(schema, refs)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 Ok(base_type.with_open())
             },
             LabelPropertySpec::Content(label_property_spec, property_value_spec) => {
-                let base_type = label_property_spec.semantics_in(schema, refs)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 let property_value_semantics = property_value_spec.semantics()?;
                 let result = base_type.combine(&property_value_semantics);
                 Ok(result)
diff --git a/pgschema/src/pgs.rs b/pgschema/src/pgs.rs
index 5d2733b..e33456c 100644
--- a/pgschema/src/pgs.rs
+++ b/pgschema/src/pgs.rs
@@ -4,7 +4,10 @@ use crate::{
     pgs_error::PgsError, type_name::TypeName,
 };
 use either::Either;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt::Display,
+};
 
 /// Simple representation of a property graph
 #[derive(Debug, Clone)]
@@ -49,11 +52,40 @@ impl PropertyGraphSchema {
         let node_id = self.node_names.get(type_name).ok_or(PgsError::MissingNodeLabel {
             label: type_name.to_string(),
         })?;
+        if self.is_cyclic(type_name) {
+            return Err(PgsError::CyclicType(type_name.to_string()));
+        }
         self.node_types
             .get(node_id)
             .ok_or(PgsError::MissingType(type_name.to_string()))
     }
 
+    /// Checks whether a node type is defined in terms of itself
+    fn is_cyclic(&self, type_name: &str) -> bool {
+        let definition = |name: &str| self.node_names.get(name).and_then(|id| self.node_types.get(id));
+        let mut seen = HashSet::new();
+        let mut pending: Vec<&LabelPropertySpec> = definition(type_name).into_iter().collect();
+        while let Some(spec) = pending.pop() {
+            match spec {
+                LabelPropertySpec::Empty | LabelPropertySpec::Label(_) => {},
+                LabelPropertySpec::Ref(name) if name == type_name => return true,
+                LabelPropertySpec::Ref(name) => {
+                    if seen.insert(name) {
+                        pending.extend(definition(name));
+                    }
+                },
+                LabelPropertySpec::Optional(spec)
+                | LabelPropertySpec::Open(spec)
+                | LabelPropertySpec::Content(spec, _) => pending.push(spec),
+                LabelPropertySpec::And(left, right) | LabelPropertySpec::Or(left, right) => {
+                    pending.push(left);
+                    pending.push(right);
+                },
+            }
+        }
+        false
+    }
+
     pub fn get_edge_semantics(&self, type_name: &str) -> Result<&EdgeType, PgsError> {
         let edge_id = self.edge_names.get(type_name).ok_or(PgsError::MissingEdgeLabel {
             label: type_name.to_string(),
-- 
2.43.0


From f58b1133c71325f1823f0ead2df42f40c4700345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 72/79] fix: only bare IRIs are wrapped in angle brackets, not
 literals or queries which contain IRIs

---
 rudof_lib/src/utils/utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rudof_lib/src/utils/utils.rs b/rudof_lib/src/utils/utils.rs
index 001980d..9bdd8fb 100644
--- a/rudof_lib/src/utils/utils.rs
+++ b/rudof_lib/src/utils/utils.rs
@@ -12,17 +12,17 @@ use url::Url;
 
 /// Normalizes a node/shape IRI string for `ShapeMapParser` according to `mode`.
 ///
-/// - `Lax`: wraps strings that look like bare absolute IRIs (contain `://`, no leading `<`, `_`,
-///   or `{`) in angle brackets. Heuristic — see [`IriNormalizationMode`] docs for edge cases.
+/// - `Lax`: wraps strings that look like bare absolute IRIs (contain `://`, no leading `_` or quote,
+///   and no character which an IRI can't contain) in angle brackets. Heuristic — see [`IriNormalizationMode`] docs for edge cases.
 /// - `Strict`: returns the trimmed string unchanged; bare IRIs will produce a parser error.
 pub(crate) fn normalize_iri_str(s: &str, mode: IriNormalizationMode) -> String {
     let trimmed = s.trim();
     match mode {
         IriNormalizationMode::Strict => trimmed.to_string(),
         IriNormalizationMode::Lax => {
-            let is_bare_iri = !trimmed.starts_with('<')
-                && !trimmed.starts_with('_')
-                && !trimmed.starts_with('{')
+            // Literals, triple patterns and queries may contain IRIs but are not IRIs
+            let is_bare_iri = !trimmed.starts_with(['_', '\''])
+                && !trimmed.contains(|c: char| c.is_whitespace() || matches!(c, '<' | '>' | '"' | '{' | '}'))
                 && trimmed.contains("://");
             if is_bare_iri {
                 format!("<{}>", trimmed)
-- 
2.43.0


From 36869f5a009f7e571a2881639043ce1d89d8dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 73/79] fix: literals in triple pattern selectors are written
 in SPARQL syntax

---
 shex_ast/src/shapemap/node_selector.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/shapemap/node_selector.rs b/shex_ast/src/shapemap/node_selector.rs
index 64b332d..b017feb 100644
--- a/shex_ast/src/shapemap/node_selector.rs
+++ b/shex_ast/src/shapemap/node_selector.rs
@@ -141,13 +141,35 @@ fn mk_vble(p: &Pattern, prefixmap: &PrefixMap) -> Result<String, PrefixMapError>
                 let iri = prefixmap.resolve_iriref(iri_ref.clone())?;
                 Ok(format!("<{iri}>"))
             },
-            ObjectValue::Literal(sliteral) => Ok(sliteral.to_string()),
+            ObjectValue::Literal(sliteral) => mk_literal(sliteral, prefixmap),
         },
         Pattern::Wildcard => Ok("?any".to_string()),
         Pattern::Focus => Ok("?focus".to_string()),
     }
 }
 
+/// Writes a literal using SPARQL syntax, with its datatype in full
+fn mk_literal(literal: &ConcreteLiteral, prefixmap: &PrefixMap) -> Result<String, PrefixMapError> {
+    let mut quoted = String::from("\"");
+    for c in literal.lexical_form().chars() {
+        match c {
+            '"' => quoted.push_str("\\\""),
+            '\\' => quoted.push_str("\\\\"),
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    match literal.lang() {
+        Some(lang) => Ok(format!("{quoted}@{lang}")),
+        None => {
+            let datatype = prefixmap.resolve_iriref(literal.datatype())?;
+            Ok(format!("{quoted}^^<{datatype}>"))
+        },
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum NodeSelectorError {}
 
-- 
2.43.0


From 81cd203ea15e97183aa611dbee8020ed0a4c5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 74/79] fix: shape maps are written with separators, escaped
 queries and no accidental language tags

---
 shex_ast/src/compact/shapemap_compact_printer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index e323d4c..7ba39b5 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -166,12 +166,18 @@ where
         for a in self.shapemap.iter() {
             docs.push(self.pp_association(a))
         }
-        self.doc.intersperse(docs, self.doc.hardline())
+        self.doc
+            .intersperse(docs, self.doc.text(",").append(self.doc.hardline()))
     }
 
     fn pp_association(&self, assoc: &Association) -> DocBuilder<'a, Arena<'a, A>, A> {
+        // Without the space, the shape could be read as the language tag of a literal
+        let at = match &assoc.node_selector {
+            NodeSelector::Node(ObjectValue::Literal(_)) => " @",
+            _ => "@",
+        };
         self.pp_node_selector(&assoc.node_selector)
-            .append(self.doc.text("@"))
+            .append(self.doc.text(at))
             .append(self.pp_shape_selector(&assoc.shape_selector))
     }
 
@@ -203,7 +209,8 @@ where
     }
 
     pub fn triple_quotes(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(format!("'''{str}'''"))
+        let escaped = str.replace('\\', "\\\\").replace('\'', "\\'");
+        self.doc.text(format!("'''{escaped}'''"))
     }
 
     fn pp_shacl_path(&self, path: &SHACLPathRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
-- 
2.43.0


From 0a06a5f55f7e3d2dc933a78ac39e18b19b0e901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:24 +0000
Subject: [PATCH 75/79] fix: SHACL validation fails, instead of going on, when
 the data can't be obtained

---
 .../validator/constraints/core/logical/and.rs | 14 +---
 .../validator/constraints/core/logical/not.rs |  6 +-
 .../constraints/core/logical/xone.rs          |  4 +-
 .../core/property_pair/disjoint.rs            | 17 ++---
 .../core/property_pair/less_than.rs           | 12 +--
 .../core/property_pair/less_than_or_equals.rs | 13 +---
 .../core/shape_based/qualified_value_shape.rs |  8 +-
 .../validator/constraints/core/value/class.rs |  8 +-
 shacl/src/validator/constraints/mod.rs        | 74 ++++++-------------
 shacl/src/validator/engine/focus_nodes_ops.rs |  9 +--
 shacl/src/validator/engine/mod.rs             | 19 +++--
 shacl/src/validator/engine/validate.rs        |  2 +-
 shacl/src/validator/engine/value_nodes_ops.rs | 10 +--
 13 files changed, 66 insertions(+), 130 deletions(-)

diff --git a/shacl/src/validator/constraints/core/logical/and.rs b/shacl/src/validator/constraints/core/logical/and.rs
index 293abed..e01cfde 100644
--- a/shacl/src/validator/constraints/core/logical/and.rs
+++ b/shacl/src/validator/constraints/core/logical/and.rs
@@ -34,17 +34,9 @@ impl<S: NeighsRDF + Debug> Validator<S> for And {
                     let and_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
                         and_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    match inner_results {
-                        Ok(results) => {
-                            if !results.is_empty() {
-                                conforms = false;
-                                break;
-                            }
-                        },
-                        Err(_) => {
-                            conforms = false;
-                            break;
-                        },
+                    if !inner_results?.is_empty() {
+                        conforms = false;
+                        break;
                     }
                 }
 
diff --git a/shacl/src/validator/constraints/core/logical/not.rs b/shacl/src/validator/constraints/core/logical/not.rs
index 31b6785..722df07 100644
--- a/shacl/src/validator/constraints/core/logical/not.rs
+++ b/shacl/src/validator/constraints/core/logical/not.rs
@@ -30,11 +30,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for Not {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let not_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
                 let inner_results = not_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let is_valid_inside = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false, // TODO - Should we fail instead of considering it valid?
-                };
-                if is_valid_inside {
+                if inner_results?.is_empty() {
                     let msg = format!(
                         "Shape: {}. NOT constraint not satisfied for focus node {fnode} and internal shape {}",
                         shape.id(),
diff --git a/shacl/src/validator/constraints/core/logical/xone.rs b/shacl/src/validator/constraints/core/logical/xone.rs
index dab77da..5027dfc 100644
--- a/shacl/src/validator/constraints/core/logical/xone.rs
+++ b/shacl/src/validator/constraints/core/logical/xone.rs
@@ -34,9 +34,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for Xone {
                     let internal_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
                         internal_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    if let Ok(results) = inner_results
-                        && results.is_empty()
-                    {
+                    if inner_results?.is_empty() {
                         conforming_shapes += 1;
                     }
                 }
diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 0f5a639..fe92b37 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -5,7 +5,7 @@ use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::validator::constraints::BasicSparqlValidator;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::core::property_pair::property_values;
-use crate::validator::constraints::{NativeValidator, validate_with_focus};
+use crate::validator::constraints::{NativeValidator, apply_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -34,26 +34,25 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
             // Focus nodes that can't be subjects, like literals, don't have values
             let subject = match S::term_as_subject(f) {
                 Ok(subject) => subject,
-                Err(_) => return false,
+                Err(_) => return Ok(false),
             };
             let iri: S::IRI = self.iri().clone().into();
-            let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(iter) => iter,
-                Err(_) => return true,
-            };
+            let triples_to_compare = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
 
             for triple in triples_to_compare {
                 let value1 = S::term_as_object(vn).unwrap();
                 let value2 = S::term_as_object(triple.obj()).unwrap();
 
                 if value1 == value2 {
-                    return true;
+                    return Ok(true);
                 }
             }
-            false
+            Ok(false)
         };
 
-        validate_with_focus(
+        apply_with_focus(
             component,
             shape,
             value_nodes,
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index e030e68..190bd93 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -73,17 +73,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
                         }
                     }
                 },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThan: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
-                        .with_path(maybe_path.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_source(Some(shape.id().clone()));
-                    validation_results.push(vr);
-                },
+                Err(e) => return Err(ValidationError::new_graph_error::<S>(e)),
             }
         }
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 256c2de..c6a923e 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -73,18 +73,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
                         }
                     }
                 },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThanOrEquals: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let validation_result =
-                        ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
-                            .with_message(MessageMap::from(msg))
-                            .with_path(maybe_path.cloned())
-                            .with_source(Some(shape.id().clone()));
-                    validation_results.push(validation_result);
-                },
+                Err(e) => return Err(ValidationError::new_graph_error::<S>(e)),
             }
         }
         Ok(validation_results)
diff --git a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
index 2c028ea..f157f0b 100644
--- a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
+++ b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
@@ -36,10 +36,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for QualifiedValueShape {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let qv_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
                 let inner_results = qv_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let mut is_valid = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false,
-                };
+                let mut is_valid = inner_results?.is_empty();
 
                 if !self.siblings().is_empty() && is_valid {
                     // If there are siblings, check that none of them validate
@@ -47,8 +44,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for QualifiedValueShape {
                         let sibling_shape = shapes_graph.get_shape_from_idx_e(sibling)?;
                         let sibling_results =
                             sibling_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                        let sibling_is_valid = sibling_results.is_ok() && sibling_results.unwrap().is_empty();
-                        if sibling_is_valid {
+                        if sibling_results?.is_empty() {
                             is_valid = false;
                             break;
                         }
diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index c86b40f..d948a0e 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Class;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::types::MessageMap;
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, apply};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -37,14 +37,14 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let class_fn = |vn: &S::Term| {
             if vn.is_literal() {
-                return true;
+                return Ok(true);
             }
             let term = S::object_as_term(self.class_rule());
 
-            !is_instance::<S>(store, vn, &term).unwrap_or(false)
+            Ok(!is_instance::<S>(store, vn, &term)?)
         };
 
-        validate_with(
+        apply(
             component,
             shape,
             value_nodes,
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index 8012873..0fb31dc 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -245,6 +245,9 @@ impl<'a, S: QueryRDF + NeighsRDF + Debug + 'static> ValidatorDeref<'a, dyn Basic
     }
 }
 
+/// Validate with an evaluator that can fail. If the evaluator returns true, it means that there is a violation.
+///
+/// When the evaluator fails it is not known if there is a violation, so the validation fails.
 fn apply<S: Rdf, I: IterationStrategy<S>>(
     component: &IRComponent,
     shape: &IRShape,
@@ -254,9 +257,9 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
     msg: &str,
     maybe_path: Option<&SHACLPath>,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
-    let results = strategy
+    strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
@@ -266,24 +269,20 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
             if let Some(m) = shape.message() {
                 msg = msg.merge(m.to_owned(), true);
             }
-            if let Ok(condition) = evaluator(item)
-                && condition
-            {
-                return Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(msg)
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                );
+            match evaluator(item) {
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(msg)
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
+                Ok(false) => None,
+                Err(e) => Some(Err(e)),
             }
-            None
         })
-        .collect();
-    Ok(results)
+        .collect()
 }
 
-// TODO - Extract common logic with above fn?
+/// As `apply`, with an evaluator that also needs the focus node
 fn apply_with_focus<S: Rdf, I: IterationStrategy<S>>(
     component: &IRComponent,
     shape: &IRShape,
@@ -293,29 +292,25 @@ fn apply_with_focus<S: Rdf, I: IterationStrategy<S>>(
     msg: &str,
     maybe_path: Option<&SHACLPath>,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
-    let results = strategy
+    strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
             let source = Some(shape_id);
             let value = strategy.to_object(item);
             match evaluator(focus_node, item) {
-                Ok(true) => Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                ),
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(MessageMap::from(msg))
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
                 Ok(false) => None,
-                Err(_) => None,
+                Err(e) => Some(Err(e)),
             }
         })
-        .collect();
-
-    Ok(results)
+        .collect()
 }
 
 /// Validate with a boolean evaluator. If the evaluator returns true, it means there is a violation
@@ -339,27 +334,6 @@ fn validate_with<S: Rdf, I: IterationStrategy<S>>(
     )
 }
 
-/// Validate with a boolean evaluator. If the evaluator returns true, it means that there is a violation
-fn validate_with_focus<S: Rdf, I: IterationStrategy<S>>(
-    component: &IRComponent,
-    shape: &IRShape,
-    value_nodes: &ValueNodes<S>,
-    strategy: I,
-    evaluator: impl Fn(&S::Term, &I::Item) -> bool,
-    msg: &str,
-    maybe_path: Option<&SHACLPath>,
-) -> Result<Vec<ValidationResult>, ValidationError> {
-    apply_with_focus(
-        component,
-        shape,
-        value_nodes,
-        strategy,
-        |f, i| Ok(evaluator(f, i)),
-        msg,
-        maybe_path,
-    )
-}
-
 /// Runs an ASK query per value node and emits a violation when the query
 /// returns `false`. If the closure returns `None` for a value node, that node
 /// is treated as conforming (use this for cases where the value node can't be
diff --git a/shacl/src/validator/engine/focus_nodes_ops.rs b/shacl/src/validator/engine/focus_nodes_ops.rs
index 7461de6..34bf166 100644
--- a/shacl/src/validator/engine/focus_nodes_ops.rs
+++ b/shacl/src/validator/engine/focus_nodes_ops.rs
@@ -1,16 +1,15 @@
+use crate::error::ValidationError;
 use crate::ir::IRShape;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::FocusNodes;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf};
 
 pub(crate) trait FocusNodesOps<RDF: Rdf> {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF>;
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError>;
 }
 
 impl<RDF: NeighsRDF> FocusNodesOps<RDF> for IRShape {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF> {
-        runner
-            .focus_nodes(store, self.targets())
-            .expect("Failed to retrieve focus nodes")
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError> {
+        runner.focus_nodes(store, self.targets())
     }
 }
diff --git a/shacl/src/validator/engine/mod.rs b/shacl/src/validator/engine/mod.rs
index d3d3515..4a1b121 100644
--- a/shacl/src/validator/engine/mod.rs
+++ b/shacl/src/validator/engine/mod.rs
@@ -49,9 +49,9 @@ pub trait Engine<S: NeighsRDF>: Send {
     ) -> Result<Vec<ValidationResult>, ValidationError>;
 
     fn focus_nodes(&self, store: &S, targets: &[Target]) -> Result<FocusNodes<S>, ValidationError> {
-        let targets_iter: Vec<_> = targets
-            .iter()
-            .flat_map(|target| match target {
+        let mut nodes = Vec::new();
+        for target in targets {
+            let target_nodes = match target {
                 Target::Node(n) => self.target_node(store, n),
                 Target::Class(c) => self.target_class(store, c),
                 Target::SubjectsOf(p) => self.target_subject_of(store, p),
@@ -62,11 +62,16 @@ pub trait Engine<S: NeighsRDF>: Send {
                 Target::WrongSubjectsOf(_) => todo!(),
                 Target::WrongObjectsOf(_) => todo!(),
                 Target::WrongImplicitClass(_) => todo!(),
-            })
-            .flatten()
-            .collect();
+            };
+            match target_nodes {
+                Ok(target_nodes) => nodes.extend(target_nodes),
+                // Blank nodes of the shapes graph don't identify nodes of the data
+                Err(ValidationError::TargetNodeBNode) => {},
+                Err(e) => return Err(e),
+            }
+        }
 
-        Ok(FocusNodes::from_iter(targets_iter))
+        Ok(FocusNodes::from_iter(nodes))
     }
 
     /// If s is a shape in a shapes graph SG and s has value t for sh:targetNode
diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 12237d7..1c46ec2 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -40,7 +40,7 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Get focus nodes
         let focus_nodes = match targets {
-            None => &self.focus_nodes(store, runner),
+            None => &self.focus_nodes(store, runner)?,
             Some(targets) => targets,
         };
 
diff --git a/shacl/src/validator/engine/value_nodes_ops.rs b/shacl/src/validator/engine/value_nodes_ops.rs
index 65b5092..64ccbfa 100644
--- a/shacl/src/validator/engine/value_nodes_ops.rs
+++ b/shacl/src/validator/engine/value_nodes_ops.rs
@@ -46,12 +46,10 @@ impl<RDF: NeighsRDF> ValueNodesOps<RDF> for IRPropertyShape {
         focus_nodes: &FocusNodes<RDF>,
         runner: &dyn Engine<RDF>,
     ) -> Result<ValueNodes<RDF>, ValidationError> {
-        let value_nodes = focus_nodes.iter().filter_map(|n| {
-            match runner.path(store, self, n) {
-                Ok(ts) => Some((n.clone(), ts)),
-                Err(_) => None, // TODO - Should we add a violation for this case?
-            }
-        });
+        let value_nodes = focus_nodes
+            .iter()
+            .map(|n| Ok((n.clone(), runner.path(store, self, n)?)))
+            .collect::<Result<Vec<_>, ValidationError>>()?;
         Ok(ValueNodes::from_iter(value_nodes))
     }
 }
-- 
2.43.0


From 547fb9e239d6bea12c88949971af7168d51bc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:24 +0000
Subject: [PATCH 76/79] fix: failures of endpoints are not ignored, and an
 empty local graph doesn't add answers to theirs

---
 sparql_service/src/srdf_data/rdf_data.rs | 61 ++++++++++++++----------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 182b53a..dca75a1 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -247,6 +247,12 @@ impl RdfData {
         self.endpoints.get(name).cloned()
     }
 
+    /// A query is not evaluated on an empty primary backend when there are active endpoints: its
+    /// answers (a count of 0, a pattern that doesn't hold...) are not answers about the data.
+    fn queries_primary(&self) -> bool {
+        self.use_endpoints.is_empty() || !self.primary.as_in_memory().is_some_and(|g| g.is_empty())
+    }
+
     /// Gets all the triples from the primary backend and the active endpoints.
     /// Can be very expensive on remote backends.
     pub fn all_triples(&self) -> Result<Box<dyn Iterator<Item = OxTriple> + '_>, RdfDataError> {
@@ -255,11 +261,10 @@ impl RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e))
-            .flatten();
+        let mut endpoint_triples: Vec<OxTriple> = Vec::new();
+        for e in self.use_endpoints.values() {
+            endpoint_triples.extend(NeighsRDF::triples(e)?);
+        }
         Ok(Box::new(primary_triples.into_iter().chain(endpoint_triples)))
     }
 }
@@ -376,10 +381,13 @@ impl QueryRDF for RdfData {
     where
         Self: Sized,
     {
-        let mut out = self
-            .primary
-            .query_construct(query_str, format)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        let mut out = String::new();
+        if self.queries_primary() {
+            out = self
+                .primary
+                .query_construct(query_str, format)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        }
         for (_name, endpoint) in self.endpoints_to_use() {
             let extra = endpoint.query_construct(query_str, format)?;
             out.push_str(&extra);
@@ -394,13 +402,16 @@ impl QueryRDF for RdfData {
         let mut sols: QuerySolutions<RdfData> = QuerySolutions::empty();
 
         // Primary backend.
-        let primary_sols = self
-            .primary
-            .query_select(query_str)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
-        let primary_pm = <RdfBackend as Rdf>::prefixmap(&self.primary).unwrap_or_default();
-        let converted: Vec<QuerySolution<RdfData>> = primary_sols.iter().map(|s| s.convert(|t| t.clone())).collect();
-        sols.extend(converted, primary_pm);
+        if self.queries_primary() {
+            let primary_sols = self
+                .primary
+                .query_select(query_str)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+            let primary_pm = <RdfBackend as Rdf>::prefixmap(&self.primary).unwrap_or_default();
+            let converted: Vec<QuerySolution<RdfData>> =
+                primary_sols.iter().map(|s| s.convert(|t| t.clone())).collect();
+            sols.extend(converted, primary_pm);
+        }
 
         // Federated endpoints.
         for (_, endpoint) in self.endpoints_to_use() {
@@ -413,10 +424,11 @@ impl QueryRDF for RdfData {
     }
 
     fn query_ask(&self, query: &str) -> Result<bool, Self::Err> {
-        if self
-            .primary
-            .query_ask(query)
-            .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
+        if self.queries_primary()
+            && self
+                .primary
+                .query_ask(query)
+                .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
         {
             return Ok(true);
         }
@@ -438,11 +450,10 @@ impl NeighsRDF for RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples: Vec<OxTriple> = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e).map(|i| i.collect::<Vec<_>>()).unwrap_or_default())
-            .collect();
+        let mut endpoint_triples: Vec<OxTriple> = Vec::new();
+        for e in self.use_endpoints.values() {
+            endpoint_triples.extend(NeighsRDF::triples(e)?);
+        }
         let iter: Box<dyn Iterator<Item = OxTriple> + '_> = Box::new(primary.into_iter().chain(endpoint_triples));
         Ok(iter)
     }
-- 
2.43.0


From 99828469d42287a6a02ea203f212d6822cf01d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:05 +0000
Subject: [PATCH 77/79] fix: only declared shapes are descendants; AND
 declarations extend what their main shape extends A conjunct of a declaration
 was taken for a descendant of what it extends, so a node conformed to the
 parent by that conjunct alone, and a declaration with conjuncts was none.

---
 shex_ast/src/ir/schema_ir.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/shex_ast/src/ir/schema_ir.rs b/shex_ast/src/ir/schema_ir.rs
index a2dded1..336f4a0 100644
--- a/shex_ast/src/ir/schema_ir.rs
+++ b/shex_ast/src/ir/schema_ir.rs
@@ -186,9 +186,14 @@ impl SchemaIR {
         self.inheritance_graph.parents(idx)
     }
 
-    /// Returns the descendants of the shape expression corresponding to the given index
+    /// Returns the descendants of the shape expression corresponding to the given index.
+    ///
+    /// Only declared shape expressions are descendants: a shape which is a conjunct of a declaration
+    /// is not one without the other conjuncts.
     pub fn descendants(&self, idx: &ShapeLabelIdx) -> Vec<ShapeLabelIdx> {
-        self.inheritance_graph.descendants(idx)
+        let mut descendants = self.inheritance_graph.descendants(idx);
+        descendants.retain(|d| self.shape_label_from_idx(d).is_some());
+        descendants
     }
 
     pub fn set_semantic_actions_registry(&mut self, registry: Arc<SemanticActionsRegistry>) {
@@ -583,6 +588,18 @@ impl SchemaIR {
                         inheritance_graph.add_edge(*idx, *e);
                     }
                 },
+                // The declaration extends what its main shape extends
+                ShapeExpr::ShapeAnd { exprs } => {
+                    let main_shape = exprs
+                        .iter()
+                        .find_map(|e| match self.find_shape_idx(e).map(|info| info.expr()) {
+                            Some(ShapeExpr::Shape(shape)) => Some(shape),
+                            _ => None,
+                        });
+                    for e in main_shape.iter().flat_map(|shape| shape.extends()) {
+                        inheritance_graph.add_edge(*idx, *e);
+                    }
+                },
                 _ => continue,
             }
         }
-- 
2.43.0


From 817a74256b09042b716a8417de823490e2f61b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 78/79] fix: a parent which shares predicates with another
 parent takes its part of the arcs only

check_node_extends_main_shape demanded that each parent's expression matched all arcs of its
predicates which it could match, besides the partition: two parents with a predicate in common
refused nodes whose arcs can be divided between them.
---
 shex_validation/src/engine.rs | 76 +++--------------------------------
 1 file changed, 5 insertions(+), 71 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 0e81bd9..7d86710 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -812,9 +812,8 @@ impl Engine {
         // Collect every triple-expression reachable from the parent shapes through the full
         // extends / ShapeAnd / ShapeRef hierarchy.  This is needed to distinguish two cases:
         //   (a) A triple that matches no leaf-bucket condition but IS covered by some transitive
-        //       ancestor's condition.  These are validated by check_node_extends_main_shape
-        //       (exhaustive semantics) and must be excluded from the partition to avoid spurious
-        //       partition failures.
+        //       ancestor's condition (that of a constraint conjunct, as every main shape is a bucket).
+        //       These are excluded from the partition to avoid spurious partition failures.
         //   (b) A triple that matches no leaf-bucket condition and is NOT covered by any ancestor
         //       either.  These are truly invalid and must remain so the partition correctly fails.
         let all_ancestor_exprs: Vec<Expr> = {
@@ -851,8 +850,7 @@ impl Engine {
                 }
                 // Triple is not needed by any leaf bucket.
                 // Keep it only if it is also NOT covered by any ancestor (case b: truly invalid).
-                // If it IS covered by an ancestor (case a), exclude it — the exhaustive check
-                // in check_node_extends_main_shape already handles it.
+                // If it IS covered by an ancestor (case a), exclude it.
                 let covered_by_ancestor = all_ancestor_exprs.iter().any(|rbe| {
                     rbe.components()
                         .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
@@ -1421,70 +1419,6 @@ impl Engine {
             let mut reasons = Vec::new();
 
             if let Some(main_shape) = maybe_main_shape {
-                // For shapes with their own triple expression alongside extends (e.g.,
-                // EXTENDS @<Parent> { <p> [4] }), validate the triple expression using
-                // exhaustive semantics: pre-filter triples to those matching any component's
-                // value condition, then check cardinality. This handles open shapes correctly
-                // since extra values that don't match any constraint are simply ignored.
-                // Skip this check for shapes with shape-reference value conditions (MatchCond::Ref),
-                // which require the partition algorithm to correctly distribute triples.
-                let main_preds = main_shape.preds();
-                let no_shape_refs = main_shape
-                    .triple_expr()
-                    .components()
-                    .all(|(_, _, cond)| !cond_has_ref(&cond));
-                // Skip this shortcut when the ancestor's predicates overlap with the child
-                // shape's own declared predicates. In that case a single triple can satisfy
-                // both the ancestor's condition (e.g. a datatype constraint) and the child's
-                // own, more specific condition (e.g. a value set), and how many triples go to
-                // each side is exactly the counting problem the partition algorithm in
-                // check_node_shape_extends solves; this exhaustive pre-filter cannot (it can
-                // only keep-or-exclude a triple wholesale, not split a run of them between
-                // the two buckets in the right proportions).
-                let overlaps_child_preds = shape.preds().iter().any(|p| main_preds.contains(p));
-                if !main_preds.is_empty() && no_shape_refs && !overlaps_child_preds {
-                    let (all_values, _) = self.neighs(node, main_preds, rdf)?;
-                    let all_values_ctx: Vec<_> = all_values
-                        .iter()
-                        .map(|(p, v)| {
-                            (
-                                p.clone(),
-                                v.clone(),
-                                SemanticActionContext::triple(node, p, v)
-                                    .with_registry(schema.semantic_actions_registry_arc()),
-                            )
-                        })
-                        .collect();
-                    // Keep only triples where the value satisfies some component's condition
-                    let filtered: Vec<_> = all_values_ctx
-                        .iter()
-                        .filter(|(pred, value, ctx)| {
-                            main_shape
-                                .triple_expr()
-                                .components()
-                                .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                        })
-                        .cloned()
-                        .collect();
-                    match check_expr_neigh(main_shape.triple_expr(), &filtered, node, shape, idx, typing)? {
-                        Either::Left(errs) => {
-                            errors.push(ValidatorError::ParentShapeMainShapeFailed {
-                                node: Box::new(node.clone()),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                errors: ValidatorErrors::new(errs),
-                            });
-                        },
-                        Either::Right(rs) => {
-                            reasons.push(Reason::ParentShapeMainShapePassed {
-                                node: node.clone(),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                reasons: Reasons::new(rs),
-                            });
-                        },
-                    }
-                }
                 // Recursively check node constraints and triple expressions through the
                 // ancestor extends chain.
                 for e in main_shape.extends() {
@@ -1700,8 +1634,8 @@ impl Engine {
 /// Recursively collects every `Expr` (triple-expression RbeTable) reachable from `idx` by
 /// traversing ShapeAnd components, ShapeRef references, and extends chains.  This gives the
 /// complete set of conditions declared anywhere in the shape hierarchy rooted at `idx`, which
-/// is used to decide whether a particular triple is "covered" by the extends chain (and thus
-/// handled by check_node_extends_main_shape's exhaustive semantics) or truly undeclared.
+/// is used to decide whether a particular triple is "covered" by the extends chain or
+/// truly undeclared.
 fn collect_all_exprs_for_shape(
     idx: &ShapeLabelIdx,
     schema: &SchemaIR,
-- 
2.43.0


From e77ba0bf04b5f874f334dfbd703fb7fd530af5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 79/79] fix: the conjuncts of an extended declaration are
 checked as the shape expressions they are

Shape conjuncts ignored their EXTRA and CLOSED and failed on arcs with predicates they don't
mention; negations and disjunctions were not checked at all.
---
 shex_validation/src/engine.rs | 159 ++++++++++++++++++++++++----------
 1 file changed, 113 insertions(+), 46 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 7d86710..30a979a 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -749,7 +749,7 @@ impl Engine {
         // the ancestor's own ancestors (its "split", following jena-shex).
         let mut triple_exprs: HashMap<Option<ShapeLabelIdx>, Vec<Expr>> = HashMap::new();
         triple_exprs.insert(None, vec![shape.triple_expr().clone()]);
-        let mut ancestor_constraints: Vec<(ShapeLabelIdx, Vec<ShapeLabelIdx>, Vec<Expr>)> = Vec::new();
+        let mut ancestor_constraints: Vec<(ShapeLabelIdx, Vec<ShapeLabelIdx>, Vec<Shape>)> = Vec::new();
         for a in extends_closure(schema, shape.extends()) {
             if let Some((ncs, main, rest)) = schema.get_main_shape_constraints(&a) {
                 // The ancestors whose split parts this ancestor's constraints may see:
@@ -761,10 +761,17 @@ impl Engine {
                 if let Some(main_shape) = main {
                     triple_exprs.insert(Some(a), vec![main_shape.triple_expr().clone()]);
                 }
-                let mut constraint_tes: Vec<Expr> = Vec::new();
+                let mut constraint_shapes: Vec<Shape> = Vec::new();
                 let mut conjuncts_ok = true;
                 for se in &rest {
-                    conjuncts_ok = conjuncts_ok && collect_constraint_exprs(schema, se, node, &mut constraint_tes);
+                    conjuncts_ok = conjuncts_ok
+                        && match collect_constraint_shapes(schema, se, node, &mut constraint_shapes) {
+                            Some(ok) => ok,
+                            // Not a matter of the split (e.g. a negation): whole-neighbourhood check
+                            None => self
+                                .check_node_constraint_shape_expr(&a, se, node, schema, rdf, typing)?
+                                .is_right(),
+                        };
                 }
                 for nc in &ncs {
                     let ctx = SemanticActionContext::subject(node);
@@ -782,8 +789,8 @@ impl Engine {
                         }]),
                     }]));
                 }
-                if !constraint_tes.is_empty() {
-                    ancestor_constraints.push((a, split_ancestors, constraint_tes));
+                if !constraint_shapes.is_empty() {
+                    ancestor_constraints.push((a, split_ancestors, constraint_shapes));
                 }
             }
         }
@@ -977,22 +984,15 @@ impl Engine {
                     // The ancestors' constraint conjuncts must hold over each ancestor's
                     // split: the triples this partition allocated to the ancestor and to
                     // the ancestor's own transitive ancestors.
-                    'constraints: for (a, split_ancestors, constraint_tes) in &ancestor_constraints {
+                    'constraints: for (a, split_ancestors, constraint_shapes) in &ancestor_constraints {
                         let mut constraint_neighs = allocated.get(&Some(*a)).cloned().unwrap_or_default();
                         for b in split_ancestors {
                             if let Some(more) = allocated.get(&Some(*b)) {
                                 constraint_neighs.extend(more.iter().cloned());
                             }
                         }
-                        for te in constraint_tes {
-                            match check_exprs_neigh(
-                                std::slice::from_ref(te),
-                                &constraint_neighs,
-                                node,
-                                shape,
-                                idx,
-                                typing,
-                            )? {
+                        for constraint in constraint_shapes {
+                            match check_split_constraint(constraint, &constraint_neighs, node, a, typing)? {
                                 Either::Right(_) => {},
                                 Either::Left(errs) => {
                                     errors_in_loop.push(ValidatorError::ShapeExtendsError {
@@ -1190,13 +1190,13 @@ impl Engine {
         // conjuncts involve no triples and are checked against the node right away;
         // anything else (e.g. a NOT conjunct) keeps the whole-neighbourhood check.
         let mut reasons = Vec::new();
-        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Expr>)> = Vec::new();
+        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Shape>)> = Vec::new();
         for c in sigma.constraints() {
-            let mut tes = Vec::new();
-            match try_split_constraint(schema, c.expr(), node, &mut tes) {
+            let mut shapes = Vec::new();
+            match try_split_constraint(schema, c.expr(), node, &mut shapes) {
                 Some(true) => {
-                    if !tes.is_empty() {
-                        split_constraints.push((*c.expr(), c.scope(), tes));
+                    if !shapes.is_empty() {
+                        split_constraints.push((*c.expr(), c.scope(), shapes));
                     }
                 },
                 Some(false) => {
@@ -1278,16 +1278,15 @@ impl Engine {
             if ok_partition {
                 // Split-constraint validation: each constraint sees the union of the
                 // triples this partition allocated to the buckets in its scope.
-                'constraints: for (cidx, scope, tes) in &split_constraints {
+                'constraints: for (cidx, scope, shapes) in &split_constraints {
                     let mut constraint_neighs = Vec::new();
                     for b in *scope {
                         if let Some(more) = allocated.get(&Some(*b)) {
                             constraint_neighs.extend(more.iter().cloned());
                         }
                     }
-                    for te in tes {
-                        match check_exprs_neigh(std::slice::from_ref(te), &constraint_neighs, node, shape, idx, typing)?
-                        {
+                    for constraint in shapes {
+                        match check_split_constraint(constraint, &constraint_neighs, node, cidx, typing)? {
                             Either::Right(_) => {},
                             Either::Left(errs) => {
                                 errors_in_loop.push(ValidatorError::ShapeExtendsError {
@@ -1333,10 +1332,26 @@ impl Engine {
     where
         R: NeighsRDF + QueryRDF,
     {
-        let Some(se) = schema.find_shape_idx(cidx).map(|info| info.expr().clone()) else {
-            return pass(Reason::Empty { node: node.clone() });
-        };
-        match &se {
+        match schema.find_shape_idx(cidx).map(|info| info.expr()) {
+            Some(se) => self.check_node_constraint_shape_expr(cidx, se, node, schema, rdf, typing),
+            None => pass(Reason::Empty { node: node.clone() }),
+        }
+    }
+
+    /// As [`Self::check_node_constraint_expr`] for a shape expression which belongs to `cidx`.
+    fn check_node_constraint_shape_expr<R>(
+        &self,
+        cidx: &ShapeLabelIdx,
+        se: &ShapeExpr,
+        node: &Node,
+        schema: &SchemaIR,
+        rdf: &R,
+        typing: &mut RefTyping,
+    ) -> Result<ValidationResult>
+    where
+        R: NeighsRDF + QueryRDF,
+    {
+        match se {
             ShapeExpr::NodeConstraint(nc) => {
                 let ctx = SemanticActionContext::subject(node);
                 match nc.cond().matches(node, &ctx) {
@@ -1388,7 +1403,7 @@ impl Engine {
             },
             ShapeExpr::Ref { idx } => self.check_node_constraint_expr(idx, node, schema, rdf, typing),
             ShapeExpr::Empty => pass(Reason::Empty { node: node.clone() }),
-            ShapeExpr::External {} => self.check_node_shape_expr(cidx, node, &se, schema, rdf, typing),
+            ShapeExpr::External {} => self.check_node_shape_expr(cidx, node, se, schema, rdf, typing),
         }
     }
 
@@ -1667,16 +1682,16 @@ fn collect_all_exprs_for_shape(
 }
 
 /// Classify a selection constraint for split-constraint validation.  Returns
-/// `Some(true)` with the constraint's triple expressions pushed onto `out` when the
-/// (dereferenced) expression is expressible as triple expressions over its split scope
+/// `Some(true)` with the constraint's shapes pushed onto `out` when the
+/// (dereferenced) expression is expressible as shapes over its split scope
 /// — a Shape without extends, a NodeConstraint (checked against the node immediately),
 /// or a conjunction of such.  `Some(false)` reports a NodeConstraint the node fails.
 /// `None` means the constraint is not split-validatable (e.g. a negation or a shape
 /// with its own extends) and must keep the whole-neighbourhood check.
-fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Expr>) -> Option<bool> {
+fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Shape>) -> Option<bool> {
     match schema.find_shape_idx(cidx).map(|info| info.expr()) {
         Some(ShapeExpr::Shape(s)) if s.extends().is_empty() => {
-            out.push(s.triple_expr().clone());
+            out.push((**s).clone());
             Some(true)
         },
         Some(ShapeExpr::NodeConstraint(nc)) => {
@@ -1702,39 +1717,91 @@ fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, ou
     }
 }
 
-/// Collect the triple expressions contributed by an ancestor's constraint conjunct:
-/// Shapes contribute their triple expression, references are dereferenced (recursing
-/// into conjunctions), and NodeConstraints are checked against the node immediately —
-/// a failing one makes the whole collection report false.
-fn collect_constraint_exprs(schema: &SchemaIR, se: &ShapeExpr, node: &Node, out: &mut Vec<Expr>) -> bool {
+/// Collect the shapes contributed by an ancestor's constraint conjunct: references are
+/// dereferenced (recursing into conjunctions), and NodeConstraints are checked against the
+/// node immediately — a failing one makes the whole collection report `Some(false)`. `None`
+/// means that the conjunct (e.g. a negation) is not validated over the split.
+fn collect_constraint_shapes(schema: &SchemaIR, se: &ShapeExpr, node: &Node, out: &mut Vec<Shape>) -> Option<bool> {
     match se {
         ShapeExpr::Shape(s) => {
-            out.push(s.triple_expr().clone());
-            true
+            out.push((**s).clone());
+            Some(true)
         },
         ShapeExpr::NodeConstraint(nc) => {
             let ctx = SemanticActionContext::subject(node);
-            nc.cond().matches(node, &ctx).is_ok()
+            Some(nc.cond().matches(node, &ctx).is_ok())
         },
         ShapeExpr::Ref { idx } => match schema.get_main_shape_constraints(idx) {
             Some((ncs, main, rest)) => {
                 for nc in &ncs {
                     let ctx = SemanticActionContext::subject(node);
                     if nc.cond().matches(node, &ctx).is_err() {
-                        return false;
+                        return Some(false);
                     }
                 }
+                let mark = out.len();
                 if let Some(m) = main {
-                    out.push(m.triple_expr().clone());
+                    out.push(m);
                 }
-                rest.iter().all(|r| collect_constraint_exprs(schema, r, node, out))
+                for r in &rest {
+                    match collect_constraint_shapes(schema, r, node, out) {
+                        Some(true) => {},
+                        Some(false) => return Some(false),
+                        None => {
+                            out.truncate(mark);
+                            return None;
+                        },
+                    }
+                }
+                Some(true)
             },
-            None => true,
+            None => None,
         },
-        _ => true,
+        ShapeExpr::Empty => Some(true),
+        _ => None,
     }
 }
 
+/// Checks a constraint shape against its split: as for any shape, triples whose predicate
+/// the constraint doesn't mention are only relevant when it is closed, and triples of its
+/// EXTRA predicates which match none of its triple constraints are ignored.
+fn check_split_constraint(
+    constraint: &Shape,
+    split: &[(Pred, Node, SemanticActionContext)],
+    node: &Node,
+    idx: &ShapeLabelIdx,
+    typing: &RefTyping,
+) -> Result<ValidationResult> {
+    let preds = constraint.preds();
+    let extra = constraint.extra();
+    if constraint.is_closed() {
+        let remainder: Vec<_> = split
+            .iter()
+            .map(|(p, _, _)| p)
+            .filter(|p| !preds.contains(p) && !extra.contains(p))
+            .cloned()
+            .collect();
+        if !remainder.is_empty() {
+            return fail(ValidatorError::ClosedShapeWithRemainderPreds {
+                remainder: Preds::new(remainder),
+                declared: Preds::new(preds),
+            });
+        }
+    }
+    let neighs: Vec<_> = split
+        .iter()
+        .filter(|(p, value, ctx)| {
+            if extra.contains(p) {
+                matches_any_leaf(constraint.triple_expr(), p, value, ctx)
+            } else {
+                preds.contains(p)
+            }
+        })
+        .cloned()
+        .collect();
+    check_expr_neigh(constraint.triple_expr(), &neighs, node, constraint, idx, typing)
+}
+
 /// The transitive EXTENDS closure of `roots`, deduplicated (a diamond's shared ancestor
 /// appears once) and traversed through ShapeAnd declarations via their main conjunct —
 /// the schema's inheritance graph records no edges for ShapeAnd declarations, so
-- 
2.43.0

