From 5398ade6975f4da53292bb1f246cb98a2d4b9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 01/40] fix: print the ; of an empty if/else body once

---
 src/data_model.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..ef8518e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1360,7 +1360,7 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
-            } else {
+            } else if !matches!(self.consequence, Statement::SemiColumn) {
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
             }
@@ -1369,19 +1369,23 @@ impl<'a> DocBuild<'a> for IfStatement {
             if let Some(ref alt) = self.alternative {
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
-
-                    result.push(alt.else_node.build(b));
-                    result.push(b.txt(" "));
                 } else {
                     result.push(b.nl());
+                }
 
-                    result.push(alt.else_node.build(b));
+                result.push(alt.else_node.build(b));
 
-                    if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
-                        result.push(b.indent(b.nl()));
-                    } else {
-                        result.push(b.txt(" "));
-                    }
+                // the `;` of an empty statement is printed with the `else` node
+                if matches!(alt.statement, Statement::SemiColumn) {
+                    return;
+                }
+
+                if self.consequence.is_block()
+                    || matches!(alt.statement, Statement::If(_) | Statement::Block(_))
+                {
+                    result.push(b.txt(" "));
+                } else {
+                    result.push(b.indent(b.nl()));
                 }
                 result.push(alt.statement.build(b));
             }
-- 
2.43.0


From 7362435d8d9f43530b550646d16bf6997bd10884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 02/40] fix: keep every update expression of a for statement

---
 src/data_model.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index ef8518e..fda1d0e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1466,7 +1466,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1482,7 +1482,10 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let updates = node
+            .children_by_field_name("update", &mut node.walk())
+            .map(|n| Expression::new(n))
+            .collect();
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1500,7 +1503,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1533,9 +1536,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let docs = b.to_docs(&self.updates);
+                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                b.concat(vec![b.txt(" "), b.group(b.intersperse(&docs, sep))])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From b90cd058366bbec340f383f7c9784334fce11299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 03/40] fix: keep every dimension of an array type

---
 src/data_model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index fda1d0e..de2e66f 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2696,6 +2696,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2704,6 +2705,10 @@ impl Dimensions {
         assert_check(node, "dimensions");
 
         Self {
+            count: node
+                .children(&mut node.walk())
+                .filter(|n| n.kind() == "[")
+                .count(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2712,7 +2717,9 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            for _ in 0..self.count {
+                result.push(b.txt("[]"));
+            }
         });
     }
 }
-- 
2.43.0


From a87fb3d26b9374ce3c098f491d7eb572b02b1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 04/40] fix: keep the modifiers of an enhanced for variable

---
 src/data_model.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index de2e66f..2887edf 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1565,7 +1565,7 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     //pub dimension
@@ -1578,10 +1578,10 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
+        let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
 
         Self {
-            //modifiers,
+            modifiers,
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             value: Expression::new(node.c_by_n("value")),
@@ -1595,6 +1595,9 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
-- 
2.43.0


From 9a3e9bef17895153c016b8d64236e060a1811d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 05/40] fix: keep every type of a SOQL FOR clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 2887edf..a959e6c 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5992,7 +5992,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6001,7 +6001,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(|n| ValueNode::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6010,7 +6014,9 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From b5580b923649469a2c7ee68eb2256341689f335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 06/40] fix: keep every object of a SOQL FROM clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a959e6c..76732f1 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4301,7 +4301,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4310,7 +4310,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(|n| StorageVariant::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4320,7 +4324,9 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 4044f8fd90b9c8f5a7a33cc77cd849bf86d8e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 07/40] fix: keep the parentheses of a nested SOQL NOT

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 76732f1..d308e60 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5964,7 +5964,7 @@ impl NotExpression {
 impl<'a> DocBuild<'a> for NotExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            let expr_doc = self.condition_exp.build_with_parent(b, Some("NOT"));
+            let expr_doc = self.condition_exp.build_with_parent(b, None);
             let doc = b.concat(vec![b.txt_("NOT"), expr_doc]);
             result.push(doc);
         });
-- 
2.43.0


From 2eb5722fcca413ba09969ffde3fa9df8befc1846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 08/40] fix: keep the USING and UPDATE clauses of a SOQL query
 and the clause order

---
 src/data_model.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d308e60..57e30e8 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4198,7 +4198,7 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
@@ -4206,7 +4206,7 @@ pub struct SoqlQueryBody {
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
     pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4215,6 +4215,7 @@ impl SoqlQueryBody {
     pub fn new(node: Node) -> Self {
         assert_check(node, "soql_query_body");
 
+        let using_clause = node.try_c_by_n("using_clause").map(|n| UsingClause::new(n));
         let where_clause = node.try_c_by_n("where_clause").map(|n| WhereClause::new(n));
         let with_clause = node
             .try_c_by_n("with_clause")
@@ -4229,6 +4230,9 @@ impl SoqlQueryBody {
         let offset_clause = node
             .try_c_by_n("offset_clause")
             .map(|n| OffsetClause::new(n));
+        let update_clause = node
+            .try_c_by_n("update_clause")
+            .map(|n| UpdateClause::new(n));
         let all_rows_clause = node
             .try_c_by_n("all_rows_clause")
             .map(|n| AllRowsClause::new(n));
@@ -4241,6 +4245,7 @@ impl SoqlQueryBody {
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4248,6 +4253,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4261,6 +4267,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
@@ -4279,9 +4288,6 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
-                docs.push(n.build(b));
-            }
             if !self.for_clause.is_empty() {
                 let for_types: Vec<DocRef<'_>> =
                     self.for_clause.iter().map(|n| n.build(b)).collect();
@@ -4291,6 +4297,12 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From 685c0e60c9231e4cfd57c45ea78203e5c8dcae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 09/40] fix: keep the OFFSET clause and every RETURNING clause
 of a SOSL query

---
 src/data_model.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 57e30e8..40281d1 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3922,11 +3922,11 @@ impl<'a> DocBuild<'a> for QueryBody {
 pub struct SoslQueryBody {
     pub find_clause: FindClause,
     pub in_clause: Option<InClause>,
-    pub returning_clause: Option<ReturningClause>,
+    pub returning_clauses: Vec<ReturningClause>,
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -3937,9 +3937,11 @@ impl SoslQueryBody {
 
         let find_clause = FindClause::new(node.c_by_k("find_clause"));
         let in_clause = node.try_c_by_k("in_clause").map(|n| InClause::new(n));
-        let returning_clause = node
-            .try_c_by_k("returning_clause")
-            .map(|n| ReturningClause::new(n));
+        let returning_clauses = node
+            .try_cs_by_k("returning_clause")
+            .into_iter()
+            .map(|n| ReturningClause::new(n))
+            .collect();
         let with_clauses = node
             .try_cs_by_k("with_clause")
             .into_iter()
@@ -3949,6 +3951,9 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node
+            .try_c_by_k("offset_clause")
+            .map(|n| OffsetClause::new(n));
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -3956,10 +3961,11 @@ impl SoslQueryBody {
         Self {
             find_clause,
             in_clause,
-            returning_clause,
+            returning_clauses,
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -3975,7 +3981,7 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.in_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.returning_clause {
+            for n in &self.returning_clauses {
                 docs.push(n.build(b));
             }
             if !self.with_clauses.is_empty() {
@@ -3990,6 +3996,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From bb21721fa99e41fce6d42b8f227f78e64fb3c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 10/40] fix: read the field of a SOQL USING LOOKUP clause

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 40281d1..6105c0b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4619,7 +4619,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
-- 
2.43.0


From 71a9300c8cb8bf59c5a1f3c7254095ffa86c044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 11/40] fix: accept date-time and currency literals in SOQL
 conditions

---
 src/enum_def.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..ec60437 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1388,8 +1388,8 @@ pub enum SoqlLiteral {
     DWithParam(DateLiteralWithParam),
     NullLiteral(ValueNode),
     Date(ValueNode),
-    //CurrentLiteral(ValueNode),
-    //DateTime(ValueNode),
+    CurrencyLiteral(ValueNode),
+    DateTime(ValueNode),
 }
 
 impl SoqlLiteral {
@@ -1400,6 +1400,8 @@ impl SoqlLiteral {
             "string_literal" => Self::StringLiteral(ValueNode::new(node)),
             "boolean" => Self::Boolean(ValueNode::new(node)),
             "date" => Self::Date(ValueNode::new(node)),
+            "date_time" => Self::DateTime(ValueNode::new(node)),
+            "currency_literal" => Self::CurrencyLiteral(ValueNode::new(node)),
             "date_literal" => Self::DateLiteral(ValueNode::new(node)),
             "date_literal_with_param" => Self::DWithParam(DateLiteralWithParam::new(node)),
             "null_literal" => Self::NullLiteral(ValueNode::new(node)),
@@ -1423,6 +1425,12 @@ impl<'a> DocBuild<'a> for SoqlLiteral {
             Self::Date(n) => {
                 result.push(n.build(b));
             }
+            Self::DateTime(n) => {
+                result.push(n.build(b));
+            }
+            Self::CurrencyLiteral(n) => {
+                result.push(n.build(b));
+            }
             Self::Boolean(n) => {
                 result.push(n.build(b));
             }
-- 
2.43.0


From cdae68e515a25636729cd4a7b894f5e89ed81deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 12/40] fix: accept bound expressions as GEOLOCATION
 coordinates

---
 src/enum_def.rs | 53 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index ec60437..2178faa 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1283,8 +1283,8 @@ pub enum GeoLocationTypeVariant {
     Bound(BoundApexExpression),
     Func {
         function_name: ValueNode,
-        decimal1: ValueNode,
-        decimal2: ValueNode,
+        latitude: GeoCoordinate,
+        longitude: GeoCoordinate,
     },
 }
 
@@ -1295,18 +1295,18 @@ impl GeoLocationTypeVariant {
             "field_identifier" => Self::Field(FieldIdentifier::new(child)),
             "bound_apex_expression" => Self::Bound(BoundApexExpression::new(child)),
             "identifier" => {
-                let decimals = node.cs_by_k("decimal");
-                if decimals.len() != 2 {
+                let coordinates: Vec<_> = node.children_vec().into_iter().skip(1).collect();
+                if coordinates.len() != 2 {
                     panic!(
-                        "expect 2 decimal nodes, found {} in GeoLocationType",
-                        decimals.len()
+                        "expect 2 coordinate nodes, found {} in GeoLocationType",
+                        coordinates.len()
                     );
                 }
 
                 Self::Func {
                     function_name: ValueNode::new(child),
-                    decimal1: ValueNode::new(decimals[0]),
-                    decimal2: ValueNode::new(decimals[1]),
+                    latitude: GeoCoordinate::new(coordinates[0]),
+                    longitude: GeoCoordinate::new(coordinates[1]),
                 }
             }
 
@@ -1326,20 +1326,49 @@ impl<'a> DocBuild<'a> for GeoLocationTypeVariant {
             }
             Self::Func {
                 function_name,
-                decimal1,
-                decimal2,
+                latitude,
+                longitude,
             } => {
                 result.push(function_name.build(b));
                 result.push(b.txt("("));
-                result.push(decimal1.build(b));
+                result.push(latitude.build(b));
                 result.push(b.txt(" "));
-                result.push(decimal2.build(b));
+                result.push(longitude.build(b));
                 result.push(b.txt(")"));
             }
         }
     }
 }
 
+#[derive(Debug)]
+pub enum GeoCoordinate {
+    Decimal(ValueNode),
+    Bound(BoundApexExpression),
+}
+
+impl GeoCoordinate {
+    pub fn new(node: Node) -> Self {
+        match node.kind() {
+            "decimal" => Self::Decimal(ValueNode::new(node)),
+            "bound_apex_expression" => Self::Bound(BoundApexExpression::new(node)),
+            _ => panic_unknown_node(node, "GeoCoordinate"),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for GeoCoordinate {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Decimal(n) => {
+                result.push(n.build(b));
+            }
+            Self::Bound(n) => {
+                result.push(n.build(b));
+            }
+        }
+    }
+}
+
 #[derive(Debug)]
 pub enum Comparison {
     Value(ValueComparison),
-- 
2.43.0


From 1dc7355ebd11a70144356c1af393240c0de8c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 13/40] fix: accept WITH DATA CATEGORY in SOQL queries

---
 src/data_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 6105c0b..2f31c17 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5227,7 +5227,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 pub enum SoqlWithTypeVariant {
     SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
-    //DataCategory(WithDataCatExpression),
+    DataCategory(WithDataCatExpression),
     UserId(ValueNode),
 }
 
@@ -5238,6 +5238,9 @@ impl SoqlWithTypeVariant {
         } else {
             let child = node.first_c();
             match child.kind() {
+                "with_data_cat_expression" => {
+                    Self::DataCategory(WithDataCatExpression::new(child))
+                }
                 "with_user_id_type" => Self::UserId(ValueNode::new(child.c_by_k("string_literal"))),
                 _ => panic_unknown_node(node, "WithType"),
             }
@@ -5252,6 +5255,9 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
             Self::SimpleType(n) => {
                 result.push(n.build(b));
             }
+            Self::DataCategory(n) => {
+                result.push(n.build(b));
+            }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
                 result.push(n.build(b));
-- 
2.43.0


From c20aadca326fb04c8f86571af6ffbb0cfc32d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 14/40] fix: do not fuse repeated unary + and - operators

---
 src/data_model.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 2f31c17..9da1416 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2141,6 +2141,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 #[derive(Debug)]
 pub struct UnaryExpression {
     pub operator: String,
+    pub needs_space: bool,
     pub operand: Box<Expression>,
     pub node_context: NodeContext,
 }
@@ -2150,9 +2151,14 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand = node.c_by_n("operand");
+        // `- -x` must not become `--x`
+        let needs_space =
+            matches!(operator.as_str(), "+" | "-") && operand.v().starts_with(operator.as_str());
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            needs_space,
+            operand: Box::new(Expression::new(operand)),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2162,6 +2168,9 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            if self.needs_space {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From 1f8cf0349704a8ab3fa884cebec7969c69c83a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 15/40] fix: read the bound field of a SOQL USING LOOKUP BIND
 clause

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 9da1416..2af7ccc 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4729,7 +4729,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 1ab805ee1b9f6415163c3c0666c77c7a097e5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 16/40] fix: keep array brackets written after a declared name

---
 src/data_model.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 2af7ccc..ee6b2b3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -137,8 +137,8 @@ pub struct MethodDeclaration {
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -151,6 +151,7 @@ impl MethodDeclaration {
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_k("dimensions").map(Dimensions::new),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -168,6 +169,9 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
+            if let Some(ref d) = self.dimensions {
+                result.push(d.build(b));
+            }
 
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
@@ -1199,7 +1203,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1219,6 +1223,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_k("dimensions").map(Dimensions::new),
             op,
             value,
             is_value_child_a_query_node,
@@ -1232,6 +1237,9 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         // TODO: handle dotted expression use-case
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
+            if let Some(ref d) = self.dimensions {
+                docs.push(d.build(b));
+            }
 
             if self.value.is_none() {
                 result.push(b.concat(docs));
@@ -1568,7 +1576,7 @@ pub struct EnhancedForStatement {
     pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1584,6 +1592,7 @@ impl EnhancedForStatement {
             modifiers,
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_k("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1601,6 +1610,9 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref d) = self.dimensions {
+                result.push(d.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From 0898b97ef19a97242833d1aee7e3d7956d083daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 17/40] fix: do not underflow on members written on the first
 line

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 2178faa..9ca8dcd 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -819,7 +819,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
     }
 }
 
-- 
2.43.0


From 3240f0f3db98a55b75deac83a8c52841930ee3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 18/40] fix: return the results in the order of the files

---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..ee5268a 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // threads finish in any order, the results follow the order of the files
+        let mut results: Vec<(usize, Result<String, String>)> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From e1ea10e5d7e96b054a6278d18b3979ebbbadff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 19/40] fix: keep the tokens of an empty construct that
 contains a comment

---
 src/data_model.rs | 17 ++++++++++++++---
 src/utility.rs    | 27 +++++++++------------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index ee6b2b3..ed7e767 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5667,9 +5667,20 @@ impl ValueNode {
 
 impl<'a> DocBuild<'a> for ValueNode {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt(&self.value));
-        });
+        let bucket = get_comment_bucket(&self.node_context.id);
+        handle_pre_comments(b, bucket, result);
+
+        // the comments within this node are part of its value
+        result.push(b.txt(&self.value));
+        for comment in &bucket.dangling_comments {
+            comment.mark_as_printed();
+        }
+
+        handle_post_comments(b, bucket, result);
+
+        if let Some(ref n) = self.node_context.punc {
+            result.push(n.build(b));
+        }
     }
 }
 
diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..1da3f46 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -285,16 +285,9 @@ pub fn build_with_comments<'a, F>(
 ) where
     F: FnOnce(&'a DocBuilder<'a>, &mut Vec<DocRef<'a>>),
 {
-    let bucket = get_comment_bucket(&node_context.id);
-    handle_pre_comments(b, bucket, result);
-
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
-        result.push(b.concat(handle_dangling_comments(b, bucket)));
-        return;
-    }
+    build_with_comments_core(b, node_context, result, handle_members);
 
+    let bucket = get_comment_bucket(&node_context.id);
     handle_post_comments(b, bucket, result);
 }
 
@@ -309,9 +302,11 @@ pub fn build_with_comments_core<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+
+    // a node without children still has its own tokens (e.g. `()`), print them too
+    if !bucket.dangling_comments.is_empty() {
+        result.push(b.txt(" "));
         result.push(b.concat(handle_dangling_comments(b, bucket)));
     }
 }
@@ -327,9 +322,7 @@ pub fn build_with_comments_and_punc<'a, F>(
     build_with_comments_core(b, node_context, result, handle_members);
 
     let bucket = get_comment_bucket(&node_context.id);
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 
     if let Some(ref n) = node_context.punc {
         result.push(n.build(b));
@@ -353,9 +346,7 @@ pub fn build_with_comments_and_punc_attached<'a, F>(
         result.push(n.build(b));
     }
 
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 }
 
 pub fn handle_dangling_comments_in_bracket_surround<'a>(
-- 
2.43.0


From 001080cc35ef162bb1ae4f7539a0b7c41965de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 20/40] fix: print the comments behind a body that only
 contains a comment

---
 src/data_model.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index ed7e767..be904b2 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -453,10 +453,10 @@ impl<'a> DocBuild<'a> for ClassBody {
 
         if bucket.dangling_comments.is_empty() {
             result.push(b.surround_body_members(&self.class_members, "{", "}"));
-            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
@@ -694,7 +694,6 @@ impl<'a> DocBuild<'a> for Block {
             result.push(docs);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
-            return;
         }
         handle_post_comments(b, bucket, result);
     }
@@ -1834,7 +1833,8 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
         if bucket.dangling_comments.is_empty() {
             if self.constructor_invocation.is_none() && self.statements.is_empty() {
-                return result.push(b.concat(vec![b.txt("{"), b.nl(), b.txt("}")]));
+                result.push(b.concat(vec![b.txt("{"), b.nl(), b.txt("}")]));
+                return handle_post_comments(b, bucket, result);
             }
 
             result.push(b.txt("{"));
@@ -1859,6 +1859,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
@@ -2359,7 +2360,8 @@ impl<'a> DocBuild<'a> for EnumBody {
             let docs = b.to_docs(&self.enum_constants);
 
             if docs.is_empty() {
-                return result.push(b.concat(vec![b.txt("{"), b.nl(), b.txt("}")]));
+                result.push(b.concat(vec![b.txt("{"), b.nl(), b.txt("}")]));
+                return handle_post_comments(b, bucket, result);
             }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
@@ -2367,10 +2369,10 @@ impl<'a> DocBuild<'a> for EnumBody {
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
             let doc = b.group_surround(&docs, sep, open, close);
             result.push(doc);
-            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
@@ -3127,10 +3129,10 @@ impl<'a> DocBuild<'a> for InterfaceBody {
 
         if bucket.dangling_comments.is_empty() {
             result.push(b.surround_body_members(&self.members, "{", "}"));
-            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
+        handle_post_comments(b, bucket, result);
     }
 }
 
-- 
2.43.0


From e7475cf7438df2ce2b914615b4985e5e5242e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 21/40] fix: accept a file that only contains comments

---
 src/data_model.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index be904b2..f31eb39 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -49,12 +49,8 @@ impl<'a> DocBuild<'a> for Root {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         let bucket = get_comment_bucket(&self.node_context.id);
         if !bucket.dangling_comments.is_empty() {
-            let docs: Vec<_> = bucket
-                .dangling_comments
-                .iter()
-                .map(|n| n.build(b))
-                .collect();
-            return result.push(b.concat(docs));
+            result.push(b.concat(handle_dangling_comments(b, bucket)));
+            return result.push(b.nl());
         }
 
         let doc = b.intersperse_body_members(&self.members);
-- 
2.43.0


From b57fe019093c0c6a17ed60c1e6d69c03d45a5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 22/40] fix: do not repeat the star of the last line of a doc
 comment

---
 src/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 4737a6c..a6dc375 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -171,7 +171,11 @@ impl<'a> DocBuild<'a> for Comment {
                             result.push(b.txt(trimmed));
                         } else if i == lines.len() - 1 {
                             if let Some(before_end) = trimmed.strip_suffix("*/") {
-                                let content = before_end.trim();
+                                let before_end = before_end.trim();
+                                let content = before_end
+                                    .strip_prefix('*')
+                                    .unwrap_or(before_end)
+                                    .trim_start();
                                 if content.is_empty() {
                                     result.push(b.txt(" */"));
                                 } else {
-- 
2.43.0


From 7e1a496d3a1b043fd7e82dc4357f9700f375dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 23/40] fix: print the comments around a SOQL WITH mode once

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index f31eb39..e28bf95 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5244,7 +5244,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
-    SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
+    SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
     DataCategory(WithDataCatExpression),
     UserId(ValueNode),
@@ -5253,7 +5253,7 @@ pub enum SoqlWithTypeVariant {
 impl SoqlWithTypeVariant {
     pub fn new(node: Node) -> Self {
         let with_type = if node.named_child_count() == 0 {
-            return Self::SimpleType(ValueNode::new(node));
+            return Self::SimpleType(node.value());
         } else {
             let child = node.first_c();
             match child.kind() {
@@ -5272,7 +5272,7 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
             Self::SimpleType(n) => {
-                result.push(n.build(b));
+                result.push(b.txt(n));
             }
             Self::DataCategory(n) => {
                 result.push(n.build(b));
-- 
2.43.0


From 8efaaaf2f03188b89865217be58b7cbc2a97ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 24/40] fix: keep a comment behind the fields of a RETURNING
 list inside its parentheses

---
 src/data_model.rs | 53 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e28bf95..e62ba34 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4189,36 +4189,35 @@ pub struct SObjectReturnQuery {
 
 impl<'a> DocBuild<'a> for SObjectReturnQuery {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            let mut docs = vec![];
-
-            let selected_fields_docs = b.to_docs(&self.selected_fields);
+        let mut selected_fields = vec![];
+        build_with_comments_and_punc(b, &self.node_context, &mut selected_fields, |b, result| {
+            let docs = b.to_docs(&self.selected_fields);
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-            let doc = b.intersperse(&selected_fields_docs, sep);
-            docs.push(doc);
+            result.push(b.intersperse(&docs, sep));
+        });
+        let mut docs = vec![b.concat(selected_fields)];
 
-            if let Some(ref n) = self.using_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.where_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.order_by_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.limit_clause {
-                docs.push(n.build(b));
-            }
-            if let Some(ref n) = self.offset_clause {
-                docs.push(n.build(b));
-            }
+        if let Some(ref n) = self.using_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.where_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.order_by_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.limit_clause {
+            docs.push(n.build(b));
+        }
+        if let Some(ref n) = self.offset_clause {
+            docs.push(n.build(b));
+        }
 
-            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-            let close = Insertable::new(None, Some(")"), None);
-            let doc = b.group_surround(&docs, sep, open, close);
-            result.push(doc);
-        });
+        let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+        let open = Insertable::new(None, Some("("), Some(b.maybeline()));
+        let close = Insertable::new(None, Some(")"), None);
+        let doc = b.group_surround(&docs, sep, open, close);
+        result.push(doc);
     }
 }
 
-- 
2.43.0


From bdc90f16a965f117c2bc1bfe81de6b53d848a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 25/40] fix: print the comments of the right semicolon of a for
 statement

---
 src/data_model.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e62ba34..865e898 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1527,16 +1527,14 @@ impl<'a> DocBuild<'a> for ForStatement {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for "));
 
-            let mut semicolons_iter = self.semicolons.iter();
-
             let init = match &self.init {
                 Some(i) => i.build(b),
-                None => semicolons_iter.next().unwrap().build(b),
+                None => self.semicolons.first().unwrap().build(b),
             };
 
             let condition = match &self.condition {
                 Some(c) => b.concat(vec![b.txt(" "), c.build(b)]),
-                None => semicolons_iter.next().unwrap().build(b),
+                None => self.semicolons.last().unwrap().build(b),
             };
 
             let update = if self.updates.is_empty() {
-- 
2.43.0


From bbdc4a6e17ab2da42922651287e8ff6685a070cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 26/40] fix: print the comments of the semicolon that is the
 body of a for statement

---
 src/data_model.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 865e898..788c2ad 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1527,14 +1527,21 @@ impl<'a> DocBuild<'a> for ForStatement {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for "));
 
-            let init = match &self.init {
-                Some(i) => i.build(b),
-                None => self.semicolons.first().unwrap().build(b),
+            // an empty body is the last semicolon
+            let mut semicolons_iter = self.semicolons.iter();
+            let body_semicolon = match self.body {
+                Statement::SemiColumn => semicolons_iter.next_back(),
+                _ => None,
             };
 
             let condition = match &self.condition {
                 Some(c) => b.concat(vec![b.txt(" "), c.build(b)]),
-                None => self.semicolons.last().unwrap().build(b),
+                None => semicolons_iter.next_back().unwrap().build(b),
+            };
+
+            let init = match &self.init {
+                Some(i) => i.build(b),
+                None => semicolons_iter.next().unwrap().build(b),
             };
 
             let update = if self.updates.is_empty() {
@@ -1553,9 +1560,9 @@ impl<'a> DocBuild<'a> for ForStatement {
             let doc = b.group_surround(&docs, sep, open, close);
             result.push(doc);
 
-            match self.body {
-                Statement::SemiColumn => result.push(b.txt(";")),
-                _ => {
+            match body_semicolon {
+                Some(n) => result.push(n.build(b)),
+                None => {
                     result.push(b.txt(" "));
                     result.push(self.body.build(b));
                 }
@@ -1572,6 +1579,7 @@ pub struct EnhancedForStatement {
     pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
+    pub body_semicolon: Option<Punctuation>,
     pub node_context: NodeContext,
 }
 
@@ -1579,6 +1587,7 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
+        let body = node.c_by_n("body");
         let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
 
         Self {
@@ -1587,7 +1596,11 @@ impl EnhancedForStatement {
             name: ValueNode::new(node.c_by_n("name")),
             dimensions: node.try_c_by_k("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
-            body: Statement::new(node.c_by_n("body")),
+            body: Statement::new(body),
+            body_semicolon: match body.kind() {
+                ";" => Some(Punctuation::new(body)),
+                _ => None,
+            },
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -1609,9 +1622,9 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-            match self.body {
-                Statement::SemiColumn => result.push(b.txt(";")),
-                _ => {
+            match self.body_semicolon {
+                Some(ref n) => result.push(n.build(b)),
+                None => {
                     result.push(b.txt(" "));
                     result.push(self.body.build(b));
                 }
-- 
2.43.0


From 5d49c5dd15195859fc99b1c3772be9e4ec071049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 27/40] fix: accept comments around an OFFSET clause

---
 src/enum_def.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 9ca8dcd..a47959e 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1567,8 +1567,8 @@ impl<'a> DocBuild<'a> for ComparableListValue {
 
 #[derive(Debug)]
 pub enum OffsetClause {
-    Int(ValueNode),
-    Bound(BoundApexExpression),
+    Int(ValueNode, NodeContext),
+    Bound(BoundApexExpression, NodeContext),
 }
 
 impl OffsetClause {
@@ -1576,9 +1576,10 @@ impl OffsetClause {
         assert_check(node, "offset_clause");
 
         let first_c = node.first_c();
+        let node_context = NodeContext::with_punctuation(&node);
         match first_c.kind() {
-            "int" => Self::Int(ValueNode::new(first_c)),
-            "bound_apex_expression" => Self::Bound(BoundApexExpression::new(first_c)),
+            "int" => Self::Int(ValueNode::new(first_c), node_context),
+            "bound_apex_expression" => Self::Bound(BoundApexExpression::new(first_c), node_context),
             _ => panic_unknown_node(first_c, "OffsetClause"),
         }
     }
@@ -1586,16 +1587,20 @@ impl OffsetClause {
 
 impl<'a> DocBuild<'a> for OffsetClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        result.push(b.txt_("OFFSET"));
+        let (Self::Int(_, node_context) | Self::Bound(_, node_context)) = self;
 
-        match self {
-            Self::Int(n) => {
-                result.push(n.build(b));
-            }
-            Self::Bound(n) => {
-                result.push(n.build(b));
+        build_with_comments_and_punc(b, node_context, result, |b, result| {
+            result.push(b.txt_("OFFSET"));
+
+            match self {
+                Self::Int(n, _) => {
+                    result.push(n.build(b));
+                }
+                Self::Bound(n, _) => {
+                    result.push(n.build(b));
+                }
             }
-        }
+        });
     }
 }
 
-- 
2.43.0


From 108c2e4aa41ffcd0c75b9766716d43202b611069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 28/40] fix: accept comments around a FIND clause

---
 src/data_model.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 788c2ad..9b84f10 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4042,33 +4042,38 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
 
 #[derive(Debug)]
 pub enum FindClause {
-    Bound(BoundApexExpression),
-    Term(String),
+    Bound(BoundApexExpression, NodeContext),
+    Term(String, NodeContext),
 }
 
 impl FindClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "find_clause");
 
+        let node_context = NodeContext::with_punctuation(&node);
         if let Some(bound_node) = node.try_c_by_k("bound_apex_expression") {
-            Self::Bound(BoundApexExpression::new(bound_node))
+            Self::Bound(BoundApexExpression::new(bound_node), node_context)
         } else {
-            Self::Term(node.cvalue_by_k("term"))
+            Self::Term(node.cvalue_by_k("term"), node_context)
         }
     }
 }
 
 impl<'a> DocBuild<'a> for FindClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        result.push(b.txt_("FIND"));
-        match self {
-            Self::Bound(n) => {
-                result.push(n.build(b));
-            }
-            Self::Term(n) => {
-                result.push(b.txt(format!("'{}'", n)));
+        let (Self::Bound(_, node_context) | Self::Term(_, node_context)) = self;
+
+        build_with_comments_and_punc(b, node_context, result, |b, result| {
+            result.push(b.txt_("FIND"));
+            match self {
+                Self::Bound(n, _) => {
+                    result.push(n.build(b));
+                }
+                Self::Term(n, _) => {
+                    result.push(b.txt(format!("'{}'", n)));
+                }
             }
-        }
+        });
     }
 }
 
-- 
2.43.0


From 632346b9ff3b7fea2c6c3b082948fb4063d154e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 29/40] fix: accept comments around the operator of a query
 comparison

---
 src/data_model.rs | 12 ++++++++----
 src/utility.rs    |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 9b84f10..ee3be20 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4831,26 +4831,30 @@ impl<'a> DocBuild<'a> for ComparisonExpression {
 
 #[derive(Debug)]
 pub struct ValueComparison {
-    pub operator: String,
+    pub operator: ValueNode,
     pub compared_with: ValueComparedWith,
 }
 
 impl<'a> DocBuild<'a> for ValueComparison {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        result.push(b._txt_(&self.operator));
+        result.push(b.txt(" "));
+        result.push(self.operator.build(b));
+        result.push(b.txt(" "));
         result.push(self.compared_with.build(b));
     }
 }
 
 #[derive(Debug)]
 pub struct SetComparison {
-    pub operator: String,
+    pub operator: ValueNode,
     pub set_value: SetValue,
 }
 
 impl<'a> DocBuild<'a> for SetComparison {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        result.push(b._txt_(&self.operator));
+        result.push(b.txt(" "));
+        result.push(self.operator.build(b));
+        result.push(b.txt(" "));
         result.push(self.set_value.build(b));
     }
 }
diff --git a/src/utility.rs b/src/utility.rs
index 1da3f46..84fd08c 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -523,13 +523,13 @@ pub fn get_comparsion(node: &Node) -> Comparison {
         };
 
         Comparison::Value(ValueComparison {
-            operator: operator_node.value(),
+            operator: ValueNode::new(operator_node),
             compared_with,
         })
     } else if let Some(operator_node) = node.try_c_by_k("set_comparison_operator") {
         let next_node = operator_node.next_named();
         Comparison::Set(SetComparison {
-            operator: operator_node.value(),
+            operator: ValueNode::new(operator_node),
             set_value: SetValue::new(next_node),
         })
     } else {
-- 
2.43.0


From ad4121bf84a3a94462b905d483b6c71b6a6bfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 30/40] fix: accept a comment behind the label of a switch rule

---
 src/data_model.rs | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index ee3be20..99766d4 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3548,47 +3548,54 @@ impl<'a> DocBuild<'a> for SwitchRule {
 
 #[derive(Debug)]
 pub enum SwitchLabel {
-    WhenSObject(WhenSObjectType),
-    Expressions(Vec<Expression>),
-    Else,
+    WhenSObject(WhenSObjectType, NodeContext),
+    Expressions(Vec<Expression>, NodeContext),
+    Else(NodeContext),
 }
 
 impl SwitchLabel {
     pub fn new(node: Node) -> Self {
         assert_check(node, "switch_label");
 
+        let node_context = NodeContext::with_punctuation(&node);
         if node.children_vec().is_empty() {
-            Self::Else
+            Self::Else(node_context)
         } else if let Some(when_node) = node.try_c_by_k("when_sobject_type") {
-            Self::WhenSObject(WhenSObjectType::new(when_node))
+            Self::WhenSObject(WhenSObjectType::new(when_node), node_context)
         } else {
             let expressions = node
                 .children_vec()
                 .into_iter()
                 .map(Expression::new)
                 .collect();
-            Self::Expressions(expressions)
+            Self::Expressions(expressions, node_context)
         }
     }
 }
 
 impl<'a> DocBuild<'a> for SwitchLabel {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        result.push(b.txt_("when"));
-        match self {
-            Self::WhenSObject(n) => {
-                result.push(n.build(b));
-            }
-            Self::Expressions(vec) => {
-                let docs = b.to_docs(vec);
-                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-                let doc = b.group(b.indent(b.intersperse(&docs, sep)));
-                result.push(doc);
-            }
-            Self::Else => {
-                result.push(b.txt("else"));
+        let (Self::WhenSObject(_, node_context)
+        | Self::Expressions(_, node_context)
+        | Self::Else(node_context)) = self;
+
+        build_with_comments_and_punc(b, node_context, result, |b, result| {
+            result.push(b.txt_("when"));
+            match self {
+                Self::WhenSObject(n, _) => {
+                    result.push(n.build(b));
+                }
+                Self::Expressions(vec, _) => {
+                    let docs = b.to_docs(vec);
+                    let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                    let doc = b.group(b.indent(b.intersperse(&docs, sep)));
+                    result.push(doc);
+                }
+                Self::Else(_) => {
+                    result.push(b.txt("else"));
+                }
             }
-        }
+        });
     }
 }
 
-- 
2.43.0


From 7f65f7ca3b282c7e9035fec87dd9eb03a4f03e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 31/40] fix: do not break a member access in front of an array
 index

---
 src/utility.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 84fd08c..11ecf51 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -538,11 +538,7 @@ pub fn get_comparsion(node: &Node) -> Comparison {
 }
 
 pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
-    let parent_node = node
-        .parent()
-        .expect("node must have parent node in build_chaining_context()");
-
-    let is_parent_a_chaining_node = is_a_chaining_node(&parent_node);
+    let is_parent_a_chaining_node = is_chained_into_parent(node);
 
     let has_a_chaining_child = node
         .try_c_by_n("object")
@@ -561,6 +557,29 @@ pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
     })
 }
 
+// whether the node heads a method invocation or field access, possibly with
+// array accesses in between: `node.a` or `node[0].a`, but not `a[node]`
+fn is_chained_into_parent(node: &Node) -> bool {
+    let mut current = *node;
+
+    loop {
+        let parent = current
+            .parent()
+            .expect("node must have parent node in build_chaining_context()");
+        let is_head = |name: &str| {
+            parent
+                .try_c_by_n(name)
+                .is_some_and(|n| n.id() == current.id())
+        };
+
+        match parent.kind() {
+            "method_invocation" | "field_access" => return is_head("object"),
+            "array_access" if is_head("array") => current = parent,
+            _ => return false,
+        }
+    }
+}
+
 fn is_a_chaining_node(node: &Node) -> bool {
     [
         "method_invocation",
-- 
2.43.0


From bf1bbfa4542121724902c9fc03402ed55a1c3741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 32/40] fix: do not print a blank behind a USING LOOKUP field

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 99766d4..b018eea 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4678,8 +4678,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
-- 
2.43.0


From c8f3877b34be1531a291296d76bbb9fadc304d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 33/40] fix: indent a statement behind a blank line after
 super() or this()

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b018eea..5ee40fc 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1851,7 +1851,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
                 if !self.statements.is_empty() {
                     if c.has_trailing_newline {
-                        result.push(b.empty_new_line());
+                        result.push(b.indent(b.empty_new_line()));
                     } else {
                         result.push(b.indent(b.nl()));
                     }
-- 
2.43.0


From 811af33c00dc1191ce69cc97a6be658a3325a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 34/40] fix: indent all lines of the statement of an else
 branch

---
 src/data_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 5ee40fc..7674ad6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1387,10 +1387,11 @@ impl<'a> DocBuild<'a> for IfStatement {
                     || matches!(alt.statement, Statement::If(_) | Statement::Block(_))
                 {
                     result.push(b.txt(" "));
+                    result.push(alt.statement.build(b));
                 } else {
                     result.push(b.indent(b.nl()));
+                    result.push(b.indent(alt.statement.build(b)));
                 }
-                result.push(alt.statement.build(b));
             }
         });
     }
-- 
2.43.0


From 536bc43ef4c172a8e73d147f52a685d9303a1ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:19 +0000
Subject: [PATCH 35/40] fix: no blank at the start of the line behind the
 annotation of a type

---
 src/data_model.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7674ad6..e79802e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1726,12 +1726,8 @@ impl<'a> DocBuild<'a> for ScopedTypeIdentifier {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(self.scoped_choice.build(b));
             result.push(b.txt("."));
-            if !self.annotations.is_empty() {
-                let docs = b.to_docs(&self.annotations);
-                let sep = Insertable::new(None, Some(" "), None);
-                result.push(b.intersperse(&docs, sep));
-                result.push(b.txt(" "));
-            }
+            // an annotation ends its line
+            result.extend(self.annotations.iter().map(|n| n.build(b)));
             result.push(b.txt(&self.type_identifier));
         });
     }
@@ -2004,12 +2000,8 @@ impl TypeParameter {
 impl<'a> DocBuild<'a> for TypeParameter {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            if !self.annotations.is_empty() {
-                let docs = b.to_docs(&self.annotations);
-                let sep = Insertable::new(None, Some(" "), None);
-                result.push(b.intersperse(&docs, sep));
-                result.push(b.txt(" "));
-            }
+            // an annotation ends its line
+            result.extend(self.annotations.iter().map(|n| n.build(b)));
             result.push(b.txt(&self.type_identifier));
         });
     }
-- 
2.43.0


From 0fa884b945ded3a7dc8518f773fe026717186a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:09 +0000
Subject: [PATCH 36/40] fix: a blank between the interfaces of an enum and its
 body

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index e79802e..8b30dde 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2322,6 +2322,7 @@ impl<'a> DocBuild<'a> for EnumDeclaration {
 
             if let Some(ref n) = self.interface {
                 result.push(n.build(b));
+                result.push(b.txt(" "));
             }
             result.push(self.body.build(b));
         });
-- 
2.43.0


From e17ddd9517df44a1a5f5d6a9c38604755c837b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 37/40] fix: a blank between the arguments of a constructor
 call and its class body

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8b30dde..6414be7 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2048,6 +2048,7 @@ impl<'a> DocBuild<'a> for ObjectCreationExpression {
             result.push(self.arguments.build(b));
 
             if let Some(c) = &self.class_body {
+                result.push(b.txt(" "));
                 result.push(c.build(b));
             }
         });
-- 
2.43.0


From c0150316c0b424781e93cde1ec80864b4b2ecfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:19 +0000
Subject: [PATCH 38/40] fix: no blank between the name of a parameter and its
 dimensions

---
 src/data_model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 6414be7..c033828 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -248,7 +248,6 @@ impl<'a> DocBuild<'a> for FormalParameter {
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             if let Some(ref d) = self.dimensions {
-                result.push(b.txt(" "));
                 result.push(d.build(b));
             }
         });
-- 
2.43.0


From 8c1e05be6a4405a301b56ca7b438e688e54bd881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 39/40] fix: no blank between the dimensions of a new array

---
 src/data_model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c033828..54bdf32 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2709,7 +2709,6 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
                     .for_each(|n| result.push(n.build(b)));
 
                 if let Some(ref n) = dimensions {
-                    result.push(b.txt(" "));
                     result.push(n.build(b));
                 }
             }
-- 
2.43.0


From 38ec23937ecd34f294283a1717cc5850b5184252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:48 +0000
Subject: [PATCH 40/40] fix: a syntax error in text with multi-byte characters
 was not reported

The snippet shown with the error was cut at byte 80, which can lie inside a
character; the report then panicked instead of naming the place of the error.
---
 src/utility.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index 11ecf51..e5888de 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -16,7 +16,12 @@ pub fn truncate_snippet(snippet: &str) -> String {
     if snippet.len() <= SNIPPET_MAX_LEN {
         snippet.to_string()
     } else {
-        format!("{}…", &snippet[..SNIPPET_MAX_LEN])
+        // do not cut a multi-byte character in half
+        let mut end = SNIPPET_MAX_LEN;
+        while !snippet.is_char_boundary(end) {
+            end -= 1;
+        }
+        format!("{}…", &snippet[..end])
     }
 }
 
-- 
2.43.0

