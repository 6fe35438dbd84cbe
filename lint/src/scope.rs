//! The parser accepts more than the Apex language has (it was derived from a
//! Java grammar). Contracts are decided for Apex compilation units; what cannot
//! occur in one is left out here, and only here.
use crate::grammar::*;

/// Constructs with no counterpart in the language.
const ABSENT: &[&str] = &["annotated_type", "type_bound"];
/// Child kinds that the language does not allow directly below a construct.
const NOT_BELOW: &[(&str, &[&str])] = &[
    // no generic methods
    ("method_declaration", &["type_parameters"]),
    // constructor chaining is this(...) or super(...) only
    ("explicit_constructor_invocation", &[".", "type_arguments"]),
    // ++ and -- apply to variables
    ("update_expression", &["unary_expression", "update_expression", "binary_expression", "assignment_expression", "ternary_expression", "cast_expression", "instanceof_expression", "dml_expression"]),
    // array values are written with new
    ("variable_declarator", &["array_initializer"]),
    ("array_initializer", &["array_initializer"]),
];
/// Types and methods are declared at the top level or in a class body.
const DECLARATIONS: &[&str] = &["class_declaration", "trigger_declaration", "interface_declaration", "enum_declaration", "method_declaration"];
/// A compilation unit is a sequence of type and trigger declarations.
const TOP_LEVEL: &[&str] = &["class_declaration", "trigger_declaration", "interface_declaration", "enum_declaration"];

pub fn restrict(rule: &str, v: &mut Vec<Prod>) {
    let is_statement = |s: &Slot| s.alts.iter().any(|a| &*a.kind == "expression_statement");
    for p in v.iter_mut() { for s in p.iter_mut() {
        if rule == "parser_output" { s.alts.retain(|a| TOP_LEVEL.contains(&&*a.kind)) }
        else if is_statement(s) { s.alts.retain(|a| !DECLARATIONS.contains(&&*a.kind)) }
        s.alts.retain(|a| !ABSENT.contains(&&*a.kind));
        for (r, ks) in NOT_BELOW { if *r == rule { s.alts.retain(|a| !ks.contains(&&*a.kind)) } }
    } }
    v.retain(|p| p.iter().all(|s| !s.alts.is_empty()));
}
