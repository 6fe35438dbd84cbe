//! The white space between neighbouring tokens: what goes between them depends
//! on what they are, not on the construct that happens to print them.
use crate::emit::*;
use crate::interp::*;
use std::collections::*;

struct Side<'a> { lit: &'a str, edge: BTreeSet<char>, kinds: Vec<String>, parent: String }
impl Side<'_> {
    fn only(&self, cs: &str) -> bool { !self.edge.is_empty() && self.edge.iter().all(|c| cs.contains(*c)) }
    fn is(&self, l: &[&str]) -> bool { l.contains(&self.lit) }
    fn kind(&self, k: &[&str]) -> bool { self.lit.is_empty() && !self.kinds.is_empty() && self.kinds.iter().all(|x| k.contains(&&**x)) }
    /// an operator between two operands
    fn infix(&self) -> bool {
        const BETWEEN: [&str; 4] = ["binary_expression", "ternary_expression", "map_key_initializer", "comparison_expression"];
        if !self.lit.is_empty() { return !self.word() && (BETWEEN.contains(&&*self.parent) || self.lit == "=" && self.parent == "variable_declarator" || self.lit == ":" && self.parent == "enhanced_for_statement") }
        !self.kinds.is_empty() && self.kinds.iter().all(|k| k.ends_with("_operator") && k != "safe_navigation_operator" && !k.starts_with("update"))
    }
    fn word(&self) -> bool { self.lit.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ' ') && !self.is(&["."]) }
}
fn side<'a>(it: &Interp, t: &'a Tok, first: bool) -> Side<'a> {
    Side { lit: t.lit.as_ref().map_or("", |l| &l.0), edge: crate::contracts::edge(it, t, first), kinds: it.tree.kinds(t.node).iter().map(|k| k.to_string()).collect(), parent: it.tree.kind(t.parent).map(|k| k.to_string()).unwrap_or_default() }
}
/// The white space the language's conventions allow between two tokens.
pub fn allowed(it: &Interp, l: &Tok, r: &Tok) -> (u8, &'static str) {
    let same = l.parent == r.parent;
    let (l, r) = (side(it, l, false), side(it, r, true));
    const INIT: [&str; 5] = ["array_creation_expression", "map_creation_expression", "array_initializer", "annotation_key_value", "annotation_argument_list"];
    const HEADS: [&str; 6] = ["if_statement", "while_statement", "for_statement", "enhanced_for_statement", "do_statement", "catch_clause"];
    if r.is(&[","]) { return (NONE, "no blank before ','") }
    if r.is(&[";"]) && r.parent != "for_statement" { return (NONE, "no blank before ';'") }
    if r.is(&[")", "]", ".", ";"]) || r.kind(&["safe_navigation_operator"]) { return (NONE | NL, "no blank before ')', ']', '.' or ';'") }
    if l.is(&["(", "["]) { return (NONE | NL, "no blank behind '(' or '['") }
    if l.is(&[".", "@"]) || l.kind(&["safe_navigation_operator"]) { return (NONE, "no blank behind '.' or '@'") }
    if l.is(&[","]) { return (SP | NL, "one blank or a line break behind ','") }
    if l.infix() && r.infix() && same && !l.lit.is_empty() && !r.lit.is_empty() { return (NONE, "no blank inside an operator") }
    if l.infix() || r.infix() { return (SP | NL, "one blank or a line break on both sides of an operator") }
    if matches!(&*l.parent, "unary_expression" | "update_expression") && l.is(&["!", "~", "-", "+", "--", "++"]) { return (if l.edge.iter().any(|a| r.edge.iter().any(|b| fuses(*a, *b))) { NONE | SP } else { NONE }, "no blank behind a sign") }
    if l.is(&["<"]) && l.parent.starts_with("type_") || r.is(&[">"]) && r.parent.starts_with("type_") { return (NONE | NL, "no blank inside '<' and '>'") }
    if r.kind(&["type_arguments"]) && l.lit.is_empty() { return (NONE, "no blank before '<'") }
    if r.kind(&["dimensions"]) || r.is(&["["]) && matches!(&*r.parent, "array_access" | "dimensions" | "dimensions_expr") { return (NONE, "no blank before '[' of a dimension") }
    if r.kind(&["argument_list", "formal_parameters", "annotation_argument_list"]) { return (NONE, "no blank before the '(' of arguments or parameters") }
    if r.only("{") { return if INIT.contains(&&*r.parent) { (NONE | SP | NL, "one blank at most before '{' of values") } else { (SP | NL, "one blank or a line break before '{'") } }
    if r.only("(") && !l.lit.is_empty() && l.word() && HEADS.contains(&&*l.parent) { return (SP, "one blank behind a keyword") }
    if l.only(")}]") && r.only("w") { return (SP | NL, "one blank or a line break between a bracket and a word") }
    (NONE | SP | NL, "one blank at most")
}
pub fn odd(it: &Interp, l: &Tok, r: &Tok, s: u8) -> Option<&'static str> { let (m, why) = allowed(it, l, r); if s & !(if m & SP != 0 { m | LONE } else { m }) != 0 { Some(why) } else { None } }
