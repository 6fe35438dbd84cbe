//! Minimal JSON reader (grammar.json) and string escaper.
#[derive(Debug, Clone)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(v) = self { v.iter().find(|x| x.0 == k).map(|x| &x.1) } else { None } }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn arr(&self) -> &[J] { if let J::Arr(s) = self { s } else { &[] } }
    pub fn obj(&self) -> &[(String, J)] { if let J::Obj(s) = self { s } else { &[] } }
    pub fn bool(&self) -> bool { matches!(self, J::Bool(true)) }
}
pub fn parse(s: &str) -> J { let b: Vec<char> = s.chars().collect(); let mut i = 0; let r = val(&b, &mut i); r }
fn ws(b: &[char], i: &mut usize) { while *i < b.len() && b[*i].is_whitespace() { *i += 1 } }
fn val(b: &[char], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        '{' => { *i += 1; let mut v = vec![]; loop { ws(b, i); if b[*i] == '}' { *i += 1; break } if b[*i] == ',' { *i += 1; continue } let k = val(b, i).str().to_string(); ws(b, i); assert!(b[*i] == ':'); *i += 1; let x = val(b, i); v.push((k, x)); } J::Obj(v) }
        '[' => { *i += 1; let mut v = vec![]; loop { ws(b, i); if b[*i] == ']' { *i += 1; break } if b[*i] == ',' { *i += 1; continue } v.push(val(b, i)); } J::Arr(v) }
        '"' => { *i += 1; let mut s = String::new(); while b[*i] != '"' { if b[*i] == '\\' { *i += 1; match b[*i] { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'), 'u' => { let h: String = b[*i + 1..*i + 5].iter().collect(); let c = u32::from_str_radix(&h, 16).unwrap(); s.push(char::from_u32(c).unwrap_or('\u{fffd}')); *i += 4 } c => s.push(c) } } else { s.push(b[*i]) } *i += 1 } *i += 1; J::Str(s) }
        't' => { *i += 4; J::Bool(true) }
        'f' => { *i += 5; J::Bool(false) }
        'n' => { *i += 4; J::Null }
        _ => { let st = *i; while *i < b.len() && "+-.eE0123456789".contains(b[*i]) { *i += 1 } J::Num(b[st..*i].iter().collect::<String>().parse().unwrap()) }
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
