//! A tiny JSON writer.
#[derive(Clone)]
pub enum J { Null, B(bool), N(i64), S(String), A(Vec<J>), O(Vec<(String, J)>) }
impl J {
    pub fn s(x: impl Into<String>) -> J { J::S(x.into()) }
    pub fn n(x: usize) -> J { J::N(x as i64) }
    pub fn obj(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut s = String::new(); self.w(&mut s); f.write_str(&s) }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
}
