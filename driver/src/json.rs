//! Minimal JSON value and writer.
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
pub fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
pub fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    pub fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(n) => out.push_str(&n.to_string()),
            J::S(x) => esc(x, out),
            J::A(v) => {
                out.push('[');
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    e.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    esc(n, out);
                    out.push(':');
                    e.w(out);
                }
                out.push('}');
            }
        }
    }
}
fn esc(x: &str, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
