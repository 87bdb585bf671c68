//! The little JSON writer the facts need.
use std::fmt;
pub enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(String, J)>) }
fn esc(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
    f.write_str("\"")?;
    for c in s.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            c if (c as u32) < 0x20 => write!(f, "\\u{:04x}", c as u32)?,
            c => write!(f, "{c}")?,
        }
    }
    f.write_str("\"")
}
impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::B(b) => write!(f, "{b}"),
            J::N(n) => write!(f, "{n}"),
            J::S(s) => esc(f, s),
            J::A(v) => { f.write_str("[")?; for (i, x) in v.iter().enumerate() { if i > 0 { f.write_str(",")?; } write!(f, "{x}")?; } f.write_str("]") }
            J::O(v) => { f.write_str("{")?; for (i, (k, x)) in v.iter().enumerate() { if i > 0 { f.write_str(",\n")?; } esc(f, k)?; f.write_str(":")?; write!(f, "{x}")?; } f.write_str("}") }
        }
    }
}
