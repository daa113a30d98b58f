//! Just enough JSON to write evidence and replays and to read them back.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Str(String),
    Int(i64),
    Num(f64),
    Bool(bool),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{85}' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl J {
    pub fn s(s: &str) -> J {
        J::Str(s.to_string())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn render(&self) -> String {
        let mut o = String::new();
        self.r(&mut o, 0);
        o
    }
    fn r(&self, o: &mut String, ind: usize) {
        let pad = |o: &mut String, n: usize| {
            o.push('\n');
            for _ in 0..n {
                o.push_str("  ");
            }
        };
        match self {
            J::Str(s) => o.push_str(&quote(s)),
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Num(f) => {
                let _ = write!(o, "{f:.3}");
            }
            J::Bool(b) => {
                let _ = write!(o, "{b}");
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    pad(o, ind + 1);
                    x.r(o, ind + 1);
                }
                if !v.is_empty() {
                    pad(o, ind);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    pad(o, ind + 1);
                    o.push_str(&quote(k));
                    o.push_str(": ");
                    x.r(o, ind + 1);
                }
                if !v.is_empty() {
                    pad(o, ind);
                }
                o.push('}');
            }
        }
    }
}

/// Read one JSON string literal at the start of `s`; returns it and the rest.
pub fn parse_str(s: &str) -> Option<(String, &str)> {
    let mut it = s.char_indices();
    if it.next()?.1 != '"' {
        return None;
    }
    let mut o = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((o, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'b' => o.push('\u{8}'),
                'f' => o.push('\u{c}'),
                'u' => {
                    let mut v = 0;
                    for _ in 0..4 {
                        v = v * 16 + it.next()?.1.to_digit(16)?;
                    }
                    o.push(char::from_u32(v)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}

/// The string value of `key` in flat JSON text.
pub fn field(text: &str, key: &str) -> Option<String> {
    let k = format!("{}:", quote(key));
    let at = text.find(&k)?;
    parse_str(text[at + k.len()..].trim_start()).map(|x| x.0)
}
