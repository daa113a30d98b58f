//! What it means for one run of the formatter to satisfy a property.
use crate::canon::*;
use crate::engine::{fails, fmt, Cfg, Verdict};
use crate::json::quote;

#[macro_export]
macro_rules! run {
    ($cfg:expr, $doc:expr) => {
        match $crate::engine::fmt($cfg, $doc) {
            Ok(o) => o,
            Err(e) => return $crate::engine::fails("no-output", e),
        }
    };
}

pub fn totality(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    if let Err(e) = fmt(cfg, &o) {
        return fails("no-output-for-output", format!("formatted: {}\n{e}", quote(&o)));
    }
    Verdict::Holds
}

pub fn idempotence(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    let o2 = match fmt(cfg, &o) {
        Ok(o2) => o2,
        Err(e) => return fails("no-output", format!("formatted: {}\nformatting that again: {e}", quote(&o))),
    };
    if o2 != o {
        return fails("not-idempotent", format!("once:  {}\ntwice: {}", quote(&o), quote(&o2)));
    }
    Verdict::Holds
}

pub fn show_canon(c: &str) -> String {
    quote(&c.replace('\u{1}', "(").replace('\u{2}', ")").replace('\u{3}', "<br>"))
}

/// Both readings of the document have the same canonical form before and after.
pub fn same_meaning(a: &str, b: &str) -> Option<String> {
    let (x, y) = (strip_guard_comments(&canon(a, View::AllLinks)), strip_guard_comments(&canon(b, View::AllLinks)));
    if x != y {
        return Some(format!("before: {}\nafter:  {}", show_canon(&x), show_canon(&y)));
    }
    let (x, y) = (strip_guard_comments(&canon(a, View::Plain)), strip_guard_comments(&canon(b, View::Plain)));
    // breaks inside of what could be a link are turned into spaces whether or not it is one
    let flat = |s: &str| s.replace([' ', '\u{3}'], "");
    if flat(&x) != flat(&y) {
        return Some(format!("(undefined references as text) before: {}\nafter:  {}", show_canon(&x), show_canon(&y)));
    }
    None
}

pub fn meaning(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    match same_meaning(doc, &o) {
        Some(d) => fails("meaning-changed", format!("output: {}\n{d}", quote(&o))),
        None => Verdict::Holds,
    }
}

pub fn same_definitions(doc: &str, cfg: Cfg) -> Verdict {
    // The formatter escapes a `^` at the start of labels and a backslash at their end, in
    // definitions as well as in references (that they still match is part of C03).
    let all = |d: &str| -> Vec<_> {
        let plain = |l: String| l.strip_prefix("\\^").map(|r| format!("^{r}")).unwrap_or(l).trim_end_matches('\\').to_string();
        let mut v: Vec<_> = definitions(d).into_iter().map(|(l, u, t)| (plain(l), u, t)).collect();
        v.sort();
        v
    };
    let a = all(doc);
    let o = run!(cfg, doc);
    let b = all(&o);
    if a != b {
        return fails("definitions-changed", format!("output: {}\nbefore: {a:?}\nafter:  {b:?}", quote(&o)));
    }
    if a.is_empty() { Verdict::Vacuous } else { Verdict::Holds }
}
