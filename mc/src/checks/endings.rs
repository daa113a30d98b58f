//! C17 line endings.
use super::Check;
use crate::engine::{fails, fmt, Cfg, Verdict, World};
use crate::json::quote;
use crate::oracles::same_meaning;
use crate::run;
use crate::worlds::*;

/// Every way to end the lines of the document with LF or CRLF, all lines the same first.
fn spellings(doc: &str) -> Vec<String> {
    let n = doc.matches('\n').count();
    let mut v = vec![doc.replace('\n', "\r\n")];
    if n <= MIXED {
        for mask in 1..(1u32 << n) - 1 {
            let mut k = 0;
            let mut s = String::new();
            for c in doc.chars() {
                if c == '\n' {
                    if mask >> k & 1 == 1 {
                        s.push('\r');
                    }
                    k += 1;
                }
                s.push(c);
            }
            v.push(s);
        }
    } else {
        // the first, the last, every other line
        let some: [&dyn Fn(usize) -> bool; 4] = [&|k| k == 0, &|k| k == n - 1, &|k| k % 2 == 0, &|k| k % 2 == 1];
        for crlf in some {
            let mut s = String::new();
            for (k, l) in doc.split('\n').enumerate() {
                s.push_str(l);
                if k < n {
                    s.push_str(if crlf(k) { "\r\n" } else { "\n" });
                }
            }
            v.push(s);
        }
    }
    v
}
const MIXED: usize = 4;

fn endings(doc: &str, cfg: Cfg) -> Verdict {
    if !doc.contains('\n') || doc.contains('\r') {
        return Verdict::Vacuous;
    }
    let o = run!(cfg, doc);
    for s in spellings(doc) {
        let p = match fmt(cfg, &s) {
            Ok(p) => p,
            Err(e) => return fails("no-output", format!("source: {}\n{e}", quote(&s))),
        };
        if p != o {
            return fails("different", format!("source: {}\nwith \\n only: {}\nthis way:    {}", quote(&s), quote(&o), quote(&p)));
        }
        if same_meaning(doc, &o).is_some() {
            continue; // C03 says something about these
        }
        if let Some(d) = same_meaning(&s, &p) {
            return fails("meaning-changed", format!("source: {}\noutput: {}\n{d}", quote(&s), quote(&p)));
        }
    }
    Verdict::Holds
}

fn worlds(quick: bool) -> Vec<World> {
    // (with line widths as well)
    let cfgs = [Cfg::none(), Cfg::reflow(9)];
    let mut w = text_chars(if quick { 6 } else { 7 });
    w.extend(if quick { chars_inside(4, 3) } else { chars_inside(5, 4) });
    w.push(lines("lines", LINES, 1, if quick { 4 } else { 5 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, 2)).cfgs(&cfgs));
    w.push(product("three leaves", &[LEAVES, &["\n", "\n\n"], LEAVES, &["\n", "\n\n"], LEAVES, &["", "\n"]]).cfgs(&cfgs));
    w.push(product("nested Markdown", &[&["", "* ", "> "], &["```markdown\n", "~~~ rust\n"], LEAVES, &["\n```", "\n~~~", ""]]).cfgs(&cfgs));
    w
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("C17", "Line endings").part(worlds, endings).part(super::scale::sources, endings).part(super::exotic::sources, endings)]
}
