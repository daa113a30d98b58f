//! C26 words are opaque: renaming letters commutes with formatting.
use super::Check;
use crate::engine::{fails, fmt, Cfg, Verdict, World};
use crate::json::quote;
use crate::run;
use crate::worlds::*;

/// The renamings: every letter a..z to another one of the same display width, of one to four bytes.
fn rename(k: usize, s: &str) -> String {
    if k == RENAMINGS - 1 {
        // two letters to one that is two columns wide
        return s.replace("aa", "\u{65E5}").replace("bb", "\u{672C}");
    }
    s.chars()
        .map(|c| {
            if !c.is_ascii_lowercase() {
                return c;
            }
            let n = u32::from(c) - u32::from('a');
            let to = match k {
                0 => u32::from('a') + 25 - n,
                1 => 0x430 + n, // Cyrillic, two bytes
                2 => 0x10D0 + n, // Georgian, three bytes
                _ => 0x1D4D0 + n + 26, // mathematical script, four bytes
            };
            char::from_u32(to).unwrap()
        })
        .collect()
}
const RENAMINGS: usize = 5;

fn opaque(doc: &str, cfg: Cfg) -> Verdict {
    // letters that mean something
    if doc.contains(['<', '&']) || doc.contains("[x]") || doc.contains("markdown") || doc.chars().any(|c| c.is_ascii_uppercase()) {
        return Verdict::Vacuous;
    }
    let o = run!(cfg, doc);
    // the comments that keep a list from absorbing code
    if o.contains("<!--") {
        return Verdict::Vacuous;
    }
    for k in 0..RENAMINGS {
        let s = rename(k, doc);
        if s == doc {
            continue;
        }
        let want = rename(k, &o);
        match fmt(cfg, &s) {
            Err(e) => return fails("no-output", format!("source: {}\n{e}", quote(&s))),
            Ok(p) if p != want => return fails("words-matter", format!("source: {}\nrenamed: {}\nexpected: {}\ngot:      {}", quote(doc), quote(&s), quote(&want), quote(&p))),
            _ => {}
        }
    }
    Verdict::Holds
}

const WORDY: &[&str] = &[
    "", "aa b", "  bb c", "    aa", "* aa bb", "  * c", "- aa", "1. bb aa c", "   2) aa", "> aa bb", ">> c", ">", "# aa c", "===", "---", "```", "~~~ aa", "| aa | c |", "| - | :-: |", "[aa]: bb", "[^aa]: bb c",
    "aa  ", "aa\\", "c | aa",
];

fn worlds(quick: bool) -> Vec<World> {
    let ws = [Cfg::none(), Cfg::wrap(1), Cfg::wrap(6), Cfg::reflow(9)];
    let inline = ["aa", " ", "\n", "*", "`", "[", "]", "(", ")", "\\", "\"", "!", "~~", "_", "  \n", "c"];
    let mut w = text_chars(if quick { 5 } else { 6 });
    w.extend(if quick { chars_inside(5, 4) } else { chars_inside(6, 5) });
    // (the parser drops attributes of one byte)
    w.retain(|w| !w.name.contains("attribute"));
    w.extend([
        lines("lines", WORDY, 1, if quick { 3 } else { 4 }).cfgs(&ws),
        seq("inline markup", &inline, 1, if quick { 5 } else { 6 }).cfgs(&ws[..2]),
        product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, if quick { 1 } else { 2 })).cfgs(&ws),
        seq("tables", &["aa", "|", "b", "-", ":-:", "\n", " ", "`c`", "\\|"], 1, if quick { 5 } else { 6 }),
        product(
            "tables of words",
            &[&["| "], &["aa", "b", "", "aa bb", "caa", "`aa`", "[bb](c)"], &[" | "], &["aa", "b", "aab"], &[" |\n|-|:-:|\n| "], &["aa", "c", "bbbb", "", "*bb* aa"], &["|"], &["b", "aa aa", "cccccc"], &[" |"]],
        ).wraps(stacks(8, 0, 1)),
        product(
            "links of words",
            &[
                &["", "aa ", "* ", "![c] "], &["[aa]", "[a *bb*]", "[`c` aa]", "[aa\nbb]", "![c]"],
                &["(bb)", "(/aa \"bb\")", "(aa\n'c bb')", "[bb]", "[]", "", "[aa\nbb]", "( bb 'c' )"], &["", " c", "\n\n[aa]: c", "\n\n[bb]: /aa 'c aa'\n", "\n\n[aa bb]: c\n  \"aa\n  bb\""],
            ],
        ).wraps(stacks(8, 0, 1)).cfgs(&ws),
        product(
            "headings of words",
            &[&["# ", "### aa ", "aa "], &["bb", "`aa`", "[bb](c)", "bb #", "c {aa}", "c {#aa .bb}", "c {aa=bb}"], &["", " ", " ##", "\n===", "\n---", "\n- aa"]],
        ).wraps(stacks(8, 0, 1)),
        paragraphs(if quick { 5 } else { 6 }),
    ]);
    w
}

fn paragraphs(n: u32) -> World {
    let cfgs: Vec<Cfg> = (1..12).flat_map(|w| [Cfg::wrap(w), Cfg::reflow(w)]).collect();
    seq("words", &["aa", " bb", "\nc", " ", "  \n", " aabb"], 1, n).cfgs(&cfgs)
}

/// (the parser limits labels by their length in bytes)
fn sizes(quick: bool) -> Vec<World> {
    super::scale::sources(quick).into_iter().map(|w| if w.name.contains("label") { w.without(|d| d.len() > 480) } else { w }).collect()
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("C26", "Words are opaque").part(worlds, opaque).part(sizes, opaque)]
}
