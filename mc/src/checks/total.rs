//! C01 totality, C02 idempotence, C03 meaning, C04 definitions.
use super::trees::oracle;
use super::Check;
use crate::engine::{Cfg, Gen, World, Wrap};
use crate::oracles;
use crate::worlds::*;

fn common(quick: bool) -> Vec<World> {
    let mut w = text_chars(if quick { 6 } else { 7 });
    w.push(lines("lines", LINES, 1, if quick { 4 } else { 5 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, 2)));
    w
}

/// The same inside of containers.
fn inside(quick: bool) -> Vec<World> {
    let (one, two) = if quick { (5, 4) } else { (6, 5) };
    let mut w = chars_inside(one, two);
    // the checkbox of an empty item at the end: see known-findings.txt
    w = w.into_iter().map(|x| x.without(|d| d.trim_end_matches(' ').ends_with("[ ]"))).collect();
    w.push(lines("lines in containers", LINES, 1, if quick { 3 } else { 4 }).wraps(stacks(6, 1, 1)));
    w
}

/// The same with line widths.
fn configured(quick: bool) -> Vec<World> {
    let mut w: Vec<World> = text_chars(if quick { 4 } else { 5 });
    w.extend(if quick { chars_inside(4, 3) } else { chars_inside(5, 4) });
    w.push(lines("lines", LINES, 1, if quick { 3 } else { 4 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, if quick { 1 } else { 2 })));
    for x in &mut w {
        x.cfgs = vec![Cfg::wrap(0), Cfg::wrap(5), Cfg::reflow(0), Cfg::reflow(9), Cfg { w: None, reflow: true }];
    }
    w
}

/// Without reflow (C11 speaks of that).
fn wrapping(quick: bool) -> Vec<World> {
    let mut w = configured(quick);
    for x in &mut w {
        x.cfgs = vec![Cfg::wrap(1), Cfg::wrap(5)];
    }
    w
}

/// Constructs that take more than one line, in containers of containers and in links.
pub fn across_lines(quick: bool) -> Vec<World> {
    let max = if quick { 5 } else { 6 };
    let mut places: Vec<Wrap> = stacks(6, 2, if quick { 2 } else { 3 });
    if quick {
        places.extend([container(0).inside(&container(1)).inside(&container(0)), container(1).inside(&container(0)).inside(&container(3)), container(5).inside(&container(0)).inside(&container(1))]);
    }
    // a line with only `>` goes on with a paragraph that's indented further
    let lazy: fn(&str) -> bool = |d| d.starts_with(' ') && d.contains("\n>");
    let blank: Vec<String> = (0..if quick { 9 } else { 14 }).map(|n| format!("\n{}", " ".repeat(n))).collect();
    let few = [Wrap::top(), container(0), container(1), container(1).inside(&container(0)), container(0).inside(&container(2))].to_vec();
    vec![
        seq("declarations across lines", &["<!", "A", ">", "\n", " ", "x", "<"], 1, max).wraps(places.clone()),
        seq("instructions across lines", &["<?", "?>", ">", "\n", " ", "x"], 1, max).wraps(places.clone()),
        seq("tags across lines", &["<b", " c=", "\"", ">", "\n", " ", "x"], 1, max).wraps(places.clone()).without(lazy),
        seq("code spans across lines", &["`", "``", "\n", " ", "x", ">"], 1, max).wraps(places).without(lazy),
        seq_in("declarations in links", "[", &["<!", "A", ">", "\n", "x", " ", "<"], "](u)", 1, max).wraps(few.clone()),
        seq_in("spans in links", "[", &["<b", "\"", ">", "\n", "x", " c=", "`"], "](u)", 1, max).wraps(few.clone()),
        seq_in("declarations in images", "![", &["<!", "A", ">", "\n", "x", "<"], "](u)", 1, max).wraps(few.clone()),
        // the blank after a declaration that ends with the marker of a quote goes
        seq_in("declarations in emphasis", "*", &["<!", "A", ">", "\n", "x", "*"], "*", 1, max).wraps(few.clone()).without(|d| d.contains("\n*")),
        World::new("blank lines of any width", Gen::Product(vec![
            ["c", "* c", "10) c", "10)  c", "* 10)  c", "* * c", "[^n]: c", "* ```\n  c\n  ```", "* # c", "* |c|\n  |-|", "10)", "* <b>\n  c"].map(String::from).to_vec(),
            blank.clone(),
            blank,
            ["d", "* d", "11) d", "> d", "# d", "```\nd", "[d]: e", "<div>", "---", "| d |", ""].map(String::from).to_vec(),
        ])).wraps(few),
    ]
}

/// Link reference definitions in all their spellings and places.
fn definition_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 5 } else { 6 };
    let label: &[&str] = &["a", "a b", "a\nb", " a ", "a\\]b", "\\[a", "a\\\\", "a\\\nb", "\na", "a\n", "é", "a\\\n\\]b", "*a*", "`a`", "&amp;", "\\^a"];
    let colon: &[&str] = &[": ", ":", ":   ", ":\n", ": \n  "];
    let dest: &[&str] = &[
        "u", "/u(v)?w#x", "<u v>", "<>", "<u\\>v>", "<\\\\>", "<u\\\\>", "u\\\\", "é", "(", "\\<u", "u>", "<u(>", "u\"v\"", "&quot;", "u\\ ", "[b]", "]", "世", "u\u{a0}v",
    ];
    let title: &[&str] = &[
        "", " \"t\"", "   't u'", " (t)", "\n\"t\"", "\n  't'", " \"t\nu\"", " 't\n  u\n v'", " \"t\\\"u\"", " \"\"", " (t\\)u)", " 't\\\\'", " \"t\\\nu\"", " 'é'", " (\nt)", " \"t\n\"",
        "\n\"t\" x", "\n't", " \n(t)  ", "\n\n\"t\"", "\"t\"",
    ];
    let after: &[&str] = &["", "\n", "\n\ntext", "\n[c]: d", "\n# h", "\n* x", "\n```\ncode\n```", "\n\n    code", "\n> q", "\n---", "\ntext"];
    let before: &[&str] = &["", "text\n\n", "# h\n", "[b]: c\n", "```\n```\n", "* x\n\n", "---\n", "<!-- x -->\n"];
    let some = |a: &[&'static str], n: usize| a[..n.min(a.len())].to_vec();
    let all = stacks(8, 0, 2);
    let few = vec![Wrap::top(), Wrap::new("> ", "> "), Wrap::new("* ", "  "), Wrap::new("1. > ", "   > "), container(5)];
    let one: Vec<Wrap> = stacks(8, 0, 1);
    vec![
        product("spellings of definitions", &[&["["], label, &["]"], colon, dest, title]).wraps(few.clone()),
        product("neighbours of definitions", &[before, &["["], &some(label, 3), &["]"], &some(colon, 4), &some(dest, 3), &some(title, 6), after]).wraps(one),
        product("two definitions", &[&["[a]: u", "[a]:\nu", "[a]: <u> 't'", "[a]: u\n  (t)"], &["\n", "\n\n", "\n\ntext\n\n", "\n\n* x\n\n", "\n\n> q\n\n", "\n  "], &["[b]: v", "[B c]:\n v", "[a]: w \"t\"", "[b]: <>\n't'"], &["", "\n", "\n\nx", "\n\n[c]: w"]]).wraps(all),
        seq_in("chars: after the label", "[a]:", &["u", "<", ">", " ", "\n", "\"", "(", ")", "\\"], "\n\n[a]", 1, max),
        seq_in("chars: after the destination", "[a]: u", &["t", "'", "(", ")", " ", "\n", "\"", "\\", ">"], "\n\n[a]", 1, max),
        seq_in("chars: label", "[", &["a", "\\", "]", "[", " ", "\n", "^", "!", ":"], "]: u", 1, max)
            // labels of footnotes that end with a backslash
            .without(|d| d.contains("\\ ]")),
        seq_in("chars: in a quote", "> [a]:", &["u", "'t'", "\n", "> ", " ", "[b]: v", "x"], "", 1, max + 1)
            // a line `    >` goes on with the destination
            .without(|d| d.contains(" > ") && d.lines().any(|l| l.starts_with(' '))),
        seq_in("chars: in an item", "- [a]:", &["u", "'t'", "\n", "  ", "- ", "[b]: v", "x"], "", 1, max + 1)
            // pulldown-cmark panics
            .without(|d| d.lines().skip(1).any(|l| l.len() >= 4 && l.trim().is_empty())),
        seq_in("chars: in a footnote", "[^n]: [a]:", &["u", "'t'", "\n", "    ", "[b]: v", "x"], "", 1, max + 1)
            .without(|d| d.lines().skip(1).any(|l| l.len() >= 4 && l.trim().is_empty())),
    ]
}

/// Sequences of definitions, also of the same label, with what they have to come out as.
fn definition_sequences(quick: bool) -> Vec<World> {
    let defs: &[(&str, &str)] = &[
        ("[a]: u", "[a]: u"),
        ("[a]:v 't'", "[a]: v 't'"),
        ("[B  c]:\nw", "[B  c]: w"),
        ("[b\nc]: <x y>\n(t)", "[b c]: <x y> (t)"),
        ("[d]:  z   \"t\nu\"  ", "[d]: z \"t u\""),
        ("text", "text"),
        ("> [a]: q", "> [a]: q"),
        ("* [e]: i\n  [f]: j", "* [e]: i\n  [f]: j"),
        ("# h", "# h"),
    ];
    let n = if quick { 3 } else { 4 };
    let seps = ["\n", "\n\n"];
    let wraps: Vec<Wrap> = [Wrap::top(), container(0), container(1), container(4), container(5), container(1).inside(&container(0))].into();
    let mut docs = vec![];
    let mut level: Vec<(String, String, usize)> = defs.iter().enumerate().map(|(i, (s, c))| (s.to_string(), c.to_string(), i)).collect();
    for _ in 1..n {
        let mut next = vec![];
        for (s, c, last) in &level {
            for (i, (t, d)) in defs.iter().enumerate() {
                for sep in seps {
                    // a paragraph goes on; a list goes on with what follows, whatever separates it
                    let open = matches!(*last, 5..=7);
                    if sep == "\n" && open || *last == 7 && i == 7 {
                        continue;
                    }
                    next.push((format!("{s}{sep}{t}"), format!("{c}{sep}{d}"), i));
                }
            }
        }
        level = next;
        docs.extend(level.iter().map(|(s, c, _)| (s.clone(), c.clone())));
    }
    wraps
        .into_iter()
        .map(|w| {
            let docs = docs.iter().map(|(s, e)| format!("{}\u{0}{}", w.apply(s), w.apply(e).replace("> > ", ">> "))).collect();
            list(&format!("definitions in a row in {:?}", w.first), docs)
        })
        .collect()
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("C01", "Formatting always produces output").part(common, oracles::totality).part(inside, oracles::totality).part(super::scale::sources, oracles::totality).part(super::exotic::sources, oracles::totality).part(super::exotic::at_markers, oracles::totality).part(over_indented, oracles::totality).part(across_lines, oracles::totality).part(configured, oracles::totality),
        Check::new("C02", "Formatting is idempotent").part(common, oracles::idempotence).part(inside, oracles::idempotence).part(super::scale::sources, oracles::idempotence).part(super::exotic::sources, oracles::idempotence).part(super::exotic::at_markers, oracles::idempotence).part(over_indented, oracles::idempotence).part(across_lines, oracles::idempotence).part(super::exotic::wrapped, oracles::idempotence).part(over_indented_wrapped, oracles::idempotence).part(wrapping, oracles::idempotence),
        Check::new("C03", "Formatting preserves meaning").part(common, oracles::meaning).part(inside, oracles::meaning).part(super::scale::sources, oracles::meaning).part(super::exotic::sources, oracles::meaning).part(super::exotic::at_markers, oracles::meaning).part(over_indented, oracles::meaning).part(across_lines, oracles::meaning),
        Check::new("C04", "Link reference definitions survive").part(common, oracles::same_definitions).part(definition_worlds, oracles::same_definitions).part(definition_sequences, oracle).part(|q| super::scale::worlds("C04", q), oracle).part(|q| super::exotic::worlds("C04", q), oracle),
    ]
}
