//! C19 formatting commutes with nesting, C20 formatting is local: relations between the runs on
//! several documents.
use super::Check;
use crate::canon::{definitions, options};
use crate::engine::{fails, fmt, guarded, Cfg, Verdict, World, Wrap};
use crate::json::quote;
use crate::run;
use crate::worlds::*;
use pulldown_cmark::{BrokenLink, CowStr, Event, Parser, Tag};

const PARSER_PANICS: &str = "the parser panics";

/// What the parser makes of a document, without positions.
pub fn events(doc: &str) -> Vec<String> {
    guarded(|| events_of(doc)).unwrap_or_else(|e| vec![format!("{PARSER_PANICS}: {e}")])
}

fn events_of(doc: &str) -> Vec<String> {
    let mut cb = |b: BrokenLink<'_>| Some((b.reference.into_string().into(), CowStr::from("")));
    let mut out: Vec<String> = vec![];
    let mut text = String::new();
    for e in Parser::new_with_broken_link_callback(doc, options(), Some(&mut cb)) {
        match e {
            Event::Text(t) | Event::Html(t) => {
                text.push_str(&t);
                continue;
            }
            _ => {}
        }
        if !text.is_empty() {
            out.push(format!("{text:?}"));
            text.clear();
        }
        out.push(match e {
            // defined elsewhere or not
            Event::Start(Tag::Link { link_type, .. }) => format!("link {link_type:?}").replace("Unknown", ""),
            Event::Start(Tag::Image { link_type, .. }) => format!("image {link_type:?}").replace("Unknown", ""),
            e => format!("{e:?}"),
        });
    }
    if !text.is_empty() {
        out.push(format!("{text:?}"));
    }
    out
}

// ---------------------------------------------------------------- C20

/// The places where a blank line separates two top-level blocks.
fn splits(doc: &str) -> Vec<(usize, usize)> {
    let b = doc.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'\n' && b[i + 1] == b'\n' {
            let mut j = i;
            while j < b.len() && b[j] == b'\n' {
                j += 1;
            }
            if i > 0 && j < b.len() {
                v.push((i, j));
            }
            i = j;
        } else {
            i += 1;
        }
    }
    v
}

/// For every blank line at which the document falls into two parts that the parser reads the same
/// way alone: the output is the outputs of the parts and the blank line.
pub fn local(doc: &str, cfg: Cfg) -> Verdict {
    let mut verdict = Verdict::Vacuous;
    let mut all: Option<(String, Vec<String>, Vec<(String, String, String)>)> = None;
    for (i, j) in splits(doc) {
        let (a, gap, b) = (&doc[..i], &doc[i..j], &doc[j..]);
        // (blank lines with white space in them are part of the gap)
        if a.lines().last().unwrap_or("").trim().is_empty() || b.lines().next().unwrap_or("").trim().is_empty() {
            continue;
        }
        let (ea, eb) = (events(a), events(b));
        if all.is_none() {
            let e = events(doc);
            if e.first().is_some_and(|e| e.starts_with(PARSER_PANICS)) {
                return Verdict::Vacuous; // C01 says something about these
            }
            all = Some((run!(cfg, doc), e, definitions(doc)));
        }
        let (o, e, d) = all.as_ref().unwrap();
        if e.len() != ea.len() + eb.len() || e[..ea.len()] != ea || e[ea.len()..] != eb {
            continue;
        }
        let (mut defs, db) = (definitions(a), definitions(b));
        if defs.iter().any(|x| db.iter().any(|y| x.0 == y.0)) {
            continue;
        }
        defs.extend(db);
        defs.sort();
        let mut d = d.clone();
        d.sort();
        if d != defs {
            continue;
        }
        let (oa, ob) = (run!(cfg, a), run!(cfg, b));
        if ob.is_empty() || oa.is_empty() {
            continue;
        }
        // the two comments that keep a list from absorbing indented code
        let list_then_code = ea.last().is_some_and(|e| e.starts_with("End(List")) && eb.first().is_some_and(|e| e == "Start(CodeBlock(Indented))");
        let guard = match (list_then_code, definitions(a).is_empty()) {
            (true, true) => "\n<!-- Don't absorb code block into list -->\n<!-- Consider a fenced code block instead -->",
            (true, false) => continue,
            _ => "",
        };
        let want = format!("{}{guard}{gap}{ob}", oa.trim_end_matches('\n'));
        if *o != want {
            return fails(
                "not-local",
                format!("parts: {} + {}\nexpected: {}\ngot:      {}", quote(a), quote(b), quote(&want), quote(o)),
            );
        }
        verdict = Verdict::Holds;
    }
    verdict
}

// ---------------------------------------------------------------- C19

fn nesting_containers() -> Vec<Wrap> {
    let mut v = stacks(8, 1, 2);
    v.retain(|w| w.first.matches("[^n]").count() < 2);
    v
}

/// A quote directly in a quote is written without a space between the two (C15 says so).
fn joined_quotes(s: &str) -> String {
    let mut s = s.to_string();
    while s.contains("> >") {
        s = s.replace("> >", ">>");
    }
    s
}

fn without_guards(s: &str) -> String {
    let keep = |l: &&str| !l.trim_matches([' ', '>']).is_empty() && !l.contains("<!-- Don't absorb") && !l.contains("<!-- Consider");
    s.lines().filter(keep).collect::<Vec<_>>().join("\n")
}

/// The document in a container, the parser sees the same in it: the output is the formatted
/// document in the container.
pub fn nests(doc: &str, cfg: Cfg) -> Verdict {
    if doc.trim().is_empty() || doc.ends_with('\n') || doc.lines().last().unwrap_or("").trim().is_empty() || doc.starts_with([' ', '\n']) {
        return Verdict::Vacuous;
    }
    // (the paragraphs of tight lists are not reported)
    let blocks = |d: &str| -> Vec<String> { events(d).into_iter().filter(|e| !e.ends_with("(Paragraph)")).collect() };
    let alone = blocks(doc);
    if alone.first().is_some_and(|e| e.starts_with(PARSER_PANICS)) {
        return Verdict::Vacuous; // C01 says something about these
    }
    let base = run!(cfg, doc);
    let mut verdict = Verdict::Vacuous;
    for w in CONTAINERS.get_or_init(nesting_containers) {
        let src = w.apply(doc);
        let frame = blocks(&w.apply("x"));
        let at = frame.iter().position(|e| e == "\"x\"").expect("the frame has the x");
        let e = blocks(&src);
        if e.len() != frame.len() - 1 + alone.len()
            || e[..at] != frame[..at]
            || e[at..at + alone.len()] != alone
            || e[at + alone.len()..] != frame[at + 1..]
        {
            continue;
        }
        let want = joined_quotes(&w.apply(&base));
        let got = match fmt(cfg, &src) {
            Ok(o) => joined_quotes(&o),
            Err(e) => return fails("no-output", format!("source: {}\n{e}", quote(&src))),
        };
        // `<!` is escaped in quotes alone, where a later line would end a declaration with its `>`
        if got.contains("<\\!") {
            continue;
        }
        // where exactly the comments that keep a list from absorbing code stand
        if got.contains("<!-- Don't absorb") && without_guards(&got) == without_guards(&want) {
            continue;
        }
        if got != want {
            return fails(
                "not-nested",
                format!("source: {}\nalone: {}\nexpected: {}\ngot:      {}", quote(&src), quote(&base), quote(&want), quote(&got)),
            );
        }
        verdict = Verdict::Holds;
    }
    verdict
}
static CONTAINERS: std::sync::OnceLock<Vec<Wrap>> = std::sync::OnceLock::new();

/// Leaves and small containers, as parts of larger documents.
const PARTS: &[&str] = &[
    "* a\n* b", "- a\n\n  b\n- c", "1. a\n   * b\n     1) c", "> a\n> b", "> a\n>\n>> b", "* > a\n  > * b", "[^x]:\n    a\n\n    * b", "10) ```\n    a\n    ```", "* [ ] a\n* [x] b\n  c",
    "+ # h\n  ***\n  p", "> | a   |\n> | --- |\n> | b   |",
    "  text\n    more", "*  a\n*   b", "#   h  #", "|a|b|\n|-|:-|", "```  x\na", "~~~\n\n\na\n~~~~", "<pre>\n\na\n</pre>", "Set\next\n=", "a\n***", "[x]: <y> 'z'\n[u]:\n  v", "-", "1.", ">", "#", "a\\", "`a\nb` c",
];

fn nest_worlds(quick: bool) -> Vec<World> {
    let all: Vec<&str> = LEAVES.iter().chain(PARTS).copied().collect();
    let mut w = vec![
        product("two blocks", &[&all, SEPS, &all]),
        product("one block, three lines", &[&all, SEPS, &["a", "* b", "> c", "```\nd\n```", "[e]: f", "***"], SEPS, &["g", "1. h", "<div>", "# i"]]),
    ];
    if !quick {
        w.push(product("three blocks", &[&all, &["\n\n", "\n"], &all, &["\n\n"], &all]));
    }
    w
}

fn parts_worlds(quick: bool) -> Vec<World> {
    let gaps: &[&str] = &["\n\n", "\n\n\n"];
    let all: Vec<&str> = LEAVES.iter().chain(PARTS).copied().collect();
    let mut w = vec![
        product("three blocks", &[&all, gaps, &all, &["\n\n"], &all]),
        product("five blocks", &[PARTS, &["\n\n\n\n"], LEAVES, &["\n\n"], &["a", "* b", "[c]: d"], &["\n\n"], &["> e", "```\nf\n```", "[^g]: h"], &["\n\n\n"], &["| i |\n|-|", "1. j", "# k"], &["", "\n"]]),
    ];
    if !quick {
        w.push(product("four blocks", &[LEAVES, gaps, &all, &["\n\n"], LEAVES, &["\n\n"], &all]));
    }
    w
}

fn raw(quick: bool) -> Vec<World> {
    let mut w = vec![lines("lines", LINES, 1, if quick { 3 } else { 4 })];
    w.extend(text_chars(if quick { 4 } else { 5 }));
    w.extend(if quick { chars_inside(4, 3) } else { chars_inside(5, 4) });
    w
}

/// Documents with blank lines to split them at.
fn raw_parts(quick: bool) -> Vec<World> {
    vec![
        lines("lines", LINES, 1, if quick { 4 } else { 5 }),
        product("two lines, blank lines, two lines", &[LINES, &["\n"], LINES, &["\n\n", "\n\n\n"], LINES, &["\n"], LINES, &["", "\n"]]),
        seq("chars: block markers", &["a", " ", "\n\n", "*", "-", "#", ">", "`", "\n"], 3, if quick { 6 } else { 7 }),
        seq("chars: inline markup", &["a", "\n\n", "*", "[", "]", "`", "\\", "<", "&amp;"], 3, if quick { 6 } else { 7 }),
        seq("chars: tables and rules", &["|", "-", "\n", "\n\n", "=", "1.", " ", "a"], 3, if quick { 6 } else { 7 }),
        seq("tokens: definitions", &["[a]: b", "[^c]: d", "\n\n", "\n", "    ", "* ", "> ", "e"], 3, if quick { 6 } else { 7 }),
    ]
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("C19", "Formatting commutes with nesting").part(nest_worlds, nests).part(raw, nests).part(super::scale::sources, nests).part(super::exotic::fewer_sources, nests),
        Check::new("C20", "Formatting is local").part(parts_worlds, local).part(raw_parts, local).part(super::scale::sources, local).part(super::exotic::sources, local),
    ]
}
