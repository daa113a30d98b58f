//! C09 the width bound, C10 what is not wrapped, C11 wrapping keeps the meaning.
use super::Check;
use crate::ast::width;
use crate::canon::options;
use crate::engine::{fails, fmt, Cfg, Gen, Verdict, World, Wrap};
use crate::json::quote;
use crate::oracles::same_meaning;
use crate::run;
use crate::worlds::*;
use pulldown_cmark::{BrokenLink, CowStr, Event, Parser, Tag, TagEnd};

// ---------------------------------------------------------------- C09

/// First-fit filling: what every line of a paragraph is broken into.
fn fill(line: &str, w: usize) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut rest = line;
    while !rest.is_empty() {
        let word_end = rest.find(' ').unwrap_or(rest.len());
        let space_end = rest[word_end..].find(|c| c != ' ').map_or(rest.len(), |k| word_end + k);
        let word = &rest[..word_end];
        if !cur.is_empty() && width(&cur) + width(word) > w {
            out.push(cur.trim_end_matches(' ').to_string());
            cur.clear();
        }
        cur.push_str(&rest[..space_end]);
        rest = &rest[space_end..];
    }
    out.push(cur.trim_end_matches(' ').to_string());
    out
}

/// The lines of a paragraph of plain words, wrapped.
pub fn filled(text: &str, w: Option<usize>, reflow: bool) -> Vec<String> {
    let Some(w) = w else { return text.split('\n').map(str::to_string).collect() };
    // what is between hard breaks
    let mut pieces: Vec<String> = vec![];
    for l in text.split('\n') {
        match pieces.last_mut() {
            Some(p) if reflow && !p.ends_with("  ") && !p.ends_with('\\') => {
                p.push(' ');
                p.push_str(l);
            }
            _ => pieces.push(l.to_string()),
        }
    }
    let mut out = vec![];
    let last = pieces.len() - 1;
    for (i, p) in pieces.iter().enumerate() {
        let mut ls = fill(p.trim_end_matches(' '), w);
        if i < last && p.ends_with("  ") {
            ls.last_mut().unwrap().push_str("  ");
        }
        out.extend(ls);
    }
    out
}

/// The containers as they are printed.
fn printed(w: &Wrap) -> Wrap {
    let join = |s: &str| {
        let mut s = s.to_string();
        while s.contains("> >") {
            s = s.replace("> >", ">>");
        }
        s
    };
    Wrap { first: join(&w.first), rest: join(&w.rest), blank: w.blank.clone(), before: w.before.clone(), after: w.after.clone() }
}

/// Cases: container NUL text, where the container is given by the prefixes of its lines.
fn plain_words(case: &str, cfg: Cfg) -> Verdict {
    let mut p = case.split('\u{0}');
    let (Some(first), Some(rest), Some(text)) = (p.next(), p.next(), p.next()) else { return Verdict::Vacuous };
    let wrap = Wrap::new(first, rest);
    let src = wrap.apply(text);
    let to = printed(&wrap);
    let w = cfg.w.map(|w| w.saturating_sub(width(&to.rest)));
    let want = to.apply(&filled(text, w, cfg.reflow).join("\n"));
    match fmt(cfg, &src) {
        Err(e) => fails("no-output", format!("source: {}\n{e}", quote(&src))),
        Ok(o) if o != want => fails(
            "filling",
            format!("source:   {}\nexpected: {}\ngot:      {}", quote(&src), quote(&want), quote(&o)),
        ),
        Ok(_) => Verdict::Holds,
    }
}

/// Paragraphs of `n` words with all separators between them.
fn paragraphs(name: &str, words: &[&str], seps: &[&str], min: usize, max: usize, wraps: Vec<Wrap>, cfgs: &[Cfg]) -> World {
    let (words, seps) = (v(words), v(seps));
    let k = words.len() as u64;
    let s = seps.len() as u64;
    let sizes: Vec<u64> = (min..=max).map(|n| k.pow(n as u32) * s.pow(n as u32 - 1)).collect();
    let total: u64 = sizes.iter().sum();
    let nw = wraps.len() as u64;
    World::new(
        name,
        Gen::Fn(
            total * nw,
            Box::new(move |i| {
                let wrap = &wraps[(i % nw) as usize];
                let mut i = i / nw;
                let mut n = min;
                for z in &sizes {
                    if i < *z {
                        break;
                    }
                    i -= z;
                    n += 1;
                }
                let mut t = String::new();
                for j in 0..n {
                    if j > 0 {
                        t.push_str(&seps[(i % s) as usize]);
                        i /= s;
                    }
                    t.push_str(&words[(i % k) as usize]);
                    i /= k;
                }
                Some(format!("{}\u{0}{}\u{0}{t}", wrap.first, wrap.rest))
            }),
        ),
    )
    .cfgs(cfgs)
}

fn widths(ws: impl IntoIterator<Item = usize>) -> Vec<Cfg> {
    ws.into_iter().flat_map(|w| [Cfg::wrap(w), Cfg::reflow(w)]).collect()
}

fn single_stacks(max: usize) -> Vec<Wrap> {
    let mut v = stacks(8, 0, max);
    v.retain(|w| w.first.matches("[^n]").count() < 2);
    v
}

fn filling_worlds(quick: bool) -> Vec<World> {
    let mut all = widths(0..=22);
    all.push(Cfg::none());
    vec![
        paragraphs("plain words", &["a", "bbb", "ccccc"], &[" ", "\n", "  \n"], 1, if quick { 4 } else { 5 }, single_stacks(0), &all),
        paragraphs("plain words in containers", &["a", "cccc"], &[" ", "\n"], 3, if quick { 4 } else { 5 }, single_stacks(2), &all),
        paragraphs("deep containers", &["aa"], &[" ", "\n"], 4, 5, stacks(if quick { 3 } else { 5 }, 3, 4), &widths(5..24)),
        paragraphs("spaces and hard breaks", &["aa", "b-bb"], &[" ", "  ", "\n", "  \n", "\\\n"], 2, 4, single_stacks(0), &widths(0..=12)),
        paragraphs(
            "wide words in containers",
            &["é", "日本", "ñañ", "\u{1F642}", "x\u{301}y"],
            &[" ", "\n"],
            2,
            if quick { 3 } else { 4 },
            single_stacks(1),
            &widths(1..=16),
        ),
        paragraphs("markup in containers", &["aa", "*b*", "`c`", "~~d~~", "&amp;"], &[" ", "\n"], 2, if quick { 3 } else { 4 }, single_stacks(1), &widths(1..=16)),
        paragraphs("long lines", &["aa", "b", "ccc"], &[" "], 8, if quick { 9 } else { 10 }, single_stacks(0), &widths([3, 5, 7, 8, 11, 13, 20])),
    ]
}

/// Words that breaking a line before or after could turn into something else.
fn keeps_to_its_neighbours(prev: &str, next: &str) -> bool {
    let marks = |s: &str| s.chars().all(|c| "-+*_=|: ".contains(c));
    let fence = |s: &str| s.starts_with("```") || s.starts_with("~~~");
    let ordered = |s: &str| s.strip_suffix(['.', ')']).is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()));
    let ends_with_escape = |s: &str| s.len() - s.trim_end_matches('\\').len() & 1 == 1;
    marks(prev)
        || fence(prev)
        || ends_with_escape(prev)
        || prev.ends_with('[')
        || prev.rfind("](<").is_some_and(|k| !prev[k..].contains('>'))
        || (prev.starts_with('<') && prev.ends_with('>'))
        || marks(next)
        || fence(next)
        || next.starts_with('>')
        || next.starts_with("[^")
        || next.starts_with('<')
        || ordered(next)
        || ['-', '=', '#'].iter().any(|m| next.starts_with(*m) && next.trim_start_matches(*m).starts_with(|c: char| c.is_ascii_punctuation()))
        || (next.len() <= 6 && next.chars().all(|c| c == '#'))
}

/// Lines that reflowing does not fill: with more on them they could be a thematic break or a list.
fn keeps_its_line(l: &str) -> bool {
    l.chars().all(|c| "*_-+ ".contains(c)) || l.strip_suffix(['.', ')']).is_some_and(|n| n.bytes().all(|b| b.is_ascii_digit()))
}

/// The output is one paragraph: no line that could be broken is too wide, and with reflow none is
/// broken too early.
fn tight_fit(case: &str, cfg: Cfg) -> Verdict {
    let mut p = case.split('\u{0}');
    let (Some(first), Some(rest), Some(text)) = (p.next(), p.next(), p.next()) else { return Verdict::Vacuous };
    let wrap = Wrap::new(first, rest);
    let src = wrap.apply(text);
    let to = printed(&wrap);
    let o = run!(cfg, &src);
    let Some(w) = cfg.w else { return Verdict::Vacuous };
    let Some(body) = o.strip_prefix(to.first.as_str()) else { return Verdict::Vacuous };
    let mut lines: Vec<&str> = vec![];
    for (i, l) in body.split('\n').enumerate() {
        match if i == 0 { Some(l) } else { l.strip_prefix(to.rest.as_str()) } {
            Some(l) => lines.push(l),
            None => return Verdict::Vacuous, // not a paragraph
        }
    }
    if shape(&o) != shape(&to.apply("x")) {
        return Verdict::Vacuous;
    }
    let left = w.saturating_sub(width(&to.rest));
    // the words that must stay together
    let units = |l: &str| -> Vec<String> {
        let mut u: Vec<String> = vec![];
        for word in l.split(' ') {
            match u.last_mut() {
                Some(l) if keeps_to_its_neighbours(l, word) => {
                    l.push(' ');
                    l.push_str(word);
                }
                _ => u.push(word.to_string()),
            }
        }
        u
    };
    for (i, l) in lines.iter().enumerate() {
        let t = l.trim_end_matches(' ');
        let us = units(t);
        if width(t) > left && us.len() > 1 {
            return fails("too-wide", format!("source: {}\noutput: {}\nline {} could be broken into {us:?}", quote(&src), quote(&o), i + 1));
        }
        // a tag alone on the first line would be an HTML block
        let tag = i <= 1 && lines[0].starts_with('<');
        if cfg.reflow && !tag && i + 1 < lines.len() && !l.ends_with("  ") && !l.ends_with('\\') {
            let next = &units(lines[i + 1])[0];
            let glued = keeps_to_its_neighbours(us.last().unwrap(), next);
            if !keeps_its_line(t) && !next.is_empty() && width(t) + 1 + width(next) <= left && !glued {
                return fails("broken-too-early", format!("source: {}\noutput: {}\nline {} has room for {next:?}", quote(&src), quote(&o), i + 1));
            }
        }
    }
    Verdict::Holds
}

/// The blocks of a document.
fn shape(doc: &str) -> Vec<String> {
    let mut v = vec![];
    for e in Parser::new_ext(doc, options()) {
        match e {
            Event::Start(Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. }) => {}
            Event::Start(t) => v.push(format!("{t:?}")),
            Event::Rule => v.push("rule".into()),
            _ => {}
        }
    }
    v
}

/// Words that are, or could be taken for, markup.
const MARKUP: &[&str] = &[
    "aa", "*bb", "cc*", "`d", "e`", "[f", "g](h)", "[i](j", "\"k\")", "-", "+", "1.", "2)", "#", "##", ">", "===", "---", "***", "|", "\\", "<b>", "</i>", "<div>", "![", "]", "&amp;",
    "```", "~~~", "\\*", "~~l~~", "[^m]", ":", "|-|", "<http://x.y>", "1.a", "#z", "<u", "v='w'>",
];

fn fit_worlds(quick: bool) -> Vec<World> {
    let ws = widths([1, 4, 6, 9, 12]);
    let mut w = vec![paragraphs("markup, three words", MARKUP, &[" ", "\n"], 2, 3, vec![Wrap::top(), container(0), container(1)], &ws)];
    if !quick {
        w.push(paragraphs("markup, four words", MARKUP, &[" "], 4, 4, vec![Wrap::top()], &ws));
    }
    w
}

// ---------------------------------------------------------------- C10

/// With a width that every line of the unwrapped output fits, nothing changes.
fn fitting(doc: &str, _: Cfg) -> Verdict {
    let o = run!(Cfg::none(), doc);
    // the formatter's own measure of a line: what the whole line takes, and no more
    let need = o.lines().map(width).max().unwrap_or(0);
    for w in [need, need + 1, need.max(200), usize::MAX] {
        let p = run!(Cfg::wrap(w), doc);
        if p != o {
            return fails("wrapped", format!("width {w}\nexpected: {}\ngot:      {}", quote(&o), quote(&p)));
        }
    }
    Verdict::Holds
}

/// With reflow, breaking the same text elsewhere gives the same output.
fn source_breaks(case: &str, cfg: Cfg) -> Verdict {
    let mut p = case.split('\u{0}');
    let (Some(first), Some(rest), Some(text)) = (p.next(), p.next(), p.next()) else { return Verdict::Vacuous };
    let wrap = Wrap::new(first, rest);
    // the text as one line
    let one = wrap.apply(text);
    if keeps_its_line(text.split(' ').next().unwrap_or("")) {
        return Verdict::Vacuous;
    }
    let events = super::relations::events(&one);
    let base = run!(cfg, &one);
    let n = text.matches(' ').count();
    let escapes = |s: &str| s.matches('\\').count();
    let flat = |e: Vec<String>| -> Vec<String> {
        // soft breaks are spaces
        let mut out: Vec<String> = vec![];
        for x in e {
            let x = if x == "SoftBreak" { "\" \"".to_string() } else { x };
            let joined = match out.last() {
                Some(l) if l.starts_with('"') && x.starts_with('"') => Some(format!("{}{}", &l[..l.len() - 1], &x[1..])),
                _ => None,
            };
            match joined {
                Some(j) => *out.last_mut().unwrap() = j,
                None => out.push(x),
            }
        }
        out
    };
    let want = flat(events);
    let mut verdict = Verdict::Vacuous;
    for mask in 1..(1u32 << n) {
        let mut k = 0;
        let t: String = text
            .chars()
            .map(|c| {
                if c == ' ' {
                    k += 1;
                    if mask >> (k - 1) & 1 == 1 {
                        return '\n';
                    }
                }
                c
            })
            .collect();
        let src = wrap.apply(&t);
        if flat(super::relations::events(&src)) != want {
            continue; // the break changes what the text means
        }
        // what needs an escape depends on what the lines of the source start with
        if escapes(&run!(Cfg::none(), &src)) != escapes(&src) {
            continue;
        }
        let o = match fmt(cfg, &src) {
            Ok(o) => o,
            Err(e) => return fails("no-output", format!("source: {}\n{e}", quote(&src))),
        };
        if o != base {
            return fails("source-breaks", format!("source: {}\non one line: {}\nthis way:    {}", quote(&src), quote(&base), quote(&o)));
        }
        verdict = Verdict::Holds;
    }
    verdict
}

fn fitting_worlds(quick: bool) -> Vec<World> {
    let mut w = text_chars(if quick { 5 } else { 6 });
    w.extend(if quick { chars_inside(4, 3) } else { chars_inside(5, 4) });
    w.push(lines("lines", LINES, 1, if quick { 4 } else { 5 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, 2)));
    w
}

fn breaks_worlds(quick: bool) -> Vec<World> {
    let ws: Vec<Cfg> = [1, 4, 7, 10, 40].into_iter().map(Cfg::reflow).collect();
    let mut w = vec![
        paragraphs("plain words", &["a", "bbb", "ccccc", "é", "日本"], &[" "], 2, 5, single_stacks(0), &(0..=14).map(Cfg::reflow).collect::<Vec<_>>()),
        paragraphs("plain words in containers", &["a", "bbb", "日本"], &[" "], 2, 5, single_stacks(2), &ws),
        paragraphs("markup, three words", MARKUP, &[" "], 2, 3, vec![Wrap::top(), container(0), container(1)], &ws),
    ];
    if !quick {
        // (no containers: their first line may be one that is not filled)
        w.push(paragraphs("markup, four words", MARKUP, &[" "], 4, 4, vec![Wrap::top()], &ws[1..4]).without(|d| d[2..].starts_with(['>', '-', '+', '1', '2'])));
    }
    w
}

// ---------------------------------------------------------------- C11

/// Everything that is not a paragraph, as it is spelled.
fn other_blocks(doc: &str) -> Vec<String> {
    let mut cb = |b: BrokenLink<'_>| Some((b.reference.into_string().into(), CowStr::from("")));
    let mut v = vec![];
    for (e, r) in Parser::new_with_broken_link_callback(doc, options(), Some(&mut cb)).into_offset_iter() {
        if let Event::Start(Tag::Heading { .. } | Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::Table(_) | Tag::MetadataBlock(_)) = e {
            let s = &doc[r];
            if !s.lines().next().unwrap_or("").contains("markdown") {
                v.push(s.trim_end().to_string());
            }
        }
    }
    v
}

/// Is there text with several spaces between two words?
fn has_wide_gaps(doc: &str) -> bool {
    let mut cb = |b: BrokenLink<'_>| Some((b.reference.into_string().into(), CowStr::from("")));
    let mut text = String::new();
    for e in Parser::new_with_broken_link_callback(doc, options(), Some(&mut cb)) {
        match e {
            Event::Text(t) | Event::Code(t) | Event::InlineHtml(t) => text.push_str(&t),
            Event::Start(Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. }) => {}
            Event::End(TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough | TagEnd::Link | TagEnd::Image) => {}
            _ => text.push('\n'),
        }
    }
    text.contains("  ") || text.contains(" \n")
}

fn wrapped(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    if let Some(d) = same_meaning(doc, &o) {
        return fails("meaning-changed", format!("output: {}\n{d}", quote(&o)));
    }
    let o2 = match fmt(cfg, &o) {
        Ok(o2) => o2,
        Err(e) => return fails("no-output", format!("formatted: {}\nformatting that again: {e}", quote(&o))),
    };
    // (a line break takes the place of however many spaces)
    if o2 != o && !(cfg.reflow && has_wide_gaps(doc)) {
        return fails("not-idempotent", format!("once:  {}\ntwice: {}", quote(&o), quote(&o2)));
    }
    let (a, b) = (other_blocks(&run!(Cfg::none(), doc)), other_blocks(&o));
    if a != b {
        return fails("other-blocks-changed", format!("output: {}\nwithout a width: {a:?}\nwith it: {b:?}", quote(&o)));
    }
    Verdict::Holds
}

/// The same for cases of a container and a text.
fn wrapped_text(case: &str, cfg: Cfg) -> Verdict {
    let mut p = case.split('\u{0}');
    let (Some(first), Some(rest), Some(text)) = (p.next(), p.next(), p.next()) else { return Verdict::Vacuous };
    let src = Wrap::new(first, rest).apply(text);
    match wrapped(&src, cfg) {
        Verdict::Fails { kind, detail } => fails(kind, format!("source: {}\n{detail}", quote(&src))),
        v => v,
    }
}

fn text_worlds(quick: bool) -> Vec<World> {
    let ws = widths([1, 4, 6, 9, 12]);
    let mut w = vec![paragraphs("markup, three words", MARKUP, &[" ", "\n", "  \n"], 2, 3, vec![Wrap::top(), container(0), container(1)], &ws).without(|d| {
        // what comes out as the delimiter row of a table
        d.contains("<u\n: >") || d.contains("  \n|-|") || d.contains("\\\n|-|") || (d.contains("![") && d.contains("\\\n]"))
    })];
    if !quick {
        // (white space at the end of a label goes, and what was before it may become a delimiter)
        w.push(paragraphs("markup, four words", MARKUP, &[" "], 4, 4, vec![Wrap::top()], &ws).without(|d| d.contains(" ]") || d.contains("<u ![") || d.contains("<u [f")));
    }
    w
}

/// The words of link reference definitions, in text that is none
fn definition_texts(quick: bool) -> Vec<World> {
    const DEF: &[&str] = &["[a]:", "[b", "c]:", "[c]:d", "u", "<v w>", "\"t\"", "\"t", "u\"", "(t)", "'t'", "x"];
    let ws = widths([1, 4, 7, 10, 14]);
    vec![
        paragraphs("words of definitions", DEF, &[" "], 3, if quick { 4 } else { 5 }, vec![Wrap::top(), container(0)], &ws),
        paragraphs("words of definitions on lines", DEF, &[" ", "\n"], 3, if quick { 4 } else { 5 }, vec![Wrap::top()], &ws),
    ]
}

pub fn document_worlds(quick: bool) -> Vec<World> {
    let ws = widths([3, 8]);
    let mut w = vec![product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, if quick { 1 } else { 2 })).cfgs(&ws)];
    for mut x in text_chars(if quick { 4 } else { 5 }).into_iter().chain(if quick { chars_inside(4, 3) } else { chars_inside(5, 4) }) {
        x.cfgs = ws.clone();
        // the checkbox of an empty item at the end: see known-findings.txt
        w.push(x.without(|d| d.trim_end_matches(' ').ends_with("[ ]")));
    }
    w.push(lines("lines", LINES, 1, if quick { 3 } else { 4 }).cfgs(&ws));
    // several spaces in the text of a link: see known-findings.txt
    w.push(list("spaces in the text of a link", v(&["aa [e  f](g)", "aa [ef](g)", "aa [e f](g)"])).cfgs(&[Cfg::wrap(11)]));
    w
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("C09", "Width bound").part(filling_worlds, plain_words).part(super::scale::fillings, plain_words).part(fit_worlds, tight_fit),
        Check::new("C10", "Nothing is wrapped needlessly").part(fitting_worlds, fitting).part(super::scale::sources, fitting).part(super::exotic::sources, fitting).part(breaks_worlds, source_breaks),
        Check::new("C11", "Wrapping keeps the meaning").part(text_worlds, wrapped_text).part(definition_texts, wrapped_text).part(document_worlds, wrapped).part(super::scale::wrapped, wrapped).part(super::exotic::wrapped, wrapped).part(super::scale::reflown, wrapped).part(over_indented_wrapped, wrapped),
    ]
}
