//! C16 the white space of the output.
use super::Check;
use crate::canon::options;
use crate::engine::{fails, Cfg, Verdict, World};
use crate::json::quote;
use crate::run;
use crate::worlds::*;
use pulldown_cmark::{BrokenLink, CowStr, Event, Parser, Tag, TagEnd};
use std::ops::Range;

/// White space to Markdown. Any other is text.
const WHITE: [char; 6] = [' ', '\t', '\n', '\r', '\u{b}', '\u{c}'];

/// What comes out as it went in: code, HTML and metadata; and where hard breaks are.
fn kept(doc: &str) -> (Vec<Range<usize>>, Vec<usize>) {
    let mut cb = |b: BrokenLink<'_>| Some((b.reference.into_string().into(), CowStr::from("")));
    let (mut v, mut breaks) = (vec![], vec![]);
    for (e, r) in Parser::new_with_broken_link_callback(doc, options(), Some(&mut cb)).into_offset_iter() {
        match e {
            Event::Start(Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::MetadataBlock(_)) | Event::Code(_) | Event::InlineHtml(_) => v.push(r),
            Event::HardBreak => breaks.push(r.start),
            _ => {}
        }
    }
    (v, breaks)
}

/// The parser sometimes reports a paragraph with nothing in it after a definition.
fn has_empty_paragraph(doc: &str) -> bool {
    let mut last_started = false;
    for e in Parser::new_ext(doc, options()) {
        if last_started && matches!(e, Event::End(TagEnd::Paragraph)) {
            return true;
        }
        last_started = matches!(e, Event::Start(Tag::Paragraph));
    }
    false
}

pub fn clean(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    let visible = doc.trim_end_matches(WHITE);
    if visible.is_empty() {
        return if o.trim_matches(WHITE).is_empty() { Verdict::Vacuous } else { fails("invented", quote(&o)) };
    }
    let want = usize::from(doc[visible.len()..].contains('\n'));
    let have = o.len() - o.trim_end_matches('\n').len();
    if have != want {
        return fails("final-newline", format!("output: {}\nnewlines at the end: {have}, expected {want}", quote(&o)));
    }
    if o.starts_with('\n') || o.lines().next().is_some_and(|l| l.trim_matches(WHITE).is_empty()) {
        return fails("leading-blank", format!("output: {}", quote(&o)));
    }
    if has_empty_paragraph(doc) {
        return Verdict::Vacuous;
    }
    let (ranges, breaks) = kept(&o);
    let mut at = 0;
    for l in o.split('\n') {
        let t = l.trim_end_matches(WHITE);
        let end = at + l.len();
        let inside = ranges.iter().any(|r| r.start < end && at + t.len() < r.end && !(r.end <= at));
        if !inside {
            if t.is_empty() && !l.is_empty() {
                return fails("blank-line", format!("output: {}\nline {l:?}", quote(&o)));
            }
            let spaces = l.len() - t.len();
            let is_break = l.ends_with("  ") && breaks.iter().any(|b| (at..=end).contains(b));
            if spaces > 0 && !is_break {
                return fails("trailing", format!("output: {}\nline {l:?}", quote(&o)));
            }
        }
        at = end + 1;
    }
    Verdict::Holds
}

fn worlds(quick: bool) -> Vec<World> {
    let mut w = text_chars(if quick { 5 } else { 7 });
    w.extend(if quick { chars_inside(5, 4) } else { chars_inside(6, 5) });
    w.push(lines("lines", LINES, 1, if quick { 4 } else { 5 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, 2)));
    w.push(product(
        "white space around blocks",
        &[&["", "\n", "  \n", " \n\n"], LEAVES, &["", " ", "   ", "\n", " \n", "\n   ", "\n\n\n", "  \n  \n"]],
    ).wraps(stacks(8, 0, 2)).cfgs(&[Cfg::none(), Cfg::wrap(6), Cfg::reflow(9)]));
    w
}

fn configured(quick: bool) -> Vec<World> {
    let mut w: Vec<World> = text_chars(if quick { 4 } else { 5 });
    w.push(lines("lines", LINES, 1, if quick { 3 } else { 4 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, if quick { 1 } else { 2 })));
    for x in &mut w {
        x.cfgs = vec![Cfg::wrap(1), Cfg::wrap(6), Cfg::reflow(8)];
    }
    w
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("C16", "White space is clean").part(worlds, clean).part(configured, clean).part(super::scale::sources, clean).part(super::scale::wrapped, clean).part(super::exotic::sources, clean).part(super::exotic::wrapped, clean)]
}
