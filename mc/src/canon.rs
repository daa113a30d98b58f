//! Canonical form of the *meaning* of a Markdown document: what a CommonMark/GFM renderer would
//! show, with the differences a formatter is entitled to introduce removed.
//!
//! Two documents with equal canonical forms render to the same HTML up to insignificant
//! whitespace.  The normalisations applied are listed in DESIGN.md ("Meaning").

use pulldown_cmark::{BrokenLink, CodeBlockKind, CowStr, Event, LinkType, Options, Parser, Tag, TagEnd};
use std::fmt::Write;

pub fn options() -> Options {
    // written out, not taken from the crate under test
    Options::ENABLE_TABLES
        | Options::ENABLE_FOOTNOTES
        | Options::ENABLE_STRIKETHROUGH
        | Options::ENABLE_TASKLISTS
        | Options::ENABLE_HEADING_ATTRIBUTES
        | Options::ENABLE_PLUSES_DELIMITED_METADATA_BLOCKS
        | Options::ENABLE_YAML_STYLE_METADATA_BLOCKS
}

/// How link references without a definition are read.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum View {
    /// Every `[label]` is a link, as the formatter itself assumes (the definition may live elsewhere).
    AllLinks,
    /// Plain CommonMark/GFM rendering: undefined references are text.
    Plain,
}

const OPEN: char = '\u{1}';
const CLOSE: char = '\u{2}';
const BR: char = '\u{3}';

struct Canon {
    out: String,
    view: View,
    /// inside a code block / html block / metadata block: verbatim text is collected here
    verbatim: Option<String>,
    link_depth: usize,
    /// swallow whitespace directly after an opening of a link
    swallow_ws: bool,
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}')
}

impl Canon {
    fn text(&mut self, t: &str) {
        for c in t.chars() {
            if is_ws(c) {
                self.space();
            } else {
                self.out.push(c);
                self.swallow_ws = false;
            }
        }
    }
    fn space(&mut self) {
        if self.swallow_ws || self.out.ends_with([' ', '\n', BR]) {
            return;
        }
        self.out.push(' ');
    }
    fn trim_end(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
    }
    fn block_open(&mut self, name: &str) {
        self.trim_end();
        self.out.push('\n');
        self.out.push(OPEN);
        self.out.push_str(name);
        self.out.push('\n');
        self.swallow_ws = false;
    }
    fn block_close(&mut self) {
        self.trim_end();
        self.out.push('\n');
        self.out.push(CLOSE);
        self.out.push('\n');
        self.swallow_ws = false;
    }
    fn inline_open(&mut self, name: &str) {
        self.out.push(OPEN);
        self.out.push_str(name);
        self.out.push(OPEN);
    }
    fn inline_close(&mut self) {
        self.out.push(CLOSE);
        self.swallow_ws = false;
    }
}

pub fn collapse(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for w in s.split(is_ws).filter(|w| !w.is_empty()) {
        if !o.is_empty() {
            o.push(' ');
        }
        o.push_str(w);
    }
    o
}

/// What may stand on a blank line
const BLANK: [char; 4] = [' ', '\t', '\u{b}', '\u{c}'];

/// Code: blank lines are blank whatever white space they hold; blank lines at the end do not count.
/// The end of indented code is as trimmed as that of a paragraph.
pub fn canon_code(s: &str, indented: bool) -> String {
    let mut o = String::with_capacity(s.len());
    for l in s.lines() {
        if !l.chars().all(|c| BLANK.contains(&c)) {
            o.push_str(l);
        }
        o.push('\n');
    }
    while o.ends_with('\n') || indented && o.ends_with(BLANK) {
        o.pop();
    }
    o
}

fn label_norm(s: &str) -> String {
    // unescaped-vs-escaped trailing backslashes inside a label are the formatter's own repair
    collapse(s).trim_end_matches('\\').to_string()
}

pub fn canon(src: &str, view: View) -> String {
    let mut cb = |_: BrokenLink<'_>| Some((CowStr::from(""), CowStr::from("")));
    let parser = match view {
        View::AllLinks => Parser::new_with_broken_link_callback(src, options(), Some(&mut cb)),
        View::Plain => Parser::new_with_broken_link_callback(src, options(), None),
    };
    let mut c = Canon {
        out: String::with_capacity(src.len() * 3),
        view,
        verbatim: None,
        link_depth: 0,
        swallow_ws: false,
    };
    let mut indented = false;
    for ev in parser {
        match ev {
            Event::Text(t) => {
                if let Some(v) = c.verbatim.as_mut() {
                    v.push_str(&t);
                } else {
                    c.text(&t);
                }
            }
            Event::Html(t) => {
                if let Some(v) = c.verbatim.as_mut() {
                    v.push_str(&t);
                } else {
                    c.text(&t);
                }
            }
            Event::InlineHtml(t) => {
                c.inline_open("html");
                // the parser leaves the markers of quotes in instructions and declarations
                let t = if t.starts_with("<!") && t[2..].starts_with(|c: char| c.is_ascii_alphabetic()) {
                    // ... where the first one is the end
                    t.trim_end_matches(|c| c == '>' || is_ws(c)).to_string() + " >"
                } else if t.starts_with("<?") || t.starts_with("<!") {
                    t.lines().map(|l| l.trim_start_matches(['>', ' ']).to_string() + "\n").collect::<String>()
                } else {
                    t.to_string()
                };
                let s = collapse(&t);
                c.out.push_str(&s);
                c.inline_close();
            }
            Event::Code(t) => {
                c.inline_open("code");
                let s = collapse(&t);
                c.out.push_str(&s);
                c.inline_close();
            }
            Event::SoftBreak => c.space(),
            Event::HardBreak => {
                if c.link_depth > 0 {
                    c.space()
                } else {
                    c.trim_end();
                    c.out.push(BR);
                }
            }
            Event::Rule => {
                c.block_open("hr");
                c.block_close();
            }
            Event::FootnoteReference(l) => {
                c.inline_open("fnref");
                c.out.push_str(&l);
                c.inline_close();
            }
            Event::TaskListMarker(b) => {
                c.inline_open(if b { "task-x" } else { "task-" });
                c.inline_close();
                c.swallow_ws = true;
            }
            Event::InlineMath(t) | Event::DisplayMath(t) => c.text(&t),
            Event::Start(tag) => match tag {
                Tag::Paragraph => c.block_open("p"),
                Tag::Heading { level, id, classes, attrs } => {
                    let mut n = format!("{level}");
                    if let Some(id) = id {
                        let _ = write!(n, " #{id}");
                    }
                    for k in &classes {
                        let _ = write!(n, " .{k}");
                    }
                    for (k, v) in &attrs {
                        let _ = write!(n, " {k}={v:?}");
                    }
                    c.block_open(&n)
                }
                Tag::BlockQuote(_) => c.block_open("bq"),
                Tag::CodeBlock(kind) => {
                    match &kind {
                        CodeBlockKind::Indented => c.block_open("icode"),
                        CodeBlockKind::Fenced(info) => c.block_open(&format!("fcode {info}")),
                    }
                    indented = matches!(kind, CodeBlockKind::Indented);
                    c.verbatim = Some(String::new());
                }
                Tag::HtmlBlock => {
                    c.block_open("html");
                    c.verbatim = Some(String::new());
                }
                Tag::List(None) => c.block_open("ul"),
                Tag::List(Some(n)) => c.block_open(&format!("ol {n}")),
                Tag::Item => c.block_open("li"),
                Tag::FootnoteDefinition(l) => c.block_open(&format!("fn {l}")),
                Tag::Table(a) => c.block_open(&format!("table {a:?}")),
                Tag::TableHead => c.block_open("th"),
                Tag::TableRow => c.block_open("tr"),
                Tag::TableCell => c.block_open("td"),
                Tag::Emphasis => c.inline_open("em"),
                Tag::Strong => c.inline_open("strong"),
                Tag::Strikethrough => c.inline_open("del"),
                Tag::Link { link_type, dest_url, title, id } | Tag::Image { link_type, dest_url, title, id } => {
                    let k = match link_type {
                        LinkType::Inline => "inline",
                        LinkType::Reference | LinkType::ReferenceUnknown => "ref",
                        LinkType::Collapsed | LinkType::CollapsedUnknown => "collapsed",
                        LinkType::Shortcut | LinkType::ShortcutUnknown => "shortcut",
                        LinkType::Autolink => "auto",
                        LinkType::Email => "email",
                        LinkType::WikiLink { .. } => "wiki",
                    };
                    let unknown = matches!(
                        link_type,
                        LinkType::ReferenceUnknown | LinkType::CollapsedUnknown | LinkType::ShortcutUnknown
                    );
                    let id = if link_type == LinkType::ReferenceUnknown { label_norm(&id) } else { String::new() };
                    let n = format!("{k}{} <{dest_url}> {:?} {id}", if unknown { "?" } else { "" }, collapse(&title));
                    c.inline_open(&n);
                    c.link_depth += 1;
                    c.swallow_ws = true;
                }
                Tag::MetadataBlock(k) => {
                    c.block_open(&format!("meta {k:?}"));
                    c.verbatim = Some(String::new());
                }
                other => {
                    let _ = write!(c.out, "{other:?}");
                }
            },
            Event::End(tag) => match tag {
                TagEnd::CodeBlock => {
                    let v = c.verbatim.take().unwrap_or_default();
                    let v = canon_code(&v, indented);
                    c.out.push_str(&v);
                    c.block_close();
                }
                TagEnd::MetadataBlock(_) => {
                    let v = c.verbatim.take().unwrap_or_default();
                    c.out.push_str(&v);
                    c.block_close();
                }
                TagEnd::HtmlBlock => {
                    let v = c.verbatim.take().unwrap_or_default();
                    for l in v.lines() {
                        let l = l.trim();
                        if !l.is_empty() {
                            c.out.push_str(l);
                            c.out.push('\n');
                        }
                    }
                    c.block_close();
                }
                TagEnd::Link | TagEnd::Image => {
                    c.trim_end();
                    // an undefined reference whose text is blank is no link for any reader
                    let blank = [("shortcut", "[]"), ("collapsed", "[][]")].into_iter().find_map(|(k, t)| {
                        c.out.strip_suffix(format!("\u{1}{k}? <> \"\" \u{1}").as_str()).map(|o| (o.len(), t))
                    });
                    if let Some((p, t)) = blank {
                        c.out.truncate(p);
                        c.out.push_str(t);
                        c.link_depth -= 1;
                        c.swallow_ws = false;
                        continue;
                    }
                    c.link_depth -= 1;
                    c.inline_close();
                }
                TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough => c.inline_close(),
                _ => c.block_close(),
            },
        }
    }
    let _ = c.view;
    c.out
}

/// The link reference definitions a document defines: label -> (destination, title).
pub fn definitions(src: &str) -> Vec<(String, String, String)> {
    let parser = Parser::new_ext(src, options());
    let mut v: Vec<_> = parser
        .reference_definitions()
        .iter()
        .map(|(l, d)| {
            (
                collapse(l).to_lowercase(),
                d.dest.to_string(),
                d.title.as_ref().map(|t| collapse(t)).unwrap_or_default(),
            )
        })
        .collect();
    v.sort();
    v
}

/// The formatter documents that it separates a list from a following indented code block with
/// these two comments; they are not content.
pub fn strip_guard_comments(c: &str) -> String {
    c.replace("\n\u{1}html\n<!-- Don't absorb code block into list -->\n\n\u{2}\n", "")
        .replace("\n\u{1}html\n<!-- Consider a fenced code block instead -->\n\n\u{2}\n", "")
}
