//! Aspects of a document: what one kind of construct says, in document order.

use crate::canon::{canon_code, collapse, options};
use pulldown_cmark::{BrokenLink, CodeBlockKind, CowStr, Event, LinkType, Parser, Tag, TagEnd};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Code,
    Lists,
    Headings,
    Tables,
    Links,
    Html,
    Footnotes,
    Inline,
}

fn leading_run(s: &str, cs: &[char]) -> String {
    let Some(f) = s.chars().next().filter(|c| cs.contains(c)) else { return String::new() };
    s.chars().take_while(|c| *c == f).collect()
}

fn marker(s: &str) -> String {
    let s = s.trim_start();
    let digits: String = s.chars().take_while(char::is_ascii_digit).collect();
    let d = s.chars().nth(digits.len()).unwrap_or(' ');
    format!("{digits}{d}")
}

fn link_kind(t: LinkType) -> &'static str {
    match t {
        LinkType::Inline => "inline",
        LinkType::Reference => "reference",
        LinkType::ReferenceUnknown => "reference?",
        LinkType::Collapsed => "collapsed",
        LinkType::CollapsedUnknown => "collapsed?",
        LinkType::Shortcut => "shortcut",
        LinkType::ShortcutUnknown => "shortcut?",
        LinkType::Autolink => "auto",
        LinkType::Email => "email",
        LinkType::WikiLink { .. } => "wiki",
    }
}

/// Text collected while inside of something.
struct Open {
    tag: String,
    text: String,
}

pub fn project(src: &str, a: Aspect) -> Vec<String> {
    let mut cb = |_: BrokenLink<'_>| Some((CowStr::from(""), CowStr::from("")));
    let parser = Parser::new_with_broken_link_callback(src, options(), Some(&mut cb));
    let mut out: Vec<String> = vec![];
    let mut open: Vec<Open> = vec![];
    let mut depth = 0usize;
    let mut note_depth: Vec<usize> = vec![];
    for (ev, r) in parser.into_offset_iter() {
        let s = &src[r.clone()];
        let add = |open: &mut Vec<Open>, t: &str| {
            for o in open.iter_mut() {
                o.text.push_str(t);
            }
        };
        match ev {
            Event::Start(tag) => {
                match (a, &tag) {
                    (Aspect::Code, Tag::CodeBlock(k)) => {
                        let fence = leading_run(s, &['`', '~']);
                        let t = match k {
                            CodeBlockKind::Indented => "indented".to_string(),
                            CodeBlockKind::Fenced(i) => format!("{fence} {i:?}"),
                        };
                        open.push(Open { tag: format!("{t} at depth {depth}"), text: String::new() });
                    }
                    (Aspect::Lists, Tag::List(n)) => out.push(format!("{depth} list {n:?}")),
                    (Aspect::Lists, Tag::Item) => out.push(format!("{depth} item {}", marker(s))),
                    (Aspect::Headings, Tag::Heading { level, id, classes, attrs }) => {
                        let t = s.trim_end();
                        let style = if t.starts_with('#') && leading_run(t, &['#']).len() == *level as usize && !t.contains('\n') {
                            "atx".to_string()
                        } else {
                            let u = t.lines().last().unwrap_or("").trim_start_matches(['>', ' ', '\t']);
                            format!("setext {u}")
                        };
                        open.push(Open {
                            tag: format!("{level} {style} id={id:?} classes={classes:?} attrs={attrs:?}"),
                            text: String::new(),
                        });
                    }
                    (Aspect::Tables, Tag::Table(al)) => out.push(format!("table {al:?}")),
                    (Aspect::Tables, Tag::TableHead) => out.push("head".into()),
                    (Aspect::Tables, Tag::TableRow) => out.push("row".into()),
                    (Aspect::Tables, Tag::TableCell) => open.push(Open { tag: "cell".into(), text: String::new() }),
                    (
                        Aspect::Links,
                        Tag::Link { link_type, dest_url, title, id } | Tag::Image { link_type, dest_url, title, id },
                    ) => {
                        let image = if matches!(tag, Tag::Image { .. }) { "image " } else { "" };
                        let label = match link_type {
                            LinkType::ReferenceUnknown | LinkType::Reference => {
                                collapse(id).trim_end_matches('\\').to_string()
                            }
                            _ => String::new(),
                        };
                        open.push(Open {
                            tag: format!("{image}{} <{dest_url}> {:?} [{label}]", link_kind(*link_type), collapse(title)),
                            text: String::new(),
                        });
                    }
                    (Aspect::Html, Tag::HtmlBlock) => out.push("html block".into()),
                    (Aspect::Html, Tag::MetadataBlock(k)) => {
                        open.push(Open { tag: format!("metadata {k:?} {}", s.lines().next().unwrap_or("")), text: String::new() })
                    }
                    (Aspect::Footnotes, Tag::FootnoteDefinition(l)) => {
                        out.push(format!("note {l}"));
                        note_depth.push(depth);
                    }
                    // the comments that keep a list from absorbing code
                    (Aspect::Footnotes, Tag::HtmlBlock) if s.starts_with("<!-- Don't absorb code") || s.starts_with("<!-- Consider a fenced") => {}
                    (Aspect::Footnotes, t) if !note_depth.is_empty() => match t {
                        Tag::Paragraph
                        | Tag::Heading { .. }
                        | Tag::BlockQuote(_)
                        | Tag::CodeBlock(_)
                        | Tag::HtmlBlock
                        | Tag::List(_)
                        | Tag::Item
                        | Tag::Table(_) => {
                            let name: String =
                                format!("{t:?}").chars().take_while(|c| c.is_ascii_alphabetic()).collect();
                            out.push(format!("{} {name}", depth - note_depth[note_depth.len() - 1]));
                        }
                        _ => {}
                    },
                    (Aspect::Inline, Tag::Emphasis | Tag::Strong | Tag::Strikethrough) => {
                        let run = leading_run(s, &['*', '_', '~']);
                        let n = match tag {
                            Tag::Emphasis => 1,
                            Tag::Strong => 2,
                            _ => run.len(),
                        };
                        let d: String = run.chars().take(n).collect();
                        out.push(format!("open {d}"));
                    }
                    _ => {}
                }
                depth += 1;
            }
            Event::End(tag) => {
                depth -= 1;
                match (a, tag) {
                    (Aspect::Code, TagEnd::CodeBlock) => {
                        let o = open.pop().unwrap();
                        out.push(format!("{} {:?}", o.tag, canon_code(&o.text, o.tag.starts_with("indented"))));
                    }
                    (Aspect::Html, TagEnd::MetadataBlock(_)) => {
                        let o = open.pop().unwrap();
                        out.push(format!("{} {:?}", o.tag, o.text));
                    }
                    (Aspect::Headings, TagEnd::Heading(_))
                    | (Aspect::Tables, TagEnd::TableCell)
                    | (Aspect::Links, TagEnd::Link | TagEnd::Image) => {
                        let o = open.pop().unwrap();
                        let t = collapse(&o.text);
                        // an undefined reference with a blank text is no link for any reader
                        if !(t.is_empty() && (o.tag.starts_with("shortcut? ") || o.tag.starts_with("collapsed? "))) {
                            out.push(format!("{} {t:?}", o.tag));
                        }
                    }
                    (Aspect::Footnotes, TagEnd::FootnoteDefinition) => {
                        out.push("end of note".into());
                        note_depth.pop();
                    }
                    (Aspect::Inline, TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough) => {
                        out.push("close".into())
                    }
                    _ => {}
                }
            }
            Event::Text(t) => {
                add(&mut open, &t);
                if a == Aspect::Inline && s.starts_with('&') && s.ends_with(';') && &*t != s {
                    out.push(format!("entity {s}"));
                }
            }
            Event::Code(t) => {
                add(&mut open, &format!("`{}`", collapse(&t)));
                if a == Aspect::Inline {
                    out.push(format!("{} {}", leading_run(s, &['`']), collapse(&t)));
                }
            }
            Event::Html(t) => {
                if a == Aspect::Html {
                    out.extend(t.lines().map(str::trim).filter(|l| !l.is_empty()).map(|l| format!("  {l}")));
                }
            }
            Event::InlineHtml(t) => {
                let t = if t.starts_with("<?") || t.starts_with("<!") {
                    t.lines().map(|l| l.trim_start_matches(['>', ' ']).to_string() + "\n").collect::<String>()
                } else {
                    t.to_string()
                };
                add(&mut open, &t);
                if matches!(a, Aspect::Html | Aspect::Inline) {
                    out.push(format!("inline {}", collapse(&t)));
                }
            }
            Event::SoftBreak => add(&mut open, " "),
            Event::HardBreak => {
                if a == Aspect::Inline {
                    // inside of links breaks become spaces
                    out.push(format!("break {}", if s.starts_with('\\') { "\\" } else { "spaces" }));
                }
                add(&mut open, if a == Aspect::Links { " " } else { " <br> " })
            }
            Event::FootnoteReference(l) => {
                add(&mut open, &format!("[^{l}]"));
                if a == Aspect::Footnotes {
                    out.push(format!("reference {l}"));
                }
            }
            Event::TaskListMarker(b) => {
                if a == Aspect::Lists {
                    out.push(format!("task {b}"));
                }
            }
            Event::Rule => {
                if a == Aspect::Footnotes && !note_depth.is_empty() {
                    out.push(format!("{} rule", depth - note_depth[note_depth.len() - 1]));
                }
            }
            _ => {}
        }
    }
    if a == Aspect::Html {
        out.retain(|l| {
            l != "  <!-- Don't absorb code block into list -->" && l != "  <!-- Consider a fenced code block instead -->"
        });
        // the guard comments' own block
        out.dedup_by(|x, y| x == "html block" && y == "html block");
        if out.last().is_some_and(|l| l == "html block") {
            out.pop();
        }
    }
    out
}
