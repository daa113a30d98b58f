//! C18 links and images, C27 inline markup and escapes.
use super::trees::oracle;
use super::Check;
use crate::engine::{fails, Cfg, Gen, Verdict, World, Wrap};
use crate::json::quote;
use crate::project::{project, Aspect};
use crate::run;
use crate::worlds::*;

/// The document is in the canonical spelling: formatting must not change a byte.
fn unchanged(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    if o != doc {
        return fails("spelling", format!("output: {}", quote(&o)));
    }
    Verdict::Holds
}

fn same(doc: &str, cfg: Cfg, a: Aspect, kind: &'static str) -> Verdict {
    let x = project(doc, a);
    let o = run!(cfg, doc);
    let y = project(&o, a);
    if x != y {
        return fails(kind, format!("output: {}\nbefore: {x:?}\nafter:  {y:?}", quote(&o)));
    }
    if x.is_empty() { Verdict::Vacuous } else { Verdict::Holds }
}

fn same_links(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Links, "links-changed")
}
fn same_inline(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Inline, "inline-changed")
}

/// The places inline content can stand in, in canonical spelling.
fn places() -> Vec<Wrap> {
    let mut v = vec![
        Wrap::top(),
        Wrap::around("before ", "", "", " after"),
        Wrap::around("", "# ", "", ""),
        Wrap::around("*", "", "", "*"),
        Wrap::around("a **b ", "", "", " c** d"),
        Wrap::around("first\n", "", "", "\nlast"),
        Wrap::around("p\n\n", "> ", "> ", "\n> more\n\np"),
        Wrap::around("", "- [x] ", "  ", ""),
        Wrap::around("~~x ", "", "", " y~~"),
        Wrap::around("x[^n]\n\n", "[^n]:\n    ", "    ", ""),
        Wrap::around("", "", "", "\n==="),
    ];
    v.extend(canonical_stacks(8, 1, 2));
    v
}

/// Stacks of containers in canonical spelling: a quote directly in a quote has no space in between.
fn canonical_stacks(kinds: usize, min: usize, max: usize) -> Vec<Wrap> {
    let mut v = stacks(kinds, min, max);
    v.retain(|w| w.first.matches("[^n]").count() < 2);
    for w in &mut v {
        for s in [&mut w.first, &mut w.rest, &mut w.blank] {
            *s = s.replace("> > ", ">> ").replace("> > ", ">> ");
        }
    }
    v
}

const TEXT: &[&str] = &[
    "a", "a b", "*a*", "`]`", "a\\]b", "\\[", "", "é 世", "a [b] c", "&amp;", "<b>x</b>", "**a** _b_", "\\\\", "~~a~~", "a!", "a_b*c", "http://u.v", "1.", "#", "- a",
];
const DEST: &[&str] = &[
    "b", "/b/c.d?e=f&g=h#i", "b\\)", "b(c)d", "<b c>", "b&amp;c", "é", "b%20c", "<b)>", "#", "b\\\\", "http://a.b/_c_*d*", "b\\_c", "<b \\\\>", "(b)", "b\"c", "b'c",
];
const TITLE: &[&str] = &[
    "", " \"t\"", " 't'", " (t)", " \"t u\"", " \"t\\\"u\"", " 't\"u'", " \"t'u\"", " (t\\)u)", " \"(t)\"", " \"é\"", " \"&quot;\"", " \"\"", " \"\\\\\"", " \"t *u*\"", " '\\''",
];

fn inline_links(quick: bool) -> Vec<World> {
    let mut w = vec![product("inline links", &[&["[", "!["], TEXT, &["]("], DEST, TITLE, &[")"]]).wraps(if quick { places()[..11].to_vec() } else { places() })];
    w.push(
        product("two links", &[&["[a](b", "![a](<b c>", "[a](b(c)"], TITLE, &[")"], &["", " ", "\n", "!", "](", "\\"], &["[*d* `e`](f", "![](g"], TITLE, &[")"]])
            .without(|d| d.contains("\\!") || d.contains("\\["))
            .wraps(vec![Wrap::top(), Wrap::new("> ", "> "), Wrap::new("* ", "  "), container(5)]),
    );
    w.push(
        product(
            "a link or an image in a link",
            &[&["[a ", "[", "![a ", "![ "], &["![", "`x` ![", "*y* !["], TEXT, &["]("], DEST, &["", " \"t\"", " 'u'"], &[")"], &["", " b", " *c*"], &["]("], &["d", "<d e>", "d(f)"], TITLE, &[")"]],
        )
        .without(|d| d.starts_with("![ "))
        .wraps(vec![Wrap::top(), Wrap::new("> * ", ">   ")]),
    );
    w.push(
        product("autolinks", &[&["", "x ", "(", "**"], &["<http://a.b>", "<https://a.b/c_d_e?f=*g*>", "<mailto:a@b.c>", "<a@b.c>", "<a+b:c>", "<ftp://x\\y>", "<http://é>"], &["", " y", ")", "**", "."]])
            .without(|d| d.starts_with("**") != d.ends_with("**"))
            .wraps(places()),
    );
    w
}

/// Spellings of inline links that are brought into shape.
fn link_layouts(quick: bool) -> Vec<World> {
    let texts = ["a", "a *b*", "`c` d", "![i](j)", "é"];
    let sp_text = [("", ""), (" ", ""), ("", " "), ("  ", " "), ("\n", ""), ("", "\n")];
    let before = ["", " ", "   ", "\n"];
    let between = [" ", "   ", "\n", " \n "];
    let dests: &[(&str, &str)] = &[("b", "b"), ("<b>", "b"), ("<b c>", "<b c>"), ("b(c)", "b(c)"), ("<b(c)>", "b(c)"), ("b\\)", "b\\)"), ("<é>", "é")];
    let titles = ["", "\"t\"", "'t'", "(t)", "\"t\\\"u v\"", "\"\""];
    let wraps: Vec<(&str, &str)> = vec![("", ""), ("> ", "> "), ("* ", "  "), ("10) > ", "    > "), ("[^n]:\n    ", "    ")];
    let wraps = if quick { wraps[..4].to_vec() } else { wraps };
    let mut docs = vec![];
    for t in texts {
        for (l, r) in sp_text {
            for b in before {
                for bt in between {
                    for (d, want) in dests {
                        for ti in titles {
                            for after in before {
                                if ti.is_empty() && bt != " " {
                                    continue;
                                }
                                let src = if ti.is_empty() {
                                    format!("x [{l}{t}{r}]({b}{d}{after}) y")
                                } else {
                                    format!("x [{l}{t}{r}]({b}{d}{bt}{ti}{after}) y")
                                };
                                let want = if ti.is_empty() { format!("x [{t}]({want}) y") } else { format!("x [{t}]({want} {ti}) y") };
                                docs.push((src, want));
                            }
                        }
                    }
                }
            }
        }
    }
    wraps
        .into_iter()
        .map(|(f, r)| {
            let w = Wrap::new(f, r);
            let docs = docs.iter().map(|(s, e)| format!("{}\u{0}{}", w.apply(s), w.apply(e))).collect();
            list(&format!("layouts of inline links in {f:?}"), docs)
        })
        .collect()
}

/// Reference links and their definitions.
fn references(quick: bool) -> Vec<World> {
    let labels: &[&str] = &["r", "R s", "é", "a\\]b", "1", "r*s*", "`r`", "a.b-c", "r!", "\\\\"];
    let dests: &[(&str, &str)] = &[("u", "u"), ("<u>", "<u>"), ("<u v>", "<u v>"), ("<>", "<>"), ("/u(v)?w#x", "/u(v)?w#x"), ("é", "é"), ("u\\*", "u\\*")];
    let titles = ["", "\"t\"", "'t'", "(t)", "\"t \\\" u\"", "\"é\"", "''"];
    let gaps = [" ", "", "   ", "\n", "\n  "];
    let between = [" ", "   ", "\n", "\n   "];
    let uses: &[fn(&str) -> String] = &[
        |l| format!("[{l}]"),
        |l| format!("[{l}][]"),
        |l| format!("![{l}]"),
        |l| format!("[t *u*][{l}]"),
        |l| format!("![t][{l}]"),
        |l| format!("[a [t][{l}] b"),
        |l| format!("x [{l}] y [z][{l}]!"),
        |_| "x".to_string(),
    ];
    let wraps: Vec<(&str, &str)> = vec![("", ""), ("> ", "> "), ("* ", "  "), ("1. > ", "   > ")];
    let mut docs = vec![];
    for l in labels {
        for (d, want) in dests {
            for t in titles {
                for g in gaps {
                    for b in between {
                        if t.is_empty() && b != " " {
                            continue;
                        }
                        for (n, u) in uses.iter().enumerate() {
                            if quick && n > 3 && (g != " " || b != " ") {
                                continue;
                            }
                            let (src, can) = if t.is_empty() {
                                (format!("[{l}]:{g}{d}"), format!("[{l}]: {want}"))
                            } else {
                                (format!("[{l}]:{g}{d}{b}{t}"), format!("[{l}]: {want} {t}"))
                            };
                            docs.push((format!("{}\n\n{src}", u(l)), format!("{}\n\n{can}", u(l))));
                            if n == 0 {
                                docs.push((format!("{src}\n\n{}", u(l)), format!("{can}\n\n{}", u(l))));
                            }
                        }
                    }
                }
            }
        }
    }
    wraps
        .into_iter()
        .map(|(f, r)| {
            let w = Wrap::new(f, r);
            let docs = docs.iter().map(|(s, e)| format!("{}\u{0}{}", w.apply(s), w.apply(e))).collect();
            list(&format!("references and definitions in {f:?}"), docs)
        })
        .collect()
}

/// A label of white space alone
fn blank_label(d: &str) -> bool {
    d.split('[').any(|p| p.split(']').next().is_some_and(|l| !l.is_empty() && l.trim().is_empty()))
}

fn link_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    vec![
        seq("chars: inline links", &["[", "](", ")", "a", " ", "\\", "<", ">"], 1, max).without(|d| d.contains("([") || d.contains("(]")),
        seq_in("chars: titles", "[a](", &["b", " ", "\"", "'", ")", "\\", "\n"], ")", 1, max),
        seq("chars: references", &["[", "]", "a", " ", "!", "[a]: ", "\n"], 1, max)
            // trimming the text of a reference can turn the line into a definition
            .without(|d| d.contains("[a]: ") && (d.contains(" ]") || d.contains("[ ") || d.contains("[a]: [")) || blank_label(d)),
        seq_in("chars: destinations", "[a](", &["b", "(", ")", "<", ">", " ", "\\", "&amp;"], ")", 1, max).without(|d| d.contains(">(")),
        seq_in("chars: link titles", "[a](b ", &["\"", "'", "(", ")", "\\", "c", " "], ")", 1, max),
        seq_in("chars: link labels", "[", &["a", "\\", "]", "[", " ", "*", "`", "é"], "][r]\n\n[r]: u", 1, max)
            // trimmed text next to a delimiter run; `]\\[` which the parser takes for `][`
            .without(|d| blank_label(d) || d.contains("]\\[") || ((d.contains("[ ") || d.contains(" ]")) && d.contains('*'))),
        seq_in("chars: labels of references", "[t][", &["a", "\\", "]", "[", " ", "\n", "é"], "]", 1, max).without(|d| blank_label(d) || d.contains("[\\\n]") || d.contains("]\\[")),
        seq_in("chars: definitions", "[a]: ", &["u", "<", ">", " ", "\n", "\"t\"", "'", "(t)", "\\"], "\n\n[a]", 1, if quick { 5 } else { 6 })
            .without(|d| d.lines().skip(1).any(|l| l.trim_start().starts_with('>'))),
        labels("labels of references and definitions", "[t][@] y\n\n[@]: u", &["a", "^", " ", "\\", "*", "`", "!", "&", "é", "A", "[", "]"], if quick { 4 } else { 5 })
            // gets an escape
            .without(|d| d[4..].trim_start().starts_with('^') || d[4..].contains("][^") || d.contains("][ ^") || d.contains("]\\[^") || blank_label(d)),
        labels("labels that are their own text", "[@] y\n\n[@]: u", &["a", "^", " ", "\\", "*", "`", "!", "&", "é", "A", "[", "]"], if quick { 4 } else { 5 })
            .without(|d| d.contains("][^") || d.contains("][ ^") || d.contains("]\\[^") || blank_label(d)),
        seq("chars: autolinks", &["<", ">", "a", ":", "@", ".", "/", " "], 1, max),
        seq("links and blocks", &["[a](b)", "![c](d \"e\")", "[f]", "[f]: g\n", "> ", "* ", "\n", "# ", "[h][f]", " "], 1, if quick { 5 } else { 6 }),
    ]
}

// ---------------------------------------------------------------- C27

/// Inline atoms in canonical spelling that may stand next to each other, separated by a space.
const ATOMS: &[&str] = &[
    "word", "*a*", "_a_", "**b**", "__b__", "***c***", "~~d~~", "~e~", "`f`", "`` g`h ``", "`` ` ``", "``` i`` ```", "&amp;", "&#35;", "&#x22;", "\\*", "\\\\",
    "<b>", "</b>", "<br/>", "a\\\nb", "a  \nb", "c\nd", "snake_case", "2*3", "a*b*c", "http://x.y/z", "*a **b** c*", "**a *b* c**", "_a `b` c_", "***a** b*", "~~a *b* c~~",
    "\\_x\\_", "\\`", "!", "\\[x\\]", "&copy;", "`\\`", "é", "世界", "*é*", "&", "a & b", "x < y", "\"q\"", "it's", "...", "--", "(c)", ":", "a|b", "50%", "@me", "#tag", "a=b", "~", "^x^",
    "\\~", "\\!", "\\&amp;", "\\<b>", "$x$",
];

fn atoms(quick: bool) -> Vec<World> {
    let mut w = vec![];
    w.push(
        product("pairs of inline atoms", &[&["w "], ATOMS, &[" ", ", "], ATOMS, &["", "."]])
            .wraps(vec![
                Wrap::top(),
                Wrap::new("> ", "> "),
                Wrap::new("* ", "  "),
                Wrap::new("> 10) ", ">     "),
                container(5),
                Wrap::around("# h\n\n- x\n\n  ", "", "  ", ""),
                Wrap::around("", "", "", "\n---"),
            ]),
    );
    let one: Vec<&str> = ATOMS.iter().copied().filter(|a| !a.contains('\n')).collect();
    let one_no_pipe: Vec<&str> = one.iter().copied().filter(|a| !a.contains('|')).collect();
    let delims: Vec<&str> = vec!["*", "**", "_", "__", "~~", "***"];
    w.push(World::new("inline atoms in headings", Gen::Product(vec![v(&["# ", "### ", "> ## "]), v(&one), v(&[" "]), v(&one), v(&["", " x"])])));
    w.push(World::new(
        "inline atoms in links",
        Gen::Product(vec![v(&["[", "!["]), v(&["w "]), v(&one), v(&[" "]), v(&one), v(&["](u)", "](u \"t\")", "][r]"])]),
    ).without(|d| d.starts_with("[") && d.contains("http://x.y/z") && false));
    w.push(World::new(
        "inline atoms in emphasis",
        Gen::Fn(
            (delims.len() * one.len() * one.len()) as u64,
            {
                let (d, o) = (delims.clone(), v(&one));
                Box::new(move |i| {
                    let i = i as usize;
                    let m = d[i % d.len()];
                    let (a, b) = (&o[i / d.len() % o.len()], &o[i / d.len() / o.len()]);
                    Some(format!("w {m}x {a} {b} x{m} w"))
                })
            },
        ),
    ));
    // a table whose cells fit its header
    w.push(World::new(
        "inline atoms in tables",
        Gen::Fn((one_no_pipe.len() * one_no_pipe.len() * 2) as u64, {
            let o: Vec<String> = v(&one_no_pipe);
            Box::new(move |i| {
                let i = i as usize;
                let (a, b) = (&o[i / 2 % o.len()], &o[i / 2 / o.len()]);
                let (x, y) = if i % 2 == 0 { (a.as_str(), b.as_str()) } else { ("h", a.as_str()) };
                Some(
                    crate::ast::canonical_table(&[x, "h2"], &["---", ":-:"], &[vec![y, "c"], vec![b.as_str(), a.as_str()]]).join("\n"),
                )
            })
        }),
    ));
    // escapes at the beginning of lines
    w.push(
        product(
            "escapes at the start of lines",
            &[
                &["a\n", "*a*\n", "`a`\n", "a\\\n", "a  \n", ""],
                &["\\# b", "\\- b", "\\+ b", "\\* b", "1\\. b", "1\\) b", "\\> b", "\\`\\`\\`", "\\~\\~\\~", "\\=\\=\\=", "\\-\\-\\-", "\\*\\*\\*", "\\_\\_\\_", "\\[a]: b", "\\<div>", "\\| a |", "\\&amp;", "\\\\", "12345\\. c"],
                &["", " *c*", "\nd", " `e`\n\\# f", "\\\n\\- g"],
            ],
        )
        .wraps(canonical_stacks(8, 0, 2)),
    );
    if !quick {
        w.push(World::new("triples of inline atoms", Gen::Product(vec![v(&["w "]), v(ATOMS), v(&[" "]), v(ATOMS), v(&[" "]), v(ATOMS)])));
    }
    w
}

fn inline_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    vec![
        seq("chars: emphasis", &["_", "*", "a", " ", "~", "\n", "é"], 1, max),
        seq("chars: strong", &["**", "*", "__", "_", "a", " ", "b"], 1, max),
        seq("chars: strikethrough", &["~~", "~", "a", " ", "*", "\n"], 1, max),
        seq("chars: code spans", &["`", "``", "a", " ", "\\", "*"], 1, max),
        seq_in("chars: code spans on lines", "`a", &["`", "\n", "b", "  ", "*", "é"], "`", 1, max)
            .without(|d| d.contains("  \n**") || d.contains("  \n```") || d.lines().any(|l| l.starts_with("    ") && l.trim_start().starts_with('`'))),
        seq("chars: entities", &["&", "#", "1", ";", "a", "m", "p", "x"], 1, max.min(6)),
        seq("entities and escapes", &["&amp;", "&#35;", "\\", "&", "*", "a", " ", "\n"], 1, if quick { 5 } else { 6 }),
        seq("chars: hard breaks", &["\\\n", "  \n", "   \n", "a", "*", "\\", "\n", " "], 1, if quick { 5 } else { 6 }).without(|d| d.contains("  \n**")),
        seq("chars: hard breaks in containers", &["\\\n", "  \n", "a", "> ", "* ", "\n", "# "], 1, if quick { 5 } else { 6 }),
        seq_in("chars: hard breaks in a quote", "> a", &["\\\n> ", "  \n> ", "\n> ", "\n", "b", "*", "`"], "c", 1, max.min(6))
            .without(|d| d.contains("  \n> **") || d.contains("\n``")),
    ]
}

/// A no-break space is part of a destination: what follows it is no title.
fn no_titles(_quick: bool) -> Vec<World> {
    vec![product("destinations that look like a title", &[&["[a](u", "[a](<u"], &["\u{a0}", "\u{a0}v", "v\u{a0}"], &["\"t\"", "'t'", "(t)"], &[")", ">)"]])]
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("C18", "Links and images").part(inline_links, unchanged).part(link_layouts, oracle).part(references, oracle).part(|q| and_contained(link_worlds(q)), same_links).part(no_titles, same_links).part(|q| super::scale::worlds("C18", q), oracle).part(|q| super::exotic::worlds("C18", q), oracle),
        Check::new("C27", "Inline markup").part(atoms, unchanged).part(|q| and_contained(inline_worlds(q)), same_inline).part(|q| super::scale::worlds("C27", q), oracle).part(|q| super::exotic::worlds("C27", q), oracle),
    ]
}
