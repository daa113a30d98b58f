//! C05 code, C12 lists, C13 headings, C14 tables, C15 blank lines, C21 HTML and metadata, C22 footnotes.
use super::trees::*;
use super::Check;
use crate::ast::*;
use crate::engine::{fails, Cfg, Verdict, World};
use crate::json::quote;
use crate::project::{project, Aspect};
use crate::run;
use crate::worlds::*;
use std::sync::OnceLock;

fn same(doc: &str, cfg: Cfg, a: Aspect, kind: &'static str) -> Verdict {
    let x = project(doc, a);
    let o = run!(cfg, doc);
    let y = project(&o, a);
    if x != y {
        return fails(kind, format!("output: {}\nbefore: {x:?}\nafter:  {y:?}", quote(&o)));
    }
    if x.is_empty() { Verdict::Vacuous } else { Verdict::Holds }
}

fn same_code(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Code, "code-changed")
}
fn same_lists(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Lists, "lists-changed")
}
fn same_headings(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Headings, "headings-changed")
}
fn same_tables(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Tables, "tables-changed")
}
fn same_html(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Html, "html-changed")
}
fn same_footnotes(doc: &str, cfg: Cfg) -> Verdict {
    same(doc, cfg, Aspect::Footnotes, "footnotes-changed")
}

fn stack(mut k: usize, depth: usize, body: Vec<Block>, gap: usize) -> Vec<Block> {
    let mut b = body;
    for _ in 0..depth {
        b = vec![contain(k % CONTAINERS, b, gap)];
        k /= CONTAINERS;
    }
    b
}

fn pow(n: usize, e: usize) -> usize {
    n.pow(e as u32)
}

// ---------------------------------------------------------------- C05

const CODE: &[&str] = &[
    "x", "", "  two", "> q", "* i", "1. n", "# h", "```", "~~~", "<b>", "[a]: b", "\\", "| a |", "é世", "a  b", "        deep",
    "---", "*e*", "&amp;",
];
const FENCES: &[&str] = &["```", "~~~", "````", "~~~~~~"];
const INFOS: &[&str] = &["", "rust", " sp ace", "a,b {.c}", "é"];

fn closes(fence: &str, line: &str) -> bool {
    let t = line.trim();
    let c = fence.chars().next().unwrap();
    t.len() >= fence.len() && t.chars().all(|x| x == c) && line.len() - line.trim_start().len() < 4
}

fn code_trees(quick: bool) -> Vec<World> {
    let n = CODE.len();
    let f = FENCES.len();
    let mut w = vec![];
    let fence = |fi: usize, ii: usize, code: Vec<&'static str>| -> Option<Block> {
        let fence = FENCES[fi];
        let info = INFOS[ii];
        if code.iter().any(|c| closes(fence, c)) || (fence.starts_with('`') && info.contains('`')) {
            return None;
        }
        Some(Block::Fence { fence, info, code })
    };
    for depth in 0..=2usize {
        let lines = if depth < 2 { 3 } else { 2 };
        let stacks = pow(CONTAINERS, depth);
        let max = pow(n, lines);
        let t = space(
            &format!("fences with {lines} lines of code, {depth} containers"),
            &[stacks, f, if depth == 0 { INFOS.len() } else { 2 }, max],
            move |d| {
                let mut m = d[3];
                let mut code = vec![];
                for _ in 0..lines {
                    code.push(CODE[m % n]);
                    m /= n;
                }
                // blank lines at the end of code do not come back
                if code.last().is_some_and(|c| c.is_empty()) {
                    code.truncate(code.iter().rposition(|c| !c.is_empty()).map_or(0, |p| p + 1));
                }
                // nor blank lines at its start
                Some((stack(d[0], depth, vec![fence(d[1], d[2], code)?], 1), 1))
            },
        );
        w.push(tree_world(t, if depth == 0 || !quick { 1 } else { 0 }));
        let t = space(
            &format!("indented code of {lines} lines, {depth} containers"),
            &[stacks, max, 3],
            move |d| {
                let mut m = d[1];
                let mut code = vec![];
                for _ in 0..lines {
                    code.push(CODE[m % n]);
                    m /= n;
                }
                if code[0].is_empty() || code[0].starts_with(' ') || code[lines - 1].is_empty() {
                    return None;
                }
                let body = match d[2] {
                    0 => vec![Block::Indented(code)],
                    1 => vec![Block::Para(vec!["text"]), Block::Indented(code)],
                    _ => vec![Block::Atx(1, "head"), Block::Indented(code), Block::Para(vec!["text"])],
                };
                Some((stack(d[0], depth, body, 1), 1))
            },
        );
        w.push(tree_world(t, if quick { 0 } else { 1 }));
    }
    // every container stack of depth 3 (and 4) around one block of each kind
    let depth = if quick { 3 } else { 4 };
    w.push(tree_world(
        space("code in deep containers", &[pow(CONTAINERS, depth), f, 4], move |d| {
            let code = vec!["x", "", "  y {", "}"];
            let b = match d[2] {
                0 => vec![fence(d[1], 0, code)?],
                1 => vec![fence(d[1], 1, code)?, Block::Para(vec!["text"])],
                2 => vec![Block::Para(vec!["text"]), Block::Indented(code)],
                _ => vec![fence(d[1], 3, vec![])?, fence((d[1] + 1) % f, 1, code)?],
            };
            Some((stack(d[0], depth, b, 1), 1))
        }),
        if quick { 1 } else { 2 },
    ));
    w
}

fn code_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    vec![
        seq("chars: fences", &["`", "~", "\n", " ", "a", "```"], 1, max),
        lines(
            "code lines",
            &["```", "~~~", "````", "``` i", "    x", "x", "  y", "", "> ```", "> x", "* ```", "\tz"],
            1,
            if quick { 5 } else { 6 },
        ),
        lines(
            "code lines, indented fences",
            &["```", "~~~", "``` i", "  ```", "   ~~~", "    x", "x", "   y", "", "> ```", "> x", "*  ```", "  x"],
            1,
            if quick { 5 } else { 6 },
        ),
        list("fences that close once dedented", v(&["  ```\n    ```", "  ~~~\n    ~~~"])),
        lines("code and text", &["    a", "     b", "      c", "", "d", "> e", "* f", "  g", "\t h"], 1, if quick { 5 } else { 6 }),
        seq_in("unclosed fence", "", &["```", "~~~", "\n", "a", "> ", " ", "* "], "", 1, max),
    ]
}

// ---------------------------------------------------------------- C12

fn markers(style: usize, n: usize) -> Option<&'static str> {
    static ALL: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v: Vec<Vec<&'static str>> = vec![];
        for m in ["*", "-", "+"] {
            v.push(vec![m; 5]);
        }
        for d in ['.', ')'] {
            for start in [0usize, 1, 2, 7, 8, 9, 10, 42, 98, 99, 100, 998, 999_999_998] {
                v.push((0..5).map(|k| &*Box::leak(format!("{}{d}", (start + k).min(999_999_999)).into_boxed_str())).collect());
            }
            for fixed in ["1", "0", "01", "007", "000000001"] {
                v.push((0..5).map(|_| &*Box::leak(format!("{fixed}{d}").into_boxed_str())).collect());
            }
            v.push((0..5).map(|k| &*Box::leak(format!("{}{d}", [3, 1, 20, 5, 100][k]).into_boxed_str())).collect());
            v.push((0..5).map(|k| &*Box::leak(format!("{:03}{d}", 8 + k).into_boxed_str())).collect());
            v.push((0..5).map(|k| &*Box::leak(format!("{}{d}", 10 - 2 * k).into_boxed_str())).collect());
        }
        v
    });
    all.get(style)?.get(n).copied()
}
const STYLES: usize = 3 + 2 * (13 + 5 + 3);

fn bodies() -> Vec<Vec<Block>> {
    let p = |t: &'static str| Block::Para(vec![t]);
    vec![
        vec![p("one")],
        vec![Block::Para(vec!["two", "lines"])],
        vec![p("[ ] todo")],
        vec![p("[x] done")],
        vec![p("[x] *done* `c`")],
        vec![Block::Para(vec!["[ ] open", "more"])],
        vec![p("a"), Block::List { markers: vec!["-", "-"], items: vec![vec![p("b")], vec![p("c")]], gap: 0, inner: 0 }],
        vec![p("a"), Block::List { markers: vec!["1.", "2."], items: vec![vec![p("[x] b")], vec![p("c")]], gap: 0, inner: 0 }],
        vec![p("a"), Block::Quote(vec![p("q")], 1)],
        vec![p("a"), Block::Fence { fence: "```", info: "", code: vec!["x", "", "  y"] }],
        vec![Block::Atx(2, "h"), p("t")],
        vec![Block::List { markers: vec!["+", "+"], items: vec![vec![p("b")], vec![p("c"), p("d")]], gap: 1, inner: 1 }],
        vec![Block::Fence { fence: "~~~", info: "i", code: vec!["x"] }],
        vec![Block::Quote(vec![p("q"), p("r")], 1)],
        vec![Block::Indented(vec!["code"])],
        vec![Block::Table { head: vec!["a"], delim: vec!["---"], rows: vec![vec!["b"]] }],
        vec![Block::Setext(vec!["s"], "---")],
        vec![],
    ]
}

fn list_trees(quick: bool) -> Vec<World> {
    let nb = bodies().len();
    let dev = if quick { 1 } else { 2 };
    let mut w = vec![];
    w.push(tree_world(
        space("one to five items of every marker style", &[STYLES, 5, 4, 3], move |d| {
            let n = d[1] + 1;
            let m: Option<Vec<_>> = (0..n).map(|k| markers(d[0], k)).collect();
            let b = bodies();
            let items = (0..n).map(|k| b[(d[2] * 3 + k) % 6].clone()).collect();
            Some((vec![Block::List { markers: m?, items, gap: d[3], inner: 1 }], 1))
        }),
        dev,
    ));
    w.push(tree_world(
        space("two items of every pair of bodies", &[STYLES, nb, nb, 2, 2], move |d| {
            let b = bodies();
            let (x, y) = (b[d[1]].clone(), b[d[2]].clone());
            let inner = d[4];
            let tight_ok = |v: &Vec<Block>| v.windows(2).all(|w| can_abut(&w[0], &w[1]));
            if inner == 0 && !(tight_ok(&x) && tight_ok(&y)) {
                return None;
            }
            // an empty item cannot be followed by a blank line and more of it
            let m = vec![markers(d[0], 0)?, markers(d[0], 1)?];
            Some((vec![Block::List { markers: m, items: vec![x, y], gap: d[3], inner }], 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("lists in lists in containers", &[8, STYLES, 6, nb, 2], move |d| {
            let outer = [0usize, 1, 3, 4, 9, 12, 21, 26][d[0]];
            let b = bodies();
            let sub = Block::List {
                markers: vec![markers(d[1], 0)?, markers(d[1], 1)?],
                items: vec![b[d[3]].clone(), b[0].clone()],
                gap: d[4],
                inner: 1,
            };
            let body = match d[2] {
                0 => vec![sub],
                1 => vec![Block::Para(vec!["p"]), sub],
                2 => vec![Block::Quote(vec![sub], 1)],
                3 => vec![Block::Para(vec!["p"]), Block::Quote(vec![Block::Para(vec!["q"]), sub], 1)],
                4 => vec![Block::Note { label: "n", body: vec![sub], gap: 1 }],
                _ => vec![sub, Block::Para(vec!["p"])],
            };
            Some((
                vec![
                    Block::List {
                        markers: vec![markers(outer, 0)?, markers(outer, 1)?],
                        items: vec![body, b[1].clone()],
                        gap: 1,
                        inner: 1,
                    },
                    Block::Para(vec!["after"]),
                ],
                1,
            ))
        }),
        dev,
    ));
    w.push(tree_world(
        space("lists next to each other", &[STYLES, STYLES, 3, 6], move |d| {
            let b = bodies();
            let l = |s: usize, k: usize| -> Option<Block> {
                Some(Block::List { markers: vec![markers(s, 0)?, markers(s, 1)?], items: vec![b[k].clone(), b[0].clone()], gap: 0, inner: 1 })
            };
            let (x, y) = (l(d[0], d[3])?, l(d[1], 0)?);
            Some((vec![x, y], d[2] + 1))
        }),
        0,
    ));
    w.push(tree_world(
        space("nesting to depth five", &[9, 9, 9, 9, 9], move |d| {
            let st = [0usize, 1, 2, 4, 9, 12, 15, 20, 26];
            let mut b = vec![Block::Para(vec!["deep", "text"])];
            for k in d {
                b = vec![Block::List { markers: vec![markers(st[*k], 0)?], items: vec![b], gap: 0, inner: 1 }];
            }
            Some((b, 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w
}

fn list_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    vec![
        seq("chars: ordered lists", &["1", "0", ".", ")", " ", "\n", "a", "-"], 1, max),
        seq("chars: bullets", &["*", "-", "+", " ", "\n", "a", "  "], 1, max),
        // with a final newline: see known-findings.txt
        seq_in("chars: task lists", "", &["* ", "- ", "[ ] ", "[x] ", "[X]", "a", "\n", "  ", "[x]"], "\n", 1, if quick { 5 } else { 6 })
            // a list below an empty task comes out after it
            .without(|d| d.lines().zip(d.lines().skip(1)).any(|(a, b)| a.trim_end().ends_with(']') && b.starts_with("    "))),
        list("empty task item at the end", v(&["* [ ] ", "1. [x] "])),
        lines(
            "list lines",
            &["", "* a", "  * b", "    * c", "- d", "1. e", "   2. f", "10) g", "  h", "    i", "j", "*", "  - [ ] k", "> * l"],
            1,
            if quick { 5 } else { 6 },
        ),
    ]
}

// ---------------------------------------------------------------- C13

fn heading_trees(quick: bool) -> Vec<World> {
    const TEXT: &[&str] = &[
        "a", "a b", "*a*", "`a`", "[a](b)", "a\\#", "# a", "a # b", "é", "世界", "<b>", "a#", "\\# a", "a \\## b", "1. a", "- a", "> a", "![i](j \"t\")",
        "a\\*b", "&amp;", "~~d~~", "a | b", "[r][s]", "a_b_c", "http://x.y", "``c`d``", "\\\\", "a\\{", "=", "a: b",
    ];
    const ATTR: &[&str] = &[
        "", " {#id}", " {.c}", " {.c .d}", " {k=v}", " {k=}", " {#id .c}", " {#id .c .d k=v}", " {#i k=v l=w}", " {.c k=\"v\"}", " {.c k=v l= m=n}", " {#é}",
    ];
    const LINES: &[&[&str]] = &[
        &["a"], &["a", "b"], &["*a", "b*"], &["a", "\\- b"], &["a", "\\# b"], &["a", "1\\. b"], &["a", "\\> b"], &["x y", "z", "w"], &["a  ", "b"], &["a\\", "b"],
        &["`a", "b`"], &["`` a", "`b` ", "c``"], &["a", "[b](c)"], &["é", "世界"], &["a", "+b"], &["a", "#b"],
    ];
    static TEXTS: OnceLock<Vec<&'static str>> = OnceLock::new();
    let texts: &'static Vec<&'static str> = TEXTS.get_or_init(|| {
        TEXT.iter()
            .flat_map(|t| ATTR.iter().map(move |a| (t, a)))
            // before attributes, `a#` is spelled `a\\#`
            .filter(|(t, a)| !(**t == "a#" && !a.is_empty()))
            .map(|(t, a)| &*Box::leak(format!("{t}{a}").into_boxed_str()))
            .collect()
    });
    static SETEXT: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
    let setext: &'static Vec<Vec<&'static str>> = SETEXT.get_or_init(|| {
        let mut v: Vec<Vec<&'static str>> = LINES.iter().map(|l| l.to_vec()).collect();
        for l in LINES {
            for a in &ATTR[1..] {
                let mut x = l.to_vec();
                let n = x.len() - 1;
                x[n] = Box::leak(format!("{}{a}", x[n]).into_boxed_str());
                v.push(x);
            }
        }
        v
    });
    const UNDER: &[&str] = &["=", "-", "==", "---", "==========", "--------------------", "--"];
    let mut w = vec![];
    let nt = texts.len();
    let ns = setext.len();
    w.push(tree_world(
        space("ATX headings", &[6, nt], move |d| Some((vec![Block::Atx(d[0] + 1, texts[d[1]])], 1))),
        2,
    ));
    w.push(tree_world(
        space("ATX headings in a container, between paragraphs", &[6, nt, CONTAINERS], move |d| {
            let p = Block::Para(vec!["p"]);
            Some((vec![p.clone(), contain(d[2], vec![p.clone(), Block::Atx(d[0] + 1, texts[d[1]]), p.clone()], 1), p], 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("ATX headings in two containers", &[3, 60, pow(CONTAINERS, 2)], move |d| {
            let t = texts[d[1] * (nt / 60)];
            Some((stack(d[2], 2, vec![Block::Atx(d[0] * 2 + 1, t), Block::Para(vec!["p"])], 1), 1))
        }),
        1,
    ));
    w.push(tree_world(
        space("underlined headings", &[ns, UNDER.len()], move |d| {
            // the white space of a code span is its own
            let code = setext[d[0]][0].starts_with('`');
            (!code).then(|| (vec![Block::Setext(setext[d[0]].clone(), UNDER[d[1]])], 1))
        }),
        2,
    ));
    w.push(tree_world(
        space("underlined headings in two containers", &[ns, UNDER.len(), pow(CONTAINERS, 2)], move |d| {
            let code = setext[d[0]][0].starts_with('`');
            (!code).then(|| (stack(d[2], 2, vec![Block::Setext(setext[d[0]].clone(), UNDER[d[1]]), Block::Para(vec!["p"])], 1), 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("underlined headings with code spans in three containers", &[ns, UNDER.len(), pow(CONTAINERS, 3)], move |d| {
            let code = setext[d[0]][0].starts_with('`');
            code.then(|| (stack(d[2], 3, vec![Block::Setext(setext[d[0]].clone(), UNDER[d[1]]), Block::Para(vec!["p"])], 1), 1))
        }),
        0,
    ));
    w
}

fn heading_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    let mut w: Vec<World> =
        text_chars(max).into_iter().filter(|w| w.name.contains("head") || w.name.contains("setext")).collect();
    w.push(seq("chars: closing sequences", &["#", "# ", " #", "a", "\\", "\n", "*", "`"], 1, max.min(6)));
    w.push(product(
        "closing sequences",
        &[
            &["# ", "## ", "###### ", "#\t", "> # ", "* ## ", "   # "],
            &["", "a", "a b", "*a*", "`a`", "[a](b)", "é", "a\\", "a #b", "#", "## #"],
            &["", " #", " ##", " ########", "#", "  #  ", " \\#", " #\\#", "\\#", " # #", " #a"],
            &["", " {#i}", " {.c k=v}"],
            &["", "\n", "\nb", "\n\n> c"],
        ],
    ));
    w
}

// ---------------------------------------------------------------- C14

fn table_trees(quick: bool) -> Vec<World> {
    const CELL: &[&str] = &[
        "", "a", "bb", "long cell", "世界", "é", "e\u{301}", "`x`", "`a\\|b`", "a\\|b", "*e*", "[l](d \"t\")", "<b>x</b>", "🦀", "\\*", "&amp;", "a\\\\b", "![i](j)", "~~s~~", "**b** c", "``a` ``",
    ];
    const DEL: &[&str] = &["---", ":--", "--:", ":-:", "-", ":-", "-:", "----------", ":--------:"];
    let nc = CELL.len();
    let mut w = vec![];
    w.push(tree_world(
        space("one column", &[nc, 9, nc, nc, 3], move |d| {
            if CELL[d[0]].is_empty() {
                return None;
            }
            let rows = match d[4] {
                0 => vec![],
                1 => vec![vec![CELL[d[2]]]],
                _ => vec![vec![CELL[d[2]]], vec![CELL[d[3]]]],
            };
            if d[4] < 2 && d[3] > 0 || d[4] == 0 && d[2] > 0 {
                return None;
            }
            Some((vec![Block::Table { head: vec![CELL[d[0]]], delim: vec![DEL[d[1]]], rows }], 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("two columns, one row", &[nc, nc, nc, nc, 4], move |d| {
            let delim = [["---", ":-:"], ["-:", ":-"], [":---", "-"], ["----------", "--:"]][d[4]].to_vec();
            Some((
                vec![Block::Table { head: vec![CELL[d[0]], CELL[d[1]]], delim, rows: vec![vec![CELL[d[2]], CELL[d[3]]]] }],
                1,
            ))
        }),
        0,
    ));
    w.push(tree_world(
        space("all alignments of three columns", &[9, 9, 9, nc], move |d| {
            Some((
                vec![Block::Table {
                    head: vec!["a", CELL[d[3]], "c"],
                    delim: vec![DEL[d[0]], DEL[d[1]], DEL[d[2]]],
                    rows: vec![vec!["1", "2", "3"], vec![CELL[d[3]], "", "x"]],
                }],
                1,
            ))
        }),
        if quick { 1 } else { 2 },
    ));
    w.push(tree_world(
        space("tables in containers between blocks", &[pow(CONTAINERS, 2), nc, nc, 4, 4], move |d| {
            let t = Block::Table {
                head: vec!["h", CELL[d[1]]],
                delim: vec![DEL[d[3]], DEL[d[3] + 2]],
                rows: vec![vec![CELL[d[2]], "x"], vec!["", CELL[d[1]]]],
            };
            let p = Block::Para(vec!["p"]);
            let body = match d[4] {
                0 => vec![t],
                1 => vec![p.clone(), t, p],
                2 => vec![t.clone(), t],
                _ => vec![Block::Atx(1, "h"), t, Block::Fence { fence: "```", info: "", code: vec!["c"] }],
            };
            Some((stack(d[0], 2, body, 1), 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("many columns and rows", &[8, 8, 4, nc], move |d| {
            let cols = d[0] + 1;
            let head = (0..cols).map(|c| ["a", "bb", "ccc", "dddd"][(c + d[2]) % 4]).collect::<Vec<_>>();
            let delim = (0..cols).map(|c| DEL[(c + d[1]) % 9]).collect();
            let rows = (0..d[1]).map(|r| (0..cols).map(|c| CELL[(d[3] + r * 3 + c) % nc]).collect()).collect();
            Some((vec![Block::Table { head, delim, rows }], 1))
        }),
        1,
    ));
    w
}

/// Rows with missing and surplus cells, as text with the canonical output.
fn ragged_tables(_quick: bool) -> Vec<World> {
    let cell = ["a", "bb", "", "long cell"];
    let mut docs = vec![];
    for cols in 1..=3usize {
        for cells in 0..=cols + 2 {
            for pick in 0..64usize {
                for outer in [true, false] {
                    let head: Vec<&str> = vec!["h", "head 2", "3"][..cols].to_vec();
                    let row: Vec<&str> = (0..cells).map(|c| cell[(pick >> (2 * (c % 3))) & 3]).collect();
                    if row.iter().all(|c| c.is_empty()) {
                        continue;
                    }
                    if !outer && (row.first().is_some_and(|c| c.is_empty()) || row.last().is_some_and(|c| c.is_empty()) || cols == 1 || cells < 2) {
                        continue;
                    }
                    let line = |v: &[&str]| if outer { format!("| {} |", v.join(" | ")) } else { v.join(" | ") };
                    let delim = vec!["---"; cols];
                    let src = format!("{}\n{}\n{}\n| z |", line(&head), line(&delim), line(&row));
                    let mut full: Vec<&str> = row.iter().copied().take(cols).collect();
                    full.resize(cols, "");
                    let mut last = vec!["z"];
                    last.resize(cols, "");
                    let want = canonical_table(&head, &delim, &[full, last]).join("\n");
                    docs.push(format!("{src}\u{0}{want}"));
                }
            }
        }
    }
    vec![list("rows with missing and surplus cells", docs)]
}

fn table_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    vec![
        seq("chars: tables", &["a", "|", "-", ":", "\n", " ", "\\"], 1, max.min(6)),
        seq_in("chars: rows", "| a | b |\n| - | :-: |\n", &["a", "|", "\\", " ", "`", "\n", "é", "*"], "", 1, max),
        seq_in("chars: rows in containers", "> * a|b\n>   -|-\n>   ", &["a", "|", "\\|", " ", "`", "\n>   ", "世"], "", 1, max.min(6)),
        seq_in("chars: headers", "| ", &["a", " | ", "\\|", "`", "é", "*", "[b](c)"], " | z |\n| - | - |\n| 1 | 2 |", 1, max),
        lines("table lines", &["| a | b |", "|---|:-:|", "a|b", "-|-", "| c |", "", "d", "> | e |", "> |-|", "| `f|` | g |"], 1, if quick { 5 } else { 6 }),
    ]
}

// ---------------------------------------------------------------- C15

fn blank_trees(quick: bool) -> Vec<World> {
    let mut more = leaves();
    let p = |t: &'static str| Block::Para(vec![t]);
    more.push(Block::Quote(vec![p("q")], 1));
    more.push(Block::Quote(vec![p("q"), Block::Quote(vec![p("qq")], 1)], 1));
    more.push(Block::List { markers: vec!["*", "*"], items: vec![vec![p("i")], vec![p("j")]], gap: 0, inner: 1 });
    more.push(Block::List { markers: vec!["1."], items: vec![vec![p("i"), p("j")]], gap: 1, inner: 1 });
    more.push(Block::List { markers: vec!["-"], items: vec![vec![Block::Fence { fence: "```", info: "", code: vec!["c"] }]], gap: 1, inner: 1 });
    more.push(Block::Note { label: "n", body: vec![p("note")], gap: 1 });
    more.push(Block::List { markers: vec!["+"], items: vec![vec![Block::Quote(vec![p("q")], 1)]], gap: 1, inner: 1 });
    let n = more.len();
    let all: &'static Vec<Block> = Box::leak(Box::new(more));
    let mut w = vec![];
    w.push(tree_world(
        space("every pair, 0 to 6 blank lines, in two containers", &[n, n, 7, pow(CONTAINERS + 1, 2)], move |d| {
            let (a, b) = (all[d[0]].clone(), all[d[1]].clone());
            if d[2] == 0 && !can_abut(&a, &b) {
                return None;
            }
            let mut body = vec![a, b];
            let gap = d[2];
            for k in [d[3] % (CONTAINERS + 1), d[3] / (CONTAINERS + 1)] {
                if k < CONTAINERS {
                    body = vec![contain(k, body, gap)];
                } else if d[3] % (CONTAINERS + 1) == CONTAINERS && d[3] / (CONTAINERS + 1) < CONTAINERS {
                    return None; // the same as with one container the other way round
                }
            }
            Some((body, gap))
        }),
        0,
    ));
    w.push(tree_world(
        space("every triple", &[n, n, n, 4], move |d| {
            let bs = vec![all[d[0]].clone(), all[d[1]].clone(), all[d[2]].clone()];
            if d[3] == 0 && !(can_abut(&bs[0], &bs[1]) && can_abut(&bs[1], &bs[2])) {
                return None;
            }
            Some((bs, d[3]))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("every pair, layouts", &[n, n, 4], move |d| {
            let (a, b) = (all[d[0]].clone(), all[d[1]].clone());
            if d[2] == 0 && !can_abut(&a, &b) {
                return None;
            }
            Some((vec![a, b], d[2]))
        }),
        if quick { 1 } else { 2 },
    ));
    w.push(tree_world(
        space("items of lists, 0 to 5 blank lines", &[n, n, 6, 4, CONTAINERS + 1], move |d| {
            let m = [["*", "*"], ["1.", "2."], ["9)", "10)"], ["-", "-"]][d[3]].to_vec();
            let l = Block::List { markers: m, items: vec![vec![all[d[0]].clone()], vec![all[d[1]].clone()]], gap: d[2], inner: 1 };
            let l = if d[4] < CONTAINERS { contain(d[4], vec![l], 1) } else { l };
            Some((vec![l], 1))
        }),
        0,
    ));
    w
}

// ---------------------------------------------------------------- C21

fn html_trees(quick: bool) -> Vec<World> {
    const HTML: &[&[&str]] = &[
        &["<div>"], &["<div>", "</div>"], &["<div", "  class=\"a\">", "*x*", "</div>"], &["<!-- a -->"], &["<!--", "a", "", "b", "-->"],
        &["<script>", "x < y", "", "  z", "</script>"], &["<pre>", "  a", "", "b</pre>"], &["<style>", "p {}", "</style>"],
        &["<?php", "echo 1", "", "?>"], &["<!DOCTYPE html>"], &["<![CDATA[", "a", "", "]]>"], &["<custom-tag a=b>", "x"], &["</p>"],
        &["<table>", "<tr><td>", "a", "</td></tr>", "</table>"], &["<details>", "<summary>é</summary>", "世界"], &["<hr/>"], &["<a href=\"x\">"],
        &["<div># not a heading", "* not a list", "> not a quote"], &["<div>", "    not code", "```", "not a fence"], &["<textarea>", "", "a", "</textarea>"],
        &["<div>  a  b  </div>"], &["<!-- a --> *b*"], &["<div>", "[a]: b", "| c |"],
    ];
    let n = HTML.len();
    let mut w = vec![];
    for depth in 0..=2usize {
        w.push(tree_world(
            space(&format!("HTML blocks, {depth} containers"), &[pow(CONTAINERS, depth), n, n, 4], move |d| {
                let (a, b) = (Block::Html(HTML[d[1]].to_vec()), Block::Html(HTML[d[2]].to_vec()));
                let p = Block::Para(vec!["p"]);
                let body = match d[3] {
                    0 if d[2] == 0 => vec![a],
                    1 => vec![a, b],
                    2 if d[2] == 0 => vec![p.clone(), a, p],
                    3 if d[2] == 0 => vec![a, Block::List { markers: vec!["*"], items: vec![vec![p.clone()]], gap: 1, inner: 1 }],
                    _ => return None,
                };
                Some((stack(d[0], depth, body, 1), 1))
            }),
            if depth == 0 || !quick { 1 } else { 0 },
        ));
    }
    w
}

fn metadata_docs(quick: bool) -> Vec<World> {
    // the case is source NUL expected: metadata comes back as it is
    let body = ["a: b", "", "# c", "- d", "  e", "é", "a", "[x]: y", "..", "***"];
    let n = body.len();
    let mut docs = vec![];
    for f in ["---", "+++"] {
        for len in 1..=if quick { 3u32 } else { 4 } {
            for mut i in 0..n.pow(len) {
                let mut l = vec![];
                for _ in 0..len {
                    l.push(body[i % n]);
                    i /= n;
                }
                // a blank line directly after the opening marker would make it a thematic break
                if l[0].is_empty() {
                    continue;
                }
                for (after, want) in [("", ""), ("\n", "\n"), ("\n\ntext\n*   x", "\n\ntext\n* x"), ("\n# h #\n", "\n# h\n")] {
                    let m = format!("{f}\n{}\n{f}", l.join("\n"));
                    docs.push(format!("{m}{after}\u{0}{m}{want}"));
                }
            }
        }
    }
    vec![list("metadata blocks", docs)]
}

fn html_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 6 } else { 7 };
    vec![
        seq("chars: html", &["<", ">", "!", "-", "a", "\n", "/", "?"], 1, max),
        seq("chars: tags", &["<a>", "</a>", "<div>", "</div>", "\n", "b", " ", "<!--", "-->", "\\"], 1, if quick { 5 } else { 6 }),
        seq("chars: tags in containers", &["> ", "\n* ", "<div>", "<a\n", "  b=c>", "\n", "\n  ", "x", "<!-- -->"], 1, if quick { 5 } else { 6 }),
        list("a list indented further than the HTML block after it", v(&["  * <div>\n  <div>", "  * <div>\n  <!-- -->"])),
        list("an indented rule that looks like metadata once dedented", v(&["  ---\n+++\n---\n"])),
        seq("chars: metadata", &["+", "-", "\n", "a", " ", ":"], 1, max),
        seq("chars: metadata lines", &["---\n", "+++\n", "a: b\n", "\n", "# c\n", "---", "+++"], 1, max.min(6)),
        lines("html lines", &["<div>", "</div>", "", "a", "  b", "<!-- c", "-->", "> <p>", "* <i>", "  </i>", "<pre>", "    d"], 1, if quick { 5 } else { 6 }),
    ]
}

// ---------------------------------------------------------------- C22

fn footnote_trees(quick: bool) -> Vec<World> {
    let n = leaves().len();
    const LABEL: &[&str] = &["n", "1", "long-label", "é", "a_b", "42"];
    let mut w = vec![];
    w.push(tree_world(
        space("footnote bodies of two blocks", &[LABEL.len(), n, n, CONTAINERS + 1, 3], move |d| {
            let body = vec![leaves()[d[1]].clone(), leaves()[d[2]].clone()];
            let note = Block::Note { label: LABEL[d[0]], body, gap: d[4] % 2 + 1 };
            let b = if d[3] < CONTAINERS { vec![contain(d[3], vec![note], 1)] } else { vec![note] };
            let mut b = b;
            if d[4] == 2 {
                b.insert(0, Block::Para(vec!["text[^n]"]));
                b.push(Block::Para(vec!["after"]));
            }
            Some((b, 1))
        }),
        if quick { 0 } else { 1 },
    ));
    w.push(tree_world(
        space("footnote bodies, layouts", &[n, n], move |d| {
            let note = Block::Note { label: "n", body: vec![leaves()[d[0]].clone(), leaves()[d[1]].clone()], gap: 1 };
            Some((vec![Block::Para(vec!["text[^n] and [^m]"]), note, Block::Para(vec!["after"])], 1))
        }),
        2,
    ));
    w.push(tree_world(
        space("footnotes with containers", &[CONTAINERS, CONTAINERS, n, 2], move |d| {
            let inner = contain(d[0], vec![leaves()[d[2]].clone(), Block::Para(vec!["x", "y"])], 1);
            let inner = contain(d[1], vec![inner], 1);
            let body = if d[3] == 0 { vec![inner] } else { vec![Block::Para(vec!["first", "lines"]), inner] };
            Some((vec![Block::Note { label: "n", body, gap: 1 }, Block::Para(vec!["after"])], 1))
        }),
        1,
    ));
    w
}

fn footnote_worlds(quick: bool) -> Vec<World> {
    let max = if quick { 5 } else { 6 };
    vec![
        seq_in("chars: labels of footnotes", "x[^", &["a", "^", " ", "\\", "*", "`", "-", "!", "\n", "é", "A"], "]\n\n[^a]: b", 1, if quick { 4 } else { 5 }),
        labels("labels of footnotes and definitions", "x[^@] y\n\n[^@]: b", &["a", "^", " ", "\\", "*", "`", "-", "!", "&", "é", "A", "[", "]"], if quick { 4 } else { 5 })
            .without(|d| d.contains("\\ ]") || d.contains("\\  ]") || d.contains("\\   ]")),
        list("a label that ends with a backslash and a space", v(&["x[^\\ ] y\n\n[^\\ ]: b"])),
        seq("chars: footnotes", &["[", "[^a]", "]", ":", "a", " ", "\n"], 1, 6),
        seq("footnote pieces", &["[^a]", "[^a]: ", "[^b]:", "\n", "\n\n    ", "\n    x", "x", " ", "* ", "> ", "\n\n"], 1, max),
        lines(
            "footnote lines",
            &["[^a]: x", "[^b]:", "    y", "      z", "", "w", "[^a] v", "    * u", "> [^d]: s", "* [^e]: r", "    > q"],
            1,
            max,
        ),
    ]
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("C05", "Code blocks").part(code_trees, oracle).part(|q| and_contained(code_worlds(q)), same_code).part(|q| super::scale::worlds("C05", q), oracle).part(|q| super::exotic::worlds("C05", q), oracle),
        Check::new("C12", "Lists").part(list_trees, oracle).part(|q| and_contained(list_worlds(q)), same_lists).part(|q| super::scale::worlds("C12", q), oracle).part(|q| super::exotic::worlds("C12", q), oracle),
        Check::new("C13", "Headings").part(heading_trees, oracle).part(|q| and_contained(heading_worlds(q)), same_headings).part(|q| super::scale::worlds("C13", q), oracle).part(|q| super::exotic::worlds("C13", q), oracle),
        Check::new("C14", "Tables").part(table_trees, oracle).part(ragged_tables, oracle).part(|q| and_contained(table_worlds(q)), same_tables).part(|q| super::scale::worlds("C14", q), oracle).part(super::exotic::tables, oracle),
        Check::new("C15", "Blank lines").part(blank_trees, oracle).part(|q| super::scale::worlds("C15", q), oracle),
        Check::new("C21", "HTML and metadata").part(html_trees, oracle).part(metadata_docs, oracle).part(|q| and_contained(html_worlds(q)), same_html).part(|q| super::scale::worlds("C21", q), oracle).part(|q| super::exotic::worlds("C21", q), oracle),
        Check::new("C22", "Footnotes").part(footnote_trees, oracle).part(|q| and_contained(footnote_worlds(q)), same_footnotes).part(|q| super::scale::worlds("C22", q), oracle).part(|q| super::exotic::worlds("C22", q), oracle),
    ]
}
