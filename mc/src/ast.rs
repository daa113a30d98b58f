//! Documents as trees, a printer with layout freedom (all the ways CommonMark lets an author write
//! the same tree) and the canonical printer, which is an independent statement of the layout the
//! formatter promises.

#[derive(Clone, Debug)]
pub enum Block {
    Para(Vec<&'static str>),
    Atx(usize, &'static str),
    Setext(Vec<&'static str>, &'static str),
    Rule(&'static str),
    Fence { fence: &'static str, info: &'static str, code: Vec<&'static str> },
    Indented(Vec<&'static str>),
    Html(Vec<&'static str>),
    /// header cells, delimiters, rows; and the canonical lines
    Table { head: Vec<&'static str>, delim: Vec<&'static str>, rows: Vec<Vec<&'static str>> },
    Def { label: &'static str, dest: &'static str, title: &'static str },
    Quote(Vec<Block>, usize),
    /// marker per item, items, blank lines between items, blank lines between an item's blocks
    List { markers: Vec<&'static str>, items: Vec<Vec<Block>>, gap: usize, inner: usize },
    Note { label: &'static str, body: Vec<Block>, gap: usize },
}

/// One layout: `Layout::default()` is the canonical one.
#[derive(Clone, Debug, PartialEq)]
pub struct Layout {
    /// leading spaces of leaf blocks
    pub indent: usize,
    /// leading spaces of continuation lines of paragraphs
    pub cont: usize,
    pub quote: &'static str,
    /// spaces before and after list markers
    pub before: usize,
    pub after: usize,
    /// paragraph continuation lines leave out the containers' prefixes
    pub lazy: bool,
    /// white space at the end of lines where it means nothing
    pub trail: &'static str,
    pub blank: &'static str,
    pub lead: usize,
    pub tail: usize,
    pub atx_close: &'static str,
    pub atx_gap: usize,
    pub table: usize,
    pub note_inline: bool,
    pub note_indent: usize,
}

impl Default for Layout {
    fn default() -> Layout {
        Layout {
            indent: 0,
            cont: 0,
            quote: "> ",
            before: 0,
            after: 1,
            lazy: false,
            trail: "",
            blank: "",
            lead: 0,
            tail: 0,
            atx_close: "",
            atx_gap: 1,
            table: 0,
            note_inline: false,
            note_indent: 4,
        }
    }
}

type Tweak = fn(&mut Layout);

/// The single deviations from the canonical layout.
pub const TWEAKS: &[(&str, Tweak)] = &[
    ("indent 1", |l| l.indent = 1),
    ("indent 3", |l| l.indent = 3),
    ("continuation 2", |l| l.cont = 2),
    ("continuation 6", |l| l.cont = 6),
    ("quote without a space", |l| l.quote = ">"),
    ("quote indented", |l| l.quote = "   > "),
    ("quote with two spaces", |l| l.quote = ">  "),
    ("marker indented 1", |l| l.before = 1),
    ("marker indented 3", |l| l.before = 3),
    ("marker followed by 2", |l| l.after = 2),
    ("marker followed by 4", |l| l.after = 4),
    ("lazy continuation", |l| l.lazy = true),
    ("trailing space", |l| l.trail = " "),
    ("white blank lines", |l| l.blank = "  "),
    ("leading blank line", |l| l.lead = 2),
    ("final newline", |l| l.tail = 1),
    ("final blank lines", |l| l.tail = 3),
    ("closing #", |l| l.atx_close = " #"),
    ("closing ###", |l| l.atx_close = "   ### "),
    ("# followed by 3", |l| l.atx_gap = 3),
    ("narrow table", |l| l.table = 1),
    ("table without outer pipes", |l| l.table = 2),
    ("wide table", |l| l.table = 3),
    ("note on the label's line", |l| l.note_inline = true),
];

/// All layouts with at most `n` deviations (n <= 2).
pub fn layouts(n: usize) -> Vec<Layout> {
    let mut v = vec![Layout::default()];
    if n >= 1 {
        for (_, t) in TWEAKS {
            let mut l = Layout::default();
            t(&mut l);
            v.push(l);
        }
    }
    if n >= 2 {
        for (i, (_, t)) in TWEAKS.iter().enumerate() {
            for (_, u) in &TWEAKS[i + 1..] {
                let mut l = Layout::default();
                t(&mut l);
                u(&mut l);
                // four or more columns would make it code
                if l.indent + l.before + usize::from(l.quote == ">  ") > 3 {
                    continue;
                }
                if !v.contains(&l) {
                    v.push(l);
                }
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
struct Line {
    t: String,
    lazy: bool,
}

fn ln(t: String) -> Line {
    Line { t, lazy: false }
}

fn sp(n: usize) -> String {
    " ".repeat(n)
}

pub fn width(s: &str) -> usize {
    unicode_width::UnicodeWidthStr::width(s)
}

/// Cells are filled up on the right, whatever the column's alignment.
fn pad(cell: &str, w: usize) -> String {
    format!("{cell}{}", sp(w.saturating_sub(width(cell))))
}

fn canonical_delim(d: &str, w: usize) -> String {
    let (l, r) = (d.starts_with(':'), d.ends_with(':'));
    let n = w - usize::from(l) - usize::from(r);
    format!("{}{}{}", if l { ":" } else { "" }, "-".repeat(n), if r { ":" } else { "" })
}

/// The canonical lines of a table.
pub fn canonical_table(head: &[&str], delim: &[&str], rows: &[Vec<&str>]) -> Vec<String> {
    let cols = head.len();
    let w: Vec<usize> = (0..cols)
        .map(|c| {
            let mut m = width(head[c]).max(3);
            for r in rows {
                m = m.max(r.get(c).map_or(0, |x| width(x)));
            }
            m
        })
        .collect();
    let row = |cells: Vec<String>| format!("| {} |", cells.join(" | "));
    let mut out = vec![
        row((0..cols).map(|c| pad(head[c], w[c])).collect()),
        row((0..cols).map(|c| canonical_delim(delim[c], w[c])).collect()),
    ];
    for r in rows {
        out.push(row((0..cols).map(|c| pad(r.get(c).copied().unwrap_or(""), w[c])).collect()));
    }
    out
}

fn table_lines(head: &[&'static str], delim: &[&'static str], rows: &[Vec<&'static str>], kind: usize) -> Vec<String> {
    let all: Vec<Vec<&str>> =
        std::iter::once(head.to_vec()).chain([delim.to_vec()]).chain(rows.iter().cloned()).collect();
    match kind {
        0 => canonical_table(head, delim, rows),
        1 => all.iter().map(|r| format!("|{}|", r.join("|"))).collect(),
        2 if head.len() > 1 && rows.iter().all(|r| r.iter().all(|c| !c.is_empty())) => {
            all.iter().map(|r| r.join(" | ")).collect()
        }
        _ => all
            .iter()
            .map(|r| format!("|  {}   |", r.join("   |    ")))
            .collect(),
    }
}

/// The layout of a block that may follow a list: indenting it would put it into the list.
fn after_sibling(blocks: &[Block], n: usize, l: &Layout) -> Layout {
    let mut l = l.clone();
    if n > 0 && matches!(blocks[n - 1], Block::List { .. } | Block::Note { .. }) {
        l.indent = 0;
        l.before = 0;
        if l.quote.starts_with(' ') {
            l.quote = "> ";
        }
    }
    l
}

fn print(b: &Block, l: &Layout, out: &mut Vec<Line>) {
    let i = sp(l.indent);
    match b {
        Block::Para(ls) => {
            for (n, x) in ls.iter().enumerate() {
                let pre = if n == 0 { i.clone() } else { sp(l.cont) };
                let t = if x.ends_with("  ") || x.ends_with('\\') { "" } else { l.trail };
                out.push(Line { t: format!("{pre}{x}{t}"), lazy: n > 0 });
            }
        }
        Block::Atx(n, t) => {
            let gap = if t.is_empty() { String::new() } else { sp(l.atx_gap) };
            let close = if t.is_empty() { "" } else { l.atx_close };
            out.push(ln(format!("{i}{}{gap}{t}{close}{}", "#".repeat(*n), l.trail)));
        }
        Block::Setext(t, u) => {
            for (n, x) in t.iter().enumerate() {
                let pre = if n == 0 { i.clone() } else { sp(l.cont) };
                let trail = if x.ends_with("  ") || x.ends_with('\\') { "" } else { l.trail };
                out.push(ln(format!("{pre}{x}{trail}")));
            }
            out.push(ln(format!("{i}{u}{}", l.trail)));
        }
        Block::Rule(r) => out.push(ln(format!("{i}{r}{}", l.trail))),
        Block::Fence { fence, info, code } => {
            out.push(ln(format!("{i}{fence}{info}")));
            for c in code {
                out.push(ln(if c.is_empty() { String::new() } else { format!("{i}{c}") }));
            }
            out.push(ln(format!("{i}{fence}{}", l.trail)));
        }
        Block::Indented(c) => {
            for x in c {
                out.push(ln(if x.is_empty() { String::new() } else { format!("    {x}") }));
            }
        }
        Block::Html(h) => {
            for x in h {
                out.push(ln(x.to_string()));
            }
        }
        Block::Table { head, delim, rows } => {
            for x in table_lines(head, delim, rows, l.table) {
                out.push(ln(format!("{i}{x}")));
            }
        }
        Block::Def { label, dest, title } => {
            let t = if title.is_empty() { String::new() } else { format!(" \"{title}\"") };
            out.push(ln(format!("{i}[{label}]: {dest}{t}{}", l.trail)));
        }
        Block::Quote(bs, gap) => {
            let canonical = l.quote == "> ";
            for (n, b) in bs.iter().enumerate() {
                if n > 0 {
                    for _ in 0..*gap {
                        out.push(ln(format!("{}{}", l.quote.trim_end(), l.blank)));
                    }
                }
                let mut inner = vec![];
                print(b, &after_sibling(bs, n, l), &mut inner);
                let pre = match b {
                    Block::Quote(..) if canonical => ">",
                    // `>` directly followed by white space would eat it
                    Block::Indented(_) | Block::List { .. } | Block::Note { .. } | Block::Html(_) | Block::Fence { .. }
                        if l.quote == ">" =>
                    {
                        "> "
                    }
                    // code must keep its column
                    Block::Indented(_) | Block::Html(_) | Block::Fence { .. } | Block::Note { .. } if l.quote == ">  " => "> ",
                    _ => l.quote,
                };
                let pre = if l.quote == ">" && inner.iter().any(|x| x.t.starts_with(' ')) { "> " } else { pre };
                for x in inner {
                    if l.lazy && x.lazy {
                        out.push(x);
                    } else if x.t.trim().is_empty() {
                        out.push(ln(pre.trim_end().to_string()));
                    } else {
                        out.push(Line { t: format!("{pre}{}", x.t), lazy: x.lazy });
                    }
                }
            }
        }
        Block::List { markers, items, gap, inner } => {
            for (k, item) in items.iter().enumerate() {
                if k > 0 {
                    for _ in 0..*gap {
                        out.push(ln(l.blank.to_string()));
                    }
                }
                let m = markers[k];
                let first_code = matches!(item.first(), Some(Block::Indented(_)));
                let after = if first_code { 1 } else { l.after };
                let open = format!("{}{m}{}", sp(l.before), sp(after));
                let cont = sp(open.len());
                let mut first = true;
                for (n, b) in item.iter().enumerate() {
                    if n > 0 {
                        for _ in 0..*inner {
                            out.push(ln(l.blank.to_string()));
                        }
                    }
                    // the first line's own indentation would be part of the marker's
                    let mut lay = after_sibling(item, n, l);
                    if n == 0 {
                        lay.indent = 0;
                        if matches!(b, Block::List { .. }) {
                            lay.before = 0;
                        }
                        if matches!(b, Block::Quote(..)) && lay.quote.starts_with(' ') {
                            lay.quote = "> ";
                        }
                    }
                    let mut v = vec![];
                    print(b, &lay, &mut v);
                    for x in v {
                        if first {
                            out.push(ln(format!("{open}{}", x.t)));
                            first = false;
                        } else if l.lazy && x.lazy {
                            out.push(x);
                        } else if x.t.trim().is_empty() {
                            out.push(ln(x.t));
                        } else {
                            out.push(Line { t: format!("{cont}{}", x.t), lazy: x.lazy });
                        }
                    }
                }
                if item.is_empty() {
                    out.push(ln(open.trim_end().to_string()));
                }
            }
        }
        Block::Note { label, body, gap } => {
            let mut first = true;
            let paragraph_first = matches!(body.first(), Some(Block::Para(_)));
            let inline = l.note_inline && paragraph_first;
            if !inline {
                out.push(ln(format!("[^{label}]:")));
            }
            for (n, b) in body.iter().enumerate() {
                if n > 0 {
                    for _ in 0..*gap {
                        out.push(ln(l.blank.to_string()));
                    }
                }
                let mut v = vec![];
                print(b, &after_sibling(body, n, l), &mut v);
                for x in v {
                    if first && inline {
                        out.push(ln(format!("[^{label}]: {}", x.t)));
                    } else if l.lazy && x.lazy {
                        out.push(x);
                    } else if x.t.trim().is_empty() {
                        out.push(ln(x.t));
                    } else {
                        out.push(Line { t: format!("{}{}", sp(l.note_indent), x.t), lazy: x.lazy });
                    }
                    first = false;
                }
            }
        }
    }
}

/// Print a document: blocks separated by `gap` blank lines.
pub fn doc(blocks: &[Block], gap: usize, l: &Layout) -> String {
    let mut out = vec![];
    for _ in 0..l.lead {
        out.push(ln(l.blank.to_string()));
    }
    for (n, b) in blocks.iter().enumerate() {
        if n > 0 {
            for _ in 0..gap {
                out.push(ln(l.blank.to_string()));
            }
        }
        print(b, &after_sibling(blocks, n, l), &mut out);
    }
    let mut s = out.into_iter().map(|l| l.t).collect::<Vec<_>>().join("\n");
    s.push_str(&"\n".repeat(l.tail));
    s
}

/// The canonical spelling of the tree. Blank lines inside of containers carry no white space.
pub fn canonical(blocks: &[Block], gap: usize, newline_at_end: bool) -> String {
    let s = doc(blocks, gap, &Layout::default());
    let mut s = s.trim_end_matches('\n').to_string();
    if newline_at_end {
        s.push('\n');
    }
    s
}

pub fn leaves() -> Vec<Block> {
    vec![
        Block::Para(vec!["text"]),
        Block::Para(vec!["two", "*lines* of"]),
        Block::Para(vec!["hard  ", "break"]),
        Block::Para(vec!["back\\", "slash"]),
        Block::Para(vec!["[a](b \"c\") ![i](j) <http://x.y>", "\\# esc \\* `co` <b>x</b>"]),
        Block::Atx(1, "head"),
        Block::Atx(6, "six {#id .c k=v}"),
        Block::Atx(2, ""),
        Block::Setext(vec!["set"], "==="),
        Block::Setext(vec!["set", "two"], "-----"),
        Block::Rule("***"),
        Block::Rule("---"),
        Block::Rule("_ _ _"),
        Block::Fence { fence: "```", info: "", code: vec!["code"] },
        Block::Fence { fence: "```", info: "rust ignore", code: vec!["fn f() {", "", "    x", "}"] },
        Block::Fence { fence: "~~~~", info: "", code: vec!["a ``` b", "  > c"] },
        Block::Indented(vec!["indented", "", "  code"]),
        Block::Html(vec!["<div>", "  <p>x", "</div>"]),
        Block::Html(vec!["<!-- comment -->"]),
        Block::Table {
            head: vec!["a", "bbbbb", "c", "d"],
            delim: vec!["---", ":-:", "--:", ":--"],
            rows: vec![vec!["1", "2", "3", "4"], vec!["long er", "x", "世界", ""]],
        },
        Block::Table { head: vec!["one"], delim: vec!["-"], rows: vec![] },
        Block::Def { label: "l", dest: "/url", title: "t" },
    ]
}

/// Containers of one body: index 0.. is a kind.
pub const CONTAINERS: usize = 8;
pub fn contain(kind: usize, body: Vec<Block>, gap: usize) -> Block {
    let one = |m: &'static str, body: Vec<Block>| Block::List { markers: vec![m], items: vec![body], gap: 0, inner: gap };
    match kind {
        0 => Block::Quote(body, gap),
        1 => one("*", body),
        2 => one("1.", body),
        3 => one("-", body),
        4 => one("10)", body),
        5 => Block::Note { label: "n", body, gap },
        6 => one("+", body),
        7 => one("007.", body),
        _ => unreachable!(),
    }
}
