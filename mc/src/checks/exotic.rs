//! Unusual characters in every place of every construct. The documents are in canonical spelling:
//! formatting leaves them as they are. A character is no space, line ending, marker or word
//! boundary unless Markdown says so.
use crate::engine::{Cfg, Gen, World};

/// Spaces and line separators that are none to Markdown, characters of no width, of two columns, of
/// several code points, controls, letters that change length with their case.
const CHARS: &[&str] = &[
    "\u{a0}", "\u{2002}", "\u{3000}", "\u{200b}", "\u{200d}", "\u{feff}", "\u{0b}", "\u{0c}", "\u{85}", "\u{2028}", "\u{2029}", "\u{ad}", "\u{301}", "\u{1}", "\u{7f}", "\t",
    "\u{1F469}\u{200d}\u{1F467}", "\u{1F1E9}\u{1F1EA}", "\u{1F44D}\u{1F3FD}", "漢", "！", "，", "א", "\u{fffd}", "\u{10ffff}", "ß", "İ", "«", "—", "…", "＊", "＃", "ǆ", "ﬁ", "§", "€", "$", "%", "@", "^", "'", "\"", ";",
    ",", "/", "?", "=", "+", ".", ")", "~", "{", "}",
];

/// Spaces, controls, and what is trimmed by Rust's `trim`
const BLANKS: usize = 16;

/// White space to Markdown (but for the space)
const WHITE: &[&str] = &["\u{0b}", "\u{0c}", "\t"];

/// property, name, prefix, suffix, what may stand at the edges: no space of any kind (0), none of
/// Markdown's (1), all (2)
const PLACES: &[(&str, &str, &str, &str, u8)] = &[
    ("C27", "text", "x ", " y", 2),
    ("C27", "start of a line", "x\n", " y", 1),
    ("C27", "end of a line", "x ", "\ny", 1),
    ("C27", "whole paragraph", "", "", 1),
    ("C27", "start of a paragraph", "", " y", 1),
    ("C27", "end of a paragraph", "x", "\n\ny", 1),
    ("C27", "paragraph of a quote", "> ", "", 1),
    ("C27", "last line", "x\n", "", 1),
    ("C27", "after emphasis at the end", "x *a*", "", 1),
    ("C27", "code span", "`", "` y", 2),
    ("C27", "code span on lines", "x `a\nb ", " c\nd` y", 2),
    ("C27", "end of a line of a code span", "x `a", "\nb` y", 2),
    ("C27", "start of a line of a code span", "x `a\n", "b` y", 1),
    ("C27", "emphasis", "x *a ", " b* y", 2),
    ("C27", "strong emphasis", "x **", "** y", 2),
    ("C27", "next to emphasis", "x ", "*a* y", 2),
    ("C27", "underscores", "x __", "__ y", 2),
    ("C27", "strikethrough", "x ~~a", "b~~ y", 2),
    ("C27", "before a hard break", "x ", "\\\ny", 2),
    ("C27", "after a hard break", "x  \n", " y", 1),
    ("C27", "in an item", "> 1. x ", " y", 2),
    ("C05", "code", "```\n", "\n```", 2),
    ("C05", "code in an item", "* ```\n  x", "y\n    z\n  ```", 2),
    ("C05", "code in a quote", "> ~~~ rust\n> x\n> ", "\n> ~~~", 2),
    ("C05", "indented code", "    x", "\n\n    y", 2),
    ("C05", "whole info string", "~~~", "\nx\n~~~", 1),
    ("C05", "info string", "``` x", "y z\n```", 2),
    ("C13", "heading", "# x ", " y", 2),
    ("C13", "whole heading", "# ", "", 1),
    ("C13", "whole underlined heading", "", "\n---", 1),
    ("C13", "start of a heading", "## ", " y", 1),
    ("C13", "underlined heading", "x ", " y\n===", 2),
    ("C13", "end of a line of a heading", "x ", "\ny\n===", 1),
    ("C13", "start of a line of a heading", "x\n", " y\n===", 1),
    ("C13", "end of a heading in a quote", "> x\n> y ", "\n> ---", 1),
    ("C13", "heading with attributes", "# x", " {#i}", 1),
    ("C13", "id", "# x {#a", "b}", 1),
    ("C13", "class", "> # x {#i .a", "b .c}", 1),
    ("C13", "value", "# x {k=a", "b}", 1),
    ("C12", "item", "* x ", " y\n* z", 2),
    ("C12", "whole item", "* x\n* ", "\n* z", 1),
    ("C12", "start of an item", "1. ", "y\n2. z", 1),
    ("C12", "end of an item", "- x", "\n- z", 1),
    ("C12", "task", "* [ ] x ", " y\n* [x] z", 2),
    ("C12", "after a checkbox", "* [x] ", "y\n* z", 1),
    ("C18", "text of a link", "[a", "b](c)", 2),
    ("C18", "text of an image", "![", "](c)", 1),
    ("C18", "destination", "[a](u", "v)", 2),
    ("C18", "whole destination", "[a](", ")", 1),
    ("C18", "destination and title", "[a](", " 't')", 1),
    ("C18", "destination in angle brackets", "[a](<u w", "v>)", 2),
    ("C18", "title", "[a](b \"t", "u\")", 2),
    ("C18", "title in parentheses", "[a](b (", "t))", 2),
    ("C18", "text of a reference", "[a", "b][r]\n\n[r]: u", 2),
    ("C18", "label of a reference", "[a][r", "s]\n\n[r]: u", 2),
    ("C18", "shortcut", "[r", "s] t", 2),
    ("C18", "autolink", "<http://a", "b>", 2),
    ("C04", "label", "[a", "b]: u", 2),
    ("C04", "destination", "[a]: u", "v 't'", 2),
    ("C04", "whole destination", "[a]: ", "", 1),
    ("C04", "destination and title", "[a]: ", " 't'", 1),
    ("C04", "whole title", "[a]: b \"", "\"", 1),
    ("C04", "destination in angle brackets", "> [a]: <u", "v>", 2),
    ("C04", "title", "* [a]: b \"t", "u\"\n  [c]: d", 2),
    ("C21", "HTML", "<div>\nx", "y\n</div>", 2),
    ("C21", "end of a line of HTML", "<div>\nx", "\n</div>", 1),
    ("C21", "whole line of HTML", "<div>\n", "\n</div>", 1),
    ("C21", "end of a line of HTML in an item", "* <div>\n  x", "\n  </div>\n* y", 1),
    ("C21", "whole line of a comment", "<!--\n", "\n-->", 1),
    ("C21", "end of HTML", "<div>", "\n\nx", 1),
    ("C21", "start of a line of HTML", "<div>\n", "y\n</div>", 2),
    ("C21", "HTML in an item", "* <div>\n  x ", " y\n  </div>\n* z", 2),
    ("C21", "comment", "> <!--\n> x", "y\n> -->", 2),
    ("C21", "value of an attribute", "x <b c=\"a", "b\"> y", 2),
    ("C21", "tag on lines", "x <b c='a", "\nb'> y", 2),
    ("C21", "inline comment", "x <!-- a", "b --> y", 2),
    ("C21", "metadata", "---\na: x", "y\n---\n\nz", 2),
    ("C21", "plus metadata", "+++\na = x", "y\n+++\n\nz", 2),
    ("C22", "label of a footnote", "x[^a", "b]\n\n[^a", 2),
    ("C22", "body", "x[^a]\n\n[^a]:\n    x ", " y", 2),
    ("C22", "whole body", "[^a]:\n    ", "", 1),
    ("C22", "body on lines", "[^a]:\n    x ", "y\n    z\n\n    w", 2),
];

/// Is this left alone in this place? Some pairs are Markdown, and some are normalised.
fn untouched(name: &str, s: &str, white: bool) -> bool {
    match name {
        // White space separates attributes and is one space in a label. Braces end attributes.
        "id" | "class" | "value" => !white && !s.contains(['{', '}']),
        "label of a footnote" => !white,
        "start of a line of a heading" => !s.starts_with("=~") && !s.starts_with("+~") && !s.contains("{}"),
        n if n.contains("heading") => !s.contains("{}"),
        "text of an image" => !s.starts_with('^'),
        // Angle brackets are put around control characters
        "destination" | "whole destination" | "destination and title" => !s.contains(|c: char| c.is_control()),
        // A blank line
        "code" | "code in a quote" => !s.chars().all(|c| WHITE.contains(&c.to_string().as_str())),
        // Ends the value
        "tag on lines" => !s.contains('\''),
        // Part of the fence
        "whole info string" => !s.starts_with('~'),
        // Text of its own since `~` could begin a strikethrough
        "start of a line" | "last line" | "after a hard break" => !s.starts_with("=~") && !s.starts_with("+~"),
        _ => true,
    }
}

/// Cases of a property: source NUL expected. `edges`: alone, at the start, at the end, in the middle.
pub fn worlds(property: &str, _quick: bool) -> Vec<World> {
    PLACES
        .iter()
        .filter(|p| p.0 == property)
        .map(|&(id, name, pre, post, edges)| {
            let n = (CHARS.len() * CHARS.len() * 4) as u64;
            World::new(
                &format!("unusual characters: {name}"),
                Gen::Fn(
                    n,
                    Box::new(move |i| {
                        let i = i as usize;
                        let (c, d, k) = (i / 4 % CHARS.len(), i / 4 / CHARS.len(), i % 4);
                        let blank = c < BLANKS || d < BLANKS;
                        let white = WHITE.contains(&CHARS[c]) || WHITE.contains(&CHARS[d]);
                        if k != 0 && (edges == 0 && blank || edges == 1 && white) {
                            return None;
                        }
                        let s = format!("{}{}", CHARS[c], CHARS[d]);
                        let s = match k {
                            0 => format!("a{s}b"),
                            1 => format!("{s}b"),
                            2 => format!("a{s}"),
                            _ => s,
                        };
                        if !untouched(name, &s, white) {
                            return None;
                        }
                        let mut doc = format!("{pre}{s}{post}");
                        if id == "C22" && name == "label of a footnote" {
                            doc.push_str(&format!("{s}b]:\n    c"));
                        }
                        Some(format!("{doc}\u{0}{doc}"))
                    }),
                ),
            )
        })
        .collect()
}

/// Unusual characters in cells of tables, with tables as wide as they have to be.
pub fn tables(_quick: bool) -> Vec<World> {
    ["header", "cell", "both", "cell in containers", "cell of a table with spaces", "text with a backslash before it", "markup"]
        .iter()
        .enumerate()
        .map(|(t, name)| {
            World::new(
                &format!("unusual characters in tables: {name}"),
                Gen::Fn(
                    (CHARS.len() * CHARS.len() * 4) as u64,
                    Box::new(move |i| {
                        let i = i as usize;
                        let (c, d, k) = (i / 4 % CHARS.len(), i / 4 / CHARS.len(), i % 4);
                        if k != 0 && (WHITE.contains(&CHARS[c]) || WHITE.contains(&CHARS[d])) {
                            return None;
                        }
                        let s = format!("{}{}", CHARS[c], CHARS[d]);
                        let s = match k {
                            0 => format!("a{s}b"),
                            1 => format!("{s}b"),
                            2 => format!("a{s}"),
                            _ => s,
                        };
                        let (head, delim, row): ([&str; 2], [&str; 2], [&str; 2]) = match t {
                            0 => ([&s, "x"], ["-", ":-:"], ["y", ""]),
                            1 => (["h", "x"], ["--:", "-"], [&s, "zzzz"]),
                            2 | 4 => (["h", &s], [":-", "-:"], ["i", &s]),
                            3 => (["hhhhh", "x"], ["-", ":-"], ["", &s]),
                            5 => (["h", "x"], [":-:", "-"], [&format!("\\\\{s}"), &format!("\\|{s}")]),
                            _ => ([&format!("`{s}`"), "x"], [":-:", "-"], [&format!("[k](<q {s}>)"), &format!("*x {s} x*")]),
                        };
                        let wrap = |l: Vec<String>| match t {
                            3 => format!("> * {}", l.join("\n>   ")),
                            _ => l.join("\n"),
                        };
                        let want = wrap(crate::ast::canonical_table(&head, &delim, &[row.to_vec()]));
                        let line = |v: [&str; 2]| match t {
                            4 => format!(" |  {} |   {}  | ", v[0], v[1]),
                            _ => format!("|{}|{}|", v[0], v[1]),
                        };
                        let src = wrap(vec![line(head), line(delim), line(row)]);
                        Some(format!("{src}\u{0}{want}"))
                    }),
                ),
            )
        })
        .collect()
}

/// The same places as plain documents.
pub fn sources(quick: bool) -> Vec<World> {
    let mut ids: Vec<&str> = PLACES.iter().map(|p| p.0).collect();
    ids.sort_unstable();
    ids.dedup();
    let mut v = vec![];
    for id in ids {
        for w in worlds(id, quick) {
            let World { name, gen, .. } = w;
            v.push(World::new(&name, Gen::Fn(gen.size(), Box::new(move |i| gen.get(i).map(|c| c.split('\u{0}').next().unwrap_or("").to_string())))));
        }
    }
    v
}

/// The same with fewer pairs: each character twice, and each after one other.
pub fn fewer_sources(quick: bool) -> Vec<World> {
    if !quick {
        return sources(quick);
    }
    let n = CHARS.len() as u64;
    let pairs = |w: World| {
        let World { name, gen, .. } = w;
        let pick = move |i: u64| {
            let (c, k, twice) = (i / 8, i / 2 % 4, i % 2);
            gen.get((c * n + twice * c) * 4 + k)
        };
        World::new(&name, Gen::Fn(n * 8, Box::new(pick)))
    };
    sources(quick).into_iter().map(pairs).collect()
}

/// Unusual characters next to every marker and on lines of their own.
pub fn at_markers(quick: bool) -> Vec<World> {
    const MARKERS: &[&str] = &[
        "", ">", "> ", ">>", "*", "* ", "-", "1.", "10) ", "#", "# ", "######", "```", "~~~ ", "```\n", "|", "| a |\n| - |\n|", "| a |\n", "[a]:", "[a]: ", "[a]: b ", "[a]: b\n", "[a]: b\n'c'", "[^a]:", "[^a]: ", "* [ ]",
        "* [x] ", "    ", "   ", "x\n", "x\n===", "x\n---", "x\n> ", "x\n* ", "***", "<div>", "<div>\n", "<!--", "---\n", "x  ", "x  \n", "x\\", "\\", "*", "**", "`", "![", "[", "[a](", "[a](b", "[a](b ", "[a](b 'c'", "[a]", "[a][",
        "&", "&#x41;", "~~", "_", "<a:b", "# x #", "# x {", "# x {#a}", "x {#a}\n===", "* x\n", "* x\n\n", "> x\n", "> ```\n> x\n", "1. x\n2.", "* ```\n  x\n ",
    ];
    const TAILS: &[&str] = &["", "x", " x", "\nx", "\n\nx", "*", "`", "]", ")", "\n===", "\n---", "\n- x", "\n> x", "\n```", ": x", " |", "-->", "}", " #", "\n    x", "  \nx"];
    let n = if quick { BLANKS as u64 } else { CHARS.len() as u64 };
    [("unusual characters at markers", Cfg::none()), ("unusual characters at markers, wrapped", Cfg::wrap(2))][..if quick { 1 } else { 2 }]
        .iter()
        .map(|&(name, cfg)| {
            World::new(
                name,
                Gen::Fn(
                    MARKERS.len() as u64 * TAILS.len() as u64 * n * (n + 3),
                    Box::new(move |i| {
                        let (m, i) = (MARKERS[(i % MARKERS.len() as u64) as usize], i / MARKERS.len() as u64);
                        let (t, i) = (TAILS[(i % TAILS.len() as u64) as usize], i / TAILS.len() as u64);
                        let c = CHARS[(i % n) as usize];
                        let d = match i / n {
                            0 => "",
                            1 => " ",
                            2 => "\n",
                            k => CHARS[(k - 3) as usize],
                        };
                        // The parser takes these for white space in some places and for text in others
                        let tab = c == "\t" || d == "\t";
                        if tab && (m.contains("# x") || m.starts_with("[a]: b") || m.starts_with("* [")) {
                            return None;
                        }
                        if [c, d].iter().any(|c| matches!(*c, "\u{b}" | "\u{c}")) {
                            return None;
                        }
                        Some(format!("{m}{c}{d}{t}"))
                    }),
                ),
            )
            .cfgs(&[cfg])
        })
        .collect()
}

pub fn wrapped(quick: bool) -> Vec<World> {
    sources(quick).into_iter().map(|w| w.cfgs(&[Cfg::wrap(3), Cfg::wrap(5)])).collect()
}
