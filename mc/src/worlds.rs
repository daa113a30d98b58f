//! The bounded input spaces. Every alphabet is written out here; DESIGN.md says why each is there.

use crate::engine::{Cfg, Gen, World, Wrap};

pub fn v(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

pub fn seq(name: &str, toks: &[&str], min: u32, max: u32) -> World {
    World::new(name, Gen::Seq { toks: v(toks), min, max, pre: String::new(), post: String::new() })
}

pub fn seq_in(name: &str, pre: &str, toks: &[&str], post: &str, min: u32, max: u32) -> World {
    World::new(name, Gen::Seq { toks: v(toks), min, max, pre: pre.into(), post: post.into() })
}

pub fn lines(name: &str, toks: &[&str], min: u32, max: u32) -> World {
    World::new(name, Gen::Lines { toks: v(toks), min, max })
}

pub fn product(name: &str, slots: &[&[&str]]) -> World {
    World::new(name, Gen::Product(slots.iter().map(|s| v(s)).collect()))
}

pub fn list(name: &str, docs: Vec<String>) -> World {
    World::new(name, Gen::List(docs))
}

/// The basic containers.
pub fn container(k: usize) -> Wrap {
    match k {
        0 => Wrap::new("> ", "> "),
        1 => Wrap::new("* ", "  "),
        2 => Wrap::new("1. ", "   "),
        3 => Wrap::new("- ", "  "),
        4 => Wrap::new("10) ", "    "),
        5 => Wrap::new("[^n]:\n    ", "    "),
        6 => Wrap::new("+ ", "  "),
        7 => Wrap::new("007. ", "     "),
        _ => unreachable!(),
    }
}

/// All stacks of the first `kinds` containers with depth in `min..=max`.
pub fn stacks(kinds: usize, min: usize, max: usize) -> Vec<Wrap> {
    let mut out = vec![];
    let mut level: Vec<Wrap> = vec![Wrap::top()];
    for d in 0..=max {
        if d >= min {
            out.extend(level.iter().cloned());
        }
        if d == max {
            break;
        }
        let mut n = vec![];
        for w in &level {
            for k in 0..kinds {
                // a list item cannot sit on the same line as the label of a definition's body here
                n.push(container(k).inside(w));
            }
        }
        level = n;
    }
    out
}

/// Every kind of leaf block, in its canonical spelling.
pub const LEAVES: &[&str] = &[
    "text",
    "two\nlines",
    "hard  \nbreak",
    "back\\\nslash",
    "# head",
    "###### six",
    "set\n===",
    "set\n---",
    "***",
    "---",
    "```\ncode\n```",
    "```rust\nfn f() {\n\n    x\n}\n```",
    "~~~~\na ``` b\n~~~~",
    "    indented\n\n    code",
    "<div>\n  <p>x\n</div>",
    "<!-- comment -->",
    "| a   | b   |\n| --- | :-: |\n| 1   |  2  |",
    "[l]: /url \"t\"",
    "[a](b \"c\") ![i](j) [r][s] <http://x.y>",
    "*em* **st** ~~del~~ `co` <b>x</b>",
    "\\# esc \\* \\> \\1.",
    "1986\\. A great",
    "text[^f]",
];

pub const SEPS: &[&str] = &["\n\n", "\n", "\n\n\n"];

pub fn text_chars(max: u32) -> Vec<World> {
    vec![
        seq("chars: block markers", &["a", " ", "\n", "*", "-", "#", ">", "`"], 0, max),
        seq("chars: links", &["a", "[", "]", "(", ")", "\\", " ", "\n"], 1, max.min(6)),
        seq("chars: tables", &["a", "|", "-", ":", "\n", " ", "\\"], 1, max.min(6)),
        seq("chars: ordered lists", &["1", "0", ".", ")", " ", "\n", "a", "-"], 1, max),
        seq("chars: html", &["<", ">", "!", "-", "a", "\n", "/", "?"], 1, max),
        seq("chars: emphasis", &["_", "*", "a", " ", "~", "\n", "é"], 1, max),
        seq("chars: footnotes", &["[", "[^a]", "]", ":", "a", " ", "\n"], 1, max.min(6)),
        seq("chars: headings", &["#", "=", "-", "a", " ", "\n", "\\"], 1, max.min(6)),
        seq_in("heading attributes", "## a {", &["#i", ".c", "k", "k=v", " ", "  ", "é", "x=\"y\"", "\\"], "}", 0, max - 1),
        seq_in("setext attributes", "a *b*\nc {", &["#i", ".c", "k", "k=v", " ", "é"], "}\n===", 0, max - 1),
        product(
            "heading attribute positions",
            &[
                &["# ", "###### ", "### a ", "# a\\", "## `a` ", "# [a](b) ", "# é"],
                &["{", "\\{", "{ ", "{{", ""],
                &["#i", ".c", "k=v", "#", ".", "=", "", "a", "#i #j", ".c .c"],
                &["}", "} ", " }", "", "}}", "\\}", "}a", "} a"],
                &["", "\n", "\n\nb"],
            ],
        ),
        seq("chars: metadata", &["+", "-", "\n", "a", " ", ":"], 1, max),
        seq("chars: autolinks", &["<", ">", "a", ":", "@", ".", "/", " "], 1, max - 1),
        seq("chars: entities", &["&", "#", "1", ";", "a", "m", "p", "x"], 1, max - 2),
        seq("chars: fences", &["`", "~", "\n", " ", "a", "```"], 1, max),
        seq("chars: overindented fences", &["    ", "``` ", "~~~ ", "a", "\n", "~"], 1, max.min(6)),
    ]
}

/// The same alphabets inside of containers.
pub fn text_chars_inside(max: u32, places: &[Wrap]) -> Vec<World> {
    let mut w = text_chars(max);
    if max < 5 {
        // whose size doesn't depend on the length
        w.retain(|x| !x.name.starts_with("heading attribute positions"));
    }
    w.push(seq("chars: escapes", &["\\", " ", "\n", "a", "*", "#", "1.", "&"], 1, max));
    w.push(seq("chars: breaks", &["\\", " ", "\n", "a", "[", "](u)", "`"], 1, max));
    for x in &mut w {
        x.name = format!("{} in containers", x.name);
        x.wraps = places.to_vec();
    }
    w
}

/// Both, in one container and in two.
pub fn chars_inside(one: u32, two: u32) -> Vec<World> {
    let mut w = text_chars_inside(one, &stacks(6, 1, 1));
    w.extend(text_chars_inside(two, &stacks(6, 2, 2)));
    w
}

/// Every label up to a length, at each of the places of `shape` that `@` stands at.
pub fn labels(name: &str, shape: &'static str, toks: &[&str], max: u32) -> World {
    let g = seq("", toks, 1, max).gen;
    World::new(name, Gen::Fn(g.size(), Box::new(move |i| g.get(i).map(|l| shape.replace('@', &l)))))
}

/// These worlds, and their sequences inside of each of the containers, two elements shorter.
pub fn and_contained(mut w: Vec<World>) -> Vec<World> {
    let mut inside = vec![];
    for x in &w {
        // metadata isn't part of containers
        if x.name.contains("metadata") {
            continue;
        }
        if let (Some(gen), 1) = (x.gen.shorter(2), x.wraps.len()) {
            let w = World { name: format!("{} in containers", x.name), gen, wraps: stacks(8, 1, 1), cfgs: x.cfgs.clone() };
            // (an indented first line moves the contents of an item, and the other lines are in front of it)
            inside.push(if x.name.contains("indented fences") { w.without(|d| d.starts_with(' ')) } else { w });
        }
    }
    w.extend(inside);
    w
}

pub const LINES: &[&str] = &[
    "", "a", "  b", "    c", "* d", "  * e", "- f", "1. g", "   2) h", "> i", ">> j", ">", "*", "# k", "===", "---",
    "```", "~~~ x", "<div>", "</p>", "| m |", "| - |", "[n]: o", "[^p]: q",
];

/// The names of tags that begin an HTML block
const TAGS: &[&str] = &[
    "address", "article", "aside", "base", "basefont", "blockquote", "body", "caption", "center", "col", "colgroup", "dd", "details", "dialog", "dir", "div", "dl", "dt", "fieldset", "figcaption",
    "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hr", "html", "iframe", "legend", "li", "link", "main", "menu", "menuitem", "nav", "noframes",
    "ol", "optgroup", "option", "p", "param", "search", "section", "summary", "table", "tbody", "td", "tfoot", "th", "thead", "title", "tr", "track", "ul", "pre", "script", "style", "textarea",
    // Some that don't
    "a", "b", "video", "source", "divx", "h7", "di",
];

/// Text on lines that are indented so far that no construct can begin there. With that indentation
/// gone it still has to be text.
pub fn over_indented_wrapped(quick: bool) -> Vec<World> {
    let mut cfgs = vec![Cfg::wrap(2), Cfg::reflow(2), Cfg::reflow(80)];
    if !quick {
        cfgs.extend([Cfg::wrap(0), Cfg::wrap(7), Cfg::reflow(7), Cfg::reflow(10), Cfg::wrap(12)]);
    }
    over_indented(quick).into_iter().map(|w| w.cfgs(&cfgs)).collect()
}

pub fn over_indented(_quick: bool) -> Vec<World> {
    let mut names: Vec<String> = vec![];
    for t in TAGS {
        let mut c = t.to_uppercase();
        c.replace_range(1.., &t[1..]);
        names.extend([t.to_string(), t.to_uppercase(), c]);
    }
    names.extend(["!--", "!-", "!A", "!a", "!", "?", "?php", "![CDATA[", "![cdata["].map(String::from));
    let mut tags = vec![];
    for n in &names {
        for open in ["<", "</"] {
            for tail in ["", ">", " a", "/>", "/", "\tb", "x", "-", "=", "é", "\u{a0}", ">é", " é", "> </b>", " a=\"b\">", ":", ".b", "</a>", "*b*"] {
                tags.push(format!("{open}{n}{tail}"));
            }
        }
    }
    const MARKERS: &[&str] = &["*", "+", "-", "#", "##", "######", "#######", "1.", "1)", "2.", "01.", "0)", "123456789.", "1234567890.", ">", "=", "==", "--", "---", "***", "___", "* * *", "- - -", "_ _", "```", "``", "~~~", "~~", "|", "|-|", ":-", "[a]:", "[^a]:", "[^a]", "[ ]", "+++", "&", "\\", ":", "::"];
    const TAILS: &[&str] = &["", " ", " b", "\tb", "b", "  b", "\n", "\nb", "*b", "`b", "``` b", "*b*", "é", "\u{a0}b", "=", "-", " #", "\\", " |", "<b>"];
    let mut marked = vec![];
    for m in MARKERS {
        for t in TAILS {
            marked.push(format!("{m}{t}"));
        }
    }
    const PLACES: &[(&str, &str)] = &[
        ("x\n    ", ""),
        ("x\n     ", "\ny"),
        ("x\n\t", "\n    y"),
        ("x  \n    ", ""),
        ("x\\\n    ", ""),
        ("*x\n    ", "*"),
        ("x\n    y\n      ", ""),
        ("> x\n>     ", ""),
        ("> x\n    ", ""),
        ("* x\n      ", "\n* y"),
        ("1. x\n       ", ""),
        ("* > x\n  >     ", ""),
        ("[^n]: x\n        ", ""),
        ("x\n    ", "\n==="),
        ("x\n    ", "\n\n[b]: c"),
        ("x\n    ", "\n\n[^a]: c"),
        ("x\n    [^a]\n     ", "\n\n[^a]: c"),
        ("[d]: e\n    ", ""),
        ("[d]: e\nf\n    ", ""),
        ("[x\n    ", "](y)"),
        ("x\n    ", "\n    |-|"),
        ("x\n    ", "\n    :-\n   y"),
        ("* x\n\n  1. y\n         ", ""),
    ];
    for open in ["```", "````", "~~~", "<b", "</b", "<div", "<?", "<!--", "<!A", "[a", "[^a", "<pre", "`", "![a", "[a](", "**", "*"] {
        for mid in ["", " b", "`b", " `b", " c=\"d\"", " <", "]"] {
            for close in ["```", "````", "~~~", ">", "?>", "-->", "]:", "]: d", "](d)", ")", "`", "**", "*"] {
                for end in ["", " x"] {
                    marked.push(format!("{open}{mid}{end}\ne {close}{end}"));
                    marked.push(format!("{open}{mid}{end}\n     {close}{end}"));
                }
            }
        }
    }
    for m in ["<div>b</div>", "<b>", "</b>", "<b/>", "<b> ", "<b>c", "<b></b>", "<b c='d'>", "<pre>", "</pre>", "<script>", "</script>", "<?a?>", "<!A>", "<!-- a -->", "<![CDATA[a]]>", "<a:b>", "<a@b.c>", "[^a]", "[^a]:", "[^a]: b", "[a]: b", "[a]", "[a](b)", "![a](b)", "1. b", "001) b", "2. b", "- b", "# b", "> b", "```", "``` b", "~~~", "***", "===", "---", "--", "| a |", "*b*", "`b`"] {
        for (a, b) in [("", " x y"), ("", "\nx y"), ("", " x\n    y"), ("", "\n    x y"), ("z ", "\nx"), ("", "\n    # x y"), ("", "\n    <p>x y"), ("", "\n    1. x y"), ("", "\n    [^b]: x")] {
            marked.push(format!("{a}{m}{b}"));
        }
    }
    let mut both = tags;
    both.extend(marked);
    let n = both.len() as u64;
    vec![World::new(
        "markers on lines indented too far",
        Gen::Fn(
            n * PLACES.len() as u64,
            Box::new(move |i| {
                let (b, (pre, post)) = (&both[(i % n) as usize], PLACES[(i / n) as usize]);
                Some(format!("{pre}{b}{post}"))
            }),
        ),
    )]
}
