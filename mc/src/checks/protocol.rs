//! C06 the code formatter's protocol, C07 nested Markdown, C08 reused formatters, C25 builders.
use super::Check;
use crate::canon::options;
use crate::engine::{fails, fmt, guarded, note_call, Cfg, Gen, Verdict, World};
use crate::json::quote;
use crate::run;
use crate::worlds::*;
use markdown_fmt::{FormatBuilder, MarkdownFormatter};
use pulldown_cmark::{BrokenLink, CodeBlockKind, CowStr, Event, Parser, Tag, TagEnd};
use std::cell::RefCell;
use std::rc::Rc;

/// A fenced code block as the parser sees it.
#[derive(Clone, Debug, PartialEq)]
struct Fenced {
    info: String,
    code: String,
    /// the column of its fence
    column: usize,
}

fn fenced(doc: &str) -> Vec<Fenced> {
    let mut cb = |b: BrokenLink<'_>| Some((b.reference.into_string().into(), CowStr::from("")));
    let mut out: Vec<Fenced> = vec![];
    let mut inside = false;
    for (e, r) in Parser::new_with_broken_link_callback(doc, options(), Some(&mut cb)).into_offset_iter() {
        match e {
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(info))) => {
                let line = doc[..r.start].rfind('\n').map_or(0, |i| i + 1);
                out.push(Fenced {
                    info: info.to_string(),
                    code: String::new(),
                    column: unicode_width(&doc[line..r.start]),
                });
                inside = true;
            }
            Event::Text(t) if inside => out.last_mut().unwrap().code.push_str(&t),
            Event::End(TagEnd::CodeBlock) => inside = false,
            _ => {}
        }
    }
    out
}

fn unicode_width(s: &str) -> usize {
    // only markers of containers come before a fence
    s.chars().count()
}

fn is_markdown(info: &str) -> bool {
    info.contains("markdown")
}

fn squeeze(s: &str) -> Vec<&str> {
    s.trim_end().lines().map(|l| if l.trim().is_empty() { "" } else { l }).collect()
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    info: String,
    code: String,
    indentation: usize,
    width: Option<usize>,
}

/// How the code formatter answers the n-th call.
fn answer(policy: usize, n: usize, code: &str) -> String {
    match policy {
        0 => code.to_string(),
        1 => format!("answer {n}"),
        2 => format!("\n  a{n}\n\n\n    b\nc  \n"),
        3 => String::new(),
        4 => format!("{}x\n\n\n", code.replace('\n', " ")),
        5 => format!("> q{n}\n* l\n\n[a]: b\n# h\n    i\n<!-- c"),
        _ => unreachable!(),
    }
}
const POLICIES: usize = 6;

/// Format with a code formatter that records its calls.
fn record(cfg: Cfg, doc: &str, policy: usize) -> Result<(String, Vec<Call>), String> {
    note_call();
    let calls = Rc::new(RefCell::new(vec![]));
    let log = calls.clone();
    let r = guarded(move || {
        let mut b = FormatBuilder::with_code_block_formatter(move |ctx, info, code| {
            let n = log.borrow().len();
            let a = answer(policy, n, &code);
            log.borrow_mut().push(Call { info: info.to_string(), code, indentation: ctx.indentation(), width: ctx.max_width() });
            a
        });
        b.max_width(cfg.w).reflow_text(cfg.reflow);
        b.build().format(doc)
    });
    match r {
        Ok(Ok(o)) => {
            let c = calls.borrow().clone();
            Ok((o, c))
        }
        Ok(Err(e)) => Err(format!("format returned an error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// The calls the documentation promises for a document: for each fenced block in order, those of
/// a Markdown block being the ones of its content as a document of its own.
fn promised(cfg: Cfg, doc: &str) -> Result<Vec<Call>, String> {
    let source = fenced(doc);
    let out = fmt(cfg, doc)?;
    let mut v = vec![];
    // (the columns of the fences are those of the output)
    let after = fenced(&out);
    if after.len() != source.len() || after.iter().zip(&source).any(|(a, b)| a.info != b.info) {
        return Err(String::new());
    }
    for (f, g) in source.into_iter().zip(after) {
        let column = g.column;
        if is_markdown(&f.info) {
            let inner = Cfg { w: cfg.w.map(|w| w.saturating_sub(column)), ..cfg };
            // content that formats to something with the fence of the block in it
            if squeeze(&fmt(inner, &f.code)?) != squeeze(&g.code) {
                return Err(String::new());
            }
            v.extend(promised(inner, &f.code)?);
        } else {
            v.push(Call { info: f.info, code: f.code, indentation: column, width: cfg.w });
        }
    }
    Ok(v)
}

fn protocol(doc: &str, cfg: Cfg) -> Verdict {
    let want = match promised(cfg, doc) {
        Ok(c) => c,
        Err(e) if e.is_empty() => return Verdict::Vacuous, // C05 speaks of these
        Err(e) => return fails("no-output", e),
    };
    for policy in 0..POLICIES {
        let (o, calls) = match record(cfg, doc, policy) {
            Ok(x) => x,
            Err(e) => return fails("no-output", e),
        };
        if calls != want {
            return fails("calls", format!("expected: {want:?}\ngot:      {calls:?}"));
        }
        if policy == 0 {
            let plain = run!(cfg, doc);
            if plain != o {
                return fails("answer-dropped", format!("identity: {}\nno callback: {}", quote(&o), quote(&plain)));
            }
        }
        // the answers stand where the code was (blank lines lose their white space, and the
        // answer the newlines at its end)
        if want.iter().any(|c| c.code.is_empty()) && policy == 0 {
            continue;
        }
        let out: Vec<Fenced> = fenced(&o);
        let source = fenced(doc);
        if out.len() != source.len() {
            return fails("answer-dropped", format!("policy {policy}: {}", quote(&o)));
        }
        let mut n = 0;
        for (f, src) in out.iter().zip(&source) {
            if is_markdown(&src.info) {
                n += promised(Cfg { w: cfg.w.map(|w| w.saturating_sub(f.column)), ..cfg }, &src.code).map_or(0, |v| v.len());
                continue;
            }
            let a = answer(policy, n, &src.code);
            let lines = |s: &str| -> Vec<String> {
                s.trim_end().lines().map(|l| if l.trim().is_empty() { String::new() } else { l.to_string() }).collect()
            };
            if lines(&f.code) != lines(&a) {
                return fails("answer-changed", format!("policy {policy}, answer: {}\noutput: {}", quote(&a), quote(&o)));
            }
            n += 1;
        }
    }
    if want.is_empty() { Verdict::Vacuous } else { Verdict::Holds }
}

const CODE: &[&str] = &[
    "```rust\nfn f() {\n    x\n}\n```",
    "~~~~ a b=c\n```\n\n> x\n~~~~",
    "```\ny\n```",
    "````x\n\n  z\n\n````",
    "```a\n```",
    "    indented\n\n    code",
];

fn protocol_worlds(quick: bool) -> Vec<World> {
    let cfgs = [Cfg::none(), Cfg::wrap(20), Cfg::reflow(7)];
    let small = ["text", "* a\n* b", "> q\n> r", "[^f]:\n    b", "***", "| a |\n| - |", "    i\n    j", "# h", "[d]: e", "<div>"];
    let mut blocks: Vec<&str> = CODE.to_vec();
    blocks.extend(["````markdown\n* a\n\n  ```rs\n  x y z\n  ```\n````", "````x-markdown-y\n> ```a\n> b\n> ```\n>\n> ~~~c\n> d\n> ~~~\n````", "`````markdown\n````markdown\n1. ```q\n   r\n   ```\n````\n```s\nt\n```\n`````"]);
    vec![
        product("two code blocks in containers", &[&blocks, &["\n\n", "\n"], &blocks]).wraps(stacks(8, 0, 2)).cfgs(&cfgs),
        product("code blocks among other blocks", &[&small, &["\n\n", "\n"], &blocks, &["\n\n", "\n"], &small, &["\n\n"], &blocks]).cfgs(&cfgs[..2]),
        World { cfgs: vec![Cfg::none(), Cfg::wrap(5)], ..product("one code block, deep", &[&blocks]).wraps(stacks(if quick { 5 } else { 8 }, 3, 4)) },
        lines(
            "lines",
            &["```", "~~~ r", "x", "", "  y", "* z", "1. ```", "> ```", "    w", "````", "> v", "   ~~~", "```markdown", "  ```a `b"],
            1,
            if quick { 5 } else { 6 },
        ),
        seq("info strings", &["\n\n```", "```", " ", "a", "\\", "&amp;", "markdown", "{}", "\n", "*", "~~~", "é"], 1, if quick { 5 } else { 6 }),
    ]
}

// ---------------------------------------------------------------- C07

/// What formatting gives when the Markdown blocks are not Markdown to the formatter, and a code
/// formatter formats their content with a formatter of its own.
fn by_hand(cfg: Cfg, doc: &str) -> Result<String, String> {
    note_call();
    let r = guarded(|| {
        let mut b = FormatBuilder::with_code_block_formatter(move |ctx, info, code| {
            if info.contains("mdwarknodo") {
                // (panics are caught outside of this run)
                let mut b = FormatBuilder::default();
                b.max_width(cfg.w.map(|w| w.saturating_sub(ctx.indentation()))).reflow_text(cfg.reflow);
                let inner = Cfg { w: cfg.w.map(|w| w.saturating_sub(ctx.indentation())), ..cfg };
                by_hand(inner, &code).unwrap_or_else(|e| panic!("{e}"))
            } else {
                code
            }
        });
        b.max_width(cfg.w).reflow_text(cfg.reflow);
        b.build().format(doc)
    });
    match r {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(p),
    }
}

fn nested_markdown(doc: &str, cfg: Cfg) -> Verdict {
    let o = run!(cfg, doc);
    let hidden = doc.replace("markdown", "mdwarknodo");
    let want = match by_hand(cfg, &hidden) {
        Ok(w) => w.replace("mdwarknodo", "markdown"),
        Err(e) => return fails("no-output", e),
    };
    if o != want {
        return fails("nested", format!("expected: {}\ngot:      {}", quote(&want), quote(&o)));
    }
    if fenced(doc).iter().any(|f| is_markdown(&f.info)) { Verdict::Holds } else { Verdict::Vacuous }
}

fn nested_worlds(quick: bool) -> Vec<World> {
    let cfgs = [Cfg::none(), Cfg::wrap(9), Cfg::reflow(12), Cfg::wrap(3), Cfg::reflow(30)];
    let text = "aa bb cc dd ee ff gg\nhh ii";
    let inner: Vec<String> = [
        text, "* aa bb cc dd ee ff\n*   gg", "> aa bb cc dd ee ff", "#  h #\n\n\n\naa bb cc dd ee ff", "|a|b|\n|-|-|", "", "[a]:  b\n\n aa bb cc dd ee", "***\n aa bb cc dd ee", "    code\n\naa bb cc dd ee",
        "[^a]: aa bb cc dd ee ff\n\ngg", "~~~x\n  aa bb cc dd\n~~~", "~~~markdown\n  aa bb cc dd\n\n~~~", "* ~~~ markdown\n    > aa bb cc dd ee ff gg\n  ~~~\n* aa bb cc dd ee",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let infos = ["markdown", " markdown", "x-markdown", "markdown,ignore", "rust"];
    let mut docs: Vec<String> = vec![];
    for i in &inner {
        for info in infos {
            for (open, close) in [("```", "```"), ("`````", "``````"), ("~~~~", "~~~~")] {
                if i.contains("~~~") && open.starts_with('~') && open.len() < 4 {
                    continue;
                }
                docs.push(format!("{open}{info}\n{i}\n{close}"));
            }
        }
    }
    // Whatever else an info string says, before and after the word, in both kinds of fences.
    let mut infos: Vec<String> = vec![];
    for c in (' '..='~').chain(['\t', 'é', '\u{a0}', '\u{3000}']) {
        for form in ["{c}markdown", "markdown{c}", "markdown {c}x", "x{c} markdown", "markdown,x{c}y", "{{c}markdown{c}}", "markdown{c}{c} markdown"] {
            infos.push(form.replace("{c}", &c.to_string()));
        }
    }
    let fences: Vec<String> = infos.iter().flat_map(|i| ["~~~", "```", "````"].map(|f| (f, i))).filter(|(f, i)| f.starts_with('~') || !i.contains('`')).map(|(f, i)| format!("{f}{i}\n{text}\n{f}")).collect();
    let fences: Vec<&str> = fences.iter().map(String::as_str).collect();
    let mut w = vec![product("info strings around the word", &[&["", "* ", "> a\n"], &fences, &["", "\n\naa bb cc dd ee ff gg"]]).cfgs(&cfgs[..3])];
    let blocks: Vec<&str> = docs.iter().map(String::as_str).collect();
    let pre = ["", "aa bb cc dd ee ff gg\n\n", "* aa bb cc dd ee ff\n\n"];
    let post = ["", "\n\naa bb cc dd ee ff gg hh ii", "\n\n* aa bb cc dd ee ff gg\n\n  > aa bb cc dd"];
    w.push(product("nested Markdown in containers", &[&pre[..1], &blocks, &post]).wraps(stacks(8, 0, if quick { 2 } else { 3 })).cfgs(&cfgs));
    w.push(product("nested Markdown among text", &[&pre, &blocks, &["\n\naa bb cc dd ee ff\n\n"], &blocks, &post]).cfgs(&cfgs[1..4]));
    w.push(
        lines("lines of nested Markdown", &["```markdown", "```", "aa bb cc dd ee", "* ff gg hh", "> ```markdown", "> ```", "  ii jj kk", "", "~~~ x markdown", "~~~", "> ll mm nn"], 1, if quick { 5 } else { 6 })
            .cfgs(&[Cfg::wrap(8), Cfg::reflow(9)]),
    );
    w
}

// ---------------------------------------------------------------- C08

/// The documents of the histories. Some of them make the code formatter panic or use a formatter
/// of its own.
const HISTORY_DOCS: &[&str] = &[
    "aa bb cc dd ee ff gg\nhh",
    "> ```panic\n> x\n> ```\n>\n> aa bb cc dd ee",
    "* ```markdown\n  aa bb cc dd ee ff\n\n  > ~~~panic\n  > x\n  > ~~~\n  ```\n",
    "1. ~~~~markdown\n   > ```markdown\n   > aa bb cc dd\n   > ```\n   > aa bb cc dd ee\n   ~~~~\n\naa bb cc dd ee ff",
    "> ```again\n> aa bb cc dd ee ff\n> ```\n>\n> aa bb cc dd ee ff",
    "[a]: b\n[^c]: d\n\n* |e|\n  |-|\n\n    # {#f}",
    "> * ```rust\n>   x\n",
    "",
];
const HISTORY_CFGS: &[Cfg] = &[Cfg::wrap(12), Cfg::reflow(9), Cfg::none()];

fn scripted(cfg: Cfg) -> MarkdownFormatter {
    let mut b = FormatBuilder::with_code_block_formatter(move |ctx, info, code| match info {
        "panic" => panic!("the code formatter panics"),
        "again" => {
            // a formatter used inside of a run of another one
            let mut b = FormatBuilder::default();
            b.max_width(Some(7));
            b.build().format(&code).unwrap()
        }
        _ => format!("{code}{} {:?}", ctx.indentation(), ctx.max_width()),
    });
    b.max_width(cfg.w).reflow_text(cfg.reflow);
    b.build()
}

fn outcome(f: &MarkdownFormatter, doc: &str) -> String {
    note_call();
    match guarded(|| f.format(doc)) {
        Ok(Ok(o)) => format!("ok {o}"),
        Ok(Err(e)) => format!("error {e}"),
        Err(_) => "panic".into(),
    }
}

/// A history: letters, each one an operation: document * formatters + formatter, or making a new
/// formatter in its place.
fn history(ops: &str, _: Cfg) -> Verdict {
    let n = HISTORY_CFGS.len();
    let mut fs: Vec<MarkdownFormatter> = HISTORY_CFGS.iter().map(|c| scripted(*c)).collect();
    for (step, c) in ops.bytes().enumerate() {
        let k = (c - b'A') as usize;
        let (f, d) = (k % n, k / n);
        if d == HISTORY_DOCS.len() {
            fs[f] = scripted(HISTORY_CFGS[f]);
            continue;
        }
        let got = outcome(&fs[f], HISTORY_DOCS[d]);
        let fresh = outcome(&scripted(HISTORY_CFGS[f]), HISTORY_DOCS[d]);
        if got != fresh {
            return fails(
                "history",
                format!(
                    "step {} formats {} with configuration {}\na fresh formatter: {}\nthis one: {}",
                    step + 1,
                    quote(HISTORY_DOCS[d]),
                    HISTORY_CFGS[f].text(),
                    quote(&fresh),
                    quote(&got)
                ),
            );
        }
    }
    Verdict::Holds
}

fn histories(quick: bool) -> Vec<World> {
    let ops: Vec<String> = (0..((HISTORY_DOCS.len() + 1) * HISTORY_CFGS.len())).map(|k| ((b'A' + k as u8) as char).to_string()).collect();
    // one operation over and over, then another
    let mut long = vec![];
    for a in &ops {
        for b in &ops {
            for n in if quick { vec![7, 16, 33] } else { (4..=70).collect() } {
                long.push(format!("{}{b}", a.repeat(n)));
            }
        }
    }
    let two: Vec<String> = ops.iter().filter(|o| (o.as_bytes()[0] - b'A') % 3 == 0).cloned().collect();
    vec![
        World::new("all histories on three formatters", Gen::Seq { toks: ops, min: 1, max: if quick { 3 } else { 4 }, pre: String::new(), post: String::new() }),
        list("an operation repeated", long),
        World::new("longer histories on one formatter", Gen::Seq { toks: two, min: 4, max: if quick { 5 } else { 6 }, pre: String::new(), post: String::new() }),
    ]
}

// ---------------------------------------------------------------- C25

const PROBE: &str = "aa bb cc dd ee ff gg hh\nii jj\nkk\n\n> ll mm nn oo pp\n> qq\n\n* ```x\n  c\n  ```\n";

/// First-fit filling of two-letter words.
fn filled(lines: &[&str], w: Option<usize>, reflow: bool, prefix: &str) -> String {
    let Some(w) = w else {
        return lines.iter().map(|l| format!("{prefix}{l}")).collect::<Vec<_>>().join("\n");
    };
    let joined = lines.join(" ");
    let lines: Vec<&str> = if reflow { vec![&joined] } else { lines.to_vec() };
    let mut out: Vec<String> = vec![];
    for l in lines {
        let mut cur = String::new();
        for word in l.split(' ') {
            if !cur.is_empty() && prefix.len() + cur.len() + 1 + word.len() > w {
                out.push(format!("{prefix}{cur}"));
                cur.clear();
            }
            if !cur.is_empty() {
                cur.push(' ');
            }
            cur.push_str(word);
        }
        out.push(format!("{prefix}{cur}"));
    }
    out.join("\n")
}

/// What a formatter with these values gives for the probe.
fn probe_model(w: Option<usize>, reflow: bool, code: char) -> String {
    let code = match code {
        '-' => "c".to_string(),
        k => format!("{k} 2 {w:?}"),
    };
    format!(
        "{}\n\n{}\n\n* ```x\n  {code}\n  ```\n",
        filled(&["aa bb cc dd ee ff gg hh", "ii jj", "kk"], w, reflow, ""),
        filled(&["ll mm nn oo pp", "qq"], w, reflow, "> "),
    )
}

/// Two builders and a sequence of calls on them. Letters: lower case for the first one.
fn builder_calls(ops: &str, _: Cfg) -> Verdict {
    let (first, ops) = ops.split_at(2);
    struct B {
        b: FormatBuilder,
        w: Option<usize>,
        reflow: bool,
        code: char,
    }
    fn code(k: char) -> impl Fn(&markdown_fmt::CodeBlockContext, &str, String) -> String {
        move |ctx: &markdown_fmt::CodeBlockContext, _: &str, _: String| format!("{k} {} {:?}", ctx.indentation(), ctx.max_width())
    }
    let mut bs: Vec<B> = first
        .chars()
        .map(|c| match c {
            'd' => B { b: FormatBuilder::default(), w: None, reflow: false, code: '-' },
            _ => B { b: FormatBuilder::with_code_block_formatter(code('W')), w: None, reflow: false, code: 'W' },
        })
        .collect();
    for o in ops.chars() {
        let b = &mut bs[usize::from(o.is_ascii_uppercase())];
        match o.to_ascii_lowercase() {
            'n' => {
                b.b.max_width(None);
                b.w = None;
            }
            't' => {
                b.b.max_width(Some(10));
                b.w = Some(10);
            }
            'u' => {
                b.b.max_width(Some(17));
                b.w = Some(17);
            }
            'z' => {
                b.b.max_width(Some(0));
                b.w = Some(0);
            }
            'r' => {
                b.b.reflow_text(true);
                b.reflow = true;
            }
            's' => {
                b.b.reflow_text(false);
                b.reflow = false;
            }
            'a' => {
                b.b.code_block_formatter(code('A'));
                b.code = 'A';
            }
            'b' => {
                b.b.code_block_formatter(code('B'));
                b.code = 'B';
            }
            // a chain of calls
            _ => {
                b.b.reflow_text(true).max_width(Some(9)).code_block_formatter(code('C')).reflow_text(false);
                b.w = Some(9);
                b.reflow = false;
                b.code = 'C';
            }
        }
    }
    for b in bs {
        let want = probe_model(b.w, b.reflow, b.code);
        let f = b.b.build();
        for round in 0..2 {
            note_call();
            let got = match guarded(|| f.format(PROBE)) {
                Ok(Ok(o)) => o,
                e => return fails("no-output", format!("{e:?}")),
            };
            if got != want {
                return fails(
                    "options",
                    format!("width {:?}, reflow {}, code formatter {}, use {round}\nexpected: {}\ngot:      {}", b.w, b.reflow, b.code, quote(&want), quote(&got)),
                );
            }
        }
    }
    Verdict::Holds
}

fn builder_worlds(quick: bool) -> Vec<World> {
    let one = v(&["n", "t", "u", "z", "r", "s", "a", "b", "c"]);
    let both: Vec<String> = one.iter().flat_map(|o| [o.clone(), o.to_uppercase()]).collect();
    let mut w = vec![];
    for pre in ["dd", "wd", "ww"] {
        w.push(World::new("calls on one builder", Gen::Seq { toks: one.clone(), min: 0, max: if quick { 5 } else { 6 }, pre: pre.into(), post: String::new() }));
        w.push(World::new("calls on two builders", Gen::Seq { toks: both.clone(), min: 1, max: if quick { 4 } else { 5 }, pre: pre.into(), post: String::new() }));
    }
    w
}

/// Settings of the width one after another, with and without reflow: the last one counts. The case
/// is a list of widths (`-`: none), ended by `r` or `s`.
fn width_settings(case: &str, _: Cfg) -> Verdict {
    let mut b = FormatBuilder::default();
    let (mut w, mut reflow) = (None, false);
    for op in case.split(' ') {
        match op {
            "r" | "s" => {
                reflow = op == "r";
                b.reflow_text(reflow);
            }
            _ => {
                w = op.parse::<usize>().ok();
                b.max_width(w);
            }
        }
    }
    let want = probe_model(w, reflow, '-');
    note_call();
    match guarded(|| b.build().format(PROBE)) {
        Ok(Ok(got)) if got == want => Verdict::Holds,
        Ok(Ok(got)) => fails("width", format!("width {w:?}, reflow {reflow}\nexpected: {}\ngot:      {}", quote(&want), quote(&got))),
        e => fails("no-output", format!("{e:?}")),
    }
}

fn width_worlds(quick: bool) -> Vec<World> {
    let mut all: Vec<String> = (0..=if quick { 36 } else { 60 }).map(|w| w.to_string()).collect();
    for w in [79, 80, 81, 100, 120, 255, 256, 257, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX] {
        all.push(w.to_string());
    }
    all.push("-".into());
    let all: Vec<&str> = all.iter().map(String::as_str).collect();
    let reflow: &[&str] = &["", "r ", "s "];
    let end: &[&str] = &["", " r", " s"];
    vec![
        product("one width", &[reflow, &all, end]),
        product("two widths", &[reflow, &all, &[" ", " r ", " s "], &all, end]),
    ]
}

/// Every width in turn, with words that make lines of every length around it. The case is the
/// setting before, the width, and whether text is reflowed.
fn large_widths(case: &str, _: Cfg) -> Verdict {
    let ops: Vec<&str> = case.split(' ').collect();
    let (before, w, reflow) = (ops[0].parse::<usize>().ok(), ops[1].parse::<usize>().unwrap(), ops[2] == "r");
    let words: Vec<String> = (0..w.div_ceil(2) + 8).map(|i| "abc"[..1 + (i * i + i / 3) % 3].to_string()).collect();
    let half = words.len() / 2;
    let paragraph = format!("{}\n{}", words[..half].join(" "), words[half..].join(" "));
    let doc = format!("{paragraph}\n\n```x\n```\n");
    let fill = |words: &[String]| {
        let mut out: Vec<String> = vec![];
        for word in words {
            match out.last_mut() {
                Some(l) if l.len() + 1 + word.len() <= w => {
                    l.push(' ');
                    l.push_str(word);
                }
                _ => out.push(word.clone()),
            }
        }
        out.join("\n")
    };
    let want = if reflow { fill(&words) } else { format!("{}\n{}", fill(&words[..half]), fill(&words[half..])) };
    let want = format!("{want}\n\n```x\n{w}\n```\n");
    let mut b = FormatBuilder::default();
    b.max_width(before).reflow_text(reflow).code_block_formatter(|ctx, _, _| ctx.max_width().map_or("none".into(), |w| w.to_string()));
    b.max_width(Some(w));
    note_call();
    match guarded(|| b.build().format(&doc)) {
        Ok(Ok(got)) if got == want => Verdict::Holds,
        Ok(Ok(got)) => fails("width", format!("width {w}, reflow {reflow}\nexpected: {}\ngot:      {}", quote(&want), quote(&got))),
        e => fails("no-output", format!("{e:?}")),
    }
}

fn large_width_worlds(quick: bool) -> Vec<World> {
    let widths: Vec<String> = (1..=if quick { 1300 } else { 5000 }).map(|w| w.to_string()).collect();
    let widths: Vec<&str> = widths.iter().map(String::as_str).collect();
    vec![product("every width", &[&["- ", "0 ", "7 ", "80 "], &widths, &[" r", " s"]])]
}

// ---------------------------------------------------------------- C28

/// Every way to have a document formatted.
fn entry_points(doc: &str, cfg: Cfg) -> Verdict {
    let want = fmt(cfg, doc);
    fn shown(r: Result<Result<String, std::fmt::Error>, String>) -> Result<String, String> {
        note_call();
        match r {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(e)) => Err(format!("format returned an error: {e}")),
            Err(p) => Err(format!("panic: {p}")),
        }
    }
    let differs = |how: &str, want: &Result<String, String>, got: &Result<String, String>| {
        fails("entry-points", format!("{how} gives {}\nand not {}", quote(&format!("{got:?}")), quote(&format!("{want:?}"))))
    };
    let with = |b: FormatBuilder| {
        let mut b = b;
        b.max_width(cfg.w).reflow_text(cfg.reflow);
        b
    };
    let echo = || with(FormatBuilder::with_code_block_formatter(|_, _, code| code));
    let change = || with(FormatBuilder::with_code_block_formatter(|ctx, info, code| format!("{info} {} {:?}\n{code}", ctx.indentation(), ctx.max_width())));

    let mut ways = vec![
        ("rewrite_markdown_with_builder", shown(guarded(|| markdown_fmt::rewrite_markdown_with_builder(doc, cfg.builder())))),
        ("a code formatter that returns the code it got", shown(guarded(|| echo().build().format(doc)))),
    ];
    if cfg.w.is_none() {
        ways.push(("reflow without a width", shown(guarded(|| Cfg { w: None, reflow: true }.builder().build().format(doc)))));
        ways.push(("rewrite_markdown", shown(guarded(|| markdown_fmt::rewrite_markdown(doc)))));
    }
    for (how, got) in &ways {
        if *got != want {
            return differs(how, &want, got);
        }
    }
    let f = change().build();
    let first = shown(guarded(|| f.format(doc)));
    let again = shown(guarded(|| f.format(doc)));
    if first != again {
        return differs("the second use of a formatter with a code formatter", &first, &again);
    }
    let other = shown(guarded(|| markdown_fmt::rewrite_markdown_with_builder(doc, change())));
    if other != first {
        return differs("rewrite_markdown_with_builder with a code formatter", &first, &other);
    }
    let late = || {
        let mut b = with(FormatBuilder::default());
        b.code_block_formatter(|ctx, info, code| format!("{info} {} {:?}\n{code}", ctx.indentation(), ctx.max_width()));
        b
    };
    let other = shown(guarded(|| late().build().format(doc)));
    if other != first {
        return differs("a code formatter that is set after the other options", &first, &other);
    }
    match want {
        Ok(_) => Verdict::Holds,
        // C01 speaks of that
        Err(_) => Verdict::Vacuous,
    }
}

fn entry_worlds(quick: bool) -> Vec<World> {
    let mut w = text_chars(if quick { 4 } else { 5 });
    w.push(lines("lines", LINES, 1, if quick { 3 } else { 4 }));
    w.push(product("leaf pairs in containers", &[LEAVES, SEPS, LEAVES]).wraps(stacks(8, 0, if quick { 1 } else { 2 })));
    w.push(lines("fences in containers", &["```", "~~~x", "```markdown", "> ```", "* ```rust", "  ```", "  a", "    b", "> c", "", "[l]: u", "word word word"], 1, if quick { 4 } else { 5 }));
    w.into_iter().map(|x| x.cfgs(&[Cfg::none(), Cfg::wrap(0), Cfg::wrap(5), Cfg::reflow(9)])).collect()
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("C06", "Code block formatter protocol").part(protocol_worlds, protocol).part(super::scale::blocks, protocol),
        Check::new("C07", "Nested Markdown").part(nested_worlds, nested_markdown).part(super::scale::blocks, nested_markdown),
        Check::new("C08", "Formatters can be reused").part(histories, history),
        Check::new("C25", "Builder options").part(builder_worlds, builder_calls).part(width_worlds, width_settings).part(large_width_worlds, large_widths),
        Check::new("C28", "All entry points agree").part(entry_worlds, entry_points),
    ]
}
