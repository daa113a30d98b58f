//! Documents with one size parameter, from one up to a bound far above the other worlds' (which are
//! small in every direction): what holds for 3 items, columns, spaces or levels must hold for 300.
//! Each case is source NUL expected output.
use crate::ast::canonical_table;
use crate::engine::{Cfg, Gen, World};

type Family = (&'static str, &'static str, usize, fn(usize) -> Option<(String, String)>);

fn fixed(s: String) -> Option<(String, String)> {
    Some((s.clone(), s))
}

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

fn each(n: usize, f: impl Fn(usize) -> String, sep: &str) -> String {
    (1..=n).map(f).collect::<Vec<_>>().join(sep)
}

/// n containers of the kinds in turn, with one paragraph in the middle
fn deep(n: usize, kinds: &[(&str, &str)], body: &[&str]) -> String {
    let (mut first, mut rest) = (String::new(), String::new());
    for k in 0..n {
        let (f, r) = kinds[k % kinds.len()];
        // quotes directly in quotes have no space in between
        if f == "> " && rest.ends_with("> ") && first.ends_with("> ") {
            first.pop();
            rest.pop();
        }
        first.push_str(f);
        rest.push_str(r);
    }
    let mut o = String::new();
    for (i, l) in body.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        o.push_str(if i == 0 { &first } else { &rest });
        o.push_str(l);
        if l.is_empty() {
            o.truncate(o.trim_end_matches(' ').len());
        }
    }
    o
}

const Q: (&str, &str) = ("> ", "> ");
const B: (&str, &str) = ("* ", "  ");
const D: (&str, &str) = ("- ", "  ");
const O: (&str, &str) = ("1. ", "   ");
const T: (&str, &str) = ("10) ", "    ");

/// (property, name, how far in a quick run, document)
const FAMILIES: &[Family] = &[
    // code
    ("C05", "fence of n backticks", 300, |n| (n > 2).then_some(())
        .and_then(|_| fixed(format!("a\n\n{0} rust\nx\n{1}\n{0}\n\nb", rep("`", n), rep("`", n - 1))))),
    ("C05", "fence of n tildes", 300, |n| (n > 2).then_some(())
        .and_then(|_| fixed(format!("> {0}\n> x\n> {1}\n> ```\n> {0}", rep("~", n), rep("~", n - 1))))),
    ("C05", "code of n lines", 300, |n| fixed(format!("* ```\n  {}\n  ```", each(n, |k| format!("line {k}"), "\n  ")))),
    ("C05", "code with n blank lines", 300, |n| fixed(format!("```\na\n{}b\n```", rep("\n", n)))),
    ("C05", "code indented by n spaces", 300, |n| fixed(format!("1. ```\n   a\n   {}b\n   ```", rep(" ", n)))),
    ("C05", "indented code with n more spaces", 300, |n| fixed(format!("    a\n    {}b\n    c", rep(" ", n)))),
    ("C05", "indented code with n blank lines", 300, |n| fixed(format!("    a\n{}    b", rep("\n", n + 1)))),
    ("C05", "indented code of n lines in an item", 300, |n| fixed(format!("* t\n\n      {}", each(n, |k| format!("line {k}"), "\n      ")))),
    ("C05", "info string of n words", 300, |n| fixed(format!("~~~ {}\nx\n~~~", each(n, |k| format!("w{k}"), " ")))),
    ("C05", "n fences in a row", 100, |n| fixed(each(n, |k| format!("{0}\n{k}\n{0}", rep(if k % 2 == 0 { "`" } else { "~" }, 3 + k % 4)), "\n\n"))),
    ("C05", "fence in n quotes", 60, |n| fixed(deep(n, &[Q], &["```", "x", "", "  y", "```"]))),
    ("C05", "fence in n items", 60, |n| fixed(deep(n, &[B, O, D, T], &["```", "x", "", "  y", "```"]))),
    ("C05", "indented code in n items", 60, |n| fixed(deep(n, &[B, O, D, T], &["t", "", "    x", "", "      y"]))),
    ("C05", "code in n quotes and items", 60, |n| fixed(deep(n, &[Q, O, T], &["```", "x", "  y", "```"]))),
    // lists
    ("C12", "n bullets", 300, |n| fixed(each(n, |k| format!("- item {k}"), "\n"))),
    ("C12", "n loose bullets", 300, |n| fixed(each(n, |k| format!("+ item {k}"), "\n\n"))),
    ("C12", "n numbers", 300, |n| fixed(each(n, |k| format!("{k}. item"), "\n"))),
    ("C12", "n numbers from 95", 300, |n| fixed(each(n, |k| format!("{}) item\n{}more", k + 95, rep(" ", format!("{}) ", k + 95).len())), "\n"))),
    ("C12", "n ones", 300, |n| fixed(each(n, |_| "1. item".into(), "\n"))),
    ("C12", "n padded numbers", 300, |n| fixed(each(n, |k| format!("{k:05}. item"), "\n"))),
    ("C12", "starting at n", 1200, |n| fixed(format!("{n}. item\n{}more", rep(" ", format!("{n}. ").len())))),
    ("C12", "numbers of one to nine digits", 9 * 9 * 10, |n| {
        let n = n - 1;
        let (digits, zeros, d) = (n % 9 + 1, n / 9 % 9, n / 81);
        (zeros <= digits).then_some(())?;
        let num = format!("{}{}", rep("0", zeros), rep(&d.to_string(), digits - zeros));
        let i = rep(" ", digits + 2);
        fixed(format!("{num}. a\n{i}b\n\n{i}> c\n\n{i}* d\n{num}. e"))
    }),
    ("C12", "n task items", 300, |n| fixed(each(n, |k| format!("* [{}] item {k}", if k % 3 == 0 { "x" } else { " " }), "\n"))),
    ("C12", "n lists in a row", 100, |n| fixed(each(n, |k| format!("{0} a{k}\n{0} b", ["*", "-", "+"][k % 3]), "\n\n"))),
    ("C12", "n lists in a row, tight", 100, |n| fixed(each(n, |k| format!("{0} a{k}\n{0} b", ["*", "-", "+"][k % 3]), "\n"))),
    ("C12", "an item with n paragraphs", 300, |n| fixed(format!("1. {}\n2. x", each(n, |k| format!("p{k}"), "\n\n   ")))),
    ("C12", "an item with n lines", 300, |n| fixed(format!("* {}\n* x", each(n, |k| format!("l{k}"), "\n  ")))),
    ("C12", "n lists in one another", 60, |n| fixed(deep(n, &[B, D], &["text", "more"]))),
    ("C12", "n ordered lists in one another", 60, |n| fixed(deep(n, &[O, T, O], &["text", "more", "", "and"]))),
    ("C12", "n nested lists on lines of their own", 60, |n| fixed(each(n, |k| format!("{}* l{k}", rep("  ", k - 1)), "\n"))),
    ("C12", "n nested ordered lists, then back", 60, |n| {
        fixed(format!("{}\n{}", each(n, |k| format!("{}1. l{k}", rep("   ", k - 1)), "\n"), each(n, |k| format!("{}2. b{k}", rep("   ", n - k)), "\n")))
    }),
    ("C12", "n items with lists", 100, |n| fixed(each(n, |k| format!("{k}. a\n{}- b{k}", rep(" ", format!("{k}. ").len())), "\n"))),
    // headings
    ("C13", "heading of n words", 300, |n| fixed(format!("## {}", each(n, |k| format!("w{k}"), " ")))),
    ("C13", "n classes", 100, |n| fixed(format!("# h {{{}}}", each(n, |k| format!(".c{k}"), " ")))),
    ("C13", "n attributes", 100, |n| fixed(format!("> h\n> i {{#i {}}}\n> ===", each(n, |k| format!("k{k}=v{k}"), " ")))),
    ("C13", "underline of n", 300, |n| fixed(format!("h\n{}\n\ni\n{}", rep("=", n), rep("-", n)))),
    ("C13", "underlined text of n lines", 300, |n| fixed(format!("{}\n---", each(n, |k| format!("l{k}"), "\n")))),
    ("C13", "closing sequence of n", 300, |n| Some((format!("#  h {}", rep("#", n)), "# h".into()))),
    ("C13", "n spaces around a heading", 300, |n| Some((format!("###{0}h{0}###{0}", rep(" ", n)), "### h".into()))),
    ("C13", "n headings", 100, |n| fixed(each(n, |k| format!("{} h{k}", rep("#", k % 6 + 1)), "\n"))),
    ("C13", "heading in n containers", 60, |n| fixed(deep(n, &[B, Q, T], &["# h {#i}", "", "a", "b", "---"]))),
    // tables
    ("C14", "n columns", 120, |n| {
        let h: Vec<String> = (0..n).map(|k| format!("h{k}")).collect();
        let r: Vec<String> = (0..n).map(|k| rep("x", k % 7)).collect();
        let h: Vec<&str> = h.iter().map(|s| &**s).collect();
        let mut r: Vec<&str> = r.iter().map(|s| &**s).collect();
        r[0] = "y";
        let d: Vec<&str> = (0..n).map(|k| ["---", ":--", "--:", ":-:"][k % 4]).collect();
        let src = format!("|{}|\n|{}|\n|{}|", h.join("|"), d.join("|"), r.join("|"));
        Some((src, canonical_table(&h, &d, &[r]).join("\n")))
    }),
    ("C14", "n rows", 300, |n| {
        let rows: Vec<String> = (0..n).map(|k| k.to_string()).collect();
        let rows: Vec<Vec<&str>> = rows.iter().map(|s| vec![&**s, "x"]).collect();
        fixed(canonical_table(&["a", "b"], &["--:", ":--"], &rows).join("\n"))
    }),
    ("C14", "cell of width n, every alignment", 4 * 140, |n| {
        let (k, a) = ((n - 1) / 4 + 1, (n - 1) % 4);
        let c = rep("x", k);
        let d = ["---", ":--", "--:", ":-:"][a];
        let rows = vec![vec![&*c, "a"], vec!["b", "cc"], vec!["ddd", ""], vec!["", "世"]];
        let want = canonical_table(&["h", "i"], &[d, d], &rows);
        let src: Vec<String> = std::iter::once(format!("h|i\n{d}|{d}")).chain(rows.iter().map(|r| format!("|{}|{}|", r[0], r[1]))).collect();
        Some((src.join("\n"), want.join("\n")))
    }),
    ("C14", "header of width n, every alignment", 4 * 140, |n| {
        let (k, a) = ((n - 1) / 4 + 1, (n - 1) % 4);
        let c = rep("世", k);
        let d = ["-", ":-", "-:", ":-:"][a];
        Some((format!("> |{c}|\n> |{d}|\n> |é|"), format!("> {}", canonical_table(&[&*c], &[d], &[vec!["é"]]).join("\n> "))))
    }),
    ("C14", "delimiter row with n dashes", 300, |n| Some((format!("|a|\n|{}:|\n|b|", rep("-", n)), "| a   |\n| --: |\n| b   |".into()))),
    ("C14", "cells with n spaces around", 300, |n| Some((format!("|{0}a{0}|\n|{0}-{0}|\n|{0}b{0}|", rep(" ", n.min(1000))), "| a   |\n| --- |\n| b   |".into()))),
    ("C14", "row with n surplus cells", 300, |n| Some((format!("|a|b|\n|-|-|\n|1|2|{}", rep("x|", n)), "| a   | b   |\n| --- | --- |\n| 1   | 2   |".into()))),
    ("C14", "table in n containers", 60, |n| fixed(deep(n, &[B, Q, T], &["| a   |", "| :-- |", "| b   |"]))),
    // blank lines
    ("C15", "n blank lines between paragraphs", 300, |n| fixed(format!("a{}b", rep("\n", n + 1)))),
    ("C15", "n blank lines in a quote", 300, |n| fixed(format!("> a{}\n> b", rep("\n>", n)))),
    ("C15", "n blank lines between items", 300, |n| fixed(format!("* a{}* b", rep("\n", n + 1)))),
    ("C15", "n blank lines in an item", 300, |n| fixed(format!("- a{}  b\n\n  c", rep("\n", n + 1)))),
    ("C15", "n blank lines around code", 300, |n| fixed(format!("* a{0}  ```\n  x\n  ```{0}  b", rep("\n", n + 1)))),
    ("C15", "n blank lines after a table", 300, |n| fixed(format!("| a   |\n| --- |{0}# h{0}[a]: b", rep("\n", n + 1)))),
    ("C15", "n blank lines first", 300, |n| Some((format!("{}a\n", rep("\n", n)), "a\n".into()))),
    ("C15", "n blank lines last", 300, |n| Some((format!("a{}", rep("\n", n)), "a\n".into()))),
    ("C15", "n blank lines with spaces", 300, |n| Some((format!("a\n{}b", rep("   \n", n)), format!("a\n{}b", rep("\n", n))))),
    ("C15", "n paragraphs", 300, |n| fixed(each(n, |k| format!("p{k}"), "\n\n"))),
    // links
    ("C18", "destination of n characters", 1000, |n| fixed(format!("[a]({} \"t\") b", rep("u", n)))),
    ("C18", "destination with n parentheses", 30, |n| fixed(format!("[a]({}x{}) b", rep("(", n), rep(")", n)))),
    ("C18", "destination with n escaped parentheses", 300, |n| fixed(format!("[a]({}) b", rep("\\(", n)))),
    ("C18", "title of n words", 300, |n| fixed(format!("![a](b '{}') c", each(n, |k| format!("t{k}"), " ")))),
    ("C18", "label of n characters", 990, |n| fixed(format!("[t][{0}]\n\n[{0}]: u", rep("l", n)))),
    ("C18", "label of n words", 150, |n| fixed(format!("[{0}]\n\n[{0}]: u", each(n, |k| format!("l{k}"), " ")))),
    ("C18", "text with n brackets", 60, |n| fixed(format!("[{}a{}](b)", rep("[", n), rep("]", n)))),
    ("C18", "text of n lines", 300, |n| Some((format!("[{}](b)", each(n, |k| format!("l{k}"), "\n")), format!("[{}](b)", each(n, |k| format!("l{k}"), " "))))),
    ("C18", "n spaces around the parts", 300, |n| Some((format!("[{0}a{0}]({0}b{0}\"t\"{0})", rep(" ", n)), "[a](b \"t\")".into()))),
    ("C18", "n links", 300, |n| fixed(each(n, |k| format!("[a{k}](b{k})"), " "))),
    ("C18", "n references", 300, |n| fixed(format!("{}\n\n{}", each(n, |k| format!("[a{k}]"), "\n"), each(n, |k| format!("[a{k}]: b{k}"), "\n")))),
    ("C18", "n images in one another", 30, |n| fixed(format!("{}a{}", rep("![", n), rep("](b)", n)))),
    ("C18", "autolink of n characters", 300, |n| fixed(format!("<http://{}>", rep("a/", n)))),
    ("C04", "n definitions", 300, |n| fixed(each(n, |k| format!("[l{k}]: u{k} 't{k}'"), "\n"))),
    ("C04", "n definitions apart", 300, |n| fixed(each(n, |k| format!("[l{k}]: <u {k}>"), "\n\n"))),
    ("C04", "definitions between n blocks", 100, |n| fixed(each(n, |k| format!("* p{k}\n\n  [l{k}]: u\n\n> q\n\n[m{k}]: v"), "\n\n"))),
    ("C04", "definition with a title of n lines", 300, |n| Some((format!("[a]: b '{}'", each(n, |k| format!("t{k}"), "\n")), format!("[a]: b '{}'", each(n, |k| format!("t{k}"), " "))))),
    ("C04", "definition with n spaces", 300, |n| Some((format!("[a]:{0}b{0}(t){0}\n[c]: d", rep(" ", n)), "[a]: b (t)\n[c]: d".into()))),
    ("C04", "destination of n characters", 300, |n| fixed(format!("> [a]: {}\n> [b]: <{}>", rep("u", n), rep("v ", n)))),
    ("C04", "definition in n containers", 60, |n| fixed(deep(n, &[B, Q, T], &["[a]: b 't'", "", "x"]))),
    // inline
    ("C27", "code span of n backticks", 300, |n| fixed(format!("a {0} b{1}c {0} d", rep("`", n), rep("`", n + 1)))),
    ("C27", "hard break of n spaces", 300, |n| (n > 1).then_some(()).and_then(|_| fixed(format!("a{}\nb", rep(" ", n))))),
    ("C27", "n hard breaks", 300, |n| fixed(each(n, |k| format!("l{k}"), if n % 2 == 0 { "\\\n" } else { "  \n" }))),
    ("C27", "n backslashes", 300, |n| fixed(format!("a{}b", rep("\\\\", n)))),
    ("C27", "n escapes", 300, |n| fixed(rep("\\*", n))),
    ("C27", "n emphasised words", 300, |n| fixed(each(n, |k| format!("{0}w{k}{0}", ["*", "_", "**", "__", "~~", "`"][k % 6]), " "))),
    ("C27", "n emphases in one another", 60, |n| fixed(format!("{}a{}", rep("*a **b ", n), rep(" c** d*", n)))),
    ("C27", "n entities", 300, |n| fixed(rep("&amp;", n))),
    ("C27", "word of n characters", 1000, |n| fixed(format!("a {} b", rep("w", n)))),
    ("C27", "n underscores in a word", 300, |n| fixed(format!("w{}", rep("_w", n)))),
    ("C27", "n escaped line starts", 300, |n| fixed(format!("a\n{}", each(n, |k| ["\\# b", "\\- b", "\\+ b", "1\\. b", "\\> b"][k % 5].into(), "\n")))),
    ("C27", "code span of n lines", 300, |n| fixed(format!("`{}` b", each(n, |k| format!("l{k}"), "\n")))),
    ("C27", "n spaces at the end of a line of a code span", 300, |n| fixed(format!("x `a{}\nb` y", rep(" ", n)))),
    ("C27", "n spaces in a code span in a quote", 300, |n| fixed(format!("> x `{0}a{0}b{0}` y", rep(" ", n)))),
    ("C27", "n spaces at the end of a line of a tag", 300, |n| fixed(format!("* x <b{}\n  c='{}'> y", rep(" ", n), rep(" ", n)))),
    ("C27", "n spaces between words", 300, |n| fixed(format!("a{0}b *c{0}d* **e{0}f**", rep(" ", n)))),
    ("C27", "code spans with n backslashes", 300, |n| fixed(format!("`a{0}` b `{0}`", rep("\\", n)))),
    ("C27", "comment of n characters", 300, |n| fixed(format!("a <!-- {} --> b <?{}?>", rep("-x", n), rep("?", n)))),
    ("C27", "n hard breaks with escapes after them", 100, |n| fixed(each(n, |k| ["a", "\\# b", "\\- c", "\\+ d", "\\> e"][k % 5].into(), "\\\n"))),
    ("C27", "paragraph of n lines with a code span over two at its end", 100, |n| fixed(format!("> {}\n> `b\n> c`", each(n, |k| format!("l{k}"), "\n> ")))),
    ("C27", "n code spans that look like fences", 60, |n| fixed(format!("{}", each(n, |k| format!("a ```x{k}``` b"), "\n")))),
    ("C18", "title with n spaces", 300, |n| fixed(format!("[a](b \"t{0}u\") ![a](b 't{0}u') [a](b (t{0}u))", rep(" ", n)))),
    ("C18", "angle destination with n spaces", 300, |n| fixed(format!("[a](<b{0}c>) ![d](<e{0}f> 'g')", rep(" ", n)))),
    ("C18", "text with n escapes", 300, |n| fixed(format!("[a{0}b](c) ![{0}](d)", rep("\\]\\[", n)))),
    ("C18", "title with n escapes", 300, |n| fixed(format!("[a](b \"{}\") [c](d '{}')", rep("\\\"", n), rep("\\'", n)))),
    ("C18", "text with n code spans", 100, |n| fixed(format!("[{}](b)", each(n, |k| format!("`]{k}[`"), " ")))),
    ("C18", "link after n lines", 100, |n| fixed(format!("* {}\n  [a](b 'c') ![d][e] [f]\n\n[e]: g", each(n, |k| format!("l{k}"), "\n  ")))),
    ("C18", "title on n lines in a quote", 100, |n| fixed(format!("> [a](b '{}') c", each(n, |k| format!("t{k}"), "\n> ")))),
    ("C18", "email of n characters", 100, |n| fixed(format!("a <{}@b.c>", rep("d", n)))),
    ("C04", "label with n escapes", 300, |n| fixed(format!("[a{0}b]: c\n\n[a{0}b]", rep("\\]", n)))),
    ("C04", "title with n escapes", 300, |n| fixed(format!("> [a]: b \"{}\"\n> [c]: d '{}'\n> [e]: f ({})", rep("\\\"", n), rep("\\'", n), rep("\\)", n)))),
    ("C04", "destination with n backslashes", 300, |n| fixed(format!("[a]: {0}x\n[b]: <{0}{0}>", rep("\\", n)))),
    ("C04", "definition after n lines of a paragraph", 300, |n| fixed(format!("* {}\n\n  [a]: b\n* c", each(n, |k| format!("l{k}"), "\n  ")))),
    ("C04", "n blank lines between definitions", 300, |n| fixed(format!("> [a]: b{}\n> [c]: d", rep("\n>", n)))),
    ("C04", "n definitions in an item, then n in a quote", 100, |n| fixed(format!("1. {}\n\n> {}", each(n, |k| format!("[l{k}]: u"), "\n   "), each(n, |k| format!("[m{k}]: v"), "\n> ")))),
    ("C05", "info string with n spaces", 300, |n| fixed(format!("``` a{0}b\nx\n```\n\n~~~c{0}d\nx\n~~~", rep(" ", n)))),
    ("C05", "n spaces at the ends of lines of code", 300, |n| fixed(format!("> ```\n> a{0}\n> b{0}\n> ```", rep(" ", n)))),
    ("C05", "code line of n characters", 1000, |n| fixed(format!("* ```\n  {0}\n  ```\n\n      {0}", rep("x", n)))),
    ("C05", "n fence-like lines in code", 100, |n| fixed(format!("````\n{}\n````", each(n, |k| ["```", "~~~", "``` x", "    ```"][k % 4].into(), "\n")))),
    ("C12", "n empty items", 300, |n| fixed(each(n, |k| if k % 3 == 0 { "* a".into() } else { "*".to_string() }, "\n") + "\n* b")),
    ("C12", "n changes of the delimiter", 100, |n| fixed(each(n, |k| format!("1{} a{k}", [".", ")"][k % 2]), "\n"))),
    ("C12", "an item with n blocks", 100, |n| fixed(format!("10. a\n\n    {}\n11. z", each(n, |k| ["b", "> c", "```\n    d\n    ```", "* e", "# f", "<p>\n    g\n    </p>", "| h   |\n    | --- |"][k % 7].into(), "\n\n    ")))),
    ("C13", "id of n characters", 300, |n| fixed(format!("# a {{#{0} .{0} {0}={0}}}", rep("i", n)))),
    ("C13", "heading with n escapes", 300, |n| fixed(format!("# a {0} b\n\nc {0} d\n---", rep("\\#", n)))),
    ("C13", "heading with n hashes inside", 300, |n| fixed(format!("## a {0} b {0}c", rep("#", n)))),
    ("C13", "n spaces between the words of headings", 300, |n| fixed(format!("# a{0}b\n\nc{0}d\n===", rep(" ", n)))),
    ("C13", "n braces", 100, |n| fixed(format!("# a {} b", rep("{", n)))),
    ("C14", "n escaped pipes", 300, |n| {
        let c = rep("\\|", n);
        let want = canonical_table(&["a", &c], &["-", "-:"], &[vec![&c, "b"]]).join("\n");
        Some((format!("|a|{c}|\n|-|-:|\n|{c}|b|"), want))
    }),
    ("C14", "n code spans with pipes", 100, |n| {
        let c = each(n, |k| format!("`\\|{k}`"), " ");
        let want = canonical_table(&[&c], &[":-:"], &[vec!["b"], vec![&c]]).join("\n");
        Some((format!("|{c}|\n|:-:|\n|b|\n|{c}|"), want))
    }),
    ("C14", "n links in a cell", 100, |n| {
        let c = each(n, |k| format!("[é{k}](u 'ü')"), " *é* ");
        let want = canonical_table(&["h", "i"], &[":-", "-:"], &[vec![&c, "b"], vec!["c", &c]]).join("\n");
        Some((format!("|h|i|\n|:-|-:|\n|{c}|b|\n|c|{c}|"), want))
    }),
    ("C14", "n tables", 60, |n| fixed(each(n, |k| canonical_table(&["a", &rep("b", k)], &["-", ":-:"], &[vec!["c", "d"]]).join("\n"), "\n\n"))),
    ("C15", "n blank lines before and after definitions", 300, |n| fixed(format!("a{0}[b]: c{0}[d]: e{0}f", rep("\n", n + 1)))),
    ("C15", "n blank lines in a footnote", 300, |n| fixed(format!("[^a]:\n    b{}    c", rep("\n", n + 1)))),
    ("C15", "n blank lines around a footnote", 300, |n| fixed(format!("a{0}[^a]:\n    b{0}# c", rep("\n", n + 1)))),
    ("C15", "n blank lines around headings and rules", 300, |n| fixed(format!("# a{0}b\n---{0}***{0}c{0}- d{0}***", rep("\n", n + 1)))),
    ("C15", "n blank lines around HTML", 300, |n| fixed(format!("a{0}<div>\n</div>{0}<!-- b -->{0}c", rep("\n", n + 1)))),
    ("C15", "n blank lines in a quote in an item", 300, |n| fixed(format!("* > a{}\n  > b\n* c", rep("\n  >", n)))),
    ("C15", "n blank lines in an item in a quote", 300, |n| fixed(format!("> 1. a{}\n>    b\n>\n> c", rep("\n>", n)))),
    ("C15", "n blank lines at the end of a quote", 300, |n| fixed(format!("> a{}\n\nb", rep("\n>", n)))),
    ("C15", "n blank lines between quotes", 300, |n| fixed(format!("> a{0}> b{0}>> c{0}d", rep("\n", n + 1)))),
    ("C15", "n blank lines around indented code", 300, |n| fixed(format!("a{0}    b{0}c", rep("\n", n + 1)))),
    ("C21", "comment of n lines in an item", 300, |n| fixed(format!("1. <!--\n   {}\n   -->\n2. a", each(n, |k| format!("l{k}"), "\n   ")))),
    ("C21", "HTML with n spaces in its lines", 300, |n| fixed(format!("> <pre>\n> a{0}b\n> {0}c\n> </pre>", rep(" ", n)))),
    ("C21", "instruction of n characters", 300, |n| fixed(format!("<?{0}?>\n\n<![CDATA[{0}]]>\n\n<!A {0}>", rep("x", n)))),
    ("C22", "n references to one footnote", 300, |n| fixed(format!("{}\n\n[^a]:\n    b", each(n, |k| format!("w{k}[^a]"), " ")))),
    ("C22", "n footnotes without blank lines", 300, |n| fixed(format!("{}", each(n, |k| format!("[^{k}]:\n    b"), "\n")))),
    ("C22", "footnote of n blocks", 100, |n| fixed(format!("[^a]:\n    t\n\n    {}\n\nz", each(n, |k| ["b", "> c", "```\n    d\n    ```", "* e", "# f", "| h   |\n    | --- |"][k % 6].into(), "\n\n    ")))),
    ("C22", "footnote in n quotes", 60, |n| fixed(deep(n, &[Q], &["[^a]:", "    b", "", "    * c"]))),
    // html and metadata
    ("C21", "HTML of n lines", 300, |n| fixed(format!("<div>\n{}\n</div>\n\na", each(n, |k| format!("<p>{k}"), "\n")))),
    ("C21", "HTML indented by n", 300, |n| fixed(format!("* <div>\n  {}<p>\n  </div>\n* b", rep(" ", n)))),
    ("C21", "comment with n blank lines", 300, |n| fixed(format!("> <!--{}\n> -->\n>\n> a", rep("\n>", n)))),
    ("C21", "metadata of n lines", 300, |n| fixed(format!("---\n{}\n---\n\na", each(n, |k| format!("k{k}: v"), "\n")))),
    ("C21", "plus metadata of n lines", 300, |n| fixed(format!("+++\n{}\n+++\n\n# a", each(n, |k| format!("k{k} = \"v\""), "\n")))),
    ("C21", "n tags", 300, |n| fixed(format!("a {}", each(n, |k| format!("<b c=\"{k}\">d</b>"), " ")))),
    ("C21", "tag with n attributes", 300, |n| fixed(format!("a <b {}> c", each(n, |k| format!("k{k}='v'"), " ")))),
    ("C21", "n HTML blocks", 100, |n| fixed(each(n, |k| format!("<div>\n{k}\n</div>"), "\n\n"))),
    ("C21", "HTML in n containers", 60, |n| fixed(deep(n, &[B, Q, T], &["<div>", "  <p>a", "</div>"]))),
    // footnotes
    ("C22", "n footnotes", 300, |n| fixed(format!("{}\n\n{}", each(n, |k| format!("a[^{k}]"), " "), each(n, |k| format!("[^{k}]:\n    b"), "\n\n")))),
    ("C22", "footnote of n paragraphs", 300, |n| fixed(format!("[^a]:\n    {}\n\nb", each(n, |k| format!("p{k}"), "\n\n    ")))),
    ("C22", "footnote of n lines", 300, |n| Some((format!("[^a]: {}", each(n, |k| format!("l{k}"), "\n")), format!("[^a]:\n    {}", each(n, |k| format!("l{k}"), "\n    "))))),
    ("C22", "label of n characters", 300, |n| fixed(format!("a[^{0}]\n\n[^{0}]:\n    b", rep("l", n)))),
    ("C22", "footnote with n nested lists", 60, |n| fixed(format!("[^a]:\n    t\n\n    {}\n\nb", deep(n, &[B, O], &["x", "y"]).replace('\n', "\n    ")))),
    // quotes and everything
    ("C24", "n quotes in one another", 100, |n| fixed(deep(n, &[Q], &["text", "more", "", "and"]))),
    ("C24", "n spaces at the end of lines", 300, |n| Some((format!("# a{0}\n\n* b{0}\n\n> c{0}\n\n```{0}\nd\n```{0}\n\n***{0}\n\n|e|{0}\n|-|{0}\n\nf\n==={0}\n\n[g]: h{0}\n\ni{0}\n", rep(" ", n)),
        "# a\n\n* b\n\n> c\n\n```\nd\n```\n\n***\n\n| e   |\n| --- |\n\nf\n===\n\n[g]: h\n\ni\n".into()))),
    ("C24", "rule of n characters", 300, |n| (n > 2).then_some(()).and_then(|_| fixed(format!("{}\n\n{}\n\n* {}", rep("-", n), rep("_", n), rep("_", n))))),
    ("C24", "n lazy lines", 300, |n| Some((format!("> * a\n{}", each(n, |k| format!("l{k}"), "\n")), format!("> * a\n>   {}", each(n, |k| format!("l{k}"), "\n>   "))))),
    ("C24", "n items with everything", 40, |n| fixed(each(n, |k| format!("{k}. a\n\n   > b\n   >\n   > * c\n\n   ```\n   d\n   ```\n\n   | e   |\n   | --- |\n\n   ## f").replace("\n   ", &format!("\n{}", rep(" ", format!("{k}. ").len()))), "\n\n"))),
];

fn far(bound: usize, quick: bool) -> usize {
    // (the depths are limited by the length of the documents, and of parentheses by the parser)
    if quick || bound <= 60 || bound > 500 { bound } else { 4 * bound }
}

/// The families of a property; all of them for "".
pub fn worlds(property: &str, quick: bool) -> Vec<World> {
    FAMILIES
        .iter()
        .filter(|f| property.is_empty() || f.0 == property)
        .map(|&(_, name, bound, f)| {
            let n = far(bound, quick) as u64;
            World::new(
                &format!("size: {name}, n up to {n}"),
                Gen::Fn(n, Box::new(move |i| f(i as usize + 1).map(|(s, e)| format!("{s}\u{0}{e}")))),
            )
        })
        .collect()
}

/// The sources alone, thinned out: n up to 12, and around powers of two and ten.
pub fn sources(quick: bool) -> Vec<World> {
    FAMILIES
        .iter()
        .map(|&(_, name, bound, f)| {
            let n = far(bound, quick);
            let some: Vec<String> = (1..=n)
                .filter(|k| *k <= 12 || [16usize, 32, 64, 100, 128, 256, 512, 1000, 1024].iter().any(|p| k.abs_diff(*p) < 2))
                .filter_map(f)
                .map(|(s, _)| s)
                .collect();
            crate::worlds::list(&format!("size: {name}"), some)
        })
        .collect()
}


fn with(mut w: Vec<World>, cfgs: &[Cfg]) -> Vec<World> {
    for x in &mut w {
        x.cfgs = cfgs.to_vec();
    }
    w
}

/// The sources with line widths.
pub fn wrapped(quick: bool) -> Vec<World> {
    with(sources(quick), &[Cfg::wrap(0), Cfg::wrap(33), Cfg::wrap(80), Cfg::wrap(usize::MAX)])
}

/// Without the families with several spaces between words.
pub fn reflown(quick: bool) -> Vec<World> {
    let mut w = sources(quick);
    w.retain(|x| !["size: n spaces between words", "size: title with n spaces"].contains(&x.name.as_str()));
    with(w, &[Cfg::reflow(1), Cfg::reflow(33), Cfg::reflow(80), Cfg::reflow(usize::MAX)])
}

/// Cases of C09: long words, many words, wide columns, deep containers.
pub fn fillings(quick: bool) -> Vec<World> {
    let most = if quick { 140 } else { 300 };
    let mut docs = vec![];
    let words = |n: usize, k: usize| each(n, |i| rep("w", (i * 7 + k) % 9 + 1), " ");
    let lines = |n: usize, k: usize| each(n, |i| format!("{}{}", rep("v", (i * 5 + k) % 8 + 1), if i == n { "" } else if i % 4 == 0 { "\n" } else { " " }), "");
    let mut all = |first: &str, rest: &str| {
        for k in 0..3 {
            docs.push(format!("{first}\u{0}{rest}\u{0}{}", words(120, k)));
            docs.push(format!("{first}\u{0}{rest}\u{0}{}", lines(120, k)));
        }
        for k in [1, 9, 31, 64, 65, 127, 130] {
            docs.push(format!("{first}\u{0}{rest}\u{0}a {} b {} c", rep("w", k), rep("x", k + 1)));
        }
    };
    all("", "");
    for k in [1, 2, 5, 16, 31, 33, 40] {
        all(&rep(">", k).replace('>', "> "), &rep(">", k).replace('>', "> "));
        all(&rep("* ", k), &rep("  ", k));
        all(&rep("1. > ", k), &rep("   > ", k));
    }
    let ws: Vec<Cfg> = (0..most).flat_map(|w| [Cfg::wrap(w), Cfg::reflow(w)]).chain([Cfg::wrap(usize::MAX), Cfg::reflow(usize::MAX)]).collect();
    vec![crate::worlds::list("size: long words, many words, deep containers", docs).cfgs(&ws)]
}

/// Documents of C06 and C07: many code blocks, far indented, Markdown in Markdown.
pub fn blocks(quick: bool) -> Vec<World> {
    let mut docs = vec![];
    for n in (1..=20).chain([32, 33, 63, 64, 65, 70]) {
        docs.push(each(n, |k| format!("{0}i{k}\nc{k}\n{0}", rep(if k % 3 == 0 { "~" } else { "`" }, 3 + k % 4)), "\n\n"));
        docs.push(each(n, |k| format!("{k}. t\n{0}```markdown\n{0}aa bb cc dd ee ff\n{0}~~~x\n{0}c{k}\n{0}~~~\n{0}```", rep(" ", format!("{k}. ").len())), "\n"));
        for kinds in [&[Q][..], &[B], &[O, T], &[Q, B, T]] {
            docs.push(deep(n.min(50), kinds, &["```r", "x", "", "  y", "```"]));
            docs.push(deep(n.min(50), kinds, &["```markdown", "aa bb cc dd ee ff gg hh ii jj", "", "* ~~~s", "    x", "  ~~~", "```", "", "aa bb cc dd ee ff gg hh ii jj"]));
        }
        // n levels of Markdown in Markdown, each one in an item or a quote
        if n <= 9 {
            for (f, r) in [("", ""), Q, B, T] {
                let mut d = "aa bb cc dd ee ff gg hh ii\n\n```x\ny\n```".to_string();
                for k in 0..n {
                    let fence = rep("`", 4 + k);
                    d = format!("{fence}markdown\n{d}\n{fence}\n\naa bb cc dd ee ff gg hh ii");
                    d = d.split('\n').enumerate().map(|(i, l)| if i == 0 { format!("{f}{l}") } else { format!("{r}{l}").trim_end().to_string() }).collect::<Vec<_>>().join("\n");
                }
                docs.push(d);
            }
        }
    }
    let ws: Vec<Cfg> = (0..if quick { 60 } else { 140 }).step_by(if quick { 7 } else { 3 }).flat_map(|w| [Cfg::wrap(w), Cfg::reflow(w)]).chain([Cfg::none(), Cfg::wrap(usize::MAX)]).collect();
    vec![crate::worlds::list("size: many and deep code blocks", docs).cfgs(&ws)]
}
