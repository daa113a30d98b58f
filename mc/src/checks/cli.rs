//! C23 the command line tool.  A case is a scenario: its first line the arguments (`@` is the input
//! file), its second line what the tool finds there and what the kernel answers, the rest the
//! content of the file.  The real binary runs it in a scratch directory of its own, behind
//! shim/shim.c, which numbers the calls that concern the file or the standard output and gives the
//! answers the scenario asks for.
use super::Check;
use crate::engine::{fails, fmt, Cfg, Gen, Verdict, World};
use crate::json::quote;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn target(name: &str) -> String {
    format!("{}/mc/target/{name}", std::env::var("MC_HOME").unwrap_or_else(|_| crate::root()))
}

#[derive(Clone)]
struct Scenario {
    args: String,
    file: String,
    stdout: String,
    log: String,
    answers: Vec<(usize, String)>,
    content: String,
}

impl Scenario {
    fn new(args: &str, file: &str, content: &str) -> Scenario {
        Scenario {
            args: args.into(),
            file: file.into(),
            stdout: "pipe".into(),
            log: "-".into(),
            answers: vec![],
            content: content.into(),
        }
    }
    fn text(&self) -> String {
        let a: Vec<String> = self.answers.iter().map(|(n, a)| format!("{n}={a}")).collect();
        format!("{}\nfile={} stdout={} log={} answers={}\n{}", self.args, self.file, self.stdout, self.log, a.join(","), self.content)
    }
    fn parse(s: &str) -> Option<Scenario> {
        let (args, s) = s.split_once('\n')?;
        let (env, content) = s.split_once('\n')?;
        let get = |k: &str| env.split(' ').find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
        let answers = get("answers=");
        Some(Scenario {
            args: args.into(),
            file: get("file="),
            stdout: get("stdout="),
            log: get("log="),
            answers: answers
                .split(',')
                .filter_map(|a| a.split_once('='))
                .map(|(n, a)| Some((n.parse().ok()?, a.to_string())))
                .collect::<Option<_>>()?,
            content: content.into(),
        })
    }
    fn fatal(&self) -> bool {
        self.answers.iter().any(|(_, a)| a != "EINTR" && a != "short")
    }
}

/// What the documented command line means; `None` if it is not one.
fn options_of(args: &str) -> Option<(Cfg, bool)> {
    let mut cfg = Cfg::none();
    let mut stdout = false;
    let mut inputs = 0;
    let mut it = args.split(' ').filter(|a| !a.is_empty());
    let mut only_files = false;
    while let Some(a) = it.next() {
        if only_files || !a.starts_with('-') {
            inputs += 1;
        } else if a == "--" {
            only_files = true;
        } else if a == "--stdout" {
            stdout = true;
        } else if a == "--reflow-text" {
            cfg.reflow = true;
        } else if let Some(w) = a.strip_prefix("--max-width=") {
            cfg.w = Some(w.parse().ok()?);
        } else if a == "--max-width" {
            cfg.w = Some(it.next()?.parse().ok()?);
        } else if !a.starts_with("--") {
            let mut rest = &a[1..];
            while let Some(c) = rest.chars().next() {
                rest = &rest[1..];
                match c {
                    'r' => cfg.reflow = true,
                    'm' => {
                        let v = if rest.is_empty() { it.next()? } else { rest.strip_prefix('=').unwrap_or(rest) };
                        cfg.w = Some(v.parse().ok()?);
                        rest = "";
                    }
                    _ => return None,
                }
            }
        } else {
            return None;
        }
    }
    (inputs == 1).then_some((cfg, stdout))
}

struct Outcome {
    ok: bool,
    how: String,
    stdout: Vec<u8>,
    stderr: String,
    /// `None`: no file
    before: Option<Vec<u8>>,
    after: Option<Vec<u8>>,
    others: Vec<String>,
    trace: Vec<String>,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn list(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| Some(e.ok()?.file_name().to_string_lossy().into_owned())).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn run(s: &Scenario) -> std::io::Result<Outcome> {
    static N: AtomicU64 = AtomicU64::new(0);
    crate::engine::note_call();
    let scratch =
        Scratch(std::env::temp_dir().join(format!("mc-cli-{}-{}", std::process::id(), N.fetch_add(1, Relaxed))));
    let dir = scratch.0.join("d");
    std::fs::create_dir_all(&dir)?;
    std::fs::write(dir.join("other.md"), "o\n===\n")?;
    let mut bytes = s.content.clone().into_bytes();
    let name = match s.file.as_str() {
        "spaced" => "a b*.md",
        "unicode" => "ä\u{301}日.md",
        "dash" => "-r",
        "plain" => "noextension",
        _ => "x.md",
    };
    let mut path = dir.join(name);
    match s.file.as_str() {
        "missing" => {}
        "dir" => std::fs::create_dir(&path)?,
        "dangling" => std::os::unix::fs::symlink(dir.join("nowhere"), &path)?,
        "symlink" => {
            std::fs::write(dir.join("real.md"), &bytes)?;
            std::os::unix::fs::symlink("real.md", &path)?;
        }
        "notutf8" => {
            bytes.push(0xff);
            std::fs::write(&path, &bytes)?;
        }
        "cututf8" => {
            bytes.extend([0xe6, 0x97]);
            std::fs::write(&path, &bytes)?;
        }
        "latin1" => {
            bytes.splice(0..0, [0xe9]);
            std::fs::write(&path, &bytes)?;
        }
        _ => std::fs::write(&path, &bytes)?,
    }
    let file = path.clone();
    match s.file.as_str() {
        "relative" | "dash" => path = PathBuf::from(name),
        "dotted" => path = dir.join("..").join("d").join(".").join(name),
        "nodir" => path = dir.join("no").join(name),
        _ => {}
    }
    let before = std::fs::read(&file).ok();
    let names = list(&dir);
    let trace = scratch.0.join("trace");
    let mut c = Command::new(target("cli/debug/markdown-fmt"));
    for a in s.args.split(' ').filter(|a| !a.is_empty()) {
        if a == "@" {
            c.arg(&path);
        } else {
            c.arg(a.replace("''", ""));
        }
    }
    c.current_dir(&dir)
        .env_clear()
        .env("LD_PRELOAD", target("shim.so"))
        .env("MC_DIR", &dir)
        .env("MC_TRACE", &trace)
        .env("MC_ANSWERS", s.answers.iter().map(|(n, a)| format!("{n}={a}")).collect::<Vec<_>>().join(","))
        .stdin(Stdio::null())
        .stderr(Stdio::piped());
    if s.log != "-" {
        c.env("MARKDOWN_FMT_LOG", &s.log);
    }
    if s.stdout == "full" {
        c.stdout(Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full")?));
    } else {
        c.stdout(Stdio::piped());
    }
    let o = c.output()?;
    let mut others = list(&dir);
    if others == names {
        others.clear();
    }
    if std::fs::read(dir.join("other.md")).unwrap_or_default() != b"o\n===\n" {
        others = vec!["other.md has changed".into()];
    }
    Ok(Outcome {
        ok: o.status.success(),
        how: o.status.to_string(),
        stdout: o.stdout,
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
        before,
        after: std::fs::read(&file).ok(),
        others,
        trace: std::fs::read_to_string(&trace).unwrap_or_default().lines().map(String::from).collect(),
    })
}

fn harness(e: &dyn std::fmt::Display, what: &str) -> ! {
    eprintln!("harness: {what}: {e}");
    std::process::exit(3);
}

fn show(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "(none)".into(),
        Some(b) => quote(&String::from_utf8_lossy(&b[..b.len().min(300)])),
    }
}

fn tool(case: &str, _: Cfg) -> Verdict {
    let Some(s) = Scenario::parse(case) else { harness(&quote(case), "not a scenario") };
    let o = run(&s).unwrap_or_else(|e| harness(&e, "cannot run a scenario"));
    let opts = options_of(&s.args);
    let readable = matches!(
        s.file.as_str(),
        "regular" | "symlink" | "spaced" | "unicode" | "dash" | "plain" | "relative" | "dotted"
    );
    let expected = match opts {
        Some((cfg, _)) if readable => match fmt(cfg, &s.content) {
            Ok(r) => Some(r.into_bytes()),
            Err(_) => None,
        },
        _ => None,
    };
    let on_stdout = opts.is_some_and(|(_, s)| s);
    let can = expected.is_some() && !s.fatal() && !(s.stdout == "full" && on_stdout);
    let tell = |what: &str| {
        let mut t = s.answers.iter();
        let mut n = t.next();
        let calls: Vec<String> = o
            .trace
            .iter()
            .enumerate()
            .map(|(i, c)| match n {
                Some((k, a)) if *k == i => {
                    n = t.next();
                    format!("{c} -> {a}")
                }
                _ => c.clone(),
            })
            .collect();
        format!(
            "{what}\n{}; stdout {}; stderr {}\nfile before {}\nfile after  {}\ncalls: {}",
            o.how,
            show(&Some(o.stdout.clone())),
            quote(&o.stderr.chars().take(200).collect::<String>()),
            show(&o.before),
            show(&o.after),
            calls.join("; ")
        )
    };
    if o.ok {
        let Some(expected) = expected else {
            return fails("success-without-work", tell("success, but there is nothing it can have done"));
        };
        if !o.others.is_empty() {
            return fails("other-files", tell(&format!("other files are left or changed: {:?}", o.others)));
        }
        if on_stdout {
            if o.after != o.before {
                return fails("file-written", tell("the file has changed in spite of --stdout"));
            }
            if o.stdout != expected {
                return fails("wrong-output", tell(&format!("the library returns {}", show(&Some(expected)))));
            }
        } else {
            if o.after.as_ref() != Some(&expected) {
                return fails("wrong-file", tell(&format!("the library returns {}", show(&Some(expected)))));
            }
            if !o.stdout.is_empty() {
                return fails("wrong-output", tell("something is printed without --stdout"));
            }
        }
        return Verdict::Holds;
    }
    if can {
        return fails("failure", tell("failure, but nothing was in the way"));
    }
    if o.stderr.trim().is_empty() {
        return fails("silent-failure", tell("failure without a message"));
    }
    if o.after != o.before {
        // the history of the known finding: the file is emptied, and then not (all) written
        let n = s.answers.last().map(|a| a.0);
        let history = n.is_some_and(|n| o.trace.get(n).is_some_and(|c| c == "write out"))
            && o.trace.iter().any(|c| c == "create out")
            && expected.as_ref().zip(o.after.as_ref()).is_some_and(|(e, a)| e.starts_with(a));
        let kind = if history { "file-lost-by-failed-write" } else { "file-damaged" };
        return fails(kind, tell("failure, and the file is not what it was"));
    }
    if !on_stdout && !o.stdout.is_empty() {
        return fails("wrong-output", tell("something is printed without --stdout"));
    }
    if on_stdout && expected.is_some_and(|e| !e.starts_with(&o.stdout)) || opts.is_none() && !o.stdout.is_empty() {
        return fails("wrong-output", tell("what is printed before the failure is not the beginning of the result"));
    }
    Verdict::Holds
}

fn permutations(v: &[String]) -> Vec<String> {
    if v.is_empty() {
        return vec![String::new()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for p in permutations(&rest) {
            out.push(format!("{x} {p}").trim_end().to_string());
        }
    }
    out
}

/// Every set of options, in every spelling and order.
fn all_args(widths: &[&str]) -> Vec<String> {
    let mut ws: Vec<Option<String>> = vec![None];
    for w in widths {
        for f in ["-m #", "-m#", "-m=#", "--max-width #", "--max-width=#"] {
            ws.push(Some(f.replace('#', w)));
        }
    }
    let mut out = vec![];
    for stdout in [false, true] {
        for reflow in [None, Some("-r"), Some("--reflow-text")] {
            for w in &ws {
                let mut items = vec!["@".to_string()];
                items.extend(stdout.then(|| "--stdout".to_string()));
                items.extend(reflow.map(String::from));
                items.extend(w.clone());
                out.extend(permutations(&items));
            }
            // short options in one word
            if reflow == Some("-r") {
                for w in widths {
                    for f in ["-rm #", "-rm#", "-rm=#"] {
                        let mut items = vec!["@".to_string(), f.replace('#', w)];
                        items.extend(stdout.then(|| "--stdout".to_string()));
                        out.extend(permutations(&items));
                    }
                }
            }
        }
    }
    out
}

fn some_args() -> Vec<String> {
    ["@", "--stdout @", "@ -m 20", "--stdout -m 20 @", "@ -r -m 20", "--stdout --max-width=20 --reflow-text @", "-r @", "-m 0 @", "-m0 -r --stdout @"]
        .map(String::from)
        .to_vec()
}

const TEXT: &str = "Title  of the text\n===\n\n* one two three four five six seven eight\n  nine\n* ten\n\n| a | b |\n|-|-|\n|c|d|\n\n- [x](<y z>) *e* __s__  \n  last";

fn documents() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "\n", "\n\n", " ", "a", "a\n", "a  \nb", "a\r\nb\r\n", "a\r\n\r\n* b\r\n  c", "\u{feff}a\n", "\u{feff}", "a\0b\n", "ä日本語 ā̀\n", TEXT,
        "---\nt: u\n---\n\na\n", "```sh\ncode   x\n\ty\n```\n", "```markdown\n*  a\n```\n", "[a]: <b> 'c'\n\n[^d]: e\n", "<div>\n*a*\n</div>", "    code",
    ]
    .map(String::from)
    .to_vec();
    v.push("word and another word\n".repeat(1000)); // more than the buffers of the standard library
    v.push(format!("{}\n\n> {}", "ab ".repeat(3000), "日本 ".repeat(3000)));
    v.push(format!("{}日", "a".repeat(31))); // characters across the ends of reads
    v.push(format!("{}日\n", "a".repeat(8191)));
    v
}

fn options_worlds(quick: bool) -> Vec<World> {
    let widths: &[&str] = if quick { &["20", "0"] } else { &["20", "0", "1", "7", "1000", "18446744073709551615"] };
    let mut v = vec![];
    for a in all_args(widths) {
        v.push(Scenario::new(&a, "regular", TEXT).text());
    }
    let mut out = vec![World::new("every command line", Gen::List(v))];
    let mut v = vec![];
    for d in documents() {
        for a in some_args() {
            v.push(Scenario::new(&a, "regular", &d).text());
        }
    }
    out.push(World::new("documents", Gen::List(v)));
    let mut v = vec![];
    for bad in [
        "", "--stdout", "-m 20", "@ @", "@ --stdout other.md", "@ -m", "@ --max-width", "@ -m x", "@ -m -1", "@ --max-width=-1", "@ -m 1.5",
        "@ -m 99999999999999999999999", "@ --max-width=''", "@ -m=", "@ --stdou=t", "@ --unknown", "@ -x", "@ -rx", "--max-width @", "-m @", "@ --stdout=1", "@ -r=1",
        "-- @ --stdout", "-- @ @", "@ -20", "@ --max_width 20", "@ --reflow",
    ] {
        v.push(Scenario::new(bad, "regular", TEXT).text());
    }
    for good in ["-- @", "--stdout -- @", "-r -m 9 -- @", "-rm9 -- @"] {
        for f in ["regular", "dash"] {
            v.push(Scenario::new(good, f, TEXT).text());
        }
    }
    out.push(World::new("other command lines", Gen::List(v)));
    let mut v = vec![];
    for f in [
        "missing", "dir", "dangling", "nodir", "symlink", "notutf8", "cututf8", "latin1", "spaced", "unicode", "plain", "relative", "dotted",
    ] {
        for a in some_args() {
            for d in ["", "a  b", TEXT] {
                for stdout in ["pipe", "full"] {
                    for log in ["-", "trace", "=z=", "off"] {
                        let mut s = Scenario::new(&a, f, d);
                        s.stdout = stdout.into();
                        s.log = log.into();
                        v.push(s.text());
                    }
                }
            }
        }
    }
    for a in some_args() {
        for d in ["", "a", "a\n", "a\n\nb", TEXT] {
            for stdout in ["pipe", "full"] {
                for log in ["-", "trace", "=z=", "off", "markdown_fmt=debug"] {
                    let mut s = Scenario::new(&a, "regular", d);
                    s.stdout = stdout.into();
                    s.log = log.into();
                    // an empty result fits into a full device
                    if !(d.is_empty() && stdout == "full") {
                        v.push(s.text());
                    }
                }
            }
        }
    }
    out.push(World::new("files, outputs and logs", Gen::List(v)));
    out
}

/// The answers the kernel can give to a call.
fn alternatives(call: &str) -> &'static [&'static str] {
    match call {
        "open in" => &["EINTR", "ENOENT", "EACCES", "EMFILE"],
        "read in" => &["short", "EINTR", "EIO"],
        "create out" | "openw out" => &["EINTR", "EACCES", "EROFS", "ENOSPC"],
        "write out" => &["short", "EINTR", "ENOSPC", "EIO", "zero"],
        "write stdout" => &["short", "EINTR", "ENOSPC", "EPIPE", "EIO", "zero"],
        _ => &["EIO"],
    }
}

/// All sequences of answers with at most so many that are not the usual ones: after each run, every
/// other answer to every later call.
fn answers(s: &Scenario, deviations: usize, out: &mut Vec<String>) {
    out.push(s.text());
    if deviations == 0 {
        return;
    }
    let Ok(o) = run(s) else { return };
    let from = s.answers.last().map_or(0, |a| a.0 + 1);
    for (i, call) in o.trace.iter().enumerate().skip(from) {
        for a in alternatives(call) {
            let mut t = s.clone();
            t.answers.push((i, a.to_string()));
            answers(&t, deviations - 1, out);
        }
    }
}

fn answers_worlds(quick: bool) -> Vec<World> {
    let mut bases = vec![];
    for a in ["@", "--stdout @", "-r -m 9 @", "--stdout -m 9 @"] {
        for d in ["", "a  b\n\n\nc", "日本", &"ab cd\n".repeat(40)] {
            bases.push(Scenario::new(a, "regular", d));
        }
    }
    for a in ["@", "--stdout @"] {
        for f in ["notutf8", "missing", "dir", "symlink"] {
            bases.push(Scenario::new(a, f, "a  b"));
        }
    }
    bases
        .into_iter()
        .map(|s| {
            let mut v = vec![];
            answers(&s, if quick { 2 } else { 3 }, &mut v);
            let d: String = s.content.chars().take(8).collect();
            World::new(&format!("answers: {} {} {}", s.args, s.file, quote(&d)), Gen::List(v))
        })
        .collect()
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("C23", "The command line tool does what the library does, and writes safely")
        .part(options_worlds, tool)
        .part(answers_worlds, tool)]
}
