use crate::engine::{Cfg, Explorer, Report, Verdict, World};

mod blocks;
mod cli;
mod endings;
mod inline;
mod exotic;
mod layout;
mod protocol;
mod relations;
mod scale;
mod space;
mod total;
mod trees;
mod words;
mod wrap;

pub type OracleFn = fn(&str, Cfg) -> Verdict;
type RunFn = Box<dyn Fn(&Explorer, &mut Report)>;

/// A check: parts that are explored one after another.
pub struct Check {
    pub id: &'static str,
    pub title: &'static str,
    parts: Vec<RunFn>,
    oracles: Vec<OracleFn>,
}

impl Check {
    pub fn new(id: &'static str, title: &'static str) -> Check {
        Check { id, title, parts: vec![], oracles: vec![] }
    }
    /// Explore these worlds and judge every case with this oracle.
    pub fn part(mut self, worlds: fn(bool) -> Vec<World>, oracle: OracleFn) -> Check {
        self.parts.push(Box::new(move |ex, rep| {
            let o: crate::engine::Oracle = Box::new(oracle);
            ex.explore(&worlds(ex.quick()), &o, rep);
        }));
        self.oracles.push(oracle);
        self
    }
    pub fn run(&self, ex: &Explorer, rep: &mut Report) {
        for p in &self.parts {
            p(ex, rep);
            if rep.failure.is_some() && !ex.show_all {
                return;
            }
        }
    }
    /// Run one recorded case again: does it still fail this way?
    pub fn rerun(&self, kind: &str, cfg: Cfg, case: &str) -> bool {
        self.oracles.iter().any(|o| matches!(o(case, cfg), Verdict::Fails { kind: k, .. } if k == kind))
    }
}

pub fn all() -> Vec<Check> {
    let mut v = total::checks();
    v.extend(blocks::checks());
    v.extend(inline::checks());
    v.extend(layout::checks());
    v.extend(protocol::checks());
    v.extend(relations::checks());
    v.extend(cli::checks());
    v.extend(wrap::checks());
    v.extend(space::checks());
    v.extend(endings::checks());
    v.extend(words::checks());
    v
}
