//! Spaces of document trees, each printed in many layouts; the formatter must print the canonical
//! layout of the tree.
use crate::ast::*;
use crate::engine::{fails, fmt, Cfg, Gen, Verdict, World};
use crate::json::quote;

/// A space of trees: index -> (blocks, blank lines between them).
pub struct Trees {
    pub name: String,
    pub size: u64,
    pub get: Box<dyn Fn(u64) -> Option<(Vec<Block>, usize)> + Sync + Send>,
}

/// A space spanned by the given dimensions.
pub fn space(
    name: &str,
    dims: &[usize],
    f: impl Fn(&[usize]) -> Option<(Vec<Block>, usize)> + Sync + Send + 'static,
) -> Trees {
    let dims = dims.to_vec();
    Trees {
        name: name.into(),
        size: dims.iter().map(|d| *d as u64).product(),
        get: Box::new(move |mut i| {
            let mut d = [0usize; 16];
            for (k, n) in dims.iter().enumerate() {
                d[k] = (i % *n as u64) as usize;
                i /= *n as u64;
            }
            let (b, g) = f(&d[..dims.len()])?;
            fine(&b).then_some((b, g))
        }),
    }
}

fn is_list(b: &Block) -> bool {
    matches!(b, Block::List { .. })
}

/// Could the two be neighbours without becoming something else (or getting guard comments)?
pub fn can_follow(a: &Block, b: &Block) -> bool {
    !(matches!((a, b), (Block::Indented(_), Block::Indented(_)))
        || (is_list(a) && matches!(b, Block::Indented(_)))
        || (matches!(a, Block::Note { .. }) && matches!(b, Block::Indented(_) | Block::Note { .. }))
        || match (a, b) {
            (Block::List { markers: m, .. }, Block::List { markers: n, .. }) => {
                m[0].chars().last() == n[0].chars().last()
            }
            _ => false,
        })
}

/// `* ***` is a thematic break itself.
fn opens_with_rule_of(b: &Block, marker: &str) -> bool {
    match b {
        Block::Indented(c) => c[0].trim().starts_with(marker) && c[0].trim().chars().all(|x| c[0].trim().starts_with(x)),
        Block::Rule(r) => r.starts_with(marker),
        Block::List { items, markers, .. } => {
            markers[0] == marker && items[0].first().is_some_and(|b| opens_with_rule_of(b, marker))
        }
        _ => false,
    }
}

/// The last block on the right edge of a tree.
fn last_leaf(b: &Block) -> &Block {
    match b {
        Block::Quote(bs, _) | Block::Note { body: bs, .. } => bs.last().map_or(b, last_leaf),
        Block::List { items, .. } => items.last().and_then(|i| i.last()).map_or(b, last_leaf),
        _ => b,
    }
}

/// Definitions do not end a list as far as the guard comments go.
fn guarded_code(blocks: &[Block]) -> bool {
    let mut after_list = false;
    for b in blocks {
        match b {
            Block::List { .. } => after_list = true,
            Block::Def { .. } => {}
            Block::Indented(_) if after_list => return true,
            _ => after_list = false,
        }
    }
    false
}

pub fn fine(blocks: &[Block]) -> bool {
    blocks.windows(2).all(|w| can_follow(&w[0], &w[1]))
        && !guarded_code(blocks)
        && blocks.iter().all(|b| match b {
            Block::Quote(bs, _) => fine(bs),
            // a definition ends the definition it would be in
            Block::Note { body: bs, .. } => fine(bs) && !bs.iter().any(|b| matches!(b, Block::Note { .. })),
            Block::List { items, markers, .. } => {
                items.iter().all(|i| fine(i))
                    && items.iter().zip(markers).all(|(i, m)| !(!i.is_empty() && opens_with_rule_of(&i[0], m)))
            }
            _ => true,
        })
}

/// Can `b` start on the line after `a` without a blank line between them?
pub fn can_abut(a: &Block, b: &Block) -> bool {
    let inner = last_leaf(a);
    // one quote, whose first line would go on with a paragraph of the quote inside of it
    if matches!((a, b), (Block::Quote(..), Block::Quote(..))) {
        return false;
    }
    let paragraph_open = matches!(inner, Block::Para(_));
    let is_block_start = match b {
        Block::Atx(..) | Block::Fence { .. } | Block::Quote(..) => true,
        Block::Rule(r) => !(r.starts_with('-') && paragraph_open),
        Block::Html(h) => h[0].starts_with("<div") || h[0].starts_with("<!--"),
        // only lists that start with 1 and whose first item is not empty can interrupt a paragraph
        Block::List { markers, items, .. } => {
            let m = markers[0];
            // (a list of `-` gets a blank line when its source is indented: it could have been an underline)
            items[0].first().is_some_and(|b| !matches!(b, Block::Indented(_)))
                && !(paragraph_open && m == "-")
                && (m.len() == 1 || matches!(m, "1." | "1)"))
        }
        _ => false,
    };
    match inner {
        Block::Html(h) if !h[0].starts_with("<!--") => false,
        Block::Html(_) => !matches!(b, Block::Def { .. }) || matches!(a, Block::Html(_)),
        Block::Atx(..) | Block::Fence { .. } | Block::Setext(..) | Block::Rule(_) => {
            is_block_start || std::ptr::eq(inner, a)
        }
        Block::Para(_) | Block::Table { .. } => is_block_start,
        Block::Indented(_) => !matches!(b, Block::Indented(_)) && (is_block_start || std::ptr::eq(inner, a)),
        Block::Def { .. } => is_block_start,
        _ => is_block_start,
    }
}

/// The cases carry their expectation: source NUL expected.
pub fn tree_world(t: Trees, deviations: usize) -> World {
    let ls = layouts(deviations);
    tree_world_in(t, ls, &format!("layouts with <= {deviations} deviations"))
}

pub fn tree_world_in(t: Trees, ls: Vec<Layout>, what: &str) -> World {
    let k = ls.len() as u64;
    World::new(
        &format!("{} x {what}", t.name),
        Gen::Fn(
            t.size * k,
            Box::new(move |i| {
                let (blocks, gap) = (t.get)(i / k)?;
                let src = doc(&blocks, gap, &ls[(i % k) as usize]);
                // a rule and another one: metadata
                if src.starts_with("---") && src.lines().skip(1).any(|l| l.trim_end() == "---") {
                    return None;
                }
                Some(format!("{src}\u{0}{}", canonical(&blocks, gap, src.ends_with('\n'))))
            }),
        ),
    )
}

pub fn oracle(case: &str, cfg: Cfg) -> Verdict {
    let Some((src, want)) = case.split_once('\u{0}') else { return Verdict::Vacuous };
    match fmt(cfg, src) {
        Err(e) => fails("no-output", format!("source: {}\n{e}", quote(src))),
        Ok(o) if o != want => fails(
            "layout",
            format!("source:   {}\nexpected: {}\ngot:      {}", quote(src), quote(want), quote(&o)),
        ),
        Ok(_) => Verdict::Holds,
    }
}
