//! C24: the layout of the output is a function of the document's tree alone.
use super::trees::*;
use super::Check;
use crate::ast::*;
use crate::engine::World;

pub fn tree_spaces(quick: bool) -> Vec<Trees> {
    let l = leaves().len() as u64;
    let mut v: Vec<Trees> = vec![];
    // pairs of leaves inside of every stack of containers
    for depth in 0..=(if quick { 2 } else { 3 }) {
        let stacks = (CONTAINERS as u64).pow(depth);
        v.push(Trees {
            name: format!("two leaves, {depth} containers"),
            size: stacks * l * l * 2,
            get: Box::new(move |mut i| {
                let gap = 1 + (i % 2) as usize;
                i /= 2;
                let a = leaves()[(i % l) as usize].clone();
                i /= l;
                let b = leaves()[(i % l) as usize].clone();
                i /= l;
                let mut body = vec![a, b];
                for _ in 0..depth {
                    let k = (i % CONTAINERS as u64) as usize;
                    i /= CONTAINERS as u64;
                    body = vec![contain(k, body, gap)];
                }
                fine(&body).then_some((body, gap))
            }),
        });
    }
    // a container between two leaves, with a container inside
    v.push(Trees {
        name: "leaf, container(container(leaf)), leaf".into(),
        size: l * l * 64 * 4,
        get: Box::new(move |mut i| {
            let after = [0usize, 8, 13, 17][(i % 4) as usize];
            i /= 4;
            let a = leaves()[(i % l) as usize].clone();
            i /= l;
            let b = leaves()[(i % l) as usize].clone();
            i /= l;
            let k1 = (i % 8) as usize;
            let k2 = (i / 8 % 8) as usize;
            let body = vec![a, contain(k2, vec![contain(k1, vec![b], 1)], 1), leaves()[after].clone()];
            fine(&body).then_some((body, 1))
        }),
    });
    // lists of three items
    let marks: &'static [[&'static str; 3]] =
        &[["*", "*", "*"], ["-", "-", "-"], ["1.", "2.", "3."], ["9.", "10.", "11."], ["1)", "1)", "1)"], ["01.", "7.", "100."]];
    v.push(Trees {
        name: "lists of three items".into(),
        size: 6 * l * l * 3 * 2 * 3,
        get: Box::new(move |mut i| {
            let m = marks[(i % 6) as usize];
            i /= 6;
            let a = leaves()[(i % l) as usize].clone();
            i /= l;
            let b = leaves()[(i % l) as usize].clone();
            i /= l;
            let gap = (i % 3) as usize;
            i /= 3;
            let inner = 1 + (i % 2) as usize;
            i /= 2;
            let c = Block::Para(vec!["last"]);
            let items = match i % 3 {
                0 => vec![vec![a], vec![b], vec![c]],
                1 => vec![vec![a, c.clone()], vec![c], vec![b]],
                _ => vec![vec![c.clone()], vec![a, Block::List { markers: vec!["+", "+"], items: vec![vec![b], vec![c.clone()]], gap, inner: 1 }], vec![c]],
            };
            let bs = vec![Block::List { markers: m.to_vec(), items, gap, inner }];
            fine(&bs).then_some((bs, 1))
        }),
    });
    v
}


fn worlds(quick: bool) -> Vec<World> {
    tree_spaces(quick)
        .into_iter()
        .enumerate()
        .map(|(n, t)| tree_world(t, if quick && n > 1 { 1 } else { 2 }))
        .collect()
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("C24", "Layout is canonical").part(worlds, oracle).part(|q| super::scale::worlds("C24", q), oracle)]
}
