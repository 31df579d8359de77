//! Walks over all histories allowed by a menu, with an inspection after every
//! step.

use super::*;
use crate::core::{Ctx, R};
use crate::explore::Space;

pub struct Walk {
    pub menu: Menu,
    pub inspect: fn(&Ctx, &Hist) -> R,
}

impl Space for Walk {
    type Root = Root;
    type S = Hist;
    type A = Act;
    fn init(&self, root: &Root) -> R<Hist> { Hist::new(root, 2) }
    fn fork(&self, s: &Hist) -> Hist { s.clone() }
    fn actions(&self, s: &Hist, _: usize) -> Vec<Act> { s.actions(&self.menu) }
    fn step(&self, ctx: &Ctx, s: &mut Hist, a: &Act) -> R {
        s.apply(a)?;
        ctx.outcome(a.to_string().split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string());
        (self.inspect)(ctx, s)
    }
    fn canon(&self, s: &Hist) -> String { s.canon() }
}

/// All subsets of up to `full` items; of more items the singles, the pairs and
/// everything.
pub fn subsets<T: Copy>(items: &[T], full: usize) -> Vec<Vec<T>> {
    let n = items.len();
    if n <= full {
        return (0..1usize << n).map(|m| (0..n).filter(|i| m & (1 << i) != 0).map(|i| items[i]).collect()).collect();
    }
    let mut v = vec![vec![], items.to_vec()];
    for i in 0..n {
        v.push(vec![items[i]]);
        for j in i + 1..n {
            v.push(vec![items[i], items[j]]);
        }
    }
    v
}
