//! C10: resizable arrays match the reference model under every operation history.
use mc::engine::{Ctx, Worker, main as run};
use mc::ensure;
use mc::tracked::{Elem, Plain, Tracked, Wide, Zst};
use mdarray::{Const, Dyn, DynRank};

#[path = "../history.rs"]
mod history;
use history::*;

fn judge<E: Elem, S: Ty>(w: &mut Worker, history: &[Op], op: &Op) -> Result<Option<(Vec<usize>, usize)>, String> {
    let s = step::<E, S>(history, op, None, 0, true);
    conforms::<S>(&s, E::ZST)?;
    ensure!(s.errors.is_empty(), "{:?}", s.errors);
    w.outcome(&(&s.op, s.panicked, &s.after.as_ref().map(|a| &a.0.dims)));
    if s.panicked {
        w.count("refused");
    }
    Ok(s.after.map(|a| (a.0.dims, a.1)))
}

fn explore<E: Elem, S: Ty>(ctx: &Ctx, limit: usize, max_cap: usize, unmerged: Option<usize>) {
    search::<E, S>(ctx, limit, max_cap, unmerged, &judge::<E, S>);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    large::<Tracked, (Dyn,)>(ctx, &[&[9], &[40], &[130], &[300], &[700]], &judge::<Tracked, (Dyn,)>);
    large::<Tracked, (Dyn, Dyn)>(ctx, &[&[9, 2], &[5, 9], &[3, 17], &[20, 20], &[300, 2]], &judge::<Tracked, (Dyn, Dyn)>);
    large::<Tracked, (Dyn, Dyn, Dyn)>(ctx, &[&[4, 3, 5], &[7, 2, 2], &[5, 6, 7]], &judge::<Tracked, (Dyn, Dyn, Dyn)>);
    large::<Tracked, (Dyn, Const<2>)>(ctx, &[&[9, 2], &[20, 2]], &judge::<Tracked, (Dyn, Const<2>)>);
    large::<Tracked, DynRank>(ctx, &[&[9], &[7, 3], &[4, 2, 3]], &judge::<Tracked, DynRank>);
    large::<Zst, (Dyn, Dyn)>(ctx, &[&[9, 2], &[70, 3]], &judge::<Zst, (Dyn, Dyn)>);
    large::<Plain, (Dyn,)>(ctx, &[&[9], &[130], &[700]], &judge::<Plain, (Dyn,)>);
    large::<Plain, (Dyn, Dyn)>(ctx, &[&[5, 9], &[20, 20]], &judge::<Plain, (Dyn, Dyn)>);
    large::<Wide, (Dyn, Dyn)>(ctx, &[&[5, 9], &[9, 4]], &judge::<Wide, (Dyn, Dyn)>);
    explore::<Plain, (Dyn,)>(ctx, if t { 6 } else { 4 }, 12, None);
    explore::<Plain, (Dyn, Dyn)>(ctx, 3, 12, None);
    explore::<Plain, (Dyn, Const<2>)>(ctx, if t { 5 } else { 3 }, 12, None);
    explore::<Plain, (Dyn, Dyn, Dyn)>(ctx, 2, 8, None);
    explore::<Plain, DynRank>(ctx, 2, 8, None);
    explore::<Wide, (Dyn,)>(ctx, if t { 6 } else { 4 }, 12, None);
    explore::<Wide, (Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, 8, None);
    explore::<Tracked, ()>(ctx, 1, 8, None);
    explore::<Tracked, (Dyn,)>(ctx, if t { 7 } else { 5 }, if t { 24 } else { 12 }, None);
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 20 } else { 12 }, None);
    explore::<Tracked, (Dyn, Const<2>)>(ctx, if t { 6 } else { 4 }, if t { 20 } else { 12 }, None);
    explore::<Tracked, (Const<2>, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 16 } else { 12 }, None);
    explore::<Tracked, (Const<2>, Const<2>)>(ctx, 3, 12, None);
    explore::<Tracked, (Dyn, Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Tracked, DynRank>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Zst, (Dyn,)>(ctx, if t { 7 } else { 4 }, 0, None);
    explore::<Zst, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, 0, None);
    explore::<Zst, (Dyn, Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, 0, None);
    explore::<Zst, DynRank>(ctx, if t { 3 } else { 2 }, 0, None);
    explore::<Tracked, (Dyn,)>(ctx, 2, 12, Some(if t { 3 } else { 2 }));
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 2 } else { 1 }, 12, Some(2));
    explore::<Tracked, (Dyn, Const<2>)>(ctx, if t { 2 } else { 1 }, 12, Some(2));
    explore::<Tracked, DynRank>(ctx, 1, 12, Some(if t { 2 } else { 1 }));
    explore::<Zst, (Dyn,)>(ctx, 2, 12, Some(2));
    ctx.bound("operations", "constructors, resize, resize_with, expand (4 sources), append, extend, drain (all ranges; taken, folded, leaked, evaluated), truncate, clear, reserve*, shrink*, clone*, map, apply, zip_with, assign, fill*, element writes, into_shape, conversions, into_iter");
}

fn main() {
    run(check)
}
