//! C11: every element is dropped exactly once and every allocation is freed once.
use mc::engine::{Ctx, Worker, main as run};
use mc::tracked::{Elem, Plain, Tracked, Wide, Zst};
use mc::{alloc, ensure, ensure_eq};
use mdarray::{Const, Dyn, DynRank};

#[path = "../history.rs"]
mod history;
use history::*;
#[path = "../scenarios.rs"]
mod scenarios;

fn judge<E: Elem, S: Ty>(w: &mut Worker, history: &[Op], op: &Op) -> Result<Option<(Vec<usize>, usize)>, String> {
    alloc::take_errors();
    let s = step::<E, S>(history, op, None, 0, true);
    ensure!(s.errors.is_empty(), "{:?}", s.errors);
    let leaks = matches!(op, Op::Drain(_, _, Eat::Leak(_)) | Op::IntoIter(Eat::Leak(_)));
    let held = s.after.as_ref().map_or(0, |a| if E::TRACKED { a.0.items.len() } else { 0 });
    if leaks {
        w.count("deliberate_leaks");
        ensure!(s.live_count >= held, "{} live elements, but the array has {held}", s.live_count);
        // The lost elements are at most those that the array had and does not have any more.
        ensure!(s.left <= s.before.items.len() - held, "{} elements are lost", s.left);
    } else {
        ensure_eq!(s.live_count, held, "live elements before the array is dropped");
        if !E::ZST && E::TRACKED && history.iter().all(|op| !matches!(op, Op::Drain(_, _, Eat::Leak(_)))) {
            let mut have = s.after.as_ref().map_or(vec![], |a| a.0.items.clone());
            let mut live = s.live.clone();
            have.sort();
            live.sort();
            ensure_eq!(live, have, "live elements are not those of the array");
        }
        ensure_eq!(s.left, 0, "elements left after everything is dropped");
    }
    if !leaks {
        ensure_eq!(s.blocks, 0, "blocks not released");
    }
    let e = alloc::take_errors();
    ensure!(e == 0, "allocator: {}", alloc::describe(e));
    w.outcome(&(&s.op, s.panicked, &s.after.as_ref().map(|a| &a.0.dims)));
    Ok(s.after.map(|a| (a.0.dims, a.1)))
}

fn explore<E: Elem, S: Ty>(ctx: &Ctx, limit: usize, max_cap: usize, unmerged: Option<usize>) {
    search::<E, S>(ctx, limit, max_cap, unmerged, &judge::<E, S>);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    large::<Tracked, (Dyn,)>(ctx, &[&[9], &[40], &[130], &[300], &[700]], &judge::<Tracked, (Dyn,)>);
    large::<Tracked, (Dyn, Dyn)>(ctx, &[&[9, 2], &[5, 9], &[3, 17], &[20, 20], &[300, 2]], &judge::<Tracked, (Dyn, Dyn)>);
    large::<Tracked, (Dyn, Dyn, Dyn)>(ctx, &[&[4, 3, 5], &[7, 2, 2], &[5, 6, 7]], &judge::<Tracked, (Dyn, Dyn, Dyn)>);
    large::<Tracked, (Dyn, Const<2>)>(ctx, &[&[9, 2], &[20, 2]], &judge::<Tracked, (Dyn, Const<2>)>);
    large::<Tracked, DynRank>(ctx, &[&[9], &[7, 3], &[4, 2, 3]], &judge::<Tracked, DynRank>);
    large::<Zst, (Dyn, Dyn)>(ctx, &[&[9, 2], &[70, 3]], &judge::<Zst, (Dyn, Dyn)>);
    large::<Plain, (Dyn,)>(ctx, &[&[9], &[130], &[700]], &judge::<Plain, (Dyn,)>);
    large::<Wide, (Dyn, Dyn)>(ctx, &[&[5, 9], &[9, 4]], &judge::<Wide, (Dyn, Dyn)>);
    explore::<Plain, (Dyn,)>(ctx, if t { 6 } else { 4 }, 12, None);
    explore::<Plain, (Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, 8, None);
    explore::<Plain, DynRank>(ctx, 2, 8, None);
    explore::<Wide, (Dyn,)>(ctx, if t { 6 } else { 3 }, 8, None);
    explore::<Tracked, ()>(ctx, 1, 8, None);
    explore::<Tracked, (Dyn,)>(ctx, if t { 7 } else { 5 }, if t { 24 } else { 12 }, None);
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 20 } else { 12 }, None);
    explore::<Tracked, (Dyn, Const<2>)>(ctx, if t { 6 } else { 4 }, if t { 20 } else { 12 }, None);
    explore::<Tracked, (Const<2>, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 16 } else { 12 }, None);
    explore::<Tracked, (Const<2>, Const<2>)>(ctx, 3, 12, None);
    explore::<Tracked, (Dyn, Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Tracked, DynRank>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Zst, (Dyn,)>(ctx, if t { 7 } else { 4 }, 0, None);
    explore::<Zst, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, 0, None);
    explore::<Zst, (Dyn, Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, 0, None);
    explore::<Zst, DynRank>(ctx, if t { 3 } else { 2 }, 0, None);
    explore::<Tracked, (Dyn,)>(ctx, 2, 12, Some(if t { 3 } else { 2 }));
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 2 } else { 1 }, 12, Some(2));
    ctx.bound("operations", "constructors, resize, resize_with, expand (4 sources), append, extend, drain (all ranges; taken, folded, leaked, evaluated), truncate, clear, reserve*, shrink*, clone*, map, apply, zip_with, assign, fill*, element writes, into_shape, conversions, into_iter");

    let all = scenarios::all(t);
    ctx.bound("scenarios", format!("{} on arrays, expressions, iterators and conversions", all.len()));
    ctx.par(&all, |w, s| {
        w.state();
        w.case(
            || s.0.clone(),
            |w| {
                w.step();
                w.trace();
                let r = scenarios::play(s, None, 0);
                ensure!(r.panicked == s.2, "{}", if r.panicked { "panics" } else { "does not panic" });
                ensure!(r.errors.is_empty(), "{:?}", r.errors);
                ensure_eq!(r.left, 0, "elements left after everything is dropped");
                ensure_eq!(r.blocks, 0, "blocks not released");
                ensure!(r.alloc == 0, "allocator: {}", alloc::describe(r.alloc));
                w.outcome(&(&s.0, r.created));
                Ok(())
            },
        );
    });
}

fn main() {
    run(check)
}
