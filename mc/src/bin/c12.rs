//! C12: a panic in user code never corrupts an array.
use mc::engine::{Ctx, Worker, main as run};
use mc::model::product;
use mc::tracked::{self, Elem, Plain, Tracked, Zst};
use mc::{alloc, ensure, ensure_eq};
use mdarray::{Const, Dyn, DynRank};

#[path = "../history.rs"]
mod history;
use history::*;
#[path = "../scenarios.rs"]
mod scenarios;

fn judge<E: Elem, S: Ty>(w: &mut Worker, history: &[Op], op: &Op) -> Result<Option<(Vec<usize>, usize)>, String> {
    // Count the callbacks, then fail at each one.
    let s = step::<E, S>(history, op, None, tracked::ALL, false);
    for k in 0..s.callbacks {
        w.step();
        alloc::take_errors();
        let f = step::<E, S>(history, op, Some(k), tracked::ALL, true);
        ensure!(f.errors.is_empty(), "panic in callback {k} of {}: {:?}", s.callbacks, f.errors);
        if !f.raised {
            w.count("not_raised");
            continue;
        }
        w.count("faults_raised");
        ensure!(f.panicked, "panic in callback {k} is swallowed");
        if let Some((m, cap, _)) = &f.after {
            ensure!(fits::<S>(&m.dims), "panic in callback {k}: dimensions {:?} are not allowed", m.dims);
            ensure_eq!(m.items.len(), product(&m.dims), "panic in callback {k}: length");
            ensure!(*cap >= m.items.len(), "panic in callback {k}: capacity {cap} of {} elements", m.items.len());
            w.outcome(&(op, &m.dims));
        }
        let leaks = matches!(op, Op::Drain(_, _, Eat::Leak(_)));
        if !leaks {
            ensure_eq!(f.left, 0, "panic in callback {k}: elements leaked");
            ensure_eq!(f.blocks, 0, "panic in callback {k}: blocks not released");
        }
        let e = alloc::take_errors();
        ensure!(e == 0, "panic in callback {k}: allocator: {}", alloc::describe(e));
    }
    Ok(s.after.map(|a| (a.0.dims, a.1)))
}

fn explore<E: Elem, S: Ty>(ctx: &Ctx, limit: usize, max_cap: usize, unmerged: Option<usize>) {
    search::<E, S>(ctx, limit, max_cap, unmerged, &judge::<E, S>);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    large::<Tracked, (Dyn,)>(ctx, if t { &[&[9], &[40], &[130]] } else { &[&[9], &[17], &[40]] }, &judge::<Tracked, (Dyn,)>);
    large::<Tracked, (Dyn, Dyn)>(ctx, if t { &[&[9, 2], &[5, 9], &[9, 8]] } else { &[&[7, 2], &[5, 9]] }, &judge::<Tracked, (Dyn, Dyn)>);
    large::<Tracked, (Dyn, Dyn, Dyn)>(ctx, if t { &[&[4, 3, 5], &[7, 2, 2]] } else { &[&[3, 2, 2], &[3, 3, 4]] }, &judge::<Tracked, (Dyn, Dyn, Dyn)>);
    large::<Tracked, (Dyn, Const<2>)>(ctx, &[&[7, 2]], &judge::<Tracked, (Dyn, Const<2>)>);
    large::<Plain, (Dyn,)>(ctx, &[&[9], &[40]], &judge::<Plain, (Dyn,)>);
    explore::<Plain, (Dyn,)>(ctx, if t { 5 } else { 4 }, 12, None);
    explore::<Plain, (Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, 8, None);
    explore::<Tracked, ()>(ctx, 1, 8, None);
    explore::<Tracked, (Dyn,)>(ctx, if t { 6 } else { 5 }, if t { 24 } else { 12 }, None);
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 20 } else { 9 }, None);
    explore::<Tracked, (Dyn, Const<2>)>(ctx, if t { 5 } else { 3 }, if t { 20 } else { 8 }, None);
    explore::<Tracked, (Const<2>, Dyn)>(ctx, if t { 4 } else { 2 }, if t { 16 } else { 8 }, None);
    explore::<Tracked, (Const<2>, Const<2>)>(ctx, 3, 12, None);
    explore::<Tracked, (Dyn, Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Tracked, DynRank>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Zst, (Dyn,)>(ctx, if t { 6 } else { 3 }, 0, None);
    explore::<Zst, (Dyn, Dyn)>(ctx, if t { 4 } else { 2 }, 0, None);
    ctx.bound("callbacks", "every clone, drop and closure call made during the operation, one panic per run");

    let all = scenarios::all(t);
    ctx.bound("scenarios", format!("{} on arrays, expressions, iterators and conversions", all.len()));
    ctx.par(&all, |w, s| {
        w.state();
        w.case(
            || s.0.clone(),
            |w| {
                let n = scenarios::play(s, None, tracked::ALL).callbacks;
                for k in 0..n {
                    w.step();
                    let r = scenarios::play(s, Some(k), tracked::ALL);
                    ensure!(r.errors.is_empty(), "panic in callback {k} of {n}: {:?}", r.errors);
                    if !r.raised {
                        w.count("not_raised");
                        continue;
                    }
                    w.count("faults_raised");
                    ensure!(r.panicked, "panic in callback {k} is swallowed");
                    if !s.3 {
                        ensure_eq!(r.left, 0, "panic in callback {k}: elements leaked");
                        ensure_eq!(r.blocks, 0, "panic in callback {k}: blocks not released");
                    }
                    ensure!(r.alloc == 0, "panic in callback {k}: allocator: {}", alloc::describe(r.alloc));
                    w.outcome(&(&s.0, k, r.created));
                }
                w.trace();
                Ok(())
            },
        );
    });
}

fn main() {
    run(check)
}
