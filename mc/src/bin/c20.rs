//! C20: capacity requests are honoured and buffers are reused as documented.
use mc::engine::{Check, Ctx, Worker, main as run};
use mc::tracked::{Elem, Plain, Tracked, Wide, Zst};
use mc::{ensure, ensure_eq};
use mdarray::{Const, Dyn, DynRank};

#[path = "../history.rs"]
mod history;
use history::*;

/// Rules for capacity and buffer.
fn rules<E: Elem>(s: &Seen) -> Check {
    let Some((m, cap, ptr)) = &s.after else { return Ok(()) };
    let (len, before) = (m.items.len(), s.before.items.len());
    if !E::ZST {
        ensure!(*cap >= len, "capacity {cap} is less than the length {len}");
    } else {
        ensure_eq!(*cap, usize::MAX, "capacity of zero-sized elements");
        return Ok(());
    }
    // A buffer without capacity is not a buffer.
    let same = s.cap_before == *cap && (*cap == 0 || s.ptr_before == *ptr);
    let fits = |n: usize| before.checked_add(n).is_some_and(|x| x <= s.cap_before);
    match &s.op {
        Op::WithCapacity(n) => ensure!(s.panicked || cap >= n, "capacity {cap}, requested {n}"),
        Op::Reserve(n) | Op::ReserveExact(n) | Op::TryReserve(n) | Op::TryReserveExact(n) => {
            let met = !s.panicked && s.ret.is_empty();
            if met {
                ensure!(*cap >= before.saturating_add(*n), "capacity {cap} for {before} elements and {n} more");
                ensure!(*cap >= s.cap_before, "capacity is reduced from {} to {cap}", s.cap_before);
            } else {
                ensure!(before.saturating_add(*n) > isize::MAX as usize / std::mem::size_of::<E>(), "a possible request is refused");
            }
            if !met || fits(*n) {
                ensure!(same, "the buffer is changed: capacity {} to {cap}", s.cap_before);
            }
        }
        Op::NoMemory(_) => {
            ensure!(s.ret == [u32::MAX], "a request that cannot be met gives no error");
            ensure!(same, "the buffer is changed by a failed request");
        }
        Op::ShrinkToFit => ensure!(*cap <= s.cap_before, "shrinking increases the capacity"),
        Op::ShrinkTo(n) => {
            ensure!(*cap <= s.cap_before, "shrinking increases the capacity");
            ensure!(*cap >= (*n).min(s.cap_before), "shrinking to {n} gives {cap}");
        }
        Op::Clear | Op::Truncate(_) => ensure!(same, "the buffer is changed: capacity {} to {cap}", s.cap_before),
        Op::Drain(..) => ensure!(same, "the buffer is changed: capacity {} to {cap}", s.cap_before),
        Op::Spare => {
            ensure!(s.ret.is_empty(), "the spare capacity is not what is left of the capacity");
            ensure!(same, "the buffer is changed");
        }
        // Room that was reserved is used.
        Op::Expand(_, d) | Op::Append(d) => {
            if !s.panicked && fits(d.iter().product()) {
                ensure!(same, "the buffer is changed: capacity {} to {cap}", s.cap_before);
            }
        }
        Op::Extend(n) => {
            if fits(*n) {
                ensure!(same, "the buffer is changed: capacity {} to {cap}", s.cap_before);
            }
        }
        Op::IntoShape(_) | Op::IntoDyn | Op::IntoFlat | Op::IntoVec | Op::RawParts | Op::Map | Op::Apply | Op::ZipWith(_) | Op::ZipWithValue | Op::Add(_) => {
            ensure!(same, "the buffer is not reused: capacity {} to {cap}", s.cap_before);
        }
        Op::AddAssign(_) | Op::Assign(..) | Op::Fill | Op::FillWith | Op::Set(_) | Op::Swap(..) => {
            ensure!(same, "the buffer is changed: capacity {} to {cap}", s.cap_before);
        }
        _ => (),
    }
    Ok(())
}

fn judge<E: Elem, S: Ty>(w: &mut Worker, history: &[Op], op: &Op) -> Result<Option<(Vec<usize>, usize)>, String> {
    let s = step::<E, S>(history, op, None, 0, false);
    rules::<E>(&s)?;
    // Capacity operations do not change the array.
    if matches!(op, Op::Reserve(_) | Op::ReserveExact(_) | Op::TryReserve(_) | Op::TryReserveExact(_) | Op::NoMemory(_) | Op::ShrinkToFit | Op::ShrinkTo(_) | Op::Spare) {
        conforms::<S>(&s, E::ZST)?;
        w.count("capacity_operations");
    }
    ensure!(s.errors.is_empty(), "{:?}", s.errors);
    w.outcome(&(&s.op, s.panicked, &s.after.as_ref().map(|a| a.1)));
    Ok(s.after.map(|a| (a.0.dims, a.1)))
}

fn explore<E: Elem, S: Ty>(ctx: &Ctx, limit: usize, max_cap: usize, unmerged: Option<usize>) {
    search::<E, S>(ctx, limit, max_cap, unmerged, &judge::<E, S>);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    large::<Tracked, (Dyn,)>(ctx, &[&[9], &[40], &[130], &[300], &[700]], &judge::<Tracked, (Dyn,)>);
    large::<Tracked, (Dyn, Dyn)>(ctx, &[&[9, 2], &[5, 9], &[3, 17], &[20, 20], &[300, 2]], &judge::<Tracked, (Dyn, Dyn)>);
    large::<Tracked, (Dyn, Dyn, Dyn)>(ctx, &[&[4, 3, 5], &[7, 2, 2], &[5, 6, 7]], &judge::<Tracked, (Dyn, Dyn, Dyn)>);
    large::<Tracked, (Dyn, Const<2>)>(ctx, &[&[9, 2], &[20, 2]], &judge::<Tracked, (Dyn, Const<2>)>);
    large::<Tracked, DynRank>(ctx, &[&[9], &[7, 3], &[4, 2, 3]], &judge::<Tracked, DynRank>);
    large::<Zst, (Dyn, Dyn)>(ctx, &[&[9, 2], &[70, 3]], &judge::<Zst, (Dyn, Dyn)>);
    large::<Plain, (Dyn,)>(ctx, &[&[9], &[130], &[700]], &judge::<Plain, (Dyn,)>);
    large::<Wide, (Dyn, Dyn)>(ctx, &[&[5, 9], &[9, 4]], &judge::<Wide, (Dyn, Dyn)>);
    explore::<Plain, (Dyn,)>(ctx, if t { 6 } else { 4 }, 16, None);
    explore::<Plain, (Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, 8, None);
    explore::<Wide, (Dyn,)>(ctx, if t { 6 } else { 4 }, 16, None);
    explore::<Tracked, ()>(ctx, 1, 8, None);
    explore::<Tracked, (Dyn,)>(ctx, if t { 8 } else { 5 }, if t { 40 } else { 16 }, None);
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 24 } else { 12 }, None);
    explore::<Tracked, (Dyn, Const<2>)>(ctx, if t { 6 } else { 4 }, if t { 24 } else { 12 }, None);
    explore::<Tracked, (Const<2>, Dyn)>(ctx, if t { 4 } else { 3 }, if t { 16 } else { 12 }, None);
    explore::<Tracked, (Const<2>, Const<2>)>(ctx, 3, 12, None);
    explore::<Tracked, (Dyn, Dyn, Dyn)>(ctx, if t { 3 } else { 2 }, if t { 16 } else { 10 }, None);
    explore::<Tracked, DynRank>(ctx, if t { 3 } else { 2 }, if t { 12 } else { 8 }, None);
    explore::<Zst, (Dyn,)>(ctx, if t { 7 } else { 4 }, 0, None);
    explore::<Zst, (Dyn, Dyn)>(ctx, if t { 4 } else { 3 }, 0, None);
    explore::<Tracked, (Dyn,)>(ctx, 2, 16, Some(if t { 3 } else { 2 }));
    explore::<Tracked, (Dyn, Dyn)>(ctx, if t { 2 } else { 1 }, 16, Some(2));
    ctx.assume("shrinking may leave more capacity than asked for; how much a growing array over-allocates is not specified");
}

fn main() {
    run(check)
}
