//! C05: reshaping keeps the element sequence or refuses.
use std::collections::HashSet;
use std::sync::Mutex;

use mc::engine::{Check, Ctx, Worker, attempt, main as run};
use mc::model::{Lay, Observe, Sem, St, dense_states, few_permutations, large_dims, large_states, long_dims, long_states, make, make_mut, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each_dynamic, each_static};
use mc::{ensure, ensure_eq};
use mdarray::{Array, Const, Dense, DynRank, IntoShape, Rank, Shape, Strided, Tensor};

#[allow(dead_code)]
mod cfg {
    pub const SHARED: bool = true;
    pub const INTO: bool = true;
    pub const MUT: bool = true;
    pub const TENSOR: bool = true;
    pub const LOW: bool = false;
    pub const WRITE: bool = false;
}

#[path = "../viewops.rs"]
mod viewops;
use viewops::*;

fn one(w: &mut Worker, st: &St, op: &Op, mode: usize, dynrank: bool, new: &mut Vec<St>) {
    let kind = if dynrank { "dynrank" } else { "rank" };
    let mut found = vec![];
    w.case(
        || format!("{kind} {} {}.{:?}", st.name(), MODES[mode], op),
        |w| {
            found = judge(w, expected(st, &st.sem(), op, None), apply_reshape(st, op, mode, dynrank))?;
            Ok(())
        },
    );
    new.extend(found);
}

fn ops(st: &St, max_rank: usize) -> Vec<Op> {
    let mut v = vec![Op::Flat];
    for rank in 0..=max_rank {
        for t in reshape_targets(st, rank) {
            if rank <= 4 {
                v.push(Op::Reshape(t.clone()));
            }
            v.push(Op::ReshapeDyn(t));
        }
    }
    v
}

/// Explore from the initial states, and from every state that reshaping leads to.
fn explore(ctx: &Ctx, initial: Vec<St>, layers: usize, max_rank: usize, modes: &[usize]) {
    let key = |s: &St| (s.dims.clone(), s.strides.clone(), s.dense);
    let mut seen: HashSet<_> = initial.iter().map(key).collect();
    let mut layer = initial;
    for depth in 0..layers {
        let found = Mutex::new(Vec::new());
        ctx.par(&layer, |w, st| {
            w.state();
            if depth > 0 {
                w.count("states_found_by_real_operations");
            }
            let mut new = vec![];
            for op in ops(st, max_rank) {
                if depth > 0 && matches!(expected(st, &st.sem(), &op, None), Want::Panic) {
                    continue;
                }
                for &mode in if depth == 0 { modes } else { &modes[..1] } {
                    for dynrank in [false, true] {
                        one(w, st, &op, mode, dynrank, &mut new);
                    }
                }
            }
            new.retain(|s| s.dims.len() <= 4);
            let mut local = HashSet::new();
            new.retain(|s| local.insert(key(s)));
            found.lock().unwrap().extend(new);
        });
        let mut next: Vec<St> = found.into_inner().unwrap();
        next.sort_by(|a, b| (&a.dims, &a.strides, a.dense, a.off, a.len).cmp(&(&b.dims, &b.strides, b.dense, b.off, b.len)));
        next.retain(|s| seen.insert(key(s)));
        layer = next;
    }
}

/// Target shapes with constant sizes, as `(value, requested dimensions, constant sizes)`.
macro_rules! static_targets {
    ($go:ident) => {
        $go!((Const::<0>,), [0]);
        $go!((Const::<4>,), [4]);
        $go!((Const::<2>, Const::<2>), [2, 2]);
        $go!((Const::<2>, Const::<3>), [2, 3]);
        $go!((Const::<2>, !0), [2, !0]);
        $go!((!0, Const::<0>), [!0, 0]);
        $go!((Const::<1>, !0, Const::<2>), [1, !0, 2]);
        $go!((!0, Const::<2>, !0), [!0, 2, !0]);
    };
}

/// Reshaping to constant sizes.
struct ToStatic<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for ToStatic<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let buf = st.buffer();

        fn target<S: Shape + 'static, L: Lay, I: IntoShape + Copy>(
            w: &mut Worker,
            name: &str,
            st: &St,
            buf: &[u32],
            (i, dims): (I, &[usize]),
        ) {
            let (base, len) = (buf.as_ptr(), buf.len());
            w.case(
                || format!("{name} {} reshaped to constant {dims:?}", st.name()),
                |w| {
                    let v = make::<u32, S, L>(st, buf);
                    let r = attempt(|| v.reshape(i)).map(|r| r.observe(base, len));
                    judge(w, reshape(st, &st.sem(), dims), r)?;
                    if L::IS_DENSE {
                        let t = make::<u32, S, L>(st, buf).to_tensor();
                        owned(w, attempt(|| t.into_shape(i)), &St::dense(&st.dims), dims)?;
                    }
                    Ok(())
                },
            );
        }
        macro_rules! go {
            ($i:expr, $dims:expr) => {
                target::<S, L, _>(self.0, name, st, &buf, ($i, &$dims));
            };
        }
        static_targets!(go);
    }
}

/// Reshaping of shape types with constant sizes.
struct FromStatic<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for FromStatic<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let sem = st.sem();
        let mut buf = st.buffer();
        let (base, len) = (buf.as_ptr(), buf.len());

        for rank in 1..=3 {
            for t in reshape_targets(st, rank) {
                self.0.case(
                    || format!("{name} {} reshape({t:?})", st.name()),
                    |w| {
                        let v = make::<u32, S, L>(st, &buf);
                        let r = attempt(|| v.reshape(&t[..])).map(|r| r.observe(base, len));
                        judge(w, reshape(st, &sem, &t), r)?;
                        if rank == 2 {
                            let v = make_mut::<u32, S, L>(st, &mut buf);
                            let r = attempt(|| v.into_shape([t[0], t[1]])).map(|r| r.observe(base, len));
                            judge(w, reshape(st, &sem, &t), r)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        self.0.case(
            || format!("{name} {} flatten", st.name()),
            |w| {
                let v = make::<u32, S, L>(st, &buf);
                let r = attempt(|| v.flatten()).map(|r| r.observe(base, len));
                judge(w, reshape(st, &sem, &[sem.len()]), r)?;
                let v = make::<u32, S, L>(st, &buf);
                let r = attempt(|| v.into_flat()).map(|r| r.observe(base, len));
                judge(w, reshape(st, &sem, &[sem.len()]), r)?;
                Ok(())
            },
        );
    }
}

/// Check an owned reshaped array.
fn owned<R: Shape>(w: &mut Worker, got: Option<Tensor<u32, R>>, st: &St, dims: &[usize]) -> Check {
    let sem = st.sem();
    w.step();
    match (reshape(st, &sem, dims), got) {
        (Want::Panic, None) => w.count("expected_panics"),
        (Want::Panic, Some(_)) => return Err("into_shape is not refused".into()),
        (Want::Give(_), None) => return Err("into_shape is valid, but panics".into()),
        (Want::Give(s) | Want::Either(s), Some(t)) => {
            same(&t, &s[0])?;
            w.trace();
        }
        (_, None) => (),
        (Want::Empty, Some(t)) => ensure!(t.len() == 0, "elements from nowhere"),
    }
    Ok(())
}

fn same<R: Shape>(t: &Tensor<u32, R>, sem: &Sem) -> Check {
    let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    ensure_eq!(dims, sem.dims, "dimensions");
    ensure_eq!(t.len(), sem.len(), "length");
    for i in mc::model::indices(&dims) {
        ensure_eq!(t[&i[..]], sem.at(&i), "element {i:?}");
    }
    Ok(())
}

/// Owned tensors.
fn tensors(w: &mut Worker, st: &St) {
    let dims = &st.dims;
    let make = || Tensor::<u32, DynRank>::from_fn(&dims[..], |i| st.sem().at(i));
    for rank in 0..=5 {
        for t in reshape_targets(st, rank) {
            w.case(
                || format!("tensor {dims:?} into_shape({t:?})"),
                |w| {
                    owned(w, attempt(|| make().into_shape(&t[..])), st, &t)?;
                    match rank {
                        0 => owned(w, attempt(|| make().into_shape([0; 0])), st, &t)?,
                        1 => owned(w, attempt(|| make().into_shape([t[0]])), st, &t)?,
                        2 => owned(w, attempt(|| make().into_shape([t[0], t[1]])), st, &t)?,
                        3 => owned(w, attempt(|| make().into_shape([t[0], t[1], t[2]])), st, &t)?,
                        4 => owned(w, attempt(|| make().into_shape([t[0], t[1], t[2], t[3]])), st, &t)?,
                        _ => (),
                    }
                    Ok(())
                },
            );
        }
    }
    w.case(
        || format!("tensor {dims:?} into_flat"),
        |w| {
            let n = st.sem().len();
            owned(w, attempt(|| make().into_flat()), st, &[n])?;
            let v = make().into_vec();
            ensure_eq!(v, st.sem().ids, "into_vec");
            Ok(())
        },
    );
}

/// Fixed-size arrays.
fn arrays(w: &mut Worker) {
    macro_rules! pair {
        ($a:ty, $($b:ty),+) => {$(
            w.case(
                || format!("Array {} into {}", stringify!($a), stringify!($b)),
                |w| {
                    w.step();
                    let mut n = 0;
                    let a = Array::<u32, $a>::from_fn(|_| { n += 1; n });
                    let len = a.len();
                    let flat = a.to_vec();
                    let want = <$b as Default>::default();
                    match attempt(|| a.into_shape::<$b>()) {
                        None => ensure!(want.len() != len, "refused, but the lengths match"),
                        Some(b) => {
                            ensure!(want.len() == len, "accepted, but the lengths differ");
                            ensure_eq!(b.to_vec(), flat, "elements");
                            ensure!(*b.shape() == want, "shape");
                            w.trace();
                        }
                    }
                    Ok(())
                },
            );
        )+};
    }
    macro_rules! all {
        ($($a:ty;)+) => {$(
            pair!($a, (), (Const<0>,), (Const<4>,), (Const<6>,), (Const<2>, Const<2>), (Const<3>, Const<2>),
                (Const<1>, Const<2>, Const<3>), (Const<2>, Const<0>, Const<2>));
        )+};
    }
    all! {
        (); (Const<0>,); (Const<1>,); (Const<6>,); (Const<2>, Const<2>); (Const<2>, Const<3>);
        (Const<0>, Const<3>); (Const<1>, Const<2>, Const<3>); (Const<1>, Const<1>, Const<1>, Const<1>);
    }
}

/// Products that do not fit in a `usize`.
fn huge(w: &mut Worker) {
    let wraps: [&[usize]; 6] = [
        &[1 << 32, 1 << 32],
        &[1 << 63, 2],
        &[(1 << 60) + 1, 16],
        &[(1 << 62) + 1, 4, 4],
        &[1 << 32, 1 << 31, 2],
        &[(1 << 63) + 3, 2, !0],
    ];
    for n in [0usize, 4, 6, 16] {
        for dims in wraps {
            w.case(
                || format!("{n} elements reshaped to {dims:?}"),
                |w| {
                    let t = Tensor::<(), Rank<1>>::from_elem([n], ());
                    w.expect_panic("reshape", attempt(|| drop(t.reshape(dims))))?;
                    w.expect_panic("reshape of a strided view", attempt(|| drop(t.remap::<Rank<1>, Strided>().reshape(dims))))?;
                    if let [a, b] = *dims {
                        w.expect_panic("reshape", attempt(|| drop(t.reshape([a, b]))))?;
                    }
                    w.expect_panic("into_shape", attempt(|| drop(t.into_shape(dims))))
                },
            );
        }
    }
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("states", if t { "rank 0-2: sizes 0..4; rank 3: 0..3; rank 4: 0..2; dense and strided (steps +-1, +-2, windows, all axis orders)" } else { "rank 0-1: sizes 0..4; rank 2: 0..3; rank 3-4: 0..2; dense and strided (rank 0-2: steps +-1, 2; rank 3: +-1; rank 4: 1; windows; all axis orders, for rank 4 the rotations, reversal and swaps of neighbours)" });
    ctx.bound("targets", "all dimension lists of rank 0-2 over {0, 1, 2, 3, inferred, n, n+1, divisors of n}; those of rank 3-5 that match or infer one size");

    let mut low = dense_states(0, 1);
    low.push(St { dense: false, ..St::dense(&[]) });
    low.extend(dense_states(1, 5));
    low.extend(strided_states(1, 5, &[1, -1, 2, -2], &[0, 1]));
    low.extend(dense_states(2, if t { 5 } else { 4 }));
    low.extend(strided_states(2, if t { 5 } else { 4 }, if t { &[1, -1, 2, -2] } else { &[1, -1, 2] }, if t { &[0, 1, 2, 3] } else { &[0, 1] }));
    explore(ctx, low.clone(), if t { 4 } else { 2 }, 4, &[0, 1, 2, 3]);

    let mut three = dense_states(3, if t { 4 } else { 3 });
    three.extend(strided_states(3, 3, if t { &[1, -1, 2] } else { &[1, -1] }, if t { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 4] }));
    explore(ctx, three.clone(), if t { 2 } else { 1 }, 4, &[0, 1, 2, 3]);

    let mut four = dense_states(4, 3);
    four.extend(strided_from(4, &small_dims(4, if t { 4 } else { 1 }), if t { &[1, -1] } else { &[1] }, &[0, 1, 2, 4, 8], &few_permutations(4)));
    explore(ctx, four.clone(), 1, 4, &[0, 1, 2, 3]);

    ctx.bound("long and large", "rank 1-4: size 5 (7 in rank 1) in every position; 17 to 130 elements; dense, windows and strided, targets up to rank 3");
    for rank in 1..=4 {
        let mut s = long_states(rank);
        s.extend(large_states(rank));
        let dims = [long_dims(rank), large_dims(rank)].concat();
        for pads in [&[1][..], &[2], &[3]] {
            s.extend(strided_from(rank, &dims, &[1], if rank == 1 { &pads[..0] } else { pads }, &[(0..rank).collect()]));
        }
        explore(ctx, s, 1, 3, &[0, 1, 2, 3]);
    }

    // Shape types with constant sizes.
    let states: Vec<St> = low.iter().chain(&three).chain(&four).cloned().collect();
    ctx.par(&states, |w, st| {
        if st.dense {
            each_dynamic::<Dense>(&st.dims, &mut ToStatic(w, st));
            each_static::<Dense>(&st.dims, &mut FromStatic(w, st));
        } else {
            each_dynamic::<Strided>(&st.dims, &mut ToStatic(w, st));
            each_static::<Strided>(&st.dims, &mut FromStatic(w, st));
        }
    });

    let mut dense: Vec<St> = states.into_iter().filter(|s| s.dense).collect();
    dense.extend(small_dims(5, 5).iter().map(|d| St::dense(d)));
    ctx.par(&dense, tensors);
    ctx.one(arrays);
    ctx.one(huge);
}

fn main() {
    run(check)
}
