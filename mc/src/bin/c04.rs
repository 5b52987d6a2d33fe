//! C04: axis, permutation, row, column, diagonal, split and remap views map elements exactly.
use std::collections::HashSet;
use std::sync::Mutex;

use mc::engine::{Check, Ctx, Worker, attempt, main as run};
use mc::model::{Sem, St, dense_states, indices, make, make_mut, few_permutations, large_states, long_states, small_dims, strided_from, strided_states};
use mc::{ensure, ensure_eq};
use mdarray::{Const, Dense, DynRank, Layout, Rank, Shape, Slice, Tensor};

#[allow(dead_code)]
mod cfg {
    pub const SHARED: bool = true;
    pub const INTO: bool = true;
    pub const MUT: bool = true;
    pub const TENSOR: bool = true;
    pub const LOW: bool = false;
    pub const WRITE: bool = false;
}

#[path = "../viewops.rs"]
mod viewops;
use viewops::*;

type Apply = fn(&St, &Op, usize, bool) -> Real;

fn one(w: &mut Worker, st: &St, op: &Op, mode: usize, dynrank: bool, apply: Apply, new: &mut Vec<St>) {
    let kind = if dynrank { "dynrank" } else { "rank" };
    let mut found = vec![];
    w.case(
        || format!("{kind} {} {}.{:?}", st.name(), MODES[mode], op),
        |w| {
            found = judge(w, expected(st, &st.sem(), op, None), apply(st, op, mode, dynrank))?;
            Ok(())
        },
    );
    new.extend(found);
}

/// Explore from the initial states, and from every state that real operations lead to.
fn explore(ctx: &Ctx, initial: Vec<St>, max_depth: usize, ops: fn(&St) -> Vec<Op>, apply: Apply, modes: fn(&St) -> Vec<usize>) {
    let key = |s: &St| (s.dims.clone(), s.strides.clone(), s.dense);
    let mut seen: HashSet<_> = initial.iter().map(key).collect();
    let mut layer = initial;

    for depth in 0..max_depth {
        if layer.is_empty() {
            break;
        }
        let found = Mutex::new(Vec::new());
        ctx.par(&layer, |w, st| {
            w.state();
            if depth > 0 {
                w.count("states_found_by_real_operations");
            }
            let mut new = vec![];
            for op in ops(st) {
                for mode in modes(st) {
                    for dynrank in [false, true] {
                        one(w, st, &op, mode, dynrank, apply, &mut new);
                    }
                }
            }
            let mut local = HashSet::new();
            new.retain(|s| local.insert(key(s)));
            found.lock().unwrap().extend(new);
        });
        let mut next: Vec<St> = found.into_inner().unwrap();
        // Deterministic order, whatever worker found a state first.
        next.sort_by(|a, b| (&a.dims, &a.strides, a.dense, a.off, a.len).cmp(&(&b.dims, &b.strides, b.dense, b.off, b.len)));
        next.retain(|s| seen.insert(key(s)));
        layer = next;
    }
}

fn forms(w: &mut Worker, st: &St, perm: &[usize], want: Option<Sem>) -> Check {
    fn seen<S: Shape, L: Layout>(v: &Slice<u32, S, L>) -> Sem {
        let dims: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
        Sem::from_fn(&dims, |i| v[i])
    }
    let mut buf = st.buffer();
    macro_rules! form {
        ($s:ty; $what:literal, $x:expr) => {
            w.steps(2);
            let v = make::<u32, $s, Dense>(st, &buf);
            ensure_eq!(attempt(|| seen(&v.permute($x))), want, "permute({})", $what);
            ensure_eq!(attempt(|| seen(&v.clone().into_permuted($x))), want, "into_permuted({})", $what);
            let mut v = make_mut::<u32, $s, Dense>(st, &mut buf);
            ensure_eq!(attempt(|| seen(&v.permute_mut($x))), want, "permute_mut({})", $what);
        };
    }
    macro_rules! all {
        ($($s:ty),+) => { $(
            form!($s; "&[usize]", perm);
            form!($s; "Vec", perm.to_vec());
            form!($s; "Box", perm.to_vec().into_boxed_slice());
            form!($s; "DynRank", DynRank::from_dims(perm));
            match *perm {
                [a] => {
                    form!($s; "&[usize; 1]", &[a]);
                    form!($s; "[usize; 1]", [a]);
                    form!($s; "usize", a);
                    form!($s; "(usize,)", (a,));
                    if a == 0 {
                        form!($s; "Const", Const::<0>);
                        form!($s; "(Const,)", (Const::<0>,));
                    }
                }
                [a, b] => {
                    form!($s; "&[usize; 2]", &[a, b]);
                    form!($s; "[usize; 2]", [a, b]);
                    form!($s; "(usize, usize)", (a, b));
                }
                [a, b, c] => {
                    form!($s; "&[usize; 3]", &[a, b, c]);
                    form!($s; "[usize; 3]", [a, b, c]);
                    form!($s; "(usize, usize, usize)", (a, b, c));
                }
                [a, b, c, d] => {
                    form!($s; "&[usize; 4]", &[a, b, c, d]);
                    form!($s; "[usize; 4]", [a, b, c, d]);
                    form!($s; "(usize, usize, usize, usize)", (a, b, c, d));
                }
                _ => (),
            }
        )+ };
    }
    all!(DynRank);
    match perm.len() {
        1 => { all!(Rank<1>); }
        2 => { all!(Rank<2>); }
        3 => { all!(Rank<3>); }
        _ => { all!(Rank<4>); }
    }
    w.trace();
    Ok(())
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    let all = |_: &St| vec![0, 1, 2, 3];
    let two = |_: &St| vec![0, 1, 2, 3];
    let depth = if t { 8 } else { 3 };

    ctx.bound("states", if t { "rank 0-1: sizes 0..5; rank 2: 0..4; rank 3: 0..3; rank 4: 0..2; rank 5, 6: 1..2; dense and strided (steps +-1, +-2, permuted)" } else { "rank 0-1: sizes 0..4; rank 2: 0..3; rank 3: 0..2; rank 4: 0..2; rank 5, 6: 1..2; dense and strided (steps 1, -1, 2, permuted)" });
    ctx.bound("chains", format!("states reached by real operations are explored again, {depth} layers"));

    let mut low = dense_states(0, 1);
    low.push(St { dense: false, ..St::dense(&[]) });
    for (rank, n) in [(1, if t { 6 } else { 5 }), (2, if t { 5 } else { 4 })] {
        low.extend(dense_states(rank, n));
        low.extend(strided_states(rank, n, if t { &[1, -1, 2, -2] } else { &[1, -2] }, if t { &[0, 1] } else { &[0] }));
    }
    explore(ctx, low.clone(), depth, axis_ops, apply_axis, all);
    explore(ctx, low.clone(), depth, perm_ops, apply_perm, all);
    explore(ctx, low.clone(), depth, misc_ops, apply_misc, all);

    let mut three = dense_states(3, if t { 4 } else { 3 });
    three.extend(strided_states(3, 3, if t { &[1, -1, 2] } else { &[1, -2] }, &[0]));
    explore(ctx, three.clone(), 2, axis_ops, apply_axis, two);
    explore(ctx, three.clone(), 2, perm_ops, apply_perm, two);
    explore(ctx, three.clone(), 2, misc_ops, apply_misc, two);

    ctx.bound("long axes", "rank 2-4: size 5 (7 in rank 1) in every position, and sizes 2, 3, .. in both orders");
    ctx.bound("large", "17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    for rank in 1..=4 {
        let mut s = long_states(rank);
        s.extend(large_states(rank));
        explore(ctx, s.clone(), 1, axis_ops, apply_axis, two);
        explore(ctx, s.clone(), 1, perm_ops, apply_perm, two);
        explore(ctx, s, 1, misc_ops, apply_misc, two);
    }

    let mut four = dense_states(4, 3);
    four.extend(if t { strided_states(4, 3, &[-1], &[0]) } else { strided_from(4, &small_dims(4, 1), &[-1], &[0], &few_permutations(4)) });
    explore(ctx, four.clone(), 1, axis_ops, apply_axis, two);
    explore(ctx, four.clone(), 1, perm_ops, apply_perm, two);
    explore(ctx, four, 1, misc_ops, apply_misc, two);

    for rank in [5, 6] {
        let mut s = dense_states(rank, 3);
        s.retain(|s| s.dims.iter().all(|&d| d > 0) && (t || s.dims.iter().filter(|&&d| d == 1).count() <= 1));
        s.extend(strided_from(rank, &small_dims(rank, if t { 1 } else { 0 }), &[-1], &[0], &few_permutations(rank)));
        explore(ctx, s.clone(), 1, axis_ops, apply_axis, two);
        explore(ctx, s, 1, perm_ops, apply_perm, two);
    }

    // Permutations given in every form.
    ctx.bound("forms of permutations", "slices, boxes, vectors, arrays, references to arrays, tuples, dynamic shapes and numbers; all tuples of 0..rank for ranks 1-4, valid or not");
    let shapes: Vec<Vec<usize>> = vec![vec![3], vec![2, 3], vec![0, 2], vec![2, 3, 4], vec![2, 1, 3], vec![2, 3, 1, 4]];
    ctx.par(&shapes, |w, dims| {
        let st = St::dense(dims);
        let rank = dims.len();
        let sem = st.sem();
        w.state();
        for perm in indices(&vec![rank + 1; rank]) {
            w.case(|| format!("{dims:?} permuted by every form of {perm:?}"), |w| forms(w, &st, &perm, sem.permute(&perm)));
        }
    });

    // Permutations of large dynamic rank.
    ctx.bound("large rank", "dynamic rank 62..66 and 130, rotations and two-value tuples");
    let ranks = [62usize, 63, 64, 65, 66, 130];
    ctx.par(&ranks, |w, &rank| {
        let mut dims = vec![1usize; rank];
        dims[0] = 2;
        dims[rank - 1] = 3;
        let t = Tensor::<u32, DynRank>::from_fn(&dims[..], |i| (i[0] * 3 + i[rank - 1]) as u32);
        w.state();
        for shift in [0, 1, rank / 2, rank - 1] {
            let perm: Vec<usize> = (0..rank).map(|i| (i + shift) % rank).collect();
            w.case(
                || format!("rank {rank} permute rotated by {shift}"),
                |w| {
                    w.step();
                    let r = attempt(|| t.permute(&perm[..])).ok_or("valid permutation, but panics")?;
                    let want: Vec<usize> = perm.iter().map(|&p| dims[p]).collect();
                    ensure_eq!(r.dims(), &want[..], "dims");
                    for i in 0..2 {
                        for j in 0..3 {
                            let index: Vec<usize> = perm
                                .iter()
                                .map(|&p| if p == 0 { i } else if p == rank - 1 { j } else { 0 })
                                .collect();
                            ensure_eq!(r[&index[..]], (i * 3 + j) as u32, "element {i} {j}");
                        }
                    }
                    w.trace();
                    Ok(())
                },
            );
        }
        for bad in 0..rank {
            w.case(
                || format!("rank {rank} permute [0, ..] with dimension {bad} repeated"),
                |w| {
                    let mut perm: Vec<usize> = (0..rank).collect();
                    perm[(bad + 1) % rank] = bad;
                    let r = attempt(|| drop(t.permute(&perm[..])));
                    w.expect_panic("repeated dimension", r)
                },
            );
        }
        for ones in 0..4 {
            w.case(
                || format!("rank {rank} permute all zero but the last {ones}"),
                |w| {
                    let perm: Vec<usize> = (0..rank).map(|i| if i + ones >= rank { i + ones - rank + 1 } else { 0 }).collect();
                    let r = attempt(|| drop(t.permute(&perm[..])));
                    ensure!(r.is_none(), "invalid permutation is accepted");
                    w.step();
                    Ok(())
                },
            );
        }
    });
}

fn main() {
    run(check)
}
