//! C03: subarray views select exactly the requested elements.
use mc::engine::{Ctx, Worker, attempt, main as run};
use mc::model::{Sem, St, make, dense_states, few_permutations, large_states, small_dims, strided_from, strided_states};
use mc::ensure_eq;
use mdarray::{Array, Const, ConstShape, Dense, Strided};

#[allow(dead_code)]
mod cfg {
    pub const SHARED: bool = true;
    pub const INTO: bool = true;
    pub const MUT: bool = true;
    pub const TENSOR: bool = true;
    pub const LOW: bool = false;
    pub const WRITE: bool = false;
}

#[path = "../subview.rs"]
mod subview;
use subview::*;

fn one(w: &mut Worker, st: &St, ixs: &[Ix], modes: &[usize]) {
    let sem = st.sem();
    let want = expected(&sem, ixs);
    for &mode in modes {
        w.case(
            || format!("{} {}({:?})", st.name(), MODES[mode], ixs),
            |w| {
                w.step();
                let got = if st.dims.len() > 3 { apply6(st, ixs, mode) } else { apply(st, ixs, mode) };
                match (&want, got) {
                    (None, None) => {
                        w.count("expected_panics");
                        Ok(())
                    }
                    (None, Some(r)) => Err(format!("not refused, gives {r:?}")),
                    (Some(_), None) => Err("valid indices, but panics".into()),
                    (Some(want), Some(r)) => {
                        let r = r?;
                        w.outcome(&r);
                        ensure_eq!(r, *want, "view");
                        w.trace();
                        Ok(())
                    }
                }
            },
        );
    }
}

fn product(lists: &[Vec<Ix>], mut f: impl FnMut(&[Ix])) {
    fn rec(lists: &[Vec<Ix>], acc: &mut Vec<Ix>, f: &mut impl FnMut(&[Ix])) {
        match lists {
            [] => f(acc),
            [first, rest @ ..] => {
                for x in first {
                    acc.push(x.clone());
                    rec(rest, acc, f);
                    acc.pop();
                }
            }
        }
    }
    rec(lists, &mut vec![], &mut f)
}

// ---------------------------------------------------------------------- copies into arrays

fn contents<S: ConstShape>(a: Array<u32, S>) -> Sem {
    let dims: Vec<usize> = (0..a.rank()).map(|i| a.dim(i)).collect();
    Sem::from_fn(&dims, |i| a[i])
}

/// Subarray with constant sizes copied into an array: indices and full ranges.
macro_rules! pick {
    ($v:ident, $ixs:ident, $k:expr, [$($done:expr),*];) => { attempt(|| contents($v.array($($done),*))) };
    ($v:ident, $ixs:ident, $k:expr, [$($done:expr),*]; $x:tt $($rest:tt)*) => {
        match $ixs[$k] {
            Ix::At(i) => pick!($v, $ixs, $k + 1, [$($done,)* i]; $($rest)*),
            _ => pick!($v, $ixs, $k + 1, [$($done,)* ..]; $($rest)*),
        }
    };
}

macro_rules! arrays {
    ($ctx:expr; $(($rank:literal; $($n:literal)+))*) => { $({
        type C = ($(Const<$n>,)+);
        const DIMS: &[usize] = &[$($n),+];
        let mut states = vec![St::dense(DIMS)];
        states.extend(strided_from($rank, &[DIMS.to_vec()], if $rank < 4 { &[1, -1, 2] } else { &[-1] }, &[0, 1], &few_permutations($rank)));
        $ctx.par(&states, |w, st| {
            w.state();
            let sem = st.sem();
            let lists: Vec<Vec<Ix>> = DIMS.iter().map(|&d| (0..=d.min(6)).map(Ix::At).chain([Ix::Full]).collect()).collect();
            product(&lists, |ixs| {
                w.case(|| format!("{} with constant sizes, array({ixs:?})", st.name()), |w| {
                    w.step();
                    let buf = st.buffer();
                    let got = if st.dense {
                        let v = make::<u32, C, Dense>(st, &buf);
                        pick!(v, ixs, 0, []; $($n)+)
                    } else {
                        let v = make::<u32, C, Strided>(st, &buf);
                        pick!(v, ixs, 0, []; $($n)+)
                    };
                    match (expected(&sem, ixs), got) {
                        (None, None) => w.count("expected_panics"),
                        (None, Some(r)) => return Err(format!("not refused, gives {r:?}")),
                        (Some(_), None) => return Err("valid indices, but panics".into()),
                        (Some(want), Some(r)) => {
                            w.outcome(&r);
                            ensure_eq!(r, want, "array");
                            w.trace();
                        }
                    }
                    Ok(())
                });
            });
        });
    })* };
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    let all = [0, 1, 2, 3, 4];

    // Rank 1: all kinds of indices with all arguments.
    let n1 = if t { 7 } else { 6 };
    let mut states = dense_states(1, n1);
    states.extend(strided_states(1, n1, &[1, -1, 2, -2, 3, -3], &[0, 1]));
    ctx.bound("rank 1", format!("sizes 0..{}, steps +-1..3, every index kind with every argument 0..=d+1 and MAX", n1 - 1));
    ctx.par(&states, |w, st| {
        w.state();
        for ix in full_alphabet(st.dims[0]) {
            one(w, st, &[ix], &all);
        }
    });

    // Rank 2: pairs of nine kinds.
    let n2 = if t { 5 } else { 4 };
    let mut states = dense_states(2, n2);
    states.extend(strided_states(2, n2, if t { &[1, -1, 2, -2] } else { &[1, -2] }, if t { &[0, 1, 2, 3] } else { &[0, 1] }));
    ctx.bound("rank 2", format!("sizes 0..{}, all pairs of nine index kinds", n2 - 1));
    ctx.par(&states, |w, st| {
        w.state();
        let lists: Vec<_> = st.dims.iter().map(|&d| most_alphabet(d)).collect();
        let modes = &all;
        product(&lists, |ixs| one(w, st, ixs, modes));
    });

    // Rank 3: triples of four kinds.
    let n3 = if t { 4 } else { 3 };
    let mut states = dense_states(3, n3);
    if t {
        states.extend(strided_states(3, 3, &[1, -1, 2], &[0]));
    } else {
        states.extend(strided_states(3, 3, &[1, -1], &[0]));
    }
    ctx.bound("rank 3", format!("sizes 0..{}, all triples of four index kinds", n3 - 1));
    ctx.par(&states, |w, st| {
        w.state();
        let lists: Vec<_> = st.dims.iter().map(|&d| few_alphabet(d, st.dense)).collect();
        let modes: &[usize] = if t { &all } else if st.dense { &all } else { &[0, 2] };
        product(&lists, |ixs| one(w, st, ixs, modes));
    });

    // Copies into arrays.
    ctx.bound("array", "shapes of constant sizes with 1 to 6 dimensions, dense and strided; all combinations of full ranges and indices, valid or not");
    arrays! { ctx; (1; 0) (1; 3) (1; 40) (2; 2 3) (2; 3 0) (2; 4 1) (3; 2 1 3) (3; 3 4 2) (4; 2 3 1 2) (5; 2 1 3 1 2) (6; 1 2 2 1 3 1) }

    // Large sizes.
    ctx.bound("large", "sizes 17, 40, 70 and 130 in rank 1 with all index kinds and arguments and steps around 0, 8, half and all of the size; shapes such as [9, 12], [33, 2], [3, 17, 2] with pairs and triples");
    for rank in 1..=3 {
        let modes: &[usize] = if t || rank == 1 { &all } else { &all };
        ctx.par(&large_states(rank), |w, st| {
            w.state();
            let lists: Vec<_> = st.dims.iter().map(|&d| if rank == 1 { sparse_alphabet(d) } else if d > 4 { sparse_few_alphabet(d) } else { vec![Ix::Full, Ix::At(1), Ix::R(1, d), Ix::StepR(0, d, -1)] }).collect();
            product(&lists, |ixs| one(w, st, ixs, modes));
        });
    }

    // Ranks 4 to 6.
    for rank in 4..=6 {
        let mut states = dense_states(rank, 3);
        states.retain(|s| s.dims.iter().filter(|&&d| d == 0).count() <= 1);
        if !t {
            states.retain(|s| s.dims.iter().filter(|&&d| d != 2).count() <= 1);
        } else {
            states.retain(|s| s.dims.iter().filter(|&&d| d != 2).count() <= 2);
        }
        states.extend(strided_from(rank, &small_dims(rank, if t { 1 } else { 0 }), &[-1], &[0], &few_permutations(rank)));
        ctx.bound(&format!("rank {rank}"), "sizes 0..2, indices, full ranges, ranges and steps");
        ctx.par(&states, |w, st| {
            w.state();
            let lists: Vec<_> = st.dims.iter().enumerate().map(|(i, &d)| tiny_alphabet(d, i, rank)).collect();
            let modes: &[usize] = if st.dense || t { &all } else { &[1, 2] };
            product(&lists, |ixs| one(w, st, ixs, modes));
        });
    }
}

fn main() {
    run(check)
}
