//! C02: out-of-range and malformed arguments always panic, valid ones never do, in every profile.
#![allow(unused_parens)]
use std::ops::Bound;

use mc::engine::{Check, Ctx, Worker, attempt, main as run};
use mc::model::{Lay, St, dense_states, few_permutations, indices, make, make_mut, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each, each_dynamic};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Expression};
use mdarray::index::{Cols, Rows};
use mdarray::{Array, Const, Dense, Dim, Dyn, DynRank, Rank, Shape, Slice, Strided, Tensor};

#[allow(dead_code)]
mod cfg {
    pub const SHARED: bool = true;
    pub const INTO: bool = true;
    pub const MUT: bool = true;
    pub const TENSOR: bool = true;
    pub const LOW: bool = true;
    pub const WRITE: bool = false;
}

#[path = "../subview.rs"]
mod subview;
#[path = "../viewops.rs"]
mod viewops;

/// Values to try for a position in a dimension of size `d`.
fn positions(d: usize) -> Vec<usize> {
    let mut v = vec![0, d.saturating_sub(1), d, d + 1, usize::MAX, 1 << 63, 1 << 62, usize::MAX / 4 + 1];
    v.sort();
    v.dedup();
    v
}

/// Compare with the expected result: `None` is a panic.
fn verdict(w: &mut Worker, what: impl Fn() -> String, got: Option<usize>, want: Option<usize>) -> Check {
    verdict_dyn(w, &what, got, want)
}

fn verdict_dyn(w: &mut Worker, what: &dyn Fn() -> String, got: Option<usize>, want: Option<usize>) -> Check {
    w.step();
    match (got, want) {
        (None, None) => {
            w.count("expected_panics");
            Ok(())
        }
        (Some(a), None) => Err(format!("{} is not valid, but gives {a}", what())),
        (None, Some(_)) => Err(format!("{} is valid, but panics", what())),
        (Some(a), Some(b)) => {
            ensure_eq!(a, b, "{}", what());
            w.trace();
            Ok(())
        }
    }
}

macro_rules! with_array {
    ($s:ty, $i:expr, $a:ident => $body:expr, ($($n:tt)+)) => {
        match $i.len() {
            $(
                $n => {
                    // Only lengths next to the rank are built.
                    if const { match <$s>::RANK { None => true, Some(r) => r <= $n + 1 && $n <= r + 1 } } {
                        let $a: [usize; $n] = $i[..].try_into().unwrap();
                        Some($body)
                    } else {
                        None
                    }
                }
            )+
            _ => None,
        }
    };
}

/// An array that can be indexed in several ways.
struct Target<'a> {
    what: &'static str,
    slice: &'a dyn Fn(&[usize]) -> u32,
    array: &'a dyn Fn(&[usize]) -> Option<u32>,
    linear: &'a dyn Fn(usize) -> u32,
}

/// Element access with every index of the alphabet.
fn elements_dyn(w: &mut Worker, st: &St, v: Target) -> Check {
    let sem = st.sem();
    let rank = st.dims.len();
    let name = v.what;

    let mut tuples = vec![];
    let lists: Vec<Vec<usize>> = st.dims.iter().map(|&d| positions(d)).collect();
    let counts: Vec<usize> = lists.iter().map(|l| l.len()).collect();
    if rank <= 3 {
        for t in indices(&counts) {
            tuples.push(t.iter().enumerate().map(|(i, &k)| lists[i][k]).collect::<Vec<_>>());
        }
    } else {
        for axis in 0..rank {
            for &x in &lists[axis] {
                let mut t = vec![0; rank];
                t[axis] = x;
                tuples.push(t);
            }
        }
    }
    // Wrong number of indices.
    tuples.push(vec![0; rank + 1]);
    if rank > 0 {
        tuples.push(vec![0; rank - 1]);
    }
    if rank > 1 {
        tuples.push(vec![]);
    }

    for t in &tuples {
        let valid = t.len() == rank && t.iter().zip(&st.dims).all(|(i, d)| i < d);
        let want = valid.then(|| sem.at(t) as usize);
        verdict(w, || format!("{name}[&{t:?}[..]]"), attempt(|| (v.slice)(t) as usize), want)?;
        match attempt(|| (v.array)(t)) {
            Some(None) => (),
            got => verdict(w, || format!("{name}[{t:?}]"), got.map(|x| x.unwrap() as usize), want)?,
        }
    }
    for n in (0..=sem.len() + 1).chain([usize::MAX, 1 << 63]) {
        let want = sem.ids.get(n).map(|&x| x as usize);
        verdict(w, || format!("{name}[{n}]"), attempt(|| (v.linear)(n) as usize), want)?;
    }
    Ok(())
}

fn elements<S: Shape, L: Lay>(w: &mut Worker, st: &St, v: &mut Slice<u32, S, L>) -> Check {
    let rank = st.dims.len();
    let before: Vec<u32> = v.to_vec();

    {
        let v = &*v;
        elements_dyn(w, st, Target {
            what: "v",
            slice: &|t| v[t],
            array: &|t| with_array!(S, t, a => v[a], (0 1 2 3 4 5 6)),
            linear: &|n| v[n],
        })?;
    }
    {
        let v = std::cell::RefCell::new(&mut *v);
        elements_dyn(w, st, Target {
            what: "&mut v",
            slice: &|t| *(&mut v.borrow_mut()[t]),
            array: &|t| with_array!(S, t, a => *(&mut v.borrow_mut()[a]), (0 1 2 3 4 5 6)),
            linear: &|n| *(&mut v.borrow_mut()[n]),
        })?;
    }
    for k in (0..=rank + 1).chain([usize::MAX]) {
        verdict(w, || format!("dim({k})"), attempt(|| v.dim(k)), st.dims.get(k).copied())?;
        verdict(w, || format!("shape().dim({k})"), attempt(|| v.shape().dim(k)), st.dims.get(k).copied())?;
        ensure!(attempt(|| v.stride(k)).is_some() == (k < rank), "stride({k}) of rank {rank}");
        w.step();
    }
    ensure!(v.to_vec() == before, "elements have changed");
    Ok(())
}

/// Ranges of a dense array.
fn ranges<S: Shape>(w: &mut Worker, v: &mut Slice<u32, S>) -> Check {
    let ids: Vec<u32> = v.to_vec();
    let n = ids.len();
    // All elements of a range, as one number.
    let sum = |x: &[u32]| x.iter().fold(1, |a, &b| a * 31 + b as usize);
    macro_rules! same {
        ($r:expr) => {
            let r = $r;
            let want = attempt(|| ids[r.clone()].iter().fold(1, |a, &b| a * 31 + b as usize));
            verdict(w, || format!("v[{r:?}]"), attempt(|| sum(&v[r.clone()])), want)?;
            verdict(w, || format!("&mut v[{r:?}]"), attempt(|| sum(&mut v[r.clone()])), want)?;
        };
    }
    let points: Vec<usize> = (0..=n + 1).chain([usize::MAX]).collect();
    for &a in &points {
        same!(a..);
        same!(..a);
        same!(..=a);
        for &b in &points {
            same!(a..b);
            same!(a..=b);
            same!((Bound::Excluded(a), Bound::Included(b)));
            same!((Bound::Excluded(a), Bound::Excluded(b)));
            same!((Bound::Included(a), Bound::Included(b)));
        }
    }
    Ok(())
}

/// Axis and lane expressions.
fn axes<S: Shape, L: Lay>(w: &mut Worker, st: &St, v: &mut Slice<u32, S, L>) -> Check {
    let rank = st.dims.len();
    macro_rules! axis {
        ($name:expr, $axis:expr, $valid:expr, $k:expr) => {
            let (k, n) = ($k, if $valid { st.dims[$k] } else { 0 });
            let others = if $valid { (0..rank).filter(|&i| i != k).map(|i| st.dims[i]).product() } else { 0 };
            verdict(w, || format!("axis_expr({})", $name), attempt(|| v.axis_expr($axis).len()), $valid.then_some(n))?;
            verdict(w, || format!("axis_expr_mut({})", $name), attempt(|| v.axis_expr_mut($axis).len()), $valid.then_some(n))?;
            verdict(w, || format!("lanes({})", $name), attempt(|| v.lanes($axis).len()), $valid.then_some(others))?;
            verdict(w, || format!("lanes_mut({})", $name), attempt(|| v.lanes_mut($axis).len()), $valid.then_some(others))?;
        };
    }
    axis!("Const<0>", Const::<0>, (rank > 0), 0);
    axis!("Const<1>", Const::<1>, (rank > 1), 1);
    if const { matches!(S::RANK, None | Some(0 | 2 | 3)) } {
        axis!("Const<2>", Const::<2>, (rank > 2), 2);
    }
    for k in (0..=rank + 1).chain([usize::MAX]) {
        axis!(format!("{k}"), k, (k < rank), k);
    }
    axis!("Rows", Rows, (rank > 0), rank.wrapping_sub(1));
    axis!("Cols", Cols, (rank > 1), rank.wrapping_sub(2));

    let first = (rank > 0).then(|| st.dims[0]);
    verdict(w, || "outer_expr()".into(), attempt(|| v.outer_expr().len()), first)?;
    verdict(w, || "outer_expr_mut()".into(), attempt(|| v.outer_expr_mut().len()), first)?;
    let rows = (rank > 0).then(|| st.dims[..rank - 1].iter().product());
    verdict(w, || "rows()".into(), attempt(|| v.rows().len()), rows)?;
    verdict(w, || "rows_mut()".into(), attempt(|| v.rows_mut().len()), rows)?;
    let cols = (rank > 1).then(|| st.dims[..rank - 2].iter().product::<usize>() * st.dims[rank - 1]);
    verdict(w, || "cols()".into(), attempt(|| v.cols().len()), cols)?;
    verdict(w, || "cols_mut()".into(), attempt(|| v.cols_mut().len()), cols)?;
    Ok(())
}

struct Go<'a, 'b, 'c> {
    w: &'a mut Worker<'b>,
    st: &'c St,
}

impl Visitor for Go<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.st;
        let mut buf = st.buffer();
        let copy = buf.clone();
        self.w.case(
            || format!("{name} {} element access", st.name()),
            |w| {
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                elements(w, st, &mut v)?;
                if st.dense {
                    let mut t = make::<u32, S, L>(st, &buf).to_tensor();
                    // The operators of the tensor and view types.
                    let v = make::<u32, S, L>(st, &buf);
                    for n in (0..=buf.len() + 1).chain([usize::MAX]) {
                        let want = buf.get(n).map(|&x| x as usize);
                        verdict(w, || format!("tensor[{n}]"), attempt(|| t[n] as usize), want)?;
                        verdict(w, || format!("&mut tensor[{n}]"), attempt(|| *(&mut t[n]) as usize), want)?;
                        verdict(w, || format!("view[{n}]"), attempt(|| v[n] as usize), want)?;
                    }
                }
                ensure!(buf == copy, "elements have changed");
                Ok(())
            },
        );
        self.w.case(
            || format!("{name} {} axis and lane expressions", st.name()),
            |w| {
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                axes(w, st, &mut v)?;
                ensure!(buf == copy, "elements have changed");
                Ok(())
            },
        );
    }
}

struct GoRanges<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for GoRanges<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        self.0.case(
            || format!("{name} {} ranges", st.name()),
            |w| {
                let mut buf = st.buffer();
                ranges(w, &mut make_mut::<u32, S, Dense>(st, &mut buf))
            },
        );
    }
}

fn view_op(w: &mut Worker, st: &St, op: &viewops::Op, mode: usize, dynrank: bool, apply: fn(&St, &viewops::Op, usize, bool) -> viewops::Real) {
    use viewops::Want;
    let kind = if dynrank { "dynrank" } else { "rank" };
    w.case(
        || format!("{kind} {} {}.{:?}", st.name(), viewops::MODES[mode], op),
        |w| {
            w.step();
            match (viewops::expected(st, &st.sem(), op, None), apply(st, op, mode, dynrank)) {
                (Want::Panic, None) => {
                    w.count("expected_panics");
                    Ok(())
                }
                (Want::Panic, Some(r)) => Err(format!("not refused, gives {r:?}")),
                (Want::Give(_), None) => Err("valid arguments, but panics".into()),
                _ => Ok(()),
            }
        },
    );
}

fn sub_view(w: &mut Worker, st: &St, ixs: &[subview::Ix], mode: usize) {
    w.case(
        || format!("{} {}({:?})", st.name(), subview::MODES[mode], ixs),
        |w| {
            w.step();
            let got = subview::apply(st, ixs, mode);
            match (subview::expected(&st.sem(), ixs), got) {
                (None, None) => {
                    w.count("expected_panics");
                    Ok(())
                }
                (None, Some(r)) => Err(format!("not refused, gives {r:?}")),
                (Some(_), None) => Err("valid indices, but panics".into()),
                _ => Ok(()),
            }
        },
    );
}

/// Arguments of tensor operations.
fn tensor_args<S: Shape + 'static>(w: &mut Worker, dims: &[usize], name: &str) {
    let rank = dims.len();
    let count: usize = dims.iter().product();
    let make = || {
        let v: Vec<u32> = (0..count as u32).collect();
        Tensor::<u32, Rank<1>>::from(v).into_shape(dims).into_mapping::<S>()
    };
    let same = |t: &Tensor<u32, S>| -> Check {
        let got: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
        ensure_eq!(got, dims, "dimensions after a refused operation");
        ensure!(t.iter().copied().eq(0..count as u32), "elements after a refused operation: {t:?}");
        Ok(())
    };
    let head_dyn = rank > 0 && S::Head::SIZE.is_none();
    let inner: usize = dims.iter().skip(1).product();

    // drain and truncate.
    let d0 = dims.first().copied().unwrap_or(0);
    let points: Vec<usize> = (0..=d0 + 1).chain([usize::MAX, 1 << 62]).collect();
    for &a in &points {
        w.case(
            || format!("{name} {dims:?} truncate({a})"),
            |w| {
                let mut t = make();
                let want = head_dyn.then(|| a.min(d0) * inner);
                let got = attempt(|| t.truncate(a)).map(|_| t.len());
                if want.is_none() {
                    same(&t)?;
                }
                verdict(w, || format!("truncate({a})"), got, want)
            },
        );
        for &b in &points {
            w.case(
                || format!("{name} {dims:?} drain({a}..{b}) and drain({a}..={b})"),
                |w| {
                    let mut t = make();
                    let want = (head_dyn && a <= b && b <= d0).then(|| (b - a) * inner);
                    let got = attempt(|| t.drain(a..b).len());
                    if want.is_none() {
                        same(&t)?;
                    }
                    verdict(w, || format!("drain({a}..{b})"), got, want)?;
                    let mut t = make();
                    let want = (head_dyn && b < usize::MAX && a <= b + 1 && b + 1 <= d0).then(|| (b + 1 - a) * inner);
                    let got = attempt(|| t.drain(a..=b).len());
                    if want.is_none() {
                        same(&t)?;
                    }
                    verdict(w, || format!("drain({a}..={b})"), got, want)
                },
            );
        }
    }

    // resize to dimensions that are not possible.
    let mut bad: Vec<Vec<usize>> = vec![vec![2; rank + 1]];
    if rank > 0 {
        bad.push(vec![2; rank - 1]);
    }
    if rank > 1 {
        let mut x = dims.to_vec();
        x.fill(1);
        x[0] = 1 << 40;
        x[rank - 1] = 1 << 40;
        bad.push(x);
        bad.push(vec![1 << 32; rank]);
    }
    for new in bad {
        w.case(
            || format!("{name} {dims:?} resize({new:?})"),
            |w| {
                let mut t = make();
                let got = attempt(|| t.resize(&new, 7));
                same(&t)?;
                w.expect_panic("resize to an impossible shape", got)?;
                let got = attempt(|| t.resize_with(&new, || 7));
                same(&t)?;
                w.expect_panic("resize_with to an impossible shape", got)
            },
        );
    }

    // expand and append with arrays of other shapes.
    for other in [vec![], vec![2], vec![1, 2], vec![1, 3], vec![2, 1, 2], vec![1, 2, 2], vec![1, 1, 1, 1]] {
        w.case(
            || format!("{name} {dims:?} expand by {other:?}"),
            |w| {
                let mut t = make();
                let n: usize = other.iter().product();
                let o = Tensor::<u32, Rank<1>>::from((0..n as u32).collect::<Vec<_>>()).into_shape(&other[..]);
                let fits = rank > 0 && other.len() == rank && other[1..] == dims[1..];
                if count == 0 {
                    // An empty array takes over the shape (C10).
                    return Ok(());
                }
                let got = attempt(|| t.expand(&o)).map(|_| t.len());
                if got.is_none() {
                    same(&t)?;
                }
                verdict(w, || format!("expand by {other:?}"), got, (head_dyn && fits).then(|| count + n))
            },
        );
    }

    w.case(
        || format!("{name} {dims:?} other operations"),
        |w| {
            verdict(w, || "into_scalar()".into(), attempt(|| make().into_scalar() as usize), (count == 1).then_some(0))?;
            let default_empty = S::default().is_empty();
            verdict(w, || "new()".into(), attempt(|| Tensor::<u32, S>::new().len()), default_empty.then_some(0))?;
            verdict(w, || "with_capacity(3)".into(), attempt(|| Tensor::<u32, S>::with_capacity(3).len()), default_empty.then_some(0))?;
            let mut t = make();
            let got = attempt(|| t.clear()).map(|_| t.len());
            if got.is_none() {
                same(&t)?;
            }
            verdict(w, || "clear()".into(), got, default_empty.then_some(0))?;
            // Assignment from another shape.
            let mut t = make();
            if rank > 0 && d0 > 0 {
                let mut x = dims.to_vec();
                x[rank - 1] += 1;
                let n: usize = x.iter().product();
                let o = Tensor::<u32, Rank<1>>::from((0..n as u32).collect::<Vec<_>>()).into_shape(&x[..]);
                let got = attempt(|| t.assign(&o));
                same(&t)?;
                w.expect_panic("assign from other dimensions", got)?;
                let higher = expr::from_elem(&[&[1], dims].concat()[..], 1u32);
                let got = attempt(|| t.assign(higher));
                same(&t)?;
                w.expect_panic("assign from a higher rank", got)?;
            }
            Ok(())
        },
    );
}

/// Shapes whose number of elements does not fit in a `usize`.
fn huge(w: &mut Worker) {
    for dims in [vec![1usize << 32, 1 << 32], vec![1 << 63, 2], vec![3, usize::MAX / 2, 2], vec![usize::MAX, usize::MAX]] {
        w.case(
            || format!("elements of shape {dims:?}"),
            |w| {
                w.expect_panic("from_elem", attempt(|| Tensor::<(), DynRank>::from_elem(&dims[..], ())))?;
                w.expect_panic("from_fn", attempt(|| Tensor::<(), DynRank>::from_fn(&dims[..], |_| ())))?;
                w.expect_panic("expr::from_elem", attempt(|| expr::from_elem(&dims[..], 1)))?;
                w.expect_panic("expr::from_fn", attempt(|| expr::from_fn(&dims[..], |_| 1)))?;
                if let [a, b] = dims[..] {
                    w.expect_panic("expr::from_elem", attempt(|| expr::from_elem([a, b], 1)))?;
                    w.expect_panic("expr::from_fn", attempt(|| expr::from_fn([a, b], |_| 1)))?;
                }
                let mut t = Tensor::<(), DynRank>::from_elem(&vec![1; dims.len()][..], ());
                w.expect_panic("resize", attempt(|| t.resize(&dims, ())))?;
                ensure_eq!(t.len(), 1, "length after refused resize");
                w.expect_panic("reshape", attempt(|| drop(t.reshape(&dims[..]))))?;
                Ok(())
            },
        );
    }
    w.case(
        || "reshape of huge empty and zero-sized arrays".into(),
        |w| {
            // Products that wrap to the right count must be refused.
            let t = Tensor::<(), Rank<1>>::from_elem([16], ());
            let wraps = [1usize << 62, 64 + 4 * 4]; // (2^62 * 80) mod 2^64 = 0
            ensure!(wraps[0].wrapping_mul(wraps[1]) == 0, "constants");
            let e = Tensor::<(), Rank<1>>::from_elem([0], ());
            w.expect_panic("reshape of an empty array", attempt(|| drop(e.reshape(wraps))))?;
            w.expect_panic("into_shape of an empty array", attempt(|| drop(e.clone().into_shape(wraps))))?;
            let odd = [(1usize << 60) + 1, 16]; // wraps to 16
            ensure!(odd[0].wrapping_mul(odd[1]) == 16, "constants");
            w.expect_panic("reshape", attempt(|| drop(t.reshape(odd))))?;
            w.expect_panic("reshape of a strided view", attempt(|| drop(t.remap::<Rank<1>, Strided>().reshape(odd))))?;
            w.expect_panic("into_shape", attempt(|| drop(t.clone().into_shape(odd))))?;
            Ok(())
        },
    );
    w.case(
        || "scalars of fixed-size arrays".into(),
        |w| {
            ensure_eq!(Array::<u32, (Const<1>, Const<1>)>::from_elem(5).into_scalar(), 5, "into_scalar");
            w.expect_panic("into_scalar", attempt(|| Array::<u32, (Const<2>,)>::from_elem(5).into_scalar()))?;
            w.expect_panic("into_shape", attempt(|| drop(Array::<u32, (Const<4>,)>::from_elem(5).into_shape::<(Const<2>, Const<3>)>())))?;
            Ok(())
        },
    );
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("elements", "rank 0-3 all index tuples over {0, d-1, d, d+1, 2^62, 2^63, MAX}, rank 4-6 one coordinate at a time; sizes 0..3");
    ctx.bound("views", "all axis, permutation, row, column, diagonal, split, remap and subarray arguments of C03 and C04");

    let mut states = dense_states(0, 1);
    states.push(St { dense: false, ..St::dense(&[]) });
    for rank in 1..=3 {
        let n = if t { 5 } else { 4 } - (rank == 3) as usize;
        states.extend(dense_states(rank, n));
        states.extend(strided_states(rank, n, if rank < 3 || t { &[1, -1, 2] } else { &[-1] }, &[0, 1]));
    }
    for rank in 4..=6 {
        states.extend(small_dims(rank, if t { rank } else { 1 }).iter().map(|d| St::dense(d)));
        states.extend(strided_from(rank, &small_dims(rank, 1), &[-1], &[0], &few_permutations(rank)));
    }
    states.extend([vec![0, 2, 2, 2], vec![2, 2, 0, 2], vec![2, 2, 2, 0]].iter().map(|d| St::dense(d)));
    ctx.par(&states, |w, st| {
        w.state();
        let mut g = Go { w, st };
        if st.dense {
            each::<Dense>(&st.dims, &mut g);
            each_dynamic::<Dense>(&st.dims, &mut GoRanges(w, st));
        } else {
            each_dynamic::<Strided>(&st.dims, &mut g)
        }
    });

    // Operations that give views.
    ctx.par(&states, |w, st| {
        for mode in [0, 1, 2, 3] {
            for dynrank in [false, true] {
                if !dynrank && st.dims.len() > 3 {
                    continue;
                }
                for op in viewops::axis_ops(st) {
                    view_op(w, st, &op, mode, dynrank, viewops::apply_axis);
                }
                for op in viewops::perm_ops(st) {
                    view_op(w, st, &op, mode, dynrank, viewops::apply_perm);
                }
                if st.dims.len() <= 4 {
                    for op in viewops::misc_ops(st) {
                        view_op(w, st, &op, mode, dynrank, viewops::apply_misc);
                    }
                }
            }
        }
    });

    // Subarrays.
    ctx.par(&states, |w, st| {
        use subview::*;
        let rank = st.dims.len();
        let lists: Vec<Vec<Ix>> = match rank {
            1 => st.dims.iter().map(|&d| full_alphabet(d)).collect(),
            2 => st.dims.iter().map(|&d| few_alphabet(d, true)).collect(),
            3 => {
                let mut lists: Vec<Vec<Ix>> = st.dims.iter().map(|&d| few_alphabet(d, true)).collect();
                lists.iter_mut().for_each(|l| l.retain(|i| matches!(i, Ix::At(_) | Ix::R(..))));
                lists
            }
            _ => return,
        };
        let modes = [0, 1, 2, 3, 4];
        // One axis takes every index, the others a valid one or each invalid one in turn.
        for axis in 0..rank {
            for ix in &lists[axis] {
                for fill in 0..2 {
                    let mut ixs: Vec<Ix> = st
                        .dims
                        .iter()
                        .map(|&d| if fill == 0 { Ix::R(0, d) } else if d > 0 { Ix::At(d - 1) } else { Ix::R(0, 0) })
                        .collect();
                    ixs[axis] = ix.clone();
                    for mode in modes {
                        sub_view(w, st, &ixs, mode);
                    }
                }
            }
        }
    });

    // Permutations of large rank: see also C04.
    ctx.par(&[63usize, 64, 65, 128], |w, &rank| {
        let t = Tensor::<u32, DynRank>::from_elem(&vec![1; rank][..], 1);
        w.state();
        for bad in 0..rank {
            w.case(
                || format!("rank {rank} permutation with {bad} repeated"),
                |w| {
                    let mut perm: Vec<usize> = (0..rank).collect();
                    perm[(bad + 1) % rank] = bad;
                    w.expect_panic("repeated dimension", attempt(|| drop(t.permute(&perm[..]))))?;
                    let perm: Vec<usize> = (0..rank).map(|i| if i == bad { rank } else { i }).collect();
                    w.expect_panic("dimension out of bounds", attempt(|| drop(t.permute(&perm[..]))))
                },
            );
        }
        w.case(
            || format!("rank {rank} all zero permutations"),
            |w| {
                w.expect_panic("zeros", attempt(|| drop(t.permute(&vec![0; rank][..]))))?;
                let perm: Vec<usize> = (0..rank).rev().collect();
                verdict(w, || "reversal".into(), attempt(|| t.permute(&perm[..]).rank()), Some(rank))
            },
        );
    });

    // Tensors.
    ctx.bound("tensors", "shape types with dynamic, constant and mixed dimensions, rank 0-3 and dynamic rank, sizes 0..3");
    ctx.one(|w| {
        w.state();
        macro_rules! all {
            ($($s:ty: $($dims:expr),+;)+) => {$($(tensor_args::<$s>(w, &$dims, stringify!($s));)+)+};
        }
        all! {
            Rank<0>: [];
            Rank<1>: [0], [1], [2], [3];
            Rank<2>: [0, 0], [0, 2], [1, 1], [1, 2], [2, 1], [2, 3], [3, 2], [2, 0];
            Rank<3>: [1, 1, 1], [1, 2, 2], [2, 1, 2], [2, 2, 1], [0, 2, 2], [2, 0, 2];
            DynRank: [], [0], [2], [1, 1], [1, 2], [2, 3], [1, 2, 2], [2, 0];
            (Const<2>,): [2];
            (Dyn, Const<2>): [0, 2], [1, 2], [2, 2];
            (Dyn, Const<1>): [1, 1];
            (Const<2>, Dyn): [2, 0], [2, 1], [2, 2];
            (Const<0>, Dyn): [0, 2];
            (Const<1>, Const<1>): [1, 1];
            (Dyn, Const<2>, Dyn): [1, 2, 2], [2, 2, 1];
        }
    });
    ctx.one(huge);
}

fn main() {
    run(check)
}
