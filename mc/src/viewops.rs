//! Axis, permutation, row, column, diagonal, split, reshape and remap operations on every view
//! state, in all shape and layout types (included by several checks).
#![allow(dead_code)]

use mc::engine::attempt;
use mc::model::{Lay, Obs, Observe, Sem, St, TOUCH, make, make_mut, product};
use mdarray::index::{Cols, Rows};
use mdarray::{Const, Dense, DynRank, Rank, Shape, Strided};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    At(usize),
    AxisC(usize, usize),
    AxisD(usize, usize),
    AxisRows(usize),
    AxisCols(usize),
    SplitAt(usize),
    SplitC(usize, usize),
    SplitD(usize, usize),
    SplitRows(usize),
    SplitCols(usize),
    PermArr(Vec<usize>),
    PermDyn(Vec<usize>),
    /// Permutation by constants; the argument is an index into a table.
    PermC(&'static [usize]),
    /// Permutation by a mixture of constants and dynamic values.
    PermMix(&'static [usize]),
    Reorder,
    Row(usize),
    Col(usize),
    Diag(isize),
    IntoDyn,
    RemapStrided,
    RemapDynStrided,
    RemapDense,
    RemapRank2,
    Flat,
    Reshape(Vec<usize>),
    ReshapeDyn(Vec<usize>),
}

// The including file defines `cfg`: the modes that are built, whether only small ranks are built,
// and whether mutable results are written to.

pub const MODES: [&str; 4] = ["shared", "into", "mut", "into-mut"];

/// What the operation must do.
pub enum Want {
    /// Panic.
    Panic,
    /// Give these arrays.
    Give(Vec<Sem>),
    /// Either give these arrays or panic.
    Either(Vec<Sem>),
    /// Either give an array without elements or panic.
    Empty,
}

fn give(x: Option<Sem>) -> Want {
    match x {
        Some(s) => Want::Give(vec![s]),
        None => Want::Panic,
    }
}

fn give2(x: Option<(Sem, Sem)>) -> Want {
    match x {
        Some((a, b)) => Want::Give(vec![a, b]),
        None => Want::Panic,
    }
}

/// Can the elements be addressed with one stride per new dimension?
pub fn representable(ids: &[u32], dims: &[usize]) -> bool {
    if ids.is_empty() {
        return true;
    }
    let inner: Vec<usize> = (0..dims.len()).map(|i| product(&dims[i + 1..])).collect();
    // Strides that are determined by the first neighbours.
    let strides: Vec<i64> = (0..dims.len())
        .map(|i| if dims[i] > 1 { ids[inner[i]] as i64 - ids[0] as i64 } else { 0 })
        .collect();
    (0..ids.len()).all(|n| {
        let mut o = ids[0] as i64;
        let mut r = n;
        for i in 0..dims.len() {
            o += strides[i] * (r / inner[i]) as i64;
            r %= inner[i];
        }
        o == ids[n] as i64
    })
}

/// Expected result of a reshape.
pub fn reshape(st: &St, sem: &Sem, new: &[usize]) -> Want {
    let inferred: Vec<usize> = (0..new.len()).filter(|&i| new[i] == usize::MAX).collect();
    let mut dims = new.to_vec();
    if inferred.len() > 1 {
        return Want::Panic;
    }
    if let [i] = inferred[..] {
        dims[i] = 1;
        let Some(other) = dims.iter().try_fold(1usize, |a, &b| a.checked_mul(b)) else {
            return Want::Panic;
        };
        if other == 0 {
            // There is no answer, or no unique one.
            return if sem.is_empty() { Want::Empty } else { Want::Panic };
        }
        if sem.len() % other != 0 {
            return Want::Panic;
        }
        dims[i] = sem.len() / other;
    }
    let count = dims.iter().try_fold(1usize, |a, &b| a.checked_mul(b));
    if count != Some(sem.len()) {
        return Want::Panic;
    }
    let want = vec![Sem::new(&dims, sem.ids.clone())];
    if st.dense || st.contiguous() || sem.is_empty() {
        Want::Give(want)
    } else if !representable(&sem.ids, &dims) {
        Want::Panic
    } else if st.dims.iter().all(|&d| d > 1) || dims == st.dims {
        // No ambiguity from dimensions of size one: strides exist and must be found.
        Want::Give(want)
    } else {
        Want::Either(want)
    }
}

pub fn expected(st: &St, sem: &Sem, op: &Op, shape: Option<usize>) -> Want {
    let rank = sem.rank();
    match op {
        Op::At(i) => give(sem.axis_at(0, *i)),
        Op::AxisC(k, i) | Op::AxisD(k, i) => give(sem.axis_at(*k, *i)),
        Op::AxisRows(i) => give(rank.checked_sub(1).and_then(|k| sem.axis_at(k, *i))),
        Op::AxisCols(i) => give(rank.checked_sub(2).and_then(|k| sem.axis_at(k, *i))),
        Op::SplitAt(m) => give2(sem.split(0, *m)),
        Op::SplitC(k, m) | Op::SplitD(k, m) => give2(sem.split(*k, *m)),
        Op::SplitRows(m) => give2(rank.checked_sub(1).and_then(|k| sem.split(k, *m))),
        Op::SplitCols(m) => give2(rank.checked_sub(2).and_then(|k| sem.split(k, *m))),
        Op::PermArr(p) | Op::PermDyn(p) => give(sem.permute(p)),
        Op::PermC(p) | Op::PermMix(p) => give(sem.permute(p)),
        Op::Reorder => give(Some(sem.reverse())),
        Op::Row(i) => give(if rank == 2 { sem.axis_at(0, *i) } else { None }),
        Op::Col(i) => give(if rank == 2 { sem.axis_at(1, *i) } else { None }),
        Op::Diag(k) => give(sem.diag(*k)),
        Op::IntoDyn | Op::RemapStrided | Op::RemapDynStrided => give(Some(sem.clone())),
        Op::RemapDense => {
            let next = sem.ids.windows(2).all(|w| w[1] == w[0] + 1);
            if st.dense || st.contiguous() {
                give(Some(sem.clone()))
            } else if next {
                Want::Either(vec![sem.clone()])
            } else {
                Want::Panic
            }
        }
        Op::RemapRank2 => give(if rank == 2 { Some(sem.clone()) } else { None }),
        Op::Flat => {
            let _ = shape;
            reshape(st, sem, &[sem.len()])
        }
        Op::Reshape(new) | Op::ReshapeDyn(new) => reshape(st, sem, new),
    }
}

/// Compare the result of an operation with what it must do. Gives the resulting states.
pub fn judge(w: &mut mc::engine::Worker, want: Want, got: Real) -> Result<Vec<St>, String> {
    w.step();
    match (want, got) {
        (Want::Panic, None) => {
            w.count("expected_panics");
            Ok(vec![])
        }
        (Want::Panic, Some(r)) => Err(format!("not refused, gives {r:?}")),
        (Want::Give(_), None) => Err("valid arguments, but panics".into()),
        (Want::Either(_) | Want::Empty, None) => Ok(vec![]),
        (Want::Empty, Some(r)) => {
            if r?.iter().any(|r| r.sem.len() != 0) {
                return Err("elements from nowhere".into());
            }
            Ok(vec![])
        }
        (Want::Give(want) | Want::Either(want), Some(r)) => {
            let r = r?;
            if r.len() != want.len() {
                return Err(format!("{} views", r.len()));
            }
            let mut found = vec![];
            for (r, s) in r.iter().zip(&want) {
                w.outcome(&r.sem);
                if r.sem != *s {
                    return Err(format!("view: got {:?}, expected {:?}", r.sem, s));
                }
                found.push(r.st.clone());
            }
            w.trace();
            Ok(found)
        }
    }
}

pub type Real = Option<Result<Vec<Obs>, String>>;

struct Go<'a, S, L> {
    st: &'a St,
    mode: usize,
    phantom: std::marker::PhantomData<(S, L)>,
}

/// Observe a result, and write to all its elements if it is mutable and the check asks for it.
fn touch<T: Observe>(mut r: T, base: *const u32, len: usize) -> Result<Vec<Obs>, String> {
    let obs = r.observe(base, len)?;
    if super::cfg::WRITE {
        r.touch();
    }
    Ok(obs)
}

/// Exactly the observed elements have been written, once.
fn touched(buf: &[u32], r: Real) -> Real {
    if super::cfg::WRITE {
        let mut want: Vec<u32> = (0..buf.len() as u32).collect();
        if let Some(Ok(obs)) = &r {
            for o in obs {
                for &i in &o.sem.ids {
                    want[i as usize] += TOUCH;
                }
            }
        }
        if buf != want {
            return Some(Err(format!("buffer after writing is {buf:?}, expected {want:?}")));
        }
    }
    r
}

macro_rules! go {
    ($me:expr, $shared:ident, $into:ident, $mut:ident ($($arg:expr),*)) => {{
        let st = $me.st;
        let mut buf = st.buffer();
        let (base, len) = (buf.as_ptr(), buf.len());
        match $me.mode {
            0 if super::cfg::SHARED => {
                let v = make::<u32, S, L>(st, &buf);
                attempt(|| v.$shared($($arg),*)).map(|r| r.observe(base, len))
            }
            1 if super::cfg::INTO => {
                let v = make::<u32, S, L>(st, &buf);
                attempt(|| v.$into($($arg),*)).map(|r| r.observe(base, len))
            }
            2 if super::cfg::MUT => {
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                let r = attempt(|| v.$mut($($arg),*)).map(|r| touch(r, base, len));
                touched(&buf, r)
            }
            3 => {
                let v = make_mut::<u32, S, L>(st, &mut buf);
                let r = attempt(|| v.$into($($arg),*)).map(|r| touch(r, base, len));
                touched(&buf, r)
            }
            _ => unreachable!(),
        }
    }};
}

macro_rules! go_remap {
    ($me:expr, $s:ty, $l:ty) => {{
        let st = $me.st;
        let mut buf = st.buffer();
        let (base, len) = (buf.as_ptr(), buf.len());
        match $me.mode {
            0 => {
                let v = make::<u32, S, L>(st, &buf);
                attempt(|| v.remap::<$s, $l>()).map(|r| r.observe(base, len))
            }
            1 => {
                let v = make::<u32, S, L>(st, &buf);
                attempt(|| v.into_mapping::<$s, $l>()).map(|r| r.observe(base, len))
            }
            2 => {
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                let r = attempt(|| v.remap_mut::<$s, $l>()).map(|r| touch(r, base, len));
                touched(&buf, r)
            }
            _ => {
                let v = make_mut::<u32, S, L>(st, &mut buf);
                let r = attempt(|| v.into_mapping::<$s, $l>()).map(|r| touch(r, base, len));
                touched(&buf, r)
            }
        }
    }};
}

pub const fn c<const N: usize>() -> Const<N> {
    Const::<N>
}

macro_rules! consts {
    ($k:expr, $c:ident => $body:expr) => {
        match $k {
            0 => { let $c = c::<0>(); $body }
            1 => { let $c = c::<1>(); $body }
            2 => { let $c = c::<2>(); $body }
            3 => { let $c = c::<3>(); $body }
            4 => { let $c = c::<4>(); $body }
            5 => { let $c = c::<5>(); $body }
            _ => unreachable!(),
        }
    };
}

pub fn array<const N: usize>(v: &[usize]) -> [usize; N] {
    v.try_into().unwrap()
}

impl<S: Shape + 'static, L: Lay> Go<'_, S, L> {
    fn axis(&self, op: &Op) -> Real {
        match *op {
            Op::At(i) => go!(self, at, into_at, at_mut(i)),
            Op::AxisC(k, i) => consts!(k, a => go!(self, axis_at, into_axis_at, axis_at_mut(a, i))),
            Op::AxisD(k, i) => go!(self, axis_at, into_axis_at, axis_at_mut(k, i)),
            Op::AxisRows(i) => go!(self, axis_at, into_axis_at, axis_at_mut(Rows, i)),
            Op::AxisCols(i) => go!(self, axis_at, into_axis_at, axis_at_mut(Cols, i)),
            Op::SplitAt(m) => go!(self, split_at, into_split_at, split_at_mut(m)),
            Op::SplitC(k, m) => {
                consts!(k, a => go!(self, split_axis_at, into_split_axis_at, split_axis_at_mut(a, m)))
            }
            Op::SplitD(k, m) => go!(self, split_axis_at, into_split_axis_at, split_axis_at_mut(k, m)),
            Op::SplitRows(m) => go!(self, split_axis_at, into_split_axis_at, split_axis_at_mut(Rows, m)),
            Op::SplitCols(m) => go!(self, split_axis_at, into_split_axis_at, split_axis_at_mut(Cols, m)),
            _ => unreachable!(),
        }
    }

    fn perm(&self, op: &Op) -> Real {
        match op {
            Op::PermArr(p) => match p.len() {
                1 => go!(self, permute, into_permuted, permute_mut(array::<1>(p))),
                2 => go!(self, permute, into_permuted, permute_mut(array::<2>(p))),
                3 => go!(self, permute, into_permuted, permute_mut(array::<3>(p))),
                4 => go!(self, permute, into_permuted, permute_mut(array::<4>(p))),
                5 => go!(self, permute, into_permuted, permute_mut(array::<5>(p))),
                6 => go!(self, permute, into_permuted, permute_mut(array::<6>(p))),
                _ => unreachable!(),
            },
            Op::PermDyn(p) => go!(self, permute, into_permuted, permute_mut(&p[..])),
            Op::Reorder => go!(self, reorder, into_reordered, reorder_mut()),
            Op::PermC(p) => match **p {
                [0] => go!(self, permute, into_permuted, permute_mut((c::<0>(),))),
                [1] => go!(self, permute, into_permuted, permute_mut((c::<1>(),))),
                [0, 1] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>()))),
                [1, 0] => go!(self, permute, into_permuted, permute_mut((c::<1>(), c::<0>()))),
                [0, 0] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<0>()))),
                [1, 1] => go!(self, permute, into_permuted, permute_mut((c::<1>(), c::<1>()))),
                [0, 2] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<2>()))),
                [0, 1, 2] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>(), c::<2>()))),
                [0, 2, 1] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<2>(), c::<1>()))),
                [1, 0, 2] => go!(self, permute, into_permuted, permute_mut((c::<1>(), c::<0>(), c::<2>()))),
                [1, 2, 0] => go!(self, permute, into_permuted, permute_mut((c::<1>(), c::<2>(), c::<0>()))),
                [2, 0, 1] => go!(self, permute, into_permuted, permute_mut((c::<2>(), c::<0>(), c::<1>()))),
                [2, 1, 0] => go!(self, permute, into_permuted, permute_mut((c::<2>(), c::<1>(), c::<0>()))),
                [0, 1, 1] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>(), c::<1>()))),
                [0, 0, 2] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<0>(), c::<2>()))),
                [0, 1, 3] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>(), c::<3>()))),
                [0, 1, 2, 3] => {
                    go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>(), c::<2>(), c::<3>())))
                }
                [0, 1, 3, 2] => {
                    go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>(), c::<3>(), c::<2>())))
                }
                [0, 2, 1, 3] => {
                    go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<2>(), c::<1>(), c::<3>())))
                }
                [1, 0, 2, 3] => {
                    go!(self, permute, into_permuted, permute_mut((c::<1>(), c::<0>(), c::<2>(), c::<3>())))
                }
                [1, 2, 3, 0] => {
                    go!(self, permute, into_permuted, permute_mut((c::<1>(), c::<2>(), c::<3>(), c::<0>())))
                }
                [3, 0, 1, 2] => {
                    go!(self, permute, into_permuted, permute_mut((c::<3>(), c::<0>(), c::<1>(), c::<2>())))
                }
                [3, 2, 1, 0] => {
                    go!(self, permute, into_permuted, permute_mut((c::<3>(), c::<2>(), c::<1>(), c::<0>())))
                }
                [2, 3, 0, 1] => {
                    go!(self, permute, into_permuted, permute_mut((c::<2>(), c::<3>(), c::<0>(), c::<1>())))
                }
                [0, 1, 2, 3, 4] => go!(self, permute, into_permuted, permute_mut((
                    c::<0>(), c::<1>(), c::<2>(), c::<3>(), c::<4>()))),
                [4, 0, 2, 1, 3] => go!(self, permute, into_permuted, permute_mut((
                    c::<4>(), c::<0>(), c::<2>(), c::<1>(), c::<3>()))),
                [0, 1, 2, 3, 4, 5] => go!(self, permute, into_permuted, permute_mut((
                    c::<0>(), c::<1>(), c::<2>(), c::<3>(), c::<4>(), c::<5>()))),
                [1, 0, 3, 2, 5, 4] => go!(self, permute, into_permuted, permute_mut((
                    c::<1>(), c::<0>(), c::<3>(), c::<2>(), c::<5>(), c::<4>()))),
                _ => unreachable!(),
            },
            Op::PermMix(p) => match **p {
                [a, 0] => go!(self, permute, into_permuted, permute_mut((a, c::<0>()))),
                [a, 1] => go!(self, permute, into_permuted, permute_mut((a, c::<1>()))),
                [0, 1, b] => go!(self, permute, into_permuted, permute_mut((c::<0>(), c::<1>(), b))),
                [0, a, 2] => go!(self, permute, into_permuted, permute_mut((c::<0>(), a, c::<2>()))),
                [2, a, b] => go!(self, permute, into_permuted, permute_mut((c::<2>(), a, b))),
                [a, b, 1] => go!(self, permute, into_permuted, permute_mut((a, b, c::<1>()))),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }

    fn misc(&self, op: &Op) -> Real {
        match *op {
            Op::Row(i) => go!(self, row, into_row, row_mut(i)),
            Op::Col(i) => go!(self, col, into_col, col_mut(i)),
            Op::Diag(k) => go!(self, diag, into_diag, diag_mut(k)),
            Op::IntoDyn => {
                let mut buf = self.st.buffer();
                let (base, len) = (buf.as_ptr(), buf.len());
                if self.mode % 2 == 0 {
                    let v = make::<u32, S, L>(self.st, &buf);
                    attempt(|| v.into_dyn()).map(|r| r.observe(base, len))
                } else {
                    let v = make_mut::<u32, S, L>(self.st, &mut buf);
                    let r = attempt(|| v.into_dyn()).map(|r| touch(r, base, len));
                    touched(&buf, r)
                }
            }
            Op::RemapStrided => go_remap!(self, S, Strided),
            Op::RemapDynStrided => go_remap!(self, DynRank, Strided),
            Op::RemapDense => go_remap!(self, DynRank, Dense),
            Op::RemapRank2 => go_remap!(self, Rank<2>, Strided),
            _ => unreachable!(),
        }
    }

    fn reshape(&self, op: &Op) -> Real {
        match op {
            Op::Flat => go!(self, flatten, into_flat, flatten_mut()),
            Op::Reshape(d) => match d.len() {
                0 => go!(self, reshape, into_shape, reshape_mut([0usize; 0])),
                1 => go!(self, reshape, into_shape, reshape_mut(array::<1>(d))),
                2 => go!(self, reshape, into_shape, reshape_mut(array::<2>(d))),
                3 => go!(self, reshape, into_shape, reshape_mut(array::<3>(d))),
                4 => go!(self, reshape, into_shape, reshape_mut(array::<4>(d))),
                _ => unreachable!(),
            },
            Op::ReshapeDyn(d) => go!(self, reshape, into_shape, reshape_mut(&d[..])),
            _ => unreachable!(),
        }
    }
}

pub struct Group;

macro_rules! dispatch {
    ($st:expr, $op:expr, $mode:expr, $dynrank:expr, $method:ident, [$($n:tt),+]) => {{
        match ($dynrank, $st.dims.len(), $st.dense) {
            (true, _, true) => Go::<DynRank, Dense> { st: $st, mode: $mode, phantom: std::marker::PhantomData }.$method($op),
            (true, _, false) => Go::<DynRank, Strided> { st: $st, mode: $mode, phantom: std::marker::PhantomData }.$method($op),
            $(
                (false, $n, true) => Go::<Rank<$n>, Dense> { st: $st, mode: $mode, phantom: std::marker::PhantomData }.$method($op),
                (false, $n, false) => Go::<Rank<$n>, Strided> { st: $st, mode: $mode, phantom: std::marker::PhantomData }.$method($op),
            )+
            _ => unreachable!(),
        }
    }};
}

/// Axis and split operations.
pub fn apply_axis(st: &St, op: &Op, mode: usize, dynrank: bool) -> Real {
    if super::cfg::LOW {
        return dispatch!(st, op, mode, dynrank, axis, [0, 1, 2, 3]);
    }
    dispatch!(st, op, mode, dynrank, axis, [0, 1, 2, 3, 4, 5, 6])
}

pub fn apply_perm(st: &St, op: &Op, mode: usize, dynrank: bool) -> Real {
    if super::cfg::LOW {
        return dispatch!(st, op, mode, dynrank, perm, [0, 1, 2, 3]);
    }
    dispatch!(st, op, mode, dynrank, perm, [0, 1, 2, 3, 4, 5, 6])
}

pub fn apply_misc(st: &St, op: &Op, mode: usize, dynrank: bool) -> Real {
    dispatch!(st, op, mode, dynrank, misc, [0, 1, 2, 3, 4])
}

pub fn apply_reshape(st: &St, op: &Op, mode: usize, dynrank: bool) -> Real {
    dispatch!(st, op, mode, dynrank, reshape, [0, 1, 2, 3, 4])
}

/// Sizes to try as an index of a dimension of size `d`: all valid ones and invalid ones.
pub fn points(d: usize) -> Vec<usize> {
    (0..=d + 1).chain([usize::MAX, usize::MAX / 2 + 1]).collect()
}

pub fn axis_ops(st: &St) -> Vec<Op> {
    let rank = st.dims.len();
    let mut v = vec![];
    let dim = |k: usize| st.dims.get(k).copied().unwrap_or(1);
    for k in 0..=rank + 1 {
        for i in points(dim(k)) {
            if k < 6 {
                v.push(Op::AxisC(k, i));
                v.push(Op::SplitC(k, i));
            }
            v.push(Op::AxisD(k, i));
            v.push(Op::SplitD(k, i));
        }
    }
    for i in points(dim(0)) {
        v.push(Op::At(i));
        v.push(Op::SplitAt(i));
    }
    for i in points(if rank > 0 { dim(rank - 1) } else { 1 }) {
        v.push(Op::AxisRows(i));
        v.push(Op::SplitRows(i));
    }
    for i in points(if rank > 1 { dim(rank - 2) } else { 1 }) {
        v.push(Op::AxisCols(i));
        v.push(Op::SplitCols(i));
    }
    v
}

pub fn perm_ops(st: &St) -> Vec<Op> {
    let rank = st.dims.len();
    let mut v = vec![Op::Reorder];
    // All tuples (valid or not) for small rank, otherwise all permutations and some others.
    let mut tuples: Vec<Vec<usize>> = if rank <= 3 {
        mc::model::indices(&vec![rank + 1; rank])
    } else {
        mc::model::permutations(rank)
    };
    if rank > 3 {
        let mut bad: Vec<usize> = (0..rank).collect();
        bad[0] = rank - 1;
        tuples.push(bad.clone());
        bad[0] = 0;
        bad[rank - 1] = rank;
        tuples.push(bad);
    }
    tuples.push((0..rank + 1).collect());
    if rank > 0 {
        tuples.push((0..rank - 1).collect());
        let mut big: Vec<usize> = (0..rank).collect();
        big[rank - 1] = usize::MAX;
        tuples.push(big);
        let mut big: Vec<usize> = (0..rank).collect();
        big[0] = 64; // A value that wraps to 0 in a shift.
        tuples.push(big);
    }
    for t in tuples {
        if !t.is_empty() && t.len() <= 6 {
            v.push(Op::PermArr(t.clone()));
        }
        v.push(Op::PermDyn(t));
    }
    let table: &[&'static [usize]] = &[
        &[0], &[1], &[0, 1], &[1, 0], &[0, 0], &[1, 1], &[0, 2], &[0, 1, 2], &[0, 2, 1], &[1, 0, 2],
        &[1, 2, 0], &[2, 0, 1], &[2, 1, 0], &[0, 1, 1], &[0, 0, 2], &[0, 1, 3], &[0, 1, 2, 3],
        &[0, 1, 3, 2], &[0, 2, 1, 3], &[1, 0, 2, 3], &[1, 2, 3, 0], &[3, 0, 1, 2], &[3, 2, 1, 0],
        &[2, 3, 0, 1], &[0, 1, 2, 3, 4], &[4, 0, 2, 1, 3], &[0, 1, 2, 3, 4, 5], &[1, 0, 3, 2, 5, 4],
    ];
    for p in table {
        v.push(Op::PermC(p));
    }
    let mixed: &[&'static [usize]] = &[
        &[0, 1], &[1, 0], &[0, 0], &[1, 1], &[0, 1, 2], &[0, 1, 1], &[0, 1, 3], &[0, 2, 2], &[0, 0, 2], &[0, 3, 2],
        &[2, 0, 1], &[2, 1, 0], &[2, 2, 0], &[0, 2, 1], &[2, 2, 1], &[1, 2, 1],
    ];
    for p in mixed {
        v.push(Op::PermMix(p));
    }
    v
}

pub fn misc_ops(st: &St) -> Vec<Op> {
    let rank = st.dims.len();
    let mut v = vec![Op::IntoDyn, Op::RemapStrided, Op::RemapDynStrided, Op::RemapDense, Op::RemapRank2];
    let dim = |k: usize| st.dims.get(k).copied().unwrap_or(1);
    if rank == 2 {
        for i in points(dim(0)) {
            v.push(Op::Row(i));
        }
        for i in points(dim(1)) {
            v.push(Op::Col(i));
        }
        let n = dim(0).max(dim(1)) as isize + 2;
        for k in (-n..=n).chain([isize::MIN, isize::MIN + 1, isize::MAX]) {
            v.push(Op::Diag(k));
        }
    } else {
        v.extend([Op::Row(0), Op::Col(0), Op::Diag(0)]);
    }
    v
}

/// Target shapes for reshaping.
pub fn reshape_targets(st: &St, rank: usize) -> Vec<Vec<usize>> {
    let len = product(&st.dims);
    let mut sizes: Vec<usize> = vec![0, 1, 2, 3, usize::MAX, len, len + 1];
    sizes.extend((1..=len).filter(|d| len % d == 0));
    sizes.sort();
    sizes.dedup();
    let mut r: Vec<Vec<usize>> =
        mc::model::indices(&vec![sizes.len(); rank]).iter().map(|t| t.iter().map(|&k| sizes[k]).collect()).collect();
    if rank > 2 {
        // Only those that can fit, with at most one inferred size.
        r.retain(|d| {
            let other: usize = d.iter().filter(|&&x| x != usize::MAX).product();
            match d.iter().filter(|&&x| x == usize::MAX).count() {
                0 => other == len,
                1 => other > 0 && other <= len && d.iter().filter(|&&x| x == 1).count() < rank - 1,
                _ => false,
            }
        });
    }
    r
}
