//! Subarray views: every index expression on every view state (included by several checks).
#![allow(dead_code)]

use std::ops::Bound;

use mc::engine::attempt;
use mc::model::{Lay, Observe, Sem, St, TOUCH, make, make_mut, observe};
use mdarray::index::DimIndex;
use mdarray::{Dense, Rank, Strided, step};

#[derive(Clone, Debug, PartialEq)]
pub enum Ix {
    At(usize),
    Full,
    R(usize, usize),
    From(usize),
    To(usize),
    Incl(usize, usize),
    ToIncl(usize),
    B(Bound<usize>, Bound<usize>),
    StepR(usize, usize, isize),
    StepFull(isize),
    StepFrom(usize, isize),
    StepTo(usize, isize),
    StepIncl(usize, usize, isize),
    StepToIncl(usize, isize),
    StepB(Bound<usize>, Bound<usize>, isize),
}

/// What an index selects of a dimension: one position or a list of positions.
pub enum Sel {
    One(usize),
    Many(Vec<usize>),
}

impl Ix {
    /// `None` if the index is not valid for a dimension of size `d`.
    pub fn select(&self, d: usize) -> Option<Sel> {
        use Bound::*;
        let d = d as u128;
        // Half-open range in wide arithmetic.
        let bounds = |lo: Bound<usize>, hi: Bound<usize>| {
            let lo = match lo {
                Included(x) => x as u128,
                Excluded(x) => x as u128 + 1,
                Unbounded => 0,
            };
            let hi = match hi {
                Included(x) => x as u128 + 1,
                Excluded(x) => x as u128,
                Unbounded => d,
            };
            (lo <= hi && hi <= d).then_some((lo as usize, hi as usize))
        };
        let (range, step) = match *self {
            Ix::At(i) => return ((i as u128) < d).then_some(Sel::One(i)),
            Ix::Full => (bounds(Unbounded, Unbounded), 1),
            Ix::R(a, b) => (bounds(Included(a), Excluded(b)), 1),
            Ix::From(a) => (bounds(Included(a), Unbounded), 1),
            Ix::To(b) => (bounds(Unbounded, Excluded(b)), 1),
            Ix::Incl(a, b) => (bounds(Included(a), Included(b)), 1),
            Ix::ToIncl(b) => (bounds(Unbounded, Included(b)), 1),
            Ix::B(a, b) => (bounds(a, b), 1),
            Ix::StepR(a, b, s) => (bounds(Included(a), Excluded(b)), s),
            Ix::StepFull(s) => (bounds(Unbounded, Unbounded), s),
            Ix::StepFrom(a, s) => (bounds(Included(a), Unbounded), s),
            Ix::StepTo(b, s) => (bounds(Unbounded, Excluded(b)), s),
            Ix::StepIncl(a, b, s) => (bounds(Included(a), Included(b)), s),
            Ix::StepToIncl(b, s) => (bounds(Unbounded, Included(b)), s),
            Ix::StepB(a, b, s) => (bounds(a, b), s),
        };
        let (lo, hi) = range?;
        let (lo, hi, s) = (lo as i128, hi as i128, step as i128);
        let mut v = vec![];
        if s == 0 {
            return None;
        } else if s > 0 {
            let mut x = lo;
            while x < hi {
                v.push(x as usize);
                x += s;
            }
        } else {
            let mut x = hi - 1;
            while x >= lo {
                v.push(x as usize);
                x += s;
            }
        }
        Some(Sel::Many(v))
    }
}

/// Expected result of a view, `None` if an index is not valid.
pub fn expected(sem: &Sem, ixs: &[Ix]) -> Option<Sem> {
    let sels: Vec<Sel> =
        ixs.iter().zip(&sem.dims).map(|(ix, &d)| ix.select(d)).collect::<Option<_>>()?;
    let mut dims = vec![];
    for s in &sels {
        if let Sel::Many(v) = s {
            dims.push(v.len());
        }
    }
    Some(Sem::from_fn(&dims, |i| {
        let mut k = 0;
        let index: Vec<usize> = sels
            .iter()
            .map(|s| match s {
                Sel::One(p) => *p,
                Sel::Many(v) => {
                    k += 1;
                    v[i[k - 1]]
                }
            })
            .collect();
        sem.at(&index)
    }))
}

/// Ways to take a subarray.
pub const MODES: [&str; 5] = ["view", "into_view", "view_mut", "into_view(mut)", "tensor"];

/// Result of the real code: `None` if it panics, `Err` if the result is outside of the parent.
pub type Real = Option<Result<Sem, String>>;

/// Observe a result, and write to all its elements if it is mutable and the check asks for it.
fn touch<T: Observe>(mut r: T, base: *const u32, len: usize) -> Result<Sem, String> {
    let obs = r.observe(base, len)?;
    if super::cfg::WRITE {
        r.touch();
    }
    Ok(obs.into_iter().next().unwrap().sem)
}

/// Exactly the observed elements have been written, once.
fn touched(buf: &[u32], r: Real) -> Real {
    if super::cfg::WRITE {
        let mut want: Vec<u32> = (0..buf.len() as u32).collect();
        if let Some(Ok(o)) = &r {
            for &i in &o.ids {
                want[i as usize] += TOUCH;
            }
        }
        if buf != want {
            return Some(Err(format!("buffer after writing is {buf:?}, expected {want:?}")));
        }
    }
    r
}

macro_rules! all_kinds {
    ($ix:expr, $a:ident => $body:expr) => {
        match *$ix {
            Ix::At(i) => { let $a = i; $body }
            Ix::Full => { let $a = ..; $body }
            Ix::R(x, y) => { let $a = x..y; $body }
            Ix::From(x) => { let $a = x..; $body }
            Ix::To(y) => { let $a = ..y; $body }
            Ix::Incl(x, y) => { let $a = x..=y; $body }
            Ix::ToIncl(y) => { let $a = ..=y; $body }
            Ix::B(x, y) => { let $a = (x, y); $body }
            Ix::StepR(x, y, s) => { let $a = step(x..y, s); $body }
            Ix::StepFull(s) => { let $a = step(.., s); $body }
            Ix::StepFrom(x, s) => { let $a = step(x.., s); $body }
            Ix::StepTo(y, s) => { let $a = step(..y, s); $body }
            Ix::StepIncl(x, y, s) => { let $a = step(x..=y, s); $body }
            Ix::StepToIncl(y, s) => { let $a = step(..=y, s); $body }
            Ix::StepB(x, y, s) => { let $a = step((x, y), s); $body }
        }
    };
}

macro_rules! most_kinds {
    ($ix:expr, $a:ident => $body:expr) => {
        match *$ix {
            Ix::At(i) => { let $a = i; $body }
            Ix::Full => { let $a = ..; $body }
            Ix::R(x, y) => { let $a = x..y; $body }
            Ix::From(x) => { let $a = x..; $body }
            Ix::To(y) => { let $a = ..y; $body }
            Ix::Incl(x, y) => { let $a = x..=y; $body }
            Ix::ToIncl(y) => { let $a = ..=y; $body }
            Ix::B(x, y) => { let $a = (x, y); $body }
            Ix::StepR(x, y, s) => { let $a = step(x..y, s); $body }
            _ => unreachable!(),
        }
    };
}

macro_rules! few_kinds {
    ($ix:expr, $a:ident => $body:expr) => {
        match *$ix {
            Ix::At(i) => { let $a = i; $body }
            Ix::Full => { let $a = ..; $body }
            Ix::R(x, y) => { let $a = x..y; $body }
            Ix::StepR(x, y, s) => { let $a = step(x..y, s); $body }
            _ => unreachable!(),
        }
    };
}

macro_rules! three_kinds {
    ($ix:expr, $a:ident => $body:expr) => {
        match *$ix {
            Ix::At(i) => { let $a = i; $body }
            Ix::Full => { let $a = ..; $body }
            Ix::R(x, y) => { let $a = x..y; $body }
            _ => unreachable!(),
        }
    };
}

macro_rules! two_kinds {
    ($ix:expr, $a:ident => $body:expr) => {
        match *$ix {
            Ix::At(i) => { let $a = i; $body }
            Ix::R(x, y) => { let $a = x..y; $body }
            _ => unreachable!(),
        }
    };
}

macro_rules! go {
    ($name:ident, $n:tt, ($($abc:ident),+), ($($idx:ident),+)) => {
        fn $name<L: Lay, $($abc: DimIndex),+>(st: &St, mode: usize, $($idx: $abc),+) -> Real {
            let mut buf = st.buffer();
            let (base, len) = (buf.as_ptr(), buf.len());

            // Creating the operand must not panic; only the operation itself is attempted.
            match mode {
                0 if super::cfg::SHARED => {
                    let v = make::<u32, Rank<$n>, L>(st, &buf);
                    attempt(|| v.view($($idx),+)).map(|r| observe(&r, base, len))
                }
                1 if super::cfg::INTO => {
                    let v = make::<u32, Rank<$n>, L>(st, &buf);
                    attempt(|| v.into_view($($idx),+)).map(|r| observe(&r, base, len))
                }
                2 if super::cfg::MUT => {
                    let mut v = make_mut::<u32, Rank<$n>, L>(st, &mut buf);
                    let r = attempt(|| v.view_mut($($idx),+)).map(|r| touch(r, base, len));
                    touched(&buf, r)
                }
                3 => {
                    let v = make_mut::<u32, Rank<$n>, L>(st, &mut buf);
                    let r = attempt(|| v.into_view($($idx),+)).map(|r| touch(r, base, len));
                    touched(&buf, r)
                }
                4 if super::cfg::TENSOR => {
                    let v = make::<u32, Rank<$n>, L>(st, &buf);
                    attempt(|| v.tensor($($idx),+)).map(|r| {
                        let mut own = observe(&r, r.as_ptr(), r.len())?;
                        // The elements were cloned: the identity is in the value.
                        own.ids = own.ids.iter().map(|&i| r[i as usize]).collect();
                        Ok(own)
                    })
                }
                _ => unreachable!(),
            }
        }
    };
}

go!(go1, 1, (A), (a));
go!(go2, 2, (A, B), (a, b));
go!(go3, 3, (A, B, C), (a, b, c));
go!(go4, 4, (A, B, C, D), (a, b, c, d));
go!(go5, 5, (A, B, C, D, E), (a, b, c, d, e));
go!(go6, 6, (A, B, C, D, E, F), (a, b, c, d, e, f));

fn apply_l<L: Lay>(st: &St, ixs: &[Ix], mode: usize) -> Real {
    match ixs {
        [x] => all_kinds!(x, a => go1::<L, _>(st, mode, a)),
        [x, y] if super::cfg::LOW => few_kinds!(x, a => few_kinds!(y, b => go2::<L, _, _>(st, mode, a.clone(), b.clone()))),
        [x, y] => most_kinds!(x, a => most_kinds!(y, b => go2::<L, _, _>(st, mode, a.clone(), b.clone()))),
        [x, y, z] if super::cfg::LOW => two_kinds!(x, a => two_kinds!(y, b => two_kinds!(z, c =>
            go3::<L, _, _, _>(st, mode, a.clone(), b.clone(), c.clone())))),
        [x, y, z] => few_kinds!(x, a => few_kinds!(y, b => few_kinds!(z, c =>
            go3::<L, _, _, _>(st, mode, a.clone(), b.clone(), c.clone())))),
        _ => unreachable!(),
    }
}

fn apply_high<L: Lay>(st: &St, ixs: &[Ix], mode: usize) -> Real {
    match ixs {
        [x, y, z, w] => three_kinds!(x, a => three_kinds!(y, b => three_kinds!(z, c => few_kinds!(w, d =>
            go4::<L, _, _, _, _>(st, mode, a.clone(), b.clone(), c.clone(), d.clone()))))),
        [x, y, z, w, u] => two_kinds!(x, a => two_kinds!(y, b => two_kinds!(z, c => two_kinds!(w, d => three_kinds!(u, e =>
            go5::<L, _, _, _, _, _>(st, mode, a.clone(), b.clone(), c.clone(), d.clone(), e.clone())))))),
        [x, y, z, w, u, v] => two_kinds!(x, a => two_kinds!(y, b => two_kinds!(z, c => two_kinds!(w, d => two_kinds!(u, e =>
            two_kinds!(v, f => go6::<L, _, _, _, _, _, _>(
                st, mode, a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone()))))))),
        _ => unreachable!(),
    }
}

/// Apply to a real view of static rank.
pub fn apply(st: &St, ixs: &[Ix], mode: usize) -> Real {
    if st.dense { apply_l::<Dense>(st, ixs, mode) } else { apply_l::<Strided>(st, ixs, mode) }
}

/// The same for rank 4 to 6.
pub fn apply6(st: &St, ixs: &[Ix], mode: usize) -> Real {
    if st.dense { apply_high::<Dense>(st, ixs, mode) } else { apply_high::<Strided>(st, ixs, mode) }
}

/// All indices of every kind for a dimension of size `d`, valid and invalid ones.
pub fn full_alphabet(d: usize) -> Vec<Ix> {
    let n = d as isize + 1;
    alphabet((0..=d + 1).collect(), (-n..=n).collect())
}

/// The same with some of the arguments, for a large dimension.
pub fn sparse_alphabet(d: usize) -> Vec<Ix> {
    let points = vec![0, 1, 2, 7, 8, 9, d / 2, d / 2 + 1, d - 2, d - 1, d, d + 1];
    let n = d as isize;
    let mut steps = vec![0];
    for s in [1, 2, 3, 4, 5, 7, 8, 9, 16, n / 2, n - 1, n, n + 1] {
        steps.extend([s, -s]);
    }
    alphabet(points, steps)
}

/// Few arguments for each of several large dimensions.
pub fn sparse_few_alphabet(d: usize) -> Vec<Ix> {
    let mut v = vec![Ix::Full, Ix::At(0), Ix::At(d - 1), Ix::At(d), Ix::R(0, d), Ix::R(1, d), Ix::R(0, d - 1), Ix::R(d / 2, d), Ix::R(d, d), Ix::R(0, d + 1)];
    for s in [-9, -5, -4, -3, -2, -1, 2, 3, 4, 8, 9] {
        v.push(Ix::StepR(0, d, s));
        v.push(Ix::StepR(1, d - 1, s));
    }
    v
}

/// All kinds of indices with these arguments and steps, and extreme ones.
fn alphabet(mut points: Vec<usize>, mut steps: Vec<isize>) -> Vec<Ix> {
    use Bound::*;
    points.push(usize::MAX);
    let mut v = vec![Ix::Full];
    for &a in &points {
        v.push(Ix::At(a));
        v.push(Ix::From(a));
        v.push(Ix::To(a));
        v.push(Ix::ToIncl(a));
        v.push(Ix::B(Included(a), Unbounded));
        v.push(Ix::B(Excluded(a), Unbounded));
        v.push(Ix::B(Unbounded, Included(a)));
        v.push(Ix::B(Unbounded, Excluded(a)));
        for &b in &points {
            v.push(Ix::R(a, b));
            v.push(Ix::Incl(a, b));
            for (x, y) in [
                (Included(a), Included(b)),
                (Included(a), Excluded(b)),
                (Excluded(a), Included(b)),
                (Excluded(a), Excluded(b)),
            ] {
                v.push(Ix::B(x, y));
            }
        }
    }
    v.push(Ix::B(Unbounded, Unbounded));
    steps.extend([isize::MIN, isize::MIN + 1, isize::MAX]);
    for &s in &steps {
        v.push(Ix::StepFull(s));
        for &a in &points {
            v.push(Ix::StepFrom(a, s));
            v.push(Ix::StepTo(a, s));
            v.push(Ix::StepToIncl(a, s));
            for &b in &points {
                v.push(Ix::StepR(a, b, s));
                v.push(Ix::StepIncl(a, b, s));
                v.push(Ix::StepB(Excluded(a), Included(b), s));
            }
        }
    }
    v
}

/// Indices of the kinds in `most_kinds`.
pub fn most_alphabet(d: usize) -> Vec<Ix> {
    use Bound::*;
    let max = usize::MAX;
    let mut v = vec![Ix::Full];
    for a in 0..=d {
        v.push(Ix::At(a));
        v.push(Ix::From(a));
        v.push(Ix::To(a));
        v.push(Ix::ToIncl(a));
        for b in a..=d {
            v.push(Ix::R(a, b));
        }
    }
    v.push(Ix::From(d + 1));
    v.push(Ix::To(d + 1));
    v.push(Ix::R(1, 0));
    v.push(Ix::R(d, d + 1));
    v.push(Ix::Incl(0, 0));
    v.push(Ix::Incl(1, 0));
    v.push(Ix::Incl(1, 1));
    v.push(Ix::Incl(1, d));
    v.push(Ix::Incl(0, max));
    v.push(Ix::B(Excluded(0), Included(1)));
    v.push(Ix::B(Excluded(0), Unbounded));
    v.push(Ix::B(Unbounded, Excluded(1)));
    v.push(Ix::B(Included(1), Included(d)));
    for s in [-3, -2, -1, 0, 1, 2, 3] {
        v.push(Ix::StepR(0, d, s));
        if d > 0 {
            v.push(Ix::StepR(1, d, s));
            v.push(Ix::StepR(0, d - 1, s));
        }
        v.push(Ix::StepR(0, d + 1, s));
    }
    v
}

/// Indices of the kinds in `few_kinds`.
pub fn few_alphabet(d: usize, invalid: bool) -> Vec<Ix> {
    let mut v = vec![Ix::Full];
    for a in 0..d {
        v.push(Ix::At(a));
    }
    for a in 0..=d {
        for b in a..=d {
            v.push(Ix::R(a, b));
        }
    }
    for s in [-2, -1, 2] {
        v.push(Ix::StepR(0, d, s));
    }
    if d > 1 {
        v.push(Ix::StepR(1, d, -1));
        v.push(Ix::StepR(1, d, 2));
    }
    if invalid {
        v.push(Ix::At(d));
        v.push(Ix::R(0, d + 1));
        v.push(Ix::R(1, 0));
        v.push(Ix::StepR(0, d, 0));
        v.push(Ix::StepR(0, d + 1, 2));
    }
    v
}

/// Indices for the highest ranks.
pub fn tiny_alphabet(d: usize, pos: usize, rank: usize) -> Vec<Ix> {
    let mut v = vec![Ix::R(0, d), Ix::At(d)];
    if d > 0 {
        v.push(Ix::At(d - 1));
        v.push(Ix::R(1, d));
        v.push(Ix::R(0, d - 1));
    }
    if rank == 4 || (rank == 5 && pos == 4) {
        v.push(Ix::Full);
    }
    if rank == 4 && pos == 3 {
        v.push(Ix::StepR(0, d, -1));
        v.push(Ix::StepR(0, d, 2));
    }
    v
}
