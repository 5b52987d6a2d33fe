//! C01: element access follows row-major order for every shape, layout and access path.
use std::ops::Bound;

use mc::engine::{Check, Ctx, Worker, main as run};
use mc::model::{Lay, St, dense_states, few_permutations, indices, huge_states, large_states, long_states, make, make_mut, positions, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each};
use mc::{ensure, ensure_eq};
use mdarray::{Dense, Shape, Slice, Strided};

fn arr<const N: usize>(i: &[usize]) -> [usize; N] {
    i.try_into().unwrap()
}

/// Access element `$i` (a slice) of `$v` with an array index of the right length.
macro_rules! by_array {
    ($v:expr, $i:expr, $f:ident) => {
        match $i.len() {
            0 => $f!($v, arr::<0>($i)),
            1 => $f!($v, arr::<1>($i)),
            2 => $f!($v, arr::<2>($i)),
            3 => $f!($v, arr::<3>($i)),
            4 => $f!($v, arr::<4>($i)),
            5 => $f!($v, arr::<5>($i)),
            _ => $f!($v, arr::<6>($i)),
        }
    };
}
macro_rules! get { ($v:expr, $i:expr) => { $v[$i] }; }
macro_rules! ptr { ($v:expr, $i:expr) => { &$v[$i] as *const u32 as usize }; }
macro_rules! ptr_mut { ($v:expr, $i:expr) => { &mut $v[$i] as *mut u32 as usize }; }
macro_rules! ptr_un { ($v:expr, $i:expr) => { unsafe { $v.get_unchecked($i) as *const u32 as usize } }; }
macro_rules! ptr_un_mut { ($v:expr, $i:expr) => { unsafe { $v.get_unchecked_mut($i) as *mut u32 as usize } }; }

struct Views<'a, 'b, 'c> {
    w: &'a mut Worker<'b>,
    st: &'c St,
}

/// All access paths of a shared slice.
fn shared<S: Shape, L: Lay>(w: &mut Worker, st: &St, v: &Slice<u32, S, L>, base: usize) -> Check {
    let sem = st.sem();
    ensure_eq!(v.len(), sem.len(), "len");
    for (n, index) in indices(&st.dims).iter().enumerate() {
        w.steps(6);
        let want = base + 4 * sem.ids[n] as usize;
        ensure_eq!(ptr!(v, &index[..]), want, "v[&{index:?}[..]] address");
        ensure_eq!(by_array!(v, index, ptr), want, "v[{index:?}] address");
        ensure_eq!(by_array!(v, index, get), sem.ids[n], "v[{index:?}]");
        ensure_eq!(ptr!(v, n), want, "v[{n}] address (linear)");
        ensure_eq!(ptr_un!(v, &index[..]), want, "get_unchecked(&{index:?}[..])");
        ensure_eq!(by_array!(v, index, ptr_un), want, "get_unchecked({index:?})");
        ensure_eq!(ptr_un!(v, n), want, "get_unchecked({n})");
    }
    let it: Vec<usize> = v.iter().map(|x| x as *const u32 as usize).collect();
    let want: Vec<usize> = sem.ids.iter().map(|&i| base + 4 * i as usize).collect();
    ensure_eq!(it, want, "addresses by iter()");
    let it: Vec<usize> = v.into_iter().map(|x| x as *const u32 as usize).collect();
    ensure_eq!(it, want, "addresses by into_iter()");
    w.trace();
    w.outcome(&sem);
    Ok(())
}

fn mutable<S: Shape, L: Lay>(w: &mut Worker, st: &St, v: &mut Slice<u32, S, L>, base: usize) -> Check {
    let sem = st.sem();
    for (n, index) in indices(&st.dims).iter().enumerate() {
        w.steps(6);
        let want = base + 4 * sem.ids[n] as usize;
        ensure_eq!(ptr_mut!(v, &index[..]), want, "&mut v[&{index:?}[..]]");
        ensure_eq!(by_array!(v, index, ptr_mut), want, "&mut v[{index:?}]");
        ensure_eq!(ptr_mut!(v, n), want, "&mut v[{n}] (linear)");
        ensure_eq!(ptr_un_mut!(v, &index[..]), want, "get_unchecked_mut(&{index:?}[..])");
        ensure_eq!(by_array!(v, index, ptr_un_mut), want, "get_unchecked_mut({index:?})");
        ensure_eq!(ptr_un_mut!(v, n), want, "get_unchecked_mut({n})");
    }
    let it: Vec<usize> = v.iter_mut().map(|x| x as *mut u32 as usize).collect();
    let want: Vec<usize> = sem.ids.iter().map(|&i| base + 4 * i as usize).collect();
    ensure_eq!(it, want, "addresses by iter_mut()");
    let it: Vec<usize> = v.into_iter().map(|x| x as *mut u32 as usize).collect();
    ensure_eq!(it, want, "addresses by into_iter() (mutable)");
    w.trace();
    Ok(())
}

/// All ranges of a dense slice.
fn ranges<S: Shape>(w: &mut Worker, v: &mut Slice<u32, S>, ids: &[u32]) -> Check {
    let n = ids.len();
    macro_rules! same {
        ($r:expr) => {
            w.steps(4);
            let r = $r;
            let p = v[r.clone()].as_ptr() as usize;
            ensure_eq!(v[r.clone()], ids[r.clone()], "v[{r:?}]");
            ensure_eq!(v.index_mut_of(r.clone()), &ids[r.clone()], "&mut v[{r:?}]");
            ensure_eq!(unsafe { v.get_unchecked(r.clone()) }, &ids[r.clone()], "get_unchecked({r:?})");
            ensure_eq!(unsafe { &*v.get_unchecked_mut(r.clone()) }, &ids[r.clone()], "get_unchecked_mut({r:?})");
            ensure_eq!(v[r.clone()].as_ptr() as usize, p, "v[{r:?}]");
        };
    }
    trait IndexMutOf<I: ?Sized> {
        type Out: ?Sized;
        fn index_mut_of(&mut self, i: I) -> &Self::Out;
    }
    impl<I, A: std::ops::IndexMut<I> + ?Sized> IndexMutOf<I> for A {
        type Out = A::Output;
        fn index_mut_of(&mut self, i: I) -> &A::Output {
            &mut self[i]
        }
    }
    same!(..);
    for a in positions(n) {
        same!(a..);
        same!(..a);
        if a < n {
            same!(..=a);
        }
        for b in positions(n).into_iter().filter(|&b| b >= a) {
            same!(a..b);
            if b < n {
                same!(a..=b);
            }
            same!((Bound::Included(a), Bound::Excluded(b)));
            if a > 0 {
                same!((Bound::Excluded(a - 1), Bound::Excluded(b)));
            }
            if b > 0 && a < b {
                same!((Bound::Included(a), Bound::Included(b - 1)));
            }
            same!((Bound::Included(a), Bound::<usize>::Unbounded));
            same!((Bound::<usize>::Unbounded, Bound::Excluded(b)));
        }
    }
    w.trace();
    Ok(())
}

impl Visitor for Views<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.st;
        let mut buf = st.buffer();
        let base = buf.as_ptr() as usize;
        self.w.case(
            || format!("{name} {} shared view", st.name()),
            |w| {
                let v = make::<u32, S, L>(st, &buf);
                shared(w, st, &v, base)?;
                shared(w, st, &v.expr(), base)?;
                let list: Vec<usize> = v.clone().into_iter().map(|x| x as *const u32 as usize).collect();
                ensure_eq!(list.len(), st.sem().len(), "View::into_iter");
                for (n, index) in indices(&st.dims).iter().enumerate() {
                    // The index operator of the view type itself.
                    ensure_eq!(<_ as std::ops::Index<usize>>::index(&v, n), &st.sem().ids[n], "View index {n}");
                    ensure_eq!(list[n], base + 4 * st.sem().ids[n] as usize, "View::into_iter item {index:?}");
                }
                Ok(())
            },
        );
        self.w.case(
            || format!("{name} {} mutable view", st.name()),
            |w| {
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                mutable(w, st, &mut v, base)?;
                mutable(w, st, &mut v.expr_mut(), base)?;
                shared(w, st, &v, base)?;
                let list: Vec<usize> = v.into_iter().map(|x| x as *mut u32 as usize).collect();
                for (n, id) in st.sem().ids.iter().enumerate() {
                    ensure_eq!(list[n], base + 4 * *id as usize, "ViewMut::into_iter item {n}");
                }
                Ok(())
            },
        );
        if st.dense {
            self.w.case(
                || format!("{name} {} ranges", st.name()),
                |w| {
                    let ids = st.sem().ids;
                    let mut v = make_mut::<u32, S, Dense>(st, &mut buf);
                    ranges(w, &mut v, &ids)
                },
            );
            self.w.case(
                || format!("{name} {} tensor", st.name()),
                |w| {
                    let mut t = make::<u32, S, L>(st, &buf).to_tensor();
                    let base = t.as_ptr() as usize;
                    shared(w, st, &t, base)?;
                    mutable(w, st, &mut t, base)?;
                    let sem = st.sem();
                    ranges(w, &mut t, &sem.ids)?;
                    for (n, index) in indices(&st.dims).iter().enumerate() {
                        // The index operators of the tensor type itself.
                        ensure_eq!(t[n], sem.ids[n], "t[{n}]");
                        ensure_eq!(t[&index[..]], sem.ids[n], "t[&{index:?}]");
                        ensure_eq!(ptr_mut!(t, n), base + 4 * n, "&mut t[{n}]");
                        ensure_eq!(ptr_mut!(t, &index[..]), base + 4 * n, "&mut t[&{index:?}]");
                    }
                    ensure_eq!(t[..], sem.ids[..], "t[..]");
                    let list: Vec<u32> = t.into_iter().collect();
                    ensure_eq!(list, sem.ids, "Tensor::into_iter");
                    Ok(())
                },
            );
        }
    }
}

macro_rules! arrays {
    ($ctx:expr, $(($($n:literal)*))*) => {$(
        $ctx.one(|w| {
            use mdarray::{Array, Const};
            w.state();
            let st = St::dense(&[$($n),*]);
            w.case(
                || format!("array {:?}", st.dims),
                |w| {
                    let mut n = 0;
                    let mut a: Array<u32, ($(Const<$n>,)*)> = Array::from_fn(|_| { n += 1; n - 1 });
                    let base = a.as_ptr() as usize;
                    shared(w, &st, &a, base)?;
                    mutable(w, &st, &mut a, base)?;
                    let sem = st.sem();
                    ranges(w, &mut a, &sem.ids)?;
                    for (n, index) in indices(&st.dims).iter().enumerate() {
                        ensure_eq!(a[n], sem.ids[n], "a[{n}]");
                        ensure_eq!(a[&index[..]], sem.ids[n], "a[&{index:?}]");
                        ensure_eq!(ptr_mut!(a, n), base + 4 * n, "&mut a[{n}]");
                        ensure_eq!(ptr_mut!(a, &index[..]), base + 4 * n, "&mut a[&{index:?}]");
                    }
                    ensure_eq!(a[..], sem.ids[..], "a[..]");
                    let list: Vec<u32> = a.into_iter().collect();
                    ensure_eq!(list, sem.ids, "Array::into_iter");
                    Ok(())
                },
            );
        });
    )*};
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    let limits = if t { [1, 7, 6, 5, 4, 3, 3] } else { [1, 6, 5, 4, 3, 3, 3] };
    ctx.bound("sizes", format!("rank 0-6, sizes below {limits:?} (by rank), constant sizes up to 3"));
    ctx.bound("strides", "every window with steps +-1, +-2 (+-3 thorough) of a dense base, every axis order; rank 4: step -1 (+1, -2 thorough); rank 5, 6: sizes 1 and 2, step -1, rotations, reversal and neighbour swaps of the axes");

    let mut states = dense_states(0, 1);
    states.push(St { dense: false, ..St::dense(&[]) });
    for rank in 1..=6 {
        states.extend(dense_states(rank, limits[rank]));
        let steps: &[isize] = match (rank, t) {
            (1 | 2, true) => &[1, -1, 2, -2, 3, -3],
            (1 | 2, false) => &[1, -1, 2, -2],
            (3, true) => &[1, -1, 2, -2],
            (3, false) => &[1, -2],
            (4, true) => &[1, -2],
            _ => &[-1],
        };
        let pads: &[u32] = if rank <= 3 { &[0, 1] } else { &[0] };
        let s = if rank <= 3 {
            strided_states(rank, if rank <= 2 { limits[rank] } else { 3 }, steps, pads)
        } else if rank == 4 {
            strided_states(rank, 3, steps, pads)
        } else {
            strided_from(rank, &small_dims(rank, if t { rank } else { 1 }), steps, pads, &few_permutations(rank))
        };
        states.extend(s);
    }

    ctx.bound("long axes", "rank 1-4: size 5 (7 in rank 1) in every position, and sizes 2, 3, .. in both orders");
    states.extend((1..=4).flat_map(long_states));
    ctx.bound("large", "17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    states.extend((1..=4).flat_map(large_states));
    ctx.bound("huge", "300 to 1200 elements in 6 shapes, dense and strided (ranges with ends at and next to 0, 64, 128, half and all)");
    states.extend((1..=3).flat_map(huge_states));

    ctx.par(&states, |w, st| {
        w.state();
        let mut v = Views { w, st };
        if st.dense {
            each::<Dense>(&st.dims, &mut v)
        } else {
            each::<Strided>(&st.dims, &mut v)
        }
    });

    arrays!(ctx, () (0) (1) (3) (2 3) (3 1) (0 2) (2 0) (2 1 3) (2 2 2) (1 2 1 2) (2 1 2 1 2) (1 2 1 2 1 2));
    // Index types of every length on a rank that differs are in C02.
    let _ = |x: bool| -> Check { ensure!(x, ""); Ok(()) };
}

fn main() {
    run(check)
}
