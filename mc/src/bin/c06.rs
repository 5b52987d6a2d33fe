//! C06: mutable views write exactly their own elements and never overlap.
use mc::engine::{Check, Ctx, Worker, attempt, main as run};
use mc::model::{Lay, Sem, St, dense_states, few_permutations, indices, huge_states, large_states, long_states, make_mut, product, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each_low};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::{Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, ViewMut};

mod cfg {
    pub const SHARED: bool = false;
    pub const INTO: bool = false;
    pub const MUT: bool = true;
    pub const TENSOR: bool = false;
    pub const LOW: bool = true;
    pub const WRITE: bool = true;
}

#[path = "../subview.rs"]
mod subview;
#[path = "../viewops.rs"]
mod viewops;

/// Buffer in which element `sem.ids[n]` has become `f(n)` and all others are untouched.
fn expected(len: usize, sem: &Sem, f: impl Fn(usize) -> u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..len as u32).collect();
    for (n, &i) in sem.ids.iter().enumerate() {
        v[i as usize] = f(n);
    }
    v
}

const M: u32 = 1000;

/// A way to write to all elements.
type Write<'a, S, L> = (&'static str, Box<dyn Fn(&mut ViewMut<u32, S, L>) + 'a>, Box<dyn Fn(usize) -> u32 + 'a>);

fn writes<'a, S: Shape, L: Lay>(st: &'a St) -> Vec<Write<'a, S, L>> {
    let mut v: Vec<Write<S, L>> = vec![];
    let mark = || Box::new(|n: usize| M + n as u32) as Box<dyn Fn(usize) -> u32>;
    let dims = &st.dims;
    let n = product(dims);
    let rank = dims.len();
    let values = move || Tensor::<u32, Rank<1>>::from((0..n as u32).map(|x| M + x).collect::<Vec<_>>());
    macro_rules! add {
        ($name:expr, $f:expr) => {
            v.push(($name, Box::new($f), mark()));
        };
    }

    add!("v[multi-index] =", move |v| {
        for (k, i) in indices(dims).iter().enumerate() {
            v[&i[..]] = M + k as u32;
        }
    });
    add!("v[linear] =", move |v| {
        for k in 0..n {
            v[k] = M + k as u32;
        }
    });
    add!("get_unchecked_mut(linear)", move |v| {
        for k in 0..n {
            unsafe { *v.get_unchecked_mut(k) = M + k as u32 };
        }
    });
    add!("get_unchecked_mut(multi-index)", move |v| {
        for (k, i) in indices(dims).iter().enumerate() {
            unsafe { *v.get_unchecked_mut(&i[..]) = M + k as u32 };
        }
    });
    add!("iter_mut().next()", move |v| {
        let mut k = M;
        let mut iter = v.iter_mut();
        while let Some(x) = iter.next() {
            *x = k;
            k += 1;
        }
    });
    add!("for x in &mut v", move |v| {
        let mut k = M;
        for x in v {
            *x = k;
            k += 1;
        }
    });
    add!("iter_mut().for_each", move |v| {
        let mut k = M;
        v.iter_mut().for_each(|x| {
            *x = k;
            k += 1;
        });
    });
    add!("expr_mut().for_each", move |v| {
        let mut k = M;
        v.expr_mut().for_each(|x| {
            *x = k;
            k += 1;
        });
    });
    add!("all of iter_mut() held together", move |v| {
        let mut all: Vec<&mut u32> = v.iter_mut().collect();
        for (k, x) in all.iter_mut().enumerate().rev() {
            **x = M + k as u32;
        }
    });
    add!("expr_mut().enumerate()", move |v| {
        v.expr_mut().enumerate().for_each(|(k, x)| *x = M + k as u32);
    });
    add!("expr_mut().zip(array)", move |v| {
        v.expr_mut().zip(values().into_shape(&dims[..])).for_each(|(x, y)| *x = y);
    });
    add!("zip(expr_mut())", move |v| {
        values().into_shape(&dims[..]).expr().zip(v.expr_mut()).for_each(|(y, x)| *x = *y);
    });
    add!("fill_with", move |v| {
        let mut k = M - 1;
        v.fill_with(|| {
            k += 1;
            k
        });
    });
    add!("assign(&array)", move |v| v.assign(&values().into_shape(&dims[..])));
    add!("assign(array)", move |v| v.assign(values().into_shape(&dims[..])));
    add!("assign(reversed storage)", move |v| {
        // A strided source: stored with the axes reversed.
        let rev: Vec<usize> = dims.iter().rev().copied().collect();
        let t = Tensor::<u32, DynRank>::from_fn(&rev[..], |i| {
            let mut k = 0;
            for (a, d) in i.iter().rev().zip(dims) {
                k = k * d + a;
            }
            M + k as u32
        });
        v.assign(t.reorder());
    });
    add!("assign(from_fn)", move |v| {
        let mut k = M - 1;
        v.assign(expr::from_fn(&dims[..], |_| {
            k += 1;
            k
        }));
    });
    add!("assign(map)", move |v| v.assign(values().into_shape(&dims[..]).expr().map(|x| *x)));

    v.push(("fill", Box::new(|v| v.fill(7)), Box::new(|_| 7)));
    v.push(("assign(fill)", Box::new(|v| v.assign(expr::fill(8u32))), Box::new(|_| 8)));
    v.push(("assign(from_elem)", Box::new(move |v| v.assign(expr::from_elem(&dims[..], 9u32))), Box::new(|_| 9)));
    v.push(("assign(array without dimensions)", Box::new(move |v| v.assign(&Tensor::<u32, DynRank>::from_elem(&[0usize; 0][..], 3))), Box::new(|_| 3)));
    for r in 1..rank {
        let tail = dims[r..].to_vec();
        let m = product(&tail);
        v.push((
            ["", "assign(1 dimension less)", "assign(2 dimensions less)", "assign(3 dimensions less)"][r],
            Box::new(move |v| {
                let t = Tensor::<u32, Rank<1>>::from((0..m as u32).map(|x| M + x).collect::<Vec<_>>());
                v.assign(&t.into_shape(&tail[..]));
            }),
            Box::new(move |k| M + (k % m.max(1)) as u32),
        ));
    }
    let ids = st.sem().ids;
    let old = ids.clone();
    v.push(("+= array", Box::new(move |v| *v += &values().into_shape(&dims[..])), Box::new(move |k| old[k] + M + k as u32)));
    let old = ids.clone();
    v.push(("*= fill", Box::new(|v| *v *= expr::fill(3u32)), Box::new(move |k| old[k] * 3)));
    v
}

/// A part of an array.
type Part<'a> = ViewMut<'a, u32, DynRank, Strided>;

fn part<'a, S: Shape, L: Layout>(v: ViewMut<'a, u32, S, L>) -> Part<'a> {
    v.into_mapping()
}

fn scalar(x: &mut u32) -> Part {
    unsafe { ViewMut::new_unchecked(x, mdarray::StridedMapping::new(DynRank::from_dims(&[]), &[])) }
}

/// Check that the parts, held together, are exactly the given disjoint parts of the array.
fn check_parts(w: &mut Worker, st: &St, what: &str, want: &[Sem], run: impl FnOnce(&mut [u32], &mut dyn FnMut(Vec<Part>))) -> Check {
    w.step();
    let mut buf = st.buffer();
    let mut expect = st.buffer();
    for (p, s) in want.iter().enumerate() {
        for (k, &i) in s.ids.iter().enumerate() {
            expect[i as usize] = (p as u32 + 1) * M + k as u32;
        }
    }
    let mut result = Err(format!("{what}: nothing"));
    run(&mut buf, &mut |mut parts: Vec<Part>| {
        let dims: Vec<Vec<usize>> = parts.iter().map(|p| p.dims().to_vec()).collect();
        let model: Vec<Vec<usize>> = want.iter().map(|s| s.dims.clone()).collect();
        if dims != model {
            result = Err(format!("{what}: parts have dimensions {dims:?}, expected {model:?}"));
            return;
        }
        for (p, part) in parts.iter_mut().enumerate() {
            for (k, i) in indices(&part.dims().to_vec()).iter().enumerate() {
                part[&i[..]] = (p as u32 + 1) * M + k as u32;
            }
        }
        result = Ok(());
    });
    result?;
    ensure_eq!(buf, expect, "{what}: buffer");
    w.trace();
    Ok(())
}

fn axes<S: Shape, L: Lay, A: Axis>(w: &mut Worker, st: &St, axis: A, k: usize) -> Check {
    let sem = st.sem();
    if k >= st.dims.len() {
        return Ok(());
    }
    let subs: Vec<Sem> = (0..st.dims[k]).map(|i| sem.axis_at(k, i).unwrap()).collect();
    let lanes = sem.lanes(k).unwrap().1;
    check_parts(w, st, "axis_expr_mut, next", &subs, |buf, f| {
        f(make_mut::<u32, S, L>(st, buf).axis_expr_mut(axis).into_iter().map(part).collect())
    })?;
    check_parts(w, st, "lanes_mut, next", &lanes, |buf, f| {
        f(make_mut::<u32, S, L>(st, buf).lanes_mut(axis).into_iter().map(part).collect())
    })?;
    check_parts(w, st, "lanes_mut, fold", &lanes, |buf, f| {
        f(make_mut::<u32, S, L>(st, buf).lanes_mut(axis).fold(vec![], |mut v, x| {
            v.push(part(x));
            v
        }))
    })?;
    check_parts(w, st, "axis_expr_mut, fold", &subs, |buf, f| {
        f(make_mut::<u32, S, L>(st, buf).axis_expr_mut(axis).fold(vec![], |mut v, x| {
            v.push(part(x));
            v
        }))
    })?;
    // Single steps, then internal iteration.
    for steps in 1..=lanes.len().min(3) {
        check_parts(w, st, "lanes_mut, next then fold", &lanes, |buf, f| {
            let mut v = make_mut::<u32, S, L>(st, buf);
            let mut iter = v.lanes_mut(axis).into_iter();
            let mut parts = vec![];
            for _ in 0..steps {
                parts.extend(iter.next().map(part));
            }
            iter.for_each(|x| parts.push(part(x)));
            f(parts)
        })?;
    }
    Ok(())
}

/// All parts that are handed out together.
fn parts<S: Shape, L: Lay>(w: &mut Worker, st: &St) -> Check {
    let rank = st.dims.len();
    let sem = st.sem();
    let single: Vec<Sem> = sem.ids.iter().map(|&i| Sem::new(&[], vec![i])).collect();

    axes::<S, L, _>(w, st, Const::<0>, 0)?;
    axes::<S, L, _>(w, st, Const::<1>, 1)?;
    axes::<S, L, _>(w, st, Const::<2>, 2)?;
    for k in 0..rank {
        axes::<S, L, usize>(w, st, k, k)?;
    }
    axes::<S, L, _>(w, st, Rows, rank.wrapping_sub(1))?;
    axes::<S, L, _>(w, st, Cols, rank.wrapping_sub(2))?;

    check_parts(w, st, "iter_mut", &single, |buf, f| {
        let mut v = make_mut::<u32, S, L>(st, buf);
        f(v.iter_mut().map(scalar).collect())
    })?;
    check_parts(w, st, "into_iter", &single, |buf, f| {
        let v = make_mut::<u32, S, L>(st, buf);
        f(v.into_iter().map(scalar).collect())
    })?;

    if rank > 0 {
        let first: Vec<Sem> = (0..st.dims[0]).map(|i| sem.axis_at(0, i).unwrap()).collect();
        check_parts(w, st, "outer_expr_mut", &first, |buf, f| {
            f(make_mut::<u32, S, L>(st, buf).outer_expr_mut().into_iter().map(part).collect())
        })?;
        check_parts(w, st, "rows_mut", &sem.lanes(rank - 1).unwrap().1, |buf, f| {
            f(make_mut::<u32, S, L>(st, buf).rows_mut().into_iter().map(part).collect())
        })?;
        for mid in 0..=st.dims[0] {
            let (a, b) = sem.split(0, mid).unwrap();
            check_parts(w, st, "split_at_mut", &[a.clone(), b.clone()], |buf, f| {
                let mut v = make_mut::<u32, S, L>(st, buf);
                let (a, b) = v.split_at_mut(mid);
                f(vec![part(a), part(b)])
            })?;
            check_parts(w, st, "into_split_at", &[a, b], |buf, f| {
                let (a, b) = make_mut::<u32, S, L>(st, buf).into_split_at(mid);
                f(vec![part(a), part(b)])
            })?;
        }
        for k in 0..rank {
            for mid in 0..=st.dims[k] {
                let (a, b) = sem.split(k, mid).unwrap();
                check_parts(w, st, "split_axis_at_mut", &[a.clone(), b.clone()], |buf, f| {
                    let mut v = make_mut::<u32, S, L>(st, buf);
                    let (a, b) = v.split_axis_at_mut(k, mid);
                    f(vec![part(a), part(b)])
                })?;
                // Both halves split again along the other end.
                if rank > 1 {
                    let j = (k + 1) % rank;
                    for mid2 in 0..=st.dims[j] {
                        let (a1, a2) = a.split(j, mid2).unwrap();
                        let (b1, b2) = b.split(j, mid2).unwrap();
                        check_parts(w, st, "four quarters", &[a1, a2, b1, b2], |buf, f| {
                            let mut v = make_mut::<u32, S, L>(st, buf);
                            let (a, b) = v.split_axis_at_mut(k, mid);
                            let (a1, a2) = a.into_split_axis_at(j, mid2);
                            let (b1, b2) = b.into_split_axis_at(j, mid2);
                            f(vec![part(a1), part(a2), part(b1), part(b2)])
                        })?;
                    }
                }
            }
        }
    }
    if rank > 1 {
        check_parts(w, st, "cols_mut", &sem.lanes(rank - 2).unwrap().1, |buf, f| {
            f(make_mut::<u32, S, L>(st, buf).cols_mut().into_iter().map(part).collect())
        })?;
    }
    Ok(())
}

struct Go<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Go<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let sem = st.sem();
        for (what, write, value) in writes::<S, L>(st) {
            self.0.case(
                || format!("{name} {} {what}", st.name()),
                |w| {
                    w.step();
                    let mut buf = st.buffer();
                    {
                        let mut v = make_mut::<u32, S, L>(st, &mut buf);
                        write(&mut v);
                    }
                    ensure_eq!(buf, expected(st.len, &sem, &*value), "buffer after writing");
                    w.outcome(&buf);
                    w.trace();
                    Ok(())
                },
            );
        }
        // Stopping in the middle writes a prefix.
        for k in 0..=sem.len() {
            self.0.case(
                || format!("{name} {} the first {k} of iter_mut, then the rest by fold", st.name()),
                |w| {
                    w.step();
                    let mut buf = st.buffer();
                    let mut n = M;
                    {
                        let mut v = make_mut::<u32, S, L>(st, &mut buf);
                        let mut iter = v.iter_mut();
                        for _ in 0..k {
                            *iter.next().ok_or("ends too soon")? = n;
                            n += 1;
                        }
                    }
                    ensure_eq!(buf, expected(st.len, &sem, |j| if j < k { M + j as u32 } else { sem.ids[j] }), "buffer after {k} steps");
                    let mut v = make_mut::<u32, S, L>(st, &mut buf);
                    let mut n = 2 * M;
                    let mut iter = v.iter_mut();
                    for _ in 0..k {
                        *iter.next().ok_or("ends too soon")? = n;
                        n += 1;
                    }
                    iter.for_each(|x| {
                        *x = n;
                        n += 1;
                    });
                    ensure_eq!(buf, expected(st.len, &sem, |j| 2 * M + j as u32), "buffer after steps and fold");
                    w.trace();
                    Ok(())
                },
            );
        }
        self.0.case(|| format!("{name} {} parts held together", st.name()), |w| parts::<S, L>(w, st));
        self.0.case(|| format!("{name} {} parts repeated", st.name()), |w| repeated::<S, L>(w, st));
    }
}

/// Addresses of the elements of an item.
trait Places {
    fn places(&mut self, to: &mut Vec<usize>);
}

impl Places for &mut u32 {
    fn places(&mut self, to: &mut Vec<usize>) {
        to.push(*self as *mut u32 as usize);
    }
}

impl<S: Shape, L: Layout> Places for ViewMut<'_, u32, S, L> {
    fn places(&mut self, to: &mut Vec<usize>) {
        self.iter_mut().for_each(|x| to.push(x as *mut u32 as usize));
    }
}

/// An expression combined with one of higher rank is refused, or does not give an element twice.
fn unshared<E: Expression>(w: &mut Worker, what: &str, copies: usize, left: bool, make: impl FnOnce() -> E) -> Check
where
    E::Item: Places,
{
    w.step();
    let e = make();
    let mut dims = vec![copies];
    dims.extend((0..e.rank()).map(|i| e.dim(i)));
    let n = product(&dims);
    let other = expr::from_elem(&dims[..], 0u8);
    let items: Option<Vec<E::Item>> = if left {
        attempt(move || e.zip(other).into_iter().map(|x| x.0).collect())
    } else {
        attempt(move || other.zip(e).into_iter().map(|x| x.1).collect())
    };
    let Some(mut items) = items else { return Ok(()) };
    ensure_eq!(items.len(), n, "{what}: number of items");
    let mut all = vec![];
    items.iter_mut().for_each(|x| x.places(&mut all));
    let len = all.len();
    all.sort();
    all.dedup();
    ensure!(all.len() == len, "{what} combined with shape {dims:?}: mutable items share elements");
    Ok(())
}

/// Mutable expressions combined with expressions of higher rank.
fn repeated<S: Shape, L: Lay>(w: &mut Worker, st: &St) -> Check {
    if product(&st.dims) > 64 {
        return Ok(());
    }
    let mut buf = st.buffer();
    for copies in [1, 2, 3] {
        for left in [false, true] {
            macro_rules! go {
                ($($v:ident $e:expr;)*) => {
                    $({
                        let mut $v = make_mut::<u32, S, L>(st, &mut buf);
                        let _ = &mut $v;
                        unshared(w, stringify!($e), copies, left, || $e)?;
                    })*
                };
            }
            go! {
                v v.expr_mut();
                v v.into_expr();
            }
            let rank = st.dims.len();
            if rank > 0 {
                go! {
                    v v.outer_expr_mut();
                    v v.axis_expr_mut(rank - 1);
                    v v.axis_expr_mut(0);
                    v v.axis_expr_mut(Rows);
                    v v.lanes_mut(0);
                    v v.lanes_mut(rank - 1);
                    v v.lanes_mut(Rows);
                }
            }
            if rank > 1 {
                go! {
                    v v.axis_expr_mut(Cols);
                    v v.lanes_mut(Cols);
                }
            }
            w.trace();
        }
    }
    Ok(())
}

/// Ranges and slices of dense arrays.
fn ranges<S: Shape + 'static>(w: &mut Worker, name: &str, st: &St) {
    let n = st.len;
    for a in 0..=n {
        for b in a..=n {
            w.case(
                || format!("{name} {} writing to v[{a}..{b}]", st.name()),
                |w| {
                    w.step();
                    let mut buf = st.buffer();
                    {
                        let mut v = make_mut::<u32, S, Dense>(st, &mut buf);
                        v[a..b].fill(5);
                        if b > a {
                            v[a..=b - 1].iter_mut().for_each(|x| *x += 1);
                        }
                    }
                    let want: Vec<u32> = (0..n as u32).map(|x| if (a..b).contains(&(x as usize)) { 6 } else { x }).collect();
                    ensure_eq!(buf, want, "buffer");
                    let mut v = make_mut::<u32, S, Dense>(st, &mut buf);
                    v[..].copy_from_slice(&(0..n as u32).rev().collect::<Vec<_>>());
                    let slice: &mut [u32] = &mut v[..];
                    for x in slice {
                        *x += 1;
                    }
                    ensure!(buf.iter().copied().eq((1..=n as u32).rev()), "buffer {buf:?} after writing to the whole slice");
                    Ok(())
                },
            );
        }
    }
}

fn refused<S: Shape, L: Layout>(v: &mut Slice<u32, S, L>, dims: &[usize]) -> Option<()> {
    let t = Tensor::<u32, DynRank>::from_elem(dims, 77);
    attempt(|| v.assign(&t))
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("states", if t { "rank 0-1: sizes 0..5; rank 2: 0..4; rank 3: 0..3; rank 4: 1..2; dense and strided (steps +-1, +-2, windows, all axis orders)" } else { "rank 0-1: sizes 0..4; rank 2: 0..3; rank 3: 0..2; rank 4: 1..2; dense and strided (steps +-1, 2, windows, all axis orders)" });
    ctx.bound("writes", "all write paths; all parts of splits, axis expressions, lanes and iterators held together; every mutable view operation of C03-C05");

    let mut states = dense_states(0, 1);
    states.push(St { dense: false, ..St::dense(&[]) });
    for (rank, n) in [(1, if t { 6 } else { 5 }), (2, if t { 5 } else { 4 }), (3, if t { 4 } else { 3 })] {
        states.extend(dense_states(rank, n));
        let steps: &[isize] = if rank == 3 { if t { &[1, -1, 2] } else { &[1, -1] } } else if t { &[1, -1, 2, -2] } else { &[1, -1, 2] };
        states.extend(strided_states(rank, n.min(4), steps, &[0, 1]));
    }
    states.extend(small_dims(4, 1).iter().map(|d| St::dense(d)));
    states.extend(strided_from(4, &small_dims(4, 1), &[-1], &[0], &few_permutations(4)));
    ctx.bound("long axes", "rank 1-3: size 5 (7 in rank 1) in every position, and sizes 2, 3, .. in both orders");
    states.extend((1..=3).flat_map(long_states));
    ctx.bound("large", "writes (quick) and view operations (thorough): 17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    let small = states.clone();
    states.extend((1..=3).flat_map(large_states));
    ctx.bound("huge", "300 to 1200 elements in 6 shapes, dense and strided");
    states.extend((1..=3).flat_map(huge_states));

    ctx.par(&states, |w, st| {
        w.state();
        if st.dense {
            each_low::<Dense>(&st.dims, &mut Go(w, st))
        } else {
            each_low::<Strided>(&st.dims, &mut Go(w, st))
        }
    });

    // Views from mutable operations.
    let states = if t { states } else { small };
    ctx.par(&states, |w, st| {
        use viewops::*;
        for mode in [2, 3] {
            for dynrank in [false, true] {
                if !dynrank && st.dims.len() > 3 {
                    continue;
                }
                let mut go = |op: &Op, apply: fn(&St, &Op, usize, bool) -> Real| {
                    // Refusals are the subject of C02.
                    let want = expected(st, &st.sem(), op, None);
                    if matches!(want, Want::Panic) {
                        return;
                    }
                    w.case(
                        || format!("{} {} writing to {}.{op:?}", if dynrank { "dynrank" } else { "rank" }, st.name(), MODES[mode]),
                        |w| judge(w, want, apply(st, op, mode, dynrank)).map(|_| ()),
                    );
                };
                for op in axis_ops(st) {
                    go(&op, apply_axis);
                }
                for op in perm_ops(st) {
                    go(&op, apply_perm);
                }
                for op in misc_ops(st) {
                    go(&op, apply_misc);
                }
                go(&Op::Flat, apply_reshape);
                for rank in 0..=3 {
                    for d in reshape_targets(st, rank) {
                        go(&Op::Reshape(d), apply_reshape);
                    }
                }
            }
        }
    });

    // Mutable subarrays.
    ctx.par(&states, |w, st| {
        use subview::*;
        let rank = st.dims.len();
        let lists: Vec<Vec<Ix>> = match rank {
            1 => st.dims.iter().map(|&d| full_alphabet(d)).collect(),
            2 => st.dims.iter().map(|&d| few_alphabet(d, false)).collect(),
            3 => {
                let mut lists: Vec<Vec<Ix>> = st.dims.iter().map(|&d| few_alphabet(d, false)).collect();
                lists.iter_mut().for_each(|l| l.retain(|i| matches!(i, Ix::At(_) | Ix::R(..))));
                lists
            }
            _ => return,
        };
        let sem = st.sem();
        for pick in indices(&lists.iter().map(|l| l.len()).collect::<Vec<_>>()) {
            let ixs: Vec<Ix> = pick.iter().enumerate().map(|(i, &k)| lists[i][k].clone()).collect();
            let Some(want) = subview::expected(&sem, &ixs) else { continue };
            for mode in [2, 3] {
                w.case(
                    || format!("{} writing to {}({ixs:?})", st.name(), MODES[mode]),
                    |w| {
                        w.step();
                        let got = subview::apply(st, &ixs, mode).ok_or("valid indices, but panics")??;
                        ensure_eq!(got, want, "view");
                        w.trace();
                        Ok(())
                    },
                );
            }
        }
    });

    // Dense ranges.
    ctx.par(&states, |w, st| {
        if st.dense {
            ranges::<DynRank>(w, "DynRank", st);
            match st.dims.len() {
                1 => ranges::<Rank<1>>(w, "Rank<1>", st),
                2 => ranges::<Rank<2>>(w, "Rank<2>", st),
                3 => ranges::<Rank<3>>(w, "Rank<3>", st),
                _ => (),
            }
        }
    });

    // A refused assignment writes nothing.
    ctx.par(&states, |w, st| {
        let rank = st.dims.len();
        for k in 0..rank {
            let mut dims = st.dims.clone();
            dims[k] += 1;
            let mut higher = st.dims.clone();
            higher.insert(0, 1);
            for dims in [dims[k..].to_vec(), dims, higher] {
                w.case(
                    || format!("{} refused assign from {dims:?}", st.name()),
                    |w| {
                        let mut buf = st.buffer();
                        let r = if st.dense {
                            refused(&mut make_mut::<u32, DynRank, Dense>(st, &mut buf), &dims)
                        } else {
                            refused(&mut make_mut::<u32, DynRank, Strided>(st, &mut buf), &dims)
                        };
                        ensure!(buf == st.buffer(), "refused assignment has written: {buf:?}");
                        w.expect_panic("assign", r)
                    },
                );
            }
        }
    });
}

fn main() {
    run(check)
}
