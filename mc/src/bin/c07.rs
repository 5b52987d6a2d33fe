//! C07: iterators yield every element once, in order, with exact lengths, and stay ended.
use mc::engine::{Check, Ctx, Worker, main as run};
use mc::model::{Lay, St, dense_states, few_permutations, huge_states, large_states, long_states, make, make_mut, positions, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each_low, each_static_few};
use mc::{ensure, ensure_eq};
use mdarray::expr::{Expression, IntoExpression};
use mdarray::index::{Cols, Rows};
use mdarray::{Array, Const, Dense, DynRank, Rank, Shape, Strided};

#[path = "../exprs.rs"]
mod exprs;
use exprs::*;
#[path = "../grammar.rs"]
mod grammar;
use grammar::*;

/// The remaining length is exact.
fn length(i: &dyn DynIter, n: usize) -> Check {
    ensure_eq!(i.len(), n, "len()");
    ensure_eq!(i.hint(), (n, Some(n)), "size_hint()");
    Ok(())
}

fn start(w: &mut Worker, c: &Case, want: &[u64], k: usize) -> Result<Box<dyn DynIter>, String> {
    w.step();
    let e = (c.make)().ok_or("expression panics")?;
    let mut i = e.iter();
    length(&*i, want.len())?;
    for n in 0..k {
        let got = i.next();
        ensure!(got == Some(want[n]), "item {n} of {} is {}", want.len(), if got.is_none() { "missing" } else { "wrong" });
        length(&*i, want.len() - n - 1)?;
    }
    Ok(i)
}

fn ended(i: &mut dyn DynIter) -> Check {
    for n in 0..3 {
        ensure!(i.next().is_none(), "item after the end, at call {n}");
        length(i, 0)?;
    }
    ensure!(i.nth(0).is_none() && i.nth(2).is_none(), "nth() after the end");
    Ok(())
}

fn expression(w: &mut Worker, c: &Case) -> Check {
    let Some(m) = &c.model else {
        w.step();
        ensure!((c.make)().is_none(), "expression is not refused");
        return Ok(());
    };
    let want = m.tokens();
    let n = want.len();
    let e = (c.make)().ok_or("expression panics")?;
    ensure_eq!(e.dims(), m.dims, "dimensions");
    ensure_eq!(e.len(), n, "len() of the expression");
    ensure_eq!(e.is_empty(), n == 0, "is_empty() of the expression");

    for k in positions(n) {
        // All by single steps.
        if k == n {
            let mut i = start(w, c, &want, k)?;
            ended(&mut *i)?;
            ensure_eq!(i.count(), 0, "count() after the end");
            if let Some(f) = start(w, c, &want, k)?.fork() {
                f.fold(&mut |_| ());
            }
            let mut i = start(w, c, &want, k)?;
            ensure!(i.next().is_none(), "item after the end");
            let mut extra = 0;
            i.fold(&mut |_| extra += 1);
            ensure_eq!(extra, 0, "items of fold() after the end");
        }

        // Internal iteration after k steps.
        let i = start(w, c, &want, k)?;
        let mut got = vec![];
        i.fold(&mut |x| got.push(x));
        ensure!(got == want[k..], "fold() after {k} steps gives other items ({} instead of {})", got.len(), n - k);
        ensure_eq!(start(w, c, &want, k)?.count(), n - k, "count() after {k} steps");
        ensure!(start(w, c, &want, k)?.collect() == want[k..], "collect() after {k} steps gives other items");
        ensure!(start(w, c, &want, k)?.last() == want[k..].last().copied(), "last() after {k} steps");

        // Skipping.
        for j in positions(n - k + 1) {
            let mut i = start(w, c, &want, k)?;
            ensure!(i.nth(j) == want[k..].get(j).copied(), "nth({j}) after {k} steps");
            length(&*i, (n - k).saturating_sub(j + 1))?;
            if k + j + 1 < n {
                ensure!(i.next() == Some(want[k + j + 1]), "next() after nth({j}) after {k} steps");
            } else {
                ended(&mut *i)?;
            }
        }

        // A clone continues at the same position, independently.
        let mut i = start(w, c, &want, k)?;
        if let Some(mut f) = i.fork() {
            length(&*f, n - k)?;
            ensure!(f.next() == want.get(k).copied(), "next() of a clone after {k} steps");
            ensure!(i.next() == want.get(k).copied(), "next() of the original after a clone after {k} steps");
            if k < n {
                let mut got = vec![];
                f.fold(&mut |x| got.push(x));
                ensure!(got == want[k + 1..], "a clone after {k} steps gives other items");
                ensure!(i.collect() == want[k + 1..], "the original of a clone after {k} steps gives other items");
            } else {
                ended(&mut *f)?;
            }
            w.count("clones");
        }
    }
    take_log();
    w.outcome(&want);
    w.trace();
    Ok(())
}

fn all(w: &mut Worker, what: &str, cases: Vec<Case>) {
    for c in &cases {
        w.case(|| format!("{what} {}", c.name), |w| expression(w, c));
        clear_arena();
    }
}

struct Go<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Go<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let rank = st.dims.len();
        let mut o = Out::<false>::new();
        g_view::<S, L, false>(&mut o, st);
        g_zip_fill::<S, L, false>(&mut o, st);
        // The same dimensions, and each lower rank, in dense and strided form.
        let tail = |r: usize, dense: bool| St { dense, ..St::dense(&st.dims[rank - r..]) };
        g_zip::<S, L, S, Dense, false>(&mut o, st, &tail(rank, true));
        for r in 0..=rank {
            g_zip::<S, L, DynRank, Strided, false>(&mut o, st, &tail(r, false));
            if r == 1 {
                g_zip::<S, L, Rank<1>, Dense, false>(&mut o, st, &tail(r, true));
            }
            g_zip_source::<S, L, DynRank, false>(&mut o, st, &st.dims[rank - r..]);
        }
        if rank > 0 {
            if S::RANK.is_none() || rank < 4 {
                g_axis::<S, L, _, false>(&mut o, st, Const::<0>, 0, "Const<0>");
                g_axis::<S, L, _, false>(&mut o, st, Rows, rank - 1, "Rows");
            }
            for k in 0..rank {
                g_axis::<S, L, usize, false>(&mut o, st, k, k, &k.to_string());
            }
        }
        if rank > 1 {
            g_axis::<S, L, _, false>(&mut o, st, Cols, rank - 2, "Cols");
            g_axis::<S, L, _, false>(&mut o, st, Const::<1>, 1, "Const<1>");
        }
        all(self.0, &format!("{name} {}", st.name()), o.cases);
    }
}

struct Source<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Source<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let mut o = Out::<false>::new();
        g_source::<S, false>(&mut o, &self.1.dims);
        all(self.0, &format!("{name} {:?}", self.1.dims), o.cases);
    }
}

/// Shape types with constant sizes.
struct Fixed<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Fixed<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let mut o = Out::<false>::new();
        g_view::<S, L, false>(&mut o, st);
        all(self.0, &format!("{name} {}", st.name()), o.cases);
    }
}

// ---------------------------------------------------------------------- array types

/// An iterator over the given elements.
fn iterates<I: Iterator + ExactSizeIterator>(what: &str, k: usize, mut i: I, id: impl Fn(I::Item) -> u32, want: &[u32]) -> Check {
    let n = want.len();
    for j in 0..k {
        ensure!(i.len() == n - j && i.size_hint() == (n - j, Some(n - j)), "{what}: length after {j} steps");
        ensure!(i.next().map(&id) == Some(want[j]), "{what}: item {j}");
    }
    if k == n {
        ensure!(i.next().is_none() && i.next().is_none() && i.len() == 0, "{what}: end");
    }
    let got: Vec<u32> = i.map(id).collect();
    ensure!(got == want[k..], "{what}: items after {k} steps");
    Ok(())
}

/// An expression over the given elements.
fn expresses<E: Expression>(what: &str, e: E, id: impl Fn(E::Item) -> u32, dims: &[usize], want: &[u32]) -> Check {
    let d: Vec<usize> = (0..e.rank()).map(|i| e.dim(i)).collect();
    ensure_eq!(d, dims, "{what}: dimensions");
    let mut got = vec![];
    e.for_each(|x| got.push(id(x)));
    ensure!(got == want, "{what}: items");
    Ok(())
}

macro_rules! holder {
    ($w:ident, $dims:expr, $want:expr; $what:literal, $x:ident: $init:expr, $make:expr, $id:expr) => {{
        $w.steps(2);
        for k in positions($want.len()) {
            #[allow(unused_mut)]
            let mut $x = $init;
            iterates($what, k, IntoIterator::into_iter($make), $id, $want)?;
        }
        #[allow(unused_mut)]
        let mut $x = $init;
        expresses($what, IntoExpression::into_expr($make), $id, $dims, $want)?;
    }};
}

/// Iteration over and expressions of views, slices and tensors of every kind of access.
struct Holders<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Holders<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        self.0.case(|| format!("{name} {} by every access", st.name()), |w| {
            let sem = st.sem();
            let (dims, ids) = (&sem.dims[..], &sem.ids[..]);
            let buf = st.buffer();
            let mut other = st.buffer();
            let p = &mut other;
            holder!(w, dims, ids; "View", v: make::<u32, S, L>(st, &buf), v, |x: &u32| *x);
            holder!(w, dims, ids; "&View", v: make::<u32, S, L>(st, &buf), &v, |x: &u32| *x);
            holder!(w, dims, ids; "&Slice", v: make::<u32, S, L>(st, &buf), &*v, |x: &u32| *x);
            holder!(w, dims, ids; "ViewMut", v: make_mut::<u32, S, L>(st, p), v, |x: &mut u32| *x);
            holder!(w, dims, ids; "&ViewMut", v: make_mut::<u32, S, L>(st, p), &v, |x: &u32| *x);
            holder!(w, dims, ids; "&mut ViewMut", v: make_mut::<u32, S, L>(st, p), &mut v, |x: &mut u32| *x);
            holder!(w, dims, ids; "&mut Slice", v: make_mut::<u32, S, L>(st, p), &mut *v, |x: &mut u32| *x);
            let t = || make::<u32, S, L>(st, &buf).to_tensor();
            holder!(w, dims, ids; "Tensor", v: t(), v, |x: u32| x);
            holder!(w, dims, ids; "&Tensor", v: t(), &v, |x: &u32| *x);
            holder!(w, dims, ids; "&mut Tensor", v: t(), &mut v, |x: &mut u32| *x);
            w.trace();
            Ok(())
        });
    }
}

fn arrays(w: &mut Worker) {
    macro_rules! array {
        ($(($($n:literal)*))*) => { $(
            w.case(|| format!("Array {} by every access", stringify!($($n)*)), |w| {
                let dims: &[usize] = &[$($n),*];
                let ids: Vec<u32> = (0..dims.iter().product::<usize>() as u32).collect();
                let a = || {
                    let mut k = 0;
                    Array::<u32, ($(Const<$n>,)*)>::from_fn(|_| { k += 1; k - 1 })
                };
                holder!(w, dims, &ids; "Array", v: a(), v, |x: u32| x);
                holder!(w, dims, &ids; "&Array", v: a(), &v, |x: &u32| *x);
                holder!(w, dims, &ids; "&mut Array", v: a(), &mut v, |x: &mut u32| *x);
                w.trace();
                Ok(())
            });
        )* };
    }
    w.state();
    array!(() (0) (1) (3) (40) (300) (2 3) (3 1) (0 2) (2 0) (9 12) (2 1 3) (3 4 2) (2 1 2 3) (2 1 2 1 3) (1 2 1 3 1 2));
}

/// Every kind of operand with every other.
fn combined(w: &mut Worker, a: &[usize], b: &[usize]) {
    w.state();
    let mut o = Out::<false>::new();
    macro_rules! two {
        ($a:ident $b:ident) => { g_two::<$a, $b, false>(&mut o, a, b) };
    }
    each_pair!(two; DenseDyn StridedDyn Dense0 Dense1 Strided2 MutDyn MutStrided LanesOuter LanesInner LanesOuterMut Lanes2 Parts PartsMut Function Elem Filled OwnedDyn Owned1 Mapped; (DenseDyn StridedDyn Dense0 Dense1 Strided2 MutDyn MutStrided LanesOuter LanesInner LanesOuterMut Lanes2 Parts PartsMut Function Elem Filled OwnedDyn Owned1 Mapped));
    o.cases.retain(|c| c.model.is_some());
    all(w, "", o.cases);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("states", if t { "rank 0-1: sizes 0..7; rank 2: 0..5; rank 3: 0..4 (strided 0..3); rank 4: dense 0..2, strided 1..2" } else { "rank 0-1: sizes 0..5; rank 2: 0..4 (strided 0..3); rank 3: 0..3 (strided 0..2); rank 4: 1..2" });
    ctx.bound("layouts", "dense, and strided with steps 1, -1, 2 per axis in all axis orders (rank 4: step -1, four orders)");
    ctx.bound("shape types", "Rank<0..3>, DynRank (ranks 0-4), 11 shape types with constant sizes");
    ctx.bound("expressions", "views, mutable views, adapters, zipped (broadcast to every lower rank), axis and lane expressions, from_fn, from_elem, fill, consuming expressions");
    ctx.bound("consumption", "every switch point between single steps, internal iteration, skipping, cloning and after the end");

    ctx.bound("access", "views, slices, tensors and arrays by value, shared and mutable reference, as iterators and as expressions");

    let mut states = dense_states(0, 1);
    states.push(St { dense: false, ..St::dense(&[]) });
    for (rank, n, m) in [(1, if t { 8 } else { 6 }, if t { 8 } else { 6 }), (2, if t { 6 } else { 5 }, if t { 5 } else { 4 }), (3, if t { 5 } else { 4 }, if t { 4 } else { 3 })] {
        states.extend(dense_states(rank, n));
        let steps: &[isize] = if rank < 3 || t { &[1, -1, 2] } else { &[1, -1] };
        states.extend(strided_states(rank, m, steps, &[0]));
    }
    states.extend(if t { dense_states(4, 3) } else { small_dims(4, 2).iter().map(|d| St::dense(d)).collect() });
    states.extend(strided_from(4, &small_dims(4, 1), &[-1], &[0], &few_permutations(4)));
    states.extend([vec![0, 2, 2, 2], vec![2, 0, 2, 2], vec![2, 2, 2, 0]].iter().map(|d| St::dense(d)));

    ctx.bound("long axes", "rank 1-3: size 5 (7 in rank 1) in every position, and sizes 2, 3, .. in both orders");
    states.extend((1..=3).flat_map(long_states).filter(|s| s.sem().len() <= 24));
    ctx.bound("large", "17 to 54 elements (130 thorough), shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    states.extend((1..=3).flat_map(large_states).filter(|s| t || s.sem().len() <= 54));

    ctx.bound("huge", "300 to 1200 elements in 6 shapes, dense and strided: switch points at and next to 0, 64, 128, half and all of the elements");
    states.extend((1..=3).flat_map(huge_states));

    ctx.bound("combinations", "all ordered pairs of 19 kinds of operands with all ordered pairs of 22 shapes");
    let kinds = shapes();
    ctx.par(&kinds, |w, a| kinds.iter().for_each(|b| combined(w, a, b)));

    ctx.par(&states, |w, st| {
        w.state();
        if st.dense {
            each_low::<Dense>(&st.dims, &mut Go(w, st));
            each_low::<Dense>(&st.dims, &mut Source(w, st));
            each_low::<Dense>(&st.dims, &mut Holders(w, st));
            each_static_few::<Dense>(&st.dims, &mut Fixed(w, st));
        } else {
            each_low::<Strided>(&st.dims, &mut Go(w, st));
            each_low::<Strided>(&st.dims, &mut Holders(w, st));
            each_static_few::<Strided>(&st.dims, &mut Fixed(w, st));
        }
    });
    ctx.one(|w| {
        w.state();
        let mut o = Out::<false>::new();
        g_scalar(&mut o);
        all(w, "scalar", o.cases);
        arrays(w);
    });
}

fn main() {
    run(check)
}
