//! C21: lazy expressions evaluate each element once, in order, with the right inputs.
use std::cell::Cell;

use mc::engine::{Check, Ctx, Worker, main as run};
use mc::model::{Lay, St, all_dims, dense_states, few_permutations, huge_states, large_states, long_states, make, make_mut, positions, product, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each_low, each_static_few};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::index::Cols;
use mdarray::{Array, Const, ConstShape, Dense, DynRank, Rank, Shape, Slice, Strided, Tensor, ViewMut};

#[path = "../exprs.rs"]
mod exprs;
use exprs::*;
#[path = "../grammar.rs"]
mod grammar;
use grammar::*;

/// The closure calls are those of the elements in `range`, grouped by element in order.
fn calls(m: &M, range: std::ops::Range<usize>, what: &str) -> Check {
    let log = take_log();
    let want = m.events(range.clone());
    let got = normalize(log, m, range.start);
    ensure!(got == want, "{what}: {} closure calls, expected {} (or other arguments or order)", got.len(), want.len());
    Ok(())
}

fn marker(t: u64) -> u64 {
    mix(23, t)
}

/// The closure calls of every element are followed by the call of the consumer with the item.
fn consumed(m: &M, what: &str) -> Check {
    let log = take_log();
    let mut rest = &log[..];
    for (n, (t, e)) in m.items.iter().enumerate() {
        ensure!(rest.len() > e.len(), "{what}: calls for element {n} are missing");
        let (mut got, mut want) = (rest[..e.len()].to_vec(), e.clone());
        got.sort();
        want.sort();
        ensure!(got == want, "{what}: other closure calls for element {n}");
        ensure!(rest[e.len()] == marker(*t), "{what}: wrong item or order at element {n}");
        rest = &rest[e.len() + 1..];
    }
    ensure!(rest.is_empty(), "{what}: {} additional closure calls", rest.len());
    Ok(())
}

fn expression(w: &mut Worker, c: &Case) -> Check {
    let Some(m) = &c.model else {
        return Ok(());
    };
    take_log();
    let want = m.tokens();
    let n = want.len();
    let make = || (c.make)().ok_or("expression panics");
    let e = make()?;
    calls(m, 0..0, "building the expression")?;
    ensure_eq!(e.dims(), m.dims, "dimensions");
    drop(e);
    calls(m, 0..0, "dropping the expression")?;

    for k in positions(n) {
        w.step();
        let mut i = make()?.iter();
        calls(m, 0..0, "starting to iterate")?;
        for j in 0..k {
            ensure!(i.next() == Some(want[j]), "item {j} is wrong");
            calls(m, j..j + 1, "one step")?;
        }
        if k == n {
            ensure!(i.next().is_none(), "too many items");
            calls(m, 0..0, "a step at the end")?;
        }
        drop(i);
        calls(m, 0..0, "dropping the iterator")?;

        w.step();
        let mut i = make()?.iter();
        for _ in 0..k {
            i.next();
        }
        take_log();
        i.fold(&mut |_| ());
        calls(m, k..n, "fold of the rest")?;
    }

    w.steps(5);
    make()?.for_each(&mut |x| log(marker(x)));
    consumed(m, "for_each")?;
    make()?.iter().fold(&mut |x| log(marker(x)));
    consumed(m, "Iterator::fold")?;
    ensure!(make()?.fold() == want, "items by fold()");
    calls(m, 0..n, "fold")?;

    let got = make()?.eval();
    ensure_eq!(got.0, m.dims, "dimensions of the evaluated array");
    ensure!(got.1 == want, "elements of the evaluated array");
    calls(m, 0..n, "eval")?;
    if !m.dims.is_empty() {
        let got = make()?.eval_dyn();
        if n > 0 {
            ensure_eq!(got.0, m.dims, "dimensions after eval_into() a new array");
        }
        ensure!(got.1 == want, "elements after eval_into() a new array");
        calls(m, 0..n, "eval_into")?;
        let got = (c.twice)();
        if n > 0 {
            let mut dims = m.dims.clone();
            dims[0] *= 2;
            ensure_eq!(got.0, dims, "dimensions after eval_into() twice");
        }
        ensure!(got.1 == [&want[..], &want[..]].concat(), "elements after eval_into() twice");
        take_log();
    }
    w.outcome(&want);
    w.trace();
    Ok(())
}

fn all(w: &mut Worker, what: &str, cases: Vec<Case>) {
    for c in &cases {
        w.case(|| format!("{what} {}", c.name), |w| expression(w, c));
        clear_arena();
    }
}

struct Views<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Views<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let rank = st.dims.len();
        let mut o = Out::<true>::new();
        g_view::<S, L, true>(&mut o, st);
        g_zip_fill::<S, L, true>(&mut o, st);
        for r in 0..=rank {
            let tail = St { dense: false, ..St::dense(&st.dims[rank - r..]) };
            g_zip::<S, L, DynRank, Strided, true>(&mut o, st, &tail);
            g_zip_source::<S, L, DynRank, true>(&mut o, st, &tail.dims);
        }
        for k in 0..rank {
            g_axis_more::<S, L, usize, true>(&mut o, st, k, k, &k.to_string());
        }
        if rank > 1 {
            if const { S::RANK.is_none() || S::RANK.unwrap() > 1 } {
                g_axis_more::<S, L, _, true>(&mut o, st, Cols, rank - 2, "Cols");
            }
        }
        all(self.0, &format!("{name} {}", st.name()), o.cases);
        self.0.case(|| format!("{name} {} operations", st.name()), |w| view_operations::<S, L>(w, st));
    }
}

/// Closures of operations on views.
fn view_operations<S: Shape, L: Lay>(w: &mut Worker, st: &St) -> Check {
    let sem = st.sem();
    let n = sem.len();
    let m = M::of(&sem);
    take_log();
    w.steps(7);

    let mut buf = st.buffer();
    let mut k = 0;
    make_mut::<u32, S, L>(st, &mut buf).fill_with(|| {
        k += 1;
        5000 + k
    });
    ensure_eq!(k as usize, n, "calls of fill_with()");
    let mut want = st.buffer();
    for (p, &id) in sem.ids.iter().enumerate() {
        want[id as usize] = 5001 + p as u32;
    }
    ensure_eq!(buf, want, "elements after fill_with()");

    let mut buf = st.buffer();
    make_mut::<u32, S, L>(st, &mut buf).assign(expr::from_fn(&st.dims[..], |i: &[usize]| {
        index_fn(i);
        5001 + mc::model::indices(&st.dims).iter().position(|x| x == i).unwrap() as u32
    }));
    calls(&m_from_fn(&st.dims), 0..n, "assign(from_fn)")?;
    ensure_eq!(buf, want, "elements after assign(from_fn)");

    let buf = st.buffer();
    let v = make::<u32, S, L>(st, &buf);
    let e = (&v).apply(mapper);
    calls(&m, 0..0, "building apply()")?;
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, m.clone().mapped().tokens(), "items of apply()");
    calls(&m.clone().mapped(), 0..n, "apply()")?;

    let e = (&v).zip_with(expr::from_fn(&st.dims[..], index_fn), mapper);
    calls(&m, 0..0, "building zip_with()")?;
    let z = m.zip(&m_from_fn(&st.dims)).unwrap().mapped();
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, z.tokens(), "items of zip_with()");
    calls(&z, 0..n, "zip_with()")?;

    // Functions that take anything convertible to an expression.
    let mut got = vec![];
    expr::for_each(expr::map(&v, mapper), |x| got.push(x));
    ensure_eq!(got, m.clone().mapped().tokens(), "items of expr::for_each()");
    calls(&m.clone().mapped(), 0..n, "expr::for_each()")?;
    let got = expr::fold(expr::enumerate(&v), vec![], |mut v, x| {
        v.push(x.tok());
        v
    });
    ensure_eq!(got, m.clone().enumerate().tokens(), "items of expr::fold()");

    let mut buf = st.buffer();
    let mut v = make_mut::<u32, S, L>(st, &mut buf);
    let count = Cell::new(0);
    let e = (&mut v).apply(|x: &mut u32| {
        count.set(count.get() + 1);
        *x += 1;
        *x
    });
    ensure_eq!(count.get(), 0, "calls before evaluation of apply() on a mutable view");
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, sem.ids.iter().map(|x| x + 1).collect::<Vec<_>>(), "items of apply() on a mutable view");

    // Functions of mutably borrowed views and slices with another operand.
    fn both((x, y): (&mut u32, u64)) -> u64 {
        let r = mapper((*x, y));
        *x += 1_000;
        r
    }
    for slice in [false, true] {
        let mut buf = st.buffer();
        let mut v = make_mut::<u32, S, L>(st, &mut buf);
        let e = expr::from_fn(&st.dims[..], index_fn);
        take_log();
        let mut got = vec![];
        if slice {
            let e = v.as_mut_slice_ref().zip_with(e, both);
            calls(&z, 0..0, "building zip_with() on a mutable slice")?;
            e.into_expr().for_each(|x| got.push(x));
        } else {
            let e = (&mut v).zip_with(e, both);
            calls(&z, 0..0, "building zip_with() on a mutable view")?;
            e.into_expr().for_each(|x| got.push(x));
        }
        ensure_eq!(got, z.tokens(), "items of zip_with() on a mutable view or slice");
        calls(&z, 0..n, "zip_with() on a mutable view or slice")?;
        let mut want = st.buffer();
        sem.ids.iter().for_each(|&i| want[i as usize] += 1_000);
        ensure_eq!(buf, want, "elements after zip_with() on a mutable view or slice");
    }
    let mut buf = st.buffer();
    let mut v = make_mut::<u32, S, L>(st, &mut buf);
    let mut got = vec![];
    v.as_mut_slice_ref().apply(|x: &mut u32| mapper(*x)).into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, m.clone().mapped().tokens(), "items of apply() on a mutable slice");
    calls(&m.clone().mapped(), 0..n, "apply() on a mutable slice")?;
    let mut got = vec![];
    v.as_slice_ref().apply(mapper).into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, m.clone().mapped().tokens(), "items of apply() on a slice");
    take_log();
    clones::<S, L>(w, st)?;
    w.trace();
    Ok(())
}

trait AsSlice {
    type Slice: ?Sized;
    fn as_slice_ref(&self) -> &Self::Slice;
    fn as_mut_slice_ref(&mut self) -> &mut Self::Slice;
}

impl<T, S: Shape, L: mdarray::Layout> AsSlice for ViewMut<'_, T, S, L> {
    type Slice = Slice<T, S, L>;
    fn as_slice_ref(&self) -> &Self::Slice {
        self
    }
    fn as_mut_slice_ref(&mut self) -> &mut Self::Slice {
        self
    }
}

/// Element that records when it is cloned.
struct Loud(u32);

impl Clone for Loud {
    fn clone(&self) -> Self {
        log(self.0 as u64);
        Loud(self.0)
    }
}

/// Each element is cloned once, in order, when it is asked for.
fn clones<S: Shape, L: Lay>(w: &mut Worker, st: &St) -> Check {
    let sem = st.sem();
    let n = sem.len();
    let buf: Vec<Loud> = (0..st.len as u32).map(Loud).collect();
    let v = make::<Loud, S, L>(st, &buf);
    let ids: Vec<u64> = sem.ids.iter().map(|&x| x as u64).collect();
    let labels = |x: &[Loud]| x.iter().map(|x| x.0 as u64).collect::<Vec<_>>();
    take_log();
    macro_rules! once {
        ($what:literal, $x:expr) => {
            w.step();
            let t = $x;
            ensure!(take_log() == ids, "{}: not every element is cloned once in order", $what);
            ensure!(labels(&t) == ids, "{}: other elements", $what);
        };
    }
    once!("expr().cloned().eval()", Tensor::<Loud, S>::from_expr(v.expr().cloned()).into_vec());
    once!("expr::cloned().eval()", Tensor::<Loud, S>::from_expr(expr::cloned(&v)).into_vec());
    once!("to_tensor()", v.to_tensor().into_vec());
    once!("iter().cloned()", v.iter().cloned().collect::<Vec<_>>());
    once!("cloned() and iteration", v.expr().cloned().into_iter().collect::<Vec<_>>());
    once!("cloned() with a zip", Tensor::<Loud, _>::from_expr(v.expr().cloned().zip(&v).map(|(x, _)| x)).into_vec());
    for k in positions(n) {
        w.step();
        let mut i = v.expr().cloned().into_iter();
        i.by_ref().take(k).for_each(drop);
        ensure!(take_log() == ids[..k], "cloned() and {k} steps: other clones");
        i.for_each(drop);
        ensure!(take_log() == ids[k..], "cloned(), {k} steps and for_each(): other clones");
    }
    let mut t = v.to_tensor();
    take_log();
    let mut u = make::<Loud, S, L>(st, &buf).to_tensor();
    take_log();
    u.assign(&v);
    ensure!(take_log() == ids, "assign(): not every element is cloned once in order");
    if n > 0 && !sem.dims.is_empty() && S::RANK.is_none_or(|_| S::default().len() == 0) {
        t.expand(&v);
        ensure!(take_log() == ids, "expand(): not every element is cloned once in order");
    }
    Ok(())
}

struct Owned<'a, 'b, 'c>(&'a mut Worker<'b>, &'c [usize]);

impl Visitor for Owned<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let dims = self.1;
        let mut o = Out::<true>::new();
        g_source::<S, true>(&mut o, dims);
        all(self.0, &format!("{name} {dims:?}"), o.cases);
        self.0.case(|| format!("{name} {dims:?} operations"), |w| tensor_operations::<S>(w, dims));
    }
}

fn contents<T: Tok, S: Shape>(s: &Slice<T, S>) -> (Vec<usize>, Vec<u64>) {
    ((0..s.rank()).map(|i| s.dim(i)).collect(), s.iter().map(|x| x.tok()).collect())
}

/// Closures of operations on tensors.
fn tensor_operations<S: Shape + 'static>(w: &mut Worker, dims: &[usize]) -> Check {
    let n = product(dims);
    let m = m_from_fn(dims);
    let shape = || S::from_dims(dims);
    let values = |m: &M| (m.dims.clone(), m.tokens());
    take_log();
    w.steps(9);

    let t = Tensor::<u64, S>::from_fn(shape(), index_fn);
    calls(&m, 0..n, "Tensor::from_fn")?;
    ensure_eq!(contents(&t), values(&m), "Tensor::from_fn");
    let u = <Tensor<u64, S> as FromExpression<u64, S>>::from_expr(expr::from_fn(shape(), index_fn));
    calls(&m, 0..n, "Tensor::from_expr(from_fn)")?;
    ensure_eq!(contents(&u), values(&m), "Tensor::from_expr(from_fn)");

    // The elements themselves are inputs from here on.
    let i = M { items: m.items.iter().map(|x| (x.0, vec![])).collect(), ..m.clone() };
    let u = t.clone().map(mapper);
    calls(&i.clone().mapped(), 0..n, "Tensor::map")?;
    ensure_eq!(contents(&u), values(&i.clone().mapped()), "Tensor::map");
    let u = Apply::apply(t.clone(), mapper);
    calls(&i.clone().mapped(), 0..n, "Tensor::apply")?;
    ensure_eq!(contents(&u), values(&i.clone().mapped()), "Tensor::apply");
    let z = i.zip(&m).unwrap().mapped();
    let u = Apply::zip_with(t.clone(), expr::from_fn(shape(), index_fn), mapper);
    calls(&z, 0..n, "Tensor::zip_with")?;
    ensure_eq!(contents(&u), values(&z), "Tensor::zip_with");
    let e = (&t).apply(mapper);
    calls(&m, 0..0, "building apply() of a borrowed tensor")?;
    ensure_eq!(contents(&Tensor::<u64, S>::from_expr(e)), values(&i.clone().mapped()), "apply() of a borrowed tensor");
    calls(&i.clone().mapped(), 0..n, "apply() of a borrowed tensor")?;
    let e = (&t).zip_with(expr::from_fn(shape(), index_fn), mapper);
    calls(&m, 0..0, "building zip_with() of a borrowed tensor")?;
    let mut got = vec![];
    for x in e {
        got.push(x);
    }
    ensure_eq!(got, z.tokens(), "zip_with() of a borrowed tensor");
    calls(&z, 0..n, "zip_with() of a borrowed tensor")?;
    let mut u = t.clone();
    let e = (&mut u).apply(|x: &mut u64| mapper(*x));
    calls(&m, 0..0, "building apply() of a mutably borrowed tensor")?;
    let mut got = vec![];
    for x in e {
        got.push(x);
    }
    ensure_eq!(got, i.clone().mapped().tokens(), "apply() of a mutably borrowed tensor");
    calls(&i.clone().mapped(), 0..n, "apply() of a mutably borrowed tensor")?;

    let mut u = t.clone();
    let e = (&mut u).zip_with(expr::from_fn(shape(), index_fn), |(x, y): (&mut u64, u64)| mapper((*x, y)));
    calls(&m, 0..0, "building zip_with() of a mutably borrowed tensor")?;
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, z.tokens(), "zip_with() of a mutably borrowed tensor");
    calls(&z, 0..n, "zip_with() of a mutably borrowed tensor")?;

    // Evaluation into an array that has elements.
    if !dims.is_empty() && n > 0 && S::RANK.is_none_or(|_| S::default().len() == 0) {
        let mut u = t.clone().into_mapping::<DynRank>();
        expr::from_fn(dims, index_fn).map(mapper).eval_into(&mut u);
        calls(&m.clone().mapped(), 0..n, "eval_into() of an array with elements")?;
        let mut d = dims.to_vec();
        d[0] *= 2;
        ensure_eq!(contents(&u), (d.clone(), [m.tokens(), m.clone().mapped().tokens()].concat()), "eval_into() of an array with elements");
        u.expand(&t);
        d[0] += dims[0];
        ensure_eq!(contents(&u), (d, [m.tokens(), m.clone().mapped().tokens(), m.tokens()].concat()), "expand() of an array with elements");
        take_log();
    }
    w.trace();
    Ok(())
}

/// Closures of operations on arrays of constant size.
fn array_operations<S: ConstShape>(w: &mut Worker) -> Check
where
    Array<u64, S>: Clone,
{
    let shape = S::default();
    let dims: Vec<usize> = (0..shape.rank()).map(|i| shape.dim(i)).collect();
    let n = product(&dims);
    let m = m_from_fn(&dims);
    take_log();
    w.steps(6);
    let values = |m: &M| (m.dims.clone(), m.tokens());

    let a = Array::<u64, S>::from_fn(index_fn);
    calls(&m, 0..n, "Array::from_fn")?;
    ensure_eq!(contents(&a), values(&m), "Array::from_fn");
    let b = <Array<u64, S> as FromExpression<u64, S>>::from_expr(expr::from_fn(S::default(), index_fn).map(mapper));
    calls(&m.clone().mapped(), 0..n, "Array::from_expr")?;
    ensure_eq!(contents(&b), values(&m.clone().mapped()), "Array::from_expr");
    let i = M { items: m.items.iter().map(|x| (x.0, vec![])).collect(), ..m.clone() };
    let b = a.clone().map(mapper);
    calls(&i.clone().mapped(), 0..n, "Array::map")?;
    ensure_eq!(contents(&b), values(&i.clone().mapped()), "Array::map");
    let b = Apply::<u64>::apply(a.clone(), mapper);
    calls(&i.clone().mapped(), 0..n, "Array::apply")?;
    ensure_eq!(contents(&b), values(&i.clone().mapped()), "Array::apply");
    let z = i.zip(&m).unwrap().mapped();
    let b = Apply::<u64>::zip_with(a.clone(), expr::from_fn(S::default(), index_fn), mapper);
    calls(&z, 0..n, "Array::zip_with")?;
    ensure_eq!(contents(&b), values(&z), "Array::zip_with");
    let e = (&a).apply(mapper);
    calls(&m, 0..0, "building apply() of a borrowed array")?;
    ensure_eq!(contents(&Array::<u64, S>::from_expr(e)), values(&i.clone().mapped()), "apply() of a borrowed array");
    calls(&i.clone().mapped(), 0..n, "apply() of a borrowed array")?;
    let e = (&a).zip_with(expr::from_fn(S::default(), index_fn), mapper);
    calls(&m, 0..0, "building zip_with() of a borrowed array")?;
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, z.tokens(), "zip_with() of a borrowed array");
    calls(&z, 0..n, "zip_with() of a borrowed array")?;
    let mut b = a.clone();
    let e = (&mut b).zip_with(expr::from_fn(S::default(), index_fn), |(x, y): (&mut u64, u64)| mapper((*x, y)));
    calls(&m, 0..0, "building zip_with() of a mutably borrowed array")?;
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, z.tokens(), "zip_with() of a mutably borrowed array");
    calls(&z, 0..n, "zip_with() of a mutably borrowed array")?;
    let e = (&mut b).apply(|x: &mut u64| mapper(*x));
    calls(&m, 0..0, "building apply() of a mutably borrowed array")?;
    let mut got = vec![];
    e.into_expr().for_each(|x| got.push(x));
    ensure_eq!(got, i.clone().mapped().tokens(), "apply() of a mutably borrowed array");
    calls(&i.clone().mapped(), 0..n, "apply() of a mutably borrowed array")?;
    w.trace();
    Ok(())
}

/// Kinds of operands combined with one another.
fn combined(w: &mut Worker, a: &[usize], b: &[usize]) {
    w.state();
    let mut o = Out::<true>::new();
    macro_rules! two {
        ($a:ident $b:ident) => { g_two::<$a, $b, true>(&mut o, a, b) };
    }
    each_pair!(two; DenseDyn StridedDyn Dense0 MutStrided LanesOuter Function Filled OwnedDyn Mapped; (DenseDyn StridedDyn Dense0 MutStrided LanesOuter Function Filled OwnedDyn Mapped));
    all(w, "", o.cases);
}

type C<const N: usize> = Const<N>;

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("states", if t { "rank 0-1: sizes 0..6; rank 2: 0..5 (strided 0..3); rank 3: 0..3; rank 4: 1..2" } else { "rank 0-1: sizes 0..4; rank 2: 0..3; rank 3: dense 0..3, strided 0..2; rank 4: 1..2" });
    ctx.bound("expressions", "views, adapters (map, enumerate, cloned, copied, zip with every broadcast operand), sources, consuming expressions, axis and lane expressions, and compositions of them");
    ctx.bound("consumers", "iteration with drop after every number of steps, fold after every number of steps, for_each, fold, eval, eval_into new and existing arrays; constructors, map, apply, zip_with, assign, fill_with");

    let mut states = dense_states(0, 1);
    states.push(St { dense: false, ..St::dense(&[]) });
    for (rank, n, m) in [(1, if t { 7 } else { 5 }, if t { 7 } else { 5 }), (2, if t { 6 } else { 4 }, 4), (3, 4, if t { 4 } else { 3 })] {
        states.extend(dense_states(rank, n));
        let steps: &[isize] = if rank < 3 || t { &[1, -1, 2] } else { &[-1] };
        states.extend(strided_states(rank, m, steps, &[0]));
    }
    states.extend(small_dims(4, 2).iter().map(|d| St::dense(d)));
    states.extend(strided_from(4, &small_dims(4, 1), &[-1], &[0], &few_permutations(4)));

    ctx.bound("long axes", "rank 1-4: size 5 (7 in rank 1) in every position, and sizes 2, 3, .. in both orders");
    states.extend((1..=4).flat_map(long_states).filter(|s| s.sem().len() <= 40));
    ctx.bound("large", "17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    states.extend((1..=4).flat_map(large_states));
    ctx.bound("huge", "300 to 1200 elements in 6 shapes, dense and strided");
    states.extend((1..=3).flat_map(huge_states));

    ctx.par(&states, |w, st| {
        w.state();
        if st.dense {
            each_low::<Dense>(&st.dims, &mut Views(w, st));
        } else {
            each_low::<Strided>(&st.dims, &mut Views(w, st));
        }
    });

    ctx.bound("combinations", "all ordered pairs of 9 kinds of operands with all ordered pairs of 22 shapes of rank 0-3");
    let kinds = shapes();
    ctx.par(&kinds, |w, a| kinds.iter().for_each(|b| combined(w, a, b)));

    let mut dims: Vec<Vec<usize>> = (0..=3).flat_map(|r| all_dims(r, if t && r < 3 { 6 } else { 4 })).collect();
    dims.extend(small_dims(4, 4));
    dims.extend([&[40][..], &[300], &[700], &[9, 12], &[30, 22], &[300, 2], &[8, 9, 10]].iter().map(|d| d.to_vec()));
    ctx.par(&dims, |w, d| {
        w.state();
        each_low::<Dense>(d, &mut Owned(w, d));
        each_static_few::<Dense>(d, &mut Owned(w, d));
    });

    ctx.one(|w| {
        w.state();
        let mut o = Out::<true>::new();
        g_scalar(&mut o);
        all(w, "scalar", o.cases);
        macro_rules! arrays {
            ($($t:ty),*) => { $(w.case(|| concat!("Array ", stringify!($t)).into(), |w| array_operations::<$t>(w));)* };
        }
        arrays!((), (C<0>,), (C<1>,), (C<3>,), (C<2>, C<3>), (C<3>, C<1>), (C<0>, C<2>), (C<2>, C<0>), (C<2>, C<3>, C<2>), (C<1>, C<2>, C<3>, C<2>), (C<2>, C<1>, C<2>, C<1>, C<2>), (C<2>, C<1>, C<2>, C<2>, C<1>, C<2>));
        let _ = Rank::<0>::default();
    });
}

fn main() {
    run(check)
}
