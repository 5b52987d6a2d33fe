//! C08: broadcasting pairs elements by matching trailing dimensions or refuses.
use mc::engine::{Check, Ctx, Worker, attempt, main as run};
use mc::model::{Lay, St, all_dims, make, make_mut, product, strided_from};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Apply, Expression, IntoExpression};
use mdarray::{Array, Const, Dense, Dim, Dyn, DynRank, Rank, Shape, Slice, Strided, Tensor, View};

#[path = "../exprs.rs"]
mod exprs;
use exprs::*;
#[path = "../grammar.rs"]
mod grammar;
use grammar::*;

/// Items and shape, however the expression is evaluated.
fn expression(w: &mut Worker, c: &Case) -> Check {
    w.step();
    let Some(m) = &c.model else {
        ensure!((c.make)().is_none(), "operands that cannot be combined are not refused");
        w.count("refused");
        return Ok(());
    };
    let want = m.tokens();
    let make = || (c.make)().ok_or("operands that can be combined are refused");
    let e = make()?;
    ensure_eq!(e.dims(), m.dims, "dimensions");
    let mut i = e.iter();
    let mut got = vec![];
    while let Some(x) = i.next() {
        got.push(x);
        ensure!(got.len() <= want.len(), "too many items");
    }
    ensure!(got == want, "items by iteration are other pairs");
    let mut got = vec![];
    make()?.for_each(&mut |x| got.push(x));
    ensure!(got == want, "items by for_each() are other pairs");
    ensure!(make()?.fold() == want, "items by fold() are other pairs");
    ensure!(make()?.eval() == (m.dims.clone(), want.clone()), "evaluated array differs");
    take_log();
    w.outcome(&want);
    w.trace();
    Ok(())
}

fn all(w: &mut Worker, what: &str, cases: Vec<Case>) {
    for c in &cases {
        w.case(|| format!("{what} {}", c.name), |w| expression(w, c));
        clear_arena();
    }
}

fn contents<S: Shape>(s: &Slice<u32, S>) -> (Vec<usize>, Vec<u32>) {
    ((0..s.rank()).map(|i| s.dim(i)).collect(), s.iter().copied().collect())
}

const SECOND: u32 = 100_000;

/// Pairs of element values and the dimensions, or `None` if refused.
fn pairs(a: &St, b: &St, once: (bool, bool)) -> Option<(Vec<usize>, Vec<(u32, u32)>)> {
    let (n, m) = (a.dims.len(), b.dims.len());
    if (once.0 && n < m) || (once.1 && m < n) {
        return None;
    }
    let k = n.min(m);
    if a.dims[n - k..] != b.dims[m - k..] {
        return None;
    }
    let dims = if n < m { &b.dims } else { &a.dims };
    let (x, y) = (a.sem(), b.sem());
    // By trailing indices.
    let items = mc::model::indices(dims).iter().map(|i| (x.at(&i[i.len() - n..]), y.at(&i[i.len() - m..]) + SECOND)).collect();
    Some((dims.clone(), items))
}

/// A buffer of elements with a value that tells both operands.
fn both(x: u32, y: u32) -> u32 {
    x.wrapping_mul(1000).wrapping_add(y)
}

/// An operation that combines two operands.
type Combine<'a> = &'a dyn Fn() -> (Vec<usize>, Vec<u32>);

fn combine(w: &mut Worker, what: &str, want: &Option<(Vec<usize>, Vec<(u32, u32)>)>, f: Combine) -> Check {
    w.step();
    match (attempt(f), want) {
        (None, None) => {
            w.count("refused");
            Ok(())
        }
        (Some(_), None) => Err(format!("{what}: not refused")),
        (None, Some(_)) => Err(format!("{what}: refused")),
        (Some(got), Some((dims, items))) => {
            let items: Vec<u32> = items.iter().map(|&(x, y)| both(x, y)).collect();
            ensure_eq!(got, (dims.clone(), items), "{what}");
            w.trace();
            Ok(())
        }
    }
}

/// Assign to all elements of a view; the buffer after it.
fn assigned(w: &mut Worker, what: &str, a: &St, want: &Option<(Vec<usize>, Vec<(u32, u32)>)>, g: fn(u32, u32) -> u32, f: &dyn Fn(&mut [u32])) -> Check {
    w.step();
    let mut buf = a.buffer();
    let done = attempt(|| f(&mut buf)).is_some();
    let mut expected = a.buffer();
    ensure_eq!(done, want.is_some(), "{what}: accepted");
    if let Some((_, items)) = want {
        for &(x, y) in items {
            expected[x as usize] = g(x, y);
        }
        w.trace();
    }
    ensure_eq!(buf, expected, "{what}: elements afterwards");
    Ok(())
}

fn owned<S: Shape>(dims: &[usize], offset: u32) -> Tensor<u32, S> {
    let n = product(dims) as u32;
    Tensor::<u32, Rank<1>>::from((offset..offset + n).collect::<Vec<_>>()).into_shape(dims).into_mapping()
}

/// Assignment, compound assignment, operators and `zip_with`.
fn operations<S: Shape, L: Lay, R: Shape, K: Lay>(w: &mut Worker, a: &St, b: &St) -> Check
where
    for<'x> View<'x, u32, S, L>: Clone,
{
    let x = a.buffer();
    let y: Vec<u32> = b.buffer().iter().map(|x| x + SECOND).collect();
    let va = || make::<u32, S, L>(a, &x);
    let vb = || make::<u32, R, K>(b, &y);

    let want = pairs(a, b, (true, false));
    assigned(w, "assign(view)", a, &want, |_, y| y, &|buf| make_mut::<u32, S, L>(a, buf).assign(vb()))?;
    assigned(w, "assign(&view)", a, &want, |_, y| y, &|buf| make_mut::<u32, S, L>(a, buf).assign(&vb()))?;
    assigned(w, "assign(map)", a, &want, |_, y| y + 1, &|buf| make_mut::<u32, S, L>(a, buf).assign(vb().map(|x| x + 1)))?;
    assigned(w, "+= view", a, &want, |x, y| x + y, &|buf| {
        let mut v = make_mut::<u32, S, L>(a, buf);
        v += vb();
    })?;
    assigned(w, "view_mut.zip(view).for_each", a, &want, both, &|buf| make_mut::<u32, S, L>(a, buf).zip(vb()).for_each(|(x, y)| *x = both(*x, *y)))?;

    let want = pairs(a, b, (false, false));
    combine(w, "view.zip_with(view)", &want, &|| contents::<DynRank>(&Tensor::<u32, DynRank>::from(to_dyn(va().zip_with(vb(), |(x, y)| both(*x, *y))))))?;
    combine(w, "&view.zip_with(&view)", &want, &|| {
        let (va, vb) = (va(), vb());
        contents::<DynRank>(&to_dyn((&va).zip_with(&vb, |(x, y)| both(*x, *y))))
    })?;
    let sum: Option<(Vec<usize>, Vec<(u32, u32)>)> = want.clone();
    combine(w, "(map of view) + view", &sum, &|| contents::<DynRank>(&to_dyn(va().map(|x| x.wrapping_mul(1000)) + vb())))?;
    combine(w, "view + (map of view)", &sum, &|| contents::<DynRank>(&to_dyn(vb() + va().map(|x| x.wrapping_mul(1000)))))?;

    // By value, in both positions.
    let da = St::dense(&a.dims);
    let db = St::dense(&b.dims);
    let want = pairs(&da, b, (true, false));
    combine(w, "tensor.zip_with(view)", &want, &|| contents(&owned::<S>(&a.dims, 0).zip_with(vb(), |(x, y)| both(x, *y))))?;
    let want = pairs(&da, &db, (true, true));
    combine(w, "tensor.zip_with(tensor)", &want, &|| contents(&owned::<S>(&a.dims, 0).zip_with(owned::<R>(&b.dims, SECOND), |(x, y)| both(x, y))))?;
    let want = pairs(a, &db, (false, true));
    combine(w, "view.zip_with(tensor)", &want, &|| contents::<DynRank>(&to_dyn(va().zip_with(owned::<R>(&b.dims, SECOND), |(x, y)| both(*x, y)))))?;
    let want = pairs(a, &db, (true, true));
    assigned(w, "assign(tensor)", a, &want, |_, y| y, &|buf| make_mut::<u32, S, L>(a, buf).assign(owned::<R>(&b.dims, SECOND)))?;
    assigned(w, "+= tensor", a, &want, |x, y| x + y, &|buf| {
        let mut v = make_mut::<u32, S, L>(a, buf);
        *v += owned::<R>(&b.dims, SECOND);
    })?;
    // The operators on owned and borrowed tensors, with the left elements as thousands.
    let wide = || owned::<S>(&a.dims, 0).map(|x: u32| x.wrapping_mul(1000));
    let other = || owned::<R>(&b.dims, SECOND);
    let want = pairs(&da, b, (true, false));
    combine(w, "tensor + view", &want, &|| contents(&(wide() + vb())))?;
    combine(w, "tensor += view", &want, &|| {
        let mut t = wide();
        t += vb();
        contents(&t)
    })?;
    let want = pairs(&da, &db, (true, true));
    combine(w, "tensor + tensor", &want, &|| contents(&(wide() + other())))?;
    combine(w, "tensor += tensor", &want, &|| {
        let mut t = wide();
        t += other();
        contents(&t)
    })?;
    let want = pairs(&da, &db, (true, false));
    combine(w, "tensor + &tensor", &want, &|| contents(&(wide() + &other())))?;
    combine(w, "tensor += &tensor", &want, &|| {
        let mut t = wide();
        t += &other();
        contents(&t)
    })?;
    let want = pairs(&da, &db, (false, true));
    combine(w, "&tensor + tensor", &want, &|| contents::<DynRank>(&to_dyn(&wide() + other())))?;
    let want = pairs(&da, &db, (false, false));
    combine(w, "&tensor + &tensor", &want, &|| contents::<DynRank>(&to_dyn(&wide() + &other())))?;
    let want = pairs(&da, b, (true, false));
    combine(w, "tensor.assign(view)", &want.clone().map(|(d, v)| (d, v.into_iter().map(|(_, y)| (0, y)).collect())), &|| {
        let mut t = owned::<S>(&a.dims, 0);
        t.assign(vb());
        contents(&t)
    })
}

/// Evaluate into a tensor of dynamic rank.
fn to_dyn<E: IntoExpression<Item = u32>>(e: E) -> Tensor<u32, DynRank> {
    let e = e.into_expr();
    let dims: Vec<usize> = (0..e.rank()).map(|i| e.dim(i)).collect();
    let mut v = vec![];
    e.for_each(|x| v.push(x));
    Tensor::<u32, Rank<1>>::from(v).into_shape(&dims[..])
}

fn states(dims: &[usize]) -> [St; 2] {
    let rank = dims.len();
    let strided = if rank == 0 {
        St { dense: false, ..St::dense(&[]) }
    } else {
        strided_from(rank, &[dims.to_vec()], &[-1], &[0], &[(0..rank).rev().collect()])[0].clone()
    };
    [St::dense(dims), strided]
}

fn pair<S: Shape + 'static, L: Lay, R: Shape + 'static, K: Lay>(w: &mut Worker, name: &str, a: &St, b: &St) {
    let what = format!("{name} {} {}", a.name(), b.name());
    let mut o = Out::<true>::new();
    g_zip::<S, L, R, K, true>(&mut o, a, b);
    g_zip_source::<S, L, R, true>(&mut o, a, &b.dims);
    all(w, &what, o.cases);
    w.case(|| what.clone(), |w| operations::<S, L, R, K>(w, a, b));
}

fn fits(sizes: &[Option<usize>], dims: &[usize]) -> bool {
    sizes.len() == dims.len() && sizes.iter().zip(dims).all(|(s, d)| s.is_none_or(|s| s == *d))
}

fn explore(w: &mut Worker, a: &[usize], b: &[usize]) {
    w.state();
    let (x, y) = (&states(a), &states(b));
    pair::<DynRank, Dense, DynRank, Dense>(w, "DynRank DynRank", &x[0], &y[0]);
    pair::<DynRank, Strided, DynRank, Dense>(w, "DynRank DynRank", &x[1], &y[0]);
    pair::<DynRank, Strided, DynRank, Strided>(w, "DynRank DynRank", &x[1], &y[1]);
    let mut o = Out::<true>::new();
    if b.len() < 2 {
        g_zip_fill::<DynRank, Dense, true>(&mut o, &x[0]);
        g_zip_fill::<DynRank, Strided, true>(&mut o, &x[1]);
        all(w, &format!("DynRank {a:?}"), o.cases);
    }

    macro_rules! ranks {
        ($(($n:literal $m:literal))*) => {
            match (a.len(), b.len()) {
                $(($n, $m) => pair::<Rank<$n>, Dense, Rank<$m>, Strided>(w, concat!("Rank<", $n, "> Rank<", $m, ">"), &x[0], &y[1]),)*
                _ => (),
            }
        };
    }
    ranks!((0 0) (0 1) (0 2) (0 3) (1 0) (1 1) (1 2) (1 3) (2 0) (2 1) (2 2) (2 3) (3 0) (3 1) (3 2) (3 3));

    macro_rules! types {
        ($(($($d:ty),*) ($($e:ty),*);)*) => {
            $(
                if fits(&[$(<$d as Dim>::SIZE),*], a) && fits(&[$(<$e as Dim>::SIZE),*], b) {
                    pair::<($($d,)*), Dense, ($($e,)*), Dense>(w, stringify!(($($d),*) ($($e),*)), &x[0], &y[0]);
                }
            )*
        };
    }
    types! {
        (C<2>) (C<3>);
        (C<2>) (Dyn);
        (Dyn) (C<2>);
        (C<3>, C<2>) (C<2>);
        (C<3>) (C<2>, C<3>);
        (Dyn, C<2>) (Dyn);
        (C<2>, Dyn) (C<2>);
        (Dyn, C<2>) (C<2>, Dyn);
        (Dyn, C<2>, Dyn) (Dyn, C<2>);
        (C<2>) (Dyn, Dyn, C<2>);
    }
    if fits(&[Some(2), Some(3)], a) {
        w.case(|| format!("Array<(2, 3)> {}", y[1].name()), |w| arrays(w, &y[1]));
    }
}

type C<const N: usize> = Const<N>;

/// Arrays of constant size with an operand of any shape.
fn arrays(w: &mut Worker, b: &St) -> Check {
    let a = St::dense(&[2, 3]);
    let y: Vec<u32> = b.buffer().iter().map(|x| x + SECOND).collect();
    let vb = || make::<u32, DynRank, Strided>(b, &y);
    let array = || Array::<u32, (C<2>, C<3>)>([[0u32, 1, 2], [3, 4, 5]]);
    let want = pairs(&a, b, (true, false));
    combine(w, "array.zip_with(view)", &want, &|| contents(&array().zip_with(vb(), |(x, y)| both(x, *y))))?;
    combine(w, "array += view", &want, &|| {
        let mut t = array().map(|x| x.wrapping_mul(1000));
        t += vb();
        contents(&t)
    })?;
    combine(w, "array.map(..) + view", &want, &|| contents(&(array().map(|x| x.wrapping_mul(1000)) + vb())))?;
    let to = want.clone().map(|(d, v)| (d, v.into_iter().map(|(_, y)| (0, y)).collect()));
    combine(w, "array.assign(view)", &to, &|| {
        let mut t = array();
        t.assign(vb());
        contents(&t)
    })?;
    combine(w, "array.assign(&array)", &pairs(&a, &a, (true, false)).map(|(d, v)| (d, v.into_iter().map(|(_, y)| (0, y)).collect())), &|| {
        let mut t = Array::<u32, (C<2>, C<3>)>::from_elem(9);
        t.assign(&array());
        t += expr::fill(SECOND);
        contents(&t)
    })?;
    let want = pairs(&a, b, (false, false));
    combine(w, "&array.zip_with(view)", &want, &|| contents::<DynRank>(&to_dyn((&array()).zip_with(vb(), |(x, y)| both(*x, *y)))))
}

/// Items of expressions of every kind of operands.
fn kinds(w: &mut Worker, cases: Vec<Case>) {
    for c in &cases {
        w.case(
            || c.name.clone(),
            |w| {
                w.step();
                let Some(m) = &c.model else {
                    ensure!((c.make)().is_none(), "operands that cannot be combined are not refused");
                    w.count("refused");
                    return Ok(());
                };
                let want = m.tokens();
                let make = || (c.make)().ok_or("operands that can be combined are refused");
                let e = make()?;
                ensure_eq!(e.dims(), m.dims, "dimensions");
                ensure!(e.iter().collect() == want, "items are other pairs");
                for k in [1, want.len() / 2, want.len()] {
                    let mut got = vec![];
                    let mut i = make()?.iter();
                    for _ in 0..k {
                        got.extend(i.next());
                    }
                    i.fold(&mut |x| got.push(x));
                    ensure!(got == want, "items after {k} single steps are other pairs");
                }
                take_log();
                w.outcome(&want);
                w.trace();
                Ok(())
            },
        );
        clear_arena();
    }
}

fn two_kinds(w: &mut Worker, a: &[usize], b: &[usize]) {
    w.state();
    let mut o = Out::<false>::new();
    macro_rules! two {
        ($a:ident $b:ident) => { g_two::<$a, $b, false>(&mut o, a, b) };
    }
    each_pair!(two; DenseDyn StridedDyn Dense0 Dense1 Strided2 MutDyn MutStrided LanesOuter LanesInner LanesOuterMut Lanes2 Parts PartsMut Function Elem Filled OwnedDyn Owned1 Mapped; (DenseDyn StridedDyn Dense0 Dense1 Strided2 MutDyn MutStrided LanesOuter LanesInner LanesOuterMut Lanes2 Parts PartsMut Function Elem Filled OwnedDyn Owned1 Mapped));
    kinds(w, o.cases);
}

fn three_kinds(w: &mut Worker, a: &[usize], b: &[usize], c: &[usize]) {
    w.state();
    let mut o = Out::<false>::new();
    macro_rules! three {
        ($a:ident $b:ident) => {
            g_three::<$a, $b, StridedDyn, false>(&mut o, a, b, c);
            g_three::<$a, $b, DenseDyn, false>(&mut o, a, b, c);
            g_three::<$a, $b, MutDyn, false>(&mut o, a, b, c);
            g_three::<$a, $b, LanesOuter, false>(&mut o, a, b, c);
            g_three::<$a, $b, Function, false>(&mut o, a, b, c);
            g_three::<$a, $b, OwnedDyn, false>(&mut o, a, b, c);
        };
    }
    each_pair!(three; DenseDyn StridedDyn MutDyn LanesOuter Function OwnedDyn; (DenseDyn StridedDyn MutDyn LanesOuter Function OwnedDyn));
    kinds(w, o.cases);
}

/// Three operands.
fn triple(w: &mut Worker, dims: [&[usize]; 3]) {
    let st: Vec<St> = dims.iter().map(|d| states(d)[1].clone()).collect();
    let m: Vec<M> = st.iter().map(|s| M::of(&s.sem())).collect();
    let mut o = Out::<true>::new();
    let s = st.clone();
    let v = |s: &St| view::<DynRank, Strided>(s, false);
    o.add("(a.zip(b)).zip(c)", m[0].zip(&m[1]).and_then(|z| z.zip(&m[2])), move || v(&s[0]).zip(v(&s[1])).zip(v(&s[2])));
    let s = st.clone();
    o.add("a.zip(b.zip(c))", m[1].zip(&m[2]).and_then(|z| m[0].zip(&z)), move || v(&s[0]).zip(v(&s[1]).zip(v(&s[2]))));
    all(w, &format!("{dims:?}"), o.cases);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("shape pairs", if t { "all ordered pairs of ranks 0-3 with sizes 0..5 (rank 3: 0..4), and of the suffixes of rank 4-6 shapes with one size changed or not" } else { "all ordered pairs of ranks 0-3 with sizes 0..3, and of the suffixes of rank 4-6 shapes with one size changed or not" });
    ctx.bound("operands", "views, mutable views, tensors by value, map, from_fn, from_elem, fill, fill_with, arrays; zip, assign, compound assign, operators, zip_with");
    ctx.bound("shape types", "DynRank (3 layout pairs), all Rank<0..3> pairs, 10 pairs with constant sizes");
    let mut dims = vec![];
    for (rank, n) in [(0, 1), (1, if t { 6 } else { 4 }), (2, if t { 6 } else { 4 }), (3, if t { 5 } else { 4 })] {
        dims.extend(all_dims(rank, n));
    }
    let mut items: Vec<(Vec<usize>, Vec<usize>)> = dims.iter().flat_map(|a| dims.iter().map(|b| (a.clone(), b.clone()))).collect();
    for d in [vec![2, 1, 3, 2], vec![2, 1, 2, 3, 2], vec![1, 2, 1, 2, 3, 2]] {
        for k in 0..=d.len() {
            let tail = d[k..].to_vec();
            items.push((d.clone(), tail.clone()));
            items.push((tail.clone(), d.clone()));
            for j in 0..tail.len() {
                for n in 0..4 {
                    let mut tail = tail.clone();
                    tail[j] = n;
                    items.push((d.clone(), tail.clone()));
                    items.push((tail, d.clone()));
                }
            }
        }
    }
    let large: Vec<Vec<usize>> = [&[][..], &[3], &[17], &[16], &[12], &[40], &[130], &[3, 17], &[3, 16], &[17, 3], &[9, 12], &[12, 9], &[4, 27], &[2, 3, 17], &[17, 2, 3], &[4, 9, 3], &[3, 4, 9]].iter().map(|d| d.to_vec()).collect();
    ctx.bound("large", "all ordered pairs of 17 shapes with up to 130 elements, among them ones with equal numbers of elements");
    items.extend(large.iter().flat_map(|a| large.iter().map(|b| (a.clone(), b.clone()))));
    ctx.par(&items, |w, (a, b)| explore(w, a, b));

    let kinds = shapes();
    ctx.bound("kinds of operands", "all ordered pairs of 19 kinds of operands with all ordered pairs of 22 shapes of rank 0-3; all triples of 6 kinds in both groupings with all triples of 6 shapes");
    ctx.par(&kinds, |w, a| kinds.iter().for_each(|b| two_kinds(w, a, b)));
    let few = few_shapes();
    let items: Vec<_> = few.iter().flat_map(|a| few.iter().map(move |b| (a, b))).collect();
    ctx.par(&items, |w, (a, b)| few_shapes().iter().for_each(|c| three_kinds(w, a, b, c)));

    let small: Vec<Vec<usize>> = dims.iter().filter(|d| d.iter().all(|&x| x > 0 && x < 3)).cloned().collect();
    ctx.bound("three operands", "all triples of shapes of rank 0-3 with sizes 1..2, in both groupings");
    ctx.par(&small, |w, a| {
        for b in &small {
            for c in &small {
                w.state();
                triple(w, [a, b, c]);
            }
        }
    });
}

fn main() {
    run(check)
}
