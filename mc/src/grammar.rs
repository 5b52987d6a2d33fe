//! Expressions made by combining every kind of operand with every other kind (included by several
//! checks, after `exprs`).
#![allow(dead_code)]

use mc::model::{Sem, St, product, strided_from};
use mdarray::expr::{self, Expression, FromElem, FromFn, IntoExpr, IntoExpression, Map};
use mdarray::expr::{AxisExpr, AxisExprMut, FillWith, Lanes, LanesMut};
use mdarray::{Const, Dense, DynRank, Rank, Strided, Tensor, View, ViewMut};
use std::mem::ManuallyDrop;

use crate::exprs::*;

/// A kind of operand.
pub trait Leaf: 'static {
    type E: Expression<Item: Tok + 'static, IntoIter: ExactSizeIterator + 'static> + 'static;
    const NAME: &'static str;

    fn fits(_: &[usize]) -> bool {
        true
    }
    fn make(dims: &[usize], slot: usize) -> Self::E;
    fn model(dims: &[usize], slot: usize) -> M;
}

fn moved(mut sem: Sem, slot: usize) -> Sem {
    for x in &mut sem.ids {
        *x += slot as u32 * SECOND;
    }
    sem
}

/// Strided, with axes in reverse order and negative steps.
fn strided(dims: &[usize]) -> St {
    let rank = dims.len();
    if rank == 0 {
        return St { dense: false, ..St::dense(&[]) };
    }
    strided_from(rank, &[dims.to_vec()], &[-1], &[0], &[(0..rank).rev().collect()])[0].clone()
}

fn elements(st: &St, slot: usize) -> M {
    M::of(&moved(st.sem(), slot))
}

fn lanes(st: &St, axis: usize, slot: usize) -> M {
    let (outer, lanes) = moved(st.sem(), slot).lanes(axis).unwrap();
    M::new(&outer, lanes.iter().map(|l| (sem_tok(l), vec![])).collect())
}

fn parts(st: &St, axis: usize, slot: usize) -> M {
    let sem = moved(st.sem(), slot);
    M::new(&[st.dims[axis]], (0..st.dims[axis]).map(|i| (sem_tok(&sem.axis_at(axis, i).unwrap()), vec![])).collect())
}

macro_rules! leaf {
    ($name:ident, $type:ty, |$d:ident, $slot:ident| $make:expr, $model:expr $(, $fits:expr)?) => {
        pub struct $name;
        impl Leaf for $name {
            type E = $type;
            const NAME: &'static str = stringify!($name);
            $(fn fits($d: &[usize]) -> bool { $fits })?
            fn make($d: &[usize], $slot: usize) -> Self::E { $make }
            fn model($d: &[usize], $slot: usize) -> M { $model }
        }
    };
}

fn outer(d: &[usize]) -> Vec<usize> {
    [&[2], d].concat()
}

fn inner(d: &[usize]) -> Vec<usize> {
    [d, &[2]].concat()
}

type V<S, L> = View<'static, u32, S, L>;
type W<S, L> = ViewMut<'static, u32, S, L>;
type Owned<S> = IntoExpr<Tensor<ManuallyDrop<u32>, S>>;
type Index = fn(&[usize]) -> u64;

leaf!(DenseDyn, V<DynRank, Dense>, |d, n| view_of(&St::dense(d), n), elements(&St::dense(d), n));
leaf!(StridedDyn, V<DynRank, Strided>, |d, n| view_of(&strided(d), n), elements(&strided(d), n));
leaf!(Dense0, V<Rank<0>, Dense>, |d, n| view_of(&St::dense(d), n), elements(&St::dense(d), n), d.is_empty());
leaf!(Dense1, V<Rank<1>, Dense>, |d, n| view_of(&St::dense(d), n), elements(&St::dense(d), n), d.len() == 1);
leaf!(Strided2, V<Rank<2>, Strided>, |d, n| view_of(&strided(d), n), elements(&strided(d), n), d.len() == 2);
leaf!(MutDyn, W<DynRank, Dense>, |d, n| view_mut_of(&St::dense(d), n), elements(&St::dense(d), n).once());
leaf!(MutStrided, W<DynRank, Strided>, |d, n| view_mut_of(&strided(d), n), elements(&strided(d), n).once());
leaf!(LanesOuter, Lanes<'static, u32, DynRank, Dense, Const<0>>, |d, n| leak(view_of(&St::dense(&outer(d)), n)).lanes(Const::<0>), lanes(&St::dense(&outer(d)), 0, n));
leaf!(LanesInner, Lanes<'static, u32, DynRank, Dense, usize>, |d, n| leak(view_of(&St::dense(&inner(d)), n)).lanes(d.len()), lanes(&St::dense(&inner(d)), d.len(), n));
leaf!(LanesOuterMut, LanesMut<'static, u32, DynRank, Strided, Const<0>>, |d, n| leak_mut(view_mut_of(&strided(&outer(d)), n)).lanes_mut(Const::<0>), lanes(&strided(&outer(d)), 0, n).once());
leaf!(Lanes2, Lanes<'static, u32, Rank<2>, Dense, Const<0>>, |d, n| leak(view_of(&St::dense(&outer(d)), n)).lanes(Const::<0>), lanes(&St::dense(&outer(d)), 0, n), d.len() == 1);
leaf!(Parts, AxisExpr<'static, u32, DynRank, Dense, usize>, |d, n| leak(view_of(&St::dense(&inner(d)), n)).axis_expr(0), parts(&St::dense(&inner(d)), 0, n), d.len() == 1);
leaf!(PartsMut, AxisExprMut<'static, u32, Rank<2>, Strided, Const<1>>, |d, n| leak_mut(view_mut_of(&strided(&outer(d)), n)).axis_expr_mut(Const::<1>), parts(&strided(&outer(d)), 1, n).once(), d.len() == 1);
leaf!(Function, FromFn<DynRank, Index>, |d, _n| expr::from_fn(d, index_fn as Index), m_from_fn(d));
leaf!(Elem, FromElem<u32, DynRank>, |d, _n| expr::from_elem(d, 9u32), M::new(d, vec![(9, vec![]); product(d)]));
leaf!(Filled, FillWith<fn() -> u32>, |d, _n| expr::fill_with(filler as fn() -> u32), M::new(&[], vec![(6, vec![1])]), d.is_empty());
leaf!(OwnedDyn, Owned<DynRank>, |d, _n| tensor::<DynRank>(d).into_expr(), m_iota(d).once());
leaf!(Owned1, Owned<Rank<1>>, |d, _n| tensor::<Rank<1>>(d).into_expr(), m_iota(d).once(), d.len() == 1);
leaf!(Mapped, Map<V<DynRank, Strided>, fn(&'static u32) -> u64>, |d, n| view_of(&strided(d), n).map(mapper as fn(&'static u32) -> u64), elements(&strided(d), n).mapped());

/// Two operands.
pub fn g_two<A: Leaf, B: Leaf, const F: bool>(o: &mut Out<F>, a: &[usize], b: &[usize]) {
    if !A::fits(a) || !B::fits(b) {
        return;
    }
    let model = A::model(a, 0).zip(&B::model(b, 1));
    let (x, y) = (a.to_vec(), b.to_vec());
    o.add_once(format!("{} {a:?} zip {} {b:?}", A::NAME, B::NAME), model, move || A::make(&x, 0).zip(B::make(&y, 1)));
}

/// Three operands, in both groupings.
pub fn g_three<A: Leaf, B: Leaf, C: Leaf, const F: bool>(o: &mut Out<F>, a: &[usize], b: &[usize], c: &[usize]) {
    if !A::fits(a) || !B::fits(b) || !C::fits(c) {
        return;
    }
    let (l, m, r) = (A::model(a, 0), B::model(b, 1), C::model(c, 2));
    let (x, y, z) = (a.to_vec(), b.to_vec(), c.to_vec());
    let make = move || A::make(&x, 0).zip(B::make(&y, 1)).zip(C::make(&z, 2));
    o.add_once(format!("({} {a:?} zip {} {b:?}) zip {} {c:?}", A::NAME, B::NAME, C::NAME), l.zip(&m).and_then(|e| e.zip(&r)), make);
    let (x, y, z) = (a.to_vec(), b.to_vec(), c.to_vec());
    let make = move || A::make(&x, 0).zip(B::make(&y, 1).zip(C::make(&z, 2)));
    o.add_once(format!("{} {a:?} zip ({} {b:?} zip {} {c:?})", A::NAME, B::NAME, C::NAME), m.zip(&r).and_then(|e| l.zip(&e)), make);
}

/// Call a macro for every ordered pair of kinds.
macro_rules! each_pair {
    ($f:ident; $($a:ident)*; $bs:tt) => { $( $crate::grammar::each_pair!(@ $f; $a; $bs); )* };
    (@ $f:ident; $a:ident; ($($b:ident)*)) => { $( $f!($a $b); )* };
}
pub(crate) use each_pair;

/// Shapes of operands.
pub fn shapes() -> Vec<Vec<usize>> {
    let mut v = vec![vec![], vec![0], vec![1], vec![2], vec![3], vec![5]];
    v.extend([[0, 2], [2, 0], [1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [4, 3], [2, 5]].map(Vec::from));
    v.extend([[0, 1, 2], [2, 0, 2], [2, 3, 0], [2, 2, 2], [3, 2, 3], [2, 4, 3], [4, 1, 2]].map(Vec::from));
    v
}

/// Fewer shapes, for three operands.
pub fn few_shapes() -> Vec<Vec<usize>> {
    vec![vec![], vec![2], vec![3], vec![2, 2], vec![3, 2], vec![2, 2, 2]]
}
