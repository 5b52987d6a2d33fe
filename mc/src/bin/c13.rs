//! C13: operators apply elementwise with the right operation, operand order and operands.
//!
//! Elements are uninterpreted terms: an operator builds a term from its operands, so that equal
//! results mean the same operation on the same operands in the same order, for all element values.
#![allow(unused_variables, clippy::all)]
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ops::*;

use mc::engine::{Check, Ctx, attempt, main as run};
use mc::model::{dims_of, indices, product};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{Array, Const, ConstShape, DynRank, IntoShape, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};

#[derive(Clone, Debug, Eq, PartialEq)]
struct Term(u32);

thread_local! {
    static TERMS: RefCell<HashMap<(&'static str, u32, u32), u32>> = RefCell::new(HashMap::new());
    static APPLIED: Cell<usize> = const { Cell::new(0) };
}

fn term(op: &'static str, a: u32, b: u32) -> u32 {
    TERMS.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.len() as u32 + 1_000_000;
        *t.entry((op, a, b)).or_insert(n)
    })
}

fn node(op: &'static str, a: u32, b: u32) -> Term {
    APPLIED.with(|x| x.set(x.get() + 1));
    Term(term(op, a, b))
}

fn leaf(side: usize, n: usize) -> Term {
    Term((side * 10_000 + n) as u32)
}

macro_rules! term_ops {
    ($($tr:ident $f:ident $atr:ident $af:ident)*) => {
        $(
            impl $tr<Term> for Term { type Output = Term; fn $f(self, y: Term) -> Term { node(stringify!($f), self.0, y.0) } }
            impl $tr<&Term> for Term { type Output = Term; fn $f(self, y: &Term) -> Term { node(stringify!($f), self.0, y.0) } }
            impl $tr<Term> for &Term { type Output = Term; fn $f(self, y: Term) -> Term { node(stringify!($f), self.0, y.0) } }
            impl $tr<&Term> for &Term { type Output = Term; fn $f(self, y: &Term) -> Term { node(stringify!($f), self.0, y.0) } }
            impl $atr<Term> for Term { fn $af(&mut self, y: Term) { *self = node(stringify!($af), self.0, y.0); } }
            impl $atr<&Term> for Term { fn $af(&mut self, y: &Term) { *self = node(stringify!($af), self.0, y.0); } }
        )*
    };
}

term_ops! {
    Add add AddAssign add_assign
    Sub sub SubAssign sub_assign
    Mul mul MulAssign mul_assign
    Div div DivAssign div_assign
    Rem rem RemAssign rem_assign
    BitAnd bitand BitAndAssign bitand_assign
    BitOr bitor BitOrAssign bitor_assign
    BitXor bitxor BitXorAssign bitxor_assign
    Shl shl ShlAssign shl_assign
    Shr shr ShrAssign shr_assign
}

impl Neg for Term { type Output = Term; fn neg(self) -> Term { node("neg", self.0, 0) } }
impl Neg for &Term { type Output = Term; fn neg(self) -> Term { node("neg", self.0, 0) } }
impl Not for Term { type Output = Term; fn not(self) -> Term { node("not", self.0, 0) } }
impl Not for &Term { type Output = Term; fn not(self) -> Term { node("not", self.0, 0) } }

/// Model of an operand.
#[derive(Clone, Debug)]
struct Opd {
    dims: Vec<usize>,
    /// Terms in row-major order; `None` for a new one each time.
    items: Option<Vec<u32>>,
    repeatable: bool,
}

impl Opd {
    fn full(dims: Vec<usize>, side: usize, repeatable: bool) -> Opd {
        let items = (0..product(&dims)).map(|n| leaf(side, n).0).collect();
        Opd { dims, items: Some(items), repeatable }
    }

    fn at(&self, index: &[usize], order: usize, side: usize) -> u32 {
        match &self.items {
            None => leaf(side, order).0,
            Some(items) => {
                let i = &index[index.len() - self.dims.len()..];
                items[i.iter().zip(&self.dims).fold(0, |n, (i, d)| n * d + i)]
            }
        }
    }

    fn combine(&self, other: &Opd, op: &'static str) -> Option<Opd> {
        let (n, m) = (self.dims.len(), other.dims.len());
        if (n < m && !self.repeatable) || (m < n && !other.repeatable) {
            return None;
        }
        let k = n.min(m);
        if self.dims[n - k..] != other.dims[m - k..] {
            return None;
        }
        let dims = if n < m { other.dims.clone() } else { self.dims.clone() };
        let items = indices(&dims).iter().enumerate().map(|(o, i)| term(op, self.at(i, o, 0), other.at(i, o, 1))).collect();
        Some(Opd { dims, items: Some(items), repeatable: true })
    }

    fn unary(&self, op: &'static str) -> Opd {
        let items = indices(&self.dims).iter().enumerate().map(|(o, i)| term(op, self.at(i, o, 0), 0)).collect();
        Opd { dims: self.dims.clone(), items: Some(items), repeatable: true }
    }
}

// Operands.

fn ten<S: Shape>(dims: &[usize], side: usize) -> Tensor<Term, S> {
    Tensor::<Term, Rank<1>>::from((0..product(dims)).map(|n| leaf(side, n)).collect::<Vec<_>>()).into_shape(dims).into_mapping()
}

fn arr<A: ConstShape>(side: usize) -> Array<Term, A> {
    let mut n = 0;
    Array::from_fn(|_| {
        n += 1;
        leaf(side, n - 1)
    })
}

const GAP: u32 = 77_777;

/// Storage for a strided view: axes in reverse order, with unused elements in between.
struct Store {
    dims: Vec<usize>,
    buf: Tensor<Term, DynRank>,
}

fn store(dims: &[usize], side: usize) -> Store {
    let mut d: Vec<usize> = dims.iter().rev().copied().collect();
    d.push(2);
    let n: Vec<usize> = dims.to_vec();
    let buf = Tensor::<Term, DynRank>::from_fn(&d[..], |i: &[usize]| {
        if i[i.len() - 1] == 1 {
            Term(GAP)
        } else {
            let pos = i[..i.len() - 1].iter().rev().zip(&n).fold(0, |p, (i, d)| p * d + i);
            leaf(side, pos)
        }
    });
    Store { dims: dims.to_vec(), buf }
}

impl Store {
    fn view<S: Shape>(&self) -> View<'_, Term, S, Strided> {
        let v = self.buf.axis_at(self.dims.len(), 0);
        // Reverse the axes of a view that lives as long as the storage.
        let (p, m) = (v.as_ptr(), v.reorder().into_mapping::<S, Strided>().mapping().clone());
        unsafe { View::new_unchecked(p, m) }
    }

    fn view_mut<S: Shape>(&mut self) -> ViewMut<'_, Term, S, Strided> {
        let mut v = self.buf.axis_at_mut(self.dims.len(), 0);
        let p = v.as_mut_ptr();
        let m = v.reorder().into_mapping::<S, Strided>().mapping().clone();
        unsafe { ViewMut::new_unchecked(p, m) }
    }

    fn items(&self) -> Vec<u32> {
        contents(&self.view::<DynRank>())
    }

    fn gaps(&self) -> Check {
        ensure!(self.buf.axis_at(self.dims.len(), 1).iter().all(|x| x.0 == GAP), "elements outside of the view are changed");
        Ok(())
    }
}

fn contents<S: Shape, L: mdarray::Layout>(s: &Slice<Term, S, L>) -> Vec<u32> {
    s.iter().map(|x| x.0).collect()
}


fn const_dims<A: ConstShape>() -> Vec<usize> {
    dims_of(&A::default())
}

fn unchanged(items: Vec<u32>, n: usize, side: usize) -> Check {
    ensure!(items == (0..n).map(|i| leaf(side, i).0).collect::<Vec<_>>(), "a borrowed operand is changed");
    Ok(())
}

/// What the operand is made of, kept while it is in use.
macro_rules! prelude {
    (Arr, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = arr::<$a>($side); };
    (RefArr, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = arr::<$a>($side); };
    (Ten, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = ten::<$s>($d, $side); };
    (RefTen, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = ten::<$s>($d, $side); };
    (RefSlice, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = ten::<$s>($d, $side); };
    (Vw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = ten::<$s>($d, $side); };
    (RefVw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = ten::<$s>($d, $side); let $v = $v.expr(); };
    (RefVwMut, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let mut $v = ten::<$s>($d, $side); let $v = $v.expr_mut(); };
    (StrVw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = store($d, $side); };
    (RefStrVw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = store($d, $side); let $v = $v.view::<$s>(); };
    (RefStrVwMut, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let mut $v = store($d, $side); let $v = $v.view_mut::<$s>(); };
    (RefStrSlice, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = store($d, $side); let $v = $v.view::<$s>(); };
    (Moving, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = ten::<$s>($d, $side).into_expr(); };
    (MovingArr, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = arr::<$a>($side).into_expr(); };
    (Mapped, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = store($d, $side); };
    (Cloned, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = store($d, $side); };
    ($other:ident, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { let $v = (); };
}

/// The operand itself.
macro_rules! take {
    (Arr, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v };
    (RefArr, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &$v };
    (Ten, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v };
    (RefTen, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &$v };
    (RefSlice, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &*$v };
    (Vw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v.expr() };
    (RefVw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &$v };
    (RefVwMut, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &$v };
    (StrVw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v.view::<$s>() };
    (RefStrVw, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &$v };
    (RefStrVwMut, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &$v };
    (RefStrSlice, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { &*$v };
    (Moving, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v };
    (MovingArr, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v };
    (Mapped, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v.view::<$s>().map(|x| x.clone()) };
    (Cloned, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { $v.view::<$s>().cloned() };
    (Filled, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { expr::fill(leaf($side, 0)) };
    (FilledWith, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => {{
        let mut n = 0;
        expr::fill_with(move || {
            n += 1;
            leaf($side, n - 1)
        })
    }};
    (Elem, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => { expr::from_elem(<$s>::from_dims($d), leaf($side, 0)) };
    (Func, $v:ident, $s:ty, $a:ty, $d:expr, $side:expr) => {{
        let d = $d.to_vec();
        expr::from_fn(<$s>::from_dims($d), move |i: &[usize]| leaf($side, i.iter().zip(&d).fold(0, |p, (i, d)| p * d + i)))
    }};
}

/// Model of the operand.
macro_rules! model {
    (Arr, $a:ty, $d:expr, $side:expr) => { Opd::full(const_dims::<$a>(), $side, false) };
    (RefArr, $a:ty, $d:expr, $side:expr) => { Opd::full(const_dims::<$a>(), $side, true) };
    (Ten, $a:ty, $d:expr, $side:expr) => { Opd::full($d.to_vec(), $side, false) };
    (Moving, $a:ty, $d:expr, $side:expr) => { Opd::full($d.to_vec(), $side, false) };
    (MovingArr, $a:ty, $d:expr, $side:expr) => { Opd::full(const_dims::<$a>(), $side, false) };
    (Filled, $a:ty, $d:expr, $side:expr) => { Opd { dims: vec![], items: Some(vec![leaf($side, 0).0]), repeatable: true } };
    (FilledWith, $a:ty, $d:expr, $side:expr) => { Opd { dims: vec![], items: None, repeatable: true } };
    (Elem, $a:ty, $d:expr, $side:expr) => { Opd { dims: $d.to_vec(), items: Some(vec![leaf($side, 0).0; product($d)]), repeatable: true } };
    ($other:ident, $a:ty, $d:expr, $side:expr) => { Opd::full($d.to_vec(), $side, true) };
}

/// Borrowed operands are unchanged.
macro_rules! post {
    (RefArr, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (RefTen, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (RefSlice, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (Vw, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (RefVw, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (RefVwMut, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (StrVw, $v:ident, $side:expr) => { $v.gaps().and(unchanged($v.items(), product(&$v.dims), $side)) };
    (Mapped, $v:ident, $side:expr) => { $v.gaps().and(unchanged($v.items(), product(&$v.dims), $side)) };
    (Cloned, $v:ident, $side:expr) => { $v.gaps().and(unchanged($v.items(), product(&$v.dims), $side)) };
    (RefStrVw, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (RefStrVwMut, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    (RefStrSlice, $v:ident, $side:expr) => { unchanged(contents(&*$v), $v.len(), $side) };
    ($other:ident, $v:ident, $side:expr) => { Ok(()) };
}

struct Got {
    name: String,
    want: Option<Opd>,
    /// Dimensions, items and number of applications.
    got: Option<(Vec<usize>, Vec<u32>, usize)>,
    post: Check,
}

fn out<X: IntoExpression<Item = Term>>(x: X) -> (Vec<usize>, Vec<u32>, usize) {
    let e = x.into_expr();
    let dims = dims_of(e.shape());
    let mut items = Vec::with_capacity(64);
    e.for_each(|x| items.push(x.0));
    (dims, items, APPLIED.with(|x| x.get()))
}

fn tried<T>(f: impl FnOnce() -> T) -> Option<T> {
    APPLIED.with(|x| x.set(0));
    attempt(f)
}

fn judge(g: Got) -> Check {
    g.post?;
    match (g.want, g.got) {
        (None, None) => Ok(()),
        (None, Some(g)) => Err(format!("operands do not fit, but the result is {:?} {:?}", g.0, g.1)),
        (Some(_), None) => Err("panics".into()),
        (Some(w), Some(g)) => {
            ensure_eq!(g.0, w.dims, "dimensions");
            let items = w.items.unwrap();
            ensure!(g.1 == items, "result is {}, expected {}", show(&g.1), show(&items));
            ensure_eq!(g.2, items.len(), "number of applications of the operator");
            Ok(())
        }
    }
}

fn show(v: &[u32]) -> String {
    TERMS.with(|t| {
        let back: HashMap<u32, (&str, u32, u32)> = t.borrow().iter().map(|(k, v)| (*v, *k)).collect();
        fn text(x: u32, back: &HashMap<u32, (&str, u32, u32)>) -> String {
            match back.get(&x) {
                Some((op, a, b)) => format!("{op}({}, {})", text(*a, back), text(*b, back)),
                None => format!("{}{}", ["a", "b", "c", "?"][(x as usize / 10_000).min(3)], x % 10_000),
            }
        }
        v.iter().map(|x| text(*x, &back)).collect::<Vec<_>>().join(", ")
    })
}

/// Receives results one by one.
type Sink<'a> = &'a mut dyn FnMut(Got);

macro_rules! row {
    ($l:ident, $tr:ident, $f:ident, [$($r:ident)*]) => {
        #[allow(non_snake_case)]
        fn $l<S: Shape, R: Shape, A: ConstShape, B: ConstShape>(dl: &[usize], dr: &[usize], sink: Sink) {
            $({
                prelude!($l, l, S, A, dl, 0);
                prelude!($r, r, R, B, dr, 1);
                let want = model!($l, A, dl, 0).combine(&model!($r, B, dr, 1), stringify!($f));
                let got = tried(|| out($tr::$f(take!($l, l, S, A, dl, 0), take!($r, r, R, B, dr, 1))));
                let post = post!($l, l, 0).and(post!($r, r, 1));
                sink(Got { name: concat!(stringify!($l), " ", stringify!($f), " ", stringify!($r)).into(), want, got, post });
            })*
        }
    };
}

macro_rules! op {
    ($tr:ident, $f:ident, [$($l:ident)*], $rs:tt) => {
        pub mod $f {
            use super::*;
            $(row!($l, $tr, $f, $rs);)*
            pub fn all<S: Shape, R: Shape, A: ConstShape, B: ConstShape>(dl: &[usize], dr: &[usize], sink: Sink) {
                $($l::<S, R, A, B>(dl, dr, sink);)*
            }
        }
    };
}

macro_rules! ops {
    ($($tr:ident $f:ident)*) => {
        $(op!($tr, $f,
            [Arr RefArr Ten RefTen RefSlice Vw RefVw RefVwMut StrVw RefStrVw RefStrVwMut RefStrSlice Moving MovingArr Mapped Filled FilledWith Elem Func],
            [Arr RefArr Ten RefTen RefSlice Vw RefVw RefVwMut StrVw RefStrVw RefStrVwMut RefStrSlice Moving MovingArr Mapped Cloned Filled FilledWith Elem Func]);)*
    };
}

mod binary {
    use super::*;
    ops! { Add add Sub sub Mul mul Div div Rem rem BitAnd bitand BitOr bitor BitXor bitxor Shl shl Shr shr }
}

/// Fewer kinds, for more shape types.
mod few {
    use super::*;
    op!(Sub, sub, [Arr RefTen Ten StrVw Moving Mapped Filled Func], [RefArr RefTen Ten StrVw MovingArr Cloned FilledWith Elem]);
}

/// Compound assignment: target kinds.
macro_rules! assign_row {
    ($tr:ident, $f:ident, [$($r:ident)*]) => {
        pub mod $f {
            use super::*;
            pub fn all<S: Shape, R: Shape, A: ConstShape, B: ConstShape>(dl: &[usize], dr: &[usize], sink: Sink) {
                $({
                    let name = |l: &str| format!("{l} {} {}", stringify!($f), stringify!($r));
                    {
                        let mut t = arr::<A>(0);
                        prelude!($r, r, R, B, dr, 1);
                        let want = Opd::full(const_dims::<A>(), 0, false).combine(&model!($r, B, dr, 1), stringify!($f));
                        let got = tried(|| $tr::$f(&mut t, take!($r, r, R, B, dr, 1)));
                        let n = APPLIED.with(|x| x.get());
                        let post = post!($r, r, 1);
                        sink(Got { name: name("Array"), want, got: got.map(|_| (const_dims::<A>(), contents(&*t), n)), post });
                    }
                    {
                        let mut t = ten::<S>(dl, 0);
                        prelude!($r, r, R, B, dr, 1);
                        let want = Opd::full(dl.to_vec(), 0, false).combine(&model!($r, B, dr, 1), stringify!($f));
                        let got = tried(|| $tr::$f(&mut t, take!($r, r, R, B, dr, 1)));
                        let n = APPLIED.with(|x| x.get());
                        let post = post!($r, r, 1);
                        sink(Got { name: name("Tensor"), want, got: got.map(|_| (dl.to_vec(), contents(&*t), n)), post });
                    }
                    {
                        let mut t = ten::<S>(dl, 0);
                        prelude!($r, r, R, B, dr, 1);
                        let want = Opd::full(dl.to_vec(), 0, false).combine(&model!($r, B, dr, 1), stringify!($f));
                        let got = tried(|| {
                            let t: &mut Slice<Term, S> = &mut t;
                            $tr::$f(t, take!($r, r, R, B, dr, 1))
                        });
                        let n = APPLIED.with(|x| x.get());
                        let post = post!($r, r, 1);
                        sink(Got { name: name("Slice"), want, got: got.map(|_| (dl.to_vec(), contents(&*t), n)), post });
                    }
                    {
                        let mut t = store(dl, 0);
                        prelude!($r, r, R, B, dr, 1);
                        let want = Opd::full(dl.to_vec(), 0, false).combine(&model!($r, B, dr, 1), stringify!($f));
                        let got = tried(|| $tr::$f(&mut t.view_mut::<S>(), take!($r, r, R, B, dr, 1)));
                        let n = APPLIED.with(|x| x.get());
                        let post = post!($r, r, 1).and(t.gaps());
                        sink(Got { name: name("ViewMut strided"), want, got: got.map(|_| (dl.to_vec(), t.items(), n)), post });
                    }
                    {
                        let mut t = store(dl, 0);
                        prelude!($r, r, R, B, dr, 1);
                        let want = Opd::full(dl.to_vec(), 0, false).combine(&model!($r, B, dr, 1), stringify!($f));
                        let got = tried(|| {
                            let mut v = t.view_mut::<S>();
                            let t: &mut Slice<Term, S, Strided> = &mut v;
                            $tr::$f(t, take!($r, r, R, B, dr, 1))
                        });
                        let n = APPLIED.with(|x| x.get());
                        let post = post!($r, r, 1).and(t.gaps());
                        sink(Got { name: name("Slice strided"), want, got: got.map(|_| (dl.to_vec(), t.items(), n)), post });
                    }
                    {
                        let mut t = ten::<S>(dl, 0);
                        prelude!($r, r, R, B, dr, 1);
                        let want = Opd::full(dl.to_vec(), 0, false).combine(&model!($r, B, dr, 1), stringify!($f));
                        let got = tried(|| $tr::$f(&mut t.expr_mut(), take!($r, r, R, B, dr, 1)));
                        let n = APPLIED.with(|x| x.get());
                        let post = post!($r, r, 1);
                        sink(Got { name: name("ViewMut"), want, got: got.map(|_| (dl.to_vec(), contents(&*t), n)), post });
                    }
                })*
            }
        }
    };
}

macro_rules! assigns {
    ($($tr:ident $f:ident)*) => {
        $(assign_row!($tr, $f, [Arr RefArr Ten RefTen RefSlice Vw RefVw RefVwMut StrVw RefStrVw RefStrVwMut RefStrSlice Moving MovingArr Mapped Cloned Filled FilledWith Elem Func]);)*
    };
}

mod few_compound {
    use super::*;
    assign_row!(SubAssign, sub_assign, [RefArr RefTen Ten StrVw FilledWith Func]);
}

mod compound {
    use super::*;
    assigns! { AddAssign add_assign SubAssign sub_assign MulAssign mul_assign DivAssign div_assign RemAssign rem_assign
        BitAndAssign bitand_assign BitOrAssign bitor_assign BitXorAssign bitxor_assign ShlAssign shl_assign ShrAssign shr_assign }
}

macro_rules! unary {
    ($tr:ident, $f:ident, [$($l:ident)*]) => {
        fn $f<S: Shape, A: ConstShape>(dl: &[usize], sink: Sink) {
            $({
                prelude!($l, l, S, A, dl, 0);
                let want = Some(model!($l, A, dl, 0).unary(stringify!($f)));
                let got = tried(|| out($tr::$f(take!($l, l, S, A, dl, 0))));
                let post = post!($l, l, 0);
                sink(Got { name: concat!(stringify!($f), " ", stringify!($l)).into(), want, got, post });
            })*
        }
    };
}

unary!(Neg, neg, [Arr RefArr Ten RefTen RefSlice Vw RefVw RefVwMut StrVw RefStrVw RefStrVwMut RefStrSlice Moving MovingArr Mapped Filled FilledWith Elem Func]);
unary!(Not, not, [Arr RefArr Ten RefTen RefSlice Vw RefVw RefVwMut StrVw RefStrVw RefStrVwMut RefStrSlice Moving MovingArr Mapped Filled FilledWith Elem Func]);

/// Two operators in one expression.
macro_rules! chain {
    ($sink:expr, $tr:ident $f:ident, [$($tr2:ident $f2:ident)*]) => {
        $({
            let (d, e) = (&[2, 3][..], &[3][..]);
            let (a, b, c) = (ten::<Rank<2>>(d, 0), ten::<Rank<2>>(d, 1), ten::<Rank<1>>(e, 2));
            let left = |i: usize| term(stringify!($f2), term(stringify!($f), leaf(0, i).0, leaf(1, i).0), leaf(2, i % 3).0);
            let right = |i: usize| term(stringify!($f), leaf(0, i).0, term(stringify!($f2), leaf(1, i).0, leaf(2, i % 3).0));
            let both = |w: &dyn Fn(usize) -> u32| Some(Opd { dims: d.to_vec(), items: Some((0..6).map(w).collect()), repeatable: true });
            let once = |g: Option<(Vec<usize>, Vec<u32>, usize)>| g.map(|g| (g.0, g.1, g.2 / 2));
            let name = |s: &str| format!("{s} {} {}", stringify!($f), stringify!($f2));
            let got = once(tried(|| out($tr2::$f2($tr::$f(&a, &b), &c))));
            $sink(Got { name: name("(a b) c"), want: both(&left), got, post: Ok(()) });
            let got = once(tried(|| out($tr::$f(&a, $tr2::$f2(&b, &c)))));
            $sink(Got { name: name("a (b c)"), want: both(&right), got, post: Ok(()) });
            let got = once(tried(|| out($tr2::$f2($tr::$f(a.clone(), &b), &c))));
            $sink(Got { name: name("(owned b) c"), want: both(&left), got, post: Ok(()) });
            let got = once(tried(|| out($tr::$f(a.clone(), $tr2::$f2(&b, &c)))));
            $sink(Got { name: name("owned (b c)"), want: both(&right), got, post: Ok(()) });
            let got = once(tried(|| out($tr::$f(&a, $tr2::$f2(b.clone(), &c)))));
            $sink(Got { name: name("a (owned c)"), want: both(&right), got, post: Ok(()) });
        })*
    };
}

macro_rules! chains {
    ($($tr:ident $f:ident)*) => {
        mod chained {
            use super::*;
            $(pub fn $f(sink: Sink) {
                chain!(sink, $tr $f, [Add add Sub sub Mul mul Div div Rem rem BitAnd bitand BitOr bitor BitXor bitxor Shl shl Shr shr]);
            })*
            pub const ALL: &[(&str, fn(Sink))] = &[$((stringify!($f), $f)),*];
        }
    };
}

chains! { Add add Sub sub Mul mul Div div Rem rem BitAnd bitand BitOr bitor BitXor bitxor Shl shl Shr shr }

type Run = fn(&[usize], &[usize], Sink);

macro_rules! table {
    ($m:ident, $s:ty, $r:ty, $a:ty, $b:ty, [$($f:ident)*]) => {
        vec![$((stringify!($f), $m::$f::all::<$s, $r, $a, $b> as Run)),*]
    };
}

type C<const N: usize> = Const<N>;

fn check(ctx: &Ctx) {
    let mut jobs: Vec<(String, Run, Vec<usize>, Vec<usize>)> = vec![];
    macro_rules! jobs {
        ($m:ident, $s:ty, $r:ty, $a:ty, $b:ty, $ops:tt, [$(($dl:expr, $dr:expr))*]) => {
            for (name, f) in table!($m, $s, $r, $a, $b, $ops) {
                $(jobs.push((format!("{} with {}: {name} {:?} {:?}", stringify!($s), stringify!($r), $dl, $dr), f, $dl.to_vec(), $dr.to_vec()));)*
            }
        };
    }
    let no: [usize; 0] = [];
    // All operators on arrays of equal rank.
    jobs!(binary, Rank<2>, Rank<2>, (C<2>, C<3>), (C<2>, C<3>), [add sub mul div rem bitand bitor bitxor shl shr],
        [([2, 3], [2, 3]) ([2, 3], [3, 2]) ([1, 3], [2, 3]) ([0, 3], [0, 3]) ([3, 1], [3, 1]) ([9, 12], [9, 12]) ([3, 17], [3, 17]) ([12, 4], [6, 8]) ([30, 22], [30, 22])]);
    jobs!(compound, Rank<2>, Rank<2>, (C<2>, C<3>), (C<2>, C<3>), [add_assign sub_assign mul_assign div_assign rem_assign bitand_assign bitor_assign bitxor_assign shl_assign shr_assign],
        [([2, 3], [2, 3]) ([2, 3], [3, 2]) ([1, 3], [2, 3]) ([0, 3], [0, 3]) ([3, 1], [3, 1]) ([9, 12], [9, 12]) ([3, 17], [3, 17]) ([12, 4], [6, 8]) ([30, 22], [30, 22])]);
    // Different ranks.
    jobs!(binary, Rank<2>, Rank<1>, (C<2>, C<3>), (C<3>,), [sub], [([2, 3], [3]) ([2, 3], [2]) ([0, 3], [3]) ([2, 0], [0]) ([1, 2], [2]) ([3, 17], [17]) ([9, 12], [12]) ([33, 3], [3]) ([2, 300], [300]) ([300, 2], [2])]);
    jobs!(binary, Rank<1>, Rank<2>, (C<3>,), (C<2>, C<3>), [shr], [([17], [3, 17]) ([12], [9, 12]) ([3], [33, 3]) ([3], [2, 3]) ([2], [2, 3]) ([3], [0, 3]) ([0], [2, 0]) ([2], [1, 2])]);
    jobs!(few, Rank<0>, Rank<1>, (), (C<3>,), [sub], [(no, [3]) (no, [0]) (no, [1])]);
    jobs!(few, DynRank, Rank<2>, (C<3>,), (C<2>, C<3>), [sub], [([3], [2, 3]) ([2, 3], [2, 3]) ([4, 2, 3], [2, 3]) (no, [2, 3]) ([4, 5, 6], [5, 6]) ([17], [3, 17])]);
    jobs!(few, (C<2>, C<3>), DynRank, (C<2>, C<3>), (C<3>,), [sub], [([2, 3], [3]) ([2, 3], [2, 3]) ([2, 3], [2, 2, 3]) ([2, 3], no)]);
    jobs!(compound, Rank<2>, Rank<1>, (C<2>, C<3>), (C<3>,), [sub_assign], [([2, 3], [3]) ([2, 3], [2]) ([0, 3], [3]) ([2, 0], [0]) ([1, 2], [2]) ([3, 17], [17]) ([9, 12], [12]) ([33, 3], [3]) ([2, 300], [300]) ([300, 2], [2])]);
    jobs!(few_compound, Rank<1>, Rank<2>, (C<3>,), (C<2>, C<3>), [sub_assign], [([3], [2, 3]) ([2], [2, 3])]);
    jobs!(few_compound, DynRank, DynRank, (C<3>,), (C<2>, C<3>), [sub_assign], [([3], [2, 3]) ([2, 3], [2, 3]) ([4, 2, 3], [2, 3]) (no, no)]);
    jobs!(few_compound, Rank<3>, Rank<1>, (C<2>, C<2>, C<3>), (C<3>,), [sub_assign], [([2, 2, 3], [3]) ([2, 2, 3], [2]) ([2, 0, 3], [3]) ([4, 5, 6], [6])]);
    jobs!(few, Rank<3>, Rank<2>, (C<2>, C<2>, C<3>), (C<2>, C<3>), [sub], [([2, 2, 3], [2, 3]) ([2, 2, 3], [2, 2]) ([2, 3, 1], [3, 1]) ([4, 5, 6], [5, 6])]);
    ctx.bound("operators", "10 binary, 10 compound, 2 unary");
    ctx.bound("operands", "19 kinds on the left, 20 on the right, 6 kinds of targets; borrowed, owned, dense, strided, lazy; all pairs");
    ctx.bound("shapes", "equal ranks (all operators), ranks 0-3 with broadcasting (one or two operators), empty, mismatched and large (up to 720 elements) dimensions");
    ctx.bound("elements", "uninterpreted terms, so all element values");

    ctx.par(&jobs, |w, (name, f, dl, dr)| {
        w.state();
        f(dl, dr, &mut |g| {
            let what = g.name.clone();
            w.case(
                || format!("{name}: {what}"),
                |w| {
                    w.step();
                    w.trace();
                    if g.want.is_none() {
                        w.count("refused");
                    }
                    w.outcome(&(&g.name, g.want.is_some()));
                    judge(g)
                },
            )
        });
    });

    let dims = [vec![], vec![0], vec![3], vec![2, 3], vec![2, 0], vec![2, 2, 2], vec![70], vec![700], vec![9, 12], vec![30, 22], vec![4, 5, 6], vec![8, 9, 10]];
    ctx.par(&dims, |w, d| {
        w.state();
        let mut got = vec![];
        let sink = &mut |g| got.push(g);
        match d.len() {
            0 => {
                neg::<Rank<0>, ()>(d, sink);
                not::<Rank<0>, ()>(d, sink);
            }
            1 => {
                neg::<Rank<1>, (C<3>,)>(d, sink);
                not::<Rank<1>, (C<3>,)>(d, sink);
            }
            2 => {
                neg::<Rank<2>, (C<2>, C<3>)>(d, sink);
                not::<Rank<2>, (C<2>, C<3>)>(d, sink);
            }
            _ => {
                neg::<DynRank, (C<2>, C<1>, C<2>)>(d, sink);
                not::<DynRank, (C<2>, C<1>, C<2>)>(d, sink);
            }
        }
        for g in got {
            let what = g.name.clone();
            w.case(
                || format!("{d:?}: {what}"),
                |w| {
                    w.step();
                    w.trace();
                    w.outcome(&(&g.name, d));
                    judge(g)
                },
            );
        }
    });

    ctx.par(chained::ALL, |w, (name, f)| {
        w.state();
        let mut got = vec![];
        f(&mut |g| got.push(g));
        for g in got {
            let what = g.name.clone();
            w.case(
                || format!("chained {name}: {what}"),
                |w| {
                    w.step();
                    w.trace();
                    w.outcome(&g.name);
                    judge(g)
                },
            );
        }
    });
}

fn main() {
    run(check)
}
