//! C19: arrays cross threads only when their elements allow it.
//!
//! The compiler is asked, for every array, view, expression and iterator type over element types of
//! all four classes (can be sent and shared, only sent, only shared, neither), whether the type can
//! be sent and whether it can be shared. The answers are the complete set of ways in which values
//! can reach another thread in safe code, and are compared with a specification. In addition, the
//! allowed crossings are carried out with real threads.
use std::marker::PhantomData;

use mc::engine::{Ctx, Worker, main as run};
use mc::{ensure, ensure_eq};
use mdarray::expr::{
    AxisExpr, AxisExprMut, Cloned, Copied, Drain, Enumerate, Expression, Fill, FillWith, FromElem, FromFn, IntoExpr, IntoExpression, Iter,
    Lanes, LanesMut, Map, Zip,
};
use mdarray::index::{Cols, Rows};
use mdarray::{Array, Const, Dense, DenseMapping, Dyn, DynRank, Rank, Slice, Strided, StridedMapping, Tensor, View, ViewMut};

/// The expression that an owned array turns into.
type Own<A> = <A as IntoExpression>::IntoExpr;

/// An element that can be sent and shared.
#[derive(Clone, Copy)]
struct Both;
/// An element that can be sent, but not shared (like `Cell`).
#[derive(Clone, Copy)]
struct Sent(PhantomData<*const u8>);
/// An element that can be shared, but not sent (like `MutexGuard`).
#[derive(Clone, Copy)]
struct Shared(PhantomData<*const u8>);
/// An element that must stay (like `Rc`).
#[derive(Clone, Copy)]
struct Stay(#[allow(dead_code)] PhantomData<*const u8>);

unsafe impl Send for Sent {}
unsafe impl Sync for Shared {}


/// Asks the compiler: the inherent constants are found first, if their bounds hold.
struct Ask<T: ?Sized>(PhantomData<T>);

trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}

impl<T: ?Sized> No for Ask<T> {}

#[allow(dead_code)]
impl<T: ?Sized + Send> Ask<T> {
    const SEND: bool = true;
}

#[allow(dead_code)]
impl<T: ?Sized + Sync> Ask<T> {
    const SYNC: bool = true;
}

macro_rules! ask {
    ($t:ty) => {
        (Ask::<$t>::SEND, Ask::<$t>::SYNC)
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Spec {
    /// Exactly this.
    Is((bool, bool)),
    /// Not more than this.
    AtMost((bool, bool)),
}

use Spec::*;

fn one(w: &mut Worker, name: &str, got: (bool, bool), spec: Spec) {
    let name: String = name.split_whitespace().collect::<Vec<_>>().join(" ");
    w.case(
        || format!("{name}: Send {}, Sync {}", got.0, got.1),
        |w| {
            w.step();
            w.outcome(&(name.clone(), got));
            match spec {
                Is(s) => ensure_eq!(got, s, "(can be sent, can be shared)"),
                AtMost(s) => {
                    ensure!(!got.0 || s.0, "can be sent to another thread, but its parts cannot");
                    ensure!(!got.1 || s.1, "can be shared with another thread, but its parts cannot");
                }
            }
            w.trace();
            Ok(())
        },
    );
}

/// Send and Sync of an element class.
macro_rules! class {
    (Both) => { (true, true) };
    (Sent) => { (true, false) };
    (Shared) => { (false, true) };
    (Stay) => { (false, false) };
}

fn and(a: (bool, bool), b: (bool, bool)) -> (bool, bool) {
    (a.0 && b.0, a.1 && b.1)
}

/// Shared access: sending it is sharing the elements.
fn shared(t: (bool, bool)) -> (bool, bool) {
    (t.1, t.1)
}

macro_rules! containers {
    ($w:expr, $e:ident, $(($s:ty, $l:ty))*) => { $({
        let w = &mut *$w;
        let t = class!($e);
        macro_rules! ty {
            ($spec:expr, $ty:ty) => {
                one(w, concat!(stringify!($ty), " with T = ", stringify!($e), ", S = ", stringify!($s), ", L = ", stringify!($l)), ask!($ty), $spec)
            };
        }
        type T = $e;
        type S = $s;
        type L = $l;
        ty!(Is(t), Tensor<T, S>);
        ty!(Is(t), Slice<T, S, L>);
        ty!(Is(shared(t)), &'static Slice<T, S, L>);
        ty!(Is(t), &'static mut Slice<T, S, L>);
        ty!(Is(shared(t)), View<'static, T, S, L>);
        ty!(Is(t), ViewMut<'static, T, S, L>);
        ty!(Is(shared(t)), &'static Tensor<T, S>);
        ty!(Is(t), &'static mut Tensor<T, S>);
        ty!(Is(shared(t)), &'static View<'static, T, S, L>);
        // A shared reference to a mutable view gives shared elements, a mutable one all of it.
        ty!(Is(shared(t)), &'static ViewMut<'static, T, S, L>);
        ty!(Is(t), &'static mut ViewMut<'static, T, S, L>);
        ty!(Is((true, true)), DenseMapping<S>);
        ty!(Is((true, true)), StridedMapping<S>);
        ty!(Is((true, true)), S);
        // Expressions and iterators.
        ty!(AtMost(t), Own<Tensor<T, S>>);
        ty!(AtMost(t), Drain<'static, T, S>);
        ty!(AtMost(t), IntoExpr<Drain<'static, T, S>>);
        ty!(AtMost(t), Iter<Own<Tensor<T, S>>>);
        ty!(AtMost(t), Iter<IntoExpr<Drain<'static, T, S>>>);
        ty!(AtMost(shared(t)), Iter<View<'static, T, S, L>>);
        ty!(AtMost(t), Iter<ViewMut<'static, T, S, L>>);
        ty!(AtMost(shared(t)), AxisExpr<'static, T, S, L, Const<0>>);
        ty!(AtMost(shared(t)), AxisExpr<'static, T, S, L, Dyn>);
        ty!(AtMost(shared(t)), AxisExpr<'static, T, S, L, Rows>);
        ty!(AtMost(t), AxisExprMut<'static, T, S, L, Const<0>>);
        ty!(AtMost(t), AxisExprMut<'static, T, S, L, Dyn>);
        ty!(AtMost(t), AxisExprMut<'static, T, S, L, Cols>);
        ty!(AtMost(shared(t)), Lanes<'static, T, S, L, Const<0>>);
        ty!(AtMost(shared(t)), Lanes<'static, T, S, L, Dyn>);
        ty!(AtMost(shared(t)), Lanes<'static, T, S, L, Cols>);
        ty!(AtMost(t), LanesMut<'static, T, S, L, Const<0>>);
        ty!(AtMost(t), LanesMut<'static, T, S, L, Dyn>);
        ty!(AtMost(t), LanesMut<'static, T, S, L, Rows>);
        ty!(AtMost(shared(t)), Iter<AxisExpr<'static, T, S, L, Const<0>>>);
        ty!(AtMost(t), Iter<AxisExprMut<'static, T, S, L, Const<0>>>);
        ty!(AtMost(shared(t)), Iter<Lanes<'static, T, S, L, Const<0>>>);
        ty!(AtMost(t), Iter<LanesMut<'static, T, S, L, Const<0>>>);
        ty!(AtMost(t), FromElem<T, S>);
        ty!(AtMost(t), Iter<FromElem<T, S>>);
        ty!(AtMost(t), FromFn<S, T>);
        ty!(AtMost(shared(t)), Cloned<View<'static, T, S, L>>);
        ty!(AtMost(shared(t)), Copied<View<'static, T, S, L>>);
        ty!(AtMost(shared(t)), Enumerate<View<'static, T, S, L>>);
        ty!(AtMost(t), Enumerate<ViewMut<'static, T, S, L>>);
        ty!(AtMost(t), Enumerate<Own<Tensor<T, S>>>);
        ty!(AtMost(shared(t)), Iter<Enumerate<View<'static, T, S, L>>>);
        ty!(AtMost(shared(t)), Iter<Cloned<View<'static, T, S, L>>>);
    })* };
}

macro_rules! arrays {
    ($w:expr, $e:ident, $($s:ty;)*) => { $({
        let w = &mut *$w;
        let t = class!($e);
        macro_rules! ty {
            ($spec:expr, $ty:ty) => {
                one(w, concat!(stringify!($ty), " with T = ", stringify!($e), ", S = ", stringify!($s)), ask!($ty), $spec)
            };
        }
        type T = $e;
        type S = $s;
        ty!(Is(t), Array<T, S>);
        ty!(Is(shared(t)), &'static Array<T, S>);
        ty!(AtMost(t), Own<Array<T, S>>);
        ty!(AtMost(t), Iter<Own<Array<T, S>>>);
        ty!(Is((true, true)), S);
    })* };
}

/// Combinations of two parts.
macro_rules! pairs {
    ($w:expr, $a:ident, $($b:ident)*) => { $({
        let w = &mut *$w;
        let (t, u) = (class!($a), class!($b));
        macro_rules! ty {
            ($spec:expr, $ty:ty) => {
                one(w, concat!(stringify!($ty), " with T = ", stringify!($a), ", U = ", stringify!($b)), ask!($ty), $spec)
            };
        }
        type T = $a;
        type U = $b;
        ty!(AtMost(and(shared(t), u)), Map<View<'static, T, Rank<1>>, U>);
        ty!(AtMost(and(t, u)), Map<ViewMut<'static, T, Rank<2>, Strided>, U>);
        ty!(AtMost(and(t, u)), Map<Own<Tensor<T>>, U>);
        ty!(AtMost(and(t, u)), Map<Fill<T>, U>);
        ty!(AtMost(and(shared(t), shared(u))), Zip<View<'static, T, Rank<1>>, View<'static, U, Rank<1>>>);
        ty!(AtMost(and(t, shared(u))), Zip<ViewMut<'static, T, Rank<1>>, View<'static, U, Rank<1>>>);
        ty!(AtMost(and(shared(t), u)), Zip<View<'static, T, DynRank, Strided>, ViewMut<'static, U, DynRank>>);
        ty!(AtMost(and(t, u)), Zip<ViewMut<'static, T>, ViewMut<'static, U>>);
        ty!(AtMost(and(t, u)), Zip<Own<Tensor<T>>, Own<Tensor<U>>>);
        ty!(AtMost(and(t, shared(u))), Zip<Own<Tensor<T>>, View<'static, U>>);
        ty!(AtMost(and(t, u)), Zip<Fill<T>, IntoExpr<Drain<'static, U, Rank<1>>>>);
        ty!(AtMost(and(shared(t), u)), Zip<AxisExpr<'static, T, Rank<2>, Dense, Const<0>>, LanesMut<'static, U, Rank<2>, Dense, Const<0>>>);
        ty!(AtMost(and(shared(t), shared(u))), Iter<Zip<View<'static, T>, View<'static, U>>>);
        ty!(AtMost(and(t, u)), Iter<Zip<ViewMut<'static, T>, ViewMut<'static, U>>>);
        ty!(AtMost(and(shared(t), shared(u))), Enumerate<Zip<View<'static, T>, Cloned<View<'static, U>>>>);
    })* };
}

macro_rules! classes {
    ($w:expr, $($e:ident)*) => { $(
        containers!($w, $e,
            (Rank<0>, Dense) (Rank<1>, Dense) (Rank<1>, Strided) (Rank<2>, Dense) (Rank<2>, Strided) (Rank<3>, Strided)
            (Rank<6>, Dense) (DynRank, Dense) (DynRank, Strided) ((Const<2>, Dyn), Dense) ((Dyn, Const<3>), Strided)
            ((Const<2>, Const<3>), Dense));
        arrays!($w, $e, (); (Const<0>,); (Const<3>,); (Const<2>, Const<3>); (Const<1>, Const<2>, Const<3>););
        pairs!($w, $e, Both Sent Shared Stay);
        {
            type T = $e;
            one($w, concat!("Fill<T> with T = ", stringify!($e)), ask!(Fill<T>), AtMost(class!($e)));
            one($w, concat!("FillWith<T> with T = ", stringify!($e)), ask!(FillWith<T>), AtMost(class!($e)));
        }
    )* };
}

/// Carry out the crossings that are allowed: every element arrives, and writes come back.
fn crossings(w: &mut Worker) {
    for dims in mc::model::all_dims(2, 4) {
        w.case(
            || format!("tensor {dims:?} in two threads"),
            |w| {
                w.state();
                w.step();
                let n = dims[0] * dims[1];
                let mut t = Tensor::<usize, Rank<2>>::from_fn([dims[0], dims[1]], |i| i[0] * dims[1] + i[1]);
                for mid in 0..=dims[0] {
                    let (mut a, mut b) = t.split_at_mut(mid);
                    std::thread::scope(|s| {
                        s.spawn(move || a.expr_mut().for_each(|x| *x += n));
                        s.spawn(move || b.expr_mut().for_each(|x| *x += n));
                    });
                    let v = t.expr();
                    let sum: usize = std::thread::scope(|s| s.spawn(move || v.iter().sum()).join().unwrap());
                    ensure_eq!(sum, (0..n).map(|i| i + (mid + 1) * n).sum::<usize>(), "sum in another thread");
                }
                let t = std::thread::spawn(move || t).join().map_err(|_| "thread panics")?;
                ensure_eq!(t.into_vec(), (0..n).map(|i| i + (dims[0] + 1) * n).collect::<Vec<_>>(), "elements after all");
                w.trace();
                Ok(())
            },
        );
    }
}

fn check(ctx: &Ctx) {
    ctx.bound("element classes", "all four combinations of Send and Sync");
    ctx.bound("types", "every public array, view, expression, iterator, mapping and shape type; 12 shape and layout combinations; pairs of parts for Map and Zip");
    ctx.assume("thread safety of generic types is the same for all shape and layout types of a kind");
    ctx.one(|w| {
        w.state();
        classes!(w, Both Sent Shared Stay);
        // The probe itself.
        one(w, "probe u32", ask!(u32), Is((true, true)));
        one(w, "probe Cell", ask!(std::cell::Cell<u32>), Is((true, false)));
        one(w, "probe MutexGuard", ask!(std::sync::MutexGuard<'static, u32>), Is((false, true)));
        one(w, "probe Rc", ask!(std::rc::Rc<u32>), Is((false, false)));
        one(w, "Tensor<Cell>", ask!(Tensor<std::cell::Cell<u32>>), Is((true, false)));
        one(w, "View<Cell>", ask!(View<'static, std::cell::Cell<u32>>), Is((false, false)));
        one(w, "ViewMut<Cell>", ask!(ViewMut<'static, std::cell::Cell<u32>>), Is((true, false)));
        one(w, "Array<Rc>", ask!(Array<std::rc::Rc<u32>, (Const<2>,)>), Is((false, false)));
        one(w, "ViewMut<MutexGuard>", ask!(ViewMut<'static, std::sync::MutexGuard<'static, u32>>), Is((false, true)));
    });
    ctx.one(crossings);
}

fn main() {
    run(check)
}
