//! Histories of operations on resizable arrays (included by several checks).
//!
//! A state is what the behaviour can depend on: the shape and the capacity (elements are opaque).
//! The search starts from the constructors and applies every operation in every state that the real
//! code reaches, until no new states within the limits are found; each state is remade by replaying
//! its shortest history on the real code. The reference model is a list of labels and dimensions.
#![allow(dead_code)]

use std::any::Any;
use std::collections::HashMap;
use std::sync::Mutex;

use mc::engine::{Check, Ctx, Worker, attempt};
use mc::model::{Sem, all_dims, indices, positions, product};
use mc::tracked::{self, Elem, tick};
use mc::{alloc, ensure};
use mdarray::expr::{self, Apply, Expression, IntoExpression};
use mdarray::{Const, DenseMapping, Dyn, DynRank, IntoShape, Rank, Shape, Strided, Tensor};

/// A shape type that arrays under test can have.
pub trait Ty: Shape + 'static {
    /// Constant sizes, or `None` for dynamic rank.
    const SIZES: Option<&'static [Option<usize>]>;
    const NAME: &'static str;
}

macro_rules! ty {
    ($($name:literal $t:ty = $sizes:expr;)*) => {
        $(impl Ty for $t {
            const SIZES: Option<&'static [Option<usize>]> = $sizes;
            const NAME: &'static str = $name;
        })*
    };
}

ty! {
    "()" () = Some(&[]);
    "(Dyn)" (Dyn,) = Some(&[None]);
    "(Dyn, Dyn)" (Dyn, Dyn) = Some(&[None, None]);
    "(Dyn, 2)" (Dyn, Const<2>) = Some(&[None, Some(2)]);
    "(2, Dyn)" (Const<2>, Dyn) = Some(&[Some(2), None]);
    "(2, 2)" (Const<2>, Const<2>) = Some(&[Some(2), Some(2)]);
    "(Dyn, Dyn, Dyn)" (Dyn, Dyn, Dyn) = Some(&[None, None, None]);
    "(Dyn, 2, Dyn)" (Dyn, Const<2>, Dyn) = Some(&[None, Some(2), None]);
    "(Dyn, Dyn, Dyn, Dyn)" (Dyn, Dyn, Dyn, Dyn) = Some(&[None, None, None, None]);
    "DynRank" DynRank = None;
}

pub fn fits<S: Ty>(dims: &[usize]) -> bool {
    S::SIZES.is_none_or(|s| s.len() == dims.len() && s.iter().zip(dims).all(|(s, d)| s.is_none_or(|s| s == *d)))
}

/// The first dimension can change.
pub fn growable<S: Ty>(rank: usize) -> bool {
    rank > 0 && S::SIZES.is_none_or(|s| s[0].is_none())
}

pub fn default_dims<S: Ty>() -> Vec<usize> {
    S::SIZES.map_or(vec![0], |s| s.iter().map(|x| x.unwrap_or(0)).collect())
}

/// Reference array.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Model {
    pub dims: Vec<usize>,
    pub items: Vec<u32>,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Src {
    View,
    Strided,
    Value,
    FromFn,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Eat {
    /// Take this many and drop the rest.
    Take(usize),
    /// Take this many and fold the rest.
    Fold(usize),
    /// Take this many and leak the rest.
    Leak(usize),
    /// Evaluate into another array.
    Eval,
}

type Dims = Vec<usize>;

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Op {
    // Constructors.
    FromFn(Dims),
    FromElem(Dims),
    FromVec(Dims),
    New,
    WithCapacity(usize),
    // Changes.
    Resize(Dims),
    ResizeWith(Dims),
    Expand(Src, Dims),
    Append(Dims),
    Extend(usize),
    Drain(usize, usize, Eat),
    Truncate(usize),
    Clear,
    Reserve(usize),
    ReserveExact(usize),
    TryReserve(usize),
    TryReserveExact(usize),
    /// Request for which the allocator has no memory.
    NoMemory(usize),
    ShrinkToFit,
    ShrinkTo(usize),
    Spare,
    Clone,
    CloneFrom(Dims),
    CloneInto(Dims),
    ToTensor,
    Map,
    Apply,
    ZipWith(usize),
    ZipWithValue,
    Add(usize),
    AddAssign(usize),
    Assign(Src, usize),
    Fill,
    FillWith,
    Set(usize),
    Swap(usize, usize),
    IntoShape(Dims),
    IntoDyn,
    IntoFlat,
    IntoVec,
    RawParts,
    IntoIter(Eat),
    IntoScalar,
    SetMapping(Dims),
    Discard,
}

pub enum Want {
    /// Result and returned items.
    Done(Model, Vec<u32>),
    /// Result, where the elements at these positions are the new ones in any order.
    Fresh(Model, Vec<usize>),
    /// The array is consumed; returned items.
    Gone(Vec<u32>),
    /// The call panics and nothing changes (or the array is consumed).
    Refused,
    /// Refused or with this result: the documentation does not say.
    Either(Model),
    /// An empty array of any dimensions: the documentation does not say.
    AnyEmpty,
    /// A drain was leaked: the first rows, up to this number, are still there.
    Prefix(usize, Vec<u32>),
    /// Any capacity request that is refused with an error.
    Error,
}

pub const MAPPED: u32 = 1_000_000;

impl Model {
    pub fn new(dims: &[usize], base: u32) -> Model {
        Model { dims: dims.to_vec(), items: (0..product(dims) as u32).map(|i| base + i).collect() }
    }

    fn row(&self) -> usize {
        product(&self.dims[1..])
    }

    fn with_items(&self, f: impl FnMut(&u32) -> u32) -> Model {
        Model { dims: self.dims.clone(), items: self.items.iter().map(f).collect() }
    }

    fn zip_tail(&self, rank: usize, base: u32, f: impl Fn(u32, u32) -> u32) -> Model {
        let n = product(&self.dims[self.dims.len() - rank..]);
        Model { dims: self.dims.clone(), items: self.items.iter().enumerate().map(|(i, &x)| f(x, base + (i % n) as u32)).collect() }
    }

    /// What the operation has to do, where `base` is the label of the first new element.
    pub fn apply<S: Ty>(&self, op: &Op, base: u32) -> Want {
        use Want::*;
        let rank = self.dims.len();
        let same = || Done(self.clone(), vec![]);
        match op {
            Op::FromFn(d) | Op::FromVec(d) => Done(Model::new(d, base), vec![]),
            Op::FromElem(d) => Done(Model { dims: d.clone(), items: vec![base; product(d)] }, vec![]),
            Op::New | Op::WithCapacity(_) => {
                let d = default_dims::<S>();
                if product(&d) == 0 { Done(Model { dims: d, items: vec![] }, vec![]) } else { Refused }
            }
            Op::Resize(d) | Op::ResizeWith(d) => {
                if d.len() != rank || !fits::<S>(d) {
                    return Refused;
                }
                let old = Sem { dims: self.dims.clone(), ids: self.items.clone() };
                let mut fresh = vec![];
                let mut items = vec![];
                for (p, i) in indices(d).iter().enumerate() {
                    if i.iter().zip(&self.dims).all(|(i, d)| i < d) {
                        items.push(old.at(i));
                    } else {
                        fresh.push(p);
                        items.push(base);
                    }
                }
                let m = Model { dims: d.clone(), items };
                if matches!(op, Op::Resize(_)) { Done(m, vec![]) } else { Fresh(m, fresh) }
            }
            Op::Expand(_, d) | Op::Append(d) => {
                if !growable::<S>(rank) {
                    return Refused;
                }
                let matching = d.len() == rank && d[1..] == self.dims[1..];
                if product(d) == 0 {
                    return if self.items.is_empty() {
                        AnyEmpty
                    } else if matching {
                        same()
                    } else {
                        Either(self.clone())
                    };
                }
                if self.items.is_empty() {
                    if !fits::<S>(d) {
                        Refused
                    } else if d.is_empty() {
                        Either(Model::new(d, base))
                    } else {
                        Done(Model::new(d, base), vec![])
                    }
                } else if matching {
                    let mut m = self.clone();
                    m.dims[0] += d[0];
                    m.items.extend(Model::new(d, base).items);
                    Done(m, vec![])
                } else {
                    Refused
                }
            }
            Op::Extend(n) => {
                let mut m = self.clone();
                m.dims[0] += n;
                m.items.extend(Model::new(&[*n], base).items);
                Done(m, vec![])
            }
            Op::Drain(lo, hi, eat) => {
                if !growable::<S>(rank) || lo > hi || *hi > self.dims[0] {
                    return Refused;
                }
                let r = self.row();
                let taken = self.items[lo * r..hi * r].to_vec();
                let mut m = self.clone();
                m.dims[0] -= hi - lo;
                m.items.drain(lo * r..hi * r);
                match *eat {
                    Eat::Take(k) => Done(m, taken[..k.min(taken.len())].to_vec()),
                    Eat::Fold(_) | Eat::Eval => Done(m, taken),
                    Eat::Leak(k) => Prefix(*lo, taken[..k.min(taken.len())].to_vec()),
                }
            }
            Op::Truncate(n) => {
                if !growable::<S>(rank) {
                    return Refused;
                }
                let mut m = self.clone();
                m.dims[0] = m.dims[0].min(*n);
                m.items.truncate(product(&m.dims));
                Done(m, vec![])
            }
            Op::Clear => {
                let d = default_dims::<S>();
                if product(&d) == 0 { Done(Model { dims: d, items: vec![] }, vec![]) } else { Refused }
            }
            Op::Reserve(n) | Op::ReserveExact(n) => if *n > isize::MAX as usize { Refused } else { same() },
            Op::TryReserve(n) | Op::TryReserveExact(n) => if *n > isize::MAX as usize { Error } else { same() },
            Op::NoMemory(_) => Error,
            Op::ShrinkToFit | Op::ShrinkTo(_) | Op::Spare | Op::Clone | Op::ToTensor | Op::IntoDyn | Op::RawParts => same(),
            Op::CloneFrom(d) | Op::CloneInto(d) => Done(Model::new(d, base), vec![]),
            Op::Map | Op::Apply => Done(self.with_items(|x| x + MAPPED), vec![]),
            Op::ZipWith(r) | Op::Add(r) | Op::AddAssign(r) => Done(self.zip_tail(*r, base, |x, y| x.wrapping_mul(31).wrapping_add(y)), vec![]),
            Op::ZipWithValue => Done(self.zip_tail(rank, base, |x, y| x.wrapping_mul(31).wrapping_add(y)), vec![]),
            Op::Assign(_, r) => Done(self.zip_tail(*r, base, |_, y| y), vec![]),
            Op::Fill => Done(self.with_items(|_| base), vec![]),
            Op::FillWith => Done(Model::new(&self.dims, base), vec![]),
            Op::Set(i) => {
                let mut m = self.clone();
                m.items[*i] = base;
                Done(m, vec![])
            }
            Op::Swap(i, j) => {
                let mut m = self.clone();
                m.items.swap(*i, *j);
                Done(m, vec![])
            }
            Op::IntoShape(d) => {
                if product(d) != self.items.len() || !fits::<S>(d) {
                    return Refused;
                }
                Done(Model { dims: d.clone(), items: self.items.clone() }, vec![])
            }
            Op::IntoVec | Op::IntoFlat => Done(self.clone(), self.items.clone()),
            Op::IntoIter(eat) => Gone(match *eat {
                Eat::Take(k) | Eat::Leak(k) => self.items[..k.min(self.items.len())].to_vec(),
                Eat::Fold(_) | Eat::Eval => self.items.clone(),
            }),
            Op::IntoScalar => if self.items.len() == 1 { Gone(self.items.clone()) } else { Refused },
            Op::SetMapping(d) => Done(Model::new(d, base), vec![]),
            Op::Discard => Gone(vec![]),
        }
    }
}


fn vec<E: Elem>(n: usize, base: u32) -> Vec<E> {
    (0..n as u32).map(|i| E::make(base + i)).collect()
}

/// A source array of dynamic rank.
fn source<E: Elem>(dims: &[usize], base: u32) -> Tensor<E, DynRank> {
    Tensor::<E, Rank<1>>::from(vec(product(dims), base)).into_shape(dims)
}

/// Label of an element that is dropped. (A value already returned would be leaked by the compiler
/// if an argument panics when it is dropped afterwards.)
pub fn spent<E: Elem>(x: E) -> u32 {
    let n = x.label();
    drop(x);
    n
}

fn combine<E: Elem>(x: u32, y: u32) -> E {
    tick(tracked::CALL);
    E::make(x.wrapping_mul(31).wrapping_add(y))
}

/// Remade from an iterator, as expressions of the user do: `f` is called for each item.
fn eat<E: Elem, X: Expression<Item = E>>(e: X, how: &Eat, ret: &mut Vec<u32>) {
    match *how {
        Eat::Take(k) => {
            let mut i = e.into_iter();
            for _ in 0..k {
                if let Some(x) = i.next() {
                    ret.push(x.label());
                }
            }
        }
        Eat::Fold(k) => {
            let mut i = e.into_iter();
            for _ in 0..k {
                if let Some(x) = i.next() {
                    ret.push(x.label());
                }
            }
            i.for_each(|x| {
                tick(tracked::CALL);
                ret.push(x.label());
            });
        }
        Eat::Leak(k) => {
            let mut i = e.into_iter();
            for _ in 0..k {
                if let Some(x) = i.next() {
                    ret.push(x.label());
                }
            }
            std::mem::forget(i);
        }
        Eat::Eval => {
            let owned = e.eval();
            let s: &mdarray::Slice<E, X::Shape> = std::borrow::Borrow::borrow(&owned);
            ret.extend(s.iter().map(|x| x.label()));
        }
    }
}

/// Run an operation on the real code. New elements have labels from `base` on.
pub fn exec<E: Elem, S: Ty>(slot: &mut Option<Tensor<E, S>>, op: &Op, base: u32, ret: &mut Vec<u32>) {
    let start = tracked::start;
    macro_rules! t {
        () => {
            slot.as_mut().unwrap()
        };
    }
    let dims: Vec<usize> = slot.as_ref().map_or(vec![], |t| (0..t.rank()).map(|i| t.dim(i)).collect());
    match op {
        Op::FromFn(d) => {
            let mut n = base;
            let shape = S::from_dims(d);
            start();
            *slot = Some(Tensor::from_fn(shape, |_| {
                tick(tracked::CALL);
                n += 1;
                E::make(n - 1)
            }));
        }
        Op::FromElem(d) => {
            let x = E::make(base);
            start();
            *slot = Some(Tensor::from_elem(S::from_dims(d), x));
        }
        Op::FromVec(d) => {
            let v = vec::<E>(product(d), base);
            start();
            *slot = Some(Tensor::<E, Rank<1>>::from(v).into_shape(S::from_dims(d)));
        }
        Op::New => *slot = Some(Tensor::new()),
        Op::WithCapacity(n) => *slot = Some(Tensor::with_capacity(*n)),
        Op::Resize(d) => {
            let x = E::make(base);
            start();
            t!().resize(d, x)
        }
        Op::ResizeWith(d) => {
            let mut n = base;
            start();
            t!().resize_with(d, || {
                tick(tracked::CALL);
                n += 1;
                E::make(n - 1)
            })
        }
        Op::Expand(Src::View, d) => {
            let x = source::<E>(d, base);
            start();
            t!().expand(&x)
        }
        Op::Expand(Src::Strided, d) => {
            // Axes reversed in memory.
            let r: Vec<usize> = d.iter().rev().copied().collect();
            let labels = Model::new(d, base);
            let sem = Sem { dims: d.clone(), ids: labels.items }.reverse();
            let v: Vec<E> = sem.ids.iter().map(|&x| E::make(x)).collect();
            let x = Tensor::<E, Rank<1>>::from(v).into_shape(&r[..]);
            let x = x.reorder().into_mapping::<DynRank, Strided>();
            start();
            t!().expand(x)
        }
        Op::Expand(Src::Value, d) => {
            let x = source::<E>(d, base);
            start();
            t!().expand(x)
        }
        Op::Expand(Src::FromFn, d) => {
            let mut n = base;
            start();
            t!().expand(expr::from_fn(&d[..], |_: &[usize]| {
                tick(tracked::CALL);
                n += 1;
                E::make(n - 1)
            }))
        }
        Op::Append(d) => {
            let mut x = source::<E>(d, base).into_mapping::<S>();
            start();
            t!().append(&mut x);
            tracked::disarm();
            if product(d) > 0 && (!x.is_empty() || x.dim(0) != 0) {
                ret.push(u32::MAX);
            }
        }
        Op::Extend(n) => {
            let mut k = base;
            let t = (t!() as &mut dyn Any).downcast_mut::<Tensor<E, (Dyn,)>>().expect("rank 1");
            start();
            t.extend((0..*n).map(|_| {
                tick(tracked::CALL);
                k += 1;
                E::make(k - 1)
            }))
        }
        Op::Drain(lo, hi, how) => {
            start();
            eat(t!().drain(*lo..*hi), how, ret)
        }
        Op::Truncate(n) => {
            start();
            t!().truncate(*n)
        }
        Op::Clear => {
            start();
            t!().clear()
        }
        Op::Reserve(n) => t!().reserve(*n),
        Op::ReserveExact(n) => t!().reserve_exact(*n),
        Op::TryReserve(n) => {
            if t!().try_reserve(*n).is_err() {
                ret.push(u32::MAX);
            }
        }
        Op::TryReserveExact(n) => {
            if t!().try_reserve_exact(*n).is_err() {
                ret.push(u32::MAX);
            }
        }
        Op::NoMemory(n) => {
            let t = t!();
            alloc::refuse(1);
            let r = (t.try_reserve(*n).is_err(), t.try_reserve_exact(*n).is_err());
            alloc::refuse(usize::MAX);
            if r.0 && r.1 {
                ret.push(u32::MAX);
            }
        }
        Op::ShrinkToFit => t!().shrink_to_fit(),
        Op::ShrinkTo(n) => t!().shrink_to(*n),
        Op::Spare => {
            if !E::ZST && t!().spare_capacity_mut().len() != t!().capacity() - t!().len() {
                ret.push(u32::MAX);
            }
        }
        Op::Clone => {
            start();
            let c = t!().clone();
            *slot = Some(c);
        }
        Op::CloneFrom(d) => {
            let x = source::<E>(d, base).into_mapping::<S>();
            start();
            t!().clone_from(&x);
        }
        Op::CloneInto(d) => {
            let x = source::<E>(d, base).into_mapping::<S>();
            let Some(t) = (t!() as &mut dyn Any).downcast_mut::<S::Owned<E>>() else {
                // An array of constant size is owned differently.
                let t = t!();
                start();
                t.clone_from(&x);
                return;
            };
            start();
            ToOwned::clone_into(&*x, t)
        }
        Op::ToTensor => {
            start();
            let c = t!().to_tensor();
            *slot = Some(c);
        }
        Op::Map => {
            let t = slot.take().unwrap();
            start();
            *slot = Some(t.map(|x| {
                tick(tracked::CALL);
                E::make(spent(x).wrapping_add(MAPPED))
            }));
        }
        Op::Apply => {
            let t = slot.take().unwrap();
            start();
            *slot = Some(Apply::apply(t, |x: E| {
                let n = spent(x).wrapping_add(MAPPED);
                tick(tracked::CALL);
                E::make(n)
            }));
        }
        Op::ZipWith(r) => {
            let x = source::<E>(&dims[dims.len() - r..], base);
            let t = slot.take().unwrap();
            start();
            *slot = Some(Apply::zip_with(t, &x, |(x, y): (E, &E)| combine(spent(x), y.label())));
        }
        Op::ZipWithValue => {
            let x = source::<E>(&dims, base);
            let t = slot.take().unwrap();
            start();
            *slot = Some(Apply::zip_with(t, x, |(x, y): (E, E)| combine(spent(x), spent(y))));
        }
        Op::Add(r) => {
            // The closure may come before the elements are consumed.
            let x = source::<E>(&dims[dims.len() - r..], base);
            let t = slot.take().unwrap();
            start();
            *slot = Some(Apply::zip_with(t, x.expr().cloned(), |(x, y): (E, E)| combine(spent(x), spent(y))));
        }
        Op::AddAssign(r) => {
            let y = source::<E>(&dims[dims.len() - r..], base);
            start();
            t!().expr_mut().zip(&y).for_each(|(x, y)| *x = combine(x.label(), y.label()));
        }
        Op::Assign(Src::Value, r) => {
            let x = source::<E>(&dims[dims.len() - r..], base);
            start();
            t!().assign(x);
        }
        Op::Assign(Src::FromFn, r) => {
            let n = product(&dims[dims.len() - r..]) as u32;
            let mut k = 0;
            start();
            t!().assign(expr::from_fn(&dims[dims.len() - r..], |_: &[usize]| {
                tick(tracked::CALL);
                k += 1;
                E::make(base + (k - 1) % n)
            }));
        }
        Op::Assign(_, r) => {
            let x = source::<E>(&dims[dims.len() - r..], base);
            start();
            t!().assign(&x);
        }
        Op::Fill => {
            let x = E::make(base);
            start();
            t!().fill(x);
        }
        Op::FillWith => {
            let mut n = base;
            start();
            t!().fill_with(|| {
                tick(tracked::CALL);
                n += 1;
                E::make(n - 1)
            });
        }
        Op::Set(i) => {
            let x = E::make(base);
            start();
            t!()[*i] = x;
        }
        Op::Swap(i, j) => t!()[..].swap(*i, *j),
        Op::IntoShape(d) => {
            let t = slot.take().unwrap();
            if fits::<S>(d) {
                *slot = Some(t.into_shape(S::from_dims(d)));
            } else {
                let t = t.into_dyn();
                *slot = Some(t.into_shape(&d[..]).into_mapping());
            }
        }
        Op::IntoDyn => {
            let t = slot.take().unwrap();
            start();
            *slot = Some(t.into_dyn().into_mapping::<S>());
        }
        Op::IntoFlat => {
            let t = slot.take().unwrap();
            start();
            let t = t.into_flat();
            ret.extend(t.iter().map(|x| x.label()));
            *slot = Some(t.into_shape(S::from_dims(&dims)));
        }
        Op::IntoVec => {
            let t = slot.take().unwrap();
            start();
            let v = t.into_vec();
            ret.extend(v.iter().map(|x| x.label()));
            *slot = Some(Tensor::<E, Rank<1>>::from(v).into_shape(S::from_dims(&dims)));
        }
        Op::RawParts => {
            let t = slot.take().unwrap();
            start();
            let (ptr, mapping, capacity) = t.into_raw_parts();
            *slot = Some(unsafe { Tensor::from_raw_parts(ptr, mapping, capacity) });
        }
        Op::IntoIter(how) => {
            let t = slot.take().unwrap();
            start();
            eat(t.into_expr(), how, ret)
        }
        Op::IntoScalar => {
            let t = slot.take().unwrap();
            start();
            ret.push(t.into_scalar().label());
        }
        Op::Discard => {
            let t = slot.take();
            start();
            drop(t);
        }
        Op::SetMapping(d) => {
            // Fill the spare capacity by hand.
            *slot = Some(Tensor::with_capacity(product(d)));
            let t = t!();
            for (i, x) in t.spare_capacity_mut()[..product(d)].iter_mut().enumerate() {
                x.write(E::make(base + i as u32));
            }
            unsafe { t.set_mapping(DenseMapping::new(S::from_dims(d))) };
        }
    }
    tracked::disarm();
}

/// Operations to try on an array. `limit` bounds the sizes.
pub fn operations<S: Ty, E: Elem>(m: &Model, cap: usize, limit: usize, thorough: bool) -> Vec<Op> {
    operations_to::<S, E>(m, cap, all_dims(m.dims.len(), limit + 1), thorough)
}

/// Operations, with the dimensions to use as arguments.
pub fn operations_to<S: Ty, E: Elem>(m: &Model, cap: usize, all: Vec<Dims>, thorough: bool) -> Vec<Op> {
    let rank = m.dims.len();
    let len = m.items.len();
    let mut ops = vec![];
    let mut targets = all.clone();
    // Sizes that the shape type does not allow, in one position.
    targets.retain(|d| fits::<S>(d) || d.iter().zip(&m.dims).filter(|(a, b)| a != b).count() == 1);
    targets.push([&m.dims[..], &[1]].concat());
    if rank > 0 {
        targets.push(m.dims[1..].to_vec());
    }
    for d in &targets {
        ops.push(Op::Resize(d.clone()));
        ops.push(Op::ResizeWith(d.clone()));
        for s in [Src::View, Src::Strided, Src::Value, Src::FromFn] {
            ops.push(Op::Expand(s, d.clone()));
        }
        if fits::<S>(d) {
            ops.push(Op::Append(d.clone()));
            if d.len() == rank {
                ops.push(Op::CloneFrom(d.clone()));
                ops.push(Op::CloneInto(d.clone()));
            }
        }
    }
    if let Some(&n) = m.dims.first() {
        let row = product(&m.dims[1..]);
        let points = [positions(n), vec![n + 1]].concat();
        for &lo in &points {
            for &hi in points.iter().filter(|&&hi| hi + 1 >= lo) {
                let count = if lo <= hi && hi <= n { (hi - lo) * row } else { 0 };
                for k in 0..=count.min(if thorough { 12 } else { 4 }) {
                    ops.push(Op::Drain(lo, hi, Eat::Take(k)));
                }
                if count > 4 {
                    ops.push(Op::Drain(lo, hi, Eat::Take(count)));
                }
                ops.push(Op::Drain(lo, hi, Eat::Fold(0)));
                ops.push(Op::Drain(lo, hi, Eat::Fold(1)));
                ops.push(Op::Drain(lo, hi, Eat::Leak(0)));
                ops.push(Op::Drain(lo, hi, Eat::Leak(1)));
                ops.push(Op::Drain(lo, hi, Eat::Eval));
            }
        }
        ops.extend(points.into_iter().map(Op::Truncate));
    } else {
        ops.push(Op::Drain(0, 0, Eat::Take(0)));
        ops.push(Op::Truncate(0));
    }
    if S::SIZES.is_some_and(|s| s == [None]) {
        ops.extend((0..=3).map(Op::Extend));
    }
    for n in [0, 1, 5] {
        ops.extend([Op::Reserve(n), Op::ReserveExact(n), Op::TryReserve(n), Op::TryReserveExact(n)]);
    }
    if !E::ZST {
        ops.extend([Op::Reserve(usize::MAX), Op::ReserveExact(usize::MAX), Op::TryReserve(usize::MAX), Op::TryReserveExact(usize::MAX)]);
        ops.push(Op::NoMemory(cap - len + 1));
        for d in all {
            if fits::<S>(&d) && product(&default_dims::<S>()) == 0 && rank == default_dims::<S>().len() {
                ops.push(Op::SetMapping(d));
            }
        }
    }
    ops.extend([Op::Clear, Op::ShrinkToFit, Op::ShrinkTo(0), Op::ShrinkTo(len + 1), Op::Spare, Op::Clone, Op::ToTensor, Op::Map, Op::Apply, Op::ZipWithValue]);
    for r in 0..=rank {
        ops.extend([Op::ZipWith(r), Op::Add(r), Op::AddAssign(r), Op::Assign(Src::View, r)]);
        if r == rank {
            ops.push(Op::Assign(Src::Value, r));
        }
        if r == rank || len > 0 {
            ops.push(Op::Assign(Src::FromFn, r));
        }
    }
    ops.extend([Op::Fill, Op::FillWith]);
    for i in 0..len.min(if thorough { 8 } else { 3 }) {
        ops.push(Op::Set(i));
        ops.push(Op::Swap(i, len - 1 - i));
    }
    let mut shapes = targets.clone();
    shapes.extend([vec![len], vec![1, len], vec![len, 1], vec![], vec![1; rank], vec![len + 1]]);
    shapes.retain(|d| product(d) == len || d.len() < 3);
    shapes.sort();
    shapes.dedup();
    ops.extend(shapes.into_iter().map(Op::IntoShape));
    ops.extend([Op::IntoDyn, Op::IntoFlat, Op::IntoVec, Op::RawParts, Op::IntoScalar, Op::Discard]);
    for k in 0..=len.min(if thorough { 12 } else { 4 }) {
        ops.push(Op::IntoIter(Eat::Take(k)));
    }
    ops.extend([Op::IntoIter(Eat::Take(len)), Op::IntoIter(Eat::Fold(0)), Op::IntoIter(Eat::Fold(1)), Op::IntoIter(Eat::Eval)]);
    ops
}

/// Constructors to start from.
pub fn initial<S: Ty>(limit: usize) -> Vec<Op> {
    let mut ops = vec![];
    let mut ranks = vec![S::SIZES.map_or(1, |s| s.len())];
    if S::SIZES.is_none() {
        ranks = vec![0, 1, 2, 3];
    }
    for rank in ranks {
        for d in all_dims(rank, limit + 1).into_iter().filter(|d| fits::<S>(d)) {
            ops.extend([Op::FromFn(d.clone()), Op::FromElem(d.clone()), Op::FromVec(d)]);
        }
    }
    ops.extend([Op::New, Op::WithCapacity(0), Op::WithCapacity(3)]);
    ops
}

pub fn observe<E: Elem, S: Ty>(t: &Tensor<E, S>) -> Model {
    let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    let items = if product(&dims) == t.len() { t[..].iter().map(|x| x.label()).collect() } else { vec![u32::MAX; t.len()] };
    Model { dims, items }
}

/// An observed transition.
pub struct Seen {
    pub before: Model,
    pub cap_before: usize,
    pub ptr_before: usize,
    pub op: Op,
    pub base: u32,
    pub panicked: bool,
    pub ret: Vec<u32>,
    /// The array afterwards, its capacity and its buffer.
    pub after: Option<(Model, usize, usize)>,
    /// Errors of element accounting up to here.
    pub errors: Vec<String>,
    /// Labels of the live elements before the array is dropped.
    pub live: Vec<u32>,
    pub live_count: usize,
    /// Live elements and blocks after everything is dropped.
    pub left: usize,
    pub blocks: i64,
    /// Callbacks during the operation.
    pub callbacks: u32,
    pub raised: bool,
    /// Allocations made by the operation.
    pub allocations: u64,
}

pub struct Node {
    pub key: (Vec<usize>, usize),
    pub history: Vec<Op>,
}

/// Replay the history, then run the operation with the planned fault.
pub fn step<E: Elem, S: Ty>(history: &[Op], op: &Op, fault: Option<u32>, kinds: u32, follow: bool) -> Seen {
    tracked::reset(None, 0);
    tracked::plan(None, 0);
    let blocks = alloc::live();
    let mut ret = Vec::with_capacity(64);
    let mut slot: Option<Tensor<E, S>> = None;
    for (n, op) in history.iter().enumerate() {
        exec(&mut slot, op, 10000 * (n as u32 + 1), &mut ret);
    }
    ret.clear();
    let base = 10000 * (history.len() as u32 + 1);
    let before = slot.as_ref().map_or(Model { dims: vec![], items: vec![] }, |t| observe(t));
    let (cap_before, ptr_before) = slot.as_ref().map_or((0, 0), |t| (t.capacity(), t.as_ptr() as usize));
    // Leaked by the history.
    let held = if E::TRACKED { before.items.len() } else { 0 };
    let leaked = tracked::live_count() - held;
    let errors = tracked::errors();
    assert!(errors.is_empty(), "history {history:?}: {errors:?}");

    tracked::plan(fault, kinds);
    let count = alloc::count();
    let panicked = attempt(|| exec(&mut slot, op, base, &mut ret)).is_none();
    let allocations = alloc::count() - count;
    let callbacks = tracked::disarm();
    let raised = tracked::raised();
    alloc::refuse(usize::MAX);
    tracked::plan(None, 0);

    let live_count = tracked::live_count() - leaked;
    let after = slot.as_ref().map(|t| (observe(t), t.capacity(), t.as_ptr() as usize));
    let mut errors = tracked::errors();
    let live = if E::ZST { vec![] } else { tracked::live_labels() };
    if follow && errors.is_empty() {
        if let Some(t) = &mut slot {
            // The array can still be used.
            let c = t.clone();
            if observe(&c) != observe(t) {
                errors.push("the array afterwards is not equal to its clone".into());
            }
            drop(c);
            let d: Vec<usize> = (0..t.rank()).map(|i| t.dim(i) + 1).collect();
            if fits::<S>(&d) {
                t.resize(&d, E::make(7));
            }
            let c = t.clone().map(|x| x);
            drop(c);
            if growable::<S>(t.rank()) {
                let e = t.clone();
                t.expand(e);
                t.truncate(1);
            }
            errors.extend(tracked::errors());
        }
    }
    drop(slot);
    errors.extend(tracked::errors());
    let left = tracked::live_count() - leaked;
    let (before_, ret_) = (before.clone(), ret.clone());
    let seen_ret = ret_;
    drop(ret);
    let mut seen = Seen {
        before: before_,
        cap_before,
        ptr_before,
        op: op.clone(),
        base,
        panicked,
        ret: seen_ret,
        after,
        errors,
        live,
        live_count,
        left,
        blocks: 0,
        callbacks,
        raised,
        allocations,
    };
    drop(before);
    // What the report itself holds is not a leak.
    let held = [!seen.before.dims.is_empty(), !seen.before.items.is_empty(), !seen.ret.is_empty(), !seen.live.is_empty()].iter().filter(|x| **x).count()
        + op_blocks(&seen.op)
        + seen.after.as_ref().map_or(0, |a| !a.0.dims.is_empty() as usize + !a.0.items.is_empty() as usize)
        + (seen.errors.capacity() > 0) as usize
        + seen.errors.len();
    seen.blocks = alloc::live() - blocks - held as i64;
    seen
}

fn op_blocks(op: &Op) -> usize {
    match op {
        Op::FromFn(d) | Op::FromElem(d) | Op::FromVec(d) | Op::Resize(d) | Op::ResizeWith(d) | Op::Expand(_, d) | Op::Append(d) | Op::CloneFrom(d) | Op::CloneInto(d) | Op::IntoShape(d) | Op::SetMapping(d) => !d.is_empty() as usize,
        _ => 0,
    }
}

/// Search from the constructors. `judge` checks every transition.
///
/// Without `unmerged`, states are merged by shape and capacity and the search goes on until nothing
/// new is found. With `unmerged`, all histories of that many operations after the constructor are
/// run, so that nothing hidden in an array that looks the same is missed.
pub fn search<E: Elem, S: Ty>(ctx: &Ctx, limit: usize, max_cap: usize, unmerged: Option<usize>, judge: &(dyn Fn(&mut Worker, &[Op], &Op) -> Result<Option<(Vec<usize>, usize)>, String> + Sync)) {
    let thorough = ctx.thorough;
    let name = format!("{} {}", S::NAME, E::NAME);
    let mut known: HashMap<(Vec<usize>, usize), ()> = HashMap::new();
    let mut level: Vec<Vec<Op>> = vec![vec![]];
    let mut depth = 0;
    while !level.is_empty() && unmerged.is_none_or(|n| depth <= n) {
        let found: Mutex<Vec<(usize, usize, (Vec<usize>, usize), Vec<Op>)>> = Mutex::new(vec![]);
        let items: Vec<(usize, Vec<Op>)> = std::mem::take(&mut level).into_iter().enumerate().collect();
        ctx.par(&items, |w, (n, history)| {
            let ops = if history.is_empty() {
                initial::<S>(limit)
            } else {
                w.state();
                // See which operations apply to this state.
                let Some(seen) = attempt(|| step::<E, S>(history, &Op::Spare, None, 0, false)) else { return };
                operations::<S, E>(&seen.before, seen.cap_before.min(1 << 20), limit, thorough)
            };
            let mut mine = vec![];
            for (k, op) in ops.iter().enumerate() {
                let mut next = None;
                w.case(
                    || format!("{name} {history:?} then {op:?}"),
                    |w| {
                        w.step();
                        next = judge(w, history, op)?;
                        w.trace();
                        Ok(())
                    },
                );
                if let Some(key) = next {
                    mine.push((*n, k, key, op.clone()));
                }
            }
            let mut found = found.lock().unwrap();
            for (n, k, key, op) in mine {
                let mut h = history.clone();
                h.push(op);
                found.push((n, k, key, h));
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| (f.0, f.1));
        for (_, _, key, h) in found {
            if key.0.iter().all(|&d| d <= limit) && key.0.len() <= 3 && (E::ZST || key.1 <= max_cap) && (unmerged.is_some() || !known.contains_key(&key)) {
                known.insert(key, ());
                level.push(h);
            }
        }
        depth += 1;
    }
    match unmerged {
        None => ctx.bound(&name, format!("sizes 0..={limit}, capacity up to {max_cap}: {} states, longest shortest history {}", known.len(), depth - 1)),
        Some(n) => ctx.bound(&format!("{name} unmerged"), format!("sizes 0..={limit}: all histories of a constructor and {n} operations")),
    }
}

/// Every operation from a few large arrays, with and without spare capacity.
///
/// Arguments are the dimensions themselves with every single size, or all, changed to values around
/// it: none, one, half, one less, one more and twice as much.
pub fn large<E: Elem, S: Ty>(ctx: &Ctx, shapes: &[&[usize]], judge: &(dyn Fn(&mut Worker, &[Op], &Op) -> Result<Option<(Vec<usize>, usize)>, String> + Sync)) {
    let thorough = ctx.thorough;
    let name = format!("{} {} large", S::NAME, E::NAME);
    let mut items: Vec<(Vec<Op>, Op)> = vec![];
    for d in shapes {
        let len = product(d);
        for spare in [vec![], vec![Op::ReserveExact(2 * len + 7)], vec![Op::ReserveExact(9 * len + 70)]] {
            let history = [vec![Op::FromFn(d.to_vec())], spare].concat();
            let Some(seen) = attempt(|| step::<E, S>(&history, &Op::Spare, None, 0, false)) else { continue };
            let near = |x: usize| [0, 1, x / 2, x.saturating_sub(1), x + 1, 2 * x];
            let mut all = vec![d.to_vec()];
            for i in 0..d.len() {
                for x in near(d[i]) {
                    let mut e = d.to_vec();
                    e[i] = x;
                    all.push(e);
                }
            }
            for k in 2..6 {
                all.push(d.iter().map(|&x| near(x)[k]).collect());
            }
            if d.len() == 2 {
                all.extend([vec![d[0] + 1, d[1] - 1], vec![d[0] - 1, d[1] + 2], vec![d[1], d[0]]]);
            }
            all.sort();
            all.dedup();
            let ops = operations_to::<S, E>(&seen.before, seen.cap_before.min(1 << 20), all, thorough);
            items.extend(ops.into_iter().map(|op| (history.clone(), op)));
        }
    }
    ctx.par(&items, |w, (history, op)| {
        w.case(
            || format!("{name} {history:?} then {op:?}"),
            |w| {
                w.step();
                judge(w, history, op)?;
                w.trace();
                Ok(())
            },
        );
    });
    ctx.bound(&name, format!("{shapes:?}: every operation, without spare capacity, with twice and with nine times the length"));
}

/// Compare a transition with the model. Returns whether the array is still there.
pub fn conforms<S: Ty>(s: &Seen, zst: bool) -> Check {
    let want = s.before.apply::<S>(&s.op, s.base);
    let show = |m: &Model| format!("{:?} {:?}", m.dims, m.items);
    let blank = |v: &[u32]| if zst { vec![0; v.len()] } else { v.to_vec() };
    let eq = |a: &Model, b: &Model| a.dims == b.dims && a.items == blank(&b.items);
    let done = |m: &Model| -> Check {
        ensure!(!s.panicked, "the operation panics");
        let Some((a, _, _)) = &s.after else { return Err("the array is gone".into()) };
        ensure!(eq(a, m), "array is {}, expected {}", show(a), show(m));
        Ok(())
    };
    let unchanged = || -> Check {
        match &s.after {
            Some((a, _, _)) => {
                ensure!(*a == s.before, "refused, but the array is {} instead of {}", show(a), show(&s.before));
                Ok(())
            }
            None => Ok(()),
        }
    };
    let returned = |r: &[u32]| -> Check {
        ensure!(s.ret == blank(r), "returned items {:?}, expected {:?}", s.ret, r);
        Ok(())
    };
    match want {
        Want::Done(m, r) => {
            done(&m)?;
            returned(&r)
        }
        Want::Fresh(m, fresh) => {
            ensure!(!s.panicked, "the operation panics");
            let Some((a, _, _)) = &s.after else { return Err("the array is gone".into()) };
            ensure!(a.dims == m.dims, "dimensions {:?}, expected {:?}", a.dims, m.dims);
            ensure!(a.items.len() == m.items.len(), "{} elements", a.items.len());
            if !zst {
                let mut new = vec![];
                for (p, (x, y)) in a.items.iter().zip(&m.items).enumerate() {
                    if fresh.contains(&p) {
                        new.push(*x);
                    } else {
                        ensure!(x == y, "array is {}, but element {p} has to be kept as {y}", show(a));
                    }
                }
                let n = new.len();
                new.sort();
                new.dedup();
                ensure!(new.len() == n && new.iter().all(|&x| x >= s.base && x < s.base + 10000), "new elements {new:?} are not results of the closure");
            }
            Ok(())
        }
        Want::Gone(r) => {
            ensure!(!s.panicked, "the operation panics");
            returned(&r)
        }
        Want::Refused => {
            ensure!(s.panicked, "the operation is not refused{}", s.after.as_ref().map_or(String::new(), |a| format!(", array is {}", show(&a.0))));
            unchanged()
        }
        Want::Either(m) => if s.panicked { unchanged() } else { done(&m) },
        Want::AnyEmpty => {
            if s.panicked {
                return unchanged();
            }
            let Some((a, _, _)) = &s.after else { return Err("the array is gone".into()) };
            ensure!(a.items.is_empty() && fits::<S>(&a.dims), "array is {}, expected an empty one", show(a));
            Ok(())
        }
        Want::Prefix(rows, r) => {
            ensure!(!s.panicked, "the operation panics");
            returned(&r)?;
            let Some((a, _, _)) = &s.after else { return Err("the array is gone".into()) };
            ensure!(a.dims[1..] == s.before.dims[1..] && a.dims[0] <= rows, "array is {} after leaking a drain", show(a));
            ensure!(a.items == s.before.items[..product(&a.dims)], "array is {} after leaking a drain of {}", show(a), show(&s.before));
            Ok(())
        }
        Want::Error => {
            ensure!(!s.panicked, "the operation panics instead of returning an error");
            ensure!(s.ret == [u32::MAX], "a request that cannot be met gives no error");
            unchanged()
        }
    }
}
