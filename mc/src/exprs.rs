//! Expressions: real expressions of many types, type-erased, each with the item sequence and the
//! closure calls that the reference model gives for it (included by several checks).
#![allow(dead_code)]

use std::borrow::Borrow;
use std::cell::RefCell;
use std::sync::OnceLock;

use mc::engine::attempt;
use mc::model::{Lay, Sem, St, indices, make, make_mut, product};
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::index::Axis;
use mdarray::{Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};

pub fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(17) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0x2545_F491_4F6C_DD1D)
}

/// Items of expressions, reduced to a number that identifies them.
pub trait Tok {
    fn tok(&self) -> u64;
}

impl Tok for u32 {
    fn tok(&self) -> u64 {
        *self as u64
    }
}

impl Tok for u64 {
    fn tok(&self) -> u64 {
        *self
    }
}

impl Tok for usize {
    fn tok(&self) -> u64 {
        mix(3, *self as u64)
    }
}

impl<T: Tok> Tok for &T {
    fn tok(&self) -> u64 {
        (**self).tok()
    }
}

impl<T: Tok> Tok for &mut T {
    fn tok(&self) -> u64 {
        (**self).tok()
    }
}

pub fn pair(a: u64, b: u64) -> u64 {
    mix(mix(5, a), b)
}

impl<A: Tok, B: Tok> Tok for (A, B) {
    fn tok(&self) -> u64 {
        pair(self.0.tok(), self.1.tok())
    }
}

/// Token of an array: its dimensions and elements.
pub fn array_tok(dims: &[usize], mut at: impl FnMut(&[usize]) -> u64) -> u64 {
    if product(dims) > 4096 {
        return mix(!0, product(dims) as u64);
    }
    let mut t = mix(7, dims.len() as u64);
    for d in dims {
        t = mix(t, *d as u64);
    }
    for i in indices(dims) {
        t = mix(t, at(&i));
    }
    t
}

fn slice_tok<S: Shape, L: Layout>(v: &Slice<u32, S, L>) -> u64 {
    let dims: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    array_tok(&dims, &mut |i: &[usize]| v[i] as u64)
}

impl<S: Shape, L: Layout> Tok for View<'_, u32, S, L> {
    fn tok(&self) -> u64 {
        slice_tok(self)
    }
}

impl<S: Shape, L: Layout> Tok for ViewMut<'_, u32, S, L> {
    fn tok(&self) -> u64 {
        slice_tok(self)
    }
}

pub fn sem_tok(s: &Sem) -> u64 {
    array_tok(&s.dims, |i| s.at(i) as u64)
}

thread_local! {
    static LOG: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

/// Record a call of a user closure.
pub fn log(event: u64) {
    LOG.with(|l| l.borrow_mut().push(event));
}

pub fn take_log() -> Vec<u64> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Model of an expression: its shape and, for each element in row-major order, the item and the
/// closure calls that produce it.
#[derive(Clone, Debug)]
pub struct M {
    pub dims: Vec<usize>,
    pub items: Vec<(u64, Vec<u64>)>,
    pub repeatable: bool,
}

impl M {
    pub fn of(sem: &Sem) -> M {
        M { dims: sem.dims.clone(), items: sem.ids.iter().map(|&i| (i as u64, vec![])).collect(), repeatable: true }
    }

    pub fn new(dims: &[usize], items: Vec<(u64, Vec<u64>)>) -> M {
        assert!(product(dims) == items.len());
        M { dims: dims.to_vec(), items, repeatable: true }
    }

    pub fn once(mut self) -> M {
        self.repeatable = false;
        self
    }

    pub fn map(mut self, f: fn(u64) -> u64) -> M {
        for (t, e) in &mut self.items {
            e.push(mix(11, *t));
            *t = f(*t);
        }
        self
    }

    pub fn enumerate(mut self) -> M {
        for (n, (t, _)) in self.items.iter_mut().enumerate() {
            *t = pair(n.tok(), *t);
        }
        self
    }

    /// Zip with broadcasting, or `None` if that is refused.
    pub fn zip(&self, other: &M) -> Option<M> {
        let (n, m) = (self.dims.len(), other.dims.len());
        if (n < m && !self.repeatable) || (m < n && !other.repeatable) {
            return None;
        }
        let dims = if n < m { &other.dims } else { &self.dims };
        let k = n.min(m);
        if self.dims[n - k..] != other.dims[m - k..] {
            return None;
        }
        let items = (0..product(dims))
            .map(|i| {
                let (a, b) = (&self.items[i % self.items.len()], &other.items[i % other.items.len()]);
                (pair(a.0, b.0), [a.1.clone(), b.1.clone()].concat())
            })
            .collect();
        Some(M { dims: dims.clone(), items, repeatable: self.repeatable && other.repeatable })
    }

    pub fn tokens(&self) -> Vec<u64> {
        self.items.iter().map(|i| i.0).collect()
    }

    pub fn events(&self, range: std::ops::Range<usize>) -> Vec<u64> {
        sorted_events(self.items[range].iter().map(|i| i.1.clone()))
    }
}

/// The order of the closure calls for one element is not fixed, so sort them.
fn sorted_events(items: impl Iterator<Item = Vec<u64>>) -> Vec<u64> {
    items.flat_map(|mut v| { v.sort(); v }).collect()
}

/// Normalize a log in the same way, given the number of calls per element.
pub fn normalize(log: Vec<u64>, model: &M, from: usize) -> Vec<u64> {
    let mut r = vec![];
    let mut rest = &log[..];
    for i in from..model.items.len() {
        let n = model.items[i].1.len().min(rest.len());
        let mut v = rest[..n].to_vec();
        v.sort();
        r.extend(v);
        rest = &rest[n..];
    }
    r.extend(rest);
    r
}

/// Type-erased iterator.
pub trait DynIter {
    fn next(&mut self) -> Option<u64>;
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(u64));
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u64>;
    fn collect(self: Box<Self>) -> Vec<u64>;
    fn fork(&self) -> Option<Box<dyn DynIter>>;
}

struct It<I>(I, Option<fn(&I) -> I>);

impl<I: ExactSizeIterator<Item: Tok> + 'static> DynIter for It<I> {
    fn next(&mut self) -> Option<u64> {
        self.0.next().map(|x| x.tok())
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n).map(|x| x.tok())
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(u64)) {
        self.0.fold((), |(), x| f(x.tok()))
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u64> {
        self.0.last().map(|x| x.tok())
    }
    fn collect(self: Box<Self>) -> Vec<u64> {
        self.0.collect::<Vec<_>>().iter().map(|x| x.tok()).collect()
    }
    fn fork(&self) -> Option<Box<dyn DynIter>> {
        self.1.map(|f| Box::new(It(f(&self.0), self.1)) as Box<dyn DynIter>)
    }
}

/// Type-erased expression.
pub trait DynExpr {
    fn dims(&self) -> Vec<usize>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn iter(self: Box<Self>) -> Box<dyn DynIter>;
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(u64));
    fn fold(self: Box<Self>) -> Vec<u64>;
    /// Evaluate; dimensions and items.
    fn eval(self: Box<Self>) -> (Vec<usize>, Vec<u64>);
    /// Evaluate into a tensor of dynamic rank.
    fn eval_dyn(self: Box<Self>) -> (Vec<usize>, Vec<u64>);
    /// Give the expression to another one as an operand of lower or higher rank.
    fn is_repeatable(&self) -> bool;
}

struct Ex<E: Expression, const FULL: bool>(E, Option<fn(&E::IntoIter) -> E::IntoIter>);

fn contents<T: Tok, S: Shape>(s: &Slice<T, S>) -> (Vec<usize>, Vec<u64>) {
    let dims: Vec<usize> = (0..s.rank()).map(|i| s.dim(i)).collect();
    let items = indices(&dims).iter().map(|i| s[&i[..]].tok()).collect();
    (dims, items)
}

impl<E: Expression<Item: Tok + 'static, IntoIter: ExactSizeIterator + 'static> + 'static, const FULL: bool> DynExpr for Ex<E, FULL> {
    fn dims(&self) -> Vec<usize> {
        (0..self.0.rank()).map(|i| self.0.dim(i)).collect()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn iter(self: Box<Self>) -> Box<dyn DynIter> {
        let fork = self.1;
        Box::new(It(self.0.into_iter(), fork))
    }
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(u64)) {
        if const { FULL } {
            self.0.for_each(|x| f(x.tok()))
        } else {
            unreachable!()
        }
    }
    fn fold(self: Box<Self>) -> Vec<u64> {
        if const { FULL } {
            self.0.fold(vec![], |mut v, x| {
                v.push(x.tok());
                v
            })
        } else {
            unreachable!()
        }
    }
    fn eval(self: Box<Self>) -> (Vec<usize>, Vec<u64>) {
        if const { FULL } {
            let owned = self.0.eval();
            let slice: &Slice<E::Item, E::Shape> = owned.borrow();
            contents(slice)
        } else {
            unreachable!()
        }
    }
    fn eval_dyn(self: Box<Self>) -> (Vec<usize>, Vec<u64>) {
        if const { FULL } {
            let mut t = Tensor::<E::Item, DynRank>::new();
            self.0.eval_into(&mut t);
            contents(&t)
        } else {
            unreachable!()
        }
    }
    fn is_repeatable(&self) -> bool {
        E::IS_REPEATABLE
    }
}

/// An expression under test. Making it returns `None` if it is refused with a panic.
pub struct Case {
    pub name: String,
    pub make: Box<dyn Fn() -> Option<Box<dyn DynExpr>>>,
    /// Evaluate the expression twice into the same tensor of dynamic rank.
    pub twice: Box<dyn Fn() -> (Vec<usize>, Vec<u64>)>,
    /// `None` if the expression must be refused.
    pub model: Option<M>,
}

/// Collector of expressions. `FULL` also builds everything besides iteration.
pub struct Out<const FULL: bool> {
    pub cases: Vec<Case>,
}

impl<const FULL: bool> Out<FULL> {
    pub fn new() -> Self {
        Self { cases: vec![] }
    }

    fn push<E>(&mut self, name: String, model: Option<M>, fork: Option<fn(&E::IntoIter) -> E::IntoIter>, f: impl Fn() -> E + Clone + 'static)
    where
        E: Expression<Item: Tok + 'static, IntoIter: ExactSizeIterator + 'static> + 'static,
    {
        let g = f.clone();
        self.cases.push(Case {
            name,
            model,
            make: Box::new(move || attempt(|| f()).map(|e| Box::new(Ex::<E, FULL>(e, fork)) as Box<dyn DynExpr>)),
            twice: Box::new(move || {
                if const { FULL } {
                    let mut t = Tensor::<E::Item, DynRank>::new();
                    g().eval_into(&mut t);
                    g().eval_into(&mut t);
                    contents(&t)
                } else {
                    unreachable!()
                }
            }),
        });
    }

    /// Expression whose iterator can be cloned.
    pub fn add<E>(&mut self, name: impl ToString, model: Option<M>, f: impl Fn() -> E + Clone + 'static)
    where
        E: Expression<Item: Tok + 'static, IntoIter: ExactSizeIterator + Clone + 'static> + 'static,
    {
        self.push(name.to_string(), model, Some(|i: &E::IntoIter| i.clone()), f)
    }

    /// Expression that cannot be cloned.
    pub fn add_once<E>(&mut self, name: impl ToString, model: Option<M>, f: impl Fn() -> E + Clone + 'static)
    where
        E: Expression<Item: Tok + 'static, IntoIter: ExactSizeIterator + 'static> + 'static,
    {
        self.push(name.to_string(), model, None, f)
    }
}

const BUF: usize = 1 << 14;

/// A buffer in which every element is its position, plus an offset for each operand.
fn buffer(slot: usize) -> &'static [u32] {
    static B: [OnceLock<Vec<u32>>; 3] = [const { OnceLock::new() }; 3];
    B[slot].get_or_init(|| (0..BUF as u32).map(|x| x + slot as u32 * SECOND).collect())
}

pub const SECOND: u32 = 100_000;

/// A view of the shared buffer.
pub fn view<S: Shape, L: Lay>(st: &St, second: bool) -> View<'static, u32, S, L> {
    view_of(st, second as usize)
}

/// A view of the shared buffer of an operand.
pub fn view_of<S: Shape, L: Lay>(st: &St, slot: usize) -> View<'static, u32, S, L> {
    make::<u32, S, L>(st, &buffer(slot)[..st.len])
}

thread_local! {
    static SCRATCH: [*mut u32; 3] = std::array::from_fn(|i| Box::leak(buffer(i).to_vec().into_boxed_slice()).as_mut_ptr());
}

/// A mutable view of a buffer of this thread. Only one may be in use at a time.
pub fn view_mut<S: Shape, L: Lay>(st: &St) -> ViewMut<'static, u32, S, L> {
    view_mut_of(st, 0)
}

/// A mutable view of a buffer of this thread. Only one for each operand may be in use at a time.
pub fn view_mut_of<S: Shape, L: Lay>(st: &St, slot: usize) -> ViewMut<'static, u32, S, L> {
    assert!(st.len <= BUF);
    let ptr = SCRATCH.with(|p| p[slot]);
    make_mut::<u32, S, L>(st, unsafe { std::slice::from_raw_parts_mut(ptr, st.len) })
}

pub fn second(m: M) -> M {
    M { items: m.items.into_iter().map(|(t, e)| (t + SECOND as u64, e)).collect(), ..m }
}

/// Model of `from_fn` with the closure `index_fn`.
pub fn m_from_fn(dims: &[usize]) -> M {
    M::new(dims, indices(dims).iter().map(|i| (index_tok(i), vec![mix(13, index_tok(i))])).collect())
}

pub fn index_tok(i: &[usize]) -> u64 {
    i.iter().fold(17, |a, &x| mix(a, x as u64))
}

pub fn index_fn(i: &[usize]) -> u64 {
    log(mix(13, index_tok(i)));
    index_tok(i)
}

fn plus(t: u64) -> u64 {
    t.wrapping_mul(3).wrapping_add(1)
}

/// Closure for `map`.
pub fn mapper<T: Tok>(x: T) -> u64 {
    log(mix(11, x.tok()));
    plus(x.tok())
}

pub trait ModelMap {
    fn mapped(self) -> M;
}

impl ModelMap for M {
    fn mapped(self) -> M {
        self.map(plus)
    }
}

/// An owned array with the given elements.
pub fn tensor<S: Shape>(dims: &[usize]) -> Tensor<u32, S> {
    let n = product(dims) as u32;
    Tensor::<u32, Rank<1>>::from((0..n).collect::<Vec<_>>()).into_shape(dims).into_mapping()
}

pub fn m_iota(dims: &[usize]) -> M {
    M::of(&Sem::iota(dims))
}

/// Views and what is made from a single view.
pub fn g_view<S: Shape + 'static, L: Lay, const F: bool>(o: &mut Out<F>, st: &St)
where
    View<'static, u32, S, L>: Expression<Item = &'static u32, Shape = S> + Clone,
    <View<'static, u32, S, L> as IntoIterator>::IntoIter: ExactSizeIterator + Clone,
{
    let m = M::of(&st.sem());
    let s = st.clone();
    o.add("view", Some(m.clone()), { let s = s.clone(); move || view::<S, L>(&s, false) });
    o.add_once("view_mut", Some(m.clone().once()), { let s = s.clone(); move || view_mut::<S, L>(&s) });
    o.add("cloned", Some(m.clone()), { let s = s.clone(); move || expr::cloned(view::<S, L>(&s, false)) });
    o.add("copied", Some(m.clone()), { let s = s.clone(); move || view::<S, L>(&s, false).copied() });
    o.add("map", Some(m.clone().mapped()), { let s = s.clone(); move || expr::map(view::<S, L>(&s, false), mapper) });
    o.add("enumerate", Some(m.clone().enumerate()), { let s = s.clone(); move || expr::enumerate(view::<S, L>(&s, false)) });
    o.add("map.enumerate.map", Some(m.clone().mapped().enumerate().mapped()), {
        let s = s.clone();
        move || view::<S, L>(&s, false).map(mapper).enumerate().map(mapper)
    });
    o.add_once("view_mut.enumerate", Some(m.clone().once().enumerate()), { let s = s.clone(); move || view_mut::<S, L>(&s).enumerate() });
}

/// Sources that are not views.
pub fn g_source<S: Shape + 'static, const F: bool>(o: &mut Out<F>, dims: &[usize]) {
    let d = dims.to_vec();
    let n = product(dims);
    let shape = move || S::from_dims(&d);
    let m = m_from_fn(dims);
    o.add("from_fn", Some(m.clone()), { let s = shape.clone(); move || expr::from_fn(s(), index_fn) });
    o.add("from_fn.map", Some(m.clone().mapped()), { let s = shape.clone(); move || expr::from_fn(s(), index_fn).map(mapper) });
    o.add("from_fn.enumerate", Some(m.clone().enumerate()), { let s = shape.clone(); move || expr::from_fn(s(), index_fn).enumerate() });
    o.add("from_fn.zip(from_fn)", m.zip(&m), {
        let s = shape.clone();
        move || expr::from_fn(s(), index_fn).zip(expr::from_fn(s(), index_fn))
    });
    o.add("from_elem", Some(M::new(dims, vec![(9, vec![]); n])), { let s = shape.clone(); move || expr::from_elem(s(), 9u32) });
    o.add("from_elem.enumerate", Some(M::new(dims, vec![(9, vec![]); n]).enumerate()), { let s = shape.clone(); move || expr::from_elem(s(), 9u32).enumerate() });
    let d = dims.to_vec();
    o.add_once("tensor by value", Some(m_iota(dims).once()), { let d = d.clone(); move || tensor::<S>(&d).into_expr() });
    o.add_once("tensor by value.map", Some(m_iota(dims).once().mapped()), { let d = d.clone(); move || tensor::<S>(&d).into_expr().map(mapper) });
    o.add_once("tensor by value.zip(from_fn)", m_iota(dims).once().zip(&m), {
        let (s, d) = (shape.clone(), d.clone());
        move || tensor::<S>(&d).into_expr().zip(expr::from_fn(s(), index_fn))
    });
}


pub fn g_scalar<const F: bool>(o: &mut Out<F>) {
    o.add("fill", Some(M::new(&[], vec![(4, vec![])])), || expr::fill(4u32));
    o.add("fill_with", Some(M::new(&[], vec![(6, vec![1])])), || expr::fill_with(|| { log(1); 6u32 }));
    o.add("fill.zip(fill_with)", M::new(&[], vec![(4, vec![])]).zip(&M::new(&[], vec![(6, vec![1])])), || {
        expr::fill(4u32).zip(expr::fill_with(|| { log(1); 6u32 }))
    });
}

pub fn filler() -> u32 {
    log(1);
    6
}

/// Zipped expressions of two views, the second one of dimensions `dims2` (possibly refused).
pub fn g_zip<S: Shape + 'static, L: Lay, R: Shape + 'static, K: Lay, const F: bool>(o: &mut Out<F>, st: &St, st2: &St)
where
    View<'static, u32, S, L>: Clone,
    View<'static, u32, R, K>: Clone,
{
    let a = M::of(&st.sem());
    let b = second(M::of(&st2.sem()));
    let (s, r) = (st.clone(), st2.clone());
    macro_rules! add {
        ($add:ident, $name:expr, $model:expr, |$s:ident, $r:ident| $body:expr) => {{
            let ($s, $r) = (s.clone(), r.clone());
            o.$add($name, $model, move || $body);
        }};
    }
    add!(add, "a.zip(b)", a.zip(&b), |s, r| view::<S, L>(&s, false).zip(view::<R, K>(&r, true)));
    add!(add, "b.zip(a)", b.zip(&a), |s, r| expr::zip(view::<R, K>(&r, true), view::<S, L>(&s, false)));
    add!(add, "a.zip(b.map).map", a.zip(&b.clone().mapped()).map(|m| m.mapped()), |s, r| {
        view::<S, L>(&s, false).zip(view::<R, K>(&r, true).map(mapper)).map(mapper)
    });
    add!(add_once, "mut a.zip(b)", a.clone().once().zip(&b), |s, r| view_mut::<S, L>(&s).zip(view::<R, K>(&r, true)));
    add!(add_once, "b.zip(mut a)", b.zip(&a.clone().once()), |s, r| view::<R, K>(&r, true).zip(view_mut::<S, L>(&s)));
}

/// Zipped expressions with other sources of dimensions `dims2`.
pub fn g_zip_source<S: Shape + 'static, L: Lay, R: Shape + 'static, const F: bool>(o: &mut Out<F>, st: &St, dims2: &[usize])
where
    View<'static, u32, S, L>: Clone,
{
    let a = M::of(&st.sem());
    let (s, d) = (st.clone(), dims2.to_vec());
    let n = product(dims2);
    let f = m_from_fn(dims2);
    let e = M::new(dims2, vec![(9, vec![]); n]);
    let i = m_iota(dims2).once();
    macro_rules! add {
        ($add:ident, $name:expr, $model:expr, |$s:ident, $d:ident| $body:expr) => {{
            let ($s, $d) = (s.clone(), d.clone());
            o.$add($name, $model, move || $body);
        }};
    }
    add!(add, "a.zip(from_fn)", a.zip(&f), |s, d| view::<S, L>(&s, false).zip(expr::from_fn(R::from_dims(&d), index_fn)));
    add!(add, "from_fn.zip(a)", f.zip(&a), |s, d| expr::from_fn(R::from_dims(&d), index_fn).zip(view::<S, L>(&s, false)));
    add!(add, "a.zip(from_elem)", a.zip(&e), |s, d| view::<S, L>(&s, false).zip(expr::from_elem(R::from_dims(&d), 9u32)));
    add!(add_once, "a.zip(tensor by value)", a.zip(&i), |s, d| view::<S, L>(&s, false).zip(tensor::<R>(&d)));
    add!(add_once, "tensor by value.zip(a)", i.zip(&a), |s, d| tensor::<R>(&d).into_expr().zip(view::<S, L>(&s, false)));
    add!(add, "a.zip(from_fn).zip(from_fn)", a.zip(&f).and_then(|z| z.zip(&f)), |s, d| {
        view::<S, L>(&s, false).zip(expr::from_fn(R::from_dims(&d), index_fn)).zip(expr::from_fn(R::from_dims(&d), index_fn))
    });
}

/// Zipped expressions with scalars.
pub fn g_zip_fill<S: Shape + 'static, L: Lay, const F: bool>(o: &mut Out<F>, st: &St)
where
    View<'static, u32, S, L>: Clone,
{
    let a = M::of(&st.sem());
    let s = st.clone();
    let fill = M::new(&[], vec![(4, vec![])]);
    let with = M::new(&[], vec![(6, vec![1])]);
    macro_rules! add {
        ($add:ident, $name:expr, $model:expr, |$s:ident| $body:expr) => {{
            let $s = s.clone();
            o.$add($name, $model, move || $body);
        }};
    }
    add!(add, "a.zip(fill)", a.zip(&fill), |s| view::<S, L>(&s, false).zip(expr::fill(4u32)));
    add!(add, "fill_with.zip(a)", with.zip(&a), |s| expr::fill_with(filler).zip(view::<S, L>(&s, false)));
    add!(add_once, "mut a.zip(fill_with)", a.clone().once().zip(&with), |s| view_mut::<S, L>(&s).zip(expr::fill_with(filler)));
    add!(add, "a.zip(fill_with).enumerate", a.zip(&with).map(|m| m.enumerate()), |s| view::<S, L>(&s, false).zip(expr::fill_with(filler)).enumerate());
}

/// Axis and lane expressions. `k` is the axis that `axis` designates.
pub fn g_axis<S: Shape + 'static, L: Lay, A: Axis + 'static, const F: bool>(o: &mut Out<F>, st: &St, axis: A, k: usize, name: &str) {
    let sem = st.sem();
    let subs = M::new(&[st.dims[k]], (0..st.dims[k]).map(|i| (sem_tok(&sem.axis_at(k, i).unwrap()), vec![])).collect());
    let (outer, lanes) = sem.lanes(k).unwrap();
    let lanes = M::new(&outer, lanes.iter().map(|l| (sem_tok(l), vec![])).collect());
    let s = st.clone();
    macro_rules! add {
        ($add:ident, $name:expr, $model:expr, |$v:ident| $body:expr) => {{
            let s = s.clone();
            o.$add(format!("{}({name})", $name), $model, move || {
                let $v = leak(view::<S, L>(&s, false));
                $body
            });
        }};
        (mut $add:ident, $name:expr, $model:expr, |$v:ident| $body:expr) => {{
            let s = s.clone();
            o.$add(format!("{}({name})", $name), $model, move || {
                let $v = leak_mut(view_mut::<S, L>(&s));
                $body
            });
        }};
    }
    add!(add, "axis_expr", Some(subs.clone()), |v| v.axis_expr(axis));
    add!(add, "lanes", Some(lanes.clone()), |v| v.lanes(axis));
    add!(mut add_once, "axis_expr_mut", Some(subs.clone().once()), |v| v.axis_expr_mut(axis));
    add!(mut add_once, "lanes_mut", Some(lanes.clone().once()), |v| v.lanes_mut(axis));
}

/// Combinations of axis and lane expressions with others.
pub fn g_axis_more<S: Shape + 'static, L: Lay, A: Axis + 'static, const F: bool>(o: &mut Out<F>, st: &St, axis: A, k: usize, name: &str) {
    let sem = st.sem();
    let subs = M::new(&[st.dims[k]], (0..st.dims[k]).map(|i| (sem_tok(&sem.axis_at(k, i).unwrap()), vec![])).collect());
    let (outer, lanes) = sem.lanes(k).unwrap();
    let lanes = M::new(&outer, lanes.iter().map(|l| (sem_tok(l), vec![])).collect());
    let with = M::new(&[], vec![(6, vec![1])]);
    let s = st.clone();
    macro_rules! add {
        ($add:ident, $name:expr, $model:expr, |$v:ident| $body:expr) => {{
            let s = s.clone();
            o.$add(format!("{}({name})", $name), $model, move || {
                let $v = leak(view::<S, L>(&s, false));
                $body
            });
        }};
    }
    add!(add, "lanes.map.enumerate", Some(lanes.clone().mapped().enumerate()), |v| v.lanes(axis).map(mapper).enumerate());
    add!(add, "axis_expr.enumerate.map", Some(subs.clone().enumerate().mapped()), |v| v.axis_expr(axis).enumerate().map(mapper));
    add!(add, "lanes.zip(lanes)", lanes.zip(&lanes), |v| v.lanes(axis).zip(v.lanes(axis)));
    add!(add, "axis_expr.zip(fill_with)", subs.zip(&with), |v| v.axis_expr(axis).zip(expr::fill_with(filler)));
    {
        let (s, d) = (s.clone(), outer.clone());
        o.add(format!("lanes.zip(from_fn)({name})"), lanes.zip(&m_from_fn(&outer)), move || {
            leak(view::<S, L>(&s, false)).lanes(axis).zip(expr::from_fn(&d[..], index_fn))
        });
    }
    {
        let (s, d) = (s.clone(), outer.clone());
        o.add_once(format!("lanes_mut.zip(from_fn)({name})"), lanes.clone().once().zip(&m_from_fn(&outer)), move || {
            leak_mut(view_mut::<S, L>(&s)).lanes_mut(axis).zip(expr::from_fn(&d[..], index_fn))
        });
    }
    {
        // Repeated along a new outer dimension.
        let mut d = vec![2];
        d.extend(&outer);
        let (s, m) = (s.clone(), m_from_fn(&d));
        o.add(format!("from_fn.zip(lanes)({name})"), m.zip(&lanes), move || {
            expr::from_fn(&d[..], index_fn).zip(leak(view::<S, L>(&s, false)).lanes(axis))
        });
    }
    {
        let d = vec![2, st.dims[k]];
        let (s, m) = (s.clone(), m_from_fn(&d));
        o.add(format!("axis_expr.zip(from_fn)({name})"), subs.zip(&m), move || {
            leak(view::<S, L>(&s, false)).axis_expr(axis).zip(expr::from_fn(&d[..], index_fn))
        });
    }
    if !outer.is_empty() {
        // Lanes of the same array in a new expression along its last dimension.
        let d = vec![outer[outer.len() - 1]];
        let (s, m) = (s.clone(), m_from_fn(&d));
        o.add(format!("lanes.zip(tail)({name})"), lanes.zip(&m), move || {
            leak(view::<S, L>(&s, false)).lanes(axis).zip(expr::from_fn(&d[..], index_fn))
        });
    }
}

thread_local! {
    static ARENA: RefCell<Vec<Box<dyn std::any::Any>>> = const { RefCell::new(Vec::new()) };
}

/// Views that live until `clear_arena`.
pub fn leak<T: 'static>(v: T) -> &'static T {
    let b = Box::new(v);
    let r: &'static T = unsafe { &*(&*b as *const T) };
    ARENA.with(|a| a.borrow_mut().push(b));
    r
}

pub fn leak_mut<T: 'static>(v: T) -> &'static mut T {
    let mut b = Box::new(v);
    let r: &'static mut T = unsafe { &mut *(&mut *b as *mut T) };
    ARENA.with(|a| a.borrow_mut().push(b));
    r
}

pub fn clear_arena() {
    ARENA.with(|a| a.borrow_mut().clear());
}

pub fn name_of<L: Lay>() -> &'static str {
    if L::IS_DENSE { "Dense" } else { "Strided" }
}

pub type D = Dense;
pub type T = Strided;
