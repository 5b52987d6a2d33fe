//! C16: conversions between array types.
//!
//! Three explorations on the real code:
//! - all conversion paths up to a depth between the owned forms of an array (native array, Array,
//!   Tensor with constant, dynamic and mixed sizes and dynamic rank, Vec), for each fixed shape;
//! - all by-reference conversions for each fixed shape, layout and shape type;
//! - all fallible conversions: every target type x every source shape (matching or not).
//! Furthermore the construction macros and clone-into-existing for all pairs of shapes.

use mc::engine::{self, Check, Ctx, Worker, attempt, attempt_msg};
use mc::model::{Lay, Sem, St, all_dims, few_permutations, indices, huge_states, large_states, make, make_mut, product, small_dims, strided_from};
use mc::types::{self, Visitor};
use mc::{ensure, ensure_eq};
use mdarray::expr::IntoExpression;
use mdarray::{
    Array, Const, Dense, Dyn, DynRank, IntoCloned, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut, array,
    tensor, view,
};
use std::borrow::{Borrow, BorrowMut};

/// Element: owns memory, so that misuse is noticed by the allocator.
type E = Box<u32>;

fn elems(n: usize) -> Vec<E> {
    (0..n).map(|i| Box::new(100 + i as u32)).collect()
}

/// A value that has a shape and elements.
fn is<T, S: Shape, L: Layout>(x: &Slice<T, S, L>, dims: &[usize], id: impl Fn(&T) -> u32) -> Check {
    let d: Vec<usize> = (0..x.rank()).map(|i| x.dim(i)).collect();
    ensure_eq!(d, dims, "dimensions");
    for (k, i) in indices(dims).iter().enumerate() {
        ensure_eq!(id(&x[&i[..]]), 100 + k as u32, "element {i:?}");
    }
    Ok(())
}

fn boxed(x: &E) -> u32 {
    **x
}

/// Elements of a native array.
fn flat<A, T>(a: &A, n: usize) -> &[T] {
    assert!(size_of::<A>() == n * size_of::<T>());
    unsafe { std::slice::from_raw_parts(a as *const A as *const T, n) }
}

fn flat_is<A, T>(a: &A, n: usize, id: impl Fn(&T) -> u32) -> Check {
    let got: Vec<u32> = flat::<A, T>(a, n).iter().map(id).collect();
    ensure_eq!(got, (0..n).map(|i| 100 + i as u32).collect::<Vec<_>>(), "elements of the native array");
    Ok(())
}

/// Native array with the given elements.
fn native<A, T>(items: Vec<T>) -> A {
    assert!(size_of::<A>() == items.len() * size_of::<T>());
    let mut items = items;
    unsafe {
        items.set_len(0);
        (items.as_ptr() as *const A).read()
    }
}

macro_rules! native_type {
    ($t:ty;) => { $t };
    ($t:ty; $n:literal $(, $r:literal)*) => { [native_type!($t; $($r),*); $n] };
}

// ---------------------------------------------------------------------- owned paths

enum Form<N, A, C, D, M, Y> {
    Native(N),
    Array(A),
    Static(C),
    Ranked(D),
    Mixed(M),
    Dynamic(Y),
    Vector(Vec<E>),
}

struct Edge<F> {
    name: &'static str,
    from: usize,
    run: fn(F) -> F,
}

fn paths<F>(
    w: &mut Worker,
    depth: usize,
    edges: &[Edge<F>],
    starts: &dyn Fn(usize) -> F,
    kind: &dyn Fn(&F) -> usize,
    verify: &dyn Fn(&F) -> Check,
) -> Check {
    // All paths; each is replayed from its start because forms are moved by the conversions.
    let mut stack: Vec<(usize, Vec<usize>, usize)> = (0..7).map(|k| (k, vec![], k)).collect();
    while let Some((start, path, end)) = stack.pop() {
        let mut x = starts(start);
        for &e in &path {
            x = (edges[e].run)(x);
        }
        w.step();
        w.trace();
        let names = || path.iter().map(|&e| edges[e].name).collect::<Vec<_>>();
        verify(&x).map_err(|e| format!("form {start} by {:?}: {e}", names()))?;
        ensure_eq!(kind(&x), end, "harness: kind after {:?}", names());
        if path.len() < depth {
            for (i, e) in edges.iter().enumerate() {
                if e.from == end {
                    let mut p = path.clone();
                    p.push(i);
                    let to = kind(&(e.run)(x_of(starts, end)));
                    stack.push((start, p, to));
                }
            }
        }
    }
    Ok(())
}

fn x_of<F>(starts: &dyn Fn(usize) -> F, kind: usize) -> F {
    starts(kind)
}

macro_rules! fixed {
    ($w:expr, $depth:expr; $(($rank:literal; $($n:literal),+; $($m:ty),+))*) => {{ $({
        let w: &mut Worker = $w;
        type N<T> = native_type!(T; $($n),+);
        type C = ($(Const<$n>,)+);
        type D = Rank<$rank>;
        type M = ($($m,)+);
        const DIMS: &[usize] = &[$($n),+];
        let n = product(DIMS);
        w.state();

        // Owned.
        w.case(|| format!("conversion paths of {DIMS:?}"), |w| {
            type F = Form<N<E>, Array<E, C>, Tensor<E, C>, Tensor<E, D>, Tensor<E, M>, Tensor<E, DynRank>>;
            macro_rules! edge {
                ($name:literal, $from:literal, $f:path, |$x:ident| $body:expr) => {
                    Edge { name: $name, from: $from, run: |x| match x { $f($x) => $body, _ => unreachable!() } }
                };
            }
            fn exact<T>(mut v: Vec<T>) -> Vec<T> { v.reserve(3); v }
            let edges: Vec<Edge<F>> = vec![
                edge!("Array::from(native)", 0, Form::Native, |x| Form::Array(Array::from(x))),
                edge!("Tensor::from(native)", 0, Form::Native, |x| Form::Static(Tensor::<E, C>::from(x))),
                edge!("Tensor::from(native)", 0, Form::Native, |x| Form::Ranked(Tensor::<E, D>::from(x))),
                edge!("Tensor::from(native)", 0, Form::Native, |x| Form::Mixed(Tensor::<E, M>::from(x))),
                edge!("Tensor::from(&native)", 0, Form::Native, |x| Form::Ranked(Tensor::<E, D>::from(&x))),
                edge!("Array::from(&native)", 0, Form::Native, |x| Form::Array(Array::<E, C>::from(&x))),
                edge!("native from array", 1, Form::Array, |x| Form::Native(x.into())),
                edge!("field of array", 1, Form::Array, |x| Form::Native(x.0)),
                edge!("Tensor::from(array)", 1, Form::Array, |x| Form::Static(Tensor::from(x))),
                edge!("map of array", 1, Form::Array, |x| Form::Array(x.map(|e| e))),
                edge!("array.clone()", 1, Form::Array, |x| Form::Array(x.clone())),
                edge!("to_tensor", 1, Form::Array, |x| Form::Static(x.to_tensor())),
                edge!("into_shape of array", 1, Form::Array, |x| Form::Array(x.into_shape::<(Const<{ $($n *)+ 1 }>,)>().into_shape::<C>())),
                edge!("array to_vec", 1, Form::Array, |x| Form::Vector(x.to_vec())),
                edge!("array collect", 1, Form::Array, |x| Form::Vector(x.into_iter().collect())),
                edge!("Array::from(tensor)", 2, Form::Static, |x| Form::Array(Array::from(x))),
                edge!("into_mapping", 2, Form::Static, |x| Form::Ranked(x.into_mapping())),
                edge!("into_mapping", 2, Form::Static, |x| Form::Mixed(x.into_mapping())),
                edge!("into_dyn", 2, Form::Static, |x| Form::Dynamic(x.into_dyn())),
                edge!("to_array", 2, Form::Static, |x| Form::Array(x.to_array())),
                edge!("try_from static", 2, Form::Static, |x| match <N<E>>::try_from(x) {
                    Ok(x) => Form::Native(x),
                    Err(_) => panic!("conversion of matching dimensions fails"),
                }),
                edge!("into_vec", 2, Form::Static, |x| Form::Vector(x.into_vec())),
                edge!("try_from ranked", 3, Form::Ranked, |x| match <N<E>>::try_from(x) {
                    Ok(x) => Form::Native(x),
                    Err(_) => panic!("conversion of matching dimensions fails"),
                }),
                edge!("into_mapping", 3, Form::Ranked, |x| Form::Static(x.into_mapping())),
                edge!("into_dyn", 3, Form::Ranked, |x| Form::Dynamic(x.into_dyn())),
                edge!("into_vec", 3, Form::Ranked, |x| Form::Vector(x.into_vec())),
                edge!("into_shape", 3, Form::Ranked, |x| Form::Static(x.into_shape(C::default()))),
                edge!("tensor.clone()", 3, Form::Ranked, |x| Form::Ranked(x.clone())),
                edge!("raw parts", 3, Form::Ranked, |x| {
                    let (p, m, c) = x.into_raw_parts();
                    Form::Ranked(unsafe { Tensor::from_raw_parts(p, m, c) })
                }),
                edge!("try_from mixed", 4, Form::Mixed, |x| match <N<E>>::try_from(x) {
                    Ok(x) => Form::Native(x),
                    Err(_) => panic!("conversion of matching dimensions fails"),
                }),
                edge!("into_mapping", 4, Form::Mixed, |x| Form::Static(x.into_mapping())),
                edge!("into_dyn", 4, Form::Mixed, |x| Form::Dynamic(x.into_dyn())),
                edge!("into_mapping", 5, Form::Dynamic, |x| Form::Ranked(x.into_mapping())),
                edge!("into_mapping", 5, Form::Dynamic, |x| Form::Static(x.into_mapping())),
                edge!("into_mapping", 5, Form::Dynamic, |x| Form::Mixed(x.into_mapping())),
                edge!("into_dyn", 5, Form::Dynamic, |x| Form::Dynamic(x.into_dyn())),
                edge!("tensor.clone()", 5, Form::Dynamic, |x| Form::Dynamic(x.clone())),
                edge!("into_vec", 5, Form::Dynamic, |x| Form::Vector(x.into_vec())),
                edge!("into_flat", 5, Form::Dynamic, |x| Form::Vector(Vec::from(x.into_flat()))),
                edge!("Tensor::from(vec)", 6, Form::Vector, |x| Form::Ranked(Tensor::from(x).into_shape(D::from_dims(DIMS)))),
                edge!("Tensor::from(vec) with capacity", 6, Form::Vector, |x| Form::Static(Tensor::from(exact(x)).into_shape(C::default()))),
                edge!("Tensor::from(vec)", 6, Form::Vector, |x| Form::Dynamic(Tensor::from(x).into_shape(DIMS))),
                edge!("Tensor::from(slice)", 6, Form::Vector, |x| Form::Dynamic(Tensor::from(&x[..]).into_shape(DIMS.to_vec()))),
                edge!("collect", 6, Form::Vector, |x| Form::Mixed(x.into_iter().collect::<Tensor<_, Rank<1>>>().into_shape(M::from_dims(DIMS)))),
            ];
            let starts = |k: usize| -> F {
                let v = elems(n);
                match k {
                    0 => Form::Native(native(v)),
                    1 => Form::Array(Array(native(v))),
                    2 => Form::Static(Tensor::from(v).into_shape(C::default())),
                    3 => Form::Ranked(Tensor::from(v).into_shape(D::from_dims(DIMS))),
                    4 => Form::Mixed(Tensor::from(v).into_shape(M::from_dims(DIMS))),
                    5 => Form::Dynamic(Tensor::from(v).into_shape(DIMS)),
                    _ => Form::Vector(v),
                }
            };
            let kind = |x: &F| match x {
                Form::Native(_) => 0, Form::Array(_) => 1, Form::Static(_) => 2, Form::Ranked(_) => 3,
                Form::Mixed(_) => 4, Form::Dynamic(_) => 5, Form::Vector(_) => 6,
            };
            let verify = |x: &F| match x {
                Form::Native(x) => flat_is::<_, E>(x, n, boxed),
                Form::Array(x) => is(&**x, DIMS, boxed).and_then(|_| flat_is::<_, E>(&x.0, n, boxed)),
                Form::Static(x) => is(&**x, DIMS, boxed),
                Form::Ranked(x) => is(&**x, DIMS, boxed),
                Form::Mixed(x) => is(&**x, DIMS, boxed),
                Form::Dynamic(x) => is(&**x, DIMS, boxed),
                Form::Vector(x) => {
                    ensure_eq!(x.iter().map(boxed).collect::<Vec<_>>(), (0..n).map(|i| 100 + i as u32).collect::<Vec<_>>(), "vector");
                    Ok(())
                }
            };
            paths(w, $depth, &edges, &starts, &kind, &verify)
        });

        // By reference.
        w.case(|| format!("reference conversions of {DIMS:?}"), |w| {
            let id = |x: &u32| *x;
            let ids: Vec<u32> = (0..n).map(|i| 100 + i as u32).collect();
            let mut nat: N<u32> = native(ids.clone());
            let base = &nat as *const N<u32> as *const u32;
            let at = |p: *const u32, what: &str| -> Check {
                ensure!(n == 0 || p == base, "{what}: refers to other memory");
                Ok(())
            };
            macro_rules! one {
                ($what:literal, $x:expr) => {{
                    let x = $x;
                    w.step();
                    is(&x, DIMS, id).map_err(|e| format!("{}: {e}", $what))?;
                    at(x.as_ptr(), $what)?;
                }};
            }
            macro_rules! copy {
                ($what:literal, $x:expr) => {{
                    let x = $x;
                    w.step();
                    is(&x, DIMS, id).map_err(|e| format!("{}: {e}", $what))?;
                    ensure!(n == 0 || x.as_ptr() != base, "{}: refers to the same memory", $what);
                }};
            }
            one!("View::from(&native)", View::<u32, C>::from(&nat));
            one!("View::from(&native) dynamic", View::<u32, D>::from(&nat));
            one!("View::from(&native) mixed", View::<u32, M>::from(&nat));
            let a: &Array<u32, C> = nat.as_ref();
            one!("native.as_ref()", a.expr());
            let s: &Slice<u32, C> = a.as_ref();
            one!("array.as_ref()", s.expr());
            let s: &Slice<u32, C> = a.borrow();
            one!("array.borrow()", s.expr());
            let b: &N<u32> = a.as_ref();
            w.step();
            flat_is::<_, u32>(b, n, id)?;
            at(b as *const _ as *const u32, "array.as_ref() to native")?;
            let b: &N<u32> = s.as_ref();
            flat_is::<_, u32>(b, n, id)?;
            at(b as *const _ as *const u32, "slice.as_ref() to native")?;
            one!("View::from(&array)", View::from(a));
            one!("View::from(slice)", View::from(s));
            let b: &N<u32> = match View::<u32, D>::from(&nat).try_into() { Ok(b) => b, Err(_) => return Err("matching view to native fails".into()) };
            flat_is::<_, u32>(b, n, id)?;
            at(b as *const _ as *const u32, "view to native")?;
            copy!("Array::from(&array)", Array::<u32, C>::from(a));
            copy!("Array::from(slice)", Array::<u32, C>::from(s));
            copy!("Array::from(view)", Array::<u32, C>::from(s.expr()));
            copy!("Tensor::from(&array)", Tensor::<u32, C>::from(a));
            copy!("Tensor::from(slice)", Tensor::<u32, C>::from(s));
            copy!("Tensor::from(view)", Tensor::<u32, C>::from(s.expr()));
            copy!("Tensor::from(&native)", Tensor::<u32, M>::from(&nat));
            copy!("slice.to_owned()", s.to_owned());
            copy!("dynamic slice.to_owned()", (*View::<u32, D>::from(&nat)).to_owned());
            copy!("into_cloned of reference", { let x: Array<u32, C> = a.into_cloned(); x });
            copy!("Array::from_fn", Array::<u32, C>::from_fn(|i| 100 + Sem::iota(DIMS).at(i)));
            ensure_eq!(a.to_vec(), ids, "to_vec");
            w.trace();

            // Mutable: the parts written through are those of the original.
            macro_rules! mutable {
                ($what:literal, $v:ident, $x:expr) => {{
                    {
                        let $v = &mut nat;
                        let mut x = $x;
                        w.step();
                        is(&x, DIMS, id).map_err(|e| format!("{}: {e}", $what))?;
                        for (k, i) in indices(DIMS).iter().enumerate() { x[&i[..]] = 500 + k as u32; }
                    }
                    ensure_eq!(flat::<_, u32>(&nat, n).to_vec(), (0..n).map(|i| 500 + i as u32).collect::<Vec<_>>(), "{}: written elements", $what);
                    nat = native(ids.clone());
                }};
            }
            mutable!("ViewMut::from(&mut native)", v, ViewMut::<u32, C>::from(v));
            mutable!("ViewMut::from(&mut native) dynamic", v, ViewMut::<u32, D>::from(v));
            mutable!("ViewMut::from(&mut native) mixed", v, ViewMut::<u32, M>::from(v));
            mutable!("native.as_mut()", v, { let a: &mut Array<u32, C> = v.as_mut(); a.expr_mut() });
            mutable!("array.as_mut()", v, { let a: &mut Array<u32, C> = v.as_mut(); let s: &mut Slice<u32, C> = a.as_mut(); s.expr_mut() });
            mutable!("array.borrow_mut()", v, { let a: &mut Array<u32, C> = v.as_mut(); let s: &mut Slice<u32, C> = a.borrow_mut(); s.expr_mut() });
            mutable!("slice.as_mut() to native", v, {
                let a: &mut Array<u32, C> = v.as_mut();
                let s: &mut Slice<u32, C> = a;
                let b: &mut N<u32> = s.as_mut();
                ViewMut::<u32, C>::from(b)
            });
            mutable!("mutable view to native", v, {
                let b: &mut N<u32> = match ViewMut::<u32, D>::from(v).try_into() { Ok(b) => b, Err(_) => return Err("matching mutable view to native fails".into()) };
                ViewMut::<u32, C>::from(b)
            });
            mutable!("ViewMut::from(&mut array)", v, { let a: &mut Array<u32, C> = v.as_mut(); ViewMut::from(a) });
            _ = nat;
            w.trace();

            // Clone to an existing object.
            let mut x = Array::<u32, C>::from_elem(7);
            (&*a_of(&ids)).clone_to(&mut x);
            fn a_of(ids: &[u32]) -> Box<Array<u32, C>> { Box::new(Array(native(ids.to_vec()))) }
            is(&*x, DIMS, id).map_err(|e| format!("clone_to: {e}"))?;
            let mut x = Array::<u32, C>::from_elem(7);
            (*a_of(&ids)).clone_to(&mut x);
            is(&*x, DIMS, id).map_err(|e| format!("clone_to by value: {e}"))?;
            let mut x = Array::<u32, C>::from_elem(7);
            (**a_of(&ids)).clone_into(&mut x);
            is(&*x, DIMS, id).map_err(|e| format!("clone_into array: {e}"))?;
            w.steps(3);
            w.trace();
            Ok(())
        });

        // Arrays from strided views.
        let steps: &[isize] = if $rank < 3 { &[1, 2, -1] } else { &[1, -1] };
        for st in strided_from($rank, &[DIMS.to_vec()], steps, &[0, 1], &few_permutations($rank)) {
            w.state();
            w.case(|| format!("array from {}", st.name()), |w| {
                let sem = st.sem();
                let mut buf = st.buffer();
                let v = make_mut::<u32, C, Strided>(&st, &mut buf);
                let arrays = [v.to_array(), v.array($({ _ = $n; .. }),+), Array::from(v.tensor($({ _ = $n; .. }),+)), Array::from(v.expr()), Array::from(&*v), Array::from(&v), *Box::new((*v).to_array())];
                for (k, a) in arrays.iter().enumerate() {
                    w.step();
                    ensure_eq!(flat::<_, u32>(&a.0, n).to_vec(), sem.ids, "array {k}");
                }
                w.trace();
                Ok(())
            });
        }

        // Single elements.
        w.case(|| format!("into_scalar of {DIMS:?}"), |w| {
            let a = attempt(|| Array::<E, C>(native(elems(n))).into_scalar());
            let t = attempt(|| Tensor::<E, Rank<1>>::from(elems(n)).into_shape(D::from_dims(DIMS)).into_scalar());
            let y = attempt(|| Tensor::<E, Rank<1>>::from(elems(n)).into_shape(DIMS).into_scalar());
            for (what, x) in [("array", a), ("tensor", t), ("dynamic tensor", y)] {
                w.step();
                if n == 1 {
                    ensure_eq!(x.map(|x| *x), Some(100), "into_scalar of {what}");
                } else {
                    w.expect_panic(what, x)?;
                }
            }
            w.trace();
            Ok(())
        });
    })* }};
}

fn all_fixed(w: &mut Worker, part: usize, depth: usize) {
    match part {
        0 => fixed! { w, depth; (1; 0; Dyn) (1; 1; Const<1>) (1; 3; Dyn) (1; 40; Dyn) },
        1 => fixed! { w, depth; (2; 1, 1; Dyn, Const<1>) (2; 2, 3; Const<2>, Dyn) (2; 3, 2; Dyn, Const<2>) },
        2 => fixed! { w, depth; (2; 0, 2; Dyn, Const<2>) (2; 2, 0; Const<2>, Dyn) (2; 1, 4; Const<1>, Dyn) (2; 9, 12; Dyn, Const<12>) },
        3 => fixed! { w, depth; (3; 2, 1, 3; Const<2>, Dyn, Const<3>) (3; 3, 2, 2; Dyn, Const<2>, Dyn) (3; 2, 0, 2; Dyn, Dyn, Const<2>) },
        4 => fixed! { w, depth; (4; 2, 1, 2, 3; Dyn, Const<1>, Dyn, Const<3>) (4; 1, 1, 1, 1; Const<1>, Dyn, Dyn, Dyn) },
        5 => fixed! { w, depth; (5; 2, 1, 3, 1, 2; Const<2>, Dyn, Const<3>, Dyn, Dyn) },
        6 => fixed! { w, depth; (6; 1, 2, 1, 3, 1, 2; Dyn, Const<2>, Dyn, Const<3>, Const<1>, Dyn) },
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------- fallible conversions

/// Try to convert an array of the given dimensions with every source type.
struct Try {
    dims: &'static [usize],
    run: fn(&mut Worker, &[usize]) -> Check,
}

macro_rules! tries {
    ($(($rank:literal; $($n:literal),+; $($src:ty),+))*) => { vec![$(
        Try { dims: &[$($n),+], run: |w, dims| {
            type N<T> = native_type!(T; $($n),+);
            const DIMS: &[usize] = &[$($n),+];
            let n = product(dims);
            let ok = dims == DIMS;
            $({
                // Source types with other constant sizes do not fit these dimensions.
                if let Some(shape) = attempt(|| <$src>::from_dims(dims)) {
                    let t = Tensor::from(elems(n)).into_shape(shape);
                    let p = t.as_ptr();
                    w.step();
                    match <N<E>>::try_from(t) {
                        Ok(x) => {
                            ensure!(ok, "tensor of {dims:?} as {} is accepted as native {DIMS:?}", stringify!($src));
                            flat_is::<_, E>(&x, n, boxed)?;
                        }
                        Err(t) => {
                            ensure!(!ok, "tensor as {} is refused although it matches", stringify!($src));
                            is(&*t, dims, boxed).map_err(|e| format!("returned tensor: {e}"))?;
                            ensure!(n == 0 || t.as_ptr() == p, "returned tensor is another one");
                        }
                    }
                    let mut ids: Vec<u32> = (0..n).map(|i| 100 + i as u32).collect();
                    let base = ids.as_ptr();
                    let st = St::dense(dims);
                    w.step();
                    match <&N<u32>>::try_from(make::<u32, $src, Dense>(&st, &ids)) {
                        Ok(x) => {
                            ensure!(ok, "view of {dims:?} as {} is accepted as native {DIMS:?}", stringify!($src));
                            flat_is::<_, u32>(x, n, |x| *x)?;
                            ensure!(n == 0 || x as *const _ as *const u32 == base, "view: other memory");
                        }
                        Err(v) => {
                            ensure!(!ok, "view as {} is refused although it matches", stringify!($src));
                            is(&*v, dims, |x| *x).map_err(|e| format!("returned view: {e}"))?;
                            ensure!(n == 0 || v.as_ptr() == base, "returned view is another one");
                        }
                    }
                    w.step();
                    match <&mut N<u32>>::try_from(make_mut::<u32, $src, Dense>(&st, &mut ids)) {
                        Ok(x) => {
                            ensure!(ok, "mutable view of {dims:?} as {} is accepted as native {DIMS:?}", stringify!($src));
                            flat_is::<_, u32>(x, n, |x| *x)?;
                            ensure!(n == 0 || x as *mut _ as *const u32 == base, "mutable view: other memory");
                        }
                        Err(v) => {
                            ensure!(!ok, "mutable view as {} is refused although it matches", stringify!($src));
                            is(&*v, dims, |x| *x).map_err(|e| format!("returned view: {e}"))?;
                            ensure!(n == 0 || v.as_ptr() == base, "returned view is another one");
                        }
                    }
                    w.trace();
                    w.count(if ok { "accepted" } else { "refused" });
                }
            })+
            Ok(())
        } },
    )*] };
}

type C<const N: usize> = Const<N>;

fn tries() -> Vec<Try> {
    tries! {
        (1; 0; Rank<1>, (C<0>,), (C<1>,)) (1; 1; Rank<1>, (C<1>,), (C<2>,)) (1; 2; Rank<1>, (C<2>,), (C<1>,)) (1; 4; Rank<1>, (C<4>,)) (1; 40; Rank<1>, (C<40>,)) (2; 9, 12; Rank<2>, (C<9>, Dyn), (Dyn, C<9>)) (3; 4, 5, 6; Rank<3>)
        (2; 0, 0; Rank<2>) (2; 0, 2; Rank<2>, (C<0>, Dyn)) (2; 2, 0; Rank<2>, (Dyn, C<0>)) (2; 1, 1; Rank<2>, (C<1>, Dyn))
        (2; 2, 3; Rank<2>, (C<2>, Dyn), (Dyn, C<3>), (C<3>, C<2>), (C<2>, C<3>), (Dyn, C<2>))
        (2; 3, 2; Rank<2>, (C<2>, Dyn), (Dyn, C<3>), (C<3>, C<2>), (C<2>, C<3>))
        (2; 2, 2; Rank<2>, (C<2>, Dyn), (C<1>, Dyn)) (2; 1, 3; Rank<2>) (2; 3, 1; Rank<2>)
        (3; 1, 2, 3; Rank<3>, (Dyn, C<2>, Dyn), (C<1>, Dyn, C<3>)) (3; 3, 2, 1; Rank<3>, (Dyn, C<2>, Dyn)) (3; 2, 1, 2; Rank<3>)
        (3; 2, 0, 3; Rank<3>) (3; 2, 2, 2; Rank<3>, (Dyn, Dyn, C<2>)) (3; 1, 1, 1; Rank<3>)
        (4; 1, 2, 1, 2; Rank<4>, (Dyn, C<2>, Dyn, Dyn)) (4; 2, 1, 2, 1; Rank<4>) (4; 2, 2, 1, 1; Rank<4>)
        (5; 1, 2, 1, 2, 1; Rank<5>, (Dyn, C<2>, Dyn, Dyn, C<1>)) (5; 2, 1, 1, 1, 2; Rank<5>) (5; 1, 1, 2, 2, 1; Rank<5>)
        (6; 1, 2, 1, 2, 1, 2; Rank<6>, (Dyn, C<2>, Dyn, Dyn, C<1>, Dyn)) (6; 2, 1, 2, 1, 2, 1; Rank<6>) (6; 2, 2, 2, 1, 1, 1; Rank<6>)
    }
}

// ---------------------------------------------------------------------- generic conversions

struct Conv<'a, 'b> {
    w: &'a mut Worker<'b>,
    st: &'a St,
}

impl Visitor for Conv<'_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.st;
        self.w.case(
            || format!("{} as {name} {}", st.name(), if L::IS_DENSE { "dense" } else { "strided" }),
            |w| {
                let sem = st.sem();
                let mut buf = st.buffer();
                let dims = &sem.dims;
                let same = |what: &str, d: Vec<usize>, items: Vec<u32>| -> Check {
                    ensure_eq!(&d, dims, "{what}: dimensions");
                    ensure_eq!(items, sem.ids, "{what}: elements");
                    Ok(())
                };
                macro_rules! same {
                    ($what:literal, $x:expr) => {{
                        let x = $x;
                        let d: Vec<usize> = (0..x.rank()).map(|i| x.dim(i)).collect();
                        let items = indices(&d).iter().map(|i| x[&i[..]]).collect();
                        w.step();
                        same($what, d, items)?;
                    }};
                }
                {
                    let v = make::<u32, S, L>(st, &buf);
                    same!("to_tensor", v.to_tensor());
                    same!("Tensor::from(view)", Tensor::<u32, S>::from(v.expr()));
                    same!("Tensor::from(&slice)", Tensor::<u32, S>::from(&*v));
                    same!("View::from(&view)", View::from(&v));
                    same!("View::from(&slice)", View::from(&*v));
                    same!("as_ref", { let s: &Slice<u32, S, L> = v.as_ref(); s.expr() });
                    same!("borrow", { let s: &Slice<u32, S, L> = v.borrow(); s.expr() });
                    same!("clone", v.clone());
                    same!("into_dyn", v.clone().into_dyn());
                    same!("into_dyn of tensor", v.to_tensor().into_dyn());
                    same!("into_mapping", v.clone().into_mapping::<S::Dyn, L>());
                    same!("into_mapping of tensor", v.to_tensor().into_mapping::<S::Dyn>());
                    w.step();
                    ensure_eq!(v.to_vec(), sem.ids, "to_vec");
                    ensure_eq!(v.to_tensor().into_vec(), sem.ids, "to_tensor, into_vec");
                    let mut t = v.to_tensor();
                    t.fill(9);
                    v.to_tensor().clone_to(&mut t);
                    same!("clone_to", t);
                    let mut t = v.to_tensor();
                    let u: Tensor<u32, S> = (&t).into_cloned();
                    same!("into_cloned", u);
                    t.fill(9);
                    t.clone_from(&v.to_tensor());
                    same!("clone_from", t);
                    let mut t = v.to_tensor();
                    let p = t.as_ptr();
                    macro_rules! within {
                        ($what:literal, $x:expr) => {
                            let x = $x;
                            ensure!(x.as_ptr() == p, "{} refers to other memory", $what);
                            same!($what, x);
                        };
                    }
                    within!("borrow of tensor", { let s: &Slice<u32, S> = t.borrow(); s.expr() });
                    within!("borrow_mut of tensor", { let s: &mut Slice<u32, S> = t.borrow_mut(); s.expr_mut() });
                    within!("as_ref of tensor", { let s: &Slice<u32, S> = t.as_ref(); s.expr() });
                    within!("as_mut of tensor", { let s: &mut Slice<u32, S> = t.as_mut(); s.expr_mut() });
                    within!("View::from(&tensor)", View::<u32, S>::from(&t));
                    within!("ViewMut::from(&mut tensor)", ViewMut::<u32, S>::from(&mut t));
                    let mut e = IntoExpression::into_expr(t);
                    within!("as_ref of owning expression", { let s: &Slice<u32, S> = e.as_ref(); s.expr() });
                    within!("as_mut of owning expression", { let s: &mut Slice<u32, S> = e.as_mut(); s.expr_mut() });
                }
                {
                    let mut v = make_mut::<u32, S, L>(st, &mut buf);
                    same!("View::from(&mutable view)", View::from(&v));
                    same!("ViewMut::from(&mut view)", ViewMut::from(&mut v));
                    same!("ViewMut::from(&mut slice)", ViewMut::from(&mut *v));
                    same!("as_mut", { let s: &mut Slice<u32, S, L> = v.as_mut(); s.expr_mut() });
                    same!("borrow_mut", { let s: &mut Slice<u32, S, L> = v.borrow_mut(); s.expr_mut() });
                    same!("mutable into_dyn", v.expr_mut().into_dyn());
                    same!("to_tensor", v.to_tensor());
                }
                w.trace();
                w.outcome(&(name, L::IS_DENSE, dims.len()));
                Ok(())
            },
        );
    }
}

/// A view copied into an existing view.
fn view_copies<S: Shape, L: Lay>(w: &mut Worker, a: &St, b: &St) -> Check {
    let (x, y) = (a.buffer(), b.buffer());
    let sem = b.sem();
    let y = make::<u32, S, L>(b, &y);
    let mut v = make::<u32, S, L>(a, &x);
    v.clone_from(&y);
    for (what, v) in [("copy", &v), ("source", &y)] {
        let d: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
        ensure_eq!(d, sem.dims, "dimensions of the {what}");
        let items: Vec<u32> = indices(&d).iter().map(|i| v[&i[..]]).collect();
        ensure_eq!(items, sem.ids, "elements of the {what}");
        ensure_eq!(v.len(), items.len(), "length of the {what}");
    }
    w.step();
    w.trace();
    w.outcome(&(&a.dims, &b.dims));
    Ok(())
}

/// Rank 1: slices and vectors.
fn flat_forms(w: &mut Worker, n: usize) {
    w.state();
    w.case(
        || format!("flat forms of {n} elements"),
        |w| {
            let mut ids: Vec<u32> = (0..n).map(|i| 100 + i as u32).collect();
            let want = ids.clone();
            let base = ids.as_ptr();
            let id = |x: &u32| *x;
            let v = View::from(&ids[..]);
            is(&*v, &[n], id)?;
            ensure!(v.as_ptr() == base, "View::from(&[T]) refers to other memory");
            let s: &[u32] = v.into();
            ensure!(s.as_ptr() == base && s == &want[..], "slice of a view: {s:?}");
            let v = View::from(&ids[..]);
            let s: &[u32] = v.as_ref();
            ensure!(s.as_ptr() == base && s == &want[..], "as_ref of a view: {s:?}");
            ensure!(v[..] == want[..], "view[..]");
            is(&*Tensor::<u32, Rank<1>>::from(&ids[..]), &[n], id)?;
            is(&*Tensor::<u32, Rank<1>>::from(ids.clone()), &[n], id)?;
            is(&*ids.iter().copied().collect::<Tensor<u32, Rank<1>>>(), &[n], id)?;
            let t = Tensor::<u32, Rank<1>>::from(ids.clone());
            let s: &[u32] = t.as_ref();
            ensure!(s == &want[..], "as_ref of a tensor: {s:?}");
            ensure_eq!(Vec::from(t), want, "vector of a tensor");
            let mut t = Tensor::<u32, Rank<1>>::from(ids.clone());
            let s: &mut [u32] = t.as_mut();
            s.reverse();
            ensure_eq!(t.into_vec(), want.iter().rev().copied().collect::<Vec<_>>(), "as_mut of a tensor");
            {
                let v = ViewMut::from(&mut ids[..]);
                is(&*v, &[n], id)?;
                let s: &mut [u32] = v.into();
                ensure!(s.as_ptr() == base && s.len() == n, "slice of a mutable view");
                s.reverse();
            }
            ensure_eq!(ids, want.iter().rev().copied().collect::<Vec<_>>(), "written through a mutable view");
            let mut v = ViewMut::from(&mut ids[..]);
            let s: &mut [u32] = v.as_mut();
            s.reverse();
            ensure_eq!(ids, want, "written through as_mut");
            // Extend by values and references.
            let mut t = Tensor::<u32, Rank<1>>::from(vec![1, 2]);
            t.extend(ids.iter());
            t.extend(ids.clone());
            let all: Vec<u32> = [1, 2].iter().chain(&want).chain(&want).copied().collect();
            ensure_eq!(t.dim(0), all.len(), "extend: size");
            ensure_eq!(t.into_vec(), all, "extend: elements");
            w.steps(16);
            w.trace();
            Ok(())
        },
    );
}

/// Zero-sized elements.
fn zero_sized(w: &mut Worker) {
    w.case(
        || "zero-sized elements".into(),
        |w| {
            let a = Array::from([[(); 3]; 2]);
            let t = Tensor::from(a);
            ensure_eq!((t.dim(0), t.dim(1), t.len()), (2, 3, 6), "tensor from array");
            let t = t.into_dyn().into_mapping::<Rank<2>>();
            ensure!(<[[(); 2]; 3]>::try_from(t.clone()).is_err(), "accepted");
            ensure!(<[[(); 3]; 2]>::try_from(t).is_ok(), "refused");
            let t = Tensor::<(), Rank<2>>::from([[(); 3]; 2]);
            ensure_eq!(t.into_vec().len(), 6, "into_vec");
            let t = Tensor::<(), Rank<1>>::from(vec![(); 5]);
            ensure_eq!(t.dim(0), 5, "Tensor::from(vec)");
            w.steps(5);
            w.trace();
            Ok(())
        },
    );
}

/// Clone into an existing array, for all pairs of shapes.
fn clone_pairs(w: &mut Worker, a: &[usize], b: &[usize]) {
    fn pair<S: Shape>(w: &mut Worker, name: &str, a: &[usize], b: &[usize]) {
        let (Some(sa), Some(sb)) = (attempt(|| S::from_dims(a)), attempt(|| S::from_dims(b))) else { return };
        w.case(
            || format!("clone {a:?} to {b:?} as {name}"),
            |w| {
                for extra in [0, 5] {
                    let source = || Tensor::<E, Rank<1>>::from(elems(product(a))).into_shape(sa.clone());
                    let target = || {
                        let mut v: Vec<E> = (0..product(b)).map(|i| Box::new(900 + i as u32)).collect();
                        v.reserve(extra);
                        Tensor::<E, Rank<1>>::from(v).into_shape(sb.clone())
                    };
                    let (s, mut t) = (source(), target());
                    t.clone_from(&s);
                    is(&*t, a, boxed).map_err(|e| format!("clone_from: {e}"))?;
                    is(&*s, a, boxed).map_err(|e| format!("source of clone_from: {e}"))?;
                    let mut t = target();
                    (&s).clone_to(&mut t);
                    is(&*t, a, boxed).map_err(|e| format!("clone_to: {e}"))?;
                    let mut t = target();
                    source().clone_to(&mut t);
                    is(&*t, a, boxed).map_err(|e| format!("clone_to by value: {e}"))?;
                    // The owned type of the slice is an array if all sizes are constant.
                    let view = s.expr();
                    let mut t = (*target()).to_owned();
                    (*view).clone_into(&mut t);
                    is(t.borrow(), a, boxed).map_err(|e| format!("clone_into: {e}"))?;
                    is((*view).to_owned().borrow(), a, boxed).map_err(|e| format!("to_owned: {e}"))?;
                    w.steps(5);
                }
                w.trace();
                Ok(())
            },
        );
    }
    if a.len() == b.len() {
        match a.len() {
            0 => pair::<()>(w, "()", a, b),
            1 => {
                pair::<Rank<1>>(w, "Rank<1>", a, b);
                pair::<(C<2>,)>(w, "(C<2>)", a, b);
            }
            2 => {
                pair::<Rank<2>>(w, "Rank<2>", a, b);
                pair::<(C<2>, Dyn)>(w, "(C<2>, Dyn)", a, b);
                pair::<(Dyn, C<2>)>(w, "(Dyn, C<2>)", a, b);
                pair::<(C<2>, C<1>)>(w, "(C<2>, C<1>)", a, b);
            }
            3 => {
                pair::<Rank<3>>(w, "Rank<3>", a, b);
                pair::<(Dyn, C<2>, Dyn)>(w, "(Dyn, C<2>, Dyn)", a, b);
                pair::<(C<2>, C<2>, Dyn)>(w, "(C<2>, C<2>, Dyn)", a, b);
            }
            _ => (),
        }
    }
    pair::<DynRank>(w, "DynRank", a, b);
}

// ---------------------------------------------------------------------- macros

/// Elements in the order in which the macro arguments are evaluated.
struct Order(std::cell::Cell<u32>);

impl Order {
    fn next(&self) -> u32 {
        let x = self.0.get();
        self.0.set(x + 1);
        x
    }
}

fn macros(w: &mut Worker) {
    // List forms: arguments are evaluated in order and have the nested positions.
    macro_rules! list {
        ($e:ident; $($dims:expr => [$($body:tt)*];)*) => { $(
            w.case(|| format!("macro list {:?} {}", $dims, stringify!($($body)*)), |w| {
                let dims: Vec<usize> = $dims.to_vec();
                let o = Order(100.into());
                #[allow(unused)]
                let $e = || o.next();
                is(&*array![$($body)*], &dims, |x: &u32| *x).map_err(|e| format!("array!: {e}"))?;
                let o = Order(100.into());
                #[allow(unused)]
                let $e = || o.next();
                is(&*tensor![$($body)*], &dims, |x: &u32| *x).map_err(|e| format!("tensor!: {e}"))?;
                let o = Order(100.into());
                #[allow(unused)]
                let $e = || o.next();
                is(&*view![$($body)*], &dims, |x: &u32| *x).map_err(|e| format!("view!: {e}"))?;
                w.steps(3);
                w.trace();
                Ok(())
            });
        )* };
    }
    list! {
        e;
        [0] => [];
        [1] => [e()];
        [3] => [e(), e(), e()];
        [3] => [e(), e(), e(),];
        [1, 0] => [[]];
        [2, 0] => [[], []];
        [1, 1] => [[e()]];
        [2, 3] => [[e(), e(), e()], [e(), e(), e()]];
        [3, 2] => [[e(), e(),], [e(), e()], [e(), e(),],];
        [1, 2, 3] => [[[e(), e(), e()], [e(), e(), e()]]];
        [3, 1, 2] => [[[e(), e()]], [[e(), e()]], [[e(), e()],],];
        [2, 1, 0] => [[[]], [[]]];
        [2, 1, 2, 1] => [[[[e()], [e()]]], [[[e()], [e()]]]];
        [1, 2, 1, 2] => [[[[e(), e()]], [[e(), e()]]]];
        [1, 1, 3, 0] => [[[[], [], []]]];
        [1, 2, 1, 1, 2] => [[[[[e(), e()]]], [[[e(), e()]]]]];
        [2, 1, 2, 1, 1] => [[[[[e()]], [[e()]]]], [[[[e()]], [[e()]]]]];
        [1, 1, 1, 2, 0] => [[[[[], []]]]];
        [2, 1, 1, 2, 1, 1] => [[[[[[e()]], [[e()]]]]], [[[[[e()]], [[e()]]]]]];
        [1, 2, 1, 1, 1, 2] => [[[[[[e(), e()]]]], [[[[e(), e()]]]]]];
        [1, 1, 2, 1, 3, 1] => [[[[[[e()], [e()], [e()]]], [[[e()], [e()], [e()]]]]]];
    }
    // Repeat forms.
    macro_rules! repeat {
        ($($dims:expr => [$($body:tt)*];)*) => { $(
            w.case(|| format!("macro repeat {:?}", $dims), |w| {
                let dims: Vec<usize> = $dims.to_vec();
                macro_rules! all {
                    ($name:ident, $x:expr) => {
                        let x = $x;
                        let d: Vec<usize> = (0..x.rank()).map(|i| x.dim(i)).collect();
                        ensure_eq!(d, dims, "{}: dimensions", stringify!($name));
                        for i in indices(&d) {
                            ensure_eq!(x[&i[..]], 7u32, "{}: element {i:?}", stringify!($name));
                        }
                    };
                }
                all!(array, array![$($body)*]);
                all!(tensor, tensor![$($body)*]);
                all!(view, view![$($body)*].to_tensor());
                w.steps(3);
                w.trace();
                Ok(())
            });
        )* };
    }
    repeat! {
        [0] => [7; 0];
        [4] => [7; 4];
        [2, 3] => [[7; 3]; 2];
        [3, 1] => [[7; 1]; 3];
        [0, 3] => [[7; 3]; 0];
        [2, 0] => [[7; 0]; 2];
        [2, 3, 1] => [[[7; 1]; 3]; 2];
        [1, 2, 3] => [[[7; 3]; 2]; 1];
        [4, 1, 2, 3] => [[[[7; 3]; 2]; 1]; 4];
        [1, 2, 3, 4] => [[[[7; 4]; 3]; 2]; 1];
        [1, 2, 3, 2, 4] => [[[[[7; 4]; 2]; 3]; 2]; 1];
        [4, 2, 1, 3, 1] => [[[[[7; 1]; 3]; 1]; 2]; 4];
        [1, 2, 3, 4, 1, 2] => [[[[[[7; 2]; 1]; 4]; 3]; 2]; 1];
        [3, 1, 2, 1, 4, 1] => [[[[[[7; 1]; 4]; 1]; 2]; 1]; 3];
    }
    // The sizes of a tensor do not have to be constant.
    for (i, j, k) in [(0, 1, 2), (2, 0, 1), (1, 2, 3), (3, 2, 1)] {
        w.case(
            || format!("tensor! repeat {i} {j} {k}"),
            |w| {
                let x = tensor![[[vec![1, 2]; k]; j]; i];
                ensure_eq!([x.dim(0), x.dim(1), x.dim(2)], [i, j, k], "dimensions");
                ensure!(x.iter().all(|x| x == &[1, 2]) && x.len() == i * j * k, "elements");
                w.step();
                w.trace();
                Ok(())
            },
        );
    }
    // Dimensions of the elements' type.
    w.case(
        || "scalars".into(),
        |w| {
            let x: Array<E, ()> = Array(Box::new(100));
            is(&*x, &[], boxed)?;
            let t = Tensor::from(x);
            is(&*t, &[], boxed)?;
            let x = Array::<E, ()>::from(t);
            is(&*x.to_tensor().into_dyn(), &[], boxed)?;
            is(&*x.clone().into_shape::<(C<1>, C<1>)>(), &[1, 1], boxed)?;
            let t = x.to_tensor().into_dyn().into_mapping::<()>();
            is(&*t, &[], boxed)?;
            is(&*t.clone().into_shape([1, 1]), &[1, 1], boxed)?;
            is(&*Tensor::<E, Rank<1>>::from(elems(1)).into_shape([]), &[], boxed)?;
            ensure_eq!(*t.into_scalar(), 100, "into_scalar");
            ensure_eq!(*x.into_scalar(), 100, "into_scalar");
            w.steps(9);
            w.trace();
            Ok(())
        },
    );
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    let depth = if t { 7 } else { 4 };
    ctx.bound("conversion paths", format!("7 owned forms, 44 conversions, all paths up to length {depth}, for 17 fixed shapes of ranks 1-6"));
    ctx.par(&[6usize, 5, 4, 3, 2, 1, 0], |w, &part| all_fixed(w, part, depth));

    let all = tries();
    let limit = if t { 5 } else { 4 };
    ctx.bound("fallible conversions", format!("{} native array types x 1-6 source types x all source shapes with sizes 0..{} (0..2 for rank 4 and higher); by value, reference and mutable reference", all.len(), limit - 1));
    ctx.par(&all, |w, x| {
        let rank = x.dims.len();
        let mut all = all_dims(rank, if rank < 3 { 5 } else if rank == 3 { limit } else { 3 });
        if product(x.dims) > 9 {
            // The dimensions with one or two sizes changed by one.
            for d in indices(&vec![3; rank]) {
                all.push(d.iter().zip(x.dims).map(|(k, n)| n + k - 1).collect());
            }
            all.push(x.dims.iter().rev().copied().collect());
        }
        for dims in all {
            w.state();
            w.case(|| format!("try native {:?} from {dims:?}", x.dims), |w| {
                attempt_msg(|| (x.run)(w, &dims)).unwrap_or_else(|e| Err(format!("panics: {e}")))
            });
        }
    });

    let mut jobs: Vec<St> = vec![];
    for rank in 0..=4 {
        let all = all_dims(rank, if rank < 3 { limit } else { 3 });
        jobs.extend(all.iter().map(|d| St::dense(d)));
        let steps: &[isize] = if rank < 3 { &[1, -1, 2] } else { &[1, -2] };
        jobs.extend(strided_from(rank, &all, steps, &[0, 1], &few_permutations(rank)));
    }
    for dims in [vec![1, 2, 1, 1, 2], vec![2, 1, 0, 1, 1], vec![1, 2, 1, 1, 2, 1], vec![2, 1, 1, 1, 1, 2]] {
        jobs.push(St::dense(&dims));
    }
    jobs.extend((1..=4).flat_map(large_states));
    ctx.bound("huge", "300 to 1200 elements in 6 shapes, dense and strided");
    jobs.extend((1..=3).flat_map(huge_states));
    ctx.bound("views", "17 to 130 elements in some shapes; ranks 0-4 with sizes 0..3 (0..2 for ranks 3, 4), dense and strided with permutations and steps; some dense of ranks 5, 6; all shape types of the table");
    ctx.par(&jobs, |w, st| {
        w.state();
        if st.dense {
            types::each::<Dense>(&st.dims, &mut Conv { w, st });
        }
        types::each::<Strided>(&st.dims, &mut Conv { w, st });
    });

    ctx.bound("views copied into views", "all ordered pairs of views with the same layout type of ranks 0-3, sizes 0..2 (strided 1..2), as static and dynamic rank");
    let kinds: Vec<St> = (0..=3)
        .flat_map(|rank| {
            let dense = all_dims(rank, 3).iter().map(|d| St::dense(d)).collect::<Vec<_>>();
            let strided = strided_from(rank, &small_dims(rank, 2), &[1, -2], &[0], &few_permutations(rank));
            dense.into_iter().chain(strided)
        })
        .collect();
    ctx.par(&kinds, |w, a| {
        for b in kinds.iter().filter(|b| b.dense == a.dense) {
            macro_rules! copies {
                ($s:ty, $l:ty) => {
                    w.case(
                        || format!("view {} copied into {} as {} {}", b.name(), a.name(), stringify!($s), stringify!($l)),
                        |w| view_copies::<$s, $l>(w, a, b),
                    )
                };
            }
            match (a.dense, a.dims.len(), b.dims.len()) {
                (true, 1, 1) => copies!(Rank<1>, Dense),
                (true, 2, 2) => copies!(Rank<2>, Dense),
                (true, 3, 3) => copies!(Rank<3>, Dense),
                (false, 1, 1) => copies!(Rank<1>, Strided),
                (false, 2, 2) => copies!(Rank<2>, Strided),
                (false, 3, 3) => copies!(Rank<3>, Strided),
                _ => (),
            }
            if a.dense {
                copies!(DynRank, Dense);
            } else {
                copies!(DynRank, Strided);
            }
        }
    });

    ctx.one(|w| {
        for n in (0..8).chain([17, 40, 130]) {
            flat_forms(w, n);
        }
        zero_sized(w);
        macros(w);
    });

    let mut dims: Vec<Vec<usize>> = (0..=if t { 4 } else { 3 }).flat_map(|r| all_dims(r, if r < 3 { 4 } else { 3 })).collect();
    dims.push(vec![1, 2, 1, 2]);
    dims.push(vec![2, 2, 1, 1, 1]);
    dims.extend([vec![17], vec![40], vec![130], vec![9, 12], vec![3, 17], vec![17, 3], vec![4, 5, 6]]);
    ctx.bound("clone into existing", format!("all pairs of {} shapes of ranks 0-3 (and some of ranks 4, 5), with and without spare capacity", dims.len()));
    ctx.par(&dims, |w, a| {
        for b in &dims {
            clone_pairs(w, a, b);
        }
    });
}

fn main() {
    engine::main(check)
}
