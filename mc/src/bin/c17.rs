//! C17: static, mixed and dynamic shape types describe the same array semantics.
//!
//! For every shape type of a table of static/dynamic mixtures and every array that it can describe,
//! a battery of operations is run on the real code. Every outcome (dimensions and elements of
//! every result, or refusal) is compared with a reference model where the model gives one, and with
//! the outcome for `Rank<n>`. All ordered pairs of shape types are converted and combined for all
//! small shapes, and the shape types themselves are compared with plain lists of sizes.

use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};

use mc::engine::{self, Check, Ctx, Worker, attempt};
use mc::model::{Lay, Sem, St, all_dims, dims_of, few_permutations, indices, large_states, make, make_mut, permutations, product, strided_from};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Expression};
use mdarray::index::{Cols, Rows};
use mdarray::{
    Const, Dense, DenseMapping, Dim, Dyn, DynRank, IntoShape, Layout, Mapping, Rank, Shape, Slice, Strided,
    StridedMapping, Tensor, step,
};

/// Dimensions and elements.
type Arr = (Vec<usize>, Vec<u32>);
/// Results of an operation, `None` if it is refused.
type Outcome = Option<Vec<Arr>>;
type Outcomes = Vec<(String, Outcome, Option<Outcome>)>;

fn arr<S: Shape, L: Layout>(x: &Slice<u32, S, L>) -> Arr {
    let dims: Vec<usize> = (0..x.rank()).map(|i| x.dim(i)).collect();
    assert!(product(&dims) <= 4096 && x.len() == product(&dims));
    let items = indices(&dims).iter().map(|i| x[&i[..]]).collect();
    (dims, items)
}

fn sem(s: Sem) -> Arr {
    (s.dims, s.ids)
}

struct Out {
    list: Outcomes,
}

impl Out {
    /// Run an operation; the model says what it has to give, if it does.
    fn run(&mut self, name: impl ToString, model: Option<Option<Vec<Sem>>>, f: &dyn Fn() -> Vec<Arr>) {
        let got = attempt(f);
        let model = model.map(|m| m.map(|v| v.into_iter().map(sem).collect()));
        self.list.push((name.to_string(), got, model));
    }
}

/// Operations for every shape type.
fn battery<S: Shape + 'static, L: Lay>(st: &St) -> Outcomes {
    let m = st.sem();
    let dims = &st.dims;
    let (rank, n) = (dims.len(), product(dims));
    let buf = st.buffer();
    let v = make::<u32, S, L>(st, &buf);
    let mut o = Out { list: vec![] };
    let one = |x: Option<Sem>| Some(x.map(|x| vec![x]));

    // Whole array.
    o.run("to_tensor", one(Some(m.clone())), &|| vec![arr(&v.to_tensor())]);
    o.run("clone", one(Some(m.clone())), &|| vec![arr(&v.clone())]);
    o.run("into_dyn", one(Some(m.clone())), &|| vec![arr(&v.clone().into_dyn())]);
    o.run("remap to dynamic", one(Some(m.clone())), &|| vec![arr(&v.remap::<S::Dyn, Strided>())]);
    o.run("eval", one(Some(m.clone())), &|| vec![eval(v.expr().copied())]);
    o.run("eval of map", one(Some(Sem { dims: dims.clone(), ids: m.ids.iter().map(|x| x + 1).collect() })), &|| {
        vec![eval(v.expr().map(|x| x + 1))]
    });
    o.run("eval of from_fn", one(Some(Sem::iota(dims))), &|| {
        let all = Sem::iota(dims);
        vec![eval(expr::from_fn(S::from_dims(dims), |i| all.at(i)))]
    });
    o.run("eval of from_elem", one(Some(Sem { dims: dims.clone(), ids: vec![5; n] })), &|| {
        vec![eval(expr::from_elem(S::from_dims(dims), 5))]
    });
    o.run("Tensor::from_fn", one(Some(Sem::iota(dims))), &|| {
        let all = Sem::iota(dims);
        vec![arr(&Tensor::<u32, S>::from_fn(S::from_dims(dims), |i| all.at(i)))]
    });
    o.run("iter", Some(Some(vec![Sem { dims: vec![n], ids: m.ids.clone() }])), &|| vec![(vec![n], v.iter().copied().collect())]);
    o.run("enumerate", None, &|| {
        let mut x = vec![];
        v.expr().enumerate().for_each(|(i, e)| x.push(i as u32 * 1000 + e));
        vec![(vec![n], x)]
    });
    o.run("zip with itself", one(Some(Sem { dims: dims.clone(), ids: m.ids.iter().map(|x| x * 1001).collect() })), &|| {
        vec![eval(v.expr().zip(v.expr()).map(|(x, y)| x * 1000 + y))]
    });
    o.run("operator", one(Some(Sem { dims: dims.clone(), ids: m.ids.iter().map(|x| x * 2).collect() })), &|| {
        vec![arr(&(v.to_tensor() + &v.to_tensor()))]
    });
    o.run("debug text", None, &|| vec![(vec![], format!("{:?}", v).bytes().map(|b| b as u32).collect())]);
    for i in 0..=n.min(5) {
        let want = (i < n).then(|| vec![Sem { dims: vec![], ids: vec![m.ids[i]] }]);
        o.run(format!("linear index {i}"), Some(want), &|| vec![(vec![], vec![v[i]])]);
    }

    // Axes.
    o.run("reorder", one(Some(m.reverse())), &|| vec![arr(&v.reorder())]);
    for k in 0..=rank {
        let size = dims.get(k).copied().unwrap_or(1);
        for i in 0..=size {
            let want = one(m.axis_at(k, i));
            o.run(format!("axis_at {k} {i}"), want.clone(), &|| vec![arr(&v.axis_at(k, i))]);
            macro_rules! axis_at {
                ($($c:literal)*) => { match k {
                    $($c => o.run(format!("axis_at Const {k} {i}"), want, &|| vec![arr(&v.axis_at(Const::<$c>, i))]),)*
                    _ => (),
                } };
            }
            axis_at! { 0 1 2 3 4 5 }
            if k == 0 {
                o.run(format!("at {i}"), one(m.axis_at(0, i)), &|| vec![arr(&v.at(i))]);
            }
            let want = Some(m.split(k, i).map(|(a, b)| vec![a, b]));
            o.run(format!("split_axis_at {k} {i}"), want.clone(), &|| {
                let (a, b) = v.split_axis_at(k, i);
                vec![arr(&a), arr(&b)]
            });
            if k == 0 {
                o.run(format!("split_at {i}"), want.clone(), &|| {
                    let (a, b) = v.split_at(i);
                    vec![arr(&a), arr(&b)]
                });
            }
            macro_rules! split {
                ($($c:literal)*) => { match k {
                    $($c => o.run(format!("split_axis_at Const {k} {i}"), want, &|| {
                        let (a, b) = v.split_axis_at(Const::<$c>, i);
                        vec![arr(&a), arr(&b)]
                    }),)*
                    _ => (),
                } };
            }
            split! { 0 1 2 3 4 5 }
        }
        let parts = |axis: usize| -> Option<Option<Vec<Sem>>> {
            Some(if axis < rank { Some((0..dims[axis]).map(|i| m.axis_at(axis, i).unwrap()).collect()) } else { None })
        };
        let lanes = |axis: usize| -> Option<Option<Vec<Sem>>> { Some(m.lanes(axis).map(|x| x.1)) };
        o.run(format!("axis_expr {k}"), parts(k), &|| v.axis_expr(k).into_iter().map(|x| arr(&x)).collect());
        o.run(format!("lanes {k}"), lanes(k), &|| v.lanes(k).into_iter().map(|x| arr(&x)).collect());
        macro_rules! exprs {
            ($($c:literal)*) => { match k {
                $($c => {
                    o.run(format!("axis_expr Const {k}"), parts(k), &|| v.axis_expr(Const::<$c>).into_iter().map(|x| arr(&x)).collect());
                    o.run(format!("lanes Const {k}"), lanes(k), &|| v.lanes(Const::<$c>).into_iter().map(|x| arr(&x)).collect());
                })*
                _ => (),
            } };
        }
        exprs! { 0 1 2 3 4 5 }
        if k == 0 {
            o.run("outer_expr", parts(0), &|| v.outer_expr().into_iter().map(|x| arr(&x)).collect());
        }
    }
    if rank > 0 {
        o.run("rows", Some(m.lanes(rank - 1).map(|x| x.1)), &|| v.rows().into_iter().map(|x| arr(&x)).collect());
        o.run("axis_expr Rows", None, &|| v.axis_expr(Rows).into_iter().map(|x| arr(&x)).collect());
    }
    if rank > 1 {
        o.run("cols", Some(m.lanes(rank - 2).map(|x| x.1)), &|| v.cols().into_iter().map(|x| arr(&x)).collect());
        o.run("axis_expr Cols", None, &|| v.axis_expr(Cols).into_iter().map(|x| arr(&x)).collect());
    }
    for i in 0..3 {
        o.run(format!("row {i}"), (rank == 2).then(|| m.axis_at(0, i).map(|x| vec![x])), &|| vec![arr(&v.row(i))]);
        o.run(format!("col {i}"), (rank == 2).then(|| m.axis_at(1, i).map(|x| vec![x])), &|| vec![arr(&v.col(i))]);
    }
    for i in -3..4 {
        let want = if rank == 2 { Some(m.diag(i).map(|x| vec![x])) } else { Some(None) };
        o.run(format!("diag {i}"), want, &|| vec![arr(&v.diag(i))]);
    }

    // Permutations, with dynamic rank.
    for p in if rank < 5 { permutations(rank) } else { few_permutations(rank) } {
        let want = one(m.permute(&p));
        o.run(format!("permute {p:?}"), want, &|| vec![arr(&v.permute(&p[..]))]);
    }
    o.run("permute wrong", Some(None), &|| vec![arr(&v.permute(&vec![0; rank + 1][..]))]);

    // Shapes.
    o.run("flatten", None, &|| vec![arr(&v.flatten())]);
    o.run("reshape to 1 dimension", None, &|| vec![arr(&v.reshape([n]))]);
    o.run("reshape inferred", None, &|| vec![arr(&v.reshape([1, !0]))]);
    o.run("reshape reversed", None, &|| {
        let d: Vec<usize> = dims.iter().rev().copied().collect();
        vec![arr(&v.reshape(d))]
    });
    o.run("reshape to itself", None, &|| vec![arr(&v.reshape(S::from_dims(dims)))]);
    o.run("into_flat", one(Some(Sem { dims: vec![n], ids: m.ids.clone() })), &|| vec![arr(&v.to_tensor().into_flat())]);
    o.run("into_shape", one(Some(Sem { dims: vec![n, 1], ids: m.ids.clone() })), &|| vec![arr(&v.to_tensor().into_shape([n, 1]))]);

    // Mutable access.
    let mutate = |f: &dyn Fn(&mut Slice<u32, S, L>)| -> Vec<Arr> {
        let mut buf = st.buffer();
        f(&mut make_mut::<u32, S, L>(st, &mut buf));
        vec![(vec![buf.len()], buf)]
    };
    o.run("fill", None, &|| mutate(&|x| x.fill(7)));
    o.run("assign", None, &|| mutate(&|x| x.assign(expr::from_fn(S::from_dims(dims), |i| i.iter().sum::<usize>() as u32))));
    o.run("assign lower rank", None, &|| {
        mutate(&|x| {
            let d = &dims[1..];
            x.assign(Tensor::<u32, DynRank>::from_fn(d, |i| i.iter().sum::<usize>() as u32 + 70))
        })
    });
    for k in 0..rank {
        o.run(format!("axis_expr_mut {k}"), None, &|| {
            mutate(&|x| {
                let mut n = 50;
                x.axis_expr_mut(k).for_each(|mut y| {
                    n += 1;
                    y.fill(n)
                })
            })
        });
        o.run(format!("lanes_mut {k}"), None, &|| {
            mutate(&|x| {
                let mut n = 50;
                x.lanes_mut(k).for_each(|mut y| {
                    n += 1;
                    y.fill(n)
                })
            })
        });
    }
    o.list
}

fn eval<E: Expression<Item = u32>>(e: E) -> Arr {
    let x = e.eval();
    arr(std::borrow::Borrow::<Slice<u32, E::Shape>>::borrow(&x))
}

/// Owned tensors that can change their size: refused exactly if the sizes do not fit the type.
fn resizing<S: Shape + 'static>(st: &St, fits: &dyn Fn(&[usize]) -> bool) -> Outcomes {
    let m = Sem::iota(&st.dims);
    let rank = st.dims.len();
    let mut o = Out { list: vec![] };
    let tensor = || Tensor::<u32, S>::from_fn(S::from_dims(&st.dims), |i| m.at(i));
    for new in all_dims(rank, if rank < 3 { 4 } else if rank < 5 { 3 } else { 2 }) {
        let want = fits(&new).then(|| {
            vec![Sem::from_fn(&new, |i| if i.iter().zip(&st.dims).all(|(i, d)| i < d) { m.at(i) } else { 99 })]
        });
        o.run(format!("resize {new:?}"), Some(want), &|| {
            let mut t = tensor();
            t.resize(&new, 99);
            vec![arr(&t)]
        });
    }
    if rank > 0 {
        let resized = |k: usize| {
            let mut d = st.dims.clone();
            d[0] = k;
            d
        };
        for k in 0..=st.dims[0] + 1 {
            let d = resized(k.min(st.dims[0]));
            let kept = Sem { ids: m.ids[..product(&d)].to_vec(), dims: d.clone() };
            let ok = fits(&resized(0)) && fits(&resized(9));
            // Truncation to at least the current size does nothing; otherwise the type must allow it.
            let want = if k >= st.dims[0] { None } else { Some(ok.then(|| vec![kept])) };
            o.run(format!("truncate {k}"), want, &|| {
                let mut t = tensor();
                t.truncate(k);
                vec![arr(&t)]
            });
            if k <= st.dims[0] {
                let d = resized(st.dims[0] - k);
                let rest = Sem { ids: m.ids[m.ids.len() - product(&d)..].to_vec(), dims: d };
                o.run(format!("drain ..{k}"), Some(ok.then(|| vec![rest])), &|| {
                    let mut t = tensor();
                    drop(t.drain(..k));
                    vec![arr(&t)]
                });
            }
        }
        let ok = fits(&resized(0)) && fits(&resized(9));
        let d = resized(st.dims[0] * 2);
        // What happens to the size if there are no elements is not specified.
        let some = !m.is_empty();
        let twice = Sem { ids: m.ids.iter().chain(&m.ids).copied().collect(), dims: d };
        o.run("append", some.then(|| ok.then(|| vec![twice.clone()])), &|| {
            let (mut t, mut u) = (tensor(), tensor());
            t.append(&mut u);
            vec![arr(&t)]
        });
        o.run("expand", some.then(|| ok.then(|| vec![twice])), &|| {
            let (mut t, u) = (tensor(), tensor());
            t.expand(u);
            vec![arr(&t)]
        });
    }
    o.list
}

// ---------------------------------------------------------------------- views with index tuples

fn views1<X: Dim, L: Lay>(st: &St) -> Outcomes {
    let buf = st.buffer();
    let v = make::<u32, (X,), L>(st, &buf);
    let mut o = Out { list: vec![] };
    o.run("view ..", None, &|| vec![arr(&v.view(..))]);
    o.run("view 1..", None, &|| vec![arr(&v.view(1..))]);
    o.run("view 1", None, &|| vec![arr(&v.view(1))]);
    o.run("view step -1", None, &|| vec![arr(&v.view(step(.., -1)))]);
    o.run("array ..2", None, &|| vec![arr(&v.tensor(..2))]);
    o.run("permute Const", None, &|| vec![arr(&v.permute((Const::<0>,)))]);
    o.list
}

fn views2<X: Dim, Y: Dim, L: Lay>(st: &St) -> Outcomes {
    let buf = st.buffer();
    let v = make::<u32, (X, Y), L>(st, &buf);
    let mut o = Out { list: vec![] };
    o.run("view .. ..", None, &|| vec![arr(&v.view(.., ..))]);
    o.run("view .. 1", None, &|| vec![arr(&v.view(.., 1))]);
    o.run("view 1 ..", None, &|| vec![arr(&v.view(1, ..))]);
    o.run("view 0 1", None, &|| vec![arr(&v.view(0, 1))]);
    o.run("view 1.. ..", None, &|| vec![arr(&v.view(1.., ..))]);
    o.run("view .. ..2", None, &|| vec![arr(&v.view(.., ..2))]);
    o.run("view step -1 ..", None, &|| vec![arr(&v.view(step(.., -1), ..))]);
    o.run("view .. step 2", None, &|| vec![arr(&v.view(.., step(.., 2)))]);
    o.run("tensor .. 1..", None, &|| vec![arr(&v.tensor(.., 1..))]);
    o.run("permute Const 1 0", None, &|| vec![arr(&v.permute((Const::<1>, Const::<0>)))]);
    o.run("permute Const 0 1", None, &|| vec![arr(&v.permute((Const::<0>, Const::<1>)))]);
    o.run("permute [1, 0]", None, &|| vec![arr(&v.permute([1, 0]))]);
    o.list
}

fn views3<X: Dim, Y: Dim, Z: Dim, L: Lay>(st: &St) -> Outcomes {
    let buf = st.buffer();
    let v = make::<u32, (X, Y, Z), L>(st, &buf);
    let mut o = Out { list: vec![] };
    o.run("view .. .. ..", None, &|| vec![arr(&v.view(.., .., ..))]);
    o.run("view 1 .. ..", None, &|| vec![arr(&v.view(1, .., ..))]);
    o.run("view .. 1 ..", None, &|| vec![arr(&v.view(.., 1, ..))]);
    o.run("view .. .. 1", None, &|| vec![arr(&v.view(.., .., 1))]);
    o.run("view 0 .. 1", None, &|| vec![arr(&v.view(0, .., 1))]);
    o.run("view .. ..1 ..", None, &|| vec![arr(&v.view(.., ..1, ..))]);
    o.run("view 1.. .. step -1", None, &|| vec![arr(&v.view(1.., .., step(.., -1)))]);
    o.run("view 1 1.. ..", None, &|| vec![arr(&v.view(1, 1.., ..))]);
    macro_rules! perm {
        ($($x:literal $y:literal $z:literal)*) => { $(
            o.run(concat!("permute Const ", $x, $y, $z), Some(st.sem().permute(&[$x, $y, $z]).map(|x| vec![x])), &|| {
                vec![arr(&v.permute((Const::<$x>, Const::<$y>, Const::<$z>)))]
            });
        )* };
    }
    perm! { 0 1 2  0 2 1  1 0 2  1 2 0  2 0 1  2 1 0 }
    o.list
}

// ---------------------------------------------------------------------- shape types

type Fits = fn(&[usize]) -> bool;
type Battery = fn(&St) -> Outcomes;

struct Kind {
    name: String,
    sizes: Option<Vec<Option<usize>>>,
    fits: Fits,
    /// Operations for dense and strided views.
    run: [Vec<Battery>; 2],
    resizing: Battery,
    shape: fn(&[usize], &[usize], bool) -> Check,
}

fn fits(sizes: &Option<Vec<Option<usize>>>, dims: &[usize]) -> bool {
    match sizes {
        None => true,
        Some(s) => s.len() == dims.len() && s.iter().zip(dims).all(|(s, d)| s.is_none_or(|s| s == *d)),
    }
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// The shape type as a list of sizes: two shapes with the given sizes, if they fit.
fn shapes<S: Shape + 'static>(a: &[usize], b: &[usize], fit: bool) -> Check {
    let x = attempt(|| S::from_dims(a));
    let fa = x.is_some();
    ensure_eq!(fa, fit, "from_dims({a:?}) accepts");
    let Some(x) = x else { return Ok(()) };
    ensure_eq!(dims_of(&x), a, "dimensions of from_dims");
    ensure_eq!(x.len(), product(a), "len");
    ensure_eq!(x.is_empty(), product(a) == 0, "is_empty");
    ensure!(attempt(|| x.dim(a.len())).is_none(), "dim({}) does not panic", a.len());
    ensure!(S::RANK.is_none_or(|r| r == a.len()), "RANK is {:?}", S::RANK);
    ensure_eq!(dims_of(&x.clone()), a, "dimensions of a clone");
    ensure_eq!(dims_of(&x.clone().into_shape()), a, "dimensions of into_shape");
    let m = DenseMapping::new(x.clone());
    ensure_eq!((0..m.rank()).map(|i| m.dim(i)).collect::<Vec<_>>(), a, "dimensions of a dense mapping");
    let m = StridedMapping::new(x.clone(), &vec![3; a.len()]);
    ensure_eq!((0..m.rank()).map(|i| m.dim(i)).collect::<Vec<_>>(), a, "dimensions of a strided mapping");
    ensure!(attempt(|| StridedMapping::new(x.clone(), &vec![1; a.len() + 1])).is_none(), "wrong number of strides is accepted");
    if let Some(y) = attempt(|| S::from_dims(b)) {
        ensure_eq!(x == y, a == b, "equality of {a:?} and {b:?}");
        ensure_eq!(x.cmp(&y), a.cmp(b), "order of {a:?} and {b:?}");
        ensure_eq!(x.partial_cmp(&y), Some(a.cmp(b)), "partial order of {a:?} and {b:?}");
        if a == b {
            ensure_eq!(hash_of(&x), hash_of(&y), "hash");
        }
        let mut z = x.clone();
        z.clone_from(&y);
        ensure_eq!(dims_of(&z), b, "dimensions after clone_from");
    }
    Ok(())
}

type C<const N: usize> = Const<N>;

macro_rules! kinds {
    ($v:ident; $($views:ident: $(($($d:ty),*))*;)*) => { $( $(
        $v.push(Kind {
            name: stringify!(($($d),*)).into(),
            sizes: Some(vec![$(<$d as Size>::N),*]),
            fits: |d| fits(&Some(vec![$(<$d as Size>::N),*]), d),
            run: [
                vec![battery::<($($d,)*), Dense>, kinds!(@ $views ($($d),*) Dense)],
                vec![battery::<($($d,)*), Strided>, kinds!(@ $views ($($d),*) Strided)],
            ],
            resizing: |st| resizing::<($($d,)*)>(st, &|d| fits(&Some(vec![$(<$d as Size>::N),*]), d)),
            shape: shapes::<($($d,)*)>,
        });
    )* )* };
    (@ none ($($d:ty),*) $l:ty) => { |_| vec![] };
    (@ $views:ident ($($d:ty),*) $l:ty) => { $views::<$($d,)* $l> };
}

trait Size {
    const N: Option<usize>;
}

impl Size for Dyn {
    const N: Option<usize> = None;
}

impl<const K: usize> Size for Const<K> {
    const N: Option<usize> = Some(K);
}

fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    kinds! {
        v;
        none: ();
        views1: (Dyn) (C<0>) (C<1>) (C<2>) (C<3>);
        views2: (Dyn, Dyn) (Dyn, C<2>) (C<2>, Dyn) (C<2>, C<2>) (C<2>, C<3>) (C<3>, C<2>) (Dyn, C<0>) (C<0>, Dyn) (C<3>, Dyn) (Dyn, C<3>) (C<1>, C<2>) (C<2>, C<0>);
        views3: (Dyn, Dyn, Dyn) (C<2>, Dyn, Dyn) (Dyn, C<2>, Dyn) (Dyn, Dyn, C<2>) (C<2>, C<1>, Dyn) (C<2>, Dyn, C<1>) (Dyn, C<1>, C<2>) (C<2>, C<1>, C<2>);
        none: (Dyn, Dyn, Dyn, Dyn) (C<2>, Dyn, C<1>, Dyn) (Dyn, C<1>, Dyn, C<2>) (C<2>, C<1>, C<1>, C<2>);
        none: (Dyn, Dyn, Dyn, Dyn, Dyn) (C<2>, Dyn, C<1>, Dyn, C<3>) (Dyn, C<1>, C<1>, C<2>, Dyn);
        none: (Dyn, Dyn, Dyn, Dyn, Dyn, Dyn) (C<2>, Dyn, C<1>, Dyn, C<2>, C<3>) (Dyn, C<1>, Dyn, C<3>, Dyn, Dyn);
    }
    v.push(Kind {
        name: "DynRank".into(),
        sizes: None,
        fits: |_| true,
        run: [vec![battery::<DynRank, Dense>], vec![battery::<DynRank, Strided>]],
        resizing: |st| resizing::<DynRank>(st, &|_| true),
        shape: shapes::<DynRank>,
    });
    v
}

/// Larger ranks, checked as shapes only.
fn large() -> Vec<Kind> {
    let mut v = vec![];
    macro_rules! shape_only {
        ($(($($d:ty),*))*) => { $(
            v.push(Kind {
                name: stringify!(($($d),*)).into(),
                sizes: Some(vec![$(<$d as Size>::N),*]),
                fits: |d| fits(&Some(vec![$(<$d as Size>::N),*]), d),
                run: [vec![], vec![]],
                resizing: |_| vec![],
                shape: shapes::<($($d,)*)>,
            });
        )* };
    }
    shape_only! {
        (C<2>, Dyn, C<1>, Dyn, C<2>) (Dyn, C<2>, Dyn, C<2>, Dyn) (C<1>, C<2>, C<1>, C<2>, C<2>)
        (C<2>, Dyn, C<1>, Dyn, C<2>, Dyn) (Dyn, C<2>, Dyn, C<2>, Dyn, C<1>) (C<1>, C<2>, C<1>, C<2>, C<2>, C<1>)
    }
    v
}

// ---------------------------------------------------------------------- pairs of shape types

/// Conversion from one shape type to another, and combination of the two.
fn convert<S: Shape + 'static, R: Shape + 'static>(dims: &[usize], ok: bool) -> Check {
    let m = Sem::iota(dims);
    let want = ok.then(|| (dims.to_vec(), m.ids.clone()));
    let tensor = || Tensor::<u32, S>::from_fn(S::from_dims(dims), |i| m.at(i));
    ensure_eq!(attempt(|| arr(&tensor().into_mapping::<R>())), want, "into_mapping of a tensor");
    ensure_eq!(attempt(|| arr(&tensor().remap::<R, Dense>())), want, "remap, dense");
    ensure_eq!(attempt(|| arr(&tensor().remap_mut::<R, Strided>())), want, "remap_mut, strided");
    ensure_eq!(attempt(|| arr(&tensor().remap::<S, Strided>().into_mapping::<R, Strided>())), want, "into_mapping, strided");
    ensure_eq!(attempt(|| arr(&tensor().remap::<S, Strided>().into_mapping::<R, Dense>())), want, "into_mapping, strided to dense");
    if ok {
        let shape = R::from_dims(dims);
        ensure_eq!(attempt(|| arr(&tensor().into_shape(shape.clone()))), want, "into_shape");
        ensure_eq!(attempt(|| arr(&tensor().reshape(shape.clone()))), want, "reshape");
        ensure_eq!(attempt(|| arr(&tensor().remap::<S, Strided>().reshape(shape.clone()))), want, "reshape, strided");
    }
    Ok(())
}

fn combine<S: Shape + 'static, R: Shape + 'static>(a: &[usize], b: &[usize], ok: bool) -> Check {
    let x = Tensor::<u32, S>::from_fn(S::from_dims(a), |i| Sem::iota(a).at(i));
    let y = Tensor::<u32, R>::from_fn(R::from_dims(b), |i| Sem::iota(b).at(i) + 5);
    let want = ok.then(|| Sem::iota(a)).map(|m| (m.dims, m.ids.iter().map(|x| x * 100 + x + 5).collect::<Vec<_>>()));
    let zip = || {
        let z = expr::zip(&x, &y).map(|(x, y)| x * 100 + y);
        let dims = dims_of(z.shape());
        let mut items = vec![];
        z.for_each(|x| items.push(x));
        (dims, items)
    };
    ensure_eq!(attempt(zip), want, "zip");
    ensure_eq!(attempt(|| eval(expr::zip(&x, &y).map(|(x, y)| x * 100 + y))), want, "eval of zip");
    ensure_eq!(x == x.clone(), true, "equality");
    let want = ok.then(|| Sem::iota(b)).map(|m| (m.dims, m.ids.iter().map(|x| x + 5).collect::<Vec<_>>()));
    let assign = || {
        let mut t = x.clone();
        t.assign(&y);
        arr(&t)
    };
    ensure_eq!(attempt(assign), want, "assign");
    let equal = a == b && product(a) == 0;
    ensure_eq!(*x == *y, equal, "equality of {a:?} and {b:?} with different elements");
    let z = Tensor::<u32, R>::from_fn(R::from_dims(b), |i| if ok { Sem::iota(a).at(i) } else { 0 });
    ensure_eq!(*x == *z, ok || (a == b), "equality of {a:?} and {b:?}");
    Ok(())
}

struct Pair {
    name: String,
    left: Option<Vec<Option<usize>>>,
    right: Option<Vec<Option<usize>>>,
    convert: fn(&[usize], bool) -> Check,
    combine: Option<fn(&[usize], &[usize], bool) -> Check>,
}

trait Sizes: Shape + 'static {
    fn sizes() -> Option<Vec<Option<usize>>>;
}

impl Sizes for DynRank {
    fn sizes() -> Option<Vec<Option<usize>>> {
        None
    }
}

macro_rules! impl_sizes {
    ($(($($d:ident),*))*) => { $(
        impl<$($d: Size + Dim + 'static),*> Sizes for ($($d,)*) {
            fn sizes() -> Option<Vec<Option<usize>>> { Some(vec![$($d::N),*]) }
        }
    )* };
}

impl_sizes! { () (X) (X, Y) (X, Y, Z) (X, Y, Z, W) }

fn pair<S: Sizes, R: Sizes>(same: bool) -> Pair {
    Pair {
        name: format!("{} to {}", short(std::any::type_name::<S>()), short(std::any::type_name::<R>())),
        left: S::sizes(),
        right: R::sizes(),
        convert: convert::<S, R>,
        combine: same.then_some(combine::<S, R> as _),
    }
}

fn short(s: &str) -> String {
    s.replace("mdarray::dim::", "").replace("mdarray::shape::", "")
}

macro_rules! pairs {
    ($v:ident, $same:literal; $($t:ty;)*) => { pairs!(@ $v, $same; [$($t;)*] [$($t;)*]) };
    (@ $v:ident, $same:literal; [] $all:tt) => {};
    (@ $v:ident, $same:literal; [$s:ty; $($t:ty;)*] [$($r:ty;)*]) => {
        $($v.push(pair::<$s, $r>($same));)*
        pairs!(@ $v, $same; [$($t;)*] [$($r;)*]);
    };
}

fn pairs() -> Vec<Pair> {
    let mut v = vec![];
    pairs! { v, true; (Dyn,); (C<0>,); (C<1>,); (C<2>,); DynRank; }
    pairs! { v, true; (Dyn, Dyn); (C<2>, Dyn); (Dyn, C<2>); (C<2>, C<2>); (C<2>, C<3>); (Dyn, C<3>); (C<0>, Dyn); DynRank; }
    pairs! { v, true; (Dyn, Dyn, Dyn); (C<2>, Dyn, Dyn); (Dyn, C<1>, Dyn); (Dyn, Dyn, C<2>); (C<2>, C<1>, C<2>); DynRank; }
    pairs! { v, false; (); (Dyn,); (C<1>,); (Dyn, Dyn); (C<1>, Dyn); (Dyn, Dyn, Dyn); (C<1>, C<1>, Dyn); }
    v
}

/// Values that can be converted into a shape.
fn into_shapes(w: &mut Worker, dims: &[usize]) {
    fn is<I: IntoShape>(what: &str, x: I, dims: &[usize], dynamic: bool) -> Check {
        let s = x.into_shape();
        ensure_eq!(dims_of(&s), dims, "{what}");
        ensure_eq!(<I::IntoShape as Shape>::RANK.is_none(), dynamic, "{what}: dynamic rank");
        // The same as the shape of a tensor.
        let t = Tensor::<u32, I::IntoShape>::from_elem(s, 3);
        ensure_eq!(arr(&t), (dims.to_vec(), vec![3; product(dims)]), "{what}: tensor");
        Ok(())
    }
    w.case(
        || format!("into_shape {dims:?}"),
        |w| {
            is("&[usize]", dims, dims, true)?;
            is("Vec<usize>", dims.to_vec(), dims, true)?;
            is("Box<[usize]>", dims.to_vec().into_boxed_slice(), dims, true)?;
            is("DynRank", DynRank::from_dims(dims), dims, true)?;
            // Dynamic rank 1 has two representations.
            let (x, y) = (dims.to_vec().into_shape(), DynRank::from_dims(dims));
            ensure!(x == y && x.clone() == y && hash_of(&x) == hash_of(&y) && x.cmp(&y).is_eq(), "forms of DynRank differ");
            ensure_eq!(x.dims(), dims, "dims");
            ensure_eq!(y.dims(), dims, "dims");
            match *dims {
                [] => is("[usize; 0]", [], dims, false)?,
                [a] => {
                    is("[usize; 1]", [a], dims, false)?;
                    is("&[usize; 1]", &[a], dims, true)?;
                    is("usize", a, dims, false)?;
                    is("(usize,)", (a,), dims, false)?;
                    if a == 2 {
                        is("Const", Const::<2>, dims, false)?;
                        is("(Const,)", (Const::<2>,), dims, false)?;
                    }
                }
                [a, b] => {
                    is("[usize; 2]", [a, b], dims, false)?;
                    is("&[usize; 2]", &[a, b], dims, true)?;
                    is("tuple", (a, b), dims, false)?;
                    if a == 2 {
                        is("(Const, usize)", (Const::<2>, b), dims, false)?;
                    }
                    if b == 1 {
                        is("(usize, Const)", (a, Const::<1>), dims, false)?;
                    }
                }
                [a, b, c] => {
                    is("[usize; 3]", [a, b, c], dims, false)?;
                    is("tuple", (a, b, c), dims, false)?;
                }
                [a, b, c, d] => {
                    is("[usize; 4]", [a, b, c, d], dims, false)?;
                    is("tuple", (a, b, c, d), dims, false)?;
                }
                [a, b, c, d, e] => {
                    is("[usize; 5]", [a, b, c, d, e], dims, false)?;
                    is("tuple", (a, b, c, d, e), dims, false)?;
                }
                [a, b, c, d, e, f] => {
                    is("[usize; 6]", [a, b, c, d, e, f], dims, false)?;
                    is("tuple", (a, b, c, d, e, f), dims, false)?;
                }
                _ => (),
            }
            w.steps(8);
            w.trace();
            Ok(())
        },
    );
}

fn defaults(w: &mut Worker) {
    fn one<S: Shape + Debug>(w: &mut Worker, want: &[usize]) {
        w.case(
            || format!("default {}", short(std::any::type_name::<S>())),
            |w| {
                ensure_eq!(dims_of(&S::default()), want, "default");
                let n = product(want);
                let t = attempt(|| Tensor::<u32, S>::new());
                ensure_eq!(t.map(|t| arr(&t)), (n == 0).then(|| (want.to_vec(), vec![])), "Tensor::new()");
                let t = attempt(|| Tensor::<u32, S>::with_capacity(4));
                ensure_eq!(t.map(|t| arr(&t)), (n == 0).then(|| (want.to_vec(), vec![])), "Tensor::with_capacity()");
                w.steps(3);
                w.trace();
                Ok(())
            },
        );
    }
    one::<()>(w, &[]);
    one::<(Dyn,)>(w, &[0]);
    one::<(C<0>,)>(w, &[0]);
    one::<(C<2>,)>(w, &[2]);
    one::<(Dyn, C<2>)>(w, &[0, 2]);
    one::<(C<2>, Dyn)>(w, &[2, 0]);
    one::<(C<2>, C<3>)>(w, &[2, 3]);
    one::<(Dyn, Dyn, C<3>)>(w, &[0, 0, 3]);
    one::<(C<1>, C<2>, C<3>)>(w, &[1, 2, 3]);
    one::<Rank<6>>(w, &[0; 6]);
    one::<DynRank>(w, &[0]);
    w.case(
        || "dimensions".into(),
        |w| {
            for n in 0..5 {
                ensure_eq!(attempt(|| <C<2> as Dim>::from_size(n).size()), (n == 2).then_some(2), "Const::<2>::from_size({n})");
                ensure_eq!(<C<2>>::try_from(n).ok().is_some(), n == 2, "Const::<2>::try_from({n})");
                ensure_eq!(<Dyn as Dim>::from_size(n).size(), n, "Dyn::from_size({n})");
                w.steps(3);
            }
            ensure_eq!((<C<2> as Dim>::SIZE, <Dyn as Dim>::SIZE, Dyn::from(Const::<2>)), (Some(2), None, 2), "sizes");
            ensure_eq!(<C<2>>::try_from(3).err(), Some(3), "error of Const::<2>::try_from(3)");
            Ok(())
        },
    );
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    let kinds = kinds();

    // Shapes.
    let mut all: Vec<Vec<usize>> = (0..=4).flat_map(|r| all_dims(r, if r < 3 { 5 } else { 3 })).collect();
    all.extend([vec![2, 3, 1, 1, 2], vec![1, 2, 1, 2, 2], vec![2, 0, 1, 4, 2], vec![1, 2, 1, 2, 2, 1], vec![2, 7, 1, 7, 2, 7], vec![3, 2, 3, 2, 3, 1]]);
    ctx.bound("shapes", "ranks 0-4 with all sizes 0..4 (0..2 for ranks 3, 4), some of ranks 5, 6; all pairs");
    let extra = large();
    let list: Vec<&Kind> = kinds.iter().chain(&extra).collect();
    ctx.par(&list, |w, k| {
        for a in &all {
            w.state();
            w.case(
                || format!("shape {a:?} of {}", k.name),
                |w| {
                    for b in &all {
                        w.step();
                        (k.shape)(a, b, (k.fits)(a))?;
                    }
                    w.trace();
                    w.count(if (k.fits)(a) { "fitting" } else { "refused" });
                    Ok(())
                },
            );
        }
    });
    ctx.par(&all, |w, d| into_shapes(w, d));
    ctx.one(defaults);

    // Operations.
    let mut jobs: Vec<St> = vec![];
    for rank in 0..=4 {
        let all = all_dims(rank, if rank < 3 { 4 } else { 3 });
        let all: Vec<_> = all.into_iter().filter(|d| rank < 4 || t || d.iter().filter(|x| **x != 1).count() < 4).collect();
        jobs.extend(all.iter().map(|d| St::dense(d)));
        let steps: &[isize] = if rank < 3 || (t && rank == 3) { &[1, -1, 2] } else { &[1, -2] };
        let perms = if t { permutations(rank) } else { few_permutations(rank) };
        let states = strided_from(rank, &all, steps, &[0, 1], &perms);
        jobs.extend(states);
    }
    for d in [&[2, 1, 1, 2, 3], &[2, 3, 1, 1, 3], &[3, 1, 1, 2, 0], &[1, 2, 2, 1, 1], &[0, 1, 1, 2, 2]] as [&[usize]; 5] {
        jobs.push(St::dense(d));
        jobs.extend(strided_from(5, &[d.to_vec()], &[1, -2], &[0], &few_permutations(5)));
    }
    for d in [&[2, 1, 1, 3, 2, 3], &[2, 3, 1, 1, 2, 3], &[3, 1, 2, 3, 1, 2], &[1, 2, 1, 2, 1, 1]] as [&[usize]; 4] {
        jobs.push(St::dense(d));
        jobs.extend(strided_from(6, &[d.to_vec()], &[1, -2], &[0], &[(0..6).collect()]));
    }
    jobs.extend((1..=4).flat_map(large_states));
    ctx.bound("large", "17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    ctx.bound(
        "states",
        if t {
            "ranks 0-4 with sizes 0..3 (0..2 for ranks 3, 4), dense and strided with all permutations and steps; some of ranks 5, 6"
        } else {
            "ranks 0-4 with sizes 0..3 (0..2 for ranks 3, 4), dense and strided with some permutations and all steps; some of ranks 5, 6"
        },
    );
    ctx.bound("shape types", format!("{} mixtures of static and dynamic sizes, and DynRank", kinds.len() - 1));
    ctx.par(&jobs, |w, st| {
        w.state();
        for layout in 0..2 {
            if layout == 0 && !st.dense {
                continue;
            }
            let mut reference: HashMap<String, Outcome> = HashMap::new();
            let mut ranked = true;
            for k in kinds.iter().filter(|k| fits(&k.sizes, &st.dims)) {
                // The table starts with Rank<n> for each rank.
                let first = std::mem::replace(&mut ranked, false);
                w.case(
                    || format!("{} as {} {}", st.name(), k.name, ["dense", "strided"][layout]),
                    |w| {
                        if first && k.sizes.as_ref().is_some_and(|s| s.iter().any(|s| s.is_some())) {
                            return Err("harness: the first shape type is not Rank<n>".into());
                        }
                        let mut list: Outcomes = k.run[layout].iter().flat_map(|f| f(st)).collect();
                        if layout == 0 {
                            // Sizes that the type does not allow are refused: not the same for all types.
                            for (name, got, want) in (k.resizing)(st) {
                                w.step();
                                let want = want.unwrap_or_else(|| got.clone());
                                ensure_eq!(got, want, "{name}");
                                w.count(if got.is_some() { "resized" } else { "resize_refused" });
                            }
                        }
                        for (name, got, want) in list.drain(..) {
                            w.step();
                            if let Some(want) = want {
                                ensure_eq!(got, want, "{name}");
                            }
                            w.outcome(&(&name, &got));
                            match reference.get(&name) {
                                Some(r) => ensure_eq!(got, *r, "{name}, compared with Rank<n>"),
                                None if first => _ = reference.insert(name, got),
                                None => return Err(format!("harness: {name} has no reference")),
                            }
                        }
                        w.trace();
                        Ok(())
                    },
                );
            }
        }
    });

    // Pairs of shape types.
    let pairs = pairs();
    ctx.bound("pairs", format!("{} ordered pairs of shape types x all pairs of shapes with sizes 0..3", pairs.len()));
    ctx.par(&pairs, |w, p| {
        let all: Vec<Vec<usize>> = (0..=3).flat_map(|r| all_dims(r, if r < 3 { 4 } else { 3 })).collect();
        for a in all.iter().filter(|d| fits(&p.left, d)) {
            w.state();
            w.case(
                || format!("{}: convert {a:?}", p.name),
                |w| {
                    w.steps(6);
                    w.trace();
                    (p.convert)(a, fits(&p.right, a))
                },
            );
            let Some(combine) = p.combine else { continue };
            for b in all.iter().filter(|b| b.len() == a.len() && fits(&p.right, b)) {
                w.case(
                    || format!("{}: combine {a:?} {b:?}", p.name),
                    |w| {
                        w.steps(4);
                        w.trace();
                        combine(a, b, a == b)
                    },
                );
            }
        }
    });
}

fn main() {
    engine::main(check)
}
