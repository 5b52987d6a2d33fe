//! C18: layout types and queries describe the real memory placement.
//!
//! Every view that a real operation gives from a state (and from the states that real operations
//! lead to) is asked for everything that it reports about itself, and the answers are compared with
//! the addresses of its elements.
use std::collections::HashSet;
use std::sync::Mutex;
use std::sync::atomic::Ordering;

use mc::engine::{Ctx, Worker, attempt, main as run};
use mc::model::{FACTS, LAYOUT, Lay, St, all_dims, dense_states, facts, few_permutations, large_states, long_states, make, product, self, small_dims, strided_from, strided_states};
use mc::types::{self, Visitor};
use mc::{ensure, ensure_eq};
use mdarray::expr::Expression;
use mdarray::index::{Cols, Rows};
use mdarray::{Array, Const, ConstShape, Dense, DynRank, Layout, Mapping, Rank, Shape, Slice, Strided, Tensor, ViewMut, step};

#[allow(dead_code)]
mod cfg {
    pub const SHARED: bool = true;
    pub const INTO: bool = false;
    pub const MUT: bool = false;
    pub const TENSOR: bool = true;
    pub const LOW: bool = false;
    pub const WRITE: bool = false;
}

#[path = "../subview.rs"]
#[allow(dead_code)]
mod subview;
#[path = "../viewops.rs"]
mod viewops;
use viewops::*;

/// Only errors about the reported placement count here: which elements an operation selects is
/// the matter of other properties.
fn layout_error<T>(r: &Option<Result<T, String>>) -> Result<(), String> {
    match r {
        Some(Err(e)) if e.starts_with(LAYOUT) => Err(e.clone()),
        _ => Ok(()),
    }
}

type Apply = fn(&St, &Op, usize, bool) -> viewops::Real;

/// Explore from the initial states, and from every state that real operations lead to.
fn explore(ctx: &Ctx, initial: Vec<St>, max_depth: usize, ops: fn(&St) -> Vec<Op>, apply: Apply) {
    let key = |s: &St| (s.dims.clone(), s.strides.clone(), s.dense);
    let mut seen: HashSet<_> = initial.iter().map(key).collect();
    let mut layer = initial;

    for depth in 0..max_depth {
        let found = Mutex::new(Vec::new());
        ctx.par(&layer, |w, st| {
            w.state();
            if depth > 0 {
                w.count("states_found_by_real_operations");
            }
            let mut new = vec![];
            for op in ops(st) {
                for mode in [0, 3] {
                    for dynrank in [false, true] {
                        let kind = if dynrank { "dynrank" } else { "rank" };
                        w.case(
                            || format!("{kind} {} {}.{:?}", st.name(), viewops::MODES[mode], op),
                            |w| {
                                w.step();
                                let r = apply(st, &op, mode, dynrank);
                                layout_error(&r)?;
                                if let Some(Ok(r)) = r {
                                    for o in r {
                                        w.outcome(&(&o.st.dims, &o.st.strides));
                                        new.push(o.st);
                                    }
                                    w.trace();
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
            let mut local = HashSet::new();
            new.retain(|s| local.insert(key(s)));
            found.lock().unwrap().extend(new);
        });
        let mut next: Vec<St> = found.into_inner().unwrap();
        next.sort_by(|a, b| (&a.dims, &a.strides, a.dense, a.off, a.len).cmp(&(&b.dims, &b.strides, b.dense, b.off, b.len)));
        next.retain(|s| seen.insert(key(s)));
        layer = next;
        if layer.is_empty() {
            break;
        }
    }
}

fn reshape_ops(st: &St) -> Vec<Op> {
    let mut v = vec![Op::Flat];
    for rank in 0..=3 {
        for d in reshape_targets(st, rank) {
            v.push(Op::ReshapeDyn(d.clone()));
            v.push(Op::Reshape(d));
        }
    }
    v
}

/// What a type reports, and the parts it hands out one by one.
struct Parts<'a, 'b> {
    w: &'a mut Worker<'b>,
    st: &'a St,
}

/// Result of a step that may be refused; only the placement of what it gives is judged.
fn given<T>(x: Option<T>, f: impl FnOnce(T) -> Result<(), String>) -> Result<(), String> {
    x.map_or(Ok(()), f)
}

impl Visitor for Parts<'_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.st;
        let buf = st.buffer();
        let v = make::<u32, S, L>(st, &buf);
        let dense = L::IS_DENSE;
        let case = |w: &mut Worker, what: &dyn Fn() -> String, f: &dyn Fn() -> Result<(), String>| {
            w.case(
                || format!("{name} {} {}", st.name(), what()),
                |w| {
                    w.step();
                    f()?;
                    w.trace();
                    Ok(())
                },
            );
        };
        let w = &mut *self.w;

        case(w, &|| "as it is".into(), &|| {
            facts(&v)?;
            ensure_eq!(v.remap::<S, Strided>().strides(), &st_strides(&v)[..], "strides() of the strided view");
            ensure_eq!(v.clone().into_dyn().dims(), &st.dims[..], "dims() of the dynamic view");
            ensure_eq!(v.clone().into_dyn().mapping().dims(), &st.dims[..], "dims() of the dynamic mapping");
            Ok(())
        });
        // A dense view of the same array has its elements, or there is none.
        let at: Vec<*const u32> = model::indices(&st.dims).iter().map(|i| &raw const v[&i[..]]).collect();
        macro_rules! to_dense {
            ($($what:literal $e:expr;)*) => {
                $(case(w, &|| $what.into(), &|| {
                    given(attempt(|| $e), |d| {
                        facts(&d)?;
                        let now: Vec<*const u32> = model::indices(&st.dims).iter().map(|i| &raw const d[&i[..]]).collect();
                        ensure!(now == at, "the dense view has other elements");
                        ensure_eq!(d[..].as_ptr_range(), d.as_ptr()..d.as_ptr().wrapping_add(at.len()), "range of the flat slice");
                        Ok(())
                    })
                });)*
            };
        }
        to_dense! {
            "remapped to dense" v.remap::<S, Dense>();
            "remapped to dynamic rank, dense" v.remap::<DynRank, Dense>();
            "into dense mapping" v.clone().into_mapping::<S, Dense>();
            "into dense mapping of dynamic rank" v.clone().into_mapping::<DynRank, Dense>();
        }
        case(w, &|| "remapped to dense, mutable".into(), &|| {
            let mut buf = st.buffer();
            let mut v: ViewMut<u32, S, L> = model::make_mut(st, &mut buf);
            let at: Vec<*const u32> = model::indices(&st.dims).iter().map(|i| &raw const v[&i[..]]).collect();
            given(attempt(|| v.remap_mut::<S, Dense>()), |d| {
                facts(&d)?;
                let now: Vec<*const u32> = model::indices(&st.dims).iter().map(|i| &raw const d[&i[..]]).collect();
                ensure!(now == at, "the dense view has other elements");
                Ok(())
            })?;
            let d = attempt(|| v.into_mapping::<DynRank, Dense>());
            given(d, |d| {
                let now: Vec<*const u32> = model::indices(&st.dims).iter().map(|i| &raw const d[&i[..]]).collect();
                ensure!(now == at, "the dense view has other elements");
                Ok(())
            })
        });
        if dense {
            case(w, &|| "as a flat slice".into(), &|| flat_slice(&v.remap::<S, Dense>(), &buf));
        }
        case(w, &|| "tensor".into(), &|| {
            let t = v.to_tensor();
            facts(&t)?;
            let want: Vec<u32> = model::indices(&st.dims).iter().map(|i| t[&i[..]]).collect();
            flat_slice(&t, &want)
        });
        macro_rules! axis {
            ($k:expr, $a:expr) => {
                let k = $k;
                case(w, &|| format!("axis_expr {k}"), &|| {
                    given(attempt(|| v.axis_expr($a)), |e| e.into_iter().try_for_each(|x| facts(&x)))
                });
                case(w, &|| format!("lanes {k}"), &|| {
                    given(attempt(|| v.lanes($a)), |e| e.into_iter().try_for_each(|x| facts(&x)))
                });
            };
        }
        let rank = st.dims.len();
        for k in 0..rank {
            axis!(k, k);
        }
        macro_rules! consts {
            ($($c:literal)*) => { $( if $c < rank { axis!($c, Const::<$c>); } )* };
        }
        consts!(0 1 2 3);
        if rank > 0 {
            axis!("Rows", Rows);
        }
        if rank > 1 {
            axis!("Cols", Cols);
        }
        case(w, &|| "axis_expr_mut and lanes_mut".into(), &|| {
            if rank == 0 {
                return Ok(());
            }
            let mut buf = st.buffer();
            let mut v: ViewMut<u32, S, L> = model::make_mut(st, &mut buf);
            v.axis_expr_mut(rank - 1).into_iter().try_for_each(|x| facts(&x))?;
            v.outer_expr_mut().into_iter().try_for_each(|x| facts(&x))?;
            v.lanes_mut(0).into_iter().try_for_each(|x| facts(&x))
        });
    }
}

fn st_strides<S: Shape, L: Layout>(v: &Slice<u32, S, L>) -> Vec<isize> {
    (0..v.rank()).map(|i| v.stride(i)).collect()
}

/// Reading a dense array as a flat slice.
fn flat_slice<S: Shape>(v: &Slice<u32, S>, want: &[u32]) -> Result<(), String> {
    ensure_eq!(&v[..], want, "[..]");
    ensure_eq!(v[..].as_ptr(), v.as_ptr(), "start of [..]");
    let n = want.len();
    for a in 0..=n.min(4) {
        ensure_eq!(&v[a..], &want[a..], "[{a}..]");
        ensure_eq!(&v[..n - a], &want[..n - a], "[..{}]", n - a);
        ensure_eq!(&v[a.min(n - a)..a.max(n - a)], &want[a.min(n - a)..a.max(n - a)], "range");
    }
    let flat = v.flatten();
    let s: &[u32] = flat.as_ref();
    ensure_eq!(s, want, "flat view as a slice");
    Ok(())
}

fn array_facts<S: ConstShape>(w: &mut Worker, name: &str) {
    w.case(
        || format!("Array of {name}"),
        |w| {
            w.step();
            let mut n = 0;
            let a = Array::<u32, S>::from_fn(|_| {
                n += 1;
                n - 1
            });
            facts(&a)?;
            let want: Vec<u32> = model::indices(&model::dims_of(&S::default())).iter().map(|i| a[&i[..]]).collect();
            flat_slice(&a, &want)?;
            facts(&a.expr())?;
            facts(&a.expr().into_dyn())?;
            facts(&Tensor::<u32, S>::from_fn(S::default(), |_| 0))?;
            w.trace();
            Ok(())
        },
    );
}

/// Subarray views of tensors and arrays, and tensors after growing and shrinking.
fn owned(ctx: &Ctx) {
    let mut all = all_dims(1, 5);
    all.extend(all_dims(2, 4));
    all.extend(all_dims(3, 3));
    ctx.par(&all, |w, dims| {
        w.state();
        for dynrank in [false, true] {
            if dynrank {
                tensor_ops::<DynRank>(w, dims, "DynRank");
            } else {
                match dims.len() {
                    1 => tensor_ops::<Rank<1>>(w, dims, "Rank<1>"),
                    2 => tensor_ops::<Rank<2>>(w, dims, "Rank<2>"),
                    _ => tensor_ops::<Rank<3>>(w, dims, "Rank<3>"),
                }
            }
        }
        if dims.len() == 2 {
            w.case(
                || format!("views of tensor {dims:?}"),
                |w| {
                    let t = Tensor::<u32, Rank<2>>::from_fn([dims[0], dims[1]], |i| (i[0] * dims[1] + i[1]) as u32);
                    for a in 0..=dims[0] {
                        for b in 0..=dims[1] {
                            w.step();
                            facts(&t.view(a.., b..))?;
                            facts(&t.view(..a, ..b))?;
                            facts(&t.view(..a, ..))?;
                            facts(&t.view(step(a.., 2), ..))?;
                            facts(&t.view(.., step(b.., -1)))?;
                            facts(&t.view(a.., b..).view(.., ..))?;
                            facts(&t.view(.., ..b).view(..a, ..).permute([1, 0]))?;
                            facts(&t.view(a.., b..).to_tensor())?;
                        }
                    }
                    w.trace();
                    Ok(())
                },
            );
        }
    });
    ctx.one(|w| {
        array_facts::<()>(w, "()");
        array_facts::<(Const<0>,)>(w, "0");
        array_facts::<(Const<3>,)>(w, "3");
        array_facts::<(Const<2>, Const<0>)>(w, "2 0");
        array_facts::<(Const<2>, Const<3>)>(w, "2 3");
        array_facts::<(Const<3>, Const<1>)>(w, "3 1");
        array_facts::<(Const<2>, Const<1>, Const<3>)>(w, "2 1 3");
        array_facts::<(Const<2>, Const<2>, Const<2>, Const<2>)>(w, "2 2 2 2");
        array_facts::<(Const<1>, Const<2>, Const<1>, Const<2>, Const<2>)>(w, "1 2 1 2 2");
        array_facts::<(Const<1>, Const<2>, Const<1>, Const<2>, Const<1>, Const<2>)>(w, "1 2 1 2 1 2");
    });
}

fn tensor_ops<S: Shape>(w: &mut Worker, dims: &[usize], name: &str) {
    let make = || {
        let mut n = 0;
        Tensor::<u32, S>::from_fn(S::from_dims(dims), |_| {
            n += 1;
            n - 1
        })
    };
    type Step<S> = (&'static str, fn(&mut Tensor<u32, S>, usize));
    let steps: [Step<S>; 6] = [
        ("nothing", |_, _| ()),
        ("truncate", |t, n| t.truncate(n)),
        ("clear", |t, _| t.clear()),
        ("resize", |t, n| {
            let mut d: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
            let k = n % d.len();
            d[k] = n;
            t.resize(&d, 7);
        }),
        ("drain", |t, n| drop(t.drain(..n))),
        ("append", |t, n| {
            let mut u = t.clone();
            u.truncate(n);
            t.append(&mut u);
        }),
    ];
    for (i, a) in steps.iter().enumerate() {
        for (j, b) in steps.iter().enumerate() {
            for n in 0..=3 {
                w.case(
                    || format!("{name} tensor {dims:?}: {} {n}, {} {}", a.0, b.0, 3 - n),
                    |w| {
                        let _ = (i, j);
                        w.step();
                        let mut t = make();
                        for (s, n) in [(a, n), (b, 3 - n)] {
                            if attempt(|| s.1(&mut t, n)).is_none() {
                                return Ok(());
                            }
                            facts(&t)?;
                            let now: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
                            let items: Vec<u32> = model::indices(&now).iter().map(|i| t[&i[..]]).collect();
                            flat_slice(&t, &items)?;
                        }
                        facts(&t.clone())?;
                        facts(&t.clone().into_dyn())?;
                        ensure_eq!(t.len(), product(&(0..t.rank()).map(|i| t.dim(i)).collect::<Vec<_>>()), "len");
                        w.trace();
                        Ok(())
                    },
                );
            }
        }
    }
}

fn check(ctx: &Ctx) {
    FACTS.store(true, Ordering::SeqCst);
    let t = ctx.thorough;
    let depth = if t { 6 } else { 2 };

    ctx.bound("states", if t { "rank 0-1: sizes 0..4; rank 2: 0..4; rank 3: 0..3; rank 4: 0..2; ranks 5, 6: 1..2; dense and strided (steps +-1, +-2, permuted)" } else { "rank 0-1: sizes 0..4; rank 2: 0..3; rank 3: 0..2; rank 4: 0..2; ranks 5, 6: 1..2; dense and strided (steps 1, -2, permuted)" });
    ctx.bound("chains", format!("states reached by real operations are explored again, {depth} layers"));

    let mut low = dense_states(0, 1);
    low.push(St { dense: false, ..St::dense(&[]) });
    for (rank, n) in [(1, 5), (2, if t { 5 } else { 4 })] {
        low.extend(dense_states(rank, n));
        low.extend(strided_states(rank, n, if t { &[1, -1, 2, -2] } else { &[1, -2] }, if t { &[0, 1] } else { &[0] }));
    }
    let mut three = dense_states(3, if t { 4 } else { 3 });
    three.extend(strided_states(3, 3, if t { &[1, -1, 2] } else { &[1, -2] }, &[0]));
    let mut four = dense_states(4, 3);
    four.extend(strided_from(4, &small_dims(4, if t { 2 } else { 1 }), &[-1], &[0], &few_permutations(4)));

    ctx.bound("long axes", "rank 1-4: size 5 (7 in rank 1) in every position, and sizes 2, 3, .. in both orders");
    let long: Vec<St> = (1..=4).flat_map(|rank| [long_states(rank), large_states(rank)].concat()).collect();
    ctx.bound("large", "17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    for (states, depth) in [(&low, depth), (&three, if t { 2 } else { 1 }), (&four, 1), (&long, 1)] {
        explore(ctx, states.clone(), depth, axis_ops, apply_axis);
        explore(ctx, states.clone(), depth, perm_ops, apply_perm);
        explore(ctx, states.clone(), depth, misc_ops, apply_misc);
    }
    explore(ctx, low.clone(), if t { 2 } else { 1 }, reshape_ops, apply_reshape);
    if t {
        explore(ctx, three.clone(), 1, reshape_ops, apply_reshape);
    } else {
        explore(ctx, dense_states(3, 3), 1, reshape_ops, apply_reshape);
    }
    for rank in [5, 6] {
        let mut s = dense_states(rank, 3);
        s.retain(|s| s.dims.iter().all(|&d| d > 0) && (t || s.dims.iter().all(|&d| d == 2)));
        s.extend(strided_from(rank, &small_dims(rank, 0), &[-1], &[0], &few_permutations(rank)));
        explore(ctx, s.clone(), 1, axis_ops, apply_axis);
        explore(ctx, s, 1, perm_ops, apply_perm);
    }

    // Subarray views.
    let mut sub: Vec<St> = low.iter().filter(|s| !s.dims.is_empty()).cloned().collect();
    sub.extend(dense_states(3, 3));
    sub.extend(strided_states(3, 3, if t { &[1, -1] } else { &[-1] }, &[0]));
    ctx.bound("subarrays", "ranks 1 to 3 of the states above with all tuples of the index kinds; ranks 4 to 6 with sizes 1..2");
    for rank in 4..=6 {
        let mut s = dense_states(rank, 3);
        s.retain(|s| s.dims.iter().all(|&d| d > 0) && s.dims.iter().filter(|&&d| d != 2).count() <= if t { 2 } else { 1 });
        sub.extend(s);
    }
    ctx.par(&sub, |w, st| {
        w.state();
        let rank = st.dims.len();
        let lists: Vec<Vec<subview::Ix>> = st
            .dims
            .iter()
            .enumerate()
            .map(|(i, &d)| match rank {
                1 => subview::full_alphabet(d),
                2 => subview::most_alphabet(d),
                3 => subview::few_alphabet(d, false),
                _ => subview::tiny_alphabet(d, i, rank),
            })
            .collect();
        product_of(&lists, &mut vec![], &mut |ixs| {
            for mode in [0, 3] {
                w.case(
                    || format!("{} {}({:?})", st.name(), subview::MODES[mode], ixs),
                    |w| {
                        w.step();
                        let r = if rank > 3 { subview::apply6(st, ixs, mode) } else { subview::apply(st, ixs, mode) };
                        layout_error(&r)?;
                        if let Some(Ok(r)) = r {
                            w.outcome(&r);
                            w.trace();
                        }
                        Ok(())
                    },
                );
            }
        });
    });

    // Parts and static shape types.
    ctx.bound("shape types", "all shape types of the table on the states of ranks 0 to 3 above, and rank 4 dense");
    let mut parts = low;
    parts.extend(three);
    parts.extend(dense_states(4, 3));
    ctx.par(&parts, |w, st| {
        w.state();
        let mut p = Parts { w, st };
        if st.dense {
            types::each_dynamic::<Dense>(&st.dims, &mut p);
            types::each_static_few::<Dense>(&st.dims, &mut p);
        } else {
            types::each_dynamic::<Strided>(&st.dims, &mut p);
            types::each_static_few::<Strided>(&st.dims, &mut p);
        }
    });
    owned(ctx);
}

fn product_of(lists: &[Vec<subview::Ix>], acc: &mut Vec<subview::Ix>, f: &mut impl FnMut(&[subview::Ix])) {
    match lists {
        [] => f(acc),
        [first, rest @ ..] => {
            for x in first {
                acc.push(x.clone());
                product_of(rest, acc, f);
                acc.pop();
            }
        }
    }
}

fn main() {
    run(check)
}
