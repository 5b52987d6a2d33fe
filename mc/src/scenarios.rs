//! Self-contained uses of owned arrays, moving expressions and conversions with tracked elements
//! (included by the checks of element accounting). Everything made in a scenario is dropped in it.
#![allow(dead_code)]

use mc::alloc;
use mc::engine::attempt;
use mc::model::dims_of;
use mc::tracked::{self, Elem, Tracked, Zst, tick};
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, ConstShape, Dyn, DynRank, IntoShape, Rank, Shape, Slice, Tensor, View, array, tensor};

/// Name, body, whether it panics by itself, and whether a panic in it may leak.
pub type Scenario = (String, Box<dyn Fn() + Send + Sync>, bool, bool);

pub struct Played {
    pub panicked: bool,
    pub errors: Vec<String>,
    pub left: usize,
    pub blocks: i64,
    pub alloc: u64,
    pub callbacks: u32,
    pub raised: bool,
    pub created: usize,
}

pub fn play(s: &Scenario, fault: Option<u32>, kinds: u32) -> Played {
    tracked::reset(None, 0);
    tracked::plan(fault, kinds);
    alloc::take_errors();
    let blocks = alloc::live();
    tracked::start();
    let panicked = attempt(|| (s.1)()).is_none();
    let callbacks = tracked::disarm();
    let raised = tracked::raised();
    tracked::plan(None, 0);
    let left = tracked::live_count();
    let blocks = alloc::live() - blocks;
    Played { panicked, left, blocks, alloc: alloc::take_errors(), callbacks, raised, created: tracked::created(), errors: tracked::errors() }
}

fn call<E: Elem>(x: &E) -> E {
    tick(tracked::CALL);
    E::make(x.label() + 1)
}

fn call_with<E: Elem>(x: E) -> E {
    tick(tracked::CALL);
    let n = x.label();
    drop(x);
    E::make(n + 1)
}

fn counter<E: Elem>() -> impl FnMut(&[usize]) -> E {
    let mut n = 0;
    move |_| {
        tick(tracked::CALL);
        n += 1;
        E::make(n)
    }
}

fn arr<E: Elem, S: ConstShape>() -> Array<E, S> {
    Array::from_fn(counter())
}

fn ten<E: Elem, S: Shape>(dims: &[usize]) -> Tensor<E, S> {
    Tensor::<E, DynRank>::from_fn(dims, counter()).into_mapping()
}

fn look<'a, E: Elem>(it: impl IntoIterator<Item = &'a E>) {
    for x in it {
        x.label();
    }
}

/// Check that the accounted elements are all usable.
fn use_all<E: Elem, S: Shape>(s: &Slice<E, S>) {
    look(s.iter());
}

struct List(Vec<Scenario>);

impl List {
    fn add(&mut self, name: String, f: impl Fn() + Send + Sync + 'static) {
        self.0.push((name, Box::new(f), false, false));
    }

    fn leaky(&mut self, name: String, f: impl Fn() + Send + Sync + 'static) {
        self.0.push((name, Box::new(f), false, true));
    }

    fn refused(&mut self, name: String, f: impl Fn() + Send + Sync + 'static) {
        self.0.push((name, Box::new(f), true, false));
    }
}

/// Scenarios with an array of constant size.
fn constant<E: Elem, S: ConstShape + 'static>(l: &mut List, name: &str) {
    let n = S::default().len();
    let name = format!("{name} {}", if E::ZST { "zero-sized" } else { "tracked" });
    l.add(format!("{name} from_fn"), || use_all(&*arr::<E, S>()));
    l.add(format!("{name} from_elem"), || use_all(&*Array::<E, S>::from_elem(E::make(3))));
    l.add(format!("{name} map"), || use_all(&*arr::<E, S>().map(|x| call_with(x))));
    l.add(format!("{name} map to another type"), || {
        let b = arr::<E, S>().map(|x| (Box::new(1u64), call_with(x)));
        b.iter().for_each(|x| drop(x.1.label()));
    });
    l.add(format!("{name} apply keeps the argument"), || {
        use_all(&*Apply::apply(arr::<E, S>(), |x: E| {
            tick(tracked::CALL);
            x
        }))
    });
    l.add(format!("{name} zip_with view"), || {
        let y = arr::<E, S>();
        use_all(&*Apply::zip_with(arr::<E, S>(), &y, |(x, y): (E, &E)| {
            tick(tracked::CALL);
            let n = x.label();
            drop(x);
            E::make(n + y.label())
        }));
        use_all(&*y);
    });
    l.add(format!("{name} zip_with value"), || {
        use_all(&*Apply::zip_with(arr::<E, S>(), arr::<E, S>(), |(x, y): (E, E)| {
            tick(tracked::CALL);
            drop(y);
            x
        }));
    });
    l.add(format!("{name} zip_with tensor"), || {
        use_all(&*Apply::zip_with(arr::<E, S>(), Tensor::from(arr::<E, S>()), |(x, y): (E, E)| {
            tick(tracked::CALL);
            drop(x);
            y
        }));
    });
    l.add(format!("{name} to tensor and back"), || {
        let t = Tensor::<E, S>::from(arr::<E, S>());
        use_all(&t);
        let a = Array::<E, S>::from(t);
        use_all(&*a);
    });
    l.add(format!("{name} clone"), || {
        let a = arr::<E, S>();
        let b = a.to_array();
        use_all(&*b);
        let t = a.to_tensor();
        let v = a.to_vec();
        use_all(&t);
        look(&v);
        use_all(&*Array::<E, S>::from(&t));
        use_all(&*Array::<E, S>::from(t.expr()));
        use_all(&Tensor::<E, S>::from(a.expr()));
    });
    l.add(format!("{name} assign"), || {
        let mut a = arr::<E, S>();
        a.assign(&arr::<E, S>());
        a.assign(arr::<E, S>());
        a.assign(expr::fill(E::make(1)));
        a.fill(E::make(5));
        a.fill_with(|| {
            tick(tracked::CALL);
            E::make(9)
        });
        use_all(&*a);
    });
    l.add(format!("{name} clone_into"), || {
        let a = arr::<E, S>();
        let mut b = (*a).to_owned();
        (*a).clone_into(&mut b);
        let s: &Slice<E, S> = std::borrow::Borrow::borrow(&b);
        use_all(s);
    });
    l.add(format!("{name} reshape"), || {
        let a = arr::<E, S>();
        match a.len() {
            0 => use_all(&*a.into_shape::<(Const<0>, Const<3>)>()),
            1 => drop(a.into_scalar().label()),
            2 => use_all(&*a.into_shape::<(Const<2>, Const<1>)>()),
            3 => use_all(&*a.into_shape::<(Const<1>, Const<3>)>()),
            4 => use_all(&*a.into_shape::<(Const<2>, Const<2>)>()),
            6 => use_all(&*a.into_shape::<(Const<3>, Const<2>)>()),
            _ => use_all(&*a),
        }
    });
    l.refused(format!("{name} reshape refused"), || use_all(&*arr::<E, S>().into_shape::<(Const<7>, Const<3>)>()));
    if n != 1 {
        l.refused(format!("{name} into_scalar refused"), || drop(arr::<E, S>().into_scalar().label()));
    }
    moving(l, &name, n, || arr::<E, S>().into_expr());
    // Sources of another shape.
    l.add(format!("{name} from view of a larger tensor"), || {
        let d: Vec<usize> = dims_of(&S::default());
        let t = ten::<E, S>(&d);
        use_all(&*t.to_array());
        use_all(&*Array::<E, S>::from_expr(t.expr().cloned()));
        use_all(&*Array::<E, S>::from_expr(t.expr().map(call)));
        use_all(&*Array::<E, S>::from_expr(t.into_expr().map(|x| call_with(x))));
    });
}

/// Scenarios with an expression that moves elements out.
fn moving<X: Expression + 'static>(l: &mut List, name: &str, n: usize, make: impl Fn() -> X + Clone + Send + Sync + 'static)
where
    X::Item: Elem,
{
    let steps: Vec<usize> = if n <= 6 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    for &k in &steps {
        let m = make.clone();
        l.add(format!("{name} moving: take {k} of {n}"), move || {
            let mut it = m().into_iter();
            for _ in 0..k {
                it.next().unwrap().label();
            }
        });
        let m = make.clone();
        l.add(format!("{name} moving: take {k}, keep, fold the rest"), move || {
            let mut it = m().into_iter();
            let mut kept = Vec::with_capacity(8);
            for _ in 0..k {
                kept.push(it.next().unwrap());
            }
            it.for_each(|x| {
                tick(tracked::CALL);
                x.label();
            });
            look(&kept);
        });
        let m = make.clone();
        l.add(format!("{name} moving: stop a try_fold after {k}"), move || {
            let mut i = 0;
            let mut it = m().into_iter();
            let _ = it.all(|x| {
                tick(tracked::CALL);
                x.label();
                i += 1;
                i <= k
            });
        });
        let m = make.clone();
        l.add(format!("{name} moving: zip with {k} of a vector"), move || {
            let v: Vec<X::Item> = (0..k as u32).map(X::Item::make).collect();
            for (x, y) in m().into_iter().zip(v) {
                tick(tracked::CALL);
                x.label();
                y.label();
            }
        });
        let m = make.clone();
        l.add(format!("{name} moving: skip {k}, step, fold"), move || {
            let mut it = m().into_iter().skip(k);
            if let Some(x) = it.next() {
                x.label();
            }
            it.for_each(|x| drop(x.label()));
        });
    }
    let m = make.clone();
    l.add(format!("{name} moving: dropped"), move || drop(m()));
    let m = make.clone();
    l.add(format!("{name} moving: eval"), move || drop(m().eval()));
    let m = make.clone();
    l.add(format!("{name} moving: map and eval"), move || drop(m().map(|x| call_with(x)).eval()));
    let m = make.clone();
    l.add(format!("{name} moving: map dropped"), move || drop(m().map(|x| call_with(x))));
    let m = make.clone();
    l.add(format!("{name} moving: enumerate"), move || {
        for (_, x) in m().enumerate().into_iter() {
            tick(tracked::CALL);
            x.label();
        }
    });
    let m = make.clone();
    l.add(format!("{name} moving: zip with itself"), move || {
        let e = m().zip(m()).map(|(x, y)| {
            tick(tracked::CALL);
            drop(x);
            y
        });
        drop(e.eval());
    });
    let m = make.clone();
    l.add(format!("{name} moving: zip with itself, one taken"), move || {
        let mut it = m().zip(m()).into_iter();
        if let Some((x, y)) = it.next() {
            x.label();
            y.label();
        }
    });
    let m = make.clone();
    l.add(format!("{name} moving: eval_into"), move || {
        let first = m();
        let d: Vec<usize> = dims_of(first.shape());
        if !d.is_empty() {
            let mut t = Tensor::<X::Item, DynRank>::from_expr(expr::from_fn(&d[..], counter()));
            first.eval_into(&mut t);
            m().map(|x| call_with(x)).eval_into(&mut t);
            use_all(&t);
        }
    });
    let m = make.clone();
    l.add(format!("{name} moving: assign"), move || {
        let first = m();
        let d: Vec<usize> = dims_of(first.shape());
        let mut t = Tensor::<X::Item, DynRank>::from_fn(&d[..], counter());
        t.assign(first);
        use_all(&t);
        let mut s = Tensor::<X::Item, DynRank>::from_fn(&[&d[..], &[2]].concat()[..], counter());
        let last = s.rank() - 1;
        let mut v = s.axis_at_mut(last, 1);
        v.assign(m());
        drop(s);
    });
    let m = make.clone();
    l.add(format!("{name} moving: into a tensor"), move || {
        let t = Tensor::<X::Item, X::Shape>::from_expr(m());
        use_all(&t);
        let t = Tensor::<X::Item, X::Shape>::from_expr(t.into_expr().map(|x| call_with(x)));
        use_all(&t);
    });
    let m = make.clone();
    l.add(format!("{name} moving: fold and compare"), move || {
        let mut n = 0;
        m().for_each(|x| {
            tick(tracked::CALL);
            n += x.label();
        });
        let _ = m().fold(0, |a, x| {
            tick(tracked::CALL);
            a + x.label()
        });
    });
}

fn dynamic<E: Elem, S: Shape + 'static>(l: &mut List, name: &str, dims: &'static [usize]) {
    let n = dims.iter().product();
    let name = format!("{name} {dims:?} {}", if E::ZST { "zero-sized" } else { "tracked" });
    moving(l, &name, n, move || ten::<E, S>(dims).into_expr());
    l.add(format!("{name} clone"), move || {
        let t = ten::<E, S>(dims);
        let mut c = t.clone();
        use_all(&c);
        c.clone_from(&t);
        use_all(&c);
        use_all(&t.to_tensor());
        look(&t.to_vec());
        use_all(&Tensor::<E, S>::from(&t));
        use_all(&Tensor::<E, S>::from(t.expr()));
        use_all(&Tensor::<E, S>::from_expr(t.expr().cloned()));
        let mut o = (*t).to_owned();
        (*t).clone_into(&mut o);
        let s: &Slice<E, S> = std::borrow::Borrow::borrow(&o);
        use_all(s);
    });
    l.leaky(format!("{name} moving expression clone"), move || {
        let e = ten::<E, S>(dims).into_expr();
        let f = e.clone();
        use_all(f.as_ref());
        for x in f {
            x.label();
        }
        let mut g = ten::<E, S>(dims).into_expr();
        g.clone_from(&e);
        use_all(g.as_ref());
    });
    l.add(format!("{name} clone_from longer and shorter"), move || {
        let mut t = ten::<E, S>(dims);
        let d: Vec<usize> = dims.iter().map(|d| d + 1).collect();
        if let Some(big) = attempt_shape::<E, S>(&d) {
            let mut c = big.clone();
            c.clone_from(&t);
            use_all(&c);
            t.clone_from(&big);
            use_all(&t);
        }
    });
    l.add(format!("{name} strided views"), move || {
        let t = ten::<E, S>(dims);
        let r = t.reorder();
        look(&r.to_vec());
        use_all(&r.to_tensor());
        drop(r.expr().cloned().eval());
        drop(r.expr().map(call).eval());
        let mut o = r.to_tensor();
        o.assign(&r);
        use_all(&o);
        let mut t = ten::<E, S>(dims);
        t.reorder_mut().assign(&o);
        t.reorder_mut().assign(o);
        t.reorder_mut().fill(E::make(8));
        use_all(&t);
    });
    l.add(format!("{name} raw parts"), move || {
        let t = ten::<E, S>(dims);
        let v = t.into_vec();
        let t = Tensor::<E, Rank<1>>::from(v).into_shape(dims);
        let t: Tensor<E, DynRank> = t;
        let (p, m, c) = t.into_raw_parts();
        let t = unsafe { Tensor::from_raw_parts(p, m, c) };
        use_all(&t.into_dyn().into_flat());
    });
    l.refused(format!("{name} into_shape refused"), move || {
        use_all(&ten::<E, S>(dims).into_shape([n + 1]));
    });
    l.refused(format!("{name} into_mapping refused"), move || {
        use_all(&ten::<E, S>(dims).into_mapping::<(Const<9>, Const<9>)>());
    });
    if n != 1 {
        l.refused(format!("{name} into_scalar refused"), move || drop(ten::<E, S>(dims).into_scalar().label()));
    }
    l.refused(format!("{name} assign refused"), move || {
        let mut t = ten::<E, S>(dims);
        let d: Vec<usize> = dims.iter().map(|d| d + 1).collect();
        if d.is_empty() {
            panic!();
        }
        t.assign(ten::<E, DynRank>(&d));
    });
    l.refused(format!("{name} zip_with refused"), move || {
        let d: Vec<usize> = dims.iter().map(|d| d + 1).collect();
        if d.is_empty() {
            panic!();
        }
        use_all(&Apply::zip_with(ten::<E, S>(dims), ten::<E, DynRank>(&d), |(x, _): (E, E)| x));
    });
}

fn attempt_shape<E: Elem, S: Shape>(d: &[usize]) -> Option<Tensor<E, S>> {
    if S::RANK.is_none() || dims_of(&S::default()).iter().zip(d).all(|(x, y)| *x == 0 || x == y) { Some(ten::<E, S>(d)) } else { None }
}

/// Conversions and macros with tracked elements.
fn conversions(l: &mut List) {
    let t = Tracked::make;
    l.add("array macro".into(), move || {
        let a = array![[t(1), t(2)], [t(3), t(4)]];
        use_all(&*a);
        let n: [[Tracked; 2]; 2] = a.into();
        let a: Array<Tracked, (Const<2>, Const<2>)> = n.into();
        let b: Array<Tracked, (Const<2>, Const<2>)> = Array::from(&a.0);
        use_all(&*b);
    });
    l.add("tensor macro".into(), move || {
        let a = tensor![[t(1), t(2)], [t(3), t(4)]];
        use_all(&a);
        let b = tensor![t(1); 3];
        use_all(&b);
    });
    l.add("tensor from nested".into(), move || {
        let n = [[t(1), t(2), t(3)], [t(4), t(5), t(6)]];
        let a = Tensor::<Tracked, (Dyn, Dyn)>::from(&n);
        let b = Tensor::<Tracked, (Dyn, Const<3>)>::from(n);
        use_all(&a);
        use_all(&b);
        let v = View::<Tracked, (Dyn, Dyn)>::from(&[[t(1)], [t(2)]]).to_tensor();
        use_all(&v);
    });
    l.add("tensor from slice and vec".into(), move || {
        let v: Vec<Tracked> = (0..3).map(t).collect();
        let a = Tensor::<Tracked, Rank<1>>::from(&v[..]);
        let b = Tensor::<Tracked, Rank<1>>::from(v);
        use_all(&a);
        use_all(&b);
        let v: Vec<Tracked> = b.into();
        look(&v);
    });
    l.add("collect".into(), move || {
        let a: Tensor<Tracked, Rank<1>> = (0..4)
            .map(|x| {
                tick(tracked::CALL);
                t(x)
            })
            .collect();
        use_all(&a);
    });
    l.add("tensor to nested".into(), move || {
        let a = ten::<Tracked, Rank<2>>(&[2, 3]);
        match <[[Tracked; 3]; 2]>::try_from(a) {
            Ok(n) => n.iter().for_each(|r| look(r)),
            Err(_) => panic!("refused"),
        }
        let a = ten::<Tracked, Rank<2>>(&[2, 3]);
        match <[[Tracked; 2]; 3]>::try_from(a) {
            Ok(_) => panic!("not refused"),
            Err(a) => use_all(&a),
        }
    });
    for n in 0..=3usize {
        l.add(format!("extend by {n}"), move || {
            let mut a = ten::<Tracked, Rank<1>>(&[2]);
            a.extend((0..n as u32).map(|x| {
                tick(tracked::CALL);
                t(x)
            }));
            use_all(&a);
        });
    }
    l.leaky("array moving expression clone".into(), || {
        let e = arr::<Tracked, (Const<2>, Const<2>)>().into_expr();
        let f = e.clone();
        use_all(f.as_ref());
        for x in f {
            x.label();
        }
        let mut g = arr::<Tracked, (Const<2>, Const<2>)>().into_expr();
        g.clone_from(&e);
        use_all(g.as_ref());
    });
    l.add("array clone".into(), move || {
        let a = arr::<Tracked, (Const<2>, Const<3>)>();
        let mut b = a.clone();
        use_all(&*b);
        b.clone_from(&a);
        use_all(&*b);
    });
    for (name, empty) in [("default", true), ("take", false)] {
        l.add(format!("moving expression {name}"), move || {
            let mut e = expr::IntoExpr::<Tensor<std::mem::ManuallyDrop<Tracked>, Rank<1>>>::default();
            if !empty {
                e = ten::<Tracked, Rank<1>>(&[3]).into_expr();
            }
            let e = std::mem::take(&mut e);
            e.for_each(|x| drop(x.label()));
        });
    }
    // Elements of elements.
    l.add("array of arrays".into(), move || {
        let a = Tensor::<Tensor<Tracked, Rank<1>>, Rank<1>>::from_fn([3], |i| Tensor::from_fn([i[0]], counter()));
        let b = a.clone();
        let mut c = b.map(|x| x.map(|y| call_with(y)));
        c.resize(&[2], Tensor::new());
        c.append(&mut a.clone());
        c.truncate(4);
        look(c.iter().flat_map(|x| x.iter()));
    });
    // Drains of more than one kind while the rest is used.
    for (lo, hi) in [(0, 0), (0, 1), (1, 2), (0, 3), (2, 3)] {
        l.add(format!("drain {lo}..{hi}: map and eval"), move || {
            let mut a = ten::<Tracked, Rank<2>>(&[3, 2]);
            drop(a.drain(lo..hi).map(|x| call_with(x)).eval());
            use_all(&a);
        });
        l.add(format!("drain {lo}..{hi}: zip"), move || {
            let mut a = ten::<Tracked, Rank<2>>(&[3, 2]);
            let b = ten::<Tracked, Rank<2>>(&[hi - lo, 2]);
            let e = a.drain(lo..hi).zip(b).map(|(x, y)| {
                tick(tracked::CALL);
                drop(y);
                x
            });
            drop(e.eval());
            use_all(&a);
        });
        l.add(format!("drain {lo}..{hi}: expand another"), move || {
            let mut a = ten::<Tracked, Rank<2>>(&[3, 2]);
            let mut b = ten::<Tracked, Rank<2>>(&[1, 2]);
            b.expand(a.drain(lo..hi));
            b.expand(a.drain(..).map(|x| call_with(x)));
            use_all(&a);
            use_all(&b);
        });
        l.refused(format!("drain {lo}..{hi}: expand refused"), move || {
            let mut a = ten::<Tracked, Rank<2>>(&[3, 2]);
            let mut b = ten::<Tracked, Rank<2>>(&[1, 3]);
            b.expand(a.drain(lo..hi));
            if lo == hi {
                panic!();
            }
        });
    }
}

pub fn all(thorough: bool) -> Vec<Scenario> {
    let mut l = List(vec![]);
    constant::<Tracked, ()>(&mut l, "()");
    constant::<Tracked, (Const<0>,)>(&mut l, "(0)");
    constant::<Tracked, (Const<3>,)>(&mut l, "(3)");
    constant::<Tracked, (Const<2>, Const<3>)>(&mut l, "(2, 3)");
    constant::<Zst, (Const<2>, Const<2>)>(&mut l, "(2, 2)");
    dynamic::<Tracked, Rank<1>>(&mut l, "rank 1", &[0]);
    dynamic::<Tracked, Rank<1>>(&mut l, "rank 1", &[3]);
    dynamic::<Tracked, Rank<2>>(&mut l, "rank 2", &[2, 2]);
    dynamic::<Tracked, Rank<2>>(&mut l, "rank 2", &[2, 3]);
    dynamic::<Tracked, Rank<2>>(&mut l, "rank 2", &[0, 2]);
    dynamic::<Tracked, DynRank>(&mut l, "DynRank", &[]);
    dynamic::<Tracked, DynRank>(&mut l, "DynRank", &[2, 2]);
    dynamic::<Zst, Rank<2>>(&mut l, "rank 2", &[2, 2]);
    if thorough {
        dynamic::<Tracked, Rank<3>>(&mut l, "rank 3", &[2, 2, 2]);
        dynamic::<Tracked, DynRank>(&mut l, "DynRank", &[2, 1, 3]);
    }
    conversions(&mut l);
    l.0
}
