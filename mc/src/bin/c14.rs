//! C14: equality, hashing, search and formatting depend only on shape and elements.
use std::collections::HashMap;
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};

use mc::engine::{Check, Ctx, Worker, main as run};
use mc::model::{Lay, St, all_dims, make, make_mut, permutations, product, strided_from};
use mc::types::{Visitor, each};
use mc::{ensure, ensure_eq};
use mdarray::{Array, Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided, Tensor, View, ViewMut};

/// Element: 0 and 1 are ordinary, `ODD` is not equal to itself, `GAP` is outside of the array.
#[derive(Clone, Copy, Default)]
struct V(u8);

const ODD: u8 = 2;
const GAP: u8 = 9;

impl PartialEq for V {
    fn eq(&self, other: &V) -> bool {
        self.0 == other.0 && self.0 != ODD
    }
}

impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0 ^ 0x55)
    }
    /// As for integers, all at once.
    fn hash_slice<H: Hasher>(data: &[Self], h: &mut H) {
        let v: Vec<u8> = data.iter().map(|x| x.0 ^ 0x55).collect();
        h.write(&v)
    }
}

impl Debug for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

/// Element of another type.
#[derive(Clone, Copy, Default)]
struct W(i32);

impl PartialEq<W> for V {
    fn eq(&self, other: &W) -> bool {
        other.0 == 100 + self.0 as i32 && self.0 != ODD
    }
}

/// All bytes, and where each write ends: a hash may depend on both.
#[derive(Default)]
struct Recorder(Vec<u8>, Vec<usize>);

impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend(bytes);
        self.1.push(self.0.len())
    }
}

type Hashed = (Vec<u8>, Vec<usize>);

fn record<T: Hash + ?Sized>(x: &T) -> Hashed {
    let mut h = Recorder::default();
    x.hash(&mut h);
    (h.0, h.1)
}

/// Reference for formatting.
enum Nest {
    E(V),
    L(Vec<Nest>),
}

impl Debug for Nest {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Nest::E(x) => x.fmt(f),
            Nest::L(v) => f.debug_list().entries(v).finish(),
        }
    }
}

fn nest(dims: &[usize], items: &[u8]) -> Nest {
    if dims.is_empty() {
        return Nest::E(V(items[0]));
    }
    let n = product(&dims[1..]);
    Nest::L((0..dims[0]).map(|i| nest(&dims[1..], &items[i * n..(i + 1) * n])).collect())
}

/// Buffer of a view in the given state with the given elements.
fn buffer<T: Copy>(st: &St, items: &[T], gap: T) -> Vec<T> {
    let mut b = vec![gap; st.len];
    for (i, x) in st.sem().ids.iter().zip(items) {
        b[*i as usize] = *x;
    }
    b
}

fn values(items: &[u8]) -> Vec<V> {
    items.iter().map(|&x| V(x)).collect()
}

fn contents(n: usize, values: u8) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|x: Vec<u8>| (0..values).map(move |k| [&x[..], &[k]].concat())).collect();
    }
    v
}

/// Contents to try for `n` elements: all if few, otherwise those with at most two of another value.
fn some_contents(n: usize, full: usize, values: u8) -> Vec<Vec<u8>> {
    if n <= full {
        return contents(n, values);
    }
    let mut v = vec![vec![0; n], vec![1; n]];
    for i in 0..n {
        for k in 1..values {
            let mut x = vec![0; n];
            x[i] = k;
            v.push(x.clone());
            for j in 0..i {
                x[j] = k;
                v.push(x.clone());
                x[j] = 0;
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Hash, search and format of one array in all its containers.
struct Single<'a, 'b> {
    w: &'a mut Worker<'b>,
    st: &'a St,
    items: &'a [u8],
    hash: &'a mut Option<Hashed>,
}

fn single<S: Shape, L: Layout>(x: &Slice<V, S, L>, dims: &[usize], items: &[u8], hash: &Hashed) -> Check {
    ensure_eq!(record(x), *hash, "hash differs from that of an equal array");
    for q in [0, 1, ODD, GAP] {
        let want = items.iter().any(|&x| V(x) == V(q));
        ensure_eq!(x.contains(&V(q)), want, "contains({q}) in {items:?}");
    }
    let n = nest(dims, items);
    ensure_eq!(format!("{x:?}"), format!("{n:?}"), "format");
    ensure_eq!(format!("{x:#?}"), format!("{n:#?}"), "pretty format");
    ensure_eq!(format!("{x:03?}"), format!("{n:03?}"), "format with options");
    Ok(())
}

impl Visitor for Single<'_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let (st, items) = (self.st, self.items);
        let mut buf = buffer(st, &values(items), V(GAP));
        let hash = &mut *self.hash;
        self.w.case(
            || format!("{name} {} {items:?}", st.name()),
            |w| {
                w.steps(7);
                w.trace();
                let v = make::<V, S, L>(st, &buf);
                let t = v.to_tensor();
                let hash = &*hash.get_or_insert_with(|| record(&t));
                single(&v, &st.dims, items, hash)?;
                single(&t, &st.dims, items, hash)?;
                // The containers have their own implementations.
                let n = nest(&st.dims, items);
                ensure_eq!(record(&v), *hash, "hash of a view");
                ensure_eq!(record(&t), *hash, "hash of a tensor");
                ensure_eq!(format!("{v:?} {t:?}"), format!("{n:?} {n:?}"), "format of a view and a tensor");
                let m = make_mut::<V, S, L>(st, &mut buf);
                single(&m, &st.dims, items, hash)?;
                ensure_eq!(record(&m), *hash, "hash of a mutable view");
                ensure_eq!(format!("{m:?} {m:#?} {m:03?}"), format!("{n:?} {n:#?} {n:03?}"), "format of a mutable view");
                w.outcome(&(&st.dims, items, hash));
                Ok(())
            },
        );
    }
}

/// The same array stored in different ways.
fn states(dims: &[usize], all: bool) -> Vec<St> {
    let rank = dims.len();
    let perms = if all || rank < 3 { permutations(rank) } else { vec![(0..rank).collect(), (0..rank).rev().collect(), (1..rank).chain([0]).collect()] };
    strided_from(rank, &[dims.to_vec()], &[1, -2], &[0, !0], &perms)
}

/// Results for several containers.
type Fun = fn(&St, &[u8], &St, &[u8]) -> [bool; 6];

const KINDS: [&str; 6] = ["Slice == Slice", "!(Slice != Slice)", "View == Slice", "ViewMut == View", "Tensor == View", "View == Tensor"];

fn compare<S: Shape, L: Lay, R: Shape, K: Lay>(a: &St, x: &[u8], b: &St, y: &[u8]) -> [bool; 6] {
    let (mut p, q) = (buffer(a, &values(x), V(GAP)), buffer(b, &values(y), V(GAP)));
    let v: &Slice<V, S, L> = &make::<V, S, L>(a, &p);
    let w: &Slice<V, R, K> = &make::<V, R, K>(b, &q);
    let slices = [v == w, !(v != w), make::<V, S, L>(a, &p) == *w];
    let (s, t) = (v.to_tensor(), w.to_tensor());
    let other = make::<V, R, K>(b, &q);
    let tensors = [s == other, make::<V, S, L>(a, &p) == t];
    let m = make_mut::<V, S, L>(a, &mut p) == other;
    [slices[0], slices[1], slices[2], m, tensors[0], tensors[1]]
}

/// Arrays compared with views of any shape.
fn arrays(w: &mut Worker, st: &St, items: &[u8]) -> Check {
    let p = buffer(st, &values(items), V(GAP));
    let v = make::<V, DynRank, Strided>(st, &p);
    macro_rules! array {
        ($($n:literal)*) => {{
            let dims: &[usize] = &[$($n),*];
            let mut k = 0;
            let a = Array::<V, ($(Const<$n>,)*)>::from_fn(|_| {
                k += 1;
                V(*items.get(k - 1).unwrap_or(&0))
            });
            let want = st.dims == dims && !items.contains(&ODD);
            w.steps(3);
            ensure_eq!(a == v, want, "Array {dims:?} == View");
            ensure_eq!(a != *v, !want, "Array {dims:?} != Slice");
            ensure_eq!(v == a, want, "View == Array {dims:?}");
            if st.dims == dims {
                w.steps(3);
                ensure_eq!(record(&a), record(&v.to_tensor()), "hash of Array {dims:?}");
                ensure_eq!(record(&a), record(&*a), "hash of Array {dims:?} and of its slice");
                let n = nest(dims, items);
                ensure_eq!(format!("{a:?} {a:#?} {a:03?}"), format!("{n:?} {n:#?} {n:03?}"), "format of Array {dims:?}");
                for q in [0, 1, ODD, GAP] {
                    ensure_eq!(a.contains(&V(q)), items.iter().any(|&x| V(x) == V(q)), "contains({q}) of Array {dims:?}");
                }
            }
        }};
    }
    array!();
    array!(1);
    array!(6);
    array!(0);
    array!(2 3);
    array!(3 2);
    array!(1 6);
    array!(0 2);
    array!(2 0);
    array!(2 1 3);
    array!(17);
    array!(3 17);
    Ok(())
}

/// Comparison of shape types.
struct Pair {
    name: String,
    /// Sizes required by the shape types; `None` for any rank.
    left: Option<&'static [Option<usize>]>,
    right: Option<&'static [Option<usize>]>,
    dense: (bool, bool),
    f: Fun,
}

fn fits(s: Option<&[Option<usize>]>, d: &[usize]) -> bool {
    s.is_none_or(|s| s.len() == d.len() && s.iter().zip(d).all(|(s, d)| s.is_none_or(|s| s == *d)))
}

fn pairs() -> Vec<Pair> {
    let mut v = vec![];
    macro_rules! pair {
        ($(($s:ty = $a:expr, $r:ty = $b:expr))*) => {
            $(
                for (name, left, right, dense, f) in [
                    ("dense == dense", $a, $b, (true, true), compare::<$s, Dense, $r, Dense> as Fun),
                    ("dense == strided", $a, $b, (true, false), compare::<$s, Dense, $r, Strided> as Fun),
                    ("strided == dense", $a, $b, (false, true), compare::<$s, Strided, $r, Dense> as Fun),
                    ("strided == strided", $a, $b, (false, false), compare::<$s, Strided, $r, Strided> as Fun),
                ] {
                    v.push(Pair { name: format!("{} {name} {}", stringify!($s), stringify!($r)), left, right, dense, f });
                }
            )*
        };
    }
    const R0: Option<&[Option<usize>]> = Some(&[]);
    const R1: Option<&[Option<usize>]> = Some(&[None]);
    const R2: Option<&[Option<usize>]> = Some(&[None; 2]);
    const R3: Option<&[Option<usize>]> = Some(&[None; 3]);
    const D: Option<&[Option<usize>]> = None;
    const C23: Option<&[Option<usize>]> = Some(&[Some(2), Some(3)]);
    const CD2: Option<&[Option<usize>]> = Some(&[None, Some(2)]);
    pair! {
        (Rank<0> = R0, Rank<0> = R0) (Rank<1> = R1, Rank<1> = R1) (Rank<2> = R2, Rank<2> = R2) (Rank<3> = R3, Rank<3> = R3)
        (Rank<1> = R1, DynRank = D) (Rank<2> = R2, DynRank = D) (DynRank = D, Rank<2> = R2) (DynRank = D, Rank<0> = R0)
        (DynRank = D, DynRank = D)
        (Rank<1> = R1, Rank<2> = R2) (Rank<2> = R2, Rank<1> = R1) (Rank<0> = R0, Rank<1> = R1)
        ((Const<2>, Const<3>) = C23, Rank<2> = R2) (Rank<2> = R2, (Const<2>, Const<3>) = C23)
        ((mdarray::Dyn, Const<2>) = CD2, Rank<2> = R2) ((mdarray::Dyn, Const<2>) = CD2, (Const<2>, Const<3>) = C23)
        ((mdarray::Dyn, Const<2>) = CD2, DynRank = D)
    }
    v
}

/// Equality of all pairs of containers: results with the name of the pair.
fn containers<T: Copy + Default + 'static>(x: &[u8], y: &[u8], conv: fn(u8) -> T) -> Vec<(&'static str, bool)>
where
    V: PartialEq<T>,
{
    let mut r = vec![];
    let a = Array::<V, (Const<2>, Const<2>)>::from_fn(|i| V(x[2 * i[0] + i[1]]));
    let b = Array::<T, (Const<2>, Const<2>)>::from_fn(|i| conv(y[2 * i[0] + i[1]]));
    let st = St { dims: vec![2, 2], strides: vec![-2, 4], off: 3, len: 9, dense: false };
    let mut p = buffer(&st, &values(x), V(GAP));
    let mut q = buffer(&st, &y.iter().map(|&y| conv(y)).collect::<Vec<_>>(), conv(GAP));
    let (p2, q2) = (p.clone(), q.clone());
    let (mut a2, mut b2) = (a, b);
    let s = Tensor::<V, Rank<2>>::from(&a.0);
    let t = Tensor::<T, Rank<2>>::from(&b.0);
    let (v, w) = (a2.expr_mut(), b2.expr_mut());
    let (vs, ws) = (make::<V, Rank<2>, Strided>(&st, &p2), make::<T, Rank<2>, Strided>(&st, &q2));
    let (vm, wm) = (make_mut::<V, Rank<2>, Strided>(&st, &mut p), make_mut::<T, Rank<2>, Strided>(&st, &mut q));
    let (vd, wd): (View<V, Rank<2>>, View<T, Rank<2>>) = (View::from(&a.0), View::from(&b.0));
    let _: (&ViewMut<V, _, Dense>, &ViewMut<T, _, Dense>) = (&v, &w);
    macro_rules! cross {
        ($($l:expr, $ln:literal);* $(;)?) => { $(cross!(@ $l, $ln);)* };
        (@ $l:expr, $ln:literal) => {
            r.push((concat!($ln, " == Array"), *$l == b));
            r.push((concat!($ln, " == Tensor"), *$l == t));
            r.push((concat!($ln, " == Slice"), *$l == *t));
            r.push((concat!($ln, " == View"), *$l == wd));
            r.push((concat!($ln, " == ViewMut"), *$l == w));
            r.push((concat!($ln, " == View strided"), *$l == ws));
            r.push((concat!($ln, " == ViewMut strided"), *$l == wm));
            r.push((concat!($ln, " == Slice strided"), *$l == *ws));
        };
    }
    cross! {
        &a, "Array"; &s, "Tensor"; &*s, "Slice"; &vd, "View"; &v, "ViewMut"; &vs, "View strided"; &vm, "ViewMut strided"; &*vs, "Slice strided";
    }
    r
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;

    // Hash, search, format.
    let limit = if t { 5 } else { 4 };
    let mut all: Vec<Vec<usize>> = vec![];
    for rank in 0..=4 {
        let lim = if rank < 3 { limit } else { 3 };
        all.extend(all_dims(rank, lim));
    }
    all.extend([vec![2, 1, 2, 1, 2], vec![1, 2, 1, 0, 2], vec![1, 2, 1, 1, 2, 1], vec![0, 1, 1, 1, 1, 1]]);
    ctx.bound("shapes", "ranks 0-4 with sizes 0..3 (0..2 for ranks 3, 4), some of ranks 5 and 6");
    let hashes: std::sync::Mutex<HashMap<(Vec<usize>, Vec<u8>), Vec<u8>>> = Default::default();
    ctx.par(&all, |w, dims| {
        w.state();
        let n = product(dims);
        let full = if t { 4 } else { 3 };
        let list = if n <= full { contents(n, 3) } else { some_contents(n, 0, 3) };
        let list: Vec<_> = if dims.len() > 3 && !t { list.into_iter().step_by(3).collect() } else { list };
        for items in list {
            let mut hash = None;
            let st = St::dense(dims);
            each::<Dense>(dims, &mut Single { w, st: &st, items: &items, hash: &mut hash });
            if dims.len() <= 4 {
                let few = dims.len() > 2 && !t;
                for st in states(dims, t).iter().step_by(if few { 5 } else { 1 }) {
                    each::<Strided>(dims, &mut Single { w, st, items: &items, hash: &mut hash });
                }
            }
            hashes.lock().unwrap().insert((dims.clone(), items), hash.map_or(vec![], |h| h.0));
        }
    });
    let long: Vec<Vec<usize>> = [&[17][..], &[40], &[9, 12], &[33, 2], &[3, 17], &[4, 5, 6], &[2, 3, 2, 5]].iter().map(|d| d.to_vec()).collect();
    ctx.par(&long, |w, dims| {
        w.state();
        let n = product(dims);
        for i in 0..=n {
            let mut items = vec![0; n];
            if i < n {
                items[i] = 1;
                items[(i + 8) % n] = 1;
            }
            let mut hash = None;
            let st = St::dense(dims);
            each::<Dense>(dims, &mut Single { w, st: &st, items: &items, hash: &mut hash });
            for st in states(dims, false).iter().take(4) {
                each::<Strided>(dims, &mut Single { w, st, items: &items, hash: &mut hash });
            }
            hashes.lock().unwrap().insert((dims.clone(), items), hash.map_or(vec![], |h| h.0));
        }
    });
    // Different arrays of the same rank have different hash input.
    ctx.one(|w| {
        w.case(
            || "hash of different arrays".into(),
            |w| {
                let all = hashes.lock().unwrap();
                let mut seen: HashMap<(usize, &Vec<u8>), &(Vec<usize>, Vec<u8>)> = HashMap::new();
                let mut list: Vec<_> = all.iter().collect();
                list.sort();
                for (k, h) in list {
                    w.step();
                    if let Some(other) = seen.insert((k.0.len(), h), k) {
                        return Err(format!("arrays {:?} {:?} and {:?} {:?} are not distinguished", k.0, k.1, other.0, other.1));
                    }
                }
                // Different ranks.
                for d in [vec![6], vec![1, 6], vec![6, 1], vec![1, 1, 6], vec![2, 3], vec![3, 2]] {
                    let x = Tensor::<V, DynRank>::from_elem(&d[..], V(0));
                    let y = Tensor::<V, DynRank>::from_elem(&[2, 1, 3][..], V(0));
                    w.step();
                    ensure!(record(&x).0 != record(&y).0, "shapes {d:?} and [2, 1, 3] are not distinguished");
                }
                Ok(())
            },
        )
    });

    // Equality of shape types and layouts.
    let large: Vec<Vec<usize>> = [&[17][..], &[40], &[130], &[9, 12], &[12, 9], &[33, 2], &[3, 17], &[4, 5, 6], &[6, 5, 4]].iter().map(|d| d.to_vec()).collect();
    let mut jobs: Vec<(Pair, Vec<usize>, Vec<usize>)> = vec![];
    for p in pairs() {
        let lim = |s: Option<&[Option<usize>]>| -> Vec<Vec<usize>> {
            let ranks: Vec<usize> = match s {
                Some(s) => vec![s.len()],
                None => (0..=if t { 4 } else { 3 }).collect(),
            };
            let mut v: Vec<Vec<usize>> = ranks.iter().flat_map(|&r| all_dims(r, if r < 3 { 4 } else { 3 })).collect();
            v.retain(|d| fits(s, d));
            v
        };
        for a in lim(p.left) {
            for b in lim(p.right) {
                jobs.push((Pair { name: p.name.clone(), ..p }, a.clone(), b));
            }
        }
        for a in large.iter().filter(|d| fits(p.left, d)) {
            for b in large.iter().filter(|d| fits(p.right, d)) {
                jobs.push((Pair { name: p.name.clone(), ..p }, a.clone(), b.clone()));
            }
        }
    }
    ctx.bound("large", "17 to 130 elements: equality of arrays with one deviation, hash, search and format with one or two other values in every position");
    ctx.bound("equality", "17 pairs of shape types x 4 pairs of layouts x all pairs of small shapes, incl. different ranks; all contents of 3 values up to 3 elements, otherwise up to two deviations");
    ctx.par(&jobs, |w, (p, a, b)| {
        w.state();
        let n = product(a);
        let sa = if p.dense.0 { vec![St::dense(a)] } else { states(a, false) };
        let sb = if p.dense.1 { vec![St::dense(b)] } else { states(b, false) };
        // All pairs of contents for a few elements; otherwise the second is the first with changes.
        let mut list: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        if a != b {
            list.push((vec![0; n], vec![0; product(b)]));
            list.push(((0..n).map(|i| (i % 2) as u8).collect(), (0..product(b)).map(|i| (i % 2) as u8).collect()));
        } else if n <= if t { 3 } else { 2 } {
            for x in contents(n, 3) {
                for y in contents(n, 3) {
                    list.push((x.clone(), y));
                }
            }
        } else {
            let base: Vec<u8> = (0..n).map(|i| (i % 2) as u8).collect();
            list.push((base.clone(), base.clone()));
            for i in 0..n {
                let mut y = base.clone();
                y[i] = 1 - y[i];
                list.push((base.clone(), y.clone()));
                list.push((y.clone(), y.clone()));
                y[i] = ODD;
                list.push((y.clone(), y.clone()));
                for j in 0..if n < 16 { i } else { 0 } {
                    let mut z = base.clone();
                    z.swap(i, j);
                    list.push((base.clone(), z.clone()));
                }
            }
            list.push((vec![0; n], vec![1; n]));
        }
        let step = if n > 16 { 4 } else if a.len() > 2 && !t { 3 } else { 1 };
        for (k, x) in sa.iter().step_by(step).enumerate() {
            for (m, y) in sb.iter().step_by(step).enumerate() {
                // All pairs of states with equal position, and each with the first.
                if !t && k != 0 && m != 0 && k != m {
                    continue;
                }
                for (c, d) in &list {
                    let want = a == b && c.iter().zip(d).all(|(c, d)| V(*c) == V(*d));
                    w.case(
                        || format!("{}: {} {c:?} and {} {d:?}", p.name, x.name(), y.name()),
                        |w| {
                            w.step();
                            w.trace();
                            w.count(if want { "equal" } else { "unequal" });
                            for (got, kind) in (p.f)(x, c, y, d).into_iter().zip(KINDS) {
                                ensure!(got == want, "compare as {}: {kind}", if got { "equal" } else { "unequal" });
                            }
                            w.outcome(&(a, b, want));
                            Ok(())
                        },
                    );
                }
            }
        }
    });

    ctx.bound("arrays", "12 array types compared with views of all shapes");
    ctx.par(&all, |w, dims| {
        let n = product(dims);
        for st in states(dims, false).into_iter().chain([St::dense(dims)]).collect::<Vec<_>>() {
            for items in [vec![0; n], (0..n).map(|i| (i % 2) as u8).collect(), vec![ODD; n]] {
                w.case(|| format!("arrays and {} {items:?}", st.name()), |w| arrays(w, &st, &items));
            }
        }
    });

    // Equality of containers, also with another element type.
    ctx.par(&contents(4, 3), |w, x| {
        w.state();
        for y in contents(4, 3) {
            let want = x.iter().zip(&y).all(|(c, d)| V(*c) == V(*d));
            w.case(
                || format!("containers {x:?} {y:?}"),
                |w| {
                    for (kind, list) in [("", containers::<V>(x, &y, V)), (" of another element type", containers::<W>(x, &y, |x| W(100 + x as i32)))] {
                        for (name, got) in list {
                            w.step();
                            ensure!(got == want, "{name}{kind} gives {got}");
                        }
                    }
                    w.trace();
                    Ok(())
                },
            );
        }
    });
    ctx.bound("containers", "8 x 8 kinds for all contents of a 2x2 array, equal and different element types");
}

fn main() {
    run(check)
}
