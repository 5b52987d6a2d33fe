//! C09: axis and lane expressions partition the array exactly.
use mc::engine::{Check, Ctx, Worker, main as run};
use mc::model::{Lay, dims_of, Sem, St, dense_states, few_permutations, huge_states, large_states, long_states, make, make_mut, positions, small_dims, strided_from, strided_states};
use mc::types::{Visitor, each_low, each_static_few};
use mc::{ensure, ensure_eq};
use mdarray::expr::{self, Expression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::{Const, Dense, DynRank, Layout, Rank, Shape, Slice, Strided};

#[path = "../exprs.rs"]
mod exprs;
use exprs::*;
#[path = "../grammar.rs"]
mod grammar;
use grammar::*;

/// Items and their order, by single steps, internal iteration and a mixture of both.
fn expression(w: &mut Worker, c: &Case) -> Check {
    let Some(m) = &c.model else {
        w.step();
        ensure!((c.make)().is_none(), "expression is not refused");
        return Ok(());
    };
    let want = m.tokens();
    let n = want.len();
    let e = (c.make)().ok_or("expression panics")?;
    ensure_eq!(e.dims(), m.dims, "dimensions");
    ensure_eq!(e.len(), n, "len() of the expression");
    for k in positions(n) {
        w.step();
        let mut i = (c.make)().ok_or("expression panics")?.iter();
        let mut got = vec![];
        for _ in 0..k {
            ensure_eq!(i.len(), n - got.len(), "remaining length");
            got.extend(i.next());
        }
        i.fold(&mut |x| got.push(x));
        ensure_eq!(got.len(), n, "number of items");
        if let Some(p) = (0..n).find(|&p| got[p] != want[p]) {
            return Err(format!("item {p} of {n} is not the expected part of the array (fold after {k} steps)"));
        }
    }
    take_log();
    w.outcome(&want);
    w.trace();
    Ok(())
}

fn all(w: &mut Worker, what: &str, cases: Vec<Case>) {
    for c in &cases {
        w.case(|| format!("{what} {}", c.name), |w| expression(w, c));
        clear_arena();
    }
}

/// Write a label into every element.
fn label<S: Shape, L: Layout>(v: &mut Slice<u32, S, L>, n: usize) {
    let dims: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    for (p, i) in mc::model::indices(&dims).iter().enumerate() {
        v[&i[..]] = (1000 + n * 100 + p) as u32;
    }
}

/// The buffer after writing labels into the parts.
fn labelled(st: &St, parts: &[Sem]) -> Vec<u32> {
    let mut buf = st.buffer();
    for (n, part) in parts.iter().enumerate() {
        for (p, &id) in part.ids.iter().enumerate() {
            buf[id as usize] = (1000 + n * 100 + p) as u32;
        }
    }
    buf
}

fn writes<S: Shape, L: Lay, A: Axis>(w: &mut Worker, st: &St, axis: A, k: usize) -> Check {
    let sem = st.sem();
    let subs: Vec<Sem> = (0..st.dims[k]).map(|i| sem.axis_at(k, i).unwrap()).collect();
    let lanes = sem.lanes(k).unwrap().1;
    w.steps(5);

    let mut buf = st.buffer();
    let mut n = 0;
    make_mut::<u32, S, L>(st, &mut buf).axis_expr_mut(axis).for_each(|mut x| {
        label(&mut x, n);
        n += 1;
    });
    ensure_eq!(buf, labelled(st, &subs), "elements after writing through axis_expr_mut({k})");

    let mut buf = st.buffer();
    let mut n = 0;
    for mut x in make_mut::<u32, S, L>(st, &mut buf).lanes_mut(axis) {
        label(&mut x, n);
        n += 1;
    }
    ensure_eq!(buf, labelled(st, &lanes), "elements after writing through lanes_mut({k})");

    // Copy lane by lane, and part by part.
    let mut filled = st.buffer();
    for &id in &sem.ids {
        filled[id as usize] = id + 5000;
    }
    let source: Vec<u32> = st.buffer().iter().map(|x| x + 5000).collect();
    let mut buf = st.buffer();
    make_mut::<u32, S, L>(st, &mut buf).lanes_mut(axis).zip(make::<u32, S, L>(st, &source).lanes(axis)).for_each(|(mut x, y)| x.assign(y));
    ensure_eq!(buf, filled, "elements after assigning lanes along axis {k}");
    let mut buf = st.buffer();
    expr::zip(make_mut::<u32, S, L>(st, &mut buf).axis_expr_mut(axis), make::<u32, S, L>(st, &source).axis_expr(axis)).for_each(|(mut x, y)| x.assign(y));
    ensure_eq!(buf, filled, "elements after assigning parts along axis {k}");

    // With counts.
    let mut buf = st.buffer();
    make_mut::<u32, S, L>(st, &mut buf).lanes_mut(axis).enumerate().for_each(|(n, mut x)| label(&mut x, n));
    ensure_eq!(buf, labelled(st, &lanes), "elements after writing through enumerated lanes_mut({k})");
    w.trace();
    Ok(())
}

/// Lanes and parts of lanes and parts.
fn nested<S: Shape, L: Lay, A: Axis>(w: &mut Worker, st: &St, axis: A, k: usize) -> Check {
    let sem = st.sem();
    let buf = st.buffer();
    let v = make::<u32, S, L>(st, &buf);
    let mut i = 0;
    for x in v.axis_expr(axis) {
        let part = sem.axis_at(k, i).unwrap();
        for j in 0..part.rank() {
            w.steps(2);
            let mut got = vec![];
            x.axis_expr(j).for_each(|y| got.push(y.tok()));
            let want: Vec<u64> = (0..part.dims[j]).map(|n| sem_tok(&part.axis_at(j, n).unwrap())).collect();
            ensure!(got == want, "axis_expr({j}) of part {i} along axis {k}");
            let mut got = vec![];
            for y in x.lanes(j) {
                got.push(y.tok());
            }
            let want: Vec<u64> = part.lanes(j).unwrap().1.iter().map(sem_tok).collect();
            ensure!(got == want, "lanes({j}) of part {i} along axis {k}");
        }
        i += 1;
    }
    ensure_eq!(i, st.dims[k], "number of parts");
    let lanes = sem.lanes(k).unwrap().1;
    let mut i = 0;
    for x in v.lanes(axis) {
        w.step();
        let mut got = vec![];
        for y in x.axis_expr(0) {
            got.push(y[[]]);
        }
        ensure_eq!(got, lanes[i].ids, "elements of lane {i} along axis {k}, as parts of it");
        i += 1;
    }
    w.trace();
    Ok(())
}

/// Axis and lane expressions copied into existing ones, of another array or axis.
fn copies<S: Shape, L: Lay>(w: &mut Worker, a: &St, b: &St) -> Check {
    let (x, y) = (a.buffer(), b.buffer());
    let (x, y) = (make::<u32, S, L>(a, &x), make::<u32, S, L>(b, &y));
    let sem = b.sem();
    for k in 0..b.dims.len() {
        let parts: Vec<u64> = (0..b.dims[k]).map(|i| sem_tok(&sem.axis_at(k, i).unwrap())).collect();
        let (dims, lanes) = sem.lanes(k).unwrap();
        let lanes: Vec<u64> = lanes.iter().map(sem_tok).collect();
        for j in 0..a.dims.len() {
            w.steps(2);
            let from = y.axis_expr(k);
            let mut e = x.axis_expr(j);
            e.clone_from(&from);
            ensure_eq!(e.len(), parts.len(), "len() of axis_expr({k}) copied into axis_expr({j})");
            ensure!(e.into_iter().map(|x| x.tok()).eq(parts.iter().copied()), "items of axis_expr({k}) copied into axis_expr({j})");
            ensure!(from.into_iter().map(|x| x.tok()).eq(parts.iter().copied()), "items of axis_expr({k}) after copying");
            let from = y.lanes(k);
            let mut e = x.lanes(j);
            e.clone_from(&from);
            ensure_eq!(dims_of(e.shape()), dims, "dimensions of lanes({k}) copied into lanes({j})");
            ensure!(e.into_iter().map(|x| x.tok()).eq(lanes.iter().copied()), "items of lanes({k}) copied into lanes({j})");
            ensure!(from.into_iter().map(|x| x.tok()).eq(lanes.iter().copied()), "items of lanes({k}) after copying");
        }
    }
    w.outcome(&(&a.dims, &b.dims));
    w.trace();
    Ok(())
}

struct Go<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Go<'_, '_, '_> {
    fn axis<S: Shape + 'static, L: Lay, A: Axis + 'static>(&mut self, name: &'static str, axis: A, k: usize, designation: &str) {
        let st = self.1;
        let mut o = Out::<false>::new();
        g_axis::<S, L, A, false>(&mut o, st, axis, k, designation);
        all(self.0, &format!("{name} {}", st.name()), o.cases);
        self.0.case(|| format!("{name} {} writes({designation})", st.name()), |w| writes::<S, L, A>(w, st, axis, k));
    }
}

impl Visitor for Go<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let rank = st.dims.len();
        for k in 0..rank {
            self.axis::<S, L, usize>(name, k, k, &k.to_string());
            self.0.case(|| format!("{name} {} nested({k})", st.name()), |w| nested::<S, L, usize>(w, st, k, k));
            let mut o = Out::<false>::new();
            g_axis_more::<S, L, usize, false>(&mut o, st, k, k, &k.to_string());
            all(self.0, &format!("{name} {}", st.name()), o.cases);
        }
        macro_rules! fixed {
            ($($k:literal)*) => {
                $(if $k < rank {
                    if const { S::RANK.is_none() || $k < S::RANK.unwrap() } {
                        self.axis::<S, L, _>(name, Const::<$k>, $k, concat!("Const<", $k, ">"));
                    }
                })*
            };
        }
        fixed!(0 1 2 3);
        if rank > 0 {
            if const { S::RANK.is_none() || S::RANK.unwrap() > 0 } {
                self.axis::<S, L, _>(name, Rows, rank - 1, "Rows");
                self.named_rows::<S, L>(name);
            }
        }
        if rank > 1 {
            if const { S::RANK.is_none() || S::RANK.unwrap() > 1 } {
                self.axis::<S, L, _>(name, Cols, rank - 2, "Cols");
                self.named_cols::<S, L>(name);
            }
        }
    }
}

impl Go<'_, '_, '_> {
    /// The methods with names of their own.
    fn named_rows<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let rank = st.dims.len();
        self.0.case(
            || format!("{name} {} rows(), outer_expr()", st.name()),
            |w| {
                w.steps(4);
                let sem = st.sem();
                let mut buf = st.buffer();
                let rows: Vec<u64> = sem.lanes(rank - 1).unwrap().1.iter().map(sem_tok).collect();
                let outer: Vec<u64> = (0..st.dims[0]).map(|i| sem_tok(&sem.axis_at(0, i).unwrap())).collect();
                let v = make::<u32, S, L>(st, &buf);
                ensure!(v.rows().into_iter().map(|x| x.tok()).collect::<Vec<_>>() == rows, "rows()");
                ensure!(v.outer_expr().into_iter().map(|x| x.tok()).collect::<Vec<_>>() == outer, "outer_expr()");
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                ensure!(v.rows_mut().into_iter().map(|x| x.tok()).collect::<Vec<_>>() == rows, "rows_mut()");
                ensure!(v.outer_expr_mut().into_iter().map(|x| x.tok()).collect::<Vec<_>>() == outer, "outer_expr_mut()");
                Ok(())
            },
        );
    }

    fn named_cols<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let rank = st.dims.len();
        self.0.case(
            || format!("{name} {} cols()", st.name()),
            |w| {
                w.steps(2);
                let mut buf = st.buffer();
                let cols: Vec<u64> = st.sem().lanes(rank - 2).unwrap().1.iter().map(sem_tok).collect();
                let v = make::<u32, S, L>(st, &buf);
                ensure!(v.cols().into_iter().map(|x| x.tok()).collect::<Vec<_>>() == cols, "cols()");
                let mut v = make_mut::<u32, S, L>(st, &mut buf);
                ensure!(v.cols_mut().into_iter().map(|x| x.tok()).collect::<Vec<_>>() == cols, "cols_mut()");
                Ok(())
            },
        );
    }
}

/// Fewer designations, for more shape types.
struct Few<'a, 'b, 'c>(&'a mut Worker<'b>, &'c St);

impl Visitor for Few<'_, '_, '_> {
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
        let st = self.1;
        let mut o = Out::<false>::new();
        for k in 0..st.dims.len() {
            g_axis::<S, L, usize, false>(&mut o, st, k, k, &k.to_string());
        }
        if st.dims.len() > 1 {
            if const { S::RANK.is_none() || S::RANK.unwrap() > 1 } {
                g_axis::<S, L, _, false>(&mut o, st, Cols, st.dims.len() - 2, "Cols");
            }
        }
        all(self.0, &format!("{name} {}", st.name()), o.cases);
    }
}

fn high<L: Lay>(w: &mut Worker, st: &St) {
    match st.dims.len() {
        4 => {
            Few(w, st).visit::<Rank<4>, L>("Rank<4>");
            let mut o = Out::<false>::new();
            g_axis::<Rank<4>, L, _, false>(&mut o, st, Const::<2>, 2, "Const<2>");
            g_axis::<Rank<4>, L, _, false>(&mut o, st, Const::<3>, 3, "Const<3>");
            all(w, &format!("Rank<4> {}", st.name()), o.cases);
        }
        5 => {
            Few(w, st).visit::<Rank<5>, L>("Rank<5>");
        }
        _ => {
            Few(w, st).visit::<Rank<6>, L>("Rank<6>");
        }
    }
}

/// Axis and lane expressions together with every kind of operand.
fn combined(w: &mut Worker, a: &[usize], b: &[usize]) {
    w.state();
    let mut o = Out::<false>::new();
    macro_rules! two {
        ($a:ident $b:ident) => {
            g_two::<$a, $b, false>(&mut o, a, b);
            g_two::<$b, $a, false>(&mut o, a, b);
        };
    }
    each_pair!(two; LanesOuter LanesInner LanesOuterMut Lanes2 Parts PartsMut; (DenseDyn StridedDyn Dense0 Dense1 Strided2 MutDyn MutStrided LanesOuter LanesInner LanesOuterMut Lanes2 Parts PartsMut Function Elem Filled OwnedDyn Owned1 Mapped));
    all(w, "", o.cases);
}

fn check(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound("states", if t { "rank 1: sizes 0..7; rank 2: 0..5; rank 3: 0..4 (strided 0..3); rank 4: dense 0..2, strided 1..2; rank 5-6: 1..2" } else { "rank 1: sizes 0..5; rank 2: 0..4 (strided 0..3); rank 3: 0..3 (strided 0..2); rank 4-6: 1..2" });
    ctx.bound("layouts", "dense, and strided with steps 1, -1, 2 per axis in all axis orders (rank 4-6: step -1, rotations, reversal and swaps)");
    ctx.bound("axes", "every axis by number, by constant, Rows, Cols, and the methods rows, cols, outer_expr");

    let mut states = vec![];
    for (rank, n, m) in [(1, if t { 8 } else { 6 }, if t { 8 } else { 6 }), (2, if t { 6 } else { 5 }, if t { 5 } else { 4 }), (3, if t { 5 } else { 4 }, if t { 4 } else { 3 })] {
        states.extend(dense_states(rank, n));
        let steps: &[isize] = if rank < 3 || t { &[1, -1, 2] } else { &[1, -1] };
        states.extend(strided_states(rank, m, steps, &[0]));
    }
    for rank in 4..=6 {
        states.extend(if t && rank == 4 { dense_states(4, 3) } else { small_dims(rank, 2).iter().map(|d| St::dense(d)).collect() });
        states.extend(strided_from(rank, &small_dims(rank, 1), &[-1], &[0], &few_permutations(rank)));
    }
    states.extend([vec![0, 2, 2, 2], vec![2, 0, 2, 2], vec![2, 2, 0, 2], vec![2, 2, 2, 0]].iter().map(|d| St::dense(d)));

    ctx.bound("long axes", "rank 2-5: size 5 in every position, and sizes 2, 3, .. in both orders");
    for rank in 2..=5 {
        states.extend(long_states(rank));
    }
    ctx.bound("large", "17 to 130 elements, shapes such as [130], [9, 12], [33, 2], [3, 17, 2], [3, 4, 2, 5], dense and strided in two axis orders");
    states.extend((1..=4).flat_map(large_states));

    ctx.bound("huge", "300 to 1200 elements in 6 shapes, dense and strided");
    states.extend((1..=3).flat_map(huge_states));

    ctx.bound("combinations", "axis and lane expressions with 19 kinds of operands, in both orders, all ordered pairs of 22 shapes");
    let kinds = shapes();
    ctx.par(&kinds, |w, a| kinds.iter().for_each(|b| combined(w, a, b)));

    ctx.bound("copies", "clone_from between axis and between lane expressions: all ordered pairs of arrays and axes of rank 1-3 with sizes 0..2, of the same layout type");
    let kinds: Vec<St> = (1..=3).flat_map(|rank| dense_states(rank, 3).into_iter().chain(strided_from(rank, &small_dims(rank, 1), if rank < 3 { &[1, -2] } else { &[-2] }, &[0], &few_permutations(rank)))).collect();
    ctx.par(&kinds, |w, a| {
        for b in kinds.iter().filter(|b| b.dense == a.dense) {
            macro_rules! copies {
                ($s:ty, $l:ty) => {
                    w.case(|| format!("{} copied into {} as {} {}", b.name(), a.name(), stringify!($s), stringify!($l)), |w| copies::<$s, $l>(w, a, b))
                };
            }
            match (a.dense, a.dims.len(), b.dims.len()) {
                (true, 1, 1) => copies!(Rank<1>, Dense),
                (true, 2, 2) => copies!(Rank<2>, Dense),
                (true, 3, 3) => copies!(Rank<3>, Dense),
                (false, 1, 1) => copies!(Rank<1>, Strided),
                (false, 2, 2) => copies!(Rank<2>, Strided),
                (false, 3, 3) => copies!(Rank<3>, Strided),
                _ => (),
            }
            if a.dense {
                copies!(DynRank, Dense);
            } else {
                copies!(DynRank, Strided);
            }
        }
    });

    ctx.par(&states, |w, st| {
        w.state();
        if st.dims.len() > 3 {
            if st.dense {
                high::<Dense>(w, st);
                Few(w, st).visit::<DynRank, Dense>("DynRank");
            } else {
                high::<Strided>(w, st);
                Few(w, st).visit::<DynRank, Strided>("DynRank");
            }
        } else if st.dense {
            each_low::<Dense>(&st.dims, &mut Go(w, st));
            each_static_few::<Dense>(&st.dims, &mut Few(w, st));
        } else {
            each_low::<Strided>(&st.dims, &mut Go(w, st));
            each_static_few::<Strided>(&st.dims, &mut Few(w, st));
        }
    });
}

fn main() {
    run(check)
}
