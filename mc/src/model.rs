//! Reference model of arrays and the enumeration of view states.
//!
//! The semantic model of an array is boring: its dimensions and the list of element identities in
//! row-major order (`Sem`). A view state (`St`) additionally says where the elements are in memory,
//! so that a real view in that state can be made; nothing in the expected results depends on it.

use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};

use mdarray::{Dense, DenseMapping, Layout, Mapping, Shape, Slice, Strided, StridedMapping, View, ViewMut};

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Sem {
    pub dims: Vec<usize>,
    pub ids: Vec<u32>,
}

/// All multi-indices in row-major order.
pub fn indices(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut result = vec![vec![]];
    for &d in dims {
        let mut next = Vec::with_capacity(result.len() * d);
        for r in &result {
            for i in 0..d {
                let mut x: Vec<usize> = r.clone();
                x.push(i);
                next.push(x);
            }
        }
        result = next;
    }
    result
}

pub fn product(dims: &[usize]) -> usize {
    dims.iter().product()
}

impl Sem {
    pub fn new(dims: &[usize], ids: Vec<u32>) -> Self {
        assert!(product(dims) == ids.len());
        Self { dims: dims.to_vec(), ids }
    }

    /// Elements numbered 0.. in row-major order.
    pub fn iota(dims: &[usize]) -> Self {
        Self::new(dims, (0..product(dims) as u32).collect())
    }

    pub fn from_fn(dims: &[usize], mut f: impl FnMut(&[usize]) -> u32) -> Self {
        Self::new(dims, indices(dims).iter().map(|i| f(i)).collect())
    }

    pub fn rank(&self) -> usize {
        self.dims.len()
    }

    pub fn len(&self) -> usize {
        self.ids.len()
    }

    pub fn is_empty(&self) -> bool {
        self.ids.is_empty()
    }

    pub fn at(&self, index: &[usize]) -> u32 {
        assert!(index.len() == self.rank());
        let mut n = 0;
        for (i, d) in index.iter().zip(&self.dims) {
            assert!(i < d);
            n = n * d + i;
        }
        self.ids[n]
    }

    /// Subarray at `index` of `axis`, or `None` if out of range.
    pub fn axis_at(&self, axis: usize, index: usize) -> Option<Self> {
        if axis >= self.rank() || index >= self.dims[axis] {
            return None;
        }
        let mut dims = self.dims.clone();
        dims.remove(axis);
        Some(Self::from_fn(&dims, |i| {
            let mut j = i.to_vec();
            j.insert(axis, index);
            self.at(&j)
        }))
    }

    /// New dimension `i` is old dimension `perm[i]`.
    pub fn permute(&self, perm: &[usize]) -> Option<Self> {
        let mut sorted = perm.to_vec();
        sorted.sort();
        if sorted != (0..self.rank()).collect::<Vec<_>>() {
            return None;
        }
        let dims: Vec<usize> = perm.iter().map(|&p| self.dims[p]).collect();
        Some(Self::from_fn(&dims, |i| {
            let mut j = vec![0; i.len()];
            for (k, &p) in perm.iter().enumerate() {
                j[p] = i[k];
            }
            self.at(&j)
        }))
    }

    pub fn reverse(&self) -> Self {
        self.permute(&(0..self.rank()).rev().collect::<Vec<_>>()).unwrap()
    }

    pub fn split(&self, axis: usize, mid: usize) -> Option<(Self, Self)> {
        if axis >= self.rank() || mid > self.dims[axis] {
            return None;
        }
        let mut a = self.dims.clone();
        let mut b = self.dims.clone();
        a[axis] = mid;
        b[axis] -= mid;
        Some((
            Self::from_fn(&a, |i| self.at(i)),
            Self::from_fn(&b, |i| {
                let mut j = i.to_vec();
                j[axis] += mid;
                self.at(&j)
            }),
        ))
    }

    /// Diagonal: `None` if the rank is not 2 or the diagonal is outside.
    pub fn diag(&self, k: isize) -> Option<Self> {
        if self.rank() != 2 {
            return None;
        }
        let (rows, cols) = (self.dims[0] as i128, self.dims[1] as i128);
        let k = k as i128;
        if k > cols || -k > rows {
            return None;
        }
        let mut ids = vec![];
        for i in 0..rows {
            let j = i + k;
            if j >= 0 && j < cols {
                ids.push(self.at(&[i as usize, j as usize]));
            }
        }
        Some(Self::new(&[ids.len()], ids))
    }

    /// One-dimensional array along `axis` for each combination of the other indices, row-major.
    pub fn lanes(&self, axis: usize) -> Option<(Vec<usize>, Vec<Self>)> {
        if axis >= self.rank() {
            return None;
        }
        let mut outer = self.dims.clone();
        let n = outer.remove(axis);
        let lanes = indices(&outer)
            .iter()
            .map(|i| {
                Self::from_fn(&[n], |k| {
                    let mut j = i.clone();
                    j.insert(axis, k[0]);
                    self.at(&j)
                })
            })
            .collect();
        Some((outer, lanes))
    }
}

/// Where the elements of a view are: base buffer of `len` elements, first element at `off`.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct St {
    pub dims: Vec<usize>,
    pub strides: Vec<isize>,
    pub off: usize,
    pub len: usize,
    pub dense: bool,
}

impl St {
    pub fn dense(dims: &[usize]) -> Self {
        let mut strides = vec![1isize; dims.len()];
        for i in (0..dims.len().saturating_sub(1)).rev() {
            strides[i] = strides[i + 1] * dims[i + 1] as isize;
        }
        Self { dims: dims.to_vec(), strides, off: 0, len: product(dims), dense: true }
    }

    pub fn sem(&self) -> Sem {
        Sem::from_fn(&self.dims, |i| {
            let mut o = self.off as isize;
            for (k, s) in i.iter().zip(&self.strides) {
                o += *k as isize * s;
            }
            assert!(o >= 0 && (o as usize) < self.len);
            o as u32
        })
    }

    /// The element addresses are those of a dense array.
    pub fn contiguous(&self) -> bool {
        self.strides == Self::dense(&self.dims).strides
    }

    /// Elements of the base buffer: the value of each element is its position.
    pub fn buffer(&self) -> Vec<u32> {
        (0..self.len as u32).collect()
    }

    pub fn name(&self) -> String {
        if self.dense {
            format!("dense{:?}", self.dims)
        } else {
            format!("strided{:?}*{:?}", self.dims, self.strides)
        }
    }
}

/// All dimension lists of a rank with sizes below `limit`.
pub fn all_dims(rank: usize, limit: usize) -> Vec<Vec<usize>> {
    let v = indices(&vec![limit; rank]);
    // Simplest (smallest) first.
    let mut v = v;
    v.sort_by_key(|d| (d.iter().sum::<usize>(), d.clone()));
    v
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            r.push(q);
        }
    }
    r.sort();
    r
}

pub fn dense_states(rank: usize, limit: usize) -> Vec<St> {
    all_dims(rank, limit).iter().map(|d| St::dense(d)).collect()
}

/// All strided states that come from a dense base array by taking, for every axis, a window with a
/// step, and permuting the axes: sizes below `limit`, steps from `steps`, windows with 0 or 1
/// extra base element per axis given by the bits of `pads`.
pub fn strided_states(rank: usize, limit: usize, steps: &[isize], pads: &[u32]) -> Vec<St> {
    strided_from(rank, &all_dims(rank, limit), steps, pads, &permutations(rank))
}

/// Axis orders for high ranks: rotations, the reversal and swaps of neighbours.
pub fn few_permutations(rank: usize) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> =
        (0..rank).map(|k| (0..rank).map(|i| (i + k) % rank).collect()).collect();
    r.push((0..rank).rev().collect());
    for k in 1..rank {
        let mut p: Vec<usize> = (0..rank).collect();
        p.swap(k - 1, k);
        r.push(p);
    }
    r.sort();
    r.dedup();
    r
}

/// Dimension lists of sizes 1 and 2 with at most `ones` sizes of 1.
pub fn small_dims(rank: usize, ones: usize) -> Vec<Vec<usize>> {
    let mut v = all_dims(rank, 3);
    v.retain(|d| d.iter().all(|&x| x > 0) && d.iter().filter(|&&x| x == 1).count() <= ones);
    v
}

/// Shapes with a long axis in every position, and with sizes that are all different.
pub fn long_dims(rank: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for i in 0..rank {
        let mut d = vec![2; rank];
        d[i] = if rank == 1 { 7 } else { 5 };
        v.push(d);
    }
    if rank > 1 {
        v.push((2..rank + 2).collect());
        v.push((2..rank + 2).rev().collect());
    }
    v
}

/// Arrays with these shapes, dense and strided.
pub fn long_states(rank: usize) -> Vec<St> {
    let dims = long_dims(rank);
    let mut v: Vec<St> = dims.iter().map(|d| St::dense(d)).collect();
    v.extend(strided_from(rank, &dims, &[-1], &[0], &few_permutations(rank)));
    v.extend(strided_from(rank, &dims, &[2], &[0], &few_permutations(rank)));
    v
}

/// A few shapes with many elements.
pub fn large_dims(rank: usize) -> Vec<Vec<usize>> {
    match rank {
        1 => vec![vec![17], vec![40], vec![70], vec![130]],
        2 => vec![vec![9, 12], vec![17, 3], vec![3, 17], vec![2, 33], vec![33, 2]],
        3 => vec![vec![4, 5, 6], vec![9, 2, 3], vec![2, 3, 9], vec![3, 17, 2]],
        4 => vec![vec![3, 4, 2, 5], vec![2, 2, 9, 2]],
        _ => vec![],
    }
}

/// Arrays with these shapes, dense and strided.
pub fn large_states(rank: usize) -> Vec<St> {
    let dims = large_dims(rank);
    let mut v: Vec<St> = dims.iter().map(|d| St::dense(d)).collect();
    let orders = [(0..rank).collect(), (0..rank).rev().collect()];
    let orders = if rank == 1 { &orders[..1] } else { &orders[..] };
    v.extend(strided_from(rank, &dims, &[-1], &[0], orders));
    v.extend(strided_from(rank, &dims, &[2], &[0], orders));
    v
}

/// Shapes with very many elements, beyond sizes at which an implementation might switch methods.
pub fn huge_dims(rank: usize) -> Vec<Vec<usize>> {
    match rank {
        1 => vec![vec![300], vec![1100]],
        2 => vec![vec![20, 60], vec![300, 2], vec![2, 300]],
        3 => vec![vec![3, 9, 40]],
        _ => vec![],
    }
}

/// Arrays with these shapes, dense and strided.
pub fn huge_states(rank: usize) -> Vec<St> {
    let dims = huge_dims(rank);
    let mut v: Vec<St> = dims.iter().map(|d| St::dense(d)).collect();
    let orders = [(0..rank).collect(), (0..rank).rev().collect()];
    v.extend(strided_from(rank, &dims, &[-2], &[0], if rank == 1 { &orders[..1] } else { &orders[..] }));
    v
}

/// All positions from 0 to n; the ends and some in the middle if there are many.
pub fn positions(n: usize) -> Vec<usize> {
    if n <= 130 {
        (0..=n).collect()
    } else {
        let mut v = vec![0, 1, 2, 63, 64, 65, 127, 128, 129, n / 2, n - 2, n - 1, n];
        v.sort();
        v.dedup();
        v
    }
}

/// Strided states with the given final dimensions and axis orders.
pub fn strided_from(
    rank: usize,
    all: &[Vec<usize>],
    steps: &[isize],
    pads: &[u32],
    perms: &[Vec<usize>],
) -> Vec<St> {
    let mut seen = HashSet::new();
    let mut result = vec![];

    for dims in all {
        for &pad in pads {
            for step in indices(&vec![steps.len(); rank]) {
                for perm in perms {
                    // `dims` is the final shape; base axis perm[i] is the final axis i.
                    let mut base = vec![0usize; rank];
                    let mut start = vec![0usize; rank];
                    let mut st = vec![0isize; rank];
                    for i in 0..rank {
                        let s = steps[step[i]];
                        let d = dims[i];
                        let span = if d == 0 { 1 } else { (d - 1) * s.unsigned_abs() + 1 };
                        let extra = (pad >> perm[i] & 1) as usize;
                        base[perm[i]] = span + extra;
                        start[perm[i]] = if s < 0 { span - 1 } else { 0 };
                        st[perm[i]] = s;
                    }
                    let b = St::dense(&base);
                    let mut off = 0;
                    for i in 0..rank {
                        off += b.strides[i] as usize * start[i];
                    }
                    let strides: Vec<isize> =
                        (0..rank).map(|i| b.strides[perm[i]] * st[perm[i]]).collect();
                    if seen.insert((dims.clone(), strides.clone())) {
                        result.push(St { dims: dims.clone(), strides, off, len: b.len, dense: false });
                    }
                }
            }
        }
    }

    result
}

/// Layouts from which a view in a given state can be made.
pub trait Lay: Layout + 'static {
    fn mapping<S: Shape>(dims: &[usize], strides: &[isize]) -> Self::Mapping<S>;
}

impl Lay for Dense {
    fn mapping<S: Shape>(dims: &[usize], _: &[isize]) -> DenseMapping<S> {
        DenseMapping::new(S::from_dims(dims))
    }
}

impl Lay for Strided {
    fn mapping<S: Shape>(dims: &[usize], strides: &[isize]) -> StridedMapping<S> {
        StridedMapping::new(S::from_dims(dims), strides)
    }
}

/// Make a real view in the given state.
pub fn make<'a, T, S: Shape, L: Lay>(st: &St, buf: &'a [T]) -> View<'a, T, S, L> {
    assert!(buf.len() == st.len && (st.dense || !L::IS_DENSE));
    unsafe { View::new_unchecked(buf.as_ptr().add(st.off), L::mapping::<S>(&st.dims, &st.strides)) }
}

pub fn make_mut<'a, T, S: Shape, L: Lay>(st: &St, buf: &'a mut [T]) -> ViewMut<'a, T, S, L> {
    assert!(buf.len() == st.len && (st.dense || !L::IS_DENSE));
    unsafe {
        ViewMut::new_unchecked(buf.as_mut_ptr().add(st.off), L::mapping::<S>(&st.dims, &st.strides))
    }
}

/// Whether observations also compare what an array reports about its placement with the real
/// addresses of its elements. Errors then start with `LAYOUT`.
pub static FACTS: AtomicBool = AtomicBool::new(false);
pub const LAYOUT: &str = "layout: ";

/// What an array reports about its placement; the parts that do not depend on its type.
pub struct Reported<'a> {
    pub ptr: usize,
    pub dense: bool,
    pub contiguous: [bool; 2],
    pub rank: [usize; 3],
    pub len: [usize; 3],
    pub empty: [bool; 3],
    pub dims: [Vec<usize>; 4],
    pub strides: [Vec<isize>; 2],
    pub at: &'a dyn Fn(&[usize]) -> *const u32,
}

/// Compare the reported placement with the real one.
pub fn facts<S: Shape, L: Layout>(v: &Slice<u32, S, L>) -> Result<(), String> {
    let (m, s) = (v.mapping(), v.shape());
    let rank = v.rank();
    if rank > 8 {
        return Ok(());
    }
    facts_raw(Reported {
        ptr: v.as_ptr() as usize,
        dense: L::IS_DENSE,
        contiguous: [v.is_contiguous(), m.is_contiguous()],
        rank: [rank, m.rank(), s.rank()],
        len: [v.len(), m.len(), s.len()],
        empty: [v.is_empty(), m.is_empty(), s.is_empty()],
        dims: [
            (0..rank).map(|i| v.dim(i)).collect(),
            (0..rank).map(|i| m.dim(i)).collect(),
            (0..rank).map(|i| s.dim(i)).collect(),
            dims_of(m.shape()),
        ],
        strides: [(0..rank).map(|i| v.stride(i)).collect(), (0..rank).map(|i| m.stride(i)).collect()],
        at: &|i| &v[i],
    })
}

pub fn facts_raw(r: Reported) -> Result<(), String> {
    let bad = |s: String| Err(format!("{LAYOUT}{s}"));
    let dims = &r.dims[0];
    let count = dims.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).unwrap_or(usize::MAX);
    if count > 4096 {
        return Ok(());
    }
    if r.rank.iter().any(|&x| x != dims.len()) || r.dims.iter().any(|d| d != dims) {
        return bad(format!("ranks {:?} and dimensions {:?} differ", r.rank, r.dims));
    }
    if r.len.iter().any(|&l| l != count) || r.empty.iter().any(|&e| e != (count == 0)) {
        return bad(format!("dimensions {dims:?}, but len {:?} and is_empty {:?}", r.len, r.empty));
    }
    if r.strides[0] != r.strides[1] || r.contiguous[0] != r.contiguous[1] {
        return bad(format!("array and mapping report {:?} {:?}", r.strides, r.contiguous));
    }
    if r.dense && !r.contiguous[0] {
        return bad(format!("dense layout of {dims:?} is not reported as contiguous"));
    }
    if count == 0 {
        return Ok(());
    }
    let all = indices(dims);
    let place: Vec<i128> = all.iter().map(|i| ((r.at)(i) as usize as i128 - r.ptr as i128) / 4).collect();
    if place[0] != 0 {
        return bad(format!("the first element is {} elements from the array pointer", place[0]));
    }
    if r.dense && place.windows(2).any(|w| w[1] != w[0] + 1) {
        return bad(format!("dense layout of {dims:?}, but the elements are at {place:?}"));
    }
    if r.contiguous[0] && place.windows(2).any(|w| w[1] != w[0] + 1) {
        return bad(format!("{dims:?} is reported as contiguous, but the elements are at {place:?}"));
    }
    let mut inner = 1;
    for k in (0..dims.len()).rev() {
        for (n, i) in all.iter().enumerate() {
            if i[k] + 1 < dims[k] && place[n + inner] - place[n] != r.strides[0][k] as i128 {
                return bad(format!(
                    "stride {} of dimension {k} of {dims:?}, but neighbours are {} elements apart",
                    r.strides[0][k],
                    place[n + inner] - place[n]
                ));
            }
        }
        inner *= dims[k];
    }
    Ok(())
}

/// What a real array says about itself; the parts that do not depend on its type.
struct Raw<'a> {
    rank: usize,
    static_rank: Option<usize>,
    dims: Vec<usize>,
    len: usize,
    is_empty: bool,
    ptr: usize,
    dense: bool,
    at: &'a dyn Fn(&[usize]) -> *const u32,
}

/// Read the dimensions and the element identities of a real array by multi-index, checking that
/// all elements are inside of the base buffer.
pub fn observe<S: Shape, L: Layout>(v: &Slice<u32, S, L>, base: *const u32, len: usize) -> Result<Sem, String> {
    if FACTS.load(Ordering::Relaxed) {
        facts(v)?;
    }
    let rank = v.rank();
    if rank > 8 {
        return Err(format!("rank {rank}"));
    }
    let raw = Raw {
        rank,
        static_rank: S::RANK,
        dims: (0..rank).map(|i| v.dim(i)).collect(),
        len: v.len(),
        is_empty: v.is_empty(),
        ptr: v.as_ptr() as usize,
        dense: L::IS_DENSE,
        at: &|i| &v[i],
    };
    observe_raw(raw, base, len)
}

fn observe_raw(v: Raw, base: *const u32, len: usize) -> Result<Sem, String> {
    let (rank, dims) = (v.rank, v.dims);

    if let Some(r) = v.static_rank {
        if r != rank {
            return Err(format!("rank {rank} but the shape type has rank {r}"));
        }
    }

    let count = dims.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).unwrap_or(usize::MAX);

    if count > 4096 {
        return Err(format!("unexpected dimensions {dims:?}"));
    }
    if v.len != count || v.is_empty != (count == 0) {
        return Err(format!("dimensions {dims:?} but len() {} and is_empty() {}", v.len, v.is_empty));
    }

    let start = base as usize;
    let end = start + len * 4;

    if count == 0 {
        if v.ptr < start || v.ptr > end {
            return Err(format!("pointer of an empty view is {} bytes from the parent", v.ptr as i128 - start as i128));
        }
        return Ok(Sem { dims, ids: vec![] });
    }

    let mut ids = Vec::with_capacity(count);
    let mut index = [0usize; 8];

    loop {
        let p = (v.at)(&index[..rank]) as usize;

        if p < start || p + 4 > end || (p - start) % 4 != 0 {
            return Err(format!(
                "element {:?} of dimensions {dims:?} is outside of the parent ({} bytes from its start)",
                &index[..rank],
                p as i128 - start as i128
            ));
        }
        ids.push(((p - start) / 4) as u32);

        // Next multi-index.
        let mut i = rank;
        loop {
            if i == 0 {
                if v.dense && ids.windows(2).any(|w| w[1] != w[0] + 1) {
                    return Err(format!("dense layout, but elements {ids:?} are not contiguous"));
                }
                return Ok(Sem { dims, ids });
            }
            i -= 1;
            index[i] += 1;
            if index[i] < dims[i] {
                break;
            }
            index[i] = 0;
        }
    }
}

/// Observation of a real view: semantics and the mapping it reports.
#[derive(Clone, Debug)]
pub struct Obs {
    pub sem: Sem,
    pub st: St,
}

/// Observe a view and recover its complete state (pointer and mapping), so that exploration can
/// continue from it.
pub fn observe_state<S: Shape, L: Layout>(
    v: &Slice<u32, S, L>,
    base: *const u32,
    len: usize,
) -> Result<Obs, String> {
    let sem = observe(v, base, len)?;
    let strides = (0..v.rank()).map(|i| v.stride(i)).collect();
    let off = (v.as_ptr() as usize - base as usize) / 4;
    let st = St { dims: sem.dims.clone(), strides, off, len, dense: L::IS_DENSE };

    Ok(Obs { sem, st })
}

/// What a view operation returns: one view or two.
pub trait Observe {
    fn observe(&self, base: *const u32, len: usize) -> Result<Vec<Obs>, String>;

    /// Add `TOUCH` to every element, if mutable.
    fn touch(&mut self) {}
}

pub const TOUCH: u32 = 1_000_000;

impl<S: Shape, L: Layout> Observe for View<'_, u32, S, L> {
    fn observe(&self, base: *const u32, len: usize) -> Result<Vec<Obs>, String> {
        Ok(vec![observe_state(self, base, len)?])
    }
}

impl<S: Shape, L: Layout> Observe for ViewMut<'_, u32, S, L> {
    fn observe(&self, base: *const u32, len: usize) -> Result<Vec<Obs>, String> {
        Ok(vec![observe_state(self, base, len)?])
    }

    fn touch(&mut self) {
        let dims: Vec<usize> = (0..self.rank()).map(|i| self.dim(i)).collect();
        for i in indices(&dims) {
            self[&i[..]] += TOUCH;
        }
    }
}

impl<A: Observe, B: Observe> Observe for (A, B) {
    fn observe(&self, base: *const u32, len: usize) -> Result<Vec<Obs>, String> {
        let mut v = self.0.observe(base, len)?;
        v.extend(self.1.observe(base, len)?);
        Ok(v)
    }

    fn touch(&mut self) {
        self.0.touch();
        self.1.touch();
    }
}

/// Dimensions of a shape.
pub fn dims_of<S: Shape>(s: &S) -> Vec<usize> {
    (0..s.rank()).map(|i| s.dim(i)).collect()
}
