//! Shape types: run generic code for every shape type that can describe an array.
//!
//! Each array can be described by `Rank<n>`, by `DynRank` and by every shape type with constant
//! dimensions in the table below that fits its dimensions.

use mdarray::{Const, Dim, Dyn, DynRank, Rank, Shape};

use crate::model::Lay;

pub trait Visitor {
    /// Called once per shape type.
    fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str);
}

fn fits(sizes: &[Option<usize>], dims: &[usize]) -> bool {
    sizes.len() == dims.len() && sizes.iter().zip(dims).all(|(s, d)| s.is_none_or(|s| s == *d))
}

macro_rules! dynamic {
    ($dims:expr, $v:expr, $l:ty, ($($n:literal)*)) => {
        match $dims.len() {
            $($n => $v.visit::<Rank<$n>, $l>(concat!("Rank<", $n, ">")),)*
            _ => (),
        }
        $v.visit::<DynRank, $l>("DynRank");
    };
}

type C<const N: usize> = Const<N>;

macro_rules! table {
    ($dims:expr, $v:expr, $l:ty, $(($($d:ty),*))*) => {
        $(
            if fits(&[$(<$d as Dim>::SIZE),*], $dims) {
                $v.visit::<($($d,)*), $l>(stringify!(($($d),*)));
            }
        )*
    };
}

/// Call the visitor for `Rank<n>` with `n` up to 3, and `DynRank`.
pub fn each_low<L: Lay>(dims: &[usize], v: &mut impl Visitor) {
    dynamic!(dims, v, L, (0 1 2 3));
}

/// Call the visitor for `Rank<n>` and `DynRank`.
pub fn each_dynamic<L: Lay>(dims: &[usize], v: &mut impl Visitor) {
    dynamic!(dims, v, L, (0 1 2 3 4 5 6));
}

/// Call the visitor for every shape type with constant sizes that fits the dimensions.
pub fn each_static<L: Lay>(dims: &[usize], v: &mut impl Visitor) {
    table! {
        dims, v, L,
        (C<0>) (C<1>) (C<2>) (C<3>)
        (C<0>, C<2>) (C<1>, C<1>) (C<1>, C<3>) (C<2>, C<0>) (C<2>, C<2>) (C<2>, C<3>) (C<3>, C<1>) (C<3>, C<2>)
        (Dyn, C<0>) (Dyn, C<1>) (Dyn, C<2>) (Dyn, C<3>)
        (C<0>, Dyn) (C<1>, Dyn) (C<2>, Dyn) (C<3>, Dyn)
        (C<2>, C<1>, C<2>) (C<2>, C<2>, C<2>) (C<1>, C<2>, C<3>) (C<2>, C<0>, C<2>)
        (Dyn, C<2>, C<2>) (C<2>, Dyn, C<2>) (C<2>, C<2>, Dyn)
        (C<2>, Dyn, Dyn) (Dyn, C<2>, Dyn) (Dyn, Dyn, C<2>) (Dyn, Dyn, C<1>)
        (C<2>, C<1>, C<2>, C<2>) (Dyn, C<2>, Dyn, C<2>)
    }
}

/// Call the visitor for a few shape types with constant sizes that fit the dimensions.
pub fn each_static_few<L: Lay>(dims: &[usize], v: &mut impl Visitor) {
    table! {
        dims, v, L,
        (C<0>) (C<2>) (C<3>)
        (C<2>, C<2>) (C<2>, C<3>) (Dyn, C<2>) (C<2>, Dyn)
        (C<2>, C<1>, C<2>) (Dyn, C<2>, C<2>) (C<2>, Dyn, C<2>) (Dyn, C<2>, Dyn)
    }
}

pub fn each<L: Lay>(dims: &[usize], v: &mut impl Visitor) {
    each_dynamic::<L>(dims, v);
    each_static::<L>(dims, v);
}
