//! N x 2 and N x 3 matrices in every storage layout the harness exercises.
use crate::sc::Sc;
use nalgebra as na;
use na::{Const, Dyn, SMatrix};
#[cfg(feature = "alloc")]
use na::OMatrix;

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

macro_rules! mat_enum {
    ($E:ident, $K:literal) => {
        #[derive(Clone)]
        pub enum $E<R: Sc> {
            /// heap-allocated, dynamic number of rows
            #[cfg(feature = "alloc")]
            Dyn(OMatrix<R, Dyn, Const<$K>>),
            /// every second row, and not the first columns, of a larger dynamic matrix
            #[cfg(feature = "alloc")]
            View(na::Matrix<R, Dyn, Const<$K>, na::ViewStorage<'static, R, Dyn, Const<$K>, Dyn, Dyn>>),
            S1(SMatrix<R, 1, $K>),
            S2(SMatrix<R, 2, $K>),
            S3(SMatrix<R, 3, $K>),
            S5(SMatrix<R, 5, $K>),
            S4(SMatrix<R, 4, $K>),
            S8(SMatrix<R, 8, $K>),
            S10(SMatrix<R, 10, $K>),
            S32(SMatrix<R, 32, $K>),
            S16(SMatrix<R, 16, $K>),
            S70(SMatrix<R, 70, $K>),
            /// every second row of a 6-row static matrix
            V3(na::Matrix<R, Const<3>, Const<$K>, na::ViewStorage<'static, R, Const<3>, Const<$K>, Dyn, Dyn>>),
            /// one row of a 4-row static matrix
            V1(na::Matrix<R, Const<1>, Const<$K>, na::ViewStorage<'static, R, Const<1>, Const<$K>, Dyn, Dyn>>),
        }
        impl<R: Sc> $E<R> {
            pub fn make(rows: &[Vec<R>], layout: &str) -> Self {
                let n = rows.len();
                let junk = R::of_f64(-977.25);
                match (layout, n) {
                    ("s", 1) => $E::S1(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 2) => $E::S2(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 3) => $E::S3(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 5) => $E::S5(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 4) => $E::S4(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 8) => $E::S8(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 10) => $E::S10(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 32) => $E::S32(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 16) => $E::S16(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("s", 70) => $E::S70(SMatrix::from_fn(|i, j| rows[i][j])),
                    ("v", 3) => {
                        let b = leak(SMatrix::<R, 6, 4>::from_fn(|i, j| {
                            if i % 2 == 0 && j < $K { rows[i / 2][j] } else { junk }
                        }));
                        let s = b.generic_view_with_steps((0, 0), (Const::<3>, Const::<$K>), (1, 0));
                        $E::V3(restride(&s))
                    }
                    ("v", 1) => {
                        let b = leak(SMatrix::<R, 4, 4>::from_fn(|i, j| {
                            if i == 2 && j < $K { rows[0][j] } else { junk }
                        }));
                        let s = b.generic_view_with_steps((2, 0), (Const::<1>, Const::<$K>), (0, 0));
                        $E::V1(restride(&s))
                    }
                    #[cfg(feature = "alloc")]
                    ("v", _) => {
                        let b = leak(OMatrix::<R, Dyn, Dyn>::from_fn(2 * n + 1, $K + 2, |i, j| {
                            if i % 2 == 1 && j >= 1 && j <= $K { rows[i / 2][j - 1] } else { junk }
                        }));
                        if n == 0 {
                            return $E::Dyn(OMatrix::<R, Dyn, Const<$K>>::from_fn(0, |_, _| junk));
                        }
                        let s = b.generic_view_with_steps((1, 1), (Dyn(n), Const::<$K>), (1, 0));
                        $E::View(restride(&s))
                    }
                    #[cfg(feature = "alloc")]
                    _ => $E::Dyn(OMatrix::<R, Dyn, Const<$K>>::from_fn(n, |i, j| rows[i][j])),
                    #[cfg(not(feature = "alloc"))]
                    _ => panic!("skip: no layout {layout} with {n} rows"),
                }
            }
            pub fn rows(&self) -> Vec<Vec<R>> {
                macro_rules! f {
                    ($m: expr) => {
                        (0..$m.nrows()).map(|i| (0..$K).map(|j| $m[(i, j)]).collect()).collect()
                    };
                }
                match self {
                    #[cfg(feature = "alloc")]
                    $E::Dyn(m) => f!(m),
                    #[cfg(feature = "alloc")]
                    $E::View(m) => f!(m),
                    $E::S1(m) => f!(m),
                    $E::S2(m) => f!(m),
                    $E::S3(m) => f!(m),
                    $E::S5(m) => f!(m),
                    $E::S4(m) => f!(m),
                    $E::S8(m) => f!(m),
                    $E::S10(m) => f!(m),
                    $E::S32(m) => f!(m),
                    $E::S16(m) => f!(m),
                    $E::S70(m) => f!(m),
                    $E::V3(m) => f!(m),
                    $E::V1(m) => f!(m),
                }
            }
        }
        #[cfg(feature = "alloc")]
        impl<R: Sc> From<OMatrix<R, Dyn, Const<$K>>> for $E<R> {
            fn from(m: OMatrix<R, Dyn, Const<$K>>) -> Self { $E::Dyn(m) }
        }
        impl<R: Sc> From<SMatrix<R, 1, $K>> for $E<R> {
            fn from(m: SMatrix<R, 1, $K>) -> Self { $E::S1(m) }
        }
        impl<R: Sc> From<SMatrix<R, 2, $K>> for $E<R> {
            fn from(m: SMatrix<R, 2, $K>) -> Self { $E::S2(m) }
        }
        impl<R: Sc> From<SMatrix<R, 3, $K>> for $E<R> {
            fn from(m: SMatrix<R, 3, $K>) -> Self { $E::S3(m) }
        }
        impl<R: Sc> From<SMatrix<R, 5, $K>> for $E<R> {
            fn from(m: SMatrix<R, 5, $K>) -> Self { $E::S5(m) }
        }
        impl<R: Sc> From<SMatrix<R, 4, $K>> for $E<R> {
            fn from(m: SMatrix<R, 4, $K>) -> Self { $E::S4(m) }
        }
        impl<R: Sc> From<SMatrix<R, 8, $K>> for $E<R> {
            fn from(m: SMatrix<R, 8, $K>) -> Self { $E::S8(m) }
        }
        impl<R: Sc> From<SMatrix<R, 10, $K>> for $E<R> {
            fn from(m: SMatrix<R, 10, $K>) -> Self { $E::S10(m) }
        }
        impl<R: Sc> From<SMatrix<R, 32, $K>> for $E<R> {
            fn from(m: SMatrix<R, 32, $K>) -> Self { $E::S32(m) }
        }
        impl<R: Sc> From<SMatrix<R, 16, $K>> for $E<R> {
            fn from(m: SMatrix<R, 16, $K>) -> Self { $E::S16(m) }
        }
        impl<R: Sc> From<SMatrix<R, 70, $K>> for $E<R> {
            fn from(m: SMatrix<R, 70, $K>) -> Self { $E::S70(m) }
        }
    };
}

/// The same view with its strides as run-time values.
fn restride<R: Sc, N: na::Dim, C: na::Dim, S: na::storage::RawStorage<R, N, C>>(
    m: &na::Matrix<R, N, C, S>,
) -> na::Matrix<R, N, C, na::ViewStorage<'static, R, N, C, Dyn, Dyn>> {
    let (rs, cs) = m.strides();
    // The viewed matrix is leaked, so that it lives as long as the program.
    unsafe {
        let st = na::ViewStorage::from_raw_parts(m.data.ptr(), m.shape_generic(), (Dyn(rs), Dyn(cs)));
        na::Matrix::from_data_statically_unchecked(st)
    }
}

mat_enum!(M2, 2);
mat_enum!(M3, 3);

/// Evaluate an expression with `$x` bound to the concrete matrix.
#[macro_export]
macro_rules! on_mat {
    ($m:expr, $E:ident, $x:ident => $body:expr) => {
        match $m {
            #[cfg(feature = "alloc")]
            $E::Dyn($x) => $body,
            #[cfg(feature = "alloc")]
            $E::View($x) => $body,
            $E::S1($x) => $body,
            $E::S2($x) => $body,
            $E::S3($x) => $body,
            $E::S5($x) => $body,
            $E::S4($x) => $body,
            $E::S8($x) => $body,
            $E::S10($x) => $body,
            $E::S32($x) => $body,
            $E::S16($x) => $body,
            $E::S70($x) => $body,
            $E::V3($x) => $body,
            $E::V1($x) => $body,
        }
    };
}
