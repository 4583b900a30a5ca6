//! Camera models defined outside of cam-geom, by implementing its trait.
use crate::sc::Sc;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::allocator::Allocator;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{DefaultAllocator, Dim, OMatrix, U1, U2, U3};

/// Parameters: offset (a, b), non-linearity g, and an optional defect: a pixel at which the
/// projection is off by given amounts in u and v.
#[derive(Debug, Clone, PartialEq)]
pub struct CustP<R: Sc> {
    pub a: R,
    pub b: R,
    pub g: R,
    pub spike: Option<[R; 4]>,
}
impl<R: Sc> CustP<R> {
    fn spiked(&self, u: R, v: R) -> [R; 2] {
        match self.spike {
            Some([su, sv, du, dv]) if (u - su).abs() < R::of_f64(0.25) && (v - sv).abs() < R::of_f64(0.25) => [u + du, v + dv],
            _ => [u, v],
        }
    }
}

/// Shared origin: u = a + x/w, v = b + y/w + g (x/w)^2 with w = z + g x
#[derive(Debug, Clone, PartialEq)]
pub struct CustX<R: Sc>(pub CustP<R>);
/// Shared direction: u = a + x, v = b + y + g x^2
#[derive(Debug, Clone, PartialEq)]
pub struct CustY<R: Sc>(pub CustP<R>);

macro_rules! model {
    ($T:ident, $B:ident, $ctor:ident, |$p:ident, $u:ident, $v:ident| $back:expr, |$x:ident, $y:ident, $z:ident| $fwd:expr) => {
        impl<R: Sc> IntrinsicParameters<R> for $T<R> {
            type BundleType = $B<R>;
            fn pixel_to_camera<IN, NPTS>(
                &self,
                pixels: &Pixels<R, NPTS, IN>,
            ) -> RayBundle<CameraFrame, Self::BundleType, R, NPTS, Owned<R, NPTS, U3>>
            where
                Self::BundleType: Bundle<R>,
                IN: Storage<R, NPTS, U2>,
                NPTS: Dim,
                DefaultAllocator: Allocator<U1, U2>,
                DefaultAllocator: Allocator<NPTS, U2>,
                DefaultAllocator: Allocator<NPTS, U3>,
            {
                let n = pixels.data.nrows();
                let mut m = OMatrix::zeros_generic(NPTS::from_usize(n), U3::from_usize(3));
                for i in 0..n {
                    let $p = &self.0;
                    let $u = pixels.data[(i, 0)];
                    let $v = pixels.data[(i, 1)];
                    let r: [R; 3] = $back;
                    for j in 0..3 {
                        m[(i, j)] = r[j];
                    }
                }
                RayBundle::$ctor(m)
            }
            fn camera_to_pixel<IN, NPTS>(
                &self,
                camera: &Points<CameraFrame, R, NPTS, IN>,
            ) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
            where
                IN: Storage<R, NPTS, U3>,
                NPTS: Dim,
                DefaultAllocator: Allocator<NPTS, U2>,
            {
                let n = camera.data.nrows();
                let mut m = OMatrix::zeros_generic(NPTS::from_usize(n), U2::from_usize(2));
                for i in 0..n {
                    let $p = &self.0;
                    let ($x, $y, $z) = (camera.data[(i, 0)], camera.data[(i, 1)], camera.data[(i, 2)]);
                    let r: [R; 2] = $fwd;
                    let r = self.0.spiked(r[0], r[1]);
                    m[(i, 0)] = r[0];
                    m[(i, 1)] = r[1];
                }
                Pixels::new(m)
            }
        }
    };
}
model!(CustX, SharedOriginRayBundle, new_shared_zero_origin,
    |p, u, v| { let x = u - p.a; [x, v - p.b - p.g * x * x, R::one() - p.g * x] },
    |x, y, z| { let w = z + p.g * x; let q = x / w; [p.a + q, p.b + y / w + p.g * q * q] });
model!(CustY, SharedDirectionRayBundle, new_shared_plusz_direction,
    |p, u, v| { let x = u - p.a; [x, v - p.b - p.g * x * x, R::zero()] },
    |x, y, z| { let _ = z; [p.a + x, p.b + y + p.g * x * x] });
