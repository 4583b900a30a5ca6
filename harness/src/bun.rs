//! Ray bundles of every type behind one trait object.
use crate::mat::M3;
use crate::sc::Sc;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra as na;
use na::{Const, Dyn, U3};
use std::any::Any;
use std::rc::Rc;

pub type Rows<R> = Vec<Vec<R>>;

pub trait Bun<R: Sc>: Any {
    fn rows(&self) -> Rows<R>;
    fn por(&self) -> M3<R>;
    fn pord(&self, d: R) -> M3<R>;
    /// (centers, directions), which exist for a static number of rays
    fn obs(&self) -> Option<(Rows<R>, Rows<R>)>;
    fn single(&self) -> Option<(Vec<R>, Vec<R>)>;
    fn r2w(&self, e: &ExtrinsicParameters<R>) -> Option<Rc<dyn Bun<R>>>;
    fn dup(&self) -> Option<Rc<dyn Bun<R>>>;
    fn same(&self, o: &dyn Any) -> Option<bool>;
    fn any(&self) -> &dyn Any;
    fn shared_origin(&self) -> bool;
    #[cfg(feature = "serde")]
    fn serde(&self, route: &str) -> Option<Result<Rc<dyn Bun<R>>, String>>;
    fn dbg(&self) -> [String; 2];
}

fn rows<R: Sc, N: na::Dim, S: na::storage::RawStorage<R, N, U3>>(m: &na::Matrix<R, N, U3, S>) -> Rows<R> {
    (0..m.nrows()).map(|i| (0..3).map(|j| m[(i, j)]).collect()).collect()
}

macro_rules! opt { (y, $e:expr) => { Some($e) }; (n, $e:expr) => { None }; }

macro_rules! impl_bun {
    // frame, bundle type, storage, is it static, has it one owned ray, is it owned, camera frame
    ($F:ident, $B:ident, $N:ty, $S:ty, $st:tt, $one:tt, $own:tt, $cam:tt) => {
        #[rustfmt::skip]
        impl<R: Sc> Bun<R> for RayBundle<$F, $B<R>, R, $N, $S> {
            fn rows(&self) -> Rows<R> { rows(&self.data) }
            fn por(&self) -> M3<R> { M3::from(self.point_on_ray().data) }
            fn pord(&self, d: R) -> M3<R> { M3::from(self.point_on_ray_at_distance(d).data) }
            fn obs(&self) -> Option<(Rows<R>, Rows<R>)> { opt!($st, (rows(&self.centers()), rows(&self.directions()))) }
            fn single(&self) -> Option<(Vec<R>, Vec<R>)> {
                opt!($one, {
                    let r = self.to_single_ray();
                    (r.center.iter().cloned().collect(), r.direction.iter().cloned().collect())
                })
            }
            #[allow(unused_variables)]
            fn r2w(&self, e: &ExtrinsicParameters<R>) -> Option<Rc<dyn Bun<R>>> { opt!($cam, Rc::new(e.ray_camera_to_world(self))) }
            fn dup(&self) -> Option<Rc<dyn Bun<R>>> { opt!($own, Rc::new(self.clone())) }
            #[allow(unused_variables)]
            fn same(&self, o: &dyn Any) -> Option<bool> { opt!($own, match o.downcast_ref::<Self>() { Some(x) => self == x, None => return None }) }
            fn any(&self) -> &dyn Any { self }
            fn shared_origin(&self) -> bool { stringify!($B) == "SharedOriginRayBundle" }
            #[cfg(feature = "serde")]
            #[allow(unused_variables)]
            fn serde(&self, route: &str) -> Option<Result<Rc<dyn Bun<R>>, String>> {
                opt!($own, match crate::ser::roundtrip(self, route) { Ok(x) => Ok(Rc::new(x) as Rc<dyn Bun<R>>), Err(e) => Err(e) })
            }
            fn dbg(&self) -> [String; 2] { [format!("{self:?}"), format!("{self:#?}")] }
        }
    };
}
macro_rules! impl_all {
    ($F:ident, $B:ident, $cam:tt) => {
        #[cfg(feature = "alloc")]
        impl_bun!($F, $B, Dyn, na::VecStorage<R, Dyn, U3>, n, n, y, $cam);
        #[cfg(feature = "alloc")]
        impl_bun!($F, $B, Dyn, na::ViewStorage<'static, R, Dyn, U3, Dyn, Dyn>, n, n, n, $cam);
        impl_bun!($F, $B, Const<1>, na::ArrayStorage<R, 1, 3>, y, y, y, $cam);
        impl_bun!($F, $B, Const<2>, na::ArrayStorage<R, 2, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<3>, na::ArrayStorage<R, 3, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<5>, na::ArrayStorage<R, 5, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<4>, na::ArrayStorage<R, 4, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<8>, na::ArrayStorage<R, 8, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<10>, na::ArrayStorage<R, 10, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<32>, na::ArrayStorage<R, 32, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<16>, na::ArrayStorage<R, 16, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<70>, na::ArrayStorage<R, 70, 3>, y, n, y, $cam);
        impl_bun!($F, $B, Const<1>, na::ViewStorage<'static, R, Const<1>, U3, Dyn, Dyn>, y, n, n, $cam);
        impl_bun!($F, $B, Const<3>, na::ViewStorage<'static, R, Const<3>, U3, Dyn, Dyn>, y, n, n, $cam);
    };
}
impl_all!(CameraFrame, SharedOriginRayBundle, y);
impl_all!(CameraFrame, SharedDirectionRayBundle, y);
impl_all!(WorldFrame, SharedOriginRayBundle, n);
impl_all!(WorldFrame, SharedDirectionRayBundle, n);
