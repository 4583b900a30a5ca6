//! Executes programs (sequences of API calls) on the real crate and records every call with its
//! arguments and results.  There is no oracle here: judging is done by the TLA+ specification.
use crate::bun::{Bun, Rows};
use crate::cust::{CustP, CustX, CustY};
use crate::mat::{M2, M3};
use crate::on_mat;
use crate::sc::{parse, Sc};
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra as na;
use na::{Isometry3, Point3, Quaternion, SMatrix, Translation3, Unit, UnitQuaternion, Vector3};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type Persp<R> = IntrinsicParametersPerspective<R>;
pub type Ortho<R> = IntrinsicParametersOrthographic<R>;

pub enum Reg<R: Sc> {
    Extr(ExtrinsicParameters<R>),
    IP(Persp<R>),
    IO(Ortho<R>),
    IX(CustX<R>),
    IY(CustY<R>),
    CP(Camera<R, Persp<R>>),
    CO(Camera<R, Ortho<R>>),
    CX(Camera<R, CustX<R>>),
    CY(Camera<R, CustY<R>>),
    Jac(JacobianPerspectiveCache<R>),
    Pts(M3<R>),
    Pix(M2<R>),
    Bun(Rc<dyn Bun<R>>),
    Ray([R; 3], [R; 3]),
}
use Reg::*;

pub struct Vm<R: Sc> {
    pub regs: Vec<Option<Reg<R>>>,
    /// The object that is worked on, moved here for the time of a call: so different objects are
    /// found at one address, and one object at several.
    pub desk: Option<(usize, Option<Reg<R>>)>,
    pub steps: usize,
}

/// The result of one call: what was observed, the object it returned, and values of arguments as
/// they were passed (after rounding to the scalar type).
pub struct Out<R: Sc> {
    r: Value,
    reg: Option<Reg<R>>,
    args: Vec<(&'static str, Value)>,
}
type Res<R> = Result<Out<R>, String>; // Err: the program makes no sense (e.g. a register is empty)

fn f<R: Sc>(v: &Value) -> R {
    R::of_f64(match v {
        Value::String(s) => parse(s),
        Value::Number(n) => n.as_f64().unwrap(),
        _ => panic!("harness: number expected: {v}"),
    })
}
fn fs<R: Sc>(v: &Value) -> Vec<R> {
    v.as_array().map(|a| a.iter().map(f::<R>).collect()).unwrap_or_else(|| panic!("harness: list expected: {v}"))
}
fn frows<R: Sc>(v: &Value) -> Rows<R> {
    v.as_array().unwrap().iter().map(fs::<R>).collect()
}
/// The rows of a literal table.  With "tile", they are repeated to make a table of that many rows.
fn tiled<R: Sc>(ins: &Value) -> Rows<R> {
    let rows = frows::<R>(&ins["rows"]);
    match ins["tile"].as_u64() {
        Some(n) => rows.iter().cycle().take(n as usize).cloned().collect(),
        None => rows,
    }
}
fn v3<R: Sc>(v: &Value) -> Vector3<R> {
    Vector3::from_row_slice(&fs::<R>(v))
}
fn lg<'a, R: Sc>(xs: impl IntoIterator<Item = &'a R>) -> Value {
    Value::Array(xs.into_iter().map(|x| Value::String(x.txt())).collect())
}
fn lrows<R: Sc>(rows: &Rows<R>) -> Value {
    crate::wide::keep(rows).unwrap_or_else(|| Value::Array(rows.iter().map(|r| lg(r)).collect()))
}
fn lmat<R: Sc, A: na::Dim, B: na::Dim, S: na::storage::RawStorage<R, A, B>>(m: &na::Matrix<R, A, B, S>) -> Value {
    let mut v = vec![];
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            v.push(Value::String(m[(i, j)].txt()));
        }
    }
    Value::Array(v)
}
fn lq<R: Sc>(q: &UnitQuaternion<R>) -> Value {
    lg(&[q.w, q.i, q.j, q.k])
}
fn quat<R: Sc>(v: &Value) -> UnitQuaternion<R> {
    let q = fs::<R>(v);
    Unit::new_normalize(Quaternion::new(q[0], q[1], q[2], q[3]))
}

pub fn obs_extr<R: Sc>(e: &ExtrinsicParameters<R>) -> Value {
    json!({
        "rot": lmat(e.rotation().matrix()), "mat": lmat(e.matrix()), "tr": lg(e.translation().coords.iter()),
        "cc": lg(e.camcenter().coords.iter()), "pq": lq(&e.pose().rotation),
        "pt": lg(e.pose().translation.vector.iter()),
        "fwd": lg(e.forward().iter()), "up": lg(e.up().iter()), "right": lg(e.right().iter()),
    })
}
fn obs_persp<R: Sc>(i: &Persp<R>) -> Value {
    let p = i.params();
    json!({"p": lg(&[i.fx(), i.fy(), i.skew(), i.cx(), i.cy()]), "pp": lg(&[p.fx, p.fy, p.skew, p.cx, p.cy])})
}
fn obs_cam<R: Sc, I: IntrinsicParameters<R>>(c: &Camera<R, I>, i: Value) -> Value {
    json!({"i": i, "e": obs_extr(c.extrinsics())})
}
fn err(e: Error) -> Value {
    json!({"err": match e {
        Error::InvalidInput => "InvalidInput",
        Error::SvdFailed => "SvdFailed",
        Error::MinimumTwoRaysNeeded => "MinimumTwoRaysNeeded",
        Error::InvalidRotationMatrix => "InvalidRotationMatrix",
        _ => "other",
    }})
}
fn pts_out<R: Sc>(m: M3<R>) -> Out<R> {
    let rows = m.rows();
    Out { r: json!({"n": rows.len(), "rows": lrows(&rows)}), reg: Some(Pts(m)), args: vec![] }
}
fn pix_out<R: Sc>(m: M2<R>) -> Out<R> {
    let rows = m.rows();
    Out { r: json!({"n": rows.len(), "rows": lrows(&rows)}), reg: Some(Pix(m)), args: vec![] }
}
fn bun_out<R: Sc>(b: Rc<dyn Bun<R>>) -> Out<R> {
    let rows = b.rows();
    Out { r: json!({"n": rows.len(), "rows": lrows(&rows), "so": b.shared_origin()}), reg: Some(Bun(b)), args: vec![] }
}
fn obj_out<R: Sc>(reg: Reg<R>) -> Out<R> {
    Out { r: observe(&reg), reg: Some(reg), args: vec![] }
}
fn val_out<R: Sc>(r: Value) -> Out<R> {
    Out { r, reg: None, args: vec![] }
}

/// Everything that can be read from an object.
fn observe<R: Sc>(reg: &Reg<R>) -> Value {
    match reg {
        Extr(e) => obs_extr(e),
        IP(i) => obs_persp(i),
        CP(c) => obs_cam(c, obs_persp(c.intrinsics())),
        CO(c) => obs_cam(c, json!({})),
        CX(c) => obs_cam(c, json!({})),
        CY(c) => obs_cam(c, json!({})),
        Pts(m) => json!({"n": m.rows().len(), "rows": lrows(&m.rows())}),
        Pix(m) => json!({"n": m.rows().len(), "rows": lrows(&m.rows())}),
        Bun(b) => json!({"n": b.rows().len(), "rows": lrows(&b.rows()), "so": b.shared_origin()}),
        Ray(c, d) => json!({"c": lg(c), "d": lg(d)}),
        _ => json!({}),
    }
}

/// Evaluate with `$x` bound to the intrinsics / the camera in a register.
macro_rules! on_intr {
    ($reg:expr, $x:ident => $body:expr) => {
        match $reg {
            IP($x) => $body,
            IO($x) => $body,
            IX($x) => $body,
            IY($x) => $body,
            _ => return Err("intrinsics expected".into()),
        }
    };
}
macro_rules! on_cam {
    ($reg:expr, $x:ident => $body:expr) => {
        match $reg {
            CP($x) => $body,
            CO($x) => $body,
            CX($x) => $body,
            CY($x) => $body,
            _ => return Err("camera expected".into()),
        }
    };
}

impl<R: Sc> Vm<R> {
    fn reg(&self, ins: &Value, key: &str) -> Result<&Reg<R>, String> {
        self.get(&ins[key])
    }
    fn get(&self, id: &Value) -> Result<&Reg<R>, String> {
        let k = id.as_u64().ok_or("no register")? as usize;
        if let Some((_, reg)) = self.desk.as_ref().filter(|d| d.0 == k) {
            return reg.as_ref().ok_or("empty register".into());
        }
        self.regs.get(k).and_then(|r| r.as_ref()).ok_or("empty register".into())
    }
    fn extr(&self, ins: &Value) -> Result<&ExtrinsicParameters<R>, String> {
        Ok(match self.reg(ins, "e")? {
            Extr(e) => e,
            CP(c) => c.extrinsics(),
            CO(c) => c.extrinsics(),
            CX(c) => c.extrinsics(),
            CY(c) => c.extrinsics(),
            _ => return Err("extrinsics expected".into()),
        })
    }
    fn pts(&self, ins: &Value, key: &str) -> Result<&M3<R>, String> {
        match self.reg(ins, key)? {
            Pts(m) => Ok(m),
            _ => Err("points expected".into()),
        }
    }
    fn pix(&self, ins: &Value, key: &str) -> Result<&M2<R>, String> {
        match self.reg(ins, key)? {
            Pix(m) => Ok(m),
            _ => Err("pixels expected".into()),
        }
    }
    fn bun(&self, ins: &Value) -> Result<&Rc<dyn Bun<R>>, String> {
        match self.reg(ins, "b")? {
            Bun(b) => Ok(b),
            _ => Err("bundle expected".into()),
        }
    }

    /// One API call.
    pub fn eval(&self, ins: &Value) -> Res<R> {
        let op = ins["op"].as_str().ok_or("op")?;
        Ok(match op {
            "extr_rc" => {
                let q = quat::<R>(&ins["q"]);
                let c = Point3::from(v3::<R>(&ins["c"]));
                let mut o = obj_out(Extr(ExtrinsicParameters::from_rotation_and_camcenter(q, c)));
                o.args = vec![("q", lq(&q)), ("c", lg(c.coords.iter()))];
                o
            }
            "extr_pose" => {
                let q = quat::<R>(&ins["q"]);
                let t = v3::<R>(&ins["t"]);
                let pose = Isometry3::from_parts(Translation3::from(t), q);
                let mut o = obj_out(Extr(ExtrinsicParameters::from_pose(&pose)));
                o.args = vec![("q", lq(&q)), ("t", lg(t.iter()))];
                o
            }
            // a new pose from the pose that another one reports
            "extr_repose" => {
                let pose = self.extr(ins)?.pose().clone();
                obj_out(Extr(ExtrinsicParameters::from_pose(&pose)))
            }
            // a new pose from the rotation and the camera center that another one reports
            "extr_rerc" => {
                let e = self.extr(ins)?;
                let (q, c) = (e.pose().rotation, *e.camcenter());
                obj_out(Extr(ExtrinsicParameters::from_rotation_and_camcenter(q, c)))
            }
            "extr_view" => {
                let (c, l) = (v3::<R>(&ins["c"]), v3::<R>(&ins["l"]));
                let up = Unit::new_normalize(v3::<R>(&ins["up"]));
                let mut o = obj_out(Extr(ExtrinsicParameters::from_view(&c, &l, &up)));
                o.args = vec![("c", lg(c.iter())), ("l", lg(l.iter())), ("up", lg(up.iter()))];
                o
            }
            "obs" => val_out(observe(self.reg(ins, "x")?)),
            "extr_of" => obj_out(Extr(self.extr(ins)?.clone())),
            "persp" => {
                let p = fs::<R>(&ins["p"]);
                let i: Persp<R> = PerspectiveParams { fx: p[0], fy: p[1], skew: p[2], cx: p[3], cy: p[4] }.into();
                let mut o = obj_out(IP(i));
                o.args = vec![("p", lg(&p))];
                o
            }
            "norm34" => {
                let m = fs::<R>(&ins["m"]);
                let mut o = match Persp::from_normalized_3x4_matrix(SMatrix::<R, 3, 4>::from_row_slice(&m)) {
                    Ok(i) => obj_out(IP(i)),
                    Err(e) => val_out(err(e)),
                };
                o.args = vec![("m", lg(&m))];
                o
            }
            "ortho" => {
                let p = fs::<R>(&ins["p"]);
                let i: Ortho<R> = OrthographicParams { sx: p[0], sy: p[1], cx: p[2], cy: p[3] }.into();
                let mut o = obj_out(IO(i));
                o.args = vec![("p", lg(&p))];
                o
            }
            "custx" | "custy" => {
                let p = fs::<R>(&ins["p"]);
                let spike = if ins["spike"].is_array() { Some(fs::<R>(&ins["spike"])) } else { None };
                let c = CustP { a: p[0], b: p[1], g: p[2], spike: spike.as_ref().map(|s| [s[0], s[1], s[2], s[3]]) };
                let mut o = obj_out(if op == "custx" { IX(CustX(c)) } else { IY(CustY(c)) });
                o.args = vec![("p", lg(&p)), ("spike", spike.map(|s| lg(&s)).unwrap_or(json!([])))];
                o
            }
            "cam" => {
                let e = self.extr(ins)?.clone();
                obj_out(match self.reg(ins, "i")? {
                    IP(i) => CP(Camera::new(i.clone(), e)),
                    IO(i) => CO(Camera::new(i.clone(), e)),
                    IX(i) => CX(Camera::new(i.clone(), e)),
                    IY(i) => CY(Camera::new(i.clone(), e)),
                    CP(c) => CP(Camera::new(c.intrinsics().clone(), e)),
                    _ => return Err("intrinsics expected".into()),
                })
            }
            "pmat_cam" | "pmat_of" => {
                // from a matrix, or from the camera matrix of a camera multiplied by k
                let m = if op == "pmat_cam" {
                    SMatrix::<R, 3, 4>::from_row_slice(&fs::<R>(&ins["m"]))
                } else {
                    match self.reg(ins, "cam")? {
                        CP(c) => c.as_camera_matrix() * f::<R>(&ins["k"]),
                        _ => return Err("perspective camera expected".into()),
                    }
                };
                let made = if ins["lay"] == json!("v") {
                    let big = SMatrix::<R, 6, 7>::from_fn(|i, j| {
                        if i % 2 == 0 && (1..5).contains(&j) { m[(i / 2, j - 1)] } else { R::of_f64(-5.5) }
                    });
                    let part = big.fixed_view_with_steps::<3, 4>((0, 1), (1, 0)).into_owned();
                    Camera::from_perspective_matrix(&part)
                } else {
                    Camera::from_perspective_matrix(&m)
                };
                let mut o = match made {
                    Ok(c) => obj_out(CP(c)),
                    Err(e) => val_out(err(e)),
                };
                o.args = vec![("m", lmat(&m))];
                o
            }
            "cam_mat" => match self.reg(ins, "cam")? {
                CP(c) => val_out(json!({"m": lmat(&c.as_camera_matrix())})),
                _ => return Err("perspective camera expected".into()),
            },
            "jac" => match self.reg(ins, "cam")? {
                CP(c) => obj_out(Jac(JacobianPerspectiveCache::new(c))),
                _ => return Err("perspective camera expected".into()),
            },
            "lin" => match self.reg(ins, "j")? {
                Jac(j) => match self.pts(ins, "x")? {
                    M3::S1(m) => val_out(json!({"m": lmat(&j.linearize_at(&Points::new(m.clone())))})),
                    M3::V1(m) => val_out(json!({"m": lmat(&j.linearize_at(&Points::new(m.clone())))})),
                    _ => return Err("one point expected".into()),
                },
                _ => return Err("jacobian expected".into()),
            },
            "pts" => {
                let rows = tiled::<R>(ins);
                let m = M3::make(&rows, ins["lay"].as_str().unwrap_or("d"));
                Out { r: json!({}), reg: Some(Pts(m)), args: vec![("rows", lrows(&rows))] }
            }
            "pix" => {
                let rows = tiled::<R>(ins);
                let m = M2::make(&rows, ins["lay"].as_str().unwrap_or("d"));
                Out { r: json!({}), reg: Some(Pix(m)), args: vec![("rows", lrows(&rows))] }
            }
            "w2c" => {
                let e = self.extr(ins)?;
                pts_out(on_mat!(self.pts(ins, "x")?, M3, m => M3::from(e.world_to_camera(&Points::new(m.clone())).data)))
            }
            "c2w" => {
                let e = self.extr(ins)?;
                pts_out(on_mat!(self.pts(ins, "x")?, M3, m => M3::from(e.camera_to_world(&Points::new(m.clone())).data)))
            }
            "c2p" => {
                let x = self.pts(ins, "x")?;
                pix_out(on_intr!(self.reg(ins, "i")?, i =>
                    on_mat!(x, M3, m => M2::from(i.camera_to_pixel(&Points::new(m.clone())).data))))
            }
            "p2c" => {
                let x = self.pix(ins, "x")?;
                bun_out(on_intr!(self.reg(ins, "i")?, i =>
                    on_mat!(x, M2, m => Rc::new(i.pixel_to_camera(&Pixels::new(m.clone()))) as Rc<dyn Bun<R>>)))
            }
            "w2p" => {
                let x = self.pts(ins, "x")?;
                pix_out(on_cam!(self.reg(ins, "cam")?, c =>
                    on_mat!(x, M3, m => M2::from(c.world_to_pixel(&Points::new(m.clone())).data))))
            }
            "p2w" => {
                let x = self.pix(ins, "x")?;
                bun_out(on_cam!(self.reg(ins, "cam")?, c =>
                    on_mat!(x, M2, m => Rc::new(c.pixel_to_world(&Pixels::new(m.clone()))) as Rc<dyn Bun<R>>)))
            }
            "bso" | "bsd" => {
                let rows = tiled::<R>(ins);
                let m = M3::make(&rows, ins["lay"].as_str().unwrap_or("d"));
                let w = ins["fr"] == json!("w");
                let b: Rc<dyn Bun<R>> = on_mat!(&m, M3, m => match (op == "bso", w) {
                    (true, true) => Rc::new(RayBundle::<WorldFrame, _, _, _, _>::new_shared_zero_origin(m.clone())),
                    (true, false) => Rc::new(RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(m.clone())),
                    (false, true) => Rc::new(RayBundle::<WorldFrame, _, _, _, _>::new_shared_plusz_direction(m.clone())),
                    (false, false) => Rc::new(RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(m.clone())),
                });
                let mut o = bun_out(b);
                o.args = vec![("rows", lrows(&rows))];
                o
            }
            // a bundle moved by a pose, through the Bundle trait
            "bpose" => {
                let rows = tiled::<R>(ins);
                let m = M3::make(&rows, ins["lay"].as_str().unwrap_or("d"));
                let q = quat::<R>(&ins["q"]);
                let t = v3::<R>(&ins["t"]);
                let pose = Isometry3::from_parts(Translation3::from(t), q);
                let so = ins["so"] == json!(true);
                let w = ins["fr"] == json!("w");
                let bo = SharedOriginRayBundle::<R>::new_shared_zero_origin();
                let bd = SharedDirectionRayBundle::<R>::new_plusz_shared_direction();
                let b: Rc<dyn Bun<R>> = on_mat!(&m, M3, m => match (so, w) {
                    (true, true) => { let b: RayBundle<WorldFrame, _, _, _, _> = bo.to_pose(pose, m); Rc::new(b) },
                    (true, false) => { let b: RayBundle<CameraFrame, _, _, _, _> = bo.to_pose(pose, m); Rc::new(b) },
                    (false, true) => { let b: RayBundle<WorldFrame, _, _, _, _> = bd.to_pose(pose, m); Rc::new(b) },
                    (false, false) => { let b: RayBundle<CameraFrame, _, _, _, _> = bd.to_pose(pose, m); Rc::new(b) },
                });
                let mut o = bun_out(b);
                o.args = vec![("rows", lrows(&rows)), ("q", lq(&q)), ("t", lg(t.iter()))];
                o
            }
            "r2w" => {
                let e = self.extr(ins)?;
                bun_out(self.bun(ins)?.r2w(e).ok_or("world frame")?)
            }
            "por" => pts_out(self.bun(ins)?.por()),
            "pord" => {
                let d = f::<R>(&ins["d"]);
                let mut o = pts_out(self.bun(ins)?.pord(d));
                o.args = vec![("d", Value::String(d.txt()))];
                o
            }
            "bobs" => {
                let (c, d) = self.bun(ins)?.obs().ok_or("dynamic")?;
                val_out(json!({"c": lrows(&c), "d": lrows(&d)}))
            }
            "single" => {
                let b = self.bun(ins)?;
                let (c, d) = b.single().ok_or("not a single ray")?;
                let (c, d): ([R; 3], [R; 3]) = (c.try_into().unwrap(), d.try_into().unwrap());
                obj_out(Ray(c, d))
            }
            "ray" => {
                let (c, d) = (fs::<R>(&ins["c"]), fs::<R>(&ins["d"]));
                let args = vec![("c", lg(&c)), ("d", lg(&d))];
                let r = cam_geom::Ray::<WorldFrame, R>::new(
                    SMatrix::<R, 1, 3>::from_row_slice(&c),
                    SMatrix::<R, 1, 3>::from_row_slice(&d),
                );
                let (c, d) = (r.center, r.direction);
                let mut o = obj_out(Ray([c[0], c[1], c[2]], [d[0], d[1], d[2]]));
                o.args = args;
                o
            }
            #[cfg(feature = "alloc")]
            "isect" => {
                // rays: registers, or literal [cx, cy, cz, dx, dy, dz]
                let mut rays = vec![];
                let mut log = vec![];
                for x in ins["rays"].as_array().ok_or("rays")? {
                    let (c, d) = if x.is_array() {
                        let v = fs::<R>(x);
                        ([v[0], v[1], v[2]], [v[3], v[4], v[5]])
                    } else {
                        match self.get(x)? {
                            Ray(c, d) => (*c, *d),
                            _ => return Err("ray expected".into()),
                        }
                    };
                    log.push(lg(&[c[0], c[1], c[2], d[0], d[1], d[2]]));
                    rays.push((SMatrix::<R, 1, 3>::from_row_slice(&c), SMatrix::<R, 1, 3>::from_row_slice(&d)));
                }
                macro_rules! run {
                    ($F:ty) => {{
                        let rs: Vec<cam_geom::Ray<$F, R>> =
                            rays.iter().map(|(c, d)| cam_geom::Ray::new(c.clone(), d.clone())).collect();
                        best_intersection_of_rays(&rs).map(|p| M3::from(p.data))
                    }};
                }
                let r = if ins["fr"] == json!("c") { run!(CameraFrame) } else { run!(WorldFrame) };
                let mut o = match r {
                    Ok(m) => pts_out(m),
                    Err(e) => val_out(err(e)),
                };
                o.args = vec![("rv", Value::Array(log))];
                o
            }
            "clone" => obj_out(match self.reg(ins, "x")? {
                Extr(e) => Extr(e.clone()),
                IP(i) => IP(i.clone()),
                IO(i) => IO(i.clone()),
                CP(c) => CP(c.clone()),
                CO(c) => CO(c.clone()),
                CX(c) => CX(c.clone()),
                Pix(m) => Pix(on_mat!(m, M2, m => M2::from(Pixels::new(m.clone_owned()).clone().data))),
                Bun(b) => Bun(b.dup().ok_or("view")?),
                _ => return Err("clone".into()),
            }),
            "eq" => {
                let b = match (self.reg(ins, "a")?, self.reg(ins, "b")?) {
                    (Extr(a), Extr(b)) => a == b,
                    (IP(a), IP(b)) => a == b,
                    (IO(a), IO(b)) => a == b,
                    (CP(a), CP(b)) => a == b,
                    (CO(a), CO(b)) => a == b,
                    (Bun(a), Bun(b)) => a.same(b.any()).ok_or("different types")?,
                    _ => return Err("eq".into()),
                };
                val_out(json!({"eq": b}))
            }
            // the Debug texts of an object (the short and the long form), and what can be read from it
            "dbg" => {
                macro_rules! two {
                    ($x:expr) => {{
                        let x = $x;
                        [format!("{x:?}"), format!("{x:#?}")]
                    }};
                }
                let reg = self.reg(ins, "x")?;
                let texts = match reg {
                    Extr(e) => two!(e),
                    IP(i) => two!(i),
                    IO(i) => two!(i),
                    CP(c) => two!(c),
                    CO(c) => two!(c),
                    Bun(b) => b.dbg(),
                    Pts(m) => on_mat!(m, M3, m => dbg_pts(&m.clone_owned())),
                    _ => return Err("dbg".into()),
                };
                let texts: Vec<Value> = texts.iter().map(|t| shown::<R>(t)).collect();
                val_out(json!({"texts": texts, "obs": observe(reg)}))
            }
            #[cfg(feature = "serde")]
            "serde" => {
                let route = ins["route"].as_str().unwrap();
                macro_rules! rt {
                    ($x:expr, $K:ident) => {
                        match crate::ser::roundtrip($x, route) {
                            Ok(y) => {
                                let same = *$x == y;
                                (Ok($K(y)), same)
                            }
                            Err(e) => (Err(e), false),
                        }
                    };
                }
                let (made, same) = match self.reg(ins, "x")? {
                    Extr(e) => rt!(e, Extr),
                    IP(i) => rt!(i, IP),
                    IO(i) => rt!(i, IO),
                    CP(c) => rt!(c, CP),
                    CO(c) => rt!(c, CO),
                    Bun(b) => match b.serde(route).ok_or("view")? {
                        Ok(y) => {
                            let same = b.same(y.any()).unwrap();
                            (Ok(Bun(y)), same)
                        }
                        Err(e) => (Err(e), false),
                    },
                    _ => return Err("serde".into()),
                };
                match made {
                    Ok(reg) => {
                        let r = json!({"eq": same, "o": observe(&reg)});
                        Out { r, reg: Some(reg), args: vec![] }
                    }
                    Err(e) => val_out(json!({"err": e})),
                }
            }
            #[cfg(feature = "serde")]
            "serde_bad" => {
                let how = ins["how"].as_str().unwrap();
                use crate::ser::rejected;
                val_out(json!({"rej": match self.reg(ins, "x")? {
                    Extr(e) => rejected(e, how),
                    IP(i) => rejected(i, how),
                    IO(i) => rejected(i, how),
                    CP(c) => rejected(c, how),
                    CO(c) => rejected(c, how),
                    _ => return Err("serde".into()),
                }}))
            }
            // an object from its documented serialized form
            #[cfg(feature = "serde")]
            "serde_read" => {
                fn num<R: Sc>(v: &Value) -> Value {
                    match v {
                        Value::Array(a) => Value::Array(a.iter().map(num::<R>).collect()),
                        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), num::<R>(v))).collect()),
                        Value::String(s) => serde_json::to_value(R::of_f64(parse(s))).unwrap(),
                        v => v.clone(),
                    }
                }
                fn log<R: Sc>(v: &Value) -> Value {
                    match v {
                        Value::Array(a) => Value::Array(a.iter().map(log::<R>).collect()),
                        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), log::<R>(v))).collect()),
                        Value::String(s) => Value::String(R::of_f64(parse(s)).txt()),
                        v => v.clone(),
                    }
                }
                let v = num::<R>(&ins["v"]);
                macro_rules! rd {
                    ($K:ident) => {
                        match serde_json::from_value(v) {
                            Ok(y) => obj_out($K(y)),
                            Err(e) => val_out(json!({"err": e.to_string()})),
                        }
                    };
                }
                let mut o = match ins["kind"].as_str().unwrap() {
                    "extr" => rd!(Extr),
                    "persp" => rd!(IP),
                    "ortho" => rd!(IO),
                    "camp" => rd!(CP),
                    "camo" => rd!(CO),
                    _ => return Err("serde_read".into()),
                };
                o.args = vec![("v", log::<R>(&ins["v"]))];
                o
            }
            // the serialized form of an object, parsed as JSON, its numbers logged exactly
            #[cfg(feature = "serde")]
            "serde_form" => {
                fn log<R: Sc>(v: &Value) -> Value {
                    match v {
                        Value::Array(a) => Value::Array(a.iter().map(log::<R>).collect()),
                        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), log::<R>(v))).collect()),
                        Value::Number(n) => Value::String(R::of_f64(n.as_f64().unwrap()).txt()),
                        // JSON has no other form for a number that is not finite
                        Value::Null => Value::String("nan".into()),
                        v => v.clone(),
                    }
                }
                let v = match self.reg(ins, "x")? {
                    Extr(e) => serde_json::to_value(e),
                    IP(i) => serde_json::to_value(i),
                    IO(i) => serde_json::to_value(i),
                    CP(c) => serde_json::to_value(c),
                    CO(c) => serde_json::to_value(c),
                    _ => return Err("serde_form".into()),
                };
                val_out(json!({"v": log::<R>(&v.unwrap())}))
            }
            #[cfg(feature = "std")]
            "util" => {
                let g = |k: &str| ins[k].as_u64().unwrap() as usize;
                let eps = f::<R>(&ins["eps"]);
                let i = self.reg(ins, "i")?;
                let ok = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                    on_intr!(i, i => intrinsic_test_utils::roundtrip_intrinsics(i, g("w"), g("h"), g("step"), g("border"), eps));
                    Ok(())
                }));
                let mut o = val_out(json!({"pass": match ok { Ok(x) => { x?; true } Err(_) => false }}));
                o.args = vec![("eps", Value::String(eps.txt()))];
                o
            }
            // the same call by k threads, `n` times by each, while other threads make other calls;
            // the result: every result that the call had
            "par" => {
                let k = ins["k"].as_u64().unwrap() as usize;
                let n = ins["n"].as_u64().unwrap_or(1) as usize;
                let of = &ins["of"];
                let none = vec![];
                let with = ins["with"].as_array().unwrap_or(&none);
                let sync = is_sync(R::W);
                let args = std::sync::Mutex::new(None);
                let one = |me: &Vm<R>, of: &Value| match catch_unwind(AssertUnwindSafe(|| me.eval(of).map(|o| (o.r, o.args)))) {
                    Ok(Ok((r, a))) => {
                        let a: Vec<_> = a.into_iter().filter(|(_, v)| !v.is_null()).collect();
                        Ok((r, a))
                    }
                    Ok(Err(e)) => Err(e),
                    Err(e) => Ok((json!({"panic": panic_text(e)}), vec![])),
                };
                let many = |me: &Vm<R>, of: &Value| -> Result<Vec<Value>, String> {
                    let mut seen: Vec<Value> = vec![];
                    for _ in 0..n {
                        let (r, a) = one(me, of)?;
                        if !seen.contains(&r) {
                            seen.push(r);
                        }
                        *args.lock().unwrap() = Some(a);
                    }
                    Ok(seen)
                };
                let noise = |me: &Vm<R>, of: &Value| (0..n).for_each(|_| drop(one(me, of)));
                let rs: Vec<Result<Vec<Value>, String>> = if sync {
                    let me = Shared(self);
                    let start = std::sync::Barrier::new(k + with.len());
                    std::thread::scope(|s| {
                        let (me, start, many, noise) = (&me, &start, &many, &noise);
                        for w in with {
                            s.spawn(move || { start.wait(); noise(me.0, w) });
                        }
                        let hs: Vec<_> = (0..k).map(|_| s.spawn(move || { start.wait(); many(me.0, of) })).collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    })
                } else {
                    (0..k).map(|_| { with.iter().for_each(|w| noise(self, w)); many(self, of) }).collect()
                };
                let rs: Result<Vec<Vec<Value>>, String> = rs.into_iter().collect();
                let mut o = val_out(json!({"rs": rs?.concat(), "sync": sync}));
                let mut of = of.clone();
                for (key, v) in args.into_inner().unwrap().unwrap_or_default() {
                    of[key] = v;
                }
                o.args = vec![("of", of)];
                o
            }
            _ => return Err(format!("unknown op {op}")),
        })
    }

    /// Execute one instruction and return the event, or nothing when it cannot be executed.
    pub fn step(&mut self, ins: &Value) -> Option<Value> {
        self.steps += 1;
        let k = ["cam", "e", "i", "j", "b", "x"].iter().find_map(|key| ins[key].as_u64()).map(|k| k as usize);
        if let Some(k) = k.filter(|k| self.steps % 2 == 1 && *k < self.regs.len()) {
            self.desk = Some((k, self.regs[k].take()));
        }
        let res = catch_unwind(AssertUnwindSafe(|| self.eval(ins)));
        if let Some((k, reg)) = self.desk.take() {
            self.regs[k] = reg;
        }
        let mut ev: Map<String, Value> = ins.as_object().expect("harness: instruction").clone();
        let r = match res {
            Ok(Ok(o)) => {
                for (k, v) in o.args {
                    ev.insert(k.into(), v);
                }
                if let (Some(reg), Some(id)) = (o.reg, ins["o"].as_u64()) {
                    let id = id as usize;
                    while self.regs.len() <= id {
                        self.regs.push(None);
                    }
                    self.regs[id] = Some(reg);
                }
                o.r
            }
            Ok(Err(_)) => return None,
            Err(e) => {
                let t = panic_text(e);
                if t.starts_with("skip:") {
                    return None; // not available in this configuration
                }
                if t.starts_with("harness:") {
                    eprintln!("{t} in {ins}");
                    std::process::exit(2);
                }
                json!({"panic": t})
            }
        };
        ev.insert("r".into(), r);
        Some(Value::Object(ev))
    }
}

#[cfg(feature = "std")]
fn dbg_pts<R: Sc, N: na::Dim, S: std::fmt::Debug + Clone>(m: &na::Matrix<R, N, na::U3, S>) -> [String; 2] {
    let x = Points::<WorldFrame, R, N, S>::new(m.clone());
    [format!("{x:?}"), format!("{x:#?}")]
}
#[cfg(not(feature = "std"))]
fn dbg_pts<R: Sc, N: na::Dim, S: std::fmt::Debug + Clone>(_: &na::Matrix<R, N, na::U3, S>) -> [String; 2] {
    panic!("skip: no Debug for points")
}

/// The floating point numbers in a Debug text, each with the name of the field that it is in.
fn shown<R: Sc>(text: &str) -> Value {
    let c: Vec<char> = text.chars().collect();
    let (mut out, mut name, mut k) = (vec![], String::new(), 0);
    while k < c.len() {
        let neg = c[k] == '-' && k + 1 < c.len() && (c[k + 1].is_ascii_digit() || c[k + 1] == 'i' || c[k + 1] == 'N');
        if c[k].is_ascii_alphanumeric() || c[k] == '_' || neg {
            let a = k;
            k += 1;
            while k < c.len() && (c[k].is_ascii_alphanumeric() || "_.".contains(c[k]) || "+-".contains(c[k]) && c[k - 1] == 'e' && (c[a].is_ascii_digit() || neg)) {
                k += 1;
            }
            let w: String = c[a..k].iter().collect();
            if (c[a].is_ascii_digit() || neg) && w.contains(['.', 'e']) || ["NaN", "inf", "-inf"].contains(&w.as_str()) {
                if let Ok(x) = w.parse::<R>() {
                    out.push(json!([name, x.txt()]));
                }
            } else if k < c.len() && c[k] == ':' {
                name = w;
            }
        } else {
            k += 1;
        }
    }
    Value::Array(out)
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
    t.unwrap_or("?".into()).chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\' && !c.is_control()).take(160).collect()
}

/// Can objects be shared between threads?  (Resolved for concrete types at compile time.)
struct Shared<'a, T>(&'a T);
unsafe impl<T> Sync for Shared<'_, T> {}
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
fn is_sync(w: &str) -> bool {
    macro_rules! p {
        ($R:ty) => {
            Probe::<ExtrinsicParameters<$R>>(std::marker::PhantomData).sync()
                && Probe::<Persp<$R>>(std::marker::PhantomData).sync()
                && Probe::<Ortho<$R>>(std::marker::PhantomData).sync()
                && Probe::<Camera<$R, Persp<$R>>>(std::marker::PhantomData).sync()
                && Probe::<Camera<$R, Ortho<$R>>>(std::marker::PhantomData).sync()
                && Probe::<JacobianPerspectiveCache<$R>>(std::marker::PhantomData).sync()
                && Probe::<SharedOriginRayBundle<$R>>(std::marker::PhantomData).sync()
                && Probe::<SharedDirectionRayBundle<$R>>(std::marker::PhantomData).sync()
                && Probe::<cam_geom::Ray<WorldFrame, $R>>(std::marker::PhantomData).sync()
        };
    }
    if w == "f32" { p!(f32) } else { p!(f64) }
}
