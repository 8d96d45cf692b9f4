//! KIk.tla against k::JacobianIkSolver.
use crate::common::*;
use crate::tree::{axis, near, org, pose_of, AXES, P, QUATS};
use k::joint::{Mimic, Range};
use k::*;
use nalgebra as na;
use serde_json::Value;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicUsize;
use std::sync::{Arc, Mutex};

const UNIT: f64 = 4096.0;

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("harness: array")
}
fn int(v: &Value) -> i64 {
    v.as_i64().expect("harness: integer")
}
fn st(v: &Value) -> &str {
    v.as_str().expect("harness: string")
}

struct J {
    nm: String,
    ty: String,
    ax: usize,
    org: Value,
    lim: Option<(i64, i64)>,
    pos: i64,
    qt: bool,
    mp: usize,
}
impl J {
    fn unit(&self) -> f64 {
        if self.qt {
            std::f64::consts::FRAC_PI_2
        } else {
            1.0 / UNIT
        }
    }
    fn val<T: Num>(&self, p: i64) -> T {
        t::<T>(p as f64 * self.unit())
    }
}
struct Sol {
    tolp: f64,
    tola: f64,
    den: i64,
    tries: usize,
    ns: Option<(Vec<i64>, Vec<i64>)>,
}
struct World<T: Num> {
    js: Vec<J>,
    from: usize,
    mov: Vec<usize>,
    nodes: Vec<Node<T>>,
    arm: SerialChain<T>,
    sol: Sol,
}
type Iso = na::Isometry3<f64>;

fn org64(v: &Value) -> Iso {
    let o: Vec<i64> = arr(v).iter().map(int).collect();
    let q = QUATS[o[0] as usize - 1];
    Iso::from_parts(
        na::Translation3::new(o[1] as f64 * 0.5, o[2] as f64 * 0.5, o[3] as f64 * 0.5),
        na::UnitQuaternion::from_quaternion(na::Quaternion::new(q[0], q[1], q[2], q[3])),
    )
}
fn iso_of(p: &P) -> Iso {
    let m = na::Matrix3::from_row_slice(&p.r);
    Iso::from_parts(na::Translation3::new(p.t[0], p.t[1], p.t[2]), na::UnitQuaternion::from_rotation_matrix(&na::Rotation3::from_matrix_unchecked(m)))
}
fn unit_axis(i: usize) -> na::Unit<na::Vector3<f64>> {
    na::Unit::new_normalize(na::Vector3::new(AXES[i - 1][0], AXES[i - 1][1], AXES[i - 1][2]))
}

impl<T: Num> World<T> {
    fn new(a: &Value) -> World<T> {
        let js: Vec<J> = arr(&a[0])
            .iter()
            .map(|n| J {
                nm: st(&n["nm"]).to_string(),
                ty: st(&n["ty"]).to_string(),
                ax: int(&n["ax"]) as usize,
                org: n["org"].clone(),
                lim: {
                    let l = arr(&n["lim"]);
                    if l.is_empty() { None } else { Some((int(&l[0]), int(&l[1]))) }
                },
                pos: int(&n["pos"]),
                qt: n["qt"].as_bool().unwrap(),
                mp: int(&n["mp"]) as usize,
            })
            .collect();
        let from = int(&a[1]) as usize - 1;
        let nodes: Vec<Node<T>> = js
            .iter()
            .map(|j| {
                let ty = match j.ty.as_str() {
                    "R" => JointType::Rotational { axis: axis::<T>(j.ax) },
                    "L" => JointType::Linear { axis: axis::<T>(j.ax) },
                    _ => JointType::Fixed,
                };
                let mut b = Joint::new(&j.nm, ty);
                b.limits = j.lim.map(|(lo, hi)| Range::new(j.val(lo), j.val(hi)));
                b.set_origin(org::<T>(&j.org));
                Node::new(b)
            })
            .collect();
        for i in 1..nodes.len() {
            nodes[i].set_parent(&nodes[i - 1]);
        }
        for (i, j) in js.iter().enumerate() {
            if j.mp > 0 {
                nodes[i].set_mimic_parent(&nodes[j.mp - 1], Mimic::new(t(1.5), t(0.25)));
            }
        }
        let last = nodes.last().unwrap();
        let arm = match st(&a[2]) {
            "end" => SerialChain::from_end(last),
            "try" => SerialChain::try_new(Chain::from_root(nodes[0].clone())).expect("harness: serial"),
            "new" => SerialChain::new_unchecked(Chain::from_end(last)),
            _ => SerialChain::from_end_to_root(last, &nodes[from]),
        };
        for (j, n) in js.iter().zip(&nodes) {
            if j.ty != "F" {
                n.set_joint_position_unchecked(j.val(j.pos));
            }
        }
        let mov = (from..js.len()).filter(|i| js[*i].ty != "F").collect();
        World { js, from, mov, nodes, arm, sol: Sol { tolp: 0.0, tola: 0.0, den: 1, tries: 0, ns: None } }
    }
    fn set(&self, q: &Value) {
        let v: Vec<T> = arr(q).iter().zip(&self.mov).map(|(x, i)| self.js[*i].val(int(x))).collect();
        self.arm.set_joint_positions_unchecked(&v);
    }
    fn bits(&self) -> Vec<f64> {
        self.mov.iter().map(|i| f(self.nodes[*i].joint_position().unwrap())).collect()
    }
    /// Forward kinematics of the members, in f64
    fn fk(&self, q: &[f64]) -> Iso {
        let mut p = Iso::identity();
        let mut k = 0;
        for i in self.from..self.js.len() {
            let j = &self.js[i];
            p = p * org64(&j.org);
            if j.ty == "F" {
                continue;
            }
            let a = unit_axis(j.ax);
            p = p * if j.ty == "R" {
                Iso::from_parts(na::Translation3::identity(), na::UnitQuaternion::from_axis_angle(&a, q[k]))
            } else {
                Iso::from_parts(na::Translation3::from(a.into_inner() * q[k]), na::UnitQuaternion::identity())
            };
            k += 1;
        }
        p
    }
    fn ns64(&self, q: &[f64], scale: f64) -> Option<Vec<f64>> {
        let (w, r) = self.sol.ns.as_ref()?;
        Some((0..q.len()).map(|k| scale * w[k] as f64 / 2.0 * (q[k] - r[k] as f64 / UNIT)).collect())
    }
    fn solver(&self, tolp: f64, tola: f64, tries: usize, scale: f64, seen: Arc<Mutex<Vec<Vec<f64>>>>, hint: usize) -> JacobianIkSolver<T> {
        let mult = t::<T>(1.0 / self.sol.den as f64);
        let mut s = JacobianIkSolver::new(t(tolp), t(tola), mult, tries);
        if let Some((w, r)) = self.sol.ns.clone() {
            let w: Vec<T> = w.iter().map(|x| t::<T>(scale * *x as f64 / 2.0)).collect();
            let r: Vec<T> = r.iter().map(|x| t::<T>(*x as f64 / UNIT)).collect();
            if hint % 2 == 0 {
                let g = create_reference_positions_nullspace_function(r, w);
                s.set_nullspace_function(Box::new(move |q: &[T]| {
                    seen.lock().unwrap().push(q.iter().map(|x| f(*x)).collect());
                    g(q)
                }));
            } else {
                s.set_nullspace_function(Box::new(move |q: &[T]| {
                    seen.lock().unwrap().push(q.iter().map(|x| f(*x)).collect());
                    (0..q.len()).map(|k| w[k] * (q[k] - r[k])).collect()
                }));
            }
        } else if hint % 3 == 0 {
            s.set_nullspace_function(Box::new(|q: &[T]| q.iter().map(|x| *x + T::one()).collect()));
            s.clear_nullspace_function();
        }
        s
    }
}

fn constraints(a: &Value) -> (Constraints, [bool; 6]) {
    let c: Vec<bool> = arr(&a["con"]).iter().map(|x| x.as_bool().unwrap()).collect();
    let con = Constraints {
        position_x: c[0],
        position_y: c[1],
        position_z: c[2],
        rotation_x: c[3],
        rotation_y: c[4],
        rotation_z: c[5],
        ignored_joint_names: arr(&a["ign"]).iter().map(|x| st(x).to_string()).collect(),
    };
    (con, [c[0], c[1], c[2], c[3], c[4], c[5]])
}

/// Distances of two poses in the constrained coordinates
fn distance(a: &Iso, b: &Iso, con: &[bool; 6]) -> (f64, f64) {
    let p = a.translation.vector - b.translation.vector;
    let w = b.rotation.rotation_to(&a.rotation).scaled_axis();
    let mut d = (0.0, 0.0);
    for i in 0..3 {
        if con[i] {
            d.0 += p[i] * p[i];
        }
        if con[i + 3] {
            d.1 += w[i] * w[i];
        }
    }
    (d.0.sqrt(), d.1.sqrt())
}

struct Call<'a> {
    what: String,
    target: Iso,
    con: [bool; 6],
    ign: BTreeSet<usize>,
    tolp: f64,
    tola: f64,
    tries: usize,
    q0: &'a [f64],
}

fn kind(r: &Result<(), Error>) -> String {
    match r {
        Ok(()) => "Ok".to_string(),
        Err(e) => format!("{:?}", e),
    }
}

/// What holds for every answer to a well-formed request
fn contract<T: Num>(w: &World<T>, c: &Call, r: &Result<(), Error>, ctx: &mut Ctx) {
    let q = w.bits();
    match r {
        Ok(()) => {
            let (dp, da) = distance(&c.target, &w.fk(&q), &c.con);
            // what rounding makes of it (a joint may end far away)
            let size = 1.0 + c.target.translation.vector.norm() + q.iter().map(|x| x.abs()).sum::<f64>();
            let slack = if T::IS32 { 1e-4 } else { 1e-9 } * size;
            // rotations near a half turn have no unique difference
            let half = (da - std::f64::consts::PI).abs() < 0.05;
            let okp = !(0..3).any(|i| c.con[i]) && c.tolp > 0.0 || dp < c.tolp + slack;
            let oka = !(3..6).any(|i| c.con[i]) && c.tola > 0.0 || da < c.tola + slack || half;
            ctx.check(okp && oka, &["C13"], || format!("{}: Ok with distance {} (allowed {}) and angle {} (allowed {}), positions {:?} from {:?}", c.what, dp, c.tolp, da, c.tola, q, c.q0));
            for (k, i) in w.mov.iter().enumerate() {
                if let Some((lo, hi)) = w.js[*i].lim {
                    let (lo, hi) = (f(w.js[*i].val::<T>(lo)), f(w.js[*i].val::<T>(hi)));
                    ctx.check(lo <= q[k] && q[k] <= hi, &["C13"], || format!("{}: Ok with {} at {}, limits {} {}", c.what, w.js[*i].nm, q[k], lo, hi));
                }
            }
            for k in &c.ign {
                let j = &w.js[w.mov[*k]];
                let inside = j.lim.map(|(lo, hi)| f(j.val::<T>(lo)) <= c.q0[*k] && c.q0[*k] <= f(j.val::<T>(hi))).unwrap_or(true);
                if inside {
                    ctx.check((q[*k] - c.q0[*k]).abs() <= if T::IS32 { 1e-6 } else { 1e-12 }, &["C16"], || {
                        format!("{}: the ignored joint {} moves from {} to {}", c.what, j.nm, c.q0[*k], q[*k])
                    });
                }
            }
        }
        Err(e) => {
            let same = q.iter().zip(c.q0).all(|(a, b)| a.to_bits() == b.to_bits());
            ctx.check(same, &["C14"], || format!("{}: {:?}, but the positions are {:?} and were {:?}", c.what, e, q, c.q0));
            match e {
                Error::NotConvergedError { num_tried, .. } => {
                    ctx.check(*num_tried == c.tries, &["C15"], || format!("{}: tried {} times of {}", c.what, num_tried, c.tries));
                }
                Error::InverseMatrixError => {}
                // assigning positions fails: not a reason of the solve
                Error::OutOfLimitError { .. } | Error::SetToFixedError { .. } | Error::SizeMismatchError { .. } | Error::MimicError { .. } => {
                    ctx.bad(&["C14", "C15"], format!("{}: fails with {:?}", c.what, e));
                }
                _ => ctx.bad(&["C15"], format!("{}: fails with {:?}", c.what, e)),
            }
        }
    }
}

fn solve<T: Num>(w: &World<T>, s: &JacobianIkSolver<T>, target: &Isometry3<T>, con: &Constraints, ctx: &mut Ctx) -> Option<Result<(), Error>> {
    let all = con.ignored_joint_names.is_empty() && con.position_x && con.position_y && con.position_z && con.rotation_x && con.rotation_y && con.rotation_z;
    let r = catch_unwind(AssertUnwindSafe(|| if all { s.solve(&w.arm, target) } else { s.solve_with_constraints(&w.arm, target, con) }));
    match r {
        Ok(r) => Some(r),
        Err(e) => {
            ctx.bad(&["C15"], format!("the solver panics: {} with {:?}", panic_text(e), con));
            None
        }
    }
}
fn cast<T: Num>(i: &Iso) -> Isometry3<T> {
    let v = i.translation.vector;
    let q = i.rotation.into_inner().coords;
    Isometry3::from_parts(
        Translation3::new(t(v[0]), t(v[1]), t(v[2])),
        UnitQuaternion::new_unchecked(na::Quaternion::new(t(q[3]), t(q[0]), t(q[1]), t(q[2]))),
    )
}

fn grid<T: Num>(w: &World<T>, a: &Value, r: &Value, hint: usize, ctx: &mut Ctx) {
    let (con, flags) = constraints(a);
    let base = iso_of(&pose_of(&a["base"]).unwrap());
    let tg: Vec<f64> = arr(&a["tgt"]).iter().map(|x| int(x) as f64 / UNIT).collect();
    let wax = int(&a["wax"]) as usize;
    let mut target = base;
    target.translation.vector += na::Vector3::new(tg[0], tg[1], tg[2]);
    if wax > 0 {
        target.rotation = na::UnitQuaternion::from_axis_angle(&unit_axis(wax), tg[wax + 2]) * target.rotation;
    }
    let mut cast_target = cast::<T>(&target);
    let nf = arr(&a["nf"]);
    if !nf.is_empty() {
        let v = match st(&nf[1]) {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            "ninf" => f64::NEG_INFINITY,
            _ => if T::IS32 { 1e30 } else { 1e200 },
        };
        let c = int(&nf[0]) as usize;
        if c <= 3 {
            target.translation.vector[c - 1] = v;
            cast_target.translation.vector[c - 1] = t(v);
        } else if st(&nf[1]) != "huge" {
            let q = na::UnitQuaternion::new_unchecked(na::Quaternion::new(v, v, v, v));
            target.rotation = q;
            cast_target.rotation = UnitQuaternion::new_unchecked(na::Quaternion::new(t(v), t(v), t(v), t(v)));
        }
    }
    let q0 = w.bits();
    let seen = Arc::new(Mutex::new(vec![]));
    let s = w.solver(w.sol.tolp, w.sol.tola, w.sol.tries, 1.0, seen.clone(), hint);
    let res = match solve(w, &s, &cast_target, &con, ctx) {
        Some(r) => r,
        None => return,
    };
    let q = w.bits();
    let ign: BTreeSet<usize> = con.ignored_joint_names.iter().filter_map(|n| w.mov.iter().position(|i| &w.js[*i].nm == n)).collect();
    let call = Call { what: format!("{:?} to {}", con, target), target, con: flags, ign, tolp: w.sol.tolp, tola: w.sol.tola, tries: w.sol.tries, q0: &q0 };
    let exp = st(&r["k"]);
    ctx.count(&format!("solve {}", exp));
    let kept = |ctx: &mut Ctx| {
        let same = q.iter().zip(&q0).all(|(a, b)| a.to_bits() == b.to_bits());
        ctx.check(same, &["C14"], || format!("{}: {:?}, but the positions are {:?} and were {:?}", call.what, res, q, q0));
    };
    let bad_names: Vec<&str> = arr(&r["bad"]).iter().map(st).collect();
    let is_name = matches!(&res, Err(Error::InvalidJointNameError { joint_name }) if bad_names.contains(&joint_name.as_str()));
    let is_pre = matches!(&res, Err(Error::PreconditionError { dof, necessary_dof }) if *dof as i64 == int(&r["n"]) && *necessary_dof as i64 == int(&r["d"]));
    match exp {
        "name" => {
            kept(ctx);
            ctx.check(is_name, &["C15"], || format!("{}: {}, expected an invalid name of {:?}", call.what, kind(&res), bad_names));
        }
        "pre" => {
            kept(ctx);
            ctx.check(is_pre, &["C15"], || format!("{}: {}, expected a precondition error {} {}", call.what, kind(&res), r["n"], r["d"]));
        }
        "bad" => {
            kept(ctx);
            // the number of available joints is not defined with unknown names
            ctx.check(is_name || matches!(res, Err(Error::PreconditionError { .. })), &["C15"], || format!("{}: {}, expected an invalid name", call.what, kind(&res)));
        }
        "err" => {
            kept(ctx);
            ctx.check(res.is_err(), &["C13", "C15"], || format!("{}: Ok for a target that is not finite", call.what));
        }
        "any" | "none" | "sing" => {
            if nf.is_empty() || res.is_err() {
                contract(w, &call, &res, ctx);
            }
        }
        "nc" | "ok" => {
            contract(w, &call, &res, ctx);
            let its = arr(&r["its"]);
            let real = |x: &Value| -> Vec<f64> { arr(x).iter().zip(&w.mov).map(|(x, i)| int(x) as f64 * w.js[*i].unit()).collect() };
            let mut wrong = vec![];
            if exp == "nc" {
                if res.is_ok() {
                    wrong.push(format!("Ok with positions {:?}, expected not to converge", q));
                } else {
                    ctx.check(matches!(&res, Err(Error::NotConvergedError { .. })), &["C15", "C17"], || format!("{}: {}, expected not to converge", call.what, kind(&res)));
                }
            } else {
                let want = real(&r["q"]);
                if res.is_err() {
                    wrong.push(format!("{}, expected to reach {:?}", kind(&res), want));
                } else if !want.iter().zip(&q).all(|(a, b)| near::<T>(*a, *b)) {
                    wrong.push(format!("Ok at {:?}, expected {:?}", q, want));
                }
            }
            // the iterates that the null-space function has seen
            let seen = seen.lock().unwrap();
            let mut path: Vec<Vec<f64>> = vec![q0.clone()];
            path.extend(its.iter().map(real));
            for (n, s) in seen.iter().enumerate() {
                if !path.iter().any(|p| p.len() == s.len() && p.iter().zip(s).all(|(a, b)| near::<T>(*a, *b))) {
                    wrong.push(format!("iterate {} is {:?}, expected one of {:?}", n, s, path));
                    break;
                }
            }
            if !seen.is_empty() {
                ctx.count("iterates seen");
            }
            if !wrong.is_empty() && int(&r["n"]) > int(&r["d"]) && misled(w, &q0, &cast_target, &con, &flags, &call.ign, its.len(), 1.0, hint, ctx) {
                ctx.count(KNOWN);
            } else {
                ctx.check(wrong.is_empty(), &["C17"], || format!("{}: {} from {:?}, iterates {}", call.what, wrong.join("; "), q0, r["its"]));
            }
        }
        x => panic!("harness: outcome {}", x),
    }
}
const KNOWN: &str = "known: nalgebra 0.26 decomposes the Jacobian wrongly, so an iteration of a redundant arm goes in another direction";

/// Whether a wrong decomposition is met on the way: single iterations from the start on
#[allow(clippy::too_many_arguments)]
fn misled<T: Num>(w: &World<T>, q0: &[f64], target: &Isometry3<T>, con: &Constraints, flags: &[bool; 6], ign: &BTreeSet<usize>, n: usize, scale: f64, hint: usize, ctx: &mut Ctx) -> bool {
    let rows: Vec<usize> = (0..6).filter(|i| flags[*i]).collect();
    let act: Vec<usize> = (0..w.mov.len()).filter(|k| !ign.contains(k)).collect();
    let now: Vec<T> = w.arm.joint_positions();
    w.arm.set_joint_positions_unchecked(&q0.iter().map(|x| t::<T>(*x)).collect::<Vec<T>>());
    let mut found = false;
    for _ in 0..n {
        if !decomposes(w, &w.bits(), &rows, &act) {
            found = true;
            break;
        }
        let s = w.solver(1e9, 1e9, 1, scale, Arc::new(Mutex::new(vec![])), hint);
        match solve(w, &s, target, con, ctx) {
            Some(Ok(())) => {}
            _ => break,
        }
    }
    w.arm.set_joint_positions_unchecked(&now);
    found
}

fn jac_of(r: &Value, flags: &[bool; 6], act: &[usize]) -> na::DMatrix<f64> {
    let rows: Vec<usize> = (0..6).filter(|i| flags[*i]).collect();
    let cols: Vec<Vec<f64>> = arr(&r["jac"])
        .iter()
        .map(|c| {
            let mut v = vec![];
            for (part, s) in [(&c[0], 0.5), (&c[1], 1.0)] {
                let d = int(&part[0]) as f64;
                v.extend(arr(&part[1]).iter().map(|x| int(x) as f64 / d * s));
            }
            v
        })
        .collect();
    na::DMatrix::from_fn(rows.len(), act.len(), |i, j| cols[act[j]][rows[i]])
}

fn free<T: Num>(w: &World<T>, op: &str, a: &Value, r: &Value, hint: usize, ctx: &mut Ctx) {
    let (con, flags) = constraints(a);
    let rows: Vec<usize> = (0..6).filter(|i| flags[*i]).collect();
    let ign: BTreeSet<usize> = arr(&r["ig"]).iter().map(|x| int(x) as usize - 1).collect();
    let act: Vec<usize> = (0..w.mov.len()).filter(|k| !ign.contains(k)).collect();
    let q0 = w.bits();
    let end = iso_of(&pose_of(&r["e"]).unwrap());
    // the model and the harness agree on where the arm is
    let (dp, da) = distance(&end, &w.fk(&q0), &[true; 6]);
    if dp > 1e-4 || da > 1e-4 {
        panic!("harness: end of the arm");
    }
    let seen = Arc::new(Mutex::new(vec![]));
    let square = act.len() == rows.len();
    let mult = 1.0 / w.sol.den as f64;
    if op == "Near" {
        let dq: Vec<f64> = arr(&a["dq"]).iter().map(|x| int(x) as f64 * 0.001).collect();
        let q1: Vec<f64> = (0..q0.len()).map(|k| if ign.contains(&k) { q0[k] } else { q0[k] + dq[k] }).collect();
        let target = w.fk(&q1);
        let jac = jac_of(r, &flags, &act);
        let min = smallest(&jac);
        let inside = w.mov.iter().enumerate().all(|(k, i)| {
            w.js[*i].lim.map(|(lo, hi)| {
                let u = w.js[*i].unit();
                lo as f64 * u + 0.5 < q0[k] && q0[k] < hi as f64 * u - 0.5
            }).unwrap_or(true)
        });
        let tol = if T::IS32 { 5e-3 } else { 1e-3 };
        let s = w.solver(tol, tol, 80, 0.002, seen, hint);
        let res = match solve(w, &s, &cast::<T>(&target), &con, ctx) {
            Some(r) => r,
            None => return,
        };
        let call = Call { what: format!("{:?} near {:?} by {:?}", con, q0, dq), target, con: flags, ign, tolp: tol, tola: tol, tries: 80, q0: &q0 };
        contract(w, &call, &res, ctx);
        if min >= 0.5 && inside {
            ctx.count("near regular");
            if res.is_err() && !square && misled(w, &q0, &cast::<T>(&call.target), &con, &flags, &call.ign, 80, 0.002, hint, ctx) {
                ctx.count(KNOWN);
            } else {
                ctx.check(res.is_ok(), &["C17"], || format!("{}: {} (smallest singular value {})", call.what, kind(&res), min));
            }
        }
        return;
    }
    let dp: Vec<f64> = arr(&a["dp"]).iter().map(|x| int(x) as f64 * 0.5).collect();
    let turn = int(&a["k"]) as f64 * std::f64::consts::FRAC_PI_2;
    let ax = int(&a["i"]) as usize;
    let mut target = end;
    target.translation.vector += na::Vector3::new(dp[0], dp[1], dp[2]);
    target.rotation = na::UnitQuaternion::from_axis_angle(&unit_axis(ax), turn) * target.rotation;
    if op == "Hard" {
        let s = w.solver(w.sol.tolp, w.sol.tola, 60, 1.0, seen, hint);
        let res = match solve(w, &s, &cast::<T>(&target), &con, ctx) {
            Some(r) => r,
            None => return,
        };
        ctx.count(if res.is_ok() { "hard reached" } else { "hard not reached" });
        let call = Call { what: format!("{:?} to {} from {:?}", con, target, q0), target, con: flags, ign, tolp: w.sol.tolp, tola: w.sol.tola, tries: 60, q0: &q0 };
        contract(w, &call, &res, ctx);
        return;
    }
    // one iteration
    let s = w.solver(1e6, 1e6, 1, 1.0, seen, hint);
    let res = match solve(w, &s, &cast::<T>(&target), &con, ctx) {
        Some(r) => r,
        None => return,
    };
    let call = Call { what: format!("one iteration of {:?} to {} from {:?}", con, target, q0), target, con: flags, ign: ign.clone(), tolp: 1e6, tola: 1e6, tries: 1, q0: &q0 };
    contract(w, &call, &res, ctx);
    let jac = jac_of(r, &flags, &act);
    let mut full = [0.0; 6];
    full[..3].copy_from_slice(&dp);
    full[2 + ax] = turn;
    let err = na::DVector::from_iterator(rows.len(), rows.iter().map(|i| full[*i]));
    if smallest(&jac) < 0.15 {
        ctx.count("step irregular");
        return;
    }
    let inv = jac.transpose() * (&jac * jac.transpose()).try_inverse().unwrap();
    let mut d = &inv * &err;
    if !square {
        if let Some(ns) = w.ns64(&q0, 1.0) {
            let sub = na::DVector::from_iterator(act.len(), act.iter().map(|k| ns[*k]));
            d += &sub - &inv * (&jac * &sub);
        }
    }
    let mut want = q0.clone();
    for (n, k) in act.iter().enumerate() {
        want[*k] += mult * d[n];
    }
    for (k, i) in w.mov.iter().enumerate() {
        if let Some((lo, hi)) = w.js[*i].lim {
            let u = w.js[*i].unit();
            want[k] = want[k].max(lo as f64 * u).min(hi as f64 * u);
        }
    }
    ctx.count("step");
    let q = w.bits();
    let tol = if T::IS32 { 1e-2 } else { 1e-6 };
    let right = res.is_ok() && q.iter().zip(&want).all(|(a, b)| (a - b).abs() <= tol * (1.0 + b.abs()));
    if !right && !square && !decomposes(w, &q0, &rows, &act) {
        ctx.count(KNOWN);
        return;
    }
    ctx.check(right, &["C17"], || format!("{}: {} at {:?}, expected {:?}", call.what, kind(&res), q, want));
}
/// Known finding: nalgebra 0.26 gives a wrong singular value decomposition for some
/// matrices of full rank. Whether it does for the Jacobian of the arm at these positions.
fn decomposes<T: Num>(w: &World<T>, q0: &[f64], rows: &[usize], act: &[usize]) -> bool {
    let now: Vec<T> = w.arm.joint_positions();
    let q: Vec<T> = q0.iter().map(|x| t::<T>(*x)).collect();
    w.arm.set_joint_positions_unchecked(&q);
    let j = jacobian(&w.arm);
    let m = na::DMatrix::from_fn(rows.len(), act.len(), |i, k| j[(rows[i], act[k])]);
    w.arm.set_joint_positions_unchecked(&now);
    let tol = (if T::IS32 { 1e-3 } else { 1e-9 }) * (1.0 + f(m.norm()));
    let small = |x: na::DMatrix<T>| {
        let n = f(x.norm());
        n.is_finite() && n < tol
    };
    match (m.clone().svd(true, true).recompose(), m.clone().pseudo_inverse(t(1e-4))) {
        (Ok(again), Ok(x)) => {
            // the conditions that only the pseudo-inverse satisfies
            let (p, s) = (&x * &m, &m * &x);
            small(again - &m) && small(&s * &m - &m) && small(&p * &x - &x) && small(p.transpose() - p) && small(s.transpose() - s)
        }
        _ => false,
    }
}
/// The smallest singular value of a matrix with at least as many columns as rows (rotations of
/// the rows until they are orthogonal; nalgebra's decomposition is not used, see above)
fn smallest(m: &na::DMatrix<f64>) -> f64 {
    let mut r: Vec<Vec<f64>> = (0..m.nrows()).map(|i| m.row(i).iter().cloned().collect()).collect();
    let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
    for _ in 0..60 {
        for i in 0..r.len() {
            for j in (i + 1)..r.len() {
                let (a, b, c) = (dot(&r[i], &r[i]), dot(&r[j], &r[j]), dot(&r[i], &r[j]));
                if c.abs() < 1e-15 {
                    continue;
                }
                let th = 0.5 * (2.0 * c).atan2(a - b);
                let (s, co) = th.sin_cos();
                for k in 0..r[i].len() {
                    let (x, y) = (r[i][k], r[j][k]);
                    r[i][k] = co * x + s * y;
                    r[j][k] = -s * x + co * y;
                }
            }
        }
    }
    r.iter().map(|v| dot(v, v).sqrt()).fold(f64::INFINITY, f64::min)
}

pub fn run(beh: &[Value], is32: bool, pos: &AtomicUsize, ctx: &mut Ctx) {
    if is32 {
        go::<f32>(beh, pos, ctx)
    } else {
        go::<f64>(beh, pos, ctx)
    }
}
fn go<T: Num>(beh: &[Value], pos: &AtomicUsize, ctx: &mut Ctx) {
    let mut world: Option<World<T>> = None;
    for (si, s) in beh.iter().enumerate() {
        let op = st(&s["op"]);
        at(pos, si, op);
        ctx.count(op);
        let a = &s["a"];
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            "Arm" => {
                let w = World::<T>::new(a);
                world = Some(w);
            }
            _ => {
                let w = world.as_mut().expect("harness: arm");
                match op {
                    "Solver" => {
                        let tol = |v: &Value| {
                            let x = int(v);
                            if x < 0 { 0.0 } else { (2 * x + 1) as f64 / 2.0 / UNIT }
                        };
                        let ns = arr(&a[4]);
                        let ints = |v: &Value| -> Vec<i64> { arr(v).iter().map(int).collect() };
                        w.sol = Sol {
                            tolp: tol(&a[0]),
                            tola: tol(&a[1]),
                            den: int(&a[2]),
                            tries: int(&a[3]) as usize,
                            ns: if ns.is_empty() { None } else { Some((ints(&ns[0]), ints(&ns[1]))) },
                        };
                    }
                    "SetQ" => w.set(a),
                    "Solve" => grid(w, a, &s["r"], si, ctx),
                    "Step" | "Near" | "Hard" => free(w, op, a, &s["r"], si, ctx),
                    x => panic!("harness: operation {}", x),
                }
            }
        }));
        if let Err(e) = r {
            let txt = panic_text(e);
            if txt.starts_with("harness:") {
                eprintln!("{}", txt);
                std::process::exit(2);
            }
            ctx.bad(&["C15"], format!("{} panics: {}", op, txt));
        }
        if !ctx.bad.is_empty() {
            return;
        }
    }
}
