//! Records behaviours of the library on real-valued trees, for KTrace.tla to judge.
use crate::common::*;
use k::joint::{Mimic, Range};
use k::link::*;
use k::prelude::*;
use k::*;
use nalgebra as na;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// in millionths
fn mu<T: Num>(x: T) -> i64 {
    let x: f64 = f(x);
    if x.is_nan() {
        return 1_000_000_000;
    }
    (x.max(-999.0).min(999.0) * 1e6).round() as i64
}
fn un<T: Num>(x: i64) -> T {
    t(x as f64 / 1e6)
}
fn pose<T: Num>(p: &Isometry3<T>) -> Value {
    let m = p.rotation.to_rotation_matrix();
    let m = m.matrix();
    let mut v: Vec<i64> = (0..9).map(|k| mu(m[(k / 3, k % 3)])).collect();
    v.extend((0..3).map(|k| mu(p.translation.vector[k])));
    json!(v)
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n as u64) as usize
    }
    fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    /// a multiple of 0.0001 in [-r, r]
    fn real(&mut self, r: f64) -> i64 {
        let n = (r * 1e4) as i64;
        ((self.next() >> 11) % (2 * n as u64 + 1)) as i64 * 100 - n * 100
    }
    fn org(&mut self, r: f64) -> Vec<i64> {
        if self.chance(10) {
            return vec![0; 6];
        }
        let mut v: Vec<i64> = (0..3).map(|_| self.real(3.1)).collect();
        if self.chance(25) {
            v = vec![0; 3];
        }
        v.extend((0..3).map(|_| self.real(r)));
        v
    }
    fn axis(&mut self) -> [i64; 3] {
        loop {
            let a = [self.below(7) as i64 - 3, self.below(7) as i64 - 3, self.below(7) as i64 - 3];
            if a != [0; 3] {
                return a;
            }
        }
    }
}
fn iso<T: Num>(o: &[i64]) -> Isometry3<T> {
    Isometry3::from_parts(Translation3::new(un(o[3]), un(o[4]), un(o[5])), UnitQuaternion::from_euler_angles(un(o[0]), un(o[1]), un(o[2])))
}

struct Lk {
    m: i64,
    i: Vec<i64>,
    v: Vec<Vec<i64>>,
    c: Vec<Vec<i64>>,
}
fn rand_link(r: &mut Rng) -> Lk {
    Lk {
        m: if r.chance(10) { 0 } else { 10_000 * (1 + r.below(30) as i64) },
        i: r.org(1.0),
        v: (0..r.below(3)).map(|_| r.org(1.0)).collect(),
        c: (0..r.below(3)).map(|_| r.org(1.0)).collect(),
    }
}
impl Lk {
    fn json(&self) -> Value {
        json!([{"m": self.m, "i": self.i, "v": self.v, "c": self.c}])
    }
    fn make<T: Num>(&self) -> Link<T> {
        let mut b = LinkBuilder::new().name("l").inertial(Inertial::new(iso(&self.i), un(self.m), na::Matrix3::identity()));
        for (q, o) in self.v.iter().enumerate() {
            b = b.add_visual(Visual::new(format!("v{}", q), iso(o), Geometry::Sphere { radius: un(1_000_000) }, Material { name: String::new(), color: Color { r: t(0.0), g: t(0.0), b: t(0.0), a: t(1.0) }, texture: Texture::default() }));
        }
        for (q, o) in self.c.iter().enumerate() {
            b = b.add_collision(Collision::new(format!("c{}", q), iso(o), Geometry::Sphere { radius: un(1_000_000) }));
        }
        b.finalize()
    }
}

struct World<'a, T: Num> {
    n: Vec<Node<T>>,
    keep: Vec<Chain<T>>,
    out: &'a mut dyn Write,
    cur: String,
    r: Rng,
    /// limits of the nodes, as given
    lim: Vec<Vec<i64>>,
    /// joints are turned far
    far: bool,
    /// no more nodes than this
    cap: usize,
}
/// what a panic in a call is about
fn about(call: &str) -> &'static str {
    match call {
        "set" => "C03",
        "cset" => "C04",
        "org" => "C02",
        "att" => "C07",
        "link" => "C12",
        "copy" => "C06",
        "updt" | "end" => "C01",
        "jac" => "C09",
        "updv" => "C10",
        "com" => "C11",
        "upl" => "C12",
        "ik" => "C15",
        _ => "C18",
    }
}

impl<'a, T: Num> World<'a, T> {
    fn put(&mut self, v: Value) {
        writeln!(self.out, "{}", v).unwrap();
        self.out.flush().unwrap();
    }
    fn index(&self, n: &Node<T>) -> usize {
        self.n.iter().position(|x| x == n).map(|x| x + 1).unwrap_or(0)
    }
    fn pos(&self) -> Vec<i64> {
        self.n.iter().map(|n| n.joint_position().map(mu).unwrap_or(0)).collect()
    }
    fn ns(&self, c: &Chain<T>) -> Vec<usize> {
        c.iter().map(|n| self.index(n)).collect()
    }
    fn tree(&mut self, arm: bool) {
        let big = self.r.chance(25);
        let count = match (arm, big) {
            (true, false) => 2 + self.r.below(6),
            (true, true) => 8 + self.r.below(5),
            (false, false) => 2 + self.r.below(7),
            (false, true) => 10 + self.r.below(14),
        };
        let size = if arm && big { 0.4 } else { 1.0 };
        let mimics = !arm && self.r.chance(60);
        self.far = !mimics && self.r.chance(40);
        self.cap = if big { 46 } else { 16 };
        let mut deep: Vec<usize> = vec![];
        let mut desc = vec![];
        for i in 0..count {
            let ty = if self.r.chance(if arm { 80 } else { 55 }) {
                "R"
            } else if self.r.chance(60) {
                "L"
            } else {
                "F"
            };
            let ax = self.r.axis();
            let org = self.r.org(size);
            let lim: Vec<i64> = if ty == "F" || self.r.chance(70) {
                vec![]
            } else {
                let a = self.r.real(3.0);
                let b = self.r.real(3.0);
                if a == b {
                    vec![]
                } else {
                    vec![a.min(b), a.max(b)]
                }
            };
            let vel = if ty == "F" { 0 } else { self.r.real(2.0) };
            let axis = na::Unit::new_normalize(na::Vector3::new(t::<T>(ax[0] as f64), t(ax[1] as f64), t(ax[2] as f64)));
            let jt = match ty {
                "R" => JointType::Rotational { axis },
                "L" => JointType::Linear { axis },
                _ => JointType::Fixed,
            };
            let mut b = NodeBuilder::new().name(&format!("j{}", i + 1)).joint_type(jt).origin(iso(&org));
            if !lim.is_empty() {
                b = b.limits(Some(Range::new(un(lim[0]), un(lim[1]))));
            }
            let mut j = b.finalize();
            if ty != "F" {
                j.set_joint_velocity(un(vel)).unwrap();
            }
            let node: Node<T> = j.into();
            let mut par = if i == 0 {
                0
            } else if arm || self.r.chance(60) {
                i
            } else {
                1 + self.r.below(i)
            };
            while !arm && par > 0 && deep[par - 1] > 7 {
                par = 1 + self.r.below(i);
            }
            deep.push(if par == 0 { 1 } else { deep[par - 1] + 1 });
            self.lim.push(lim.clone());
            if par > 0 {
                node.set_parent(&self.n[par - 1]);
            }
            let lk = if self.r.chance(if arm { 20 } else { 60 }) { Some(rand_link(&mut self.r)) } else { None };
            node.set_link(lk.as_ref().map(|l| l.make()));
            self.n.push(node);
            desc.push(json!({"ty": ty, "ax": ax, "org": org, "par": par, "lim": lim, "vel": vel, "mp": 0, "mc": [0, 0],
                             "lk": lk.map(|l| l.json()).unwrap_or(json!([]))}));
        }
        // mimics of earlier joints, without limits
        if mimics {
            for i in 1..count {
                let free = |d: &Value| d["ty"] != json!("F") && d["lim"] == json!([]);
                if free(&desc[i]) && self.r.chance(20) {
                    let s = self.r.below(i);
                    if desc[s]["ty"] != json!("F") {
                        let mc = [250_000 * (self.r.below(13) as i64 - 6), self.r.real(1.0)];
                        self.n[i].set_mimic_parent(&self.n[s], Mimic::new(un(mc[0]), un(mc[1])));
                        desc[i]["mp"] = json!(s + 1);
                        desc[i]["mc"] = json!(mc);
                    }
                }
            }
        }
        self.put(json!({"op": "tree", "n": desc}));
    }
    /// a position for a joint: of any size, tiny, far, or at one of its limits
    fn q(&mut self, i: usize, r: f64) -> i64 {
        let turns = match self.n[i].joint().joint_type {
            JointType::Rotational { .. } => true,
            _ => false,
        };
        let lim = self.lim[i].clone();
        if !lim.is_empty() && self.r.chance(15) {
            return lim[self.r.below(2)] + [-100, -1, 0, 0, 1, 100][self.r.below(6)];
        }
        if self.r.chance(8) {
            return self.r.below(2001) as i64 - 1000;
        }
        if turns && self.far && self.r.chance(30) {
            return self.r.real(30.0);
        }
        self.r.real(r)
    }
    fn top(&self, i: usize) -> Node<T> {
        let mut n = self.n[i].clone();
        while let Some(p) = n.parent() {
            n = p;
        }
        n
    }
    fn chain(&mut self) -> Chain<T> {
        let i = self.r.below(self.n.len());
        match self.r.below(5) {
            0 | 1 => Chain::from_root(self.top(i)),
            2 => Chain::from_end(&self.n[i]),
            3 => Chain::from_root(self.n[i].clone()),
            _ => {
                let u = self.up(i);
                Chain::from_end_to_root(&self.n[i], &u)
            }
        }
    }
    fn up(&mut self, i: usize) -> Node<T> {
        let mut up: Vec<Node<T>> = vec![self.n[i].clone()];
        while let Some(p) = up.last().unwrap().parent() {
            up.push(p);
        }
        let k = self.r.below(up.len());
        up[k].clone()
    }
    fn serial(&mut self) -> SerialChain<T> {
        let i = self.r.below(self.n.len());
        if self.r.chance(60) {
            SerialChain::from_end(&self.n[i])
        } else {
            let u = self.up(i);
            SerialChain::from_end_to_root(&self.n[i], &u)
        }
    }
    fn step(&mut self, ops: &[&'static str]) {
        let op = ops[self.r.below(ops.len())];
        // in case the call does not return
        std::fs::write(&self.cur, format!("{} {}", about(op), op)).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| self.call(op)));
        if let Err(e) = r {
            let _ = panic_text(e);
            self.put(json!({"op": "panic", "call": op, "prop": about(op)}));
        }
    }
    fn call(&mut self, op: &str) {
        match op {
            "set" => {
                let i = self.r.below(self.n.len());
                let q = self.q(i, 3.6);
                let how = ["checked", "checked", "checked", "clamped", "unchecked"][self.r.below(5)];
                let old = self.n[i].joint_position();
                let ok = match how {
                    "checked" => self.n[i].set_joint_position(un(q)).is_ok(),
                    "clamped" => {
                        self.n[i].set_joint_position_clamped(un(q));
                        true
                    }
                    _ => {
                        self.n[i].set_joint_position_unchecked(un(q));
                        true
                    }
                };
                let stale = self.n[i].world_transform().is_some() && old != self.n[i].joint_position();
                let pos = self.pos();
                self.put(json!({"op": "set", "i": i + 1, "q": q, "how": how, "ok": ok as i64, "pos": pos, "stale": stale as i64}));
            }
            "cset" => {
                let c = self.chain();
                let mv: Vec<usize> = self.ns(&c).into_iter().filter(|i| self.n[i - 1].joint().is_movable()).collect();
                let r = if self.r.chance(33) { 3.6 } else { 1.2 };
                let mut q: Vec<i64> = mv.iter().map(|i| self.q(i - 1, r)).collect();
                q.resize(c.dof(), 0);
                let v: Vec<T> = q.iter().map(|x| un(*x)).collect();
                let how = ["checked", "clamped", "unchecked"][self.r.below(3)];
                let ok = match how {
                    "checked" => c.set_joint_positions(&v).is_ok(),
                    "clamped" => {
                        c.set_joint_positions_clamped(&v);
                        true
                    }
                    _ => {
                        c.set_joint_positions_unchecked(&v);
                        true
                    }
                };
                let (ns, pos) = (self.ns(&c), self.pos());
                self.put(json!({"op": "cset", "ns": ns, "q": q, "how": how, "ok": ok as i64, "pos": pos}));
            }
            "org" => {
                let i = self.r.below(self.n.len());
                let o = self.r.org(1.0);
                self.n[i].set_origin(iso(&o));
                self.put(json!({"op": "org", "i": i + 1, "o": o}));
            }
            "att" => {
                let (i, p) = (self.r.below(self.n.len()), self.r.below(self.n.len()));
                // not below itself, and no deep trees; roots stay roots, so that whole trees can be copied
                if self.n[p].iter_ancestors().any(|x| x == self.n[i]) || self.n[i].parent().is_none() || self.n[p].iter_ancestors().count() > 6 {
                    return;
                }
                self.n[i].set_parent(&self.n[p]);
                self.put(json!({"op": "att", "i": i + 1, "p": p + 1}));
            }
            "link" => {
                let i = self.r.below(self.n.len());
                let lk = if self.r.chance(80) { Some(rand_link(&mut self.r)) } else { None };
                self.n[i].set_link(lk.as_ref().map(|l| l.make()));
                self.put(json!({"op": "link", "i": i + 1, "lk": lk.map(|l| l.json()).unwrap_or(json!([]))}));
            }
            "copy" => {
                let i = self.r.below(self.n.len());
                let c = Chain::from_root(self.top(i));
                if self.n.len() + c.iter().count() > self.cap {
                    return;
                }
                let ns = self.ns(&c);
                let d = c.clone();
                for (n, i) in d.iter().zip(self.ns(&c)) {
                    self.n.push(n.clone());
                    self.lim.push(self.lim[i - 1].clone());
                }
                self.keep.push(d);
                let pos = self.pos();
                self.put(json!({"op": "copy", "ns": ns, "pos": pos}));
            }
            "updt" => {
                let c = self.chain();
                let p: Vec<Value> = c.update_transforms().iter().map(pose).collect();
                let cached: Vec<Value> = c.iter().map(|n| n.world_transform().map(|p| pose(&p)).unwrap_or(json!([]))).collect();
                let ns = self.ns(&c);
                self.put(json!({"op": "updt", "ns": ns, "p": p, "c": cached}));
            }
            "end" => {
                let c = self.serial();
                let (ns, p) = (self.ns(&c), pose(&c.end_transform()));
                self.put(json!({"op": "end", "ns": ns, "p": p}));
            }
            "jac" => {
                let c = self.serial();
                let j = jacobian(&c);
                let cols: Vec<Vec<i64>> = (0..j.ncols()).map(|x| (0..j.nrows()).map(|y| mu(j[(y, x)])).collect()).collect();
                let ns = self.ns(&c);
                self.put(json!({"op": "jac", "ns": ns, "c": cols}));
            }
            "updv" => {
                let i = self.r.below(self.n.len());
                let c = if self.r.chance(60) { Chain::from_root(self.top(i)) } else { Chain::from_end(&self.n[i]) };
                let v: Vec<Vec<i64>> = c.update_velocities().iter().map(|v| (0..3).map(|k| mu(v.translation[k])).chain((0..3).map(|k| mu(v.rotation[k]))).collect()).collect();
                let ns = self.ns(&c);
                self.put(json!({"op": "updv", "ns": ns, "v": v}));
            }
            "com" => {
                let c = self.chain();
                let m: f64 = c.iter().map(|n| n.link().as_ref().map(|l| f(l.inertial.mass)).unwrap_or(0.0)).sum();
                if m == 0.0 {
                    return;
                }
                let p = center_of_mass(&c);
                let ns = self.ns(&c);
                self.put(json!({"op": "com", "ns": ns, "p": [mu(p[0]), mu(p[1]), mu(p[2])]}));
            }
            "upl" => {
                let c = self.chain();
                c.update_link_transforms();
                let l: Vec<Vec<Value>> = c
                    .iter()
                    .map(|n| match n.link().as_ref() {
                        None => vec![],
                        Some(l) => {
                            let o = |p: &Option<Isometry3<T>>| p.as_ref().map(pose).unwrap_or(json!([]));
                            let mut x = vec![o(l.inertial.world_transform())];
                            x.extend(l.visuals.iter().map(|v| o(v.world_transform())));
                            x.extend(l.collisions.iter().map(|v| o(v.world_transform())));
                            x
                        }
                    })
                    .collect();
                let ns = self.ns(&c);
                self.put(json!({"op": "upl", "ns": ns, "l": l}));
            }
            "ik" => self.ik(),
            _ => panic!("harness: {}", op),
        }
    }
    fn ik(&mut self) {
        let arm = self.serial();
        let ns = self.ns(&arm);
        let mv: Vec<usize> = ns.iter().cloned().filter(|i| self.n[i - 1].joint().is_movable()).collect();
        let mut ign: Vec<usize> = mv.iter().cloned().filter(|_| self.r.chance(15)).collect();
        if self.r.chance(30) {
            ign.reverse();
        }
        let free = mv.len() - ign.len();
        let once = self.r.chance(40);
        let mut con = [false; 6];
        let want = if once { free.min(6) } else { self.r.below(free.min(6) + 1).max((free > 0) as usize) };
        let mut left = if self.r.chance(8) { 6 } else { want };
        let mut guard = 0;
        while left > 0 && guard < 200 {
            let top = if self.r.chance(50) { 3 } else { 6 };
            let k = self.r.below(top);
            guard += 1;
            if !con[k] {
                con[k] = true;
                left -= 1;
            }
        }
        let need = con.iter().filter(|c| **c).count();
        if need == 0 {
            return;
        }
        let once = once && need == free;
        // where to go
        let orig = arm.joint_positions();
        let range: Vec<Option<Range<T>>> = arm.iter_joints().map(|j| j.limits.clone()).collect();
        let goal: Vec<T> = orig
            .iter()
            .zip(&range)
            .map(|(q, l)| {
                let far = un::<T>(self.r.real(if once { 0.02 } else { 0.6 }));
                let x = *q + far;
                match l {
                    Some(l) if self.r.chance(80) => l.clamp(x),
                    _ => x,
                }
            })
            .collect();
        arm.set_joint_positions_unchecked(&goal);
        let mut target = arm.end_transform();
        arm.set_joint_positions_unchecked(&orig);
        if !once && self.r.chance(15) {
            target.translation.vector[0] += un(self.r.real(4.0));
        }
        let tries = if once { 1 } else { [0, 1, 5, 30, 100][self.r.below(5)] };
        let tol = if once { [1000.0, 1000.0] } else { [[0.001, 0.005], [0.01, 0.01], [0.05, 0.1]][self.r.below(3)] };
        let mult = [250_000, 500_000, 1_000_000][self.r.below(3)];
        let mut s = JacobianIkSolver::<T>::new(t(tol[0]), t(tol[1]), un(mult), tries);
        if !once && self.r.chance(15) {
            s.set_nullspace_function(Box::new(create_reference_positions_nullspace_function(vec![t::<T>(0.1); mv.len()], vec![t::<T>(0.05); mv.len()])));
        }
        let c = Constraints {
            position_x: con[0],
            position_y: con[1],
            position_z: con[2],
            rotation_x: con[3],
            rotation_y: con[4],
            rotation_z: con[5],
            ignored_joint_names: ign.iter().map(|i| format!("j{}", (i - 1) % 1000 + 1)).collect(),
        };
        // (names of clones are those of the originals)
        let c = Constraints { ignored_joint_names: ign.iter().map(|i| self.n[i - 1].joint().name.clone()).collect(), ..c };
        let bits = |a: &SerialChain<T>| a.joint_positions();
        let before = bits(&arm);
        let re = s.solve_with_constraints(&arm, &target, &c);
        let same = before == bits(&arm);
        // near a singularity a step can be of any length: too long for the records
        if bits(&arm).iter().any(|q| !(f(*q).abs() < 900.0)) {
            arm.set_joint_positions_unchecked(&orig);
            return;
        }
        let (out, num) = match &re {
            Ok(()) => ("ok", vec![]),
            Err(k::Error::PreconditionError { dof, necessary_dof }) => ("precondition", vec![*dof, *necessary_dof]),
            Err(k::Error::NotConvergedError { num_tried, .. }) => ("notconverged", vec![*num_tried]),
            Err(k::Error::InverseMatrixError) => ("inverse", vec![]),
            Err(_) => ("other", vec![]),
        };
        let pos = self.pos();
        let tol = if once { vec![-1, -1] } else { vec![mu(t::<T>(tol[0])), mu(t::<T>(tol[1]))] };
        self.put(json!({"op": "ik", "ns": ns, "ign": ign, "con": con, "tol": tol, "target": pose(&target), "out": out, "num": num, "tries": tries, "mult": mult,
            "once": once as i64, "slack": 600, "same": same as i64, "pos": pos}));
    }
}

fn txt(v: &[i64]) -> String {
    v.iter().map(|x| format!("{}", *x as f64 / 1e6)).collect::<Vec<_>>().join(" ")
}
fn origin(o: &[i64]) -> String {
    format!("<origin rpy=\"{}\" xyz=\"{}\"/>", txt(&o[..3]), txt(&o[3..]))
}
fn urdf<T: Num>(r: &mut Rng, out: &mut dyn Write) {
    let count = 1 + r.below(4);
    let mut x = String::from("<robot name=\"r\"><link name=\"l0\"/>");
    let mut want = vec![];
    for i in 1..=count {
        let kind = ["revolute", "continuous", "prismatic", "fixed", "revolute"][r.below(5)];
        let ty = match kind {
            "fixed" => "F",
            "prismatic" => "L",
            _ => "R",
        };
        let (ax, org, iorg) = (r.axis(), r.org(2.0), r.org(2.0));
        let mass = 1000 * r.below(5000) as i64;
        let s: Vec<i64> = (0..6).map(|_| 1000 * (r.below(4000) as i64 - 2000)).collect();
        let v: Vec<Vec<i64>> = (0..r.below(3)).map(|_| r.org(2.0)).collect();
        let c: Vec<Vec<i64>> = (0..r.below(3)).map(|_| r.org(2.0)).collect();
        let (a, b) = (r.real(3.0), r.real(3.0));
        let lim = if kind == "continuous" || kind == "fixed" || a == b { vec![] } else { vec![a.min(b), a.max(b)] };
        x += &format!("<link name=\"l{}\"><inertial>{}<mass value=\"{}\"/><inertia ixx=\"{}\" ixy=\"{}\" ixz=\"{}\" iyy=\"{}\" iyz=\"{}\" izz=\"{}\"/></inertial>",
            i, origin(&iorg), mass as f64 / 1e6, s[0] as f64 / 1e6, s[1] as f64 / 1e6, s[2] as f64 / 1e6, s[3] as f64 / 1e6, s[4] as f64 / 1e6, s[5] as f64 / 1e6);
        for o in &v {
            x += &format!("<visual>{}<geometry><sphere radius=\"1\"/></geometry></visual>", origin(o));
        }
        for o in &c {
            x += &format!("<collision>{}<geometry><sphere radius=\"1\"/></geometry></collision>", origin(o));
        }
        x += "</link>";
        // axes of any length
        let len = [1.0, 0.5, 3.0][r.below(3)];
        x += &format!("<joint name=\"j{}\" type=\"{}\">{}<parent link=\"l{}\"/><child link=\"l{}\"/><axis xyz=\"{} {} {}\"/>", i, kind, origin(&org), r.below(i), i,
            ax[0] as f64 * len, ax[1] as f64 * len, ax[2] as f64 * len);
        if lim.len() == 2 {
            x += &format!("<limit lower=\"{}\" upper=\"{}\" effort=\"1\" velocity=\"1\"/>", lim[0] as f64 / 1e6, lim[1] as f64 / 1e6);
        } else {
            x += "<limit lower=\"0\" upper=\"0\" effort=\"1\" velocity=\"1\"/>";
        }
        x += "</joint>";
        want.push(json!({"ty": ty, "ax": ax, "org": org, "lim": lim, "iorg": iorg, "mass": mass, "v": v, "c": c,
            "inertia": [s[0], s[1], s[2], s[1], s[3], s[4], s[2], s[4], s[5]]}));
    }
    x += "</robot>";
    let got = catch_unwind(AssertUnwindSafe(|| {
        let robot = urdf_rs::read_from_string(&x).expect("harness: document");
        let chain: Chain<T> = (&robot).into();
        (1..=count)
            .map(|i| {
                let n = chain.find(&format!("j{}", i)).expect("node");
                let j = n.joint();
                let (ty, ax) = match &j.joint_type {
                    JointType::Fixed => ("F", vec![]),
                    JointType::Rotational { axis } => ("R", axis.iter().map(|a| mu(*a)).collect()),
                    JointType::Linear { axis } => ("L", axis.iter().map(|a| mu(*a)).collect()),
                };
                let org = pose(j.origin());
                let lim: Vec<i64> = j.limits.as_ref().map(|l| vec![mu(l.min), mu(l.max)]).unwrap_or_default();
                drop(j);
                let l = n.link();
                let l = l.as_ref().expect("link");
                let inertia: Vec<i64> = (0..9).map(|k| mu(l.inertial.inertia[(k / 3, k % 3)])).collect();
                json!({"ty": ty, "ax": ax, "org": org, "lim": lim, "iorg": pose(l.inertial.origin()), "mass": mu(l.inertial.mass), "inertia": inertia,
                    "v": l.visuals.iter().map(|v| pose(v.origin())).collect::<Vec<_>>(), "c": l.collisions.iter().map(|v| pose(v.origin())).collect::<Vec<_>>()})
            })
            .collect::<Vec<Value>>()
    }));
    match got {
        Ok(g) => writeln!(out, "{}", json!({"op": "urdf", "want": want, "got": g})).unwrap(),
        Err(_) => writeln!(out, "{}", json!({"op": "panic", "call": "loading", "prop": "C18"})).unwrap(),
    }
}

fn record<T: Num>(seed: u64, focus: &[&'static str], steps: usize, out: &mut dyn Write, cur: String) {
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    for _ in 0..5 {
        r.next();
    }
    if focus.contains(&"urdf") {
        std::fs::write(&cur, "C18 loading").unwrap();
        for _ in 0..steps / 4 + 1 {
            urdf::<T>(&mut r, out);
        }
        return;
    }
    let arm = focus.contains(&"ik") || (focus.contains(&"jac") && r.chance(70));
    let mut w = World::<T> { n: vec![], keep: vec![], out, cur, r, lim: vec![], far: false, cap: 16 };
    w.tree(arm);
    for _ in 0..steps {
        w.step(focus);
    }
}

/// kh trace --seed S --trees N --steps L --ops a,b,.. --out FILE [--only TREE]
pub fn drive(args: &[String]) -> i32 {
    let opt = |name: &str| -> Option<String> { args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned() };
    let num = |name: &str, d: u64| opt(name).and_then(|s| s.parse().ok()).unwrap_or(d);
    let ops: Vec<&'static str> = opt("--ops").unwrap_or_default().split(',').map(|s| &*Box::leak(s.to_string().into_boxed_str())).collect();
    let (seed, trees, steps) = (num("--seed", 1), num("--trees", 10), num("--steps", 20) as usize);
    let mut out = std::io::BufWriter::new(std::fs::File::create(opt("--out").expect("--out")).unwrap());
    let only = opt("--only").and_then(|s| s.parse::<u64>().ok());
    for k in 0..trees {
        if only.map(|o| o != k).unwrap_or(false) {
            continue;
        }
        let s = seed * 1_000_003 + k + 1;
        writeln!(out, "{}", json!({"op": "mark", "k": k})).unwrap();
        let cur = format!("{}.cur", opt("--out").unwrap());
        if k % 4 == 3 {
            record::<f32>(s, &ops, steps, &mut out, cur);
        } else {
            record::<f64>(s, &ops, steps, &mut out, cur);
        }
    }
    out.flush().unwrap();
    0
}
