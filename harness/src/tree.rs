//! KTree.tla against k::Chain, k::Node and friends.
use crate::common::*;
use k::joint::{Mimic, Range, Velocity};
use k::link::*;
use k::*;
use nalgebra as na;
use serde_json::Value;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

const INF: i64 = 9999;
const NAN: i64 = 8888;

#[derive(Clone, Default)]
struct Static {
    nm: String,
    ty: String,
    ax: usize,
    lim: Option<(i64, i64)>,
    vel: i64,
    mc: Option<(i64, i64)>,
    grp: i64,
}
#[derive(Clone, Default)]
struct Exp {
    st: Static,
    par: usize,
    kids: Vec<usize>,
    mp: usize,
    pos: Option<i64>,
    tf: String,
    vl: String,
    org: Value,
    lk: Value,
    ls: Value,
    dead: bool,
    // values of the caches, known while the status says they are of the current state
    tfv: Option<P>,
    vlv: Option<(V3, V3)>,
    lsv: Option<(P, Vec<P>, Vec<P>)>,
}
type V3 = [f64; 3];
#[derive(Clone, Debug)]
pub struct P {
    pub r: [f64; 9],
    pub t: V3,
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn ids(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(us).collect()
}
/// [rd, [9], td, [3]], lengths in half units
pub fn pose_of(v: &Value) -> Option<P> {
    let a = v.as_array()?;
    if a.is_empty() {
        return None;
    }
    let rd = a[0].as_i64().unwrap() as f64;
    let r = ints(&a[1]);
    let td = a[2].as_i64().unwrap() as f64;
    let tr = ints(&a[3]);
    let mut p = P { r: [0.0; 9], t: [0.0; 3] };
    for i in 0..9 {
        p.r[i] = r[i] as f64 / rd;
    }
    for i in 0..3 {
        p.t[i] = tr[i] as f64 / td * 0.5;
    }
    Some(p)
}
fn vec_of(v: &Value, scale: f64) -> Option<V3> {
    let a = v.as_array()?;
    if a.is_empty() {
        return None;
    }
    let d = a[0].as_i64().unwrap() as f64;
    let x = ints(&a[1]);
    Some([x[0] as f64 / d * scale, x[1] as f64 / d * scale, x[2] as f64 / d * scale])
}
pub fn near<T: Num>(a: f64, b: f64) -> bool {
    (a - b).abs() <= T::TOL * (1.0 + a.abs().max(b.abs()))
}
pub fn iso_near<T: Num>(iso: &Isometry3<T>, p: &P) -> bool {
    let m = iso.rotation.to_rotation_matrix();
    let m = m.matrix();
    (0..3).all(|r| (0..3).all(|c| near::<T>(f(m[(r, c)]), p.r[3 * r + c])))
        && (0..3).all(|i| near::<T>(f(iso.translation.vector[i]), p.t[i]))
}
pub fn iso_txt<T: Num>(iso: &Isometry3<T>) -> String {
    let m = iso.rotation.to_rotation_matrix();
    let m = m.matrix();
    let r: Vec<String> = (0..9).map(|i| format!("{:.4}", f(m[(i / 3, i % 3)]))).collect();
    let tr: Vec<String> = (0..3).map(|i| format!("{:.4}", f(iso.translation.vector[i]))).collect();
    format!("R[{}] t[{}]", r.join(","), tr.join(","))
}
fn v3_near<T: Num>(v: &na::Vector3<T>, e: &V3) -> bool {
    (0..3).all(|i| near::<T>(f(v[i]), e[i]))
}

pub const AXES: [[f64; 3]; 10] = [
    [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0],
    [1.0, 2.0, 2.0], [2.0, -1.0, 2.0], [3.0, 4.0, 0.0], [0.0, -4.0, 3.0],
];
pub const QUATS: [[f64; 4]; 14] = [
    [1.0, 0.0, 0.0, 0.0], [1.0, 1.0, 0.0, 0.0], [1.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 1.0], [1.0, 0.0, 0.0, -1.0],
    [1.0, -1.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 1.0], [1.0, 1.0, 1.0, 1.0], [1.0, -1.0, 1.0, 1.0],
    [2.0, 1.0, 0.0, 0.0], [1.0, 2.0, 2.0, 0.0], [1.0, 1.0, 1.0, 0.0], [2.0, 0.0, -1.0, 0.0],
];
pub fn axis<T: Num>(i: usize) -> na::Unit<na::Vector3<T>> {
    let a = AXES[i - 1];
    let v = na::Vector3::new(t::<T>(a[0]), t::<T>(a[1]), t::<T>(a[2]));
    if i <= 6 {
        na::Unit::new_unchecked(v)
    } else {
        na::Unit::new_normalize(v)
    }
}
pub fn org<T: Num>(v: &Value) -> Isometry3<T> {
    let o = ints(v);
    let q = QUATS[o[0] as usize - 1];
    Isometry3::from_parts(
        Translation3::new(t(o[1] as f64 * 0.5), t(o[2] as f64 * 0.5), t(o[3] as f64 * 0.5)),
        UnitQuaternion::from_quaternion(na::Quaternion::new(t(q[0]), t(q[1]), t(q[2]), t(q[3]))),
    )
}
/// Expected value of an origin, from the integer quaternion
fn org_pose(v: &Value) -> P {
    let o = ints(v);
    let [w, x, y, z] = QUATS[o[0] as usize - 1];
    let n = w * w + x * x + y * y + z * z;
    P {
        r: [
            (w * w + x * x - y * y - z * z) / n, 2.0 * (x * y - w * z) / n, 2.0 * (x * z + w * y) / n,
            2.0 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2.0 * (y * z - w * x) / n,
            2.0 * (x * z - w * y) / n, 2.0 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n,
        ],
        t: [o[1] as f64 * 0.5, o[2] as f64 * 0.5, o[3] as f64 * 0.5],
    }
}

struct World<T: Num> {
    exact: bool,
    slack: bool,
    node: Vec<Option<Node<T>>>,
    exp: Vec<Exp>,
    chain: Vec<Option<Chain<T>>>,
    chns: Vec<Vec<usize>>,
}

impl<T: Num> World<T> {
    fn unit(&self, ty: &str) -> f64 {
        if !self.exact {
            0.25
        } else if ty == "R" {
            std::f64::consts::FRAC_PI_2
        } else {
            0.5
        }
    }
    fn val(&self, ty: &str, v: i64) -> T {
        if v == INF {
            t(f64::INFINITY)
        } else if v == -INF {
            t(f64::NEG_INFINITY)
        } else if v == NAN {
            t(f64::NAN)
        } else {
            t::<T>(v as f64) * t::<T>(self.unit(ty))
        }
    }
    /// Limits; a little wider than the model's if positions are sums of inexact numbers
    fn limits(&self, s: &Static) -> Option<Range<T>> {
        let (lo, hi) = s.lim?;
        let eps = if self.slack { T::TOL * 0.01 } else { 0.0 };
        Some(Range::new(self.val(&s.ty, lo) - t(eps), self.val(&s.ty, hi) + t(eps)))
    }
    fn pos_eq(&self, a: f64, ty: &str, v: i64) -> bool {
        let e = f(self.val(ty, v));
        if v == NAN {
            a.is_nan()
        } else if self.exact {
            a == e || near::<T>(a, e)
        } else {
            a == e
        }
    }
    fn n(&self, i: usize) -> &Node<T> {
        self.node[i].as_ref().expect("harness: dead node")
    }
    fn alive(&self) -> Vec<usize> {
        (1..self.node.len()).filter(|i| self.node[*i].is_some()).collect()
    }
    fn jtype(s: &Static) -> JointType<T> {
        match s.ty.as_str() {
            "R" => JointType::Rotational { axis: axis(s.ax) },
            "L" => JointType::Linear { axis: axis(s.ax) },
            _ => JointType::Fixed,
        }
    }
    fn mimic(&self, ty: &str, m: (i64, i64)) -> Mimic<T> {
        Mimic::new(t(m.0 as f64), self.val(ty, m.1))
    }
    fn link(&self, lk: &Value) -> Option<Link<T>> {
        let a = lk.as_array().unwrap();
        if a.is_empty() {
            return None;
        }
        let l = &a[0];
        let mut inertial = Inertial::from_mass(t(l["mass"].as_i64().unwrap() as f64));
        inertial.set_origin(org(&l["i"]));
        let mut b = LinkBuilder::new().name(l["nm"].as_str().unwrap()).inertial(inertial);
        for (i, o) in l["v"].as_array().unwrap().iter().enumerate() {
            b = b.add_visual(Visual::new(format!("v{}", i), org(o), Geometry::Sphere { radius: t(0.5) }, Material { name: "m".to_string(), color: Color { r: t(0.5), g: t(0.5), b: t(0.5), a: t(1.0) }, texture: Texture::default() }));
        }
        for (i, o) in l["c"].as_array().unwrap().iter().enumerate() {
            b = b.add_collision(Collision::new(format!("c{}", i), org(o), Geometry::Sphere { radius: t(0.5) }));
        }
        Some(b.finalize())
    }
    fn make(&self, i: usize, e: &Exp) -> Node<T> {
        let s = &e.st;
        let lim = self.limits(s);
        let mut j = if i % 2 == 0 {
            NodeBuilder::new().name(&s.nm).joint_type(Self::jtype(s)).limits(lim).origin(org(&e.org)).finalize()
        } else {
            let mut j = Joint::new(&s.nm, Self::jtype(s));
            j.limits = lim;
            j.set_origin(org(&e.org));
            j
        };
        if s.ty != "F" {
            j.set_joint_velocity(t(s.vel as f64)).unwrap();
            // as the model has it; it may be outside of the limits
            if e.pos != Some(0) {
                j.set_joint_position_unchecked(self.val(&s.ty, e.pos.unwrap()));
            }
        }
        let n = Node::new(j);
        if let Some(l) = self.link(&e.lk) {
            n.set_link(Some(l));
        }
        n
    }
}

fn parse_static(v: &Value) -> Static {
    let lim = ints(&v["lim"]);
    let mc = ints(&v["mc"]);
    Static {
        nm: v["nm"].as_str().unwrap().to_string(),
        ty: v["ty"].as_str().unwrap().to_string(),
        ax: us(&v["ax"]),
        lim: if lim.is_empty() { None } else { Some((lim[0], lim[1])) },
        vel: v["vel"].as_i64().unwrap(),
        mc: if mc.is_empty() { None } else { Some((mc[0], mc[1])) },
        grp: v["grp"].as_i64().unwrap(),
    }
}
fn parse_out(e: &mut Exp, v: &Value) {
    let a = v.as_array().unwrap();
    e.par = us(&a[0]);
    e.kids = ids(&a[1]);
    e.mp = us(&a[2]);
    e.pos = a[3].as_i64();
    e.tf = a[4].as_str().unwrap().to_string();
    e.vl = a[5].as_str().unwrap().to_string();
    e.org = a[6].clone();
    e.lk = a[7].clone();
    e.ls = a[8].clone();
    e.dead = us(&a[9]) == 1;
    if e.tf != "f" && e.tf != "l" {
        e.tfv = None;
    }
    if e.vl != "f" && e.vl != "l" {
        e.vlv = None;
    }
}

pub fn run(beh: &[Value], is32: bool, pos: &AtomicUsize, ctx: &mut Ctx) {
    if is32 {
        run_t::<f32>(beh, pos, ctx)
    } else {
        run_t::<f64>(beh, pos, ctx)
    }
}

fn run_t<T: Num>(beh: &[Value], pos: &AtomicUsize, ctx: &mut Ctx) {
    let mut w = World::<T> {
        exact: beh[0]["a"][0].as_bool().unwrap_or(true),
        slack: beh[0]["a"][0].as_bool().unwrap_or(true)
            && beh.iter().any(|s| s["op"] == "SetMimic" || s["nn"].as_array().map(|v| v.iter().any(|x| parse_static(&x[1]).mc.is_some())).unwrap_or(false)),
        node: vec![None],
        exp: vec![Exp::default()],
        chain: vec![None],
        chns: vec![vec![]],
    };
    // wrong results of functions that change nothing do not hide what comes after them
    let mut results: Vec<Bad> = vec![];
    let pure = |b: &Bad| b.props.len() == 1 && b.props.iter().all(|p| ["C09", "C11", "C23"].contains(p));
    for (si, s) in beh.iter().enumerate() {
        let op = s["op"].as_str().unwrap().to_string();
        at(pos, si, &op);
        ctx.count(&op);
        let r = catch_unwind(AssertUnwindSafe(|| step(&mut w, s, &op, ctx)));
        let panicked = r.is_err();
        if let Err(e) = r {
            let txt = panic_text(e);
            if txt.starts_with("harness:") {
                eprintln!("{} in {}", txt, s);
                std::process::exit(2);
            }
            ctx.bad(&op_props(&op), format!("{} {} panics: {}", op, s["a"], txt));
        }
        if !panicked && ctx.bad.iter().all(|b| pure(b)) {
            if results.len() < 20 {
                results.extend(ctx.bad.iter().map(|b| Bad { props: b.props.clone(), what: format!("(step {}) {}", si, b.what) }));
            }
            ctx.bad.clear();
        }
        if !ctx.bad.is_empty() || ctx.stop.is_some() {
            break;
        }
    }
    ctx.bad.extend(results);
}

#[derive(Clone, Copy, PartialEq)]
enum Target {
    None,
    Node(usize),
    Chain(usize),
}

fn err_matches<T: Num>(w: &World<T>, r: &Result<(), Error>, e: &Value) -> Result<(), String> {
    let kind = e[0].as_str().unwrap();
    let fail = || Err(format!("returned {:?}, expected {}", r, e));
    match (kind, r) {
        ("ok", Ok(())) => Ok(()),
        ("fixed", Err(Error::SetToFixedError { joint_name })) => {
            if *joint_name == w.exp[us(&e[1])].st.nm { Ok(()) } else { fail() }
        }
        ("limit", Err(Error::OutOfLimitError { joint_name, position, max_limit, min_limit })) => {
            let x = &w.exp[us(&e[1])];
            let (lo, hi) = x.st.lim.unwrap();
            let ok = *joint_name == x.st.nm
                && w.pos_eq(*position, &x.st.ty, e[2].as_i64().unwrap())
                && w.pos_eq(*max_limit, &x.st.ty, hi)
                && w.pos_eq(*min_limit, &x.st.ty, lo);
            if ok { Ok(()) } else { fail() }
        }
        ("size", Err(Error::SizeMismatchError { input, required })) => {
            if *input == us(&e[1]) && *required == us(&e[2]) { Ok(()) } else { fail() }
        }
        _ => fail(),
    }
}

fn step<T: Num>(w: &mut World<T>, s: &Value, op: &str, ctx: &mut Ctx) {
    let a = &s["a"];
    let r = &s["r"];
    let before = w.exp.clone();
    let old_chains = w.chain.len();
    // ---- what the model expects after the step
    let mut exp = w.exp.clone();
    for x in s["nn"].as_array().unwrap() {
        let i = us(&x[0]);
        assert_eq!(i, exp.len(), "harness: node numbers");
        exp.push(Exp { st: parse_static(&x[1]), ..Exp::default() });
    }
    for x in s["d"].as_array().unwrap() {
        parse_out(&mut exp[us(&x[0])], &x[1]);
    }
    let first_new = before.len();
    // ---- the call
    let mut target = Target::None;
    let mut result: Option<Result<(), Error>> = None;
    let mut targeted: BTreeSet<usize> = BTreeSet::new();
    match op {
        "Build" | "New" => {
            for i in first_new..exp.len() {
                let n = w.make(i, &exp[i]);
                w.node.push(Some(n));
            }
            for i in first_new..exp.len() {
                if exp[i].par != 0 {
                    let (p, c) = (w.n(exp[i].par).clone(), w.n(i).clone());
                    if i % 2 == 0 {
                        k::connect!(p => c);
                    } else {
                        c.set_parent(&p);
                    }
                }
            }
            for i in first_new..exp.len() {
                if let Some(m) = exp[i].st.mc {
                    w.n(i).set_mimic_parent(w.n(exp[i].mp), w.mimic(&exp[i].st.ty, m));
                }
            }
        }
        "SetPos" | "SetPosC" | "SetPosU" => {
            let i = us(&a[0]);
            target = Target::Node(i);
            targeted.insert(i);
            let v = w.val(&exp[i].st.ty, a[1].as_i64().unwrap());
            let n = w.n(i);
            match op {
                "SetPos" => result = Some(n.set_joint_position(v)),
                "SetPosC" => n.set_joint_position_clamped(v),
                _ => n.set_joint_position_unchecked(v),
            }
        }
        "CSet" | "CSetC" | "CSetU" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let mov: Vec<usize> = w.chns[k].iter().cloned().filter(|i| exp[*i].st.ty != "F").collect();
            targeted.extend(mov.iter());
            let v: Vec<T> = ints(&a[1])
                .iter()
                .enumerate()
                .map(|(j, x)| w.val(mov.get(j).map(|i| exp[*i].st.ty.as_str()).unwrap_or("R"), *x))
                .collect();
            let c = w.chain[k].as_ref().unwrap();
            match op {
                "CSet" => result = Some(c.set_joint_positions(&v)),
                "CSetC" => c.set_joint_positions_clamped(&v),
                _ => c.set_joint_positions_unchecked(&v),
            }
        }
        "SetOrg" => {
            let i = us(&a[0]);
            target = Target::Node(i);
            w.n(i).set_origin(org(&a[1]));
        }
        "CSetOrg" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            w.chain[k].as_ref().unwrap().set_origin(org(&a[1]));
            let o = w.chain[k].as_ref().unwrap().origin();
            ctx.check(iso_near(&o, &org_pose(&a[1])), &["C01"], || format!("Chain::origin is {} after set_origin {}", iso_txt(&o), a[1]));
        }
        "SetParent" => {
            target = Target::Node(us(&a[0]));
            w.n(us(&a[0])).set_parent(w.n(us(&a[1])));
        }
        "RmParent" => {
            target = Target::Node(us(&a[0]));
            w.n(us(&a[0])).remove_parent(w.n(us(&a[1])));
        }
        "SetMimic" => {
            let i = us(&a[0]);
            target = Target::Node(i);
            let m = ints(&a[2]);
            exp[i].st.mc = Some((m[0], m[1]));
            w.n(i).set_mimic_parent(w.n(us(&a[1])), w.mimic(&exp[i].st.ty, (m[0], m[1])));
        }
        "SetLink" => {
            let i = us(&a[0]);
            target = Target::Node(i);
            w.n(i).set_link(w.link(&a[1]));
        }
        "Relink" => {
            let i = us(&a[0]);
            target = Target::Node(i);
            let mut l = w.n(i).link().clone().expect("harness: no link");
            let o = org(&a[2]);
            match a[1][0].as_str().unwrap() {
                "i" => l.inertial.set_origin(o),
                "v" => l.visuals[us(&a[1][1]) - 1].set_origin(o),
                _ => l.collisions[us(&a[1][1]) - 1].set_origin(o),
            }
            w.n(i).set_link(Some(l));
        }
        "ChRoot" | "ChEnd" | "ChE2R" | "ChNodes" => {
            let c = match op {
                "ChRoot" => Chain::from_root(w.n(us(&a[0])).clone()),
                "ChEnd" => {
                    if us(&a[0]) % 2 == 0 { Chain::from_end(w.n(us(&a[0]))) } else { SerialChain::from_end(w.n(us(&a[0]))).unwrap() }
                }
                "ChE2R" => {
                    if us(&a[0]) % 2 == 0 {
                        Chain::from_end_to_root(w.n(us(&a[0])), w.n(us(&a[1])))
                    } else {
                        SerialChain::from_end_to_root(w.n(us(&a[0])), w.n(us(&a[1]))).unwrap()
                    }
                }
                _ => Chain::from_nodes(ids(&a[0]).iter().map(|i| w.n(*i).clone()).collect()),
            };
            let want = ids(r);
            let got = node_ids(w, c.iter());
            members(op, &got, &want, &exp, ctx);
            w.chain.push(Some(c));
            w.chns.push(want);
        }
        "IterA" | "IterD" => {
            let i = us(&a[0]);
            let l: Vec<Node<T>> = if op == "IterA" { w.n(i).iter_ancestors().take(1000).collect() } else { w.n(i).iter_descendants().take(1000).collect() };
            let got = node_ids(w, l.iter());
            let want = ids(r);
            if op == "IterA" {
                ctx.check(got == want, &["C08", "C07"], || format!("iter_ancestors of {} visits {:?}, expected {:?}", i, got, want));
            } else {
                members(op, &got, &want, &exp, ctx);
            }
        }
        "TryNew" => {
            let k = us(&a[0]);
            let c = Chain::from_nodes(w.chain[k].as_ref().unwrap().iter().cloned().collect());
            let some = SerialChain::try_new(c).map(|s| node_ids(w, s.iter()));
            let want = r[0].as_str().unwrap() == "some";
            ctx.check(some.is_some() == want, &["C08"], || format!("try_new of {:?} is_some = {}, expected {}", w.chns[k], some.is_some(), want));
            if let Some(x) = some {
                ctx.check(x == w.chns[k], &["C08"], || format!("serial chain of {:?} has {:?}", w.chns[k], x));
            }
        }
        "Find" => {
            let k = us(&a[0]);
            let c = w.chain[k].as_ref().unwrap();
            let got = c.find(a[1].as_str().unwrap()).map(|n| id_of(w, n));
            let want = r.as_array().unwrap().get(0).map(|j| Some(w.chns[k][us(j) - 1]));
            ctx.check(got == want, &["C08"], || format!("find({}) in {:?} gives node {:?}, expected {:?}", a[1], w.chns[k], got, want));
        }
        "UpdT" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let got = w.chain[k].as_ref().unwrap().update_transforms();
            let ns = w.chns[k].clone();
            ctx.check(got.len() == ns.len(), &["C01"], || format!("update_transforms of {:?} returns {} poses", ns, got.len()));
            for (j, i) in ns.iter().enumerate() {
                exp[*i].tfv = pose_of(&r[j]);
                if let (Some(g), Some(e)) = (got.get(j), pose_of(&r[j])) {
                    ctx.check(iso_near(g, &e), &["C01", "C02"], || format!("update_transforms of {:?}: node {} got {}, expected {:?}", ns, i, iso_txt(g), e));
                    match w.n(*i).world_transform() {
                        Some(x) => ctx.check(iso_near(&x, &e), &["C01", "C02"], || format!("world_transform of {} after update_transforms: {} expected {:?}", i, iso_txt(&x), e)),
                        None => ctx.check(false, &["C01", "C02"], || format!("world_transform of {} is absent after update_transforms of {:?}", i, ns)),
                    };
                }
            }
        }
        "UpdV" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let got = w.chain[k].as_ref().unwrap().update_velocities();
            let ns = w.chns[k].clone();
            ctx.check(got.len() == ns.len(), &["C10"], || format!("update_velocities of {:?} returns {}", ns, got.len()));
            for (j, i) in ns.iter().enumerate() {
                let e = if r[j].as_array().unwrap().is_empty() { None } else { Some((vec_of(&r[j][0], 0.5).unwrap(), vec_of(&r[j][1], 1.0).unwrap())) };
                exp[*i].vlv = e;
                let chk = |ctx: &mut Ctx, v: &Velocity<T>, e: &(V3, V3), src: &str| {
                    ctx.check(v3_near(&v.translation, &e.0) && v3_near(&v.rotation, &e.1), &["C10", "C02"], || {
                        format!("{} of {} after update_velocities of {:?}: {:?}, expected {:?}", src, i, ns, v, e)
                    });
                };
                if let (Some(g), Some(e)) = (got.get(j), e) {
                    chk(ctx, g, &e, "result");
                    match w.n(*i).world_velocity() {
                        Some(x) => chk(ctx, &x, &e, "world_velocity"),
                        None => ctx.bad(&["C10", "C02"], format!("world_velocity of {} is absent after update_velocities", i)),
                    }
                }
            }
        }
        "UpdL" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            w.chain[k].as_ref().unwrap().update_link_transforms();
            for (j, i) in w.chns[k].clone().iter().enumerate() {
                let e = &r[j];
                exp[*i].lsv = None;
                if e.as_array().unwrap().is_empty() {
                    continue;
                }
                let ps = |v: &Value| v.as_array().unwrap().iter().map(|x| pose_of(x).unwrap()).collect::<Vec<_>>();
                let lsv = (pose_of(&e[0]).unwrap(), ps(&e[1]), ps(&e[2]));
                let l = w.n(*i).link().clone();
                match l {
                    None => ctx.bad(&["C12"], format!("link of {} is gone", i)),
                    Some(l) => {
                        let mut chk = |x: &Option<Isometry3<T>>, e: &P, what: String| match x {
                            None => ctx.bad(&["C12"], format!("{} of {} has no world transform after update_link_transforms", what, i)),
                            Some(x) => {
                                ctx.check(iso_near(x, e), &["C12"], || format!("{} of {} is at {}, expected {:?}", what, i, iso_txt(x), e));
                            }
                        };
                        chk(l.inertial.world_transform(), &lsv.0, "inertial".to_string());
                        for (q, v) in l.visuals.iter().enumerate() {
                            chk(v.world_transform(), &lsv.1[q], format!("visual {}", q));
                        }
                        for (q, v) in l.collisions.iter().enumerate() {
                            chk(v.world_transform(), &lsv.2[q], format!("collision {}", q));
                        }
                    }
                }
                exp[*i].lsv = Some(lsv);
            }
        }
        "CoM" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let g = k::center_of_mass(w.chain[k].as_ref().unwrap());
            if let Some(e) = vec_of(r, 0.5) {
                ctx.check(v3_near(&g, &e), &["C11"], || format!("center_of_mass of {:?} is {:?}, expected {:?}", w.chns[k], g, e));
            }
        }
        "EndTf" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let sc = serial(w, k);
            let g = sc.end_transform();
            let e = pose_of(r).unwrap();
            ctx.check(iso_near(&g, &e), &["C01"], || format!("end_transform of {:?} is {}, expected {:?}", w.chns[k], iso_txt(&g), e));
        }
        "Jac" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let sc = serial(w, k);
            let g = k::jacobian(&sc);
            let cols = r.as_array().unwrap();
            if ctx.check(g.nrows() == 6 && g.ncols() == cols.len(), &["C09"], || format!("jacobian of {:?} is {}x{}", w.chns[k], g.nrows(), g.ncols())) {
                for (c, e) in cols.iter().enumerate() {
                    let lin = vec_of(&e[0], 0.5).unwrap();
                    let ang = vec_of(&e[1], 1.0).unwrap();
                    let ok = (0..3).all(|i| near::<T>(f(g[(i, c)]), lin[i]) && near::<T>(f(g[(3 + i, c)]), ang[i]));
                    ctx.check(ok, &["C09"], || format!("jacobian of {:?}: column {} is {:?}, expected {:?} {:?}", w.chns[k], c, g.column(c), lin, ang));
                }
            }
        }
        "Print" => {
            let k = us(&a[0]);
            let c = w.chain[k].as_ref().unwrap();
            let g = format!("{}", c);
            let mut e = String::new();
            for l in r.as_array().unwrap() {
                let x = &exp[us(&l[1])];
                e += &"    ".repeat(us(&l[0]));
                e += &line_of(x);
                e += "\n";
            }
            ctx.check(g == e, &["C23"], || format!("chain {:?} prints {:?}, expected {:?}", w.chns[k], g, e));
            if w.chns[k].len() % 2 == 0 {
                let g2 = format!("{}", serial(w, k));
                ctx.check(g2 == e, &["C23"], || format!("serial chain {:?} prints {:?}, expected {:?}", w.chns[k], g2, e));
            }
        }
        "Clone" => {
            let k = us(&a[0]);
            target = Target::Chain(k);
            let ns = w.chns[k].clone();
            let src = w.chain[k].as_ref().unwrap();
            let c = if ns.len() % 2 == 0 { src.clone() } else { serial(w, k).clone().unwrap() };
            let new: Vec<Node<T>> = c.iter().cloned().collect();
            let want = ids(r);
            ctx.check(new.len() == want.len(), &["C06"], || format!("clone of {:?} has {} nodes", ns, new.len()));
            if new.iter().any(|n| id_of(w, n).is_some()) {
                ctx.bad(&["C06"], format!("clone of {:?} shares nodes with the original", ns));
            }
            if !ctx.bad.is_empty() {
                return;
            }
            for (j, n) in new.into_iter().enumerate() {
                let i = want[j];
                exp[i].tfv = before[ns[j]].tfv.clone();
                exp[i].vlv = before[ns[j]].vlv;
                exp[i].lsv = before[ns[j]].lsv.clone();
                w.node.push(Some(n));
            }
            w.chain.push(Some(c));
            w.chns.push(want);
        }
        "JVel" => {
            let i = us(&a[0]);
            let mut j: Joint<T> = w.n(i).joint().clone();
            let tf0 = j.world_transform();
            let res = j.set_joint_velocity(t(a[1].as_i64().unwrap() as f64));
            if let Err(e) = err_matches(w, &res, r) {
                ctx.bad(&["C02"], format!("set_joint_velocity of {} {}", i, e));
            }
            if res.is_ok() {
                ctx.check(j.world_velocity().is_none(), &["C02"], || format!("world velocity of joint {} remains after its velocity is set", i));
                ctx.check(j.world_transform() == tf0, &["C02"], || format!("world transform of joint {} was {:?} and is {:?} after its velocity is set", i, tf0, j.world_transform()));
                ctx.check(j.joint_velocity() == Some(t(a[1].as_i64().unwrap() as f64)), &["C02"], || format!("velocity of joint {} is {:?} after {} was set", i, j.joint_velocity(), a[1]));
            }
            w.node.push(Some(Node::new(j)));
        }
        "DropX" => {
            let k = us(&a[0]);
            for j in 1..w.chain.len() {
                if j != k {
                    w.chain[j] = None;
                }
            }
            for i in 1..w.node.len() {
                w.node[i] = None;
            }
            let c = w.chain[k].take().unwrap();
            let l: Vec<Node<T>> = c.iter().cloned().collect();
            ctx.check(l.len() == w.chns[k].len(), &["C08"], || "members lost".to_string());
            for (j, n) in l.into_iter().enumerate() {
                w.node[w.chns[k][j]] = Some(n);
            }
            w.chain[k] = Some(c);
        }
        _ => panic!("harness: unknown op {}", op),
    }
    if let Some(res) = &result {
        if let Err(e) = err_matches(w, res, r) {
            let mut props = op_props(op);
            if op == "SetPos" {
                let i = us(&a[0]);
                let involved = exp[i].mp != 0 || w.exp.iter().any(|x| x.mp == i);
                if !involved {
                    props = vec!["C03"];
                } else if exp[i].mp != 0 {
                    props = vec!["C05"];
                }
            }
            ctx.bad(&props, format!("{} {} {}", op, a, e));
        }
    }
    w.exp = exp;
    let failed_many = match (&result, op) {
        (Some(Err(_)), "CSet") => r[0] != "size",
        (Some(Err(_)), "SetPos") => true,
        _ => false,
    };
    compare(w, op, a, r, &before, target, &targeted, first_new, failed_many, old_chains, ctx);
}

fn serial<T: Num>(w: &World<T>, k: usize) -> SerialChain<T> {
    SerialChain::new_unchecked(Chain::from_nodes(w.chain[k].as_ref().unwrap().iter().cloned().collect()))
}
fn line_of(x: &Exp) -> String {
    let ax = ["+X", "+Y", "+Z", "-X", "-Y", "-Z", "", "", "", ""][x.st.ax - 1];
    let ty = match x.st.ty.as_str() {
        "F" => "[⚓]".to_string(),
        "R" => format!("[⚙{}]", ax),
        _ => format!("[↕{}]", ax),
    };
    let mut s = format!("{} {}", x.st.nm, ty);
    let lk = x.lk.as_array().unwrap();
    if !lk.is_empty() {
        s += &format!(" => /{}/", lk[0]["nm"].as_str().unwrap());
    }
    s
}
fn id_of<T: Num>(w: &World<T>, n: &Node<T>) -> Option<usize> {
    (1..w.node.len()).find(|i| w.node[*i].as_ref().map(|x| x == n).unwrap_or(false))
}
fn node_ids<'a, T: Num>(w: &World<T>, it: impl Iterator<Item = &'a Node<T>>) -> Vec<usize> {
    it.map(|n| id_of(w, n).unwrap_or(0)).collect()
}
/// The same members, each after its parent. Another valid order ends the behaviour.
fn members(op: &str, got: &[usize], want: &[usize], exp: &[Exp], ctx: &mut Ctx) {
    if got == want {
        ctx.comparisons += 1;
        return;
    }
    let g: BTreeSet<usize> = got.iter().cloned().collect();
    let e: BTreeSet<usize> = want.iter().cloned().collect();
    let free = op == "ChRoot" || op == "IterD";
    let first = got.first() == want.first();
    let sorted = got.iter().enumerate().all(|(j, i)| *i != 0 && (!e.contains(&exp[*i].par) || j == 0 || got[..j].contains(&exp[*i].par)));
    if g == e && got.len() == want.len() && first && sorted && free {
        ctx.stop = Some("another order of the members".to_string());
    } else {
        ctx.bad(&["C08"], format!("{} has members {:?}, expected {:?}", op, got, want));
    }
}

#[allow(clippy::too_many_arguments)]
fn compare<T: Num>(
    w: &World<T>, op: &str, a: &Value, r: &Value, before: &[Exp], target: Target, targeted: &BTreeSet<usize>,
    first_new: usize, failed_many: bool, old_chains: usize, ctx: &mut Ctx,
) {
    let tgrp = match target {
        Target::None => None,
        Target::Node(i) => Some(w.exp[i].st.grp),
        Target::Chain(k) => w.chns[k].first().map(|i| w.exp[*i].st.grp),
    };
    let many_groups = w.exp.iter().skip(1).any(|x| x.st.grp != 0);
    let mut positions_differ = false;
    for i in w.alive() {
        let n = w.n(i);
        let e = &w.exp[i];
        let new = i >= first_new;
        // a change seen in another group than that of the call
        let foreign = many_groups && (op == "Clone" || tgrp.map(|g| g != e.st.grp).unwrap_or(false));
        let tag = |p: &[&'static str]| -> Vec<&'static str> {
            if op == "Clone" {
                return vec!["C06"];
            }
            let mut v = p.to_vec();
            if foreign {
                v.push("C06");
            }
            v
        };
        // structure
        let par = n.parent().map(|p| id_of(w, &p));
        let want = if e.par == 0 { None } else { Some(Some(e.par)) };
        ctx.check(par == want, &tag(&["C07"]), || format!("parent of {} is {:?}, expected {:?} after {} {}", i, par, want, op, a));
        let kids = node_ids(w, n.children().clone().iter());
        ctx.check(kids == e.kids, &tag(&["C07"]), || format!("children of {} are {:?}, expected {:?} after {} {}", i, kids, e.kids, op, a));
        let (root, end) = (n.is_root(), n.is_end());
        ctx.check(root == (e.par == 0), &tag(&["C07"]), || format!("is_root of {} is {} after {} {}", i, root, op, a));
        ctx.check(end == e.kids.is_empty(), &tag(&["C07"]), || format!("is_end of {} is {} after {} {}", i, end, op, a));
        let mp = n.mimic_parent().map(|p| id_of(w, &p));
        let want = if e.mp == 0 { None } else { Some(Some(e.mp)) };
        ctx.check(mp == want, &tag(&["C05"]), || format!("mimic parent of {} is {:?}, expected {:?} after {} {}", i, mp, want, op, a));
        // joint
        // (read through the guard: nothing here depends on how joints are cloned)
        let (j_name, j_type, j_lim, j_vel, j_org, j_pos, j_tf, j_wv) = {
            let j = n.joint();
            (j.name.clone(), j.joint_type.clone(), j.limits.map(|l| (l.min, l.max)), j.joint_velocity(), *j.origin(), j.joint_position(), j.world_transform(), j.world_velocity())
        };
        if new {
            let p: &[&'static str] = if op == "JVel" { &["C02"] } else { &["C25"] };
            ctx.check(j_name == e.st.nm, &tag(p), || format!("name of {} is {}, expected {}", i, j_name, e.st.nm));
            let ty_ok = match (&j_type, e.st.ty.as_str()) {
                (JointType::Fixed, "F") => true,
                (JointType::Rotational { axis: x }, "R") | (JointType::Linear { axis: x }, "L") => {
                    let y = axis::<T>(e.st.ax);
                    (0..3).all(|q| near::<T>(f(x[q]), f(y[q])))
                }
                _ => false,
            };
            ctx.check(ty_ok, &tag(p), || format!("type of {} is {:?}, expected {} {}", i, j_type, e.st.ty, e.st.ax));
            let lim = j_lim;
            let want = w.limits(&e.st).map(|l| (l.min, l.max));
            ctx.check(lim == want, &tag(p), || format!("limits of {} are {:?}, expected {:?}", i, lim, want));
            let want = if e.st.ty == "F" { None } else { Some(t::<T>(e.st.vel as f64)) };
            ctx.check(j_vel == want, &tag(p), || format!("velocity of {} is {:?}, expected {:?} after {}", i, j_vel, want, op));
        }
        let o = org_pose(&e.org);
        ctx.check(iso_near(&j_org, &o), &tag(if new { &["C25"] } else { &["C01"] }), || format!("origin of {} is {}, expected {:?} after {} {}", i, iso_txt(&j_org), o, op, a));
        // position
        let got = j_pos.map(f);
        let same = match (got, e.pos) {
            (None, None) => true,
            (Some(x), Some(v)) => w.pos_eq(x, &e.st.ty, v),
            _ => false,
        };
        ctx.comparisons += 1;
        if !same {
            positions_differ = true;
            let rejecting = failed_many && r.as_array().map(|x| x.len() > 1).unwrap_or(false) && us(&r[1]) == i;
            let mut props: Vec<&'static str> = vec![];
            let mut lenient = false;
            if failed_many && !rejecting && i < before.len() {
                // what the others hold after a failure is not laid down
                let x = got.unwrap_or(f64::NAN);
                let keeps = before[i].pos.map(|v| w.pos_eq(x, &e.st.ty, v)).unwrap_or(false);
                let inside = e.st.lim.map(|(lo, hi)| x >= f(w.val(&e.st.ty, lo)) - T::TOL && x <= f(w.val(&e.st.ty, hi)) + T::TOL).unwrap_or(true);
                lenient = targeted.contains(&i) || e.mp != 0;
                lenient = lenient && (keeps || inside);
            }
            match op {
                "Clone" => props.push("C06"),
                "SetPos" | "SetPosC" | "SetPosU" | "CSet" | "CSetC" | "CSetU" => {
                    if foreign {
                        props.push("C06");
                    }
                    if e.mp != 0 {
                        props.push("C05");
                        if e.st.lim.is_some() {
                            props.push("C03");
                        }
                        if op.starts_with('C') && op != "CSet" {
                            props.push("C04");
                        }
                    } else if targeted.contains(&i) {
                        if op.starts_with('C') {
                            props.push("C04");
                        }
                        if op.starts_with('S') || e.st.lim.is_some() {
                            props.push("C03");
                        }
                        // a source whose dependents are treated wrongly
                        if w.exp.iter().any(|x| x.mp == i) {
                            props.push("C05");
                        }
                    } else {
                        props.extend(["C03", "C04"]);
                    }
                }
                "Build" | "New" => props.push("C25"),
                _ => {
                    props.extend(op_props(op));
                    props.push("C04");
                    if foreign {
                        props.push("C06");
                    }
                }
            }
            if lenient {
                ctx.stop = Some("positions after a failed assignment".to_string());
            } else {
                ctx.bad(&props, format!("position of {} is {:?}, expected {:?} (x{}) after {} {}", i, got, e.pos, w.unit(&e.st.ty), op, a));
            }
        }
        // caches
        match e.tf.as_str() {
            "a" => {
                ctx.check(j_tf.is_none(), &tag(&["C02"]), || format!("world_transform of {} remains after {} {}", i, op, a));
            }
            "f" | "l" => {
                if let (Some(x), Some(v)) = (j_tf, &e.tfv) {
                    ctx.check(iso_near(&x, v), &tag(&["C02"]), || format!("world_transform of {} is {}, expected {:?} after {} {}", i, iso_txt(&x), v, op, a));
                }
            }
            _ => {}
        }
        match e.vl.as_str() {
            "a" => {
                ctx.check(j_wv.is_none(), &tag(&["C02"]), || format!("world_velocity of {} remains after {} {}", i, op, a));
            }
            "f" | "l" => {
                if let (Some(x), Some(v)) = (j_wv, &e.vlv) {
                    ctx.check(v3_near(&x.translation, &v.0) && v3_near(&x.rotation, &v.1), &tag(&["C02", "C10"]), || format!("world_velocity of {} is {:?}, expected {:?} after {} {}", i, x, v, op, a));
                }
            }
            _ => {}
        }
        // link
        let l = n.link().clone();
        let lk = e.lk.as_array().unwrap();
        let ltag = tag(if new { &["C25"] } else { &["C12"] });
        if ctx.check(l.is_some() == !lk.is_empty(), &ltag, || format!("link of {} present: {} after {} {}", i, l.is_some(), op, a)) {
            if let Some(l) = l {
                let m = &lk[0];
                let v = m["v"].as_array().unwrap();
                let c = m["c"].as_array().unwrap();
                let ok = l.name == m["nm"].as_str().unwrap()
                    && f(l.inertial.mass) == m["mass"].as_i64().unwrap() as f64
                    && iso_near(l.inertial.origin(), &org_pose(&m["i"]))
                    && l.visuals.len() == v.len()
                    && l.collisions.len() == c.len()
                    && l.visuals.iter().enumerate().all(|(q, x)| iso_near(x.origin(), &org_pose(&v[q])) && x.name == format!("v{}", q))
                    && l.collisions.iter().enumerate().all(|(q, x)| iso_near(x.origin(), &org_pose(&c[q])) && x.name == format!("c{}", q));
                ctx.check(ok, &ltag, || format!("link of {} is {:?}, expected {} after {} {}", i, l, m, op, a));
                if ok {
                    let mut chk = |x: &Option<Isometry3<T>>, st: &Value, ev: Option<&P>, what: String| {
                        match st.as_str().unwrap() {
                            "a" => {
                                ctx.check(x.is_none(), &tag(&["C12"]), || format!("{} of {} has a world transform after {} {}", what, i, op, a));
                            }
                            "f" | "l" => {
                                if let (Some(x), Some(ev)) = (x, ev) {
                                    ctx.check(iso_near(x, ev), &tag(&["C12"]), || format!("{} of {} is at {}, expected {:?} after {} {}", what, i, iso_txt(x), ev, op, a));
                                }
                            }
                            _ => {}
                        };
                    };
                    let lsv = e.lsv.as_ref();
                    chk(l.inertial.world_transform(), &e.ls["i"], lsv.map(|x| &x.0), "inertial".to_string());
                    for (q, x) in l.visuals.iter().enumerate() {
                        chk(x.world_transform(), &e.ls["v"][q], lsv.and_then(|y| y.1.get(q)), format!("visual {}", q));
                    }
                    for (q, x) in l.collisions.iter().enumerate() {
                        chk(x.world_transform(), &e.ls["c"][q], lsv.and_then(|y| y.2.get(q)), format!("collision {}", q));
                    }
                }
            }
        }
    }
    // chains
    for k in 1..w.chain.len() {
        let c = match &w.chain[k] {
            Some(c) => c,
            None => continue,
        };
        let ctag: &[&'static str] = if op == "Clone" && k >= old_chains { &["C06"] } else { &["C08"] };
        let ns = node_ids(w, c.iter());
        if ctx.stop.is_some() && ns != w.chns[k] {
            continue;
        }
        ctx.check(ns == w.chns[k], ctag, || format!("members of chain {} are {:?}, expected {:?} after {} {}", k, ns, w.chns[k], op, a));
        let vtag: &[&'static str] = if op == "Clone" && k >= old_chains { &["C06", "C04"] } else { &["C04"] };
        let mov: Vec<usize> = w.chns[k].iter().cloned().filter(|i| w.exp[*i].st.ty != "F").collect();
        ctx.check(c.dof() == mov.len(), vtag, || format!("dof of chain {:?} is {}, expected {}", w.chns[k], c.dof(), mov.len()));
        let names: Vec<String> = c.iter_joints().map(|j| j.name.clone()).collect();
        let want: Vec<String> = mov.iter().map(|i| w.exp[*i].st.nm.clone()).collect();
        ctx.check(names == want, vtag, || format!("iter_joints of chain {:?} gives {:?}, expected {:?}", w.chns[k], names, want));
        let got: Vec<f64> = c.joint_positions().iter().map(|x| f(*x)).collect();
        if !positions_differ {
            let ok = got.len() == mov.len() && mov.iter().zip(&got).all(|(i, x)| w.pos_eq(*x, &w.exp[*i].st.ty, w.exp[*i].pos.unwrap()));
            ctx.check(ok, vtag, || format!("joint_positions of chain {:?} gives {:?} after {} {}", w.chns[k], got, op, a));
        }
        let ln: Vec<String> = c.iter_links().map(|l| l.name.clone()).collect();
        let want: Vec<String> = w.chns[k].iter().filter_map(|i| w.exp[*i].lk.as_array().unwrap().get(0).map(|l| l["nm"].as_str().unwrap().to_string())).collect();
        ctx.check(ln == want, &["C12", "C08"], || format!("iter_links of chain {:?} gives {:?}, expected {:?}", w.chns[k], ln, want));
    }
}
