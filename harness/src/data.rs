//! KData.tla against the value types of the library.
use crate::common::*;
use crate::tree::{axis, iso_near, iso_txt, near, org, pose_of};
use k::joint::{Mimic, Range};
use k::link::*;
use k::*;
use nalgebra as na;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicUsize;

const INF: i64 = 9999;
const NAN: i64 = 8888;

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: not an array: {}", v))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v))
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not a number: {}", v))
}
fn scaled<T: Num>(v: &Value, unit: f64) -> T {
    match int(v) {
        INF => t(f64::INFINITY),
        x if x == -INF => t(f64::NEG_INFINITY),
        NAN => t(f64::NAN),
        x => t::<T>(x as f64) * t::<T>(unit),
    }
}
fn quarter<T: Num>(v: &Value) -> T {
    scaled(v, 0.25)
}
fn unit(ty: &str) -> f64 {
    if ty == "R" {
        std::f64::consts::FRAC_PI_2
    } else {
        0.5
    }
}
fn same<T: Num>(a: T, b: T) -> bool {
    a == b || (f(a).is_nan() && f(b).is_nan())
}
fn jtype<T: Num>(ty: &str, ax: &Value) -> JointType<T> {
    match ty {
        "R" => JointType::Rotational { axis: axis(int(ax) as usize) },
        "L" => JointType::Linear { axis: axis(int(ax) as usize) },
        _ => JointType::Fixed,
    }
}
fn type_is<T: Num>(j: &JointType<T>, ty: &str, ax: &Value) -> bool {
    match (j, ty) {
        (JointType::Fixed, "F") => true,
        (JointType::Rotational { axis: x }, "R") | (JointType::Linear { axis: x }, "L") => {
            let y = axis::<T>(int(ax) as usize);
            (0..3).all(|q| near::<T>(f(x[q]), f(y[q])))
        }
        _ => false,
    }
}
fn range<T: Num>(l: &Value, unit: f64) -> Option<Range<T>> {
    let l = arr(l);
    if l.is_empty() {
        return None;
    }
    Some((scaled::<T>(&l[0], unit)..=scaled::<T>(&l[1], unit)).into())
}
fn range_is<T: Num>(r: &Option<Range<T>>, l: &Value, unit: f64) -> bool {
    match (r, arr(l).as_slice()) {
        (None, []) => true,
        (Some(r), [a, b]) => r.min == scaled::<T>(a, unit) && r.max == scaled::<T>(b, unit),
        _ => false,
    }
}

pub fn run(beh: &[Value], is32: bool, pos: &AtomicUsize, ctx: &mut Ctx) {
    let r = catch_unwind(AssertUnwindSafe(|| if is32 { go::<f32>(beh, pos, ctx) } else { go::<f64>(beh, pos, ctx) }));
    if let Err(e) = r {
        let txt = panic_text(e);
        if txt.starts_with("harness:") {
            eprintln!("{}", txt);
            std::process::exit(2);
        }
        let i = pos.load(std::sync::atomic::Ordering::SeqCst);
        let op = st(&beh[i]["op"]);
        ctx.bad(&op_props(op), format!("{} {} panics: {}", op, beh[i]["a"], txt));
    }
}

struct W<T: Num> {
    nb: NodeBuilder<T>,
    nb_kept: NodeBuilder<T>,
    joint: Option<Joint<T>>,
    joint_kept: Option<Joint<T>>,
    elem: Option<Elem<T>>,
    elem_kept: Option<Elem<T>>,
}
#[derive(Clone)]
enum Elem<T: Num> {
    I(Inertial<T>),
    V(Visual<T>),
    C(Collision<T>),
}
impl<T: Num> Elem<T> {
    fn new(kind: &str, o: Isometry3<T>) -> Self {
        let g = Geometry::Sphere { radius: t(1.0) };
        match kind {
            "inertial" => Elem::I(Inertial::new(o, t(2.0), na::Matrix3::identity())),
            "visual" => Elem::V(Visual::new("v".to_string(), o, g, Material { name: String::new(), color: Color { r: t(0.0), g: t(0.0), b: t(0.0), a: t(0.0) }, texture: Texture::default() })),
            _ => Elem::C(Collision::new("c".to_string(), o, g)),
        }
    }
    fn set_origin(&mut self, o: Isometry3<T>) {
        match self {
            Elem::I(x) => x.set_origin(o),
            Elem::V(x) => x.set_origin(o),
            Elem::C(x) => x.set_origin(o),
        }
    }
    fn set_wt(&mut self, o: Isometry3<T>) {
        match self {
            Elem::I(x) => x.set_world_transform(o),
            Elem::V(x) => x.set_world_transform(o),
            Elem::C(x) => x.set_world_transform(o),
        }
    }
    fn clear(&mut self) {
        match self {
            Elem::I(x) => x.clear_world_transform(),
            Elem::V(x) => x.clear_world_transform(),
            Elem::C(x) => x.clear_world_transform(),
        }
    }
    fn origin(&self) -> Isometry3<T> {
        match self {
            Elem::I(x) => *x.origin(),
            Elem::V(x) => *x.origin(),
            Elem::C(x) => *x.origin(),
        }
    }
    fn wt(&self) -> Option<Isometry3<T>> {
        match self {
            Elem::I(x) => *x.world_transform(),
            Elem::V(x) => *x.world_transform(),
            Elem::C(x) => *x.world_transform(),
        }
    }
}
fn iso_same<T: Num>(a: &Isometry3<T>, b: &Isometry3<T>) -> bool {
    let (p, q) = (a.rotation.to_rotation_matrix(), b.rotation.to_rotation_matrix());
    (0..3).all(|i| near::<T>(f(a.translation.vector[i]), f(b.translation.vector[i])) && (0..3).all(|j| near::<T>(f(p[(i, j)]), f(q[(i, j)]))))
}

fn go<T: Num>(beh: &[Value], pos: &AtomicUsize, ctx: &mut Ctx) {
    let mut w = W::<T> { nb: NodeBuilder::new(), nb_kept: NodeBuilder::default(), joint: None, joint_kept: None, elem: None, elem_kept: None };
    for (i, s) in beh.iter().enumerate() {
        let op = st(&s["op"]);
        at(pos, i, op);
        ctx.count(op);
        let (a, r) = (&s["a"], &s["r"]);
        match &op[..1] {
            "N" => node(&mut w, op, a, r, ctx),
            "L" => link::<T>(&beh[..=i], r, ctx),
            "J" => joint(&mut w, op, a, r, ctx),
            "E" => elem(&mut w, op, a, r, ctx),
            "R" => range_q::<T>(a, r, ctx),
            "M" => mimic::<T>(a, r, ctx),
            "D" => doc(a, r, ctx),
            _ => panic!("harness: op {}", op),
        }
        if !ctx.bad.is_empty() {
            return;
        }
    }
}

fn node<T: Num>(w: &mut W<T>, op: &str, a: &Value, r: &Value, ctx: &mut Ctx) {
    let b = w.nb.clone();
    w.nb = match op {
        "NNew" => NodeBuilder::new(),
        "NName" => b.name(st(&a[0])),
        "NType" => b.joint_type(jtype(st(&a[0]), &a[1])),
        "NLim" => b.limits(range(&a[0], 0.25)),
        "NOrg" => b.origin(org(&a[0])),
        "NTrans" => b.translation(org::<T>(&a[0]).translation),
        "NRot" => b.rotation(org::<T>(&a[0]).rotation),
        "NKeep" => {
            w.nb_kept = b.clone();
            b
        }
        "NBack" => w.nb_kept.clone(),
        _ => panic!("harness: op {}", op),
    };
    let p: &[&'static str] = &["C25"];
    let n1 = w.nb.clone().into_node();
    let n2: Node<T> = w.nb.clone().finalize().into();
    let n3 = Node::new(w.nb.clone().finalize());
    for n in [&n1, &n2, &n3] {
        ctx.check(n.parent().is_none() && n.is_root(), p, || "a built node has a parent".to_string());
        ctx.check(n.children().is_empty() && n.is_end(), p, || "a built node has children".to_string());
        ctx.check(n.mimic_parent().is_none(), p, || "a built node mimics".to_string());
        ctx.check(n.link().is_none(), p, || "a built node has a link".to_string());
        ctx.check(n.world_transform().is_none() && n.world_velocity().is_none(), p, || "a built node has a world transform".to_string());
    }
    let joints = [w.nb.clone().finalize(), n1.joint().clone(), n2.joint().clone(), n3.joint().clone()];
    for j in joints.iter() {
        ctx.check(j.name == st(&r["nm"]), p, || format!("name is {:?}, expected {} after {} {}", j.name, r["nm"], op, a));
        ctx.check(type_is(&j.joint_type, st(&r["ty"]), &r["ax"]), p, || format!("type is {:?}, expected {} {} after {} {}", j.joint_type, r["ty"], r["ax"], op, a));
        ctx.check(range_is(&j.limits, &r["lim"], 0.25), p, || format!("limits are {:?}, expected {} after {} {}", j.limits, r["lim"], op, a));
        let o = pose_of(&r["pose"]).unwrap();
        ctx.check(iso_near(j.origin(), &o), p, || format!("origin is {}, expected {:?} after {} {}", iso_txt(j.origin()), o, op, a));
        let zero = if st(&r["ty"]) == "F" { None } else { Some(t::<T>(0.0)) };
        ctx.check(j.joint_position() == zero, p, || format!("position of a built joint is {:?}", j.joint_position()));
        ctx.check(j.joint_velocity() == zero, p, || format!("velocity of a built joint is {:?}", j.joint_velocity()));
        ctx.check(j.is_movable() == zero.is_some(), p, || format!("is_movable is {} for {}", j.is_movable(), r["ty"]));
        ctx.check(j.world_transform().is_none() && j.world_velocity().is_none(), p, || "a built joint has a world transform".to_string());
    }
}

fn geometry<T: Num>(g: &Value) -> Geometry<T> {
    let (x, y, z) = (quarter::<T>(&g[1]), quarter::<T>(&g[2]), quarter::<T>(&g[3]));
    match st(&g[0]) {
        "box" => Geometry::Box { depth: x, width: y, height: z },
        "cylinder" => Geometry::Cylinder { radius: x, length: y },
        "capsule" => Geometry::Capsule { radius: x, length: y },
        "sphere" => Geometry::Sphere { radius: x },
        _ => Geometry::Mesh { filename: "f".to_string(), scale: na::Vector3::new(x, y, z) },
    }
}
fn geo_is<T: Num>(g: &Geometry<T>, e: &Value) -> bool {
    format!("{:?}", g) == format!("{:?}", geometry::<T>(e))
}
fn material<T: Num>(m: &Value) -> Material<T> {
    Material {
        name: st(&m[0]).to_string(),
        color: Color { r: quarter(&m[1]), g: quarter(&m[2]), b: quarter(&m[3]), a: quarter(&m[4]) },
        texture: Texture { filename: st(&m[5]).to_string() },
    }
}
fn inertia<T: Num>(i: &Value) -> na::Matrix3<T> {
    let v: Vec<T> = arr(i).iter().map(|x| t::<T>(int(x) as f64)).collect();
    na::Matrix3::new(v[0], v[1], v[2], v[1], v[3], v[4], v[2], v[4], v[5])
}

fn link<T: Num>(steps: &[Value], r: &Value, ctx: &mut Ctx) {
    let mut b = if steps.len() % 2 == 0 { LinkBuilder::<T>::new() } else { LinkBuilder::default() };
    for s in steps {
        let a = &s["a"];
        b = match st(&s["op"]) {
            "LName" => b.name(st(&a[0])),
            "LInr" => b.inertial(Inertial::new(org(&a[0]), quarter(&a[1]), inertia(&a[2]))),
            "LMass" => b.inertial(Inertial::from_mass(quarter(&a[0]))),
            "LVis" => b.add_visual(Visual::new(st(&a[0]).to_string(), org(&a[1]), geometry(&a[2]), material(&a[3]))),
            "LCol" => b.add_collision(Collision::new(st(&a[0]).to_string(), org(&a[1]), geometry(&a[2]))),
            x => panic!("harness: op {}", x),
        };
    }
    let made = b.finalize();
    let node = NodeBuilder::<T>::new().into_node();
    node.set_link(Some(made.clone()));
    let carried = node.link().clone().expect("the link that was set");
    let p: &[&'static str] = &["C25"];
    for l in [&made, &carried] {
        ctx.check(l.name == st(&r["nm"]), p, || format!("link name is {:?}, expected {}", l.name, r["nm"]));
        let i = &r["inr"];
        ctx.check(l.inertial.mass == quarter(&i["mass"]), p, || format!("mass is {:?}, expected {}/4", l.inertial.mass, i["mass"]));
        ctx.check(iso_same(l.inertial.origin(), &org(&i["org"])), p, || format!("inertial origin is {}, expected {}", iso_txt(l.inertial.origin()), i["org"]));
        ctx.check(l.inertial.inertia == inertia(&i["i"]), p, || format!("inertia is {}, expected {}", l.inertial.inertia, i["i"]));
        ctx.check(l.inertial.world_transform().is_none(), p, || "a built inertial has a world transform".to_string());
        let (v, c) = (arr(&r["vis"]), arr(&r["col"]));
        ctx.check(l.visuals.len() == v.len() && l.collisions.len() == c.len(), p, || {
            format!("{} visuals and {} collisions, expected {} and {}", l.visuals.len(), l.collisions.len(), v.len(), c.len())
        });
        for (x, e) in l.visuals.iter().zip(v) {
            let m = material::<T>(&e[3]);
            let ok = x.name == st(&e[0]) && iso_same(x.origin(), &org(&e[1])) && geo_is(&x.geometry, &e[2]) && x.world_transform().is_none()
                && x.material.name == m.name && x.material.texture.filename == m.texture.filename
                && (x.material.color.r, x.material.color.g, x.material.color.b, x.material.color.a) == (m.color.r, m.color.g, m.color.b, m.color.a);
            ctx.check(ok, p, || format!("visual is {:?}, expected {}", x, e));
        }
        for (x, e) in l.collisions.iter().zip(c) {
            let ok = x.name == st(&e[0]) && iso_same(x.origin(), &org(&e[1])) && geo_is(&x.geometry, &e[2]) && x.world_transform().is_none();
            ctx.check(ok, p, || format!("collision is {:?}, expected {}", x, e));
        }
    }
    let d = Link::<T>::default();
    ctx.check(d.name.is_empty() && d.visuals.is_empty() && d.collisions.is_empty() && d.inertial.mass == t(0.0) && iso_same(d.inertial.origin(), &Isometry3::identity()),
        p, || format!("default link is {:?}", d));
}

fn joint<T: Num>(w: &mut W<T>, op: &str, a: &Value, r: &Value, ctx: &mut Ctx) {
    let e = &r["j"];
    let ty = st(&e["ty"]);
    let u = unit(ty);
    let mut res: Option<Result<(), Error>> = None;
    match op {
        "JMake" => {
            w.joint = Some(Joint::new("jj", jtype(st(&a[0]), &a[1])));
            w.joint_kept = w.joint.clone();
        }
        "JKeep" => w.joint_kept = w.joint.clone(),
        "JBack" => w.joint = w.joint_kept.clone(),
        _ => {
            let j = w.joint.as_mut().unwrap();
            match op {
                "JPos" => res = Some(j.set_joint_position(scaled(&a[0], u))),
                "JPosC" => j.set_joint_position_clamped(scaled(&a[0], u)),
                "JPosU" => j.set_joint_position_unchecked(scaled(&a[0], u)),
                "JOrg" => j.set_origin(org(&a[0])),
                "JVel" => res = Some(j.set_joint_velocity(scaled(&a[0], 0.25))),
                "JLim" => j.limits = range(&a[0], u),
                _ => panic!("harness: op {}", op),
            }
        }
    }
    if let Some(x) = res {
        let want = &r["res"];
        let ok = match (&x, st(&want[0])) {
            (Ok(()), "ok") => true,
            (Err(Error::SetToFixedError { joint_name }), "fixed") => joint_name == "jj",
            (Err(Error::OutOfLimitError { joint_name, position, max_limit, min_limit }), "limit") => {
                joint_name == "jj" && same(*position, f(scaled::<T>(&want[1], u))) && same(*min_limit, f(scaled::<T>(&want[2], u))) && same(*max_limit, f(scaled::<T>(&want[3], u)))
            }
            _ => false,
        };
        ctx.check(ok, if op == "JPos" { &["C03"] } else { &["C02", "C10"] }, || format!("{} {} returned {:?}, expected {}", op, a, x, want));
    }
    let j = w.joint.as_ref().unwrap();
    let fixed = ty == "F";
    let p = if fixed { None } else { Some(scaled::<T>(&e["pos"], u)) };
    ctx.check(j.joint_position() == p, &["C03"], || format!("position is {:?}, expected {:?} after {} {}", j.joint_position(), p, op, a));
    let v = if fixed { None } else { Some(scaled::<T>(&e["vel"], 0.25)) };
    ctx.check(j.joint_velocity() == v, &["C10"], || format!("velocity is {:?}, expected {:?} after {} {}", j.joint_velocity(), v, op, a));
    ctx.check(j.is_movable() != fixed, &["C04"], || format!("is_movable is {} for {}", j.is_movable(), ty));
    ctx.check(type_is(&j.joint_type, ty, &e["ax"]) && range_is(&j.limits, &e["lim"], u) && j.name == "jj", &["C03"], || format!("joint is {:?}, expected {}", j, e));
    ctx.check(iso_same(j.origin(), &org(&e["org"])), &["C01"], || format!("origin is {}, expected {}", iso_txt(j.origin()), e["org"]));
    let l = pose_of(&e["local"]).unwrap();
    ctx.check(iso_near(&j.local_transform(), &l), &["C01"], || format!("local_transform is {}, expected {:?} after {} {}", iso_txt(&j.local_transform()), l, op, a));
    ctx.check(j.world_transform().is_none() && j.world_velocity().is_none(), &["C02"], || format!("a joint in no tree has a world transform after {}", op));
}

fn elem<T: Num>(w: &mut W<T>, op: &str, a: &Value, r: &Value, ctx: &mut Ctx) {
    match op {
        "ENew" => {
            w.elem = Some(Elem::new(st(&a[0]), org(&a[1])));
            w.elem_kept = w.elem.clone();
        }
        "EKeep" => w.elem_kept = w.elem.clone(),
        "EBack" => w.elem = w.elem_kept.clone(),
        "EOrg" => w.elem.as_mut().unwrap().set_origin(org(&a[0])),
        "ESet" => w.elem.as_mut().unwrap().set_wt(org(&a[0])),
        "EClear" => w.elem.as_mut().unwrap().clear(),
        _ => panic!("harness: op {}", op),
    }
    let e = w.elem.as_ref().unwrap();
    let what = st(&r["kind"]);
    ctx.check(iso_same(&e.origin(), &org(&r["org"])), &["C12"], || format!("origin of {} is {}, expected {} after {} {}", what, iso_txt(&e.origin()), r["org"], op, a));
    let ok = match (e.wt(), arr(&r["wt"]).is_empty()) {
        (None, true) => true,
        (Some(x), false) => iso_same(&x, &org(&r["wt"])),
        _ => false,
    };
    ctx.check(ok, &["C12"], || format!("world transform of {} is {:?}, expected {} after {} {}", what, e.wt().map(|x| iso_txt(&x)), r["wt"], op, a));
}

fn range_q<T: Num>(a: &Value, r: &Value, ctx: &mut Ctx) {
    let (lo, hi, v) = (quarter::<T>(&a[0]), quarter::<T>(&a[1]), quarter::<T>(&a[2]));
    let made = [catch_unwind(AssertUnwindSafe(|| Range::new(lo, hi))), catch_unwind(AssertUnwindSafe(|| Range::from(lo..=hi)))];
    for m in made {
        match (m, st(&r[0])) {
            (Err(_), "panic") => ctx.comparisons += 1,
            (Ok(x), "range") => {
                ctx.check(x.min == lo && x.max == hi, &["C03"], || format!("range {:?} of {}", x, a));
                let valid = r[1].as_bool().unwrap();
                ctx.check(x.is_valid(v) == valid, &["C03"], || format!("is_valid is {} for {}/4", x.is_valid(v), a));
                if int(&r[2]) != NAN {
                    ctx.check(x.clamp(v) == quarter(&r[2]), &["C03"], || format!("clamp gives {:?} for {}/4", x.clamp(v), a));
                }
            }
            (Err(_), _) => ctx.bad(&["C03"], format!("a range {}/4 panics", a)),
            (Ok(x), _) => ctx.bad(&["C03"], format!("a range is made of {}/4: {:?}", a, x)),
        }
    }
}

fn mimic<T: Num>(a: &Value, r: &Value, ctx: &mut Ctx) {
    let m = Mimic::<T>::new(quarter(&a[0]), quarter(&a[1]));
    let x = m.mimic_position(quarter(&a[2]));
    ctx.check(f(x) == int(r) as f64 / 16.0, &["C05"], || format!("mimic_position is {:?}, expected {}/16 for {}", x, r, a));
}

const FIELDS: [&str; 7] = ["position_x", "position_y", "position_z", "rotation_x", "rotation_y", "rotation_z", "ignored_joint_names"];

fn doc(a: &Value, r: &Value, ctx: &mut Ctx) {
    let mut parts = vec![];
    for i in arr(&a[2]) {
        let i = int(i) as usize - 1;
        if i < 6 {
            match int(&a[0][i]) {
                0 => {}
                x => parts.push(format!("\"{}\":{}", FIELDS[i], x == 2)),
            }
        } else if let Some(n) = arr(&a[1]).first() {
            parts.push(format!("\"{}\": {}", FIELDS[6], n));
        }
    }
    let text = format!("{{{}}}", parts.join(", "));
    let p: &[&'static str] = &["C24"];
    let read: Vec<(&str, Result<Constraints, serde_json::Error>)> = vec![
        ("from_str", serde_json::from_str(&text)),
        ("from_reader", serde_json::from_reader(text.as_bytes())),
        ("from_value", serde_json::from_str::<Value>(&text).and_then(serde_json::from_value)),
    ];
    let want: Vec<bool> = arr(&r["flags"]).iter().map(|x| x.as_bool().unwrap()).collect();
    let names: Vec<&str> = arr(&r["names"]).iter().map(st).collect();
    let check = |c: &Constraints, how: &str, ctx: &mut Ctx| {
        let got = vec![c.position_x, c.position_y, c.position_z, c.rotation_x, c.rotation_y, c.rotation_z];
        ctx.check(got == want, p, || format!("{} {} gives flags {:?}, expected {:?}", how, text, got, want));
        ctx.check(c.ignored_joint_names == names, p, || format!("{} {} gives names {:?}, expected {:?}", how, text, c.ignored_joint_names, names));
    };
    for (how, c) in read {
        let c = match c {
            Ok(c) => c,
            Err(e) => {
                ctx.bad(p, format!("{} {} fails: {}", how, text, e));
                continue;
            }
        };
        check(&c, how, ctx);
        let again = serde_json::to_string(&c).and_then(|s| serde_json::from_str::<Constraints>(&s));
        match again {
            Ok(c) => check(&c, "written and read again", ctx),
            Err(e) => ctx.bad(p, format!("{} written cannot be read: {}", text, e)),
        }
        match serde_json::to_value(&c).and_then(serde_json::from_value::<Constraints>) {
            Ok(c) => check(&c, "written as a value and read again", ctx),
            Err(e) => ctx.bad(p, format!("{} written cannot be read: {}", text, e)),
        }
        check(&c.clone(), "cloned", ctx);
    }
    if parts.is_empty() {
        check(&Constraints::default(), "default", ctx);
    }
    // what is written has the fields by name
    let full = json!({"position_x": want[0], "position_y": want[1], "position_z": want[2], "rotation_x": want[3], "rotation_y": want[4], "rotation_z": want[5],
        "ignored_joint_names": names});
    match serde_json::from_value::<Constraints>(full) {
        Ok(c) => check(&c, "all fields", ctx),
        Err(e) => ctx.bad(p, format!("all fields of {} fail: {}", text, e)),
    }
}
