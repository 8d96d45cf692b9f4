//! KUrdf.tla against urdf_rs + k::urdf.
use crate::common::*;
use crate::tree::{iso_near, iso_txt, near, pose_of};
use k::link::Geometry;
use k::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicUsize;

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: not an array: {}", v))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v))
}
fn num(v: &Value) -> f64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not a number: {}", v)) as f64
}

fn origin_xml(o: &Value) -> String {
    let o = arr(o);
    if o.is_empty() {
        return String::new();
    }
    let l: Vec<String> = (0..3).map(|i| format!("{}", num(&o[i]) * 0.5)).collect();
    let a: Vec<String> = (3..6).map(|i| format!("{:?}", num(&o[i]) * std::f64::consts::FRAC_PI_2)).collect();
    format!("<origin xyz=\"{}\" rpy=\"{}\"/>", l.join(" "), a.join(" "))
}
fn eighths(v: &Value) -> Vec<String> {
    arr(v).iter().map(|x| format!("{}", num(x) / 8.0)).collect()
}
fn geo_xml(g: &Value) -> String {
    let v = eighths(&g["v"]);
    let inner = match st(&g["k"]) {
        "box" => format!("<box size=\"{}\"/>", v.join(" ")),
        "cylinder" => format!("<cylinder radius=\"{}\" length=\"{}\"/>", v[0], v[1]),
        "capsule" => format!("<capsule radius=\"{}\" length=\"{}\"/>", v[0], v[1]),
        "sphere" => format!("<sphere radius=\"{}\"/>", v[0]),
        "mesh" if v.is_empty() => format!("<mesh filename=\"{}\"/>", st(&g["f"])),
        "mesh" => format!("<mesh filename=\"{}\" scale=\"{}\"/>", st(&g["f"]), v.join(" ")),
        x => panic!("harness: geometry {}", x),
    };
    format!("<geometry>{}</geometry>", inner)
}
fn name_attr(v: &Value) -> String {
    if st(v).is_empty() {
        String::new()
    } else {
        format!(" name=\"{}\"", st(v))
    }
}
fn link_xml(l: &Value) -> String {
    let mut s = format!("<link name=\"{}\">", st(&l["nm"]));
    if let Some(i) = arr(&l["inr"]).first() {
        let m = eighths(&i["i"]);
        write!(
            s,
            "<inertial>{}<mass value=\"{}\"/><inertia ixx=\"{}\" ixy=\"{}\" ixz=\"{}\" iyy=\"{}\" iyz=\"{}\" izz=\"{}\"/></inertial>",
            origin_xml(&i["org"]), num(&i["mass"]) / 8.0, m[0], m[1], m[2], m[3], m[4], m[5]
        ).unwrap();
    }
    for v in arr(&l["vis"]) {
        write!(s, "<visual{}>{}{}", name_attr(&v["nm"]), origin_xml(&v["org"]), geo_xml(&v["geo"])).unwrap();
        if let Some(m) = arr(&v["mat"]).first() {
            write!(s, "<material name=\"{}\">", st(&m["nm"])).unwrap();
            if let Some(c) = arr(&m["c"]).first() {
                write!(s, "<color rgba=\"{}\"/>", eighths(c).join(" ")).unwrap();
            }
            if let Some(t) = arr(&m["t"]).first() {
                write!(s, "<texture filename=\"{}\"/>", st(t)).unwrap();
            }
            s += "</material>";
        }
        s += "</visual>";
    }
    for v in arr(&l["col"]) {
        write!(s, "<collision{}>{}{}</collision>", name_attr(&v["nm"]), origin_xml(&v["org"]), geo_xml(&v["geo"])).unwrap();
    }
    s + "</link>"
}
const AXES: [[i32; 3]; 11] = [
    [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [0, -1, 0], [0, 0, 2], [-3, 0, 0], [1, 2, 2], [3, 0, 4], [0, -6, 8], [-2, 3, 6],
];
fn joint_xml(j: &Value) -> String {
    let mut s = format!(
        "<joint name=\"{}\" type=\"{}\">{}<parent link=\"{}\"/><child link=\"{}\"/>",
        st(&j["nm"]), st(&j["ty"]), origin_xml(&j["org"]), st(&j["par"]), st(&j["chi"])
    );
    let ax = num(&j["ax"]) as usize;
    if ax > 0 {
        let a = AXES[ax - 1];
        write!(s, "<axis xyz=\"{} {} {}\"/>", a[0], a[1], a[2]).unwrap();
    }
    let lim = arr(&j["lim"]);
    if !lim.is_empty() {
        s += "<limit effort=\"1\" velocity=\"2\"";
        if st(&j["limw"]) != "upper" {
            write!(s, " lower=\"{}\"", num(&lim[0]) / 10000.0).unwrap();
        }
        if st(&j["limw"]) != "lower" {
            write!(s, " upper=\"{}\"", num(&lim[1]) / 10000.0).unwrap();
        }
        s += "/>";
    }
    if let Some(m) = arr(&j["mim"]).first() {
        write!(s, "<mimic joint=\"{}\"", st(&m["j"])).unwrap();
        if let Some(x) = arr(&m["m"]).first() {
            write!(s, " multiplier=\"{}\"", num(x) / 4.0).unwrap();
        }
        if let Some(x) = arr(&m["o"]).first() {
            write!(s, " offset=\"{}\"", num(x) / 4.0).unwrap();
        }
        s += "/>";
    }
    s + "</joint>"
}
/// Links and joints keep their order among themselves; how they interleave varies.
pub fn xml(d: &Value, variant: usize) -> String {
    let l: Vec<String> = arr(&d["links"]).iter().map(link_xml).collect();
    let j: Vec<String> = arr(&d["joints"]).iter().map(joint_xml).collect();
    let body = match variant % 3 {
        0 => l.join("\n") + "\n" + &j.join("\n"),
        1 => j.join("\n") + "\n" + &l.join("\n"),
        _ => {
            let mut out = String::new();
            for i in 0..l.len().max(j.len()) {
                if let Some(x) = l.get(i) {
                    out += x;
                }
                if let Some(x) = j.get(i) {
                    out += x;
                }
            }
            out
        }
    };
    format!("<?xml version=\"1.0\"?>\n<robot name=\"r\">\n{}\n</robot>\n", body)
}

pub fn run(beh: &[Value], is32: bool, pos: &AtomicUsize, ctx: &mut Ctx) {
    for (si, s) in beh.iter().enumerate() {
        at(pos, si, "Load");
        ctx.count(st(&s["op"]));
        let r = catch_unwind(AssertUnwindSafe(|| if is32 { load::<f32>(&s["a"][0], &s["r"], si, ctx) } else { load::<f64>(&s["a"][0], &s["r"], si, ctx) }));
        if let Err(e) = r {
            let txt = panic_text(e);
            if txt.starts_with("harness:") {
                eprintln!("{}", txt);
                std::process::exit(2);
            }
            ctx.bad(&["C18", "C19", "C20"], format!("loading panics: {} for {}", txt, xml(&s["a"][0], si)));
        }
        if !ctx.bad.is_empty() {
            return;
        }
    }
}

fn load<T: Num>(doc: &Value, exp: &Value, si: usize, ctx: &mut Ctx) {
    let variant = si + arr(&doc["links"]).len();
    let text = xml(doc, variant);
    let robot = match urdf_rs::read_from_string(&text) {
        Ok(r) => r,
        Err(e) => panic!("harness: {} in {}", e, text),
    };
    if arr(&doc["links"]).len() != robot.links.len() || arr(&doc["joints"]).len() != robot.joints.len() {
        panic!("harness: urdf_rs reads {} links and {} joints of {}", robot.links.len(), robot.joints.len(), text);
    }
    // the three ways to load
    let chain: Chain<T> = match variant % 7 {
        0 => {
            let dir = std::env::temp_dir().join(format!("kh-{}-{:?}", std::process::id(), std::thread::current().id()));
            std::fs::create_dir_all(&dir).unwrap();
            let p = dir.join("doc.urdf");
            std::fs::write(&p, &text).unwrap();
            let c = Chain::from_urdf_file(&p);
            let _ = std::fs::remove_dir_all(&dir);
            match c {
                Ok(c) => c,
                Err(e) => {
                    ctx.bad(&["C18"], format!("from_urdf_file fails: {}", e));
                    return;
                }
            }
        }
        1 | 2 => Chain::from(robot.clone()),
        _ => Chain::from(&robot),
    };
    let nodes: Vec<Node<T>> = chain.iter().cloned().collect();
    let names: Vec<String> = nodes.iter().map(|n| n.joint().name.clone()).collect();
    let mut want: Vec<String> = arr(&exp["order"]).iter().map(|x| st(x).to_string()).collect();
    let mut got = names.clone();
    want.sort();
    got.sort();
    if !ctx.check(got == want, &["C18"], || format!("loaded nodes {:?}, expected {:?} for {}", got, want, text)) {
        return;
    }
    let by: BTreeMap<&str, &Node<T>> = names.iter().map(|s| s.as_str()).zip(nodes.iter()).collect();
    let root = &nodes[0];
    ctx.check(root.joint().name == "root" && root.is_root(), &["C18"], || format!("the first node is {} for {}", names[0], text));
    let name_of = |n: &Node<T>| n.joint().name.clone();
    for e in arr(&exp["nodes"]) {
        let nm = st(&e["nm"]);
        let n = by[nm];
        let par = n.parent().map(|p| name_of(&p)).unwrap_or_default();
        ctx.check(par == st(&e["par"]), &["C18"], || format!("parent of {} is {:?}, expected {} for {}", nm, par, e["par"], text));
        let kids: Vec<Node<T>> = n.children().to_vec();
        let kids: Vec<String> = kids.iter().map(name_of).collect();
        let wk: Vec<String> = arr(&e["kids"]).iter().map(|x| st(x).to_string()).collect();
        ctx.check(kids == wk, &["C18"], || format!("children of {} are {:?}, expected {:?} for {}", nm, kids, wk, text));
        let mp = n.mimic_parent().map(|p| name_of(&p)).unwrap_or_default();
        ctx.check(mp == st(&e["mim"]), &["C18"], || format!("{} mimics {:?}, expected {} for {}", nm, mp, e["mim"], text));
        let guard = n.link();
        let link = match &*guard {
            Some(l) => l,
            None => {
                ctx.bad(&["C18"], format!("{} has no link for {}", nm, text));
                continue;
            }
        };
        let el = &e["lk"];
        if ctx.check(link.name == st(&el["nm"]), &["C18", "C19"], || format!("{} carries link {:?}, expected {} for {}", nm, link.name, el["nm"], text)) {
            compare_link(nm, link, el, &text, ctx);
        }
        drop(guard);
        if let Some(j) = arr(&e["j"]).first() {
            compare_joint(nm, &n.joint(), j, &text, ctx);
        } else {
            let j = n.joint();
            ctx.check(!j.is_movable(), &["C18"], || format!("the root node is movable for {}", text));
        }
    }
    drive_mimics(&by, exp, &text, ctx);
    // maps
    for (what, m, e) in [
        ("link_to_joint_map", k::urdf::link_to_joint_map(&robot), &exp["l2j"]),
        ("joint_to_link_map", k::urdf::joint_to_link_map(&robot), &exp["j2l"]),
    ] {
        let g: BTreeSet<(String, String)> = m.into_iter().collect();
        let w: BTreeSet<(String, String)> = arr(e).iter().map(|p| (st(&p[0]).to_string(), st(&p[1]).to_string())).collect();
        ctx.check(g == w, &["C20"], || format!("{} is {:?}, expected {:?} for {}", what, g, w, text));
    }
}

fn compare_joint<T: Num>(nm: &str, j: &k::Joint<T>, e: &Value, text: &str, ctx: &mut Ctx) {
    let (ty, axis) = match &j.joint_type {
        JointType::Fixed => ("F", None),
        JointType::Rotational { axis } => ("R", Some(axis)),
        JointType::Linear { axis } => ("L", Some(axis)),
    };
    ctx.check(ty == st(&e["ty"]), &["C19"], || format!("{} is of type {}, expected {} for {}", nm, ty, e["ty"], text));
    if let Some(a) = axis {
        let d = num(&e["ax"][0]);
        let v: Vec<f64> = arr(&e["ax"][1]).iter().map(|x| num(x) / d).collect();
        ctx.check((0..3).all(|i| near::<T>(f(a[i]), v[i])), &["C19"], || format!("axis of {} is {:?}, expected {:?} for {}", nm, a, v, text));
    }
    let lim = j.limits.clone().map(|r| (f(r.min), f(r.max)));
    let el = arr(&e["lim"]);
    let ok = match lim {
        None => el.is_empty(),
        Some((lo, hi)) => el.len() == 2 && lim_near::<T>(lo, num(&el[0]) / 10000.0) && lim_near::<T>(hi, num(&el[1]) / 10000.0),
    };
    ctx.check(ok, &["C19"], || format!("limits of {} are {:?}, expected {:?} for {}", nm, lim, el, text));
    let p = pose_of(&e["org"]).unwrap();
    ctx.check(iso_near(j.origin(), &p), &["C19"], || format!("origin of {} is {}, expected {:?} for {}", nm, iso_txt(j.origin()), p, text));
}
fn lim_near<T: Num>(a: f64, b: f64) -> bool {
    (a - b).abs() <= if T::IS32 { 1e-6 } else { 1e-12 }
}

fn compare_geo<T: Num>(g: &Geometry<T>, e: &Value) -> bool {
    let v: Vec<f64> = arr(&e["v"]).iter().map(|x| num(x) / 8.0).collect();
    let eq = |a: &[T]| a.len() == v.len() && a.iter().zip(v.iter()).all(|(x, y)| near::<T>(f(*x), *y));
    match (st(&e["k"]), g) {
        ("box", Geometry::Box { depth, width, height }) => eq(&[*depth, *width, *height]),
        ("cylinder", Geometry::Cylinder { radius, length }) => eq(&[*radius, *length]),
        ("capsule", Geometry::Capsule { radius, length }) => eq(&[*radius, *length]),
        ("sphere", Geometry::Sphere { radius }) => eq(&[*radius]),
        ("mesh", Geometry::Mesh { filename, scale }) => filename == st(&e["f"]) && eq(&[scale[0], scale[1], scale[2]]),
        _ => false,
    }
}

fn compare_link<T: Num>(nm: &str, l: &k::link::Link<T>, e: &Value, text: &str, ctx: &mut Ctx) {
    if let Some(i) = arr(&e["inr"]).first() {
        ctx.check(near::<T>(f(l.inertial.mass), num(&i["mass"]) / 8.0), &["C19"], || format!("mass of the link of {} is {:?} for {}", nm, l.inertial.mass, text));
        let m: Vec<f64> = arr(&i["m"]).iter().map(|x| num(x) / 8.0).collect();
        ctx.check((0..9).all(|k| near::<T>(f(l.inertial.inertia[(k / 3, k % 3)]), m[k])), &["C19"], || {
            format!("inertia of the link of {} is {:?}, expected {:?} for {}", nm, l.inertial.inertia, m, text)
        });
        let p = pose_of(&i["org"]).unwrap();
        ctx.check(iso_near(l.inertial.origin(), &p), &["C19"], || format!("inertial origin of {} is {} for {}", nm, iso_txt(l.inertial.origin()), text));
    }
    let ev = arr(&e["vis"]);
    if ctx.check(l.visuals.len() == ev.len(), &["C19"], || format!("{} has {} visuals for {}", nm, l.visuals.len(), text)) {
        for (v, e) in l.visuals.iter().zip(ev) {
            ctx.check(v.name == st(&e["nm"]), &["C19"], || format!("a visual of {} is named {:?} for {}", nm, v.name, text));
            let p = pose_of(&e["org"]).unwrap();
            ctx.check(iso_near(v.origin(), &p), &["C19"], || format!("visual origin of {} is {}, expected {:?} for {}", nm, iso_txt(v.origin()), p, text));
            ctx.check(compare_geo(&v.geometry, &e["geo"]), &["C19"], || format!("a visual of {} is {:?}, expected {} for {}", nm, v.geometry, e["geo"], text));
            if let Some(m) = arr(&e["mat"]).first() {
                ctx.check(v.material.name == st(&m["nm"]), &["C19"], || format!("a material of {} is named {:?} for {}", nm, v.material.name, text));
                if let Some(c) = arr(&m["c"]).first() {
                    let w: Vec<f64> = arr(c).iter().map(|x| num(x) / 8.0).collect();
                    let g = &v.material.color;
                    let g = [f(g.r), f(g.g), f(g.b), f(g.a)];
                    ctx.check((0..4).all(|k| near::<T>(g[k], w[k])), &["C19"], || format!("a colour of {} is {:?}, expected {:?} for {}", nm, g, w, text));
                }
                if let Some(x) = arr(&m["t"]).first() {
                    ctx.check(v.material.texture.filename == st(x), &["C19"], || format!("a texture of {} is {:?} for {}", nm, v.material.texture, text));
                }
            }
        }
    }
    let ec = arr(&e["col"]);
    if ctx.check(l.collisions.len() == ec.len(), &["C19"], || format!("{} has {} collisions for {}", nm, l.collisions.len(), text)) {
        for (v, e) in l.collisions.iter().zip(ec) {
            ctx.check(v.name == st(&e["nm"]), &["C19"], || format!("a collision of {} is named {:?} for {}", nm, v.name, text));
            let p = pose_of(&e["org"]).unwrap();
            ctx.check(iso_near(v.origin(), &p), &["C19"], || format!("collision origin of {} is {}, expected {:?} for {}", nm, iso_txt(v.origin()), p, text));
            ctx.check(compare_geo(&v.geometry, &e["geo"]), &["C19"], || format!("a collision of {} is {:?}, expected {} for {}", nm, v.geometry, e["geo"], text));
        }
    }
}

struct M {
    ty: String,
    lim: Option<(f64, f64)>,
    src: String,
    m: f64,
    o: f64,
}

/// Mimic coefficients are seen by moving the sources.
fn drive_mimics<T: Num>(by: &BTreeMap<&str, &Node<T>>, exp: &Value, text: &str, ctx: &mut Ctx) {
    let mut js: BTreeMap<String, M> = BTreeMap::new();
    for e in arr(&exp["nodes"]) {
        if let Some(j) = arr(&e["j"]).first() {
            let l = arr(&j["lim"]);
            let mc = arr(&j["mc"]);
            js.insert(st(&e["nm"]).to_string(), M {
                ty: st(&j["ty"]).to_string(),
                lim: if l.is_empty() { None } else { Some((num(&l[0]) / 1e4, num(&l[1]) / 1e4)) },
                src: st(&e["mim"]).to_string(),
                m: mc.get(0).map(|x| num(x) / 4.0).unwrap_or(0.0),
                o: mc.get(1).map(|x| num(x) / 4.0).unwrap_or(0.0),
            });
        }
    }
    fn deps(js: &BTreeMap<String, M>, s: &str, v: f64, out: &mut Vec<(String, f64)>) -> bool {
        for (n, j) in js.iter().filter(|(_, j)| j.src == s) {
            let x = j.m * v + j.o;
            if j.ty == "F" || j.lim.map(|(a, b)| x < a + 1e-5 || x > b - 1e-5).unwrap_or(false) {
                return false;
            }
            out.push((n.clone(), x));
            if !deps(js, n, x, out) {
                return false;
            }
        }
        true
    }
    for (s, j) in js.iter().filter(|(_, j)| j.src.is_empty() && j.ty != "F") {
        if !js.values().any(|x| &x.src == s) {
            continue;
        }
        let (lo, hi) = j.lim.unwrap_or((-3.0, 3.0));
        let mut hits = 0;
        for i in 1..24 {
            let v = lo + (hi - lo) * (i as f64) / 24.0;
            let mut out = vec![];
            if !deps(&js, s, v, &mut out) {
                continue;
            }
            hits += 1;
            match by[s.as_str()].set_joint_position(t(v)) {
                Err(e) => ctx.bad(&["C19"], format!("moving {} to {} fails: {} for {}", s, v, e, text)),
                Ok(()) => {
                    for (n, x) in out {
                        let g = f(by[n.as_str()].joint_position().unwrap());
                        ctx.check(near::<T>(g, x), &["C19"], || format!("{} is at {} when {} is at {}, expected {} for {}", n, g, s, v, x, text));
                    }
                }
            }
            if hits == 3 {
                break;
            }
        }
        if hits > 0 {
            ctx.count("mimics driven");
        }
    }
}
