//! Threads are coroutines of one OS thread; they are switched when they are about to lock a mutex of a
//! node, so that a schedule is a sequence of choices and each run can be repeated.
use crate::tree::{axis, org, pose_of, P};
use corosensei::{Coroutine, CoroutineResult, Yielder};
use k::joint::{Mimic, Range};
use k::link::*;
use k::prelude::*;
use k::sync::{set_lock_hook, LockHook};
use k::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type N = Node<f64>;

// ------------------------------------------------------------------ canonical texts
fn num(x: f64) -> String {
    if x.is_nan() {
        return "nan".into();
    }
    if x.is_infinite() {
        return if x > 0.0 { "inf".into() } else { "-inf".into() };
    }
    format!("{}", (x * 1e4).round() as i64)
}
fn nums(v: &[f64]) -> String {
    v.iter().map(|x| num(*x)).collect::<Vec<_>>().join(",")
}
fn pose_txt(p: &P) -> String {
    format!("p[{}][{}]", nums(&p.r), nums(&p.t))
}
fn iso_txt(i: &Isometry3<f64>) -> String {
    let m = i.rotation.to_rotation_matrix();
    let m = m.matrix();
    let mut r = [0.0; 9];
    for k in 0..9 {
        r[k] = m[(k / 3, k % 3)];
    }
    let t = i.translation.vector;
    pose_txt(&P { r, t: [t[0], t[1], t[2]] })
}
fn vec_txt(v: &Value, scale: f64) -> String {
    let d = v[0].as_i64().unwrap() as f64;
    let x: Vec<f64> = v[1].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64 / d * scale).collect();
    nums(&x)
}
/// What the specification says, as the text `call` gives
fn expected(v: &Value) -> String {
    let a = v.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "p" => pose_txt(&pose_of(&a[1]).unwrap()),
        "v" => format!("v[{}][{}]", vec_txt(&a[1], 0.5), vec_txt(&a[2], 1.0)),
        "c" => format!("c[{}]", vec_txt(&a[1], 0.5)),
        "j" => format!("j[{}][{}]", vec_txt(&a[1], 0.5), vec_txt(&a[2], 1.0)),
        "k" => format!("k {} {} {} {}", a[1], a[2].to_string().trim_matches('"'), iso_txt(&org(&a[3])), a[4].as_str().unwrap()),
        "l" => format!("l {} {} {}", a[1], a[2], a[3].as_str().unwrap()),
        "any" => "any".into(),
        _ => v.to_string(),
    }
}

// ------------------------------------------------------------------ worlds
struct World {
    node: Vec<N>, // 1-based
    ty: Vec<String>,
    all: Chain<f64>,
    arm: SerialChain<f64>,
    part: Chain<f64>,
    addr: HashSet<usize>,
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn unit(ty: &str) -> f64 {
    if ty == "R" {
        std::f64::consts::FRAC_PI_2
    } else {
        0.5
    }
}
fn link(v: &Value) -> Option<Link<f64>> {
    let l = v.as_array().unwrap().first()?;
    let mut inertial = Inertial::from_mass(l["mass"].as_i64().unwrap() as f64);
    inertial.set_origin(org(&l["i"]));
    Some(LinkBuilder::new().name(l["nm"].as_str().unwrap()).inertial(inertial).finalize())
}
fn build(w: &Value) -> World {
    let ns = w["n"].as_array().unwrap();
    let mut node = vec![];
    let mut ty = vec![String::new()];
    for n in ns {
        let t = n["ty"].as_str().unwrap();
        let jt = match t {
            "R" => JointType::Rotational { axis: axis(us(&n["ax"])) },
            "L" => JointType::Linear { axis: axis(us(&n["ax"])) },
            _ => JointType::Fixed,
        };
        let mut j = Joint::new(n["nm"].as_str().unwrap(), jt);
        j.set_origin(org(&n["org"]));
        let lim = n["lim"].as_array().unwrap();
        if !lim.is_empty() {
            j.limits = Some(Range::new(lim[0].as_i64().unwrap() as f64 * unit(t) - 1e-9, lim[1].as_i64().unwrap() as f64 * unit(t) + 1e-9));
        }
        if t != "F" {
            j.set_joint_velocity(n["vel"].as_i64().unwrap() as f64).unwrap();
        }
        let x = Node::new(j);
        x.set_link(link(&n["lk"]));
        node.push(x);
        ty.push(t.to_string());
    }
    node.insert(0, node[0].clone()); // unused
    for (i, n) in ns.iter().enumerate() {
        for c in n["kids"].as_array().unwrap() {
            node[us(c)].set_parent(&node[i + 1]);
        }
    }
    for (i, n) in ns.iter().enumerate() {
        let mc = n["mc"].as_array().unwrap();
        if !mc.is_empty() {
            node[i + 1].set_mimic_parent(&node[us(&n["mp"])], mimic(&ty[i + 1], &n["mc"]));
        }
    }
    let all = Chain::from_root(node[1].clone());
    let arm = SerialChain::from_end(&node[us(&w["end"])]);
    // the arm without its first joint
    let end = &node[us(&w["end"])];
    let part = match arm.iter().nth(1) {
        Some(second) => Chain::from_end_to_root(end, second),
        None => Chain::from_end(end),
    };
    World { node, ty, all, arm, part, addr: HashSet::new() }
}
fn mimic(ty: &str, m: &Value) -> Mimic<f64> {
    Mimic::new(m[0].as_i64().unwrap() as f64, m[1].as_i64().unwrap() as f64 * unit(ty))
}
impl World {
    fn chain(&self, c: &Value) -> &Chain<f64> {
        match us(c) {
            1 => &self.all,
            2 => &self.arm,
            _ => &self.part,
        }
    }
    fn id(&self, n: &N) -> usize {
        (1..self.node.len()).find(|i| self.node[*i] == *n).unwrap_or(0)
    }
    fn pos_txt(&self, i: usize, p: Option<f64>) -> String {
        match p {
            None => "none".into(),
            Some(x) => {
                let v = x / unit(&self.ty[i]);
                if (v - v.round()).abs() < 1e-6 {
                    format!("{}", v.round() as i64)
                } else {
                    format!("{}", v)
                }
            }
        }
    }
    fn ids(&self, ns: impl Iterator<Item = N>) -> Value {
        json!(["ids", ns.map(|n| self.id(&n)).collect::<Vec<_>>()])
    }
    fn vals(&self, c: &Chain<f64>, v: &Value) -> Vec<f64> {
        // read without locking: the types do not change
        let mov: Vec<usize> = c.iter().map(|n| self.id(n)).filter(|i| self.ty[*i] != "F").collect();
        v.as_array().unwrap().iter().enumerate().map(|(k, x)| x.as_i64().unwrap() as f64 * unit(&self.ty[mov[k]])).collect()
    }
    fn err(&self, r: Result<(), Error>, i: usize, v: &Value) -> Vec<String> {
        vec![match r {
            Ok(()) => json!(["ok"]).to_string(),
            Err(Error::SetToFixedError { .. }) => json!(["fixed", i]).to_string(),
            Err(Error::OutOfLimitError { .. }) => json!(["limit", i, v]).to_string(),
            Err(e) => format!("{:?}", e),
        }]
    }
}
fn ok() -> Vec<String> {
    vec![json!(["ok"]).to_string()]
}
fn name_of(l: &Option<Link<f64>>) -> String {
    l.as_ref().map(|l| l.name.clone()).unwrap_or_else(|| "none".into())
}

/// One call and its result, as texts
fn call(w: &World, o: &Value) -> Vec<String> {
    let op = o[0].as_str().unwrap();
    let node = |k: usize| &w.node[us(&o[k])];
    let val = |i: usize, v: &Value| v.as_i64().unwrap() as f64 * unit(&w.ty[i]);
    match op {
        "Get" => vec![match node(1).joint_position() {
            None => json!(["n"]).to_string(),
            p => format!("[\"i\",{}]", w.pos_txt(us(&o[1]), p)),
        }],
        "Set" => {
            let i = us(&o[1]);
            w.err(node(1).set_joint_position(val(i, &o[2])), i, &o[2])
        }
        "SetC" => {
            node(1).set_joint_position_clamped(val(us(&o[1]), &o[2]));
            ok()
        }
        "SetU" => {
            // the library leaves this open for fixed joints, the model does nothing
            node(1).set_joint_position_unchecked(val(us(&o[1]), &o[2]));
            ok()
        }
        "SetOrg" => {
            node(1).set_origin(org(&o[2]));
            ok()
        }
        "SetLink" => {
            node(1).set_link(link(&o[2]));
            ok()
        }
        "GetLink" => {
            let g = node(1).link();
            vec![match &*g {
                None => json!(["n"]).to_string(),
                Some(l) => json!(["s", l.name]).to_string(),
            }]
        }
        "Find" => {
            let nm = format!("j{}", o[1]);
            vec![json!(["i", w.all.find(&nm).map(|n| w.id(n)).unwrap_or(0)]).to_string()]
        }
        "IterA" => vec![w.ids(node(1).iter_ancestors()).to_string()],
        "IterD" => vec![w.ids(node(1).iter_descendants()).to_string()],
        "ChRoot" => vec![w.ids(Chain::from_root(node(1).clone()).iter().cloned()).to_string()],
        "ChEnd" => vec![w.ids(Chain::from_end(node(1)).iter().cloned()).to_string()],
        "ChE2R" => vec![w.ids(Chain::from_end_to_root(node(1), node(2)).iter().cloned()).to_string()],
        "TryNew" => {
            let c = Chain::from_nodes(w.all.iter().cloned().collect());
            vec![json!(["s", if SerialChain::try_new(c).is_some() { "some" } else { "none" }]).to_string()]
        }
        "Near" => {
            let n = node(1);
            let mut v: Vec<usize> = n.parent().iter().map(|p| w.id(p)).collect();
            v.push(0);
            let kids: Vec<N> = n.children().clone();
            v.extend(kids.iter().map(|c| w.id(c)));
            let _ = (n.is_root(), n.is_end(), n.mimic_parent().is_some());
            vec![json!(["ids", v]).to_string()]
        }
        "CSet" => {
            let c = w.chain(&o[1]);
            w.err(c.set_joint_positions(&w.vals(c, &o[2])), 0, &o[2])
        }
        "CSetC" => {
            let c = w.chain(&o[1]);
            c.set_joint_positions_clamped(&w.vals(c, &o[2]));
            ok()
        }
        "CSetU" => {
            let c = w.chain(&o[1]);
            c.set_joint_positions_unchecked(&w.vals(c, &o[2]));
            ok()
        }
        "CGet" => {
            let c = w.chain(&o[1]);
            let mov: Vec<usize> = c.iter().map(|n| w.id(n)).filter(|i| w.ty[*i] != "F").collect();
            let ps = c.joint_positions();
            let t: Vec<String> = ps.iter().enumerate().map(|(k, p)| w.pos_txt(mov[k.min(mov.len() - 1)], Some(*p))).collect();
            vec![format!("[\"ids\",[{}]]", t.join(","))]
        }
        "UpdT" => w.chain(&o[1]).update_transforms().iter().map(iso_txt).collect(),
        "UpdV" => w.chain(&o[1]).update_velocities().iter().map(vel_txt).collect(),
        "UpdL" => {
            w.chain(&o[1]).update_link_transforms();
            ok()
        }
        "CoM" => {
            let v = center_of_mass(w.chain(&o[1]));
            vec![format!("c[{}]", nums(&[v[0], v[1], v[2]]))]
        }
        "EndTf" => vec![iso_txt(&w.arm.end_transform())],
        "Jac" => {
            let m = jacobian(&w.arm);
            (0..m.ncols()).map(|c| format!("j[{}][{}]", nums(&[m[(0, c)], m[(1, c)], m[(2, c)]]), nums(&[m[(3, c)], m[(4, c)], m[(5, c)]]))).collect()
        }
        "Clone" => {
            let c = w.chain(&o[1]).clone();
            c.iter()
                .map(|n| {
                    let i: usize = n.joint().name[1..].parse().unwrap_or(0);
                    let l = n.link().clone();
                    format!("k {} {} {} {}", i, w.pos_txt(i, n.joint_position()), iso_txt(&n.origin()), name_of(&l))
                })
                .collect()
        }
        "Links" => vec![json!(["ss", w.chain(&o[1]).iter_links().map(|l| l.name.clone()).collect::<Vec<_>>()]).to_string()],
        "Print" => format!("{}", w.chain(&o[1]))
            .lines()
            .map(|l| {
                let body = l.trim_start_matches(' ');
                let nm = body.split_whitespace().next().unwrap_or("j0");
                let lk = body.find("=> /").map(|i| body[i + 4..].trim_end_matches('/').to_string()).unwrap_or_else(|| "none".into());
                format!("l {} {} {}", (l.len() - body.len()) / 4, &nm[1..], lk)
            })
            .collect(),
        "SetParent" => {
            node(1).set_parent(node(2));
            ok()
        }
        "RmParent" => {
            node(1).remove_parent(node(2));
            ok()
        }
        "SetMimic" => {
            node(1).set_mimic_parent(node(2), mimic(&w.ty[us(&o[1])], &o[3]));
            ok()
        }
        "Solve" => {
            let s = JacobianIkSolver::new(0.01, 0.01, 0.5, 2);
            let c = Constraints { position_x: true, position_y: false, position_z: true, rotation_x: false, rotation_y: false, rotation_z: false, ..Default::default() };
            let target = Isometry3::translation(1.0, 0.5, 0.25);
            let _ = s.solve_with_constraints(&w.arm, &target, &c);
            ok()
        }
        _ => panic!("harness: {}", op),
    }
}
fn vel_txt(v: &k::joint::Velocity<f64>) -> String {
    let (l, a) = (v.translation, v.rotation);
    format!("v[{}][{}]", nums(&[l[0], l[1], l[2]]), nums(&[a[0], a[1], a[2]]))
}

// ------------------------------------------------------------------ schedules
struct Hook;
static HOOK: Hook = Hook;
#[derive(Default)]
struct Exec {
    owner: HashMap<usize, usize>,
    shared: HashSet<usize>,
    yielders: Vec<*const ()>,
    cur: usize,
    locks: usize,
    capture: Option<HashSet<usize>>,
    log: Option<Vec<(usize, i64)>>,
}
thread_local! {
    static EXEC: RefCell<Exec> = RefCell::new(Exec::default());
}
/// What a thread that does not wait for a mutex waits for
const ANY: usize = 0;
impl LockHook for Hook {
    fn before_lock(&self, m: usize) {
        let y = EXEC.with(|e| {
            let mut e = e.borrow_mut();
            if let Some(ref mut c) = e.capture {
                c.insert(m);
                return None;
            }
            e.locks += 1;
            let cur = e.cur;
            if !e.shared.contains(&m) && !e.owner.contains_key(&m) {
                // nobody else knows this node yet
                e.owner.insert(m, cur);
                return None;
            }
            Some(e.yielders[cur])
        });
        if let Some(y) = y {
            // resumed when the mutex is free; the scheduler has made us its owner
            let y = unsafe { &*(y as *const Yielder<(), usize>) };
            y.suspend(m);
        }
    }
    fn before_try_lock(&self, m: usize) {
        let y = EXEC.with(|e| {
            let mut e = e.borrow_mut();
            e.locks += 1;
            let cur = e.cur;
            if e.capture.is_some() || (!e.shared.contains(&m) && !e.owner.contains_key(&m)) {
                return None;
            }
            Some(e.yielders[cur])
        });
        if let Some(y) = y {
            let y = unsafe { &*(y as *const Yielder<(), usize>) };
            y.suspend(ANY);
        }
    }
    fn after_try_lock(&self, m: usize) {
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            let cur = e.cur;
            e.owner.insert(m, cur);
        })
    }
    fn after_unlock(&self, m: usize) {
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            let cur = e.cur;
            if let Some(ref mut l) = e.log {
                l.push((cur, -(m as i64)));
            }
            e.owner.remove(&m);
        })
    }
}

#[derive(Clone, Debug)]
enum End {
    Done,
    Deadlock(String),
    Panic(usize, String),
    Endless,
}
struct Point {
    opts: Vec<u8>,
    at: usize,
}
struct Run {
    end: End,
    outcome: Outcome,
    points: Vec<Point>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Outcome {
    r: Vec<Vec<Vec<String>>>,
    f: Vec<Fin>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Fin {
    pos: String,
    org: String,
    lk: String,
    tf: Option<String>,
    vl: Option<String>,
    ls: Option<String>,
}

enum How<'a> {
    /// follow, then continue without preemption; at most so many preemptions
    Follow(&'a [u8], usize),
    /// random choices
    Random(u64),
}
fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

const MAX_LOCKS: usize = 20_000;

fn finals(w: &World) -> Vec<Fin> {
    (1..w.node.len())
        .map(|i| {
            let n = &w.node[i];
            let l = n.link().clone();
            Fin {
                pos: w.pos_txt(i, n.joint_position()),
                org: iso_txt(&n.origin()),
                lk: name_of(&l),
                tf: n.world_transform().map(|t| iso_txt(&t)),
                vl: n.world_velocity().map(|v| vel_txt(&v)),
                ls: l.and_then(|l| l.inertial.world_transform().map(|t| iso_txt(&t))),
            }
        })
        .collect()
}

/// Run the threads once. `sizes`: the calls of each thread.
fn run(world: &Value, th: &[Vec<Value>], how: How) -> Run {
    BEATS[ME.with(|m| m.get())].fetch_add(1, Ordering::Relaxed);
    set_lock_hook(None);
    let mut w = build(world);
    // the mutexes of the nodes
    EXEC.with(|e| *e.borrow_mut() = Exec { capture: Some(HashSet::new()), ..Exec::default() });
    set_lock_hook(Some(&HOOK));
    for n in &w.node {
        let _ = n.joint_position();
    }
    let shared = EXEC.with(|e| e.borrow_mut().capture.take().unwrap());
    w.addr = shared.clone();
    EXEC.with(|e| *e.borrow_mut() = Exec { shared, yielders: vec![std::ptr::null(); th.len()], ..Exec::default() });
    let w = Rc::new(w);
    let res: Rc<RefCell<Vec<Vec<Vec<String>>>>> = Rc::new(RefCell::new(vec![vec![]; th.len()]));
    let panicked: Rc<RefCell<Option<(usize, String)>>> = Rc::new(RefCell::new(None));
    let mut co: Vec<Option<Coroutine<(), usize, ()>>> = vec![];
    for (t, ops) in th.iter().enumerate() {
        let (w, res, panicked, ops) = (w.clone(), res.clone(), panicked.clone(), ops.clone());
        let c = Coroutine::with_stack(corosensei::stack::DefaultStack::new(256 << 10).unwrap(), move |y: &Yielder<(), usize>, _: ()| {
            EXEC.with(|e| e.borrow_mut().yielders[t] = y as *const _ as *const ());
            for o in &ops {
                match catch_unwind(AssertUnwindSafe(|| call(&w, o))) {
                    Ok(r) => res.borrow_mut()[t].push(r),
                    Err(e) => {
                        let txt = crate::common::panic_text(e);
                        if panicked.borrow().is_none() {
                            *panicked.borrow_mut() = Some((t, format!("{} panics: {}", o, txt)));
                        }
                        return;
                    }
                }
            }
        });
        co.push(Some(c));
    }
    let mut want: Vec<Option<usize>> = vec![None; th.len()]; // None: not begun
    let mut alive: Vec<bool> = th.iter().map(|o| !o.is_empty()).collect();
    let mut points: Vec<Point> = vec![];
    let mut cur: Option<usize> = None;
    let mut used = 0;
    let mut seed = if let How::Random(s) = how { s | 1 } else { 0 };
    let end = loop {
        if let Some((t, x)) = panicked.borrow().clone() {
            break End::Panic(t, x);
        }
        if !alive.iter().any(|a| *a) {
            break End::Done;
        }
        let (enabled, locks): (Vec<usize>, usize) = EXEC.with(|e| {
            let e = e.borrow();
            ((0..th.len()).filter(|t| alive[*t] && want[*t].map(|m| !e.owner.contains_key(&m)).unwrap_or(true)).collect(), e.locks)
        });
        if enabled.is_empty() {
            let txt = EXEC.with(|e| {
                let e = e.borrow();
                (0..th.len())
                    .filter(|t| alive[*t])
                    .map(|t| format!("thread {} waits for a node locked by thread {}", t + 1, e.owner[&want[t].unwrap()] + 1))
                    .collect::<Vec<_>>()
                    .join(", ")
            });
            break End::Deadlock(txt);
        }
        if locks > MAX_LOCKS {
            break End::Endless;
        }
        // the first option is to go on
        let cont = cur.filter(|c| enabled.contains(c));
        let mut opts: Vec<u8> = vec![];
        if let Some(c) = cont {
            opts.push(c as u8);
        }
        let free = match how {
            How::Follow(_, bound) => cont.is_none() || used < bound,
            How::Random(_) => true,
        };
        if free {
            opts.extend(enabled.iter().filter(|t| Some(**t) != cont).map(|t| *t as u8));
        }
        let at = match how {
            How::Follow(p, _) => p.get(points.len()).map(|c| opts.iter().position(|o| o == c).unwrap_or(0)).unwrap_or(0),
            How::Random(_) => {
                if cont.is_some() && rnd(&mut seed) % 3 != 0 {
                    0
                } else {
                    (rnd(&mut seed) % opts.len() as u64) as usize
                }
            }
        };
        let t = opts[at] as usize;
        if cont.is_some() && Some(t) != cont {
            used += 1;
        }
        points.push(Point { opts, at });
        cur = Some(t);
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            e.cur = t;
            if let Some(m) = want[t].filter(|m| *m != ANY) {
                e.owner.insert(m, t);
                if let Some(ref mut l) = e.log {
                    l.push((t, m as i64));
                }
            }
        });
        match co[t].as_mut().unwrap().resume(()) {
            CoroutineResult::Yield(m) => want[t] = Some(m),
            CoroutineResult::Return(()) => alive[t] = false,
        }
    };
    set_lock_hook(None);
    let ended = !alive.iter().any(|a| *a);
    for c in co.iter_mut() {
        let c = c.take().unwrap();
        if c.done() {
            drop(c);
        } else {
            std::mem::forget(c); // its stack holds guards
        }
    }
    let mut end = end;
    let f = if ended && matches!(end, End::Done) {
        match catch_unwind(AssertUnwindSafe(|| finals(&w))) {
            Ok(f) => f,
            Err(e) => {
                end = End::Panic(0, format!("a node cannot be used afterwards: {}", crate::common::panic_text(e)));
                vec![]
            }
        }
    } else {
        vec![]
    };
    let r = res.borrow().clone();
    Run { end, outcome: Outcome { r, f }, points }
}

// ------------------------------------------------------------------ what the specification allows
struct Pattern {
    r: Vec<Vec<Vec<HashSet<String>>>>,
    f: Vec<FinPat>,
}
struct FinPat {
    pos: String,
    org: String,
    lk: String,
    tf: HashSet<String>,
    vl: HashSet<String>,
    ls: HashSet<String>,
    placed: bool,
}
fn strings(v: &Value) -> HashSet<String> {
    v.as_array().unwrap().iter().map(expected).collect()
}
fn pattern(v: &Value) -> Pattern {
    let arr = |v: &Value| v.as_array().unwrap().clone();
    Pattern {
        r: arr(&v["r"]).iter().map(|t| arr(t).iter().map(|o| arr(o).iter().map(strings).collect()).collect()).collect(),
        f: arr(&v["f"])
            .iter()
            .map(|x| FinPat {
                pos: x["pos"].to_string().trim_matches('"').to_string(),
                org: iso_txt(&org(&x["org"])),
                lk: x["lk"].as_str().unwrap().to_string(),
                tf: strings(&x["tf"]),
                vl: strings(&x["vl"]),
                ls: strings(&x["ls"]),
                placed: x["placed"].as_bool().unwrap(),
            })
            .collect(),
    }
}
fn opt_in(o: &Option<String>, s: &HashSet<String>) -> bool {
    o.as_ref().map(|x| s.contains(x)).unwrap_or(true)
}
/// How many parts fit, and the first that does not
fn fits(o: &Outcome, p: &Pattern) -> Result<(), (usize, String)> {
    let mut good = 0;
    for (t, (a, b)) in o.r.iter().zip(&p.r).enumerate() {
        for (q, (x, y)) in a.iter().zip(b).enumerate() {
            if x.len() != y.len() {
                return Err((good, format!("thread {} call {}: {} values instead of {}", t + 1, q + 1, x.len(), y.len())));
            }
            for (j, (v, s)) in x.iter().zip(y).enumerate() {
                if !(s.contains(v) || s.contains("any")) {
                    return Err((good, format!("thread {} call {} value {}: {} is none of {:?}", t + 1, q + 1, j + 1, v, s)));
                }
                good += 1;
            }
        }
    }
    for (i, (a, b)) in o.f.iter().zip(&p.f).enumerate() {
        let e = |what: String| Err((good, format!("afterwards node {}: {}", i + 1, what)));
        if a.pos != b.pos {
            return e(format!("position {} instead of {}", a.pos, b.pos));
        }
        if a.org != b.org {
            return e(format!("origin {} instead of {}", a.org, b.org));
        }
        if a.lk != b.lk {
            return e(format!("link {} instead of {}", a.lk, b.lk));
        }
        if !opt_in(&a.tf, &b.tf) {
            return e(format!("world transform {:?} is none of {:?}", a.tf, b.tf));
        }
        if !opt_in(&a.vl, &b.vl) {
            return e(format!("world velocity {:?} is none of {:?}", a.vl, b.vl));
        }
        if !opt_in(&a.ls, &b.ls) || (b.placed && a.ls.is_none()) {
            return e(format!("link pose {:?} is none of {:?}", a.ls, b.ls));
        }
        good += 1;
    }
    Ok(())
}

#[derive(Default, Clone)]
struct Stats {
    runs: u64,
    outcomes: u64,
    complete: u64,
    cut: u64,
    random: u64,
    skipped: u64,
    checks: u64,
}
struct Program {
    key: Value,
    terms: Vec<Value>,
}
struct Limits {
    bound: usize,
    cap: usize,
    random: usize,
}
#[derive(Clone)]
struct Found {
    prop: &'static str,
    what: String,
    schedule: Vec<u8>,
}

/// Runs begun by each worker: one that does not go on is stuck at a lock this module does not see
const MAX_WORKERS: usize = 64;
static BEATS: [AtomicUsize; MAX_WORKERS] = [const { AtomicUsize::new(0) }; MAX_WORKERS];
thread_local! {
    static ME: Cell<usize> = Cell::new(0);
}

fn threads(p: &Value) -> Vec<Vec<Value>> {
    p["th"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect()
}

/// Every order of the calls, one at a time: true if one of them panics
fn panics_alone(world: &Value, th: &[Vec<Value>]) -> bool {
    fn go(world: &Value, th: &[Vec<Value>], at: &mut Vec<usize>, seq: &mut Vec<Value>) -> bool {
        let mut any = false;
        for t in 0..th.len() {
            if at[t] < th[t].len() {
                any = true;
                seq.push(th[t][at[t]].clone());
                at[t] += 1;
                let r = go(world, th, at, seq);
                at[t] -= 1;
                seq.pop();
                if r {
                    return true;
                }
            }
        }
        if any {
            return false;
        }
        matches!(run(world, &[seq.clone()], How::Follow(&[], 0)).end, End::Panic(..))
    }
    go(world, th, &mut vec![0; th.len()], &mut vec![])
}

fn explore(worlds: &[Value], p: &Program, lim: &Limits, seed: u64, prop: &str, st: &mut Stats) -> Vec<Found> {
    let world = &worlds[us(&p.key["w"]) - 1];
    let th = threads(&p.key);
    let structural = p.key["s"] == json!(1);
    let pats: Vec<Pattern> = if structural { vec![] } else { p.terms.iter().map(pattern).collect() };
    let mut seen: HashSet<Outcome> = HashSet::new();
    let mut found: Vec<Found> = vec![];
    let mut alone: Option<bool> = None;
    let mut judge = |r: &Run, st: &mut Stats, found: &mut Vec<Found>| {
        st.runs += 1;
        let sched: Vec<u8> = r.points.iter().map(|p| p.opts[p.at]).collect();
        match &r.end {
            End::Deadlock(x) => found.push(Found { prop: "C21", what: format!("deadlock: {}", x), schedule: sched }),
            End::Endless => found.push(Found { prop: "C21", what: "a call does not return".into(), schedule: sched }),
            End::Panic(_, x) => {
                if *alone.get_or_insert_with(|| panics_alone(world, &th)) {
                    st.skipped += 1;
                } else {
                    found.push(Found { prop: "C21", what: x.clone(), schedule: sched });
                }
            }
            End::Done => {
                if !structural && seen.insert(r.outcome.clone()) {
                    st.outcomes += 1;
                    st.checks += pats.len() as u64;
                    let mut best: Option<(usize, String)> = None;
                    for p in &pats {
                        match fits(&r.outcome, p) {
                            Ok(()) => return,
                            Err(e) => {
                                if best.as_ref().map(|b| e.0 > b.0).unwrap_or(true) {
                                    best = Some(e);
                                }
                            }
                        }
                    }
                    let what = format!("no interleaving explains it: {}", best.map(|b| b.1).unwrap_or_default());
                    found.push(Found { prop: "C22", what, schedule: sched });
                }
            }
        }
    };
    // depth first, within the bound on preemptions
    let mut prefix: Vec<u8> = vec![];
    let mut n = 0;
    let mut complete = false;
    loop {
        let r = run(world, &th, How::Follow(&prefix, lim.bound));
        judge(&r, st, &mut found);
        n += 1;
        if found.iter().any(|f| f.prop == prop || prop.is_empty()) || found.len() > 4 {
            return found;
        }
        // the last point with an option left
        match r.points.iter().rposition(|p| p.at + 1 < p.opts.len()) {
            None => {
                complete = true;
                break;
            }
            Some(d) => {
                prefix = r.points[..d].iter().map(|p| p.opts[p.at]).collect();
                prefix.push(r.points[d].opts[r.points[d].at + 1]);
            }
        }
        if n >= lim.cap {
            break;
        }
    }
    if complete {
        st.complete += 1;
    } else {
        st.cut += 1;
    }
    let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
    let extra = if complete { lim.random } else { lim.random * 3 };
    for _ in 0..extra {
        let r = run(world, &th, How::Random(rnd(&mut s)));
        st.random += 1;
        judge(&r, st, &mut found);
        if found.iter().any(|f| f.prop == prop || prop.is_empty()) || found.len() > 4 {
            return found;
        }
    }
    found
}

pub fn drive(args: &[String]) -> i32 {
    let opt = |name: &str| -> Option<String> { args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned() };
    let num = |name: &str, d: usize| opt(name).and_then(|s| s.parse().ok()).unwrap_or(d);
    let prop = opt("--prop").unwrap_or_default();
    let out = opt("--out").expect("--out");
    let replay_dir = opt("--replays").unwrap_or_else(|| ".".into());
    let tag = opt("--tag").unwrap_or_else(|| "conc".into());
    let current = opt("--current");
    let lim = Limits { bound: num("--bound", 2), cap: num("--cap", 2000), random: num("--random", 100) };
    let budget = Duration::from_secs(num("--budget", 600) as u64);
    let seed = num("--seed", 1) as u64;
    // programs
    let mut worlds: Vec<Value> = vec![];
    let mut progs: Vec<Program> = vec![];
    let mut index: HashMap<String, usize> = HashMap::new();
    let mut log = opt("--log").map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap()));
    for line in std::io::stdin().lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.starts_with("\"@") {
            if let Ok(s) = serde_json::from_str::<String>(line.trim_end()) {
                let v: Value = serde_json::from_str(&s[2..]).expect("json");
                if s.starts_with("@W") {
                    worlds = v.as_array().unwrap().clone();
                } else {
                    let key = json!({"w": v["w"], "th": v["th"], "s": v["s"]});
                    let i = *index.entry(key.to_string()).or_insert_with(|| {
                        progs.push(Program { key, terms: vec![] });
                        progs.len() - 1
                    });
                    progs[i].terms.push(v);
                }
                continue;
            }
        }
        if let Some(ref mut f) = log {
            use std::io::Write;
            let _ = writeln!(f, "{}", line);
        }
    }
    drop(log);
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let total = Mutex::new((Stats::default(), Vec::<(usize, Found)>::new(), BTreeMap::<String, u64>::new(), 0usize));
    let order: Vec<usize> = {
        // not always the same first, if the time is short
        let mut v: Vec<usize> = (0..progs.len()).collect();
        let mut s = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) | 1;
        for i in (1..v.len()).rev() {
            v.swap(i, (rnd(&mut s) % (i as u64 + 1)) as usize);
        }
        v
    };
    let workers = num("--workers", 8);
    let job = Arc::new(Job { worlds, progs, lim, next, total, prop, order, current, seed, budget, start, others: Mutex::new(vec![]) });
    let mut busy: Vec<(std::thread::JoinHandle<()>, usize, usize, Instant)> = vec![];
    let mut begun = 0;
    let mut stuck = 0;
    let mut spawn = |busy: &mut Vec<(std::thread::JoinHandle<()>, usize, usize, Instant)>| {
        if begun < MAX_WORKERS {
            let (j, id) = (job.clone(), begun);
            busy.push((std::thread::Builder::new().stack_size(16 << 20).spawn(move || work(&j, id)).unwrap(), id, 0, Instant::now()));
            begun += 1;
        }
    };
    for _ in 0..workers {
        spawn(&mut busy);
    }
    while !busy.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        for q in (0..busy.len()).rev() {
            if busy[q].0.is_finished() {
                let _ = busy.remove(q).0.join();
                continue;
            }
            let beat = BEATS[busy[q].1].load(Ordering::Relaxed);
            if beat != busy[q].2 {
                busy[q].2 = beat;
                busy[q].3 = Instant::now();
            } else if busy[q].3.elapsed() > Duration::from_secs(30) {
                stuck += 1;
                busy.remove(q);
                spawn(&mut busy);
            }
        }
    }
    let (st, mut viol, other, done) = std::mem::take(&mut *job.total.lock().unwrap());
    let (worlds, progs, lim) = (&job.worlds, &job.progs, &job.lim);
    viol.truncate(3);
    let mut files = vec![];
    for (q, (i, f)) in viol.iter().enumerate() {
        let p = format!("{}/{}-{}.json", replay_dir, tag, q);
        let v = json!({"sub": "conc", "prop": f.prop, "what": [f.what], "worlds": worlds, "program": progs[*i].key, "terms": progs[*i].terms, "schedule": f.schedule});
        std::fs::write(&p, v.to_string()).unwrap();
        files.push(p);
    }
    let o = json!({"behaviours": st.runs, "runs": st.runs, "steps": st.runs, "comparisons": st.checks, "inconclusive": st.skipped, "other": other,
        "counts": {"programs": progs.len(), "programs explored": done, "all schedules within the bound": st.complete, "cut at the cap": st.cut,
            "random schedules": st.random, "different outcomes": st.outcomes, "blocked outside of the schedule": stuck, "final states of the specification": progs.iter().map(|p| p.terms.len()).sum::<usize>()},
        "extra": {"preemptions": lim.bound, "cap": lim.cap},
        "violations": viol.iter().map(|(i, f)| json!({"what": [format!("{} in {}", f.what, progs[*i].key["th"])], "step": 0})).collect::<Vec<_>>(),
        "replays": files, "other_samples": *job.others.lock().unwrap(), "samples": progs.iter().take(2).map(|p| json!(p.key)).collect::<Vec<_>>()});
    std::fs::write(&out, serde_json::to_string_pretty(&o).unwrap()).unwrap();
    // (workers that are stuck are left behind)
    if viol.is_empty() {
        0
    } else {
        1
    }
}

struct Job {
    worlds: Vec<Value>,
    progs: Vec<Program>,
    lim: Limits,
    next: AtomicUsize,
    total: Mutex<(Stats, Vec<(usize, Found)>, BTreeMap<String, u64>, usize)>,
    prop: String,
    order: Vec<usize>,
    current: Option<String>,
    seed: u64,
    budget: Duration,
    start: Instant,
    others: Mutex<Vec<Value>>,
}
fn work(j: &Job, id: usize) {
    ME.with(|m| m.set(id));
    loop {
        let q = j.next.fetch_add(1, Ordering::SeqCst);
        if q >= j.order.len() || j.start.elapsed() > j.budget {
            return;
        }
        let i = j.order[q];
        if let Some(d) = &j.current {
            let v = json!({"sub": "conc", "worlds": j.worlds, "program": j.progs[i].key, "terms": j.progs[i].terms, "schedule": null});
            let _ = std::fs::write(format!("{}/w{}.json", d, id), v.to_string());
        }
        let mut st = Stats::default();
        let found = explore(&j.worlds, &j.progs[i], &j.lim, j.seed * 7919 + i as u64, &j.prop, &mut st);
        let mut g = j.total.lock().unwrap();
        let t = &mut g.0;
        t.runs += st.runs;
        t.outcomes += st.outcomes;
        t.complete += st.complete;
        t.cut += st.cut;
        t.random += st.random;
        t.skipped += st.skipped;
        t.checks += st.checks;
        g.3 += 1;
        for f in found {
            if f.prop == j.prop.as_str() || j.prop.is_empty() {
                g.1.push((i, f));
            } else {
                *g.2.entry(f.prop.to_string()).or_insert(0) += 1;
                if j.others.lock().unwrap().len() < 5 {
                    j.others.lock().unwrap().push(json!({"props": [f.prop], "what": format!("{} in world {} {} {:?}", f.what, j.progs[i].key["w"], j.progs[i].key["th"], f.schedule)}));
                }
            }
        }
        if g.1.len() > 3 {
            j.next.store(j.order.len(), Ordering::SeqCst);
        }
    }
}

/// Run a recorded schedule again (or all of them, if there is none)
pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
    let worlds = v["worlds"].as_array().unwrap().clone();
    let p = Program { key: v["program"].clone(), terms: v["terms"].as_array().unwrap().clone() };
    eprintln!("STEP 0 {} C21", "program");
    if v["schedule"].is_null() {
        let f = explore(&worlds, &p, &Limits { bound: 2, cap: 5000, random: 200 }, 1, "", &mut Stats::default());
        for x in &f {
            println!("{}: {} {:?}", x.prop, x.what, x.schedule);
        }
        return if f.is_empty() { 0 } else { 1 };
    }
    let sched: Vec<u8> = v["schedule"].as_array().unwrap().iter().map(|x| us(x) as u8).collect();
    let r = run(&worlds[us(&p.key["w"]) - 1], &threads(&p.key), How::Follow(&sched, usize::MAX));
    println!("program {}", p.key["th"]);
    println!("ended with {:?}", r.end);
    for (t, ops) in r.outcome.r.iter().enumerate() {
        for (q, x) in ops.iter().enumerate() {
            println!("  thread {} call {}: {:?}", t + 1, q + 1, x);
        }
    }
    let ok = match r.end {
        End::Done => p.key["s"] == json!(1) || p.terms.iter().any(|t| fits(&r.outcome, &pattern(t)).is_ok()),
        _ => false,
    };
    println!("{}", if ok { "allowed" } else { "not allowed" });
    if ok {
        0
    } else {
        1
    }
}
