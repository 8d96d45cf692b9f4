//! Reading behaviours, running them with a watchdog, collecting mismatches.
use nalgebra as na;
use serde_json::{json, Value};
use simba::scalar::SubsetOf;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub trait Num: na::RealField + SubsetOf<f64> + Copy {
    const TOL: f64;
    const IS32: bool;
}
impl Num for f64 {
    const TOL: f64 = 1e-6;
    const IS32: bool = false;
}
impl Num for f32 {
    const TOL: f64 = 2e-3;
    const IS32: bool = true;
}
pub fn t<T: Num>(x: f64) -> T {
    na::convert(x)
}
pub fn f<T: Num>(x: T) -> f64 {
    na::convert(x)
}

/// What is wrong and which properties it breaks
#[derive(Debug, Clone)]
pub struct Bad {
    pub props: BTreeSet<&'static str>,
    pub what: String,
}

pub struct Ctx {
    /// Mismatches of the current step
    pub bad: Vec<Bad>,
    /// Stop here: what comes next is not determined
    pub stop: Option<String>,
    pub comparisons: u64,
    pub counts: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn new() -> Self {
        Ctx { bad: vec![], stop: None, comparisons: 0, counts: BTreeMap::new() }
    }
    pub fn bad(&mut self, props: &[&'static str], what: String) {
        self.bad.push(Bad { props: props.iter().cloned().collect(), what });
    }
    pub fn check(&mut self, ok: bool, props: &[&'static str], what: impl FnOnce() -> String) -> bool {
        self.comparisons += 1;
        if !ok {
            let w = what();
            self.bad(props, w);
        }
        ok
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
}

/// A runner executes one behaviour; it returns at the first step with mismatches.
/// `pos.store(step)` tells the watchdog where it is.
pub static VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The step that is about to run
pub fn at(pos: &AtomicUsize, i: usize, op: &str) {
    pos.store(i, Ordering::SeqCst);
    if VERBOSE.load(Ordering::Relaxed) {
        eprintln!("STEP {} {} {}", i, op, op_props(op).join(","));
    }
}

/// Run one recorded behaviour (a replay file, or a bare list of steps)
pub fn replay(path: &str, runners: &[(&str, Runner)]) -> i32 {
    VERBOSE.store(true, Ordering::Relaxed);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
    let beh: Vec<Value> = if v.is_array() { v.as_array().unwrap().clone() } else { v["behaviour"].as_array().unwrap().clone() };
    let sub = v["sub"].as_str().map(|s| s.to_string()).or_else(|| std::env::args().nth(3)).unwrap_or_else(|| "tree".to_string());
    let run = runners.iter().find(|x| x.0 == sub).expect("subcommand").1;
    let mut rc = 0;
    for is32 in [false, true] {
        if v["f32"].as_bool().map(|b| b != is32).unwrap_or(false) {
            continue;
        }
        let mut ctx = Ctx::new();
        let pos = AtomicUsize::new(0);
        run(&beh, is32, &pos, &mut ctx);
        for b in &ctx.bad {
            println!("{} step {} {:?}: {}", if is32 { "f32" } else { "f64" }, pos.load(Ordering::SeqCst), b.props, b.what);
            rc = 1;
        }
        if let Some(x) = ctx.stop {
            println!("stopped: {}", x);
        }
    }
    rc
}

pub type Runner = fn(&[Value], bool, &AtomicUsize, &mut Ctx);

fn unescape(line: &str) -> Option<(char, Value)> {
    // TLC prints a TLA+ string: "@S{\"k\":...}"
    if !line.starts_with("\"@") {
        return None;
    }
    let s: String = serde_json::from_str(line.trim_end()).ok()?;
    let tag = s.chars().nth(1)?;
    let v: Value = serde_json::from_str(&s[2..]).ok()?;
    Some((tag, v))
}

struct Slot {
    beh: Mutex<Option<(Arc<Vec<Value>>, bool)>>,
    since: AtomicU64,
    pos: AtomicUsize,
}

/// stdin: output of TLC. Each `@S` line is a step (k = 0 starts a behaviour), each `@P` line a
/// whole behaviour. Other lines are kept for the caller (`--log`).
pub fn drive(args: &[String], run: Runner) -> i32 {
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let prop = opt("--prop").unwrap_or_default();
    let out = opt("--out").expect("--out");
    let log = opt("--log");
    let replay_dir = opt("--replays").unwrap_or_else(|| ".".to_string());
    let max_viol: usize = opt("--max").and_then(|s| s.parse().ok()).unwrap_or(3);
    let workers: usize = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(4);
    let tag = opt("--tag").unwrap_or_else(|| prop.clone());
    let current = opt("--current");
    let hang_props: Vec<String> = opt("--hang-props").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let _ = hang_props;

    let (tx, rx) = mpsc::sync_channel::<Arc<Vec<Value>>>(4096);
    let rx = Arc::new(Mutex::new(rx));
    struct Totals {
        behaviours: u64,
        runs: u64,
        steps: u64,
        comparisons: u64,
        inconclusive: u64,
        other: BTreeMap<String, u64>,
        counts: BTreeMap<String, u64>,
        violations: Vec<Value>,
        other_samples: Vec<Value>,
        sample: Vec<Value>,
    }
    let tot = Arc::new(Mutex::new(Totals {
        behaviours: 0, runs: 0, steps: 0, comparisons: 0, inconclusive: 0,
        other: BTreeMap::new(), counts: BTreeMap::new(), violations: vec![], other_samples: vec![], sample: vec![],
    }));
    let start = Instant::now();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..workers).map(|_| Slot { beh: Mutex::new(None), since: AtomicU64::new(0), pos: AtomicUsize::new(0) }).collect(),
    );
    let mut handles = vec![];
    for w in 0..workers {
        let rx = rx.clone();
        let tot = tot.clone();
        let slots = slots.clone();
        let prop = prop.clone();
        let current = current.clone();
        handles.push(std::thread::Builder::new().stack_size(32 << 20).spawn(move || loop {
            let beh = match rx.lock().unwrap().recv() {
                Ok(b) => b,
                Err(_) => return,
            };
            let mut first = true;
            if let Some(ref d) = current {
                let _ = std::fs::write(format!("{}/w{}.json", d, w), serde_json::to_string(&*beh).unwrap());
            }
            for is32 in [false, true] {
                let slot = &slots[w];
                *slot.beh.lock().unwrap() = Some((beh.clone(), is32));
                slot.pos.store(0, Ordering::SeqCst);
                slot.since.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let mut ctx = Ctx::new();
                run(&beh, is32, &slot.pos, &mut ctx);
                slot.since.store(0, Ordering::SeqCst);
                let pos = slot.pos.load(Ordering::SeqCst);
                let mut g = tot.lock().unwrap();
                if first {
                    g.behaviours += 1;
                    first = false;
                    if g.sample.len() < 2 && beh.len() > 1 {
                        g.sample.push(json!(beh.iter().take(6).map(|s| json!({"op": s["op"], "a": s["a"], "r": s["r"]})).collect::<Vec<_>>()));
                    }
                }
                g.runs += 1;
                g.steps += (pos + 1) as u64;
                g.comparisons += ctx.comparisons;
                for (k, v) in ctx.counts {
                    *g.counts.entry(k).or_insert(0) += v;
                }
                if ctx.stop.is_some() {
                    g.inconclusive += 1;
                }
                if !ctx.bad.is_empty() {
                    let mine: Vec<&Bad> = ctx.bad.iter().filter(|b| prop.is_empty() || b.props.contains(prop.as_str())).collect();
                    if !mine.is_empty() {
                        if g.violations.len() < max_viol {
                            let v = json!({"sub": std::env::args().nth(1), "f32": is32, "step": pos, "what": mine.iter().map(|b| &b.what).collect::<Vec<_>>(),
                                "props": mine.iter().map(|b| b.props.iter().collect::<Vec<_>>()).collect::<Vec<_>>(),
                                "behaviour": &beh[..=pos.min(beh.len() - 1)]});
                            g.violations.push(v);
                        }
                        break;
                    } else {
                        g.inconclusive += 1;
                        for b in &ctx.bad {
                            for p in &b.props {
                                *g.other.entry(p.to_string()).or_insert(0) += 1;
                            }
                        }
                        if g.other_samples.len() < 3 {
                            let b = &ctx.bad[0];
                            g.other_samples.push(json!({"props": b.props, "what": b.what}));
                        }
                    }
                }
            }
        }).unwrap());
    }
    drop(rx);
    // reader
    let reader_done = Arc::new(AtomicUsize::new(0));
    {
        let done = reader_done.clone();
        std::thread::spawn(move || {
            let mut logf = log.map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap()));
            let stdin = std::io::stdin();
            let mut cur: Vec<Value> = vec![];
            for line in stdin.lock().lines() {
                let line = match line {
                    Ok(l) => l,
                    Err(_) => break,
                };
                match unescape(&line) {
                    Some(('S', v)) => {
                        if v["k"] == json!(0) && !cur.is_empty() {
                            if tx.send(Arc::new(std::mem::take(&mut cur))).is_err() {
                                break;
                            }
                        }
                        cur.push(v["s"].clone());
                    }
                    Some(('P', v)) => {
                        if tx.send(Arc::new(v.as_array().unwrap().clone())).is_err() {
                            break;
                        }
                    }
                    _ => {
                        if let Some(ref mut f) = logf {
                            let _ = writeln!(f, "{}", line);
                        }
                    }
                }
            }
            if !cur.is_empty() {
                let _ = tx.send(Arc::new(cur));
            }
            drop(tx);
            drop(logf);
            done.store(1, Ordering::SeqCst);
        });
    }
    let write = |tot: &Totals, hang: Option<Value>| -> usize {
        let mut viol = tot.violations.clone();
        if let Some(h) = hang {
            viol.push(h);
        }
        let mut files = vec![];
        for (i, v) in viol.iter().enumerate() {
            let p = format!("{}/{}-{}.json", replay_dir, tag, i);
            std::fs::write(&p, serde_json::to_string(v).unwrap()).unwrap();
            files.push(p);
        }
        let n = viol.len();
        let o = json!({"behaviours": tot.behaviours, "runs": tot.runs, "steps": tot.steps, "comparisons": tot.comparisons,
            "inconclusive": tot.inconclusive, "other": tot.other, "other_samples": tot.other_samples, "counts": tot.counts,
            "violations": viol.iter().map(|v| json!({"f32": v["f32"], "step": v["step"], "what": v["what"]})).collect::<Vec<_>>(),
            "replays": files, "samples": tot.sample});
        std::fs::write(&out, serde_json::to_string_pretty(&o).unwrap()).unwrap();
        n
    };
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if handles.iter().all(|h| h.is_finished()) && reader_done.load(Ordering::SeqCst) == 1 {
            let g = tot.lock().unwrap();
            return if write(&g, None) > 0 { 1 } else { 0 };
        }
        let now = start.elapsed().as_millis() as u64;
        for s in slots.iter() {
            let since = s.since.load(Ordering::SeqCst);
            if since > 0 && now > since + 20_000 {
                // a call does not return
                let (beh, is32) = s.beh.lock().unwrap().clone().unwrap();
                let pos = s.pos.load(Ordering::SeqCst);
                let op = beh[pos.min(beh.len() - 1)]["op"].as_str().unwrap_or("").to_string();
                let props = op_props(&op);
                let g = tot.lock().unwrap();
                let h = json!({"sub": std::env::args().nth(1), "f32": is32, "step": pos, "what": [format!("{} does not return", op)], "props": [props],
                    "behaviour": &beh[..=pos.min(beh.len() - 1)]});
                let mine = prop.is_empty() || props.contains(&prop.as_str()) || g.violations.len() > 0;
                let n = write(&g, if mine { Some(h) } else { None });
                eprintln!("hang in {} (props {:?})", op, props);
                return if n > 0 { 1 } else { 3 };
            }
        }
    }
}

/// The properties that say what a call does
pub fn op_props(op: &str) -> Vec<&'static str> {
    match op {
        "Build" | "New" => vec!["C25", "C07"],
        "SetPos" => vec!["C03", "C05"],
        "SetPosC" => vec!["C03"],
        "SetPosU" => vec!["C02"],
        "CSet" => vec!["C04", "C03", "C05"],
        "CSetC" => vec!["C04", "C03"],
        "CSetU" => vec!["C04"],
        "SetOrg" | "CSetOrg" => vec!["C01", "C02"],
        "SetParent" | "RmParent" => vec!["C07"],
        "SetMimic" => vec!["C05"],
        "SetLink" | "Relink" => vec!["C12"],
        "ChRoot" | "ChEnd" | "ChE2R" | "ChNodes" | "TryNew" | "Find" | "IterA" | "IterD" | "DropX" => vec!["C08"],
        "UpdT" => vec!["C01", "C02"],
        "UpdV" => vec!["C10", "C02"],
        "UpdL" => vec!["C12"],
        "CoM" => vec!["C11"],
        "EndTf" => vec!["C01"],
        "Jac" => vec!["C09"],
        "Print" => vec!["C23"],
        "Clone" => vec!["C06"],
        "JVel" => vec!["C02"],
        "Solve" | "Step" | "Near" | "Hard" => vec!["C15"],
        "Load" => vec!["C18", "C19", "C20"],
        "Range" | "JPos" | "JPosC" | "JPosU" | "JLim" | "JMake" | "JKeep" | "JBack" => vec!["C03"],
        "JOrg" => vec!["C01"],
        "Mimic" => vec!["C05"],
        "Doc" => vec!["C24"],
        _ if op.starts_with('N') || op.starts_with('L') => vec!["C25"],
        _ if op.starts_with('E') => vec!["C12"],
        _ => vec![],
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
