"""Runs TLC, pipes its behaviours into the harness, and collects what was covered."""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def build(cfg=""):
    """Build the harness against /repo's working tree; returns the binary."""
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    target = os.path.join(HARNESS, "target-hook" if cfg else "target")
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    flags = "-Awarnings"
    if cfg:
        flags += " --cfg " + cfg
    env["RUSTFLAGS"] = flags
    args = ["cargo", "build", "--offline", "--quiet", "--bin", "khook" if cfg else "kh"]
    r = subprocess.run(args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(target, "debug", "khook" if cfg else "kh")


def tla(v):
    """A Python value as a TLA+ constant."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    return v


class Stage:
    """One TLC run, and the harness subcommand that consumes its output."""

    def __init__(self, name, module, consts, invariants=(), sim=None, depth=None, seed=0, sub="tree",
                 tlc_workers=1, kh_workers=2, timeout=600, spec="Spec", view=None, exhaustive=False,
                 extra_defs="", kh_args=(), deadlock=False, heap="3g", properties=(), cons=(), trace=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.result = None
        self.error = None

    def files(self, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        defs, lines = [], []
        for k, v in self.consts.items():
            v = tla(v)
            if re.fullmatch(r'-?\d+|TRUE|FALSE|"[^"]*"', v):
                if v.startswith("-"):
                    defs.append("Cst_%s == %s" % (k, v))
                    lines.append("  %s <- Cst_%s" % (k, k))
                else:
                    lines.append("  %s = %s" % (k, v))
            elif re.fullmatch(r"[A-Za-z]\w*", v):
                lines.append("  %s <- %s" % (k, v))
            else:
                defs.append("Cst_%s == %s" % (k, v))
                lines.append("  %s <- Cst_%s" % (k, k))
        with open(os.path.join(d, "Run.tla"), "w") as f:
            f.write("---- MODULE Run ----\nEXTENDS %s\n%s\n%s\n====\n" % (self.module, self.extra_defs, "\n".join(defs)))
        with open(os.path.join(d, "Run.cfg"), "w") as f:
            f.write("SPECIFICATION %s\nCONSTANTS\n%s\n" % (self.spec, "\n".join(lines)))
            for i in self.invariants:
                f.write("INVARIANT %s\n" % i)
            for i in self.properties:
                f.write("PROPERTY %s\n" % i)
            for i in self.cons:
                f.write("CONSTRAINT %s\n" % i)
            if self.view:
                f.write("VIEW %s\n" % self.view)

    def tlc_cmd(self, d):
        c = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + self.heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
             "-metadir", os.path.join(d, "meta"), "-config", "Run.cfg", "-workers", str(self.tlc_workers)]
        if not self.deadlock:
            c += ["-deadlock"]
        if self.sim:
            c += ["-simulate", "num=%d" % self.sim, "-depth", str(self.depth), "-seed", str(self.seed)]
        return c + ["Run.tla"]


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_stage(st, kh, prop, base, replays):
    d = os.path.join(base, st.name)
    st.files(d)
    t0 = time.time()
    out, log = os.path.join(d, "out.json"), os.path.join(d, "tlc.log")
    khc = [kh, st.sub, "--prop", prop, "--out", out, "--replays", replays, "--tag", st.name, "--log", log,
           "--workers", str(st.kh_workers)] + list(st.kh_args)
    with open(os.path.join(d, "tlc.err"), "w") as e1, open(os.path.join(d, "kh.err"), "w") as e2:
        p1 = subprocess.Popen(st.tlc_cmd(d), cwd=d, stdout=subprocess.PIPE, stderr=e1, stdin=subprocess.DEVNULL)
        p2 = subprocess.Popen(khc, cwd=d, stdin=p1.stdout, stdout=subprocess.DEVNULL, stderr=e2, preexec_fn=limit)
        p1.stdout.close()
        timed_out = False
        try:
            wait(p2, st.timeout, os.path.join(d, "tlc.err"))
        except subprocess.TimeoutExpired:
            timed_out = True
            p1.kill()
            try:
                p2.wait(60)
            except subprocess.TimeoutExpired:
                p2.kill()
                p2.wait()
        try:
            p1.wait(5 if p2.returncode != 0 else 30)
        except subprocess.TimeoutExpired:
            p1.kill()
            p1.wait()
    res = {"stage": st.name, "module": st.module, "mode": "simulate" if st.sim else "exhaustive", "wall_s": round(time.time() - t0, 1),
           "timed_out": timed_out, "crashed": None, "violations": [], "replays": []}
    rc = p2.returncode
    if rc is not None and rc < 0 and not timed_out:
        res["crashed"] = -rc
        res.update(crash(st, kh, prop, d, replays, khc))
        return res
    if not os.path.exists(out):
        raise ToolError("stage %s: no output (rc %s)\n%s\n%s" % (st.name, rc, tail(os.path.join(d, "kh.err")), tail(os.path.join(d, "tlc.err"))))
    res.update(json.load(open(out)))
    text = open(log).read() if os.path.exists(log) else ""
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        res["states"], res["transitions"] = int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))
    m = re.findall(r"number of states generated: ([\d,]+)", text)
    if m:
        res["states"] = res["transitions"] = int(m[-1].replace(",", ""))
    if rc not in (0, 1, 3):
        raise ToolError("stage %s: harness ended with %s\n%s" % (st.name, rc, tail(os.path.join(d, "kh.err"))))
    if rc == 0 and not timed_out:
        if "Error:" in text or p1.returncode not in (0,):
            raise ToolError("stage %s: TLC ended with %s\n%s" % (st.name, p1.returncode, brief(text) + tail(os.path.join(d, "tlc.err"))))
    res.setdefault("states", res.get("behaviours", 0))
    res.setdefault("transitions", res.get("steps", 0))
    return res


def trace_cmd(kh, a, out, only=None):
    c = [kh, "trace", "--seed", str(a["seed"]), "--trees", str(a["trees"]), "--steps", str(a["steps"]), "--ops", a["ops"], "--out", out]
    return c + (["--only", str(only)] if only is not None else [])


def run_trace(st, kh, prop, base, replays, only=None):
    """Record behaviours of the real code, then let TLC check the records against the specification."""
    d = os.path.join(base, st.name)
    st.files(d)
    t0 = time.time()
    rec = os.path.join(d, "trace.ndjson")
    res = {"stage": st.name, "module": st.module, "mode": "recorded", "timed_out": False, "crashed": None, "violations": [], "replays": [], "other": {}}
    bad = []          # (line, property, what)
    hang = False
    with open(os.path.join(d, "kh.err"), "w") as e:
        p = subprocess.Popen(trace_cmd(kh, st.trace, rec, only), cwd=d, stdout=subprocess.DEVNULL, stderr=e, preexec_fn=limit)
        try:
            p.wait(120 if st.timeout <= 600 else 600)
        except subprocess.TimeoutExpired:
            hang = True
            p.kill()
            p.wait()
    lines = [l for l in open(rec).read().split("\n") if l] if os.path.exists(rec) else []
    whole = []
    for l in lines:
        try:
            whole.append(json.loads(l))
        except ValueError:
            break
    if hang or p.returncode < 0:
        try:
            who, call = open(rec + ".cur").read().split(" ", 1)
        except (OSError, ValueError):
            raise ToolError("stage %s: recording ended with %s\n%s" % (st.name, p.returncode, tail(os.path.join(d, "kh.err"))))
        bad.append((len(whole), who, "%s does not return" % call if hang else "%s ends the process with signal %d" % (call, -p.returncode)))
    elif p.returncode != 0:
        raise ToolError("stage %s: recording ended with %s\n%s" % (st.name, p.returncode, tail(os.path.join(d, "kh.err"))))
    with open(rec, "w") as f:
        f.write("".join(json.dumps(x) + "\n" for x in whole))
    log = os.path.join(d, "tlc.log")
    with open(log, "w") as f, open(os.path.join(d, "tlc.err"), "w") as e:
        try:
            rc = subprocess.run(st.tlc_cmd(d), cwd=d, stdout=f, stderr=e, stdin=subprocess.DEVNULL, timeout=st.timeout).returncode
        except subprocess.TimeoutExpired:
            rc = None
    text = open(log).read()
    ends = re.findall(r'^"@E\[(\d+)\]"$', text, re.M)
    if rc != 0 or ends != [str(len(whole))]:
        if rc is None:
            res["timed_out"] = True
        else:
            raise ToolError("stage %s: TLC ended with %s\n%s%s" % (st.name, rc, brief(text), tail(os.path.join(d, "tlc.err"))))
    for m in re.finditer(r'^"@B(.*)"$', text, re.M):
        line, what = json.loads(m.group(1).replace('\\"', '"'))
        bad += [(line, x[0], x[1]) for x in what]
    tree_of, k = [], 0
    for x in whole:
        if x["op"] == "mark":
            k = x["k"]
        tree_of.append(k)
    done = set()
    for line, who, what in bad:
        if who != prop:
            res["other"][who] = res["other"].get(who, 0) + 1
            continue
        k = tree_of[min(line, len(tree_of)) - 1] if tree_of else 0
        if k in done:
            continue
        done.add(k)
        os.makedirs(replays, exist_ok=True)
        dst = os.path.join(replays, "%s-%d.json" % (st.name, k))
        with open(dst, "w") as f:
            json.dump({"sub": "trace", "prop": prop, "trace": st.trace, "tree": k, "what": what, "record": whole[line - 1] if 0 < line <= len(whole) else None}, f)
        res["violations"].append({"what": "%s: %s (recorded behaviour %d, record %d)" % (who, what, k, line), "step": line})
        res["replays"].append(dst)
    ops = {}
    for x in whole:
        ops[x["op"]] = ops.get(x["op"], 0) + 1
    res.update({"behaviours": sum(x["op"] == "mark" for x in whole), "steps": len(whole), "comparisons": len(whole), "counts": ops,
                "states": len(whole), "transitions": len(whole), "wall_s": round(time.time() - t0, 1), "samples": []})
    return res


def wait(p, timeout, err):
    """Wait for the harness; TLC hangs when one of its threads dies, so look at its stderr."""
    t0 = time.time()
    while time.time() - t0 < timeout:
        try:
            return p.wait(1)
        except subprocess.TimeoutExpired:
            if "Exception in thread" in tail(err):
                p.kill()
                p.wait()
                raise ToolError("TLC failed:\n" + tail(err))
    raise subprocess.TimeoutExpired("kh", timeout)


def brief(text):
    """The first error TLC reports."""
    i = text.find("Error:")
    return text[i:i + 1200] if i >= 0 else text[-800:]


def tail(p, n=600):
    try:
        return open(p, errors="replace").read()[-n:]
    except OSError:
        return ""


def crash(st, kh, prop, d, replays, khc):
    """The harness process died (stack overflow, abort): find the behaviour that kills it."""
    cur = os.path.join(d, "current")
    shutil.rmtree(cur, ignore_errors=True)
    os.makedirs(cur)
    p1 = subprocess.Popen(st.tlc_cmd(d), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    p2 = subprocess.Popen(khc + ["--current", cur], cwd=d, stdin=p1.stdout, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limit)
    p1.stdout.close()
    try:
        p2.wait(st.timeout)
    except subprocess.TimeoutExpired:
        p2.kill()
    p1.kill()
    p1.wait()
    for f in sorted(os.listdir(cur)):
        path = os.path.join(cur, f)
        r = subprocess.run([kh, "replay", path, st.sub], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=120, preexec_fn=limit)
        if r.returncode < 0:
            steps = re.findall(r"^STEP (\d+) (\S+) (\S*)$", r.stderr, re.M)
            step, op, props = steps[-1] if steps else ("0", "?", "")
            mine = prop in props.split(",")
            out = {"behaviours": 0, "steps": 0, "comparisons": 0, "other": {} if mine else {"crash in " + op: 1}}
            if mine:
                os.makedirs(replays, exist_ok=True)
                dst = os.path.join(replays, "%s-crash.json" % st.name)
                shutil.copy(path, dst)
                out["violations"] = [{"what": ["%s ends the process with signal %d" % (op, -r.returncode)], "step": int(step)}]
                out["replays"] = [dst]
            out["states"] = out["transitions"] = 0
            return out
    return {"behaviours": 0, "steps": 0, "comparisons": 0, "other": {"crash": 1}, "states": 0, "transitions": 0}


def run_all(stages, kh, prop, base, replays, par):
    """Run stages with at most `par` cores' worth at a time."""
    os.makedirs(replays, exist_ok=True)
    sem = threading.Semaphore(par)
    results, errors = [], []

    def go(st):
        with sem:
            if errors:
                return
            try:
                binary = kh[st.sub] if isinstance(kh, dict) else kh
                results.append((run_trace if st.sub == "trace" else run_stage)(st, binary, prop, base, replays))
            except ToolError as e:
                errors.append(str(e))
            except Exception as e:  # noqa
                errors.append("stage %s: %r" % (st.name, e))

    ts = [threading.Thread(target=go, args=(s,)) for s in stages]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise ToolError(errors[0])
    order = {s.name: i for i, s in enumerate(stages)}
    results.sort(key=lambda r: order[r["stage"]])
    return results
