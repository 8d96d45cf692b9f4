"""Which stages decide which property."""
import json, os, subprocess
from mbv import conccfg, datacfg, ikcfg, runner, tracecfg, treecfg, urdfcfg

TREE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C23", "C25"]
URDF = ["C18", "C19", "C20"]
DATA = ["C24"]
CONC = ["C21", "C22"]
IK = ["C13", "C14", "C15", "C16", "C17"]


def stages(prop, tier, seed):
    deep = tier == "thorough"
    out = []
    if prop in TREE:
        out += treecfg.enum(prop, deep)
        out += treecfg.sims(prop, seed, 6 if deep else 3, 12000 if deep else 300)
    out += datacfg.stages(prop, seed, deep)
    if prop in URDF:
        out += urdfcfg.stages(prop, seed, deep)
    out += conccfg.stages(prop, seed, deep)
    if prop in IK:
        out += ikcfg.stages(prop, seed, deep)
    out += tracecfg.stages(prop, seed, deep)
    return out


def decide(prop, tier, seed, base, replays):
    st = stages(prop, tier, seed)
    if not st:
        raise runner.ToolError("nothing decides " + prop)
    if tier == "thorough":
        for s in st:
            s.timeout = 3000
            s.heap = "6g"
    kh = {}
    for s in st:
        if s.sub not in kh:
            kh[s.sub] = runner.build("k_verif" if s.sub == "conc" else "")
    return runner.run_all(st, kh, prop, base, replays, 5)


def level(prop):
    return "model_checking"


def assumptions(prop):
    return ["The specification states the property correctly (its invariants are checked by TLC in every state visited).",
            "Floating-point results are compared with the exact rational ones of the model within 1e-6 (f64) and 2e-3 (f32), relative to size.",
            "Behaviours outside the explored sizes and values behave like those inside."]


def known(prop):
    """Texts of the findings listed (not fixed) for a property."""
    out = []
    p = os.path.join(runner.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


def replay(path):
    what = json.load(open(path))
    conc = what.get("sub") == "conc"
    if what.get("sub") == "trace":
        return tracecfg.replay(what)
    kh = runner.build("k_verif" if conc else "")
    r = subprocess.run([kh, "replay", path])
    return r.returncode


NOT_APPLICABLE = {}

TECH = {
    "tree": "TLA+ state machine (KTree) checked by TLC; every transition of small state graphs and random behaviours replayed on the real crate",
}
TECH["urdf"] = ("TLA+ specification of URDF loading (KUrdf: declarative tree = loading procedure, checked by TLC); its documents are loaded by the real crate "
                "and compared")
NOTE = {
    "tree": "TLC enumerates all behaviours of small worlds (types, limits, mimic graphs, shapes, caches) and samples longer random ones; "
            "each is executed on the real crate in f64 and f32 and the whole observable state is compared after every call. "
            "Assumes the specification is right and that larger worlds behave like the explored ones.",
}


def family(prop):
    for f, l in (("tree", TREE), ("urdf", URDF), ("ik", IK), ("data", DATA), ("conc", CONC)):
        if prop in l:
            return f
    return None


def claimed(prop):
    return family(prop) is not None


def technique(prop):
    return TECH[family(prop)]


def note(prop):
    return NOTE[family(prop)]

NOTE["urdf"] = ("TLC enumerates documents (all trees of small size, all orders reachable by moving elements, all parameter combinations) and samples larger "
                "ones; each is written as XML, parsed by urdf_rs, loaded in f64 and f32 through every entry point, and the tree, parameters and maps are "
                "compared with the specification. Assumes urdf_rs parses correctly and documents are well-formed.")

TECH["ik"] = ("TLA+ specification of the solver (KIk: iterations in exact fixed point, checked by TLC); its requests are sent to the real solver and "
              "outcome, positions and iterates compared")
NOTE["ik"] = ("TLC enumerates small arms, solvers, constraints and ignored names and samples larger ones; arms whose joints act on one coordinate each are decided "
              "exactly over whole solves, other arms over one iteration (exact Jacobian and error from the specification) and by the contract of the outcome. "
              "Assumes convergence near regular configurations is as the linear model says.")

TECH["data"] = ("TLA+ specification of the value types (KData), checked by TLC; every enumerated and sampled call sequence or document is put to the real types "
                "and everything readable is compared")
NOTE["data"] = ("TLC enumerates every document (each field absent, false or true; several name lists; two field orders) and samples other orders; each is read by "
                "serde_json in three ways, written and read again. Assumes serde and serde_json are right and that other formats behave alike.")

TECH["conc"] = ("TLA+ specification of overlapping calls (KConc: every interleaving of per-joint steps, checked by TLC); the real calls are run under every schedule "
                "of their locks with a bounded number of preemptions, and each outcome has to be one that TLC enumerated")
NOTE["conc"] = ("Programs: all pairs of 41 calls in three worlds, all pairs with a change of the tree or of mimic relations in a fourth and in two more "
                "whose joints follow each other down and up the arm; random longer ones and triples. Schedules: every one with at most two preemptions "
                "(three in the thorough tier), and random ones. Assumes shared state is only reached under the mutex of a node (there is no unsafe code "
                "and no other shared state in the crate), so that switching at locks suffices.")
