"""Stages over KConc: overlapping calls."""
import random
from mbv.runner import Stage

INV = ["InvMimicAtomic", "InvLimits", "InvWindows", "InvTree", "InvNoInvention", "InvDof", "Report"]
N, NS, NCHANGE = 41, 14 + 9 + 38, 14
# call numbers that write or that take several steps; the others are read in passing
WRITES = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 25, 26]
LONG = [11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 28, 29, 30, 37, 38]


def picked(seed, count, worlds, kind):
    """Random programs of more than one call per thread, or of three threads."""
    r = random.Random(seed)
    out = set()
    while len(out) < count:
        w = r.choice(worlds)
        if w >= 4:
            one = lambda: r.randint(1, NCHANGE) if r.random() < 0.5 else r.randint(NCHANGE + 1, NS)
        else:
            top = 41 if w == 1 else 38
            one = lambda: r.choice(WRITES) if r.random() < 0.45 else (r.choice(LONG) if r.random() < 0.7 else r.randint(1, top))
        if kind == "triple":
            th = [[one()] for _ in range(3)]
        elif kind == "two-one":
            th = [[one(), one()], [one()]]
        elif kind == "two-two":
            th = [[one(), one()], [one(), one()]]
        else:
            th = [[one(), one()], [one()], [one()]]
        out.add((w, tuple(tuple(t) for t in th)))
    return "<<" + ", ".join("<<%d, <<%s>>>>" % (w, ", ".join("<<%s>>" % ", ".join(map(str, t)) for t in th)) for w, th in sorted(out)) + ">>"


def stage(name, programs, pick="<<>>", bound=2, cap=2000, rnd=40, workers=4, kh_workers=8, seed=1, timeout=600, budget=240):
    return Stage(name, "MCConc", {"Worlds": "TheWorlds", "Programs": "Prg", "Picked": pick}, INV, sub="conc", tlc_workers=workers, kh_workers=kh_workers,
                 exhaustive=True, extra_defs="Prg == %s" % programs, timeout=timeout,
                 kh_args=("--bound", str(bound), "--cap", str(cap), "--random", str(rnd), "--seed", str(seed), "--budget", str(budget)))


def stages(prop, seed, deep):
    out = []
    if prop not in ("C21", "C22"):
        return out
    s = seed * 4099 + int(prop[1:])
    if deep:
        b = dict(bound=3, cap=40000, rnd=1000, seed=seed, timeout=3000, budget=1200, kh_workers=4, workers=2)
        n = 8
    else:
        b = dict(bound=2, cap=1500, rnd=30, seed=seed, kh_workers=4, workers=3)
        n = 1
    if prop == "C22":
        out.append(stage("pairs", "PairsOf({1, 2, 3})", **b))
        for i in range(n):
            out.append(stage("longer%d" % i, "PickedPrograms", picked(s + 10 * i, 120 if deep else 50, [1, 2, 3], "two-one"), **b))
            out.append(stage("three%d" % i, "PickedPrograms", picked(s + 10 * i + 1, 120 if deep else 40, [1, 2, 3], "triple"), **b))
            if deep:
                out.append(stage("twos%d" % i, "PickedPrograms", picked(s + 10 * i + 2, 60, [1, 2, 3], "two-two"), **b))
    else:
        out.append(stage("changes", "PairsS", **b))
        out.append(stage("following", "PairsF", **b))
        out.append(stage("pairs", "PairsOf({1, 2, 3})", **b))
        for i in range(n):
            out.append(stage("longer%d" % i, "PickedPrograms", picked(s + 10 * i, 300 if deep else 150, [4, 4, 5, 6], "two-one"), **b))
            out.append(stage("three%d" % i, "PickedPrograms", picked(s + 10 * i + 1, 300 if deep else 150, [4, 4, 5, 6], "triple"), **b))
            if deep:
                out.append(stage("twos%d" % i, "PickedPrograms", picked(s + 10 * i + 2, 200, [4, 4, 5, 6], "two-two"), **b))
                out.append(stage("threes%d" % i, "PickedPrograms", picked(s + 10 * i + 3, 100, [1, 2, 3], "two-one-one"), **b))
    return out
