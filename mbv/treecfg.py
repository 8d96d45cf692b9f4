"""Stages over KTree: random behaviours and complete enumerations."""
from mbv.runner import Stage

INV = ["InvParentKids", "InvLimits", "InvMimicGraph", "InvMimic", "InvVector", "InvChains", "InvClone", "InvJacobian", "InvVelocity",
       "InvRotations", "InvFresh"]

# operations that matter for a property, with weights; everything else has weight 1 unless left out
FOCUS = {
    "C01": {"UpdT": 6, "EndTf": 4, "SetPos": 2, "CSetU": 2, "CSet": 2, "SetOrg": 2, "CSetOrg": 2, "ChE2R": 2, "ChRoot": 2, "ChNodes": 1, "SetParent": 2, "RmParent": 1},
    "C02": {"SetPos": 4, "SetPosC": 3, "SetPosU": 3, "SetOrg": 3, "CSet": 3, "CSetC": 2, "CSetU": 2, "CSetOrg": 2, "UpdT": 4, "UpdV": 4, "JVel": 3, "ChRoot": 2,
            "ChE2R": 2, "EndTf": 1, "Jac": 1, "CoM": 1, "UpdL": 1, "Clone": 1, "SetParent": 1, "SetMimic": 1},
    "C03": {"SetPos": 6, "SetPosC": 5, "CSet": 4, "CSetC": 4, "SetPosU": 1, "CSetU": 1, "ChRoot": 2, "ChNodes": 1, "Clone": 1},
    "C04": {"CSet": 6, "CSetC": 4, "CSetU": 4, "ChRoot": 3, "ChEnd": 2, "ChE2R": 2, "ChNodes": 2, "Clone": 1, "SetParent": 1, "RmParent": 1, "SetMimic": 1, "SetPos": 1},
    "C05": {"SetPos": 6, "CSet": 5, "SetMimic": 4, "SetPosC": 1, "SetPosU": 1, "ChRoot": 2, "ChE2R": 2, "Clone": 2, "RmParent": 1, "SetParent": 1},
    "C06": {"Clone": 6, "ChRoot": 4, "ChE2R": 2, "ChEnd": 1, "SetPos": 2, "CSet": 2, "SetOrg": 1, "SetParent": 3, "RmParent": 1, "SetMimic": 3, "SetLink": 2, "Relink": 1,
            "UpdT": 2, "UpdV": 1, "UpdL": 1, "JVel": 1, "Print": 1},
    "C07": {"SetParent": 8, "RmParent": 4, "ChRoot": 2, "ChE2R": 1, "IterA": 1, "IterD": 1, "Clone": 1, "New": 2, "DropX": 1, "UpdT": 1},
    "C08": {"ChRoot": 3, "ChEnd": 3, "ChE2R": 4, "ChNodes": 1, "TryNew": 3, "Find": 3, "IterA": 3, "IterD": 3, "SetParent": 4, "RmParent": 2, "DropX": 2, "Clone": 1, "New": 1},
    "C09": {"Jac": 8, "EndTf": 1, "ChEnd": 3, "ChE2R": 4, "SetPos": 2, "CSetU": 3, "SetOrg": 2, "CSetOrg": 1, "UpdT": 1, "SetParent": 1, "RmParent": 1},
    "C10": {"UpdV": 7, "ChRoot": 3, "ChE2R": 2, "ChEnd": 1, "SetPos": 2, "CSetU": 2, "SetOrg": 2, "UpdT": 2, "JVel": 2, "SetParent": 2, "RmParent": 1, "Clone": 1},
    "C11": {"CoM": 7, "ChRoot": 3, "ChE2R": 2, "ChNodes": 2, "SetPos": 2, "CSetU": 2, "SetLink": 3, "Relink": 2, "UpdT": 2, "SetOrg": 1, "SetParent": 1},
    "C12": {"UpdL": 6, "Relink": 4, "SetLink": 3, "ChRoot": 3, "ChE2R": 2, "SetPos": 2, "CSetU": 2, "SetOrg": 1, "UpdT": 2, "Clone": 1, "SetParent": 1},
    "C23": {"Print": 8, "ChRoot": 3, "ChEnd": 2, "ChE2R": 3, "ChNodes": 1, "SetParent": 4, "RmParent": 2, "SetLink": 2, "New": 1, "Clone": 1},
    "C25": {"New": 4, "JVel": 2, "Clone": 1, "SetPos": 1, "SetLink": 2, "ChRoot": 1, "UpdT": 1},
}
ALLOPS = ["SetPos", "SetPosC", "SetPosU", "CSet", "CSetC", "CSetU", "SetOrg", "CSetOrg", "SetParent", "RmParent", "SetMimic", "SetLink", "Relink",
          "ChRoot", "ChEnd", "ChE2R", "ChNodes", "UpdT", "UpdV", "UpdL", "CoM", "EndTf", "Jac", "TryNew", "Find", "Print", "IterA", "IterD",
          "Clone", "JVel", "New", "DropX"]


def seq(ops):
    return "<<" + ", ".join('"%s"' % o for o in ops) + ">>"


def bag(focus):
    return seq([o for o, w in focus.items() for _ in range(w)])


BASE = dict(Sim=True, Exact=True, MaxB=6, MaxN=12, MaxCh=6, MaxLen=30, TyBag="TyAll", AxSet="Axs", PosSet="Pos", LimBag="LimAll",
            MimSet="Mims", OffSet="Off", QuatSet="Quats", VelSet="Vel", LinkPct=40, MimPct=20, LinePct=50, Starts="NoStarts")

# per property: changes to the base configuration of the random behaviours
TWEAK = {
    "C02": dict(MaxB=5, LinkPct=25),
    "C03": dict(Exact=False, LinkPct=0, AxSet="{3}", QuatSet="{1}", OffSet="{0}", PosSet="(-5..6) \\cup {-Inf, Inf, NaN}", MimPct=0, MaxB=5,
                TyBag='<<"R", "L", "R", "F">>'),
    "C04": dict(Exact=False, LinkPct=0, AxSet="{3}", QuatSet="{1}", OffSet="{0}", PosSet="-4..5", MimPct=10),
    "C05": dict(Exact=False, LinkPct=0, AxSet="{3}", QuatSet="{1}", OffSet="{0}", PosSet="-4..5", MimPct=45,
                TyBag='<<"R", "L", "R", "R", "F">>', LimBag="<< <<>>, <<>>, <<>>, <<-6, 6>>, <<-2, 3>> >>"),
    "C06": dict(MaxN=20, MimPct=30),
    "C07": dict(LinkPct=0, LinePct=30, MaxB=7, MimPct=0),
    "C08": dict(LinkPct=30, LinePct=50, MaxB=7, MimPct=0, MaxCh=12),
    "C09": dict(LinkPct=0, LinePct=85, MimPct=0, LimBag="<< <<>>, <<>>, <<0, 0>>, <<1, 1>>, <<-2, 2>>, <<0, 2>> >>", MaxCh=10),
    "C10": dict(LinkPct=0, MimPct=0, LinePct=70),
    "C11": dict(LinkPct=65, MimPct=0),
    "C12": dict(LinkPct=70, MimPct=0),
    "C23": dict(LinkPct=50, LinePct=40, MaxB=8, MimPct=0, MaxCh=12),
    "C01": dict(LinkPct=10, MimPct=10, MaxCh=10),
    "C25": dict(MaxB=3, MaxN=16),
}
SCALAR_ONLY = {"C03", "C04", "C05"}


def sims(prop, seed, jvms, num, length=30, depth_mult=1):
    out = []
    for i in range(jvms):
        c = dict(BASE)
        mixed = i == jvms - 1 and prop not in SCALAR_ONLY     # one of them runs everything
        c.update(TWEAK.get(prop, {}))
        c["MaxLen"] = length
        f = dict(FOCUS[prop])
        if mixed:
            for o in ALLOPS:
                f.setdefault(o, 1)
        c["OpBag"] = bag(f)
        out.append(Stage("%s-sim%d" % (prop, i), "MCTree", c, INV, sim=num, depth=length + 1, seed=seed * 1009 + i * 101 + int(prop[1:])))
    # few large trees: what depends on the number of nodes
    c = dict(BASE)
    c.update(TWEAK.get(prop, {}))
    c.update(MaxLen=length, MaxB=24, MaxN=50, LinePct=TWEAK.get(prop, {}).get("LinePct", 70), LinkPct=min(c["LinkPct"], 25), OpBag=bag(FOCUS[prop]))
    out.append(Stage("%s-large" % prop, "MCTree", c, INV, sim=max(20, num // 8), depth=length + 1, seed=seed * 1009 + 907 + int(prop[1:])))
    return out


def bfs(name, starts, ops, length, workers=4, **kw):
    c = dict(BASE)
    c.update(Sim=False, OpBag=seq(ops), MaxLen=length, Starts=starts, MaxN=8, MaxCh=1)
    c.update(kw)
    return Stage(name, "MCTree", c, INV, tlc_workers=workers, kh_workers=3, view="View", exhaustive=True)


def enum(prop, deep):
    """Complete enumerations for a property: every transition is replayed."""
    d = 1 if deep else 0
    if prop == "C01":
        return [bfs("arms", "StartsArm" if deep else "StartsArmQ", ["ChEnd", "ChRoot", "UpdT", "EndTf", "CSetU"], 3 + d, PosSet="PosArm", MaxCh=1)]
    if prop == "C02":
        return [bfs("caches", "StartsCache" if deep else "StartsCache1", ["ChRoot", "ChE2R", "UpdT", "UpdV", "SetPosU", "SetOrg", "CSetU"], 4 + d,
                    PosSet="{0, 1}", QuatSet="{3}", OffSet="{0}")]
    if prop == "C03":
        return [bfs("joints", "StartsJoint", ["SetPos", "SetPosC", "SetPosU", "ChRoot", "CSet", "CSetC", "CSetU"], 3 + d, Exact=False, PosSet="PosJoint")]
    if prop == "C04":
        return [bfs("vectors", "StartsVec" if deep else "StartsVecQ", ["ChRoot", "ChE2R", "CSet", "CSetC", "CSetU"], 3 if not deep else 4, Exact=False, PosSet="PosVec")]
    if prop == "C05":
        return [bfs("mimics", "StartsMim" if deep else "StartsMimQ", ["SetPos", "SetMimic", "ChRoot", "CSet"], 3 if not deep else 4, Exact=False, PosSet="PosMim", MimSet="MimsB")]
    if prop == "C06":
        return [bfs("clones", "StartsClone", ["ChRoot", "Clone", "SetPos", "SetParent", "RmParent", "SetMimic", "UpdT"] + (["SetLink"] if deep else []), 4 if not deep else 5,
                    MaxCh=2, PosSet="{0, 1}" if deep else "{1}", MimSet="{<<2, 1>>}", QuatSet="{3}", OffSet="{0}")]
    if prop == "C07":
        return [bfs("shapes", "StartsShape", ["SetParent", "RmParent", "IterA", "IterD"], 4 + 2 * d)]
    if prop == "C08":
        return [bfs("chains", "StartsTrees", ["ChRoot", "ChEnd", "ChE2R", "TryNew", "IterA", "IterD", "Find"], 2),
                bfs("reshaped", "StartsShape", ["SetParent", "RmParent", "ChRoot", "ChEnd", "ChE2R", "TryNew", "DropX"], 3 + d)]
    if prop == "C09":
        return [bfs("arms", "StartsArm" if deep else "StartsArmQ", ["ChEnd", "ChE2R", "Jac", "CSetU"], 3 + d, PosSet="PosArm", MaxCh=1)]
    if prop == "C10":
        return [bfs("arms", "StartsArm" if deep else "StartsArmQ", ["ChRoot", "UpdV", "CSetU"], 3 + d, PosSet="PosArm", MaxCh=1),
                bfs("rates", "StartsCache", ["ChRoot", "UpdV", "UpdT", "SetPosU", "SetOrg"], 4 + d, PosSet="{0, 1}", QuatSet="{3}", OffSet="{0}")]
    if prop == "C11":
        return [bfs("masses", "StartsCache", ["ChRoot", "CoM", "UpdT", "SetPosU", "SetLink", "Relink"], 4 + d, PosSet="{0, 1}", QuatSet="{3}", OffSet="{0, 1}")]
    if prop == "C12":
        return [bfs("links", "StartsCache", ["ChRoot", "UpdL", "UpdT", "SetPosU", "SetLink", "Relink"], 4 + d, PosSet="{0, 1}", QuatSet="{3}", OffSet="{0, 1}")]
    if prop == "C23":
        return [bfs("prints", "StartsTrees", ["ChRoot", "ChEnd", "ChE2R", "ChNodes", "Print"], 2),
                bfs("reshaped", "StartsShape", ["SetParent", "RmParent", "ChRoot", "ChE2R", "Print"], 3 + d)]
    return []
