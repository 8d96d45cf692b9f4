"""Stages over KData."""
from mbv.runner import Stage

INV = ["InvJointLimits", "InvClamp", "InvDefaults"]
Q = dict(Names="NamesQ", Orgs="OrgsQ", Lims="LimsQ", Nums="NumsQ")
S = dict(Names="NamesS", Orgs="OrgsQ", Lims="LimsS", Nums="NumsS")


def stage(name, part, length, sim=None, seed=0, workers=2, **kw):
    c = dict(S if sim else Q)
    c.update(Sim=bool(sim), Part='"%s"' % part, MaxLen=length)
    c.update(kw)
    return Stage(name, "MCData", c, INV, sim=sim, depth=length + 1, seed=seed, sub="data", tlc_workers=1 if sim else workers, kh_workers=2, exhaustive=not sim,
                 properties=() if sim else ("PropParts",))


def stages(prop, seed, deep):
    n = int(prop[1:])
    out = []
    if prop == "C25":
        out.append(stage("builders", "node", 4 if deep else 3))
        out.append(stage("links", "link", 4 if deep else 3, Nums="NumsL"))
        for i in range(4 if deep else 1):
            out.append(stage("builders-sim%d" % i, "node", 14, sim=20000 if deep else 1500, seed=seed * 1019 + i + n))
            out.append(stage("links-sim%d" % i, "link", 10, sim=20000 if deep else 1000, seed=seed * 1021 + i + n, Nums="-8..8"))
    if prop == "C24":
        out.append(stage("documents", "doc", 1))
        out.append(stage("documents-sim", "doc", 3, sim=20000 if deep else 2000, seed=seed * 1031 + n))
    if prop == "C12":
        out.append(stage("elements", "elem", 6 if deep else 5))
    if prop == "C05":
        out.append(stage("coefficients", "mimic", 1, Nums="-12..12"))
    if prop == "C03":
        out.append(stage("ranges", "range", 1, Nums="NumsS"))
        out.append(stage("lone", "joint", 4 if deep else 3, Nums="NumsJ"))
    if prop in ("C01", "C02"):
        for i in range(4 if deep else 1):
            out.append(stage("lone-sim%d" % i, "joint", 12, sim=20000 if deep else 1000, seed=seed * 1033 + i + n))
    return out
