"""Stages over KIk."""
from mbv.runner import Stage

INV = ["InvOk", "InvRestored", "InvTries", "InvKind", "InvIgnored", "InvProgress", "InvLeast"]


def stage(name, sim=None, seed=0, length=24, free=False, arms="NoArms", sols="NoSols", reqs="NoReqs", workers=1):
    c = dict(Sim=bool(sim), Free=free, MaxLen=length, Arms=arms, Sols=sols, Reqs=reqs, OpBag="BagFree" if free else "BagGrid")
    return Stage(name, "MCIk", c, INV, sim=sim, depth=length * 10, seed=seed, sub="ik", tlc_workers=workers, kh_workers=3,
                 view=None if sim else "View", exhaustive=not sim)


def stages(prop, seed, deep):
    n = int(prop[1:])
    out = [stage("small", arms="ArmsSmall" if deep else "ArmsSmallQ", sols="SolsSmall" if deep else "SolsSmallQ",
                 reqs="ReqsSmall" if deep else "ReqsSmallQ", length=3, workers=2)]
    for i in range(4 if deep else 2):
        out.append(stage("grid%d" % i, sim=40000 if deep else 500, seed=seed * 1019 + 37 * i + n))
    for i in range(3 if deep else 1):
        out.append(stage("free%d" % i, sim=40000 if deep else 600, seed=seed * 1021 + 41 * i + n, free=True))
    return out
