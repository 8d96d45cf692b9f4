"""Stages over KUrdf."""
from mbv.runner import Stage

INV = ["InvWellFormed", "InvLoad", "InvCover", "InvMaps", "InvOrder"]


def stage(name, sim=None, seed=0, length=6, edits="EditsAll", docs="NoDocs", links=7, workers=1):
    c = dict(Sim=bool(sim), MaxLinks=links, MaxLen=length, JNames="JN", LNames="LN", Edits=edits, Docs=docs)
    return Stage(name, "MCUrdf", c, INV, sim=sim, depth=length + 1, seed=seed, sub="urdf", tlc_workers=workers, kh_workers=3,
                 view=None if sim else "View", exhaustive=not sim)


def stages(prop, seed, deep):
    n = int(prop[1:])
    order = '<<"MoveLink", "MoveJoint", "SetMimic">>'
    out = []
    if prop in ("C18", "C20"):
        out.append(stage("orders", docs="Docs5" if deep else "Docs4", edits=order, length=5 if deep else 4, workers=4))
    if prop == "C19":
        out.append(stage("params", docs="DocsParam", edits='<<"Rename">>', length=1, workers=2))
    for i in range(6 if deep else 3):
        out.append(stage("docs%d" % i, sim=30000 if deep else 700, seed=seed * 1013 + 31 * i + n, length=8, links=8))
    return out
