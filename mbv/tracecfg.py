"""Stages over KTrace: behaviours recorded from the real code on real-valued trees, judged by the specification."""
from mbv.runner import Stage

OPS = {
    "C01": "updt,updt,end,cset,set,org,att,copy",
    "C02": "set,org,updt,cset,updv",
    "C03": "set,set,cset,copy,att",
    "C04": "cset,cset,set,copy,att",
    "C05": "set,cset,copy,set",
    "C06": "copy,set,cset,org,updt,att",
    "C09": "jac,jac,cset,set,org,att",
    "C10": "updv,updv,cset,set,org,att",
    "C11": "com,com,cset,set,org,att,link",
    "C12": "upl,upl,cset,set,org,att,link,updt",
    "C13": "ik,ik,cset,org",
    "C14": "ik,ik,cset,org",
    "C15": "ik,ik,ik,cset",
    "C16": "ik,ik,cset,org",
    "C17": "ik,ik,cset,org",
    "C19": "urdf",
}


def stages(prop, seed, deep):
    if prop not in OPS:
        return []
    out = []
    for i in range(8 if deep else 1):
        tr = {"seed": (seed * 131 + int(prop[1:])) * 31 + i, "trees": 400 if deep else 120, "steps": 40 if deep else 28, "ops": OPS[prop]}
        out.append(Stage("recorded%d" % i, "KTrace", {"File": '"trace.ndjson"'}, ["InvPoses", "InvFollow"], sub="trace", trace=tr, timeout=3000 if deep else 300))
    return out


def replay(r):
    """Record the behaviour again and have it judged again."""
    import os, shutil
    from mbv import runner
    base = os.path.join(runner.WORK, "replay-%d" % os.getpid())
    st = Stage("again", "KTrace", {"File": '"trace.ndjson"'}, ["InvPoses", "InvFollow"], sub="trace", trace=r["trace"], timeout=300)
    try:
        x = runner.run_trace(st, runner.build(), r["prop"], base, os.path.join(base, "r"), only=r["tree"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for v in x["violations"]:
        print(v["what"])
    return 1 if x["violations"] else 0
