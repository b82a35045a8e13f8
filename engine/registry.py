"""Which tasks decide which property; the texts come from the catalog."""
from . import p_cert as pt
from . import p_codec as pc
from . import p_err as pe
from . import p_misc as px
from . import p_msg as pm
from . import p_noise as pn
from . import p_sess as ps
from . import p_value as pv
from .catalog import CAT

PROPS = {}
_C = {c["id"]: c for c in CAT}


# their statements say that the operation answers, with a value or an error: a panic that is reached answers nothing
TOTAL = set("C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C14 C15 C16 C18 C20 C21 C24 C27 C29 C40 C41".split())


def prop(pid, tasks):
    c = _C[pid]
    PROPS[pid] = {"total": pid in TOTAL, "tasks": tasks, "rule": c["rule"], "explain": c["explain"], "level": "other", "assume": c["assume"]}


prop("C01", pc.c01_tasks)
prop("C02", pc.c02_tasks)
prop("C03", pc.c03_tasks)
prop("C04", pc.c04_tasks)
prop("C05", pc.c05_tasks)
prop("C06", pc.c06_tasks)
prop("C07", pm.c07_tasks)
prop("C08", pm.c08_tasks)
prop("C09", pm.c09_tasks)
prop("C10", pv.c10_tasks)
prop("C11", pm.c11_tasks)
prop("C12", pm.c12_tasks)
prop("C13", pm.c13_tasks)
prop("C14", pm.c14_tasks)
prop("C15", pt.c15_tasks)
prop("C16", pt.c16_tasks)
prop("C26", pm.c26_tasks)
prop("C18", pn.c18_tasks)
prop("C19", pn.c19_tasks)
prop("C21", pn.c21_tasks)
prop("C22", pn.c22_tasks)
prop("C23", ps.c23_tasks)
prop("C20", ps.c20_tasks)
prop("C17", ps.c17_tasks)
for _p in ("C24", "C25", "C27"):
    prop(_p, getattr(ps, _p.lower() + "_tasks"))
for _p in ("C28", "C29"):
    prop(_p, getattr(ps, _p.lower() + "_tasks"))
prop("C34", px.c34_tasks)
prop("C35", px.c35_tasks)
prop("C36", px.c36_tasks)
prop("C37", pc.c37_tasks)
prop("C38", px.c38_tasks)
prop("C39", px.c39_tasks)
prop("C40", pe.c40_tasks)
prop("C41", px.c41_tasks)
