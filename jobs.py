"""The symbolic-execution jobs that decide each property (metadata: props.py)."""
from props import META


def J(h, e, *a, m="real", t="q", **k):
    d = dict(h=h, e=e, a=list(a), m=m, t=t)
    if e in ("dense_newton", "mpc_newton", "dense_step", "mpc_step") and (a[-1] == 3 or a[-3] in (4, 5)):
        # sigma = 1e-10 or magnitudes far apart: exact arithmetic only, rounding would be amplified
        d["nowit"] = True
    d.update(k)
    return d


JOBS = {}


def add(pid, *jobs, t=None):
    for j in jobs:
        if t:
            j["t"] = t
    JOBS.setdefault(pid, []).extend(jobs)


G = ["--generic"]
RG = ["--round", "--generic"]

# C01, C02: operators against explicit matrices
add("C01", *[J("dense_ops", "dense_gemv", *s, c)
             for s in [(1, 0, 1), (2, 1, 2), (3, 2, 3), (4, 0, 2), (5, 3, 9), (6, 4, 5), (2, 7, 9), (9, 3, 17), (3, 5, 1)]
             for c in (0, 1, 2)])
add("C01", *[J("dense_ops", "dense_gemv", *s, c) for s in [(16, 8, 33), (11, 19, 5)] for c in (0, 1, 2)], t="thorough")
add("C02", *[J("mpc_ops", "mpc_gemv", *s, c)
             for s in [(1, 1, 1, 1), (2, 2, 1, 1), (1, 1, 2, 2), (3, 2, 2, 2), (5, 3, 2, 4), (2, 4, 3, 5),
                       (3, 1, 4, 1), (1, 2, 1, 7), (8, 1, 1, 1)] for c in (0, 1, 2, 3)])
add("C02", *[J("mpc_ops", "mpc_gemv", *s, c) for s in [(12, 3, 2, 4), (4, 6, 5, 9)] for c in (0, 1, 2, 3)],
    t="thorough")

# C03, C04: Newton systems
add("C03", *[J("dense_newton", "dense_newton", *a, opts=G, w=w) for a, w in [
    ((1, 0, 1, 0, 0, 0), 2), ((1, 1, 1, 0, 0, 0), 3), ((1, 0, 2, 0, 0, 0), 5), ((2, 1, 3, 3, 1, 0), 1),
    ((2, 1, 2, 2, 1, 1), 1), ((2, 1, 2, 1, 1, 0), 10), ((1, 1, 1, 2, 0, 0), 1), ((2, 1, 3, 3, 1, 3), 1), ((2, 1, 3, 3, 1, 4), 1),
    ((2, 1, 2, 2, 2, 3), 1)]])
add("C03", *[J("dense_newton", "dense_newton", *a, opts=RG) for a in [
    (2, 1, 3, 3, 11, 0), (4, 2, 6, 3, 11, 0), (8, 4, 10, 3, 11, 0), (8, 4, 10, 3, 11, 1), (3, 2, 9, 3, 12, 0),
    (6, 0, 4, 3, 11, 2), (2, 3, 4, 3, 11, 0), (2, 1, 9, 3, 11, 0), (5, 5, 5, 3, 11, 0), (1, 0, 9, 3, 11, 0), (4, 3, 1, 3, 11, 0),
    (8, 4, 10, 3, 11, 4), (4, 2, 6, 3, 12, 0)]])
# one constraint at an arbitrary point, and points of magnitudes far apart
add("C03", *[J("dense_newton", "dense_newton", *a, opts=G, w=w) for a, w in [
    ((2, 1, 1, 60, 1, 0), 2), ((2, 1, 3, 60, 1, 0), 2), ((2, 1, 1, 60, 2, 0), 1), ((2, 1, 3, 4, 1, 0), 2), ((3, 1, 9, 5, 1, 3), 1),
    ((2, 2, 5, 5, 2, 0), 1)]])
add("C03", *[J("dense_newton", "dense_reuse", *a, opts=RG) for a in [(1, 0, 1), (2, 1, 3), (4, 2, 6), (7, 3, 5), (2, 3, 1)]])
add("C03", J("dense_newton", "dense_newton", 3, 1, 2, 1, 2, 0, opts=G),
    J("dense_newton", "dense_newton", 16, 8, 20, 3, 11, 0, opts=RG), t="thorough")
add("C04", *[J("mpc_newton", "mpc_newton", *a, opts=G) for a in [
    (1, 1, 1, 1, 1, 1, 0), (1, 1, 1, 1, 3, 3, 0), (1, 2, 1, 1, 3, 1, 0), (2, 1, 1, 1, 3, 1, 0), (1, 1, 2, 1, 3, 1, 0),
    (1, 1, 3, 1, 3, 1, 0), (1, 1, 1, 3, 3, 1, 0), (1, 1, 1, 1, 1, 1, 3), (1, 1, 1, 1, 3, 1, 4), (1, 1, 1, 1, 3, 1, 6),
    (2, 1, 1, 1, 3, 1, 3), (1, 2, 1, 1, 3, 1, 3), (1, 1, 1, 1, 3, 2, 3)]])
add("C04", *[J("mpc_newton", "mpc_newton", *a, opts=RG, w=w) for a, w in [
    ((1, 1, 1, 1, 3, 11, 0), 1), ((2, 2, 1, 2, 3, 11, 0), 1), ((3, 3, 2, 3, 3, 11, 0), 5),
    ((5, 4, 3, 5, 3, 11, 0), 30), *[(a, 3) for a in [
        (1, 1, 3, 1, 3, 11, 0), (2, 1, 3, 2, 3, 11, 0), (3, 2, 4, 3, 3, 11, 0), (2, 2, 1, 5, 3, 11, 0), (2, 4, 1, 1, 3, 11, 0),
        (4, 1, 4, 1, 3, 11, 0), (1, 3, 5, 9, 3, 11, 0), (10, 1, 1, 1, 3, 11, 0),
        (2, 2, 2, 2, 3, 11, 4), (2, 2, 2, 2, 3, 12, 0), (2, 2, 1, 2, 3, 12, 1)]]]])
add("C04", *[J("mpc_newton", "mpc_newton", *a, opts=G, w=w) for a, w in [
    ((1, 1, 1, 1, 61, 1, 0), 1), ((1, 1, 1, 1, 61, 1, 3), 1), ((1, 1, 1, 1, 61, 2, 0), 1), ((1, 1, 1, 2, 62, 1, 0), 1),
    ((1, 1, 1, 2, 63, 1, 0), 2), ((1, 1, 1, 3, 65, 1, 0), 5), ((2, 1, 1, 1, 62, 1, 0), 5), ((1, 1, 2, 1, 61, 1, 0), 2),
    ((1, 2, 1, 1, 61, 1, 0), 9), ((1, 1, 1, 1, 4, 1, 0), 1), ((1, 1, 1, 5, 5, 1, 0), 1), ((1, 2, 1, 3, 5, 1, 4), 1)]])

add("C04", *[J("mpc_newton", "mpc_reuse", *a, opts=RG, w=8) for a in [
    (1, 1, 1, 1), (2, 2, 1, 2), (3, 2, 2, 2), (2, 1, 3, 2), (1, 2, 4, 7), (4, 1, 3, 1)]])

# C05: residual, Newton step and update composed
add("C05", *[J("step", "dense_step", *a, opts=G, w=w) for a, w in [
    ((1, 0, 1, 0, 0, 0), 1), ((1, 1, 1, 0, 0, 0), 1), ((1, 0, 2, 0, 0, 0), 2), ((1, 1, 1, 2, 0, 0), 1),
    ((2, 1, 3, 3, 1, 0), 1), ((2, 1, 2, 2, 1, 1), 1), ((2, 1, 2, 1, 1, 0), 4), ((2, 1, 2, 3, 2, 0), 1),
    ((3, 1, 4, 3, 1, 1), 2), ((2, 1, 3, 3, 1, 3), 1), ((2, 1, 2, 3, 2, 3), 1)]])
add("C05", *[J("step", "dense_step", *a, opts=RG) for a in [
    (2, 1, 3, 3, 11, 0), (4, 2, 6, 3, 11, 0), (8, 4, 10, 3, 11, 0), (3, 2, 9, 3, 12, 0), (6, 0, 4, 3, 11, 2),
    (2, 3, 4, 3, 11, 0), (2, 1, 9, 3, 11, 0), (4, 3, 1, 3, 11, 0)]])
add("C05", *[J("step", "mpc_step", *a, opts=G, w=w) for a, w in [
    ((1, 1, 1, 1, 1, 1, 0), 8), ((1, 1, 1, 1, 3, 1, 0), 1), ((1, 2, 1, 1, 3, 1, 0), 1), ((2, 1, 1, 1, 3, 1, 0), 1),
    ((1, 1, 1, 1, 2, 2, 1), 2), ((1, 1, 2, 1, 3, 1, 0), 1), ((1, 1, 1, 3, 3, 1, 0), 1),
    ((1, 1, 1, 1, 3, 1, 3), 1), ((2, 1, 1, 1, 3, 2, 3), 1)]])
add("C05", *[J("step", "mpc_step", *a, opts=RG, w=w) for a, w in [
    ((1, 1, 1, 1, 3, 11, 0), 1), ((2, 2, 1, 2, 3, 11, 0), 1), ((3, 3, 2, 3, 3, 11, 0), 7),
    ((2, 2, 1, 2, 3, 12, 1), 1), ((4, 2, 1, 2, 3, 11, 0), 7), ((2, 1, 3, 2, 3, 11, 0), 2), ((1, 2, 4, 7, 3, 11, 0), 2),
    ((3, 1, 3, 1, 3, 11, 0), 2), ((2, 2, 1, 2, 3, 12, 2), 1)]])
add("C05", *[J("step", "dense_step", *a, opts=G, w=w) for a, w in [
    ((2, 1, 1, 60, 1, 0), 1), ((2, 1, 3, 60, 1, 0), 5), ((2, 1, 9, 5, 1, 0), 1), ((3, 1, 9, 5, 1, 3), 1), ((2, 2, 5, 5, 2, 0), 1),
    ((1, 0, 1, 4, 0, 0), 1)]])
add("C05", *[J("step", "mpc_step", *a, opts=G, w=w) for a, w in [
    ((1, 1, 1, 1, 61, 1, 0), 1), ((1, 1, 1, 1, 61, 2, 0), 1), ((1, 1, 1, 1, 61, 1, 3), 2), ((1, 1, 1, 2, 62, 1, 0), 1),
    ((1, 1, 1, 2, 63, 1, 0), 6), ((1, 1, 1, 5, 5, 1, 0), 1), ((1, 2, 1, 3, 5, 1, 0), 1), ((1, 1, 2, 5, 5, 1, 0), 1)]])
add("C05", J("step", "mpc_step", 5, 4, 3, 5, 3, 11, 0, opts=RG, w=60), t="thorough")

# C06: iterate arithmetic
add("C06", *[J("variable", "variable_ops", *a, w=w) for a, w in [
    ((0, 1, 0, 1, 0, 2, 0), 1), ((0, 1, 1, 1, 0, 3, 0), 7), ((0, 2, 1, 2, 0, 2, 0), 3),
    ((1, 1, 1, 1, 1, 2, 0), 3), ((1, 2, 2, 1, 2, 1, 0), 12), ((0, 4, 2, 3, 0, 2, 1), 6), ((0, 3, 2, 5, 0, 1, 1), 3),
    ((1, 3, 2, 2, 1, 1, 1), 1)]])
add("C06", *[J("variable", "variable_relink", *a) for a in [
    (0, 1, 0, 1, 0, 0, 1), (0, 1, 1, 1, 0, 0, 0), (0, 2, 1, 2, 0, 0, 1), (1, 1, 1, 1, 1, 0, 1), (1, 2, 2, 1, 2, 1, 1), (0, 4, 2, 3, 0, 1, 0)]])
add("C06", *[J("variable", "variable_ops", *a) for a in [
    (0, 2, 1, 2, 0, 3, 1), (1, 1, 1, 1, 1, 3, 1), (0, 3, 2, 4, 0, 2, 1)]], t="thorough")

# C07: residuals
add("C07", *[J("residual", "residual_def", *a, w, 0) for a in [(0, 1, 0, 1, 0), (0, 1, 1, 1, 0), (0, 2, 1, 2, 0),
                                                           (1, 1, 1, 1, 1)] for w in (0, 1, 2)])
add("C07", *[J("residual", "residual_kkt", *a, w, reach=["kkt", "notkkt"]) for a in [
    (0, 1, 0, 1, 0), (0, 1, 1, 1, 0), (0, 2, 1, 2, 0), (1, 1, 1, 1, 1)] for w in (0, 1)])

add("C07", *[J("residual", "residual_def", *a) for a in [
    (0, 5, 3, 4, 0, 1, 1), (0, 3, 1, 3, 0, 0, 1), (0, 4, 6, 4, 0, 2, 1), (1, 2, 2, 1, 1, 0, 1), (1, 3, 1, 2, 1, 2, 1),
    (1, 2, 1, 2, 2, 1, 1), (1, 1, 1, 4, 1, 2, 1), (1, 2, 1, 3, 1, 0, 1)]])
add("C07", *[J("residual", "residual_norms", *a, w) for a in [(9, 4, 11), (3, 0, 17), (5, 6, 2), (2, 1, 8)] for w in (0, 1, 2)])

add("C07", *[J("residual", "residual_relink", *a, opts=o) for a in [
    (0, 1, 1, 1, 0, 0, 0, 1, 2), (0, 2, 1, 2, 0, 0, 1, 2, 0), (0, 2, 1, 2, 0, 0, 2, 0, 1), (1, 1, 1, 1, 1, 0, 0, 2, 1),
    (1, 2, 2, 1, 2, 1, 2, 0, 2), (0, 1, 1, 1, 0, 0, 2, 2, 2), (0, 1, 0, 1, 0, 0, 1, 1, 1), (0, 1, 1, 1, 0, 0, 0, 0, 0)]
    for o in ([], ["--reuse"])])

# C08: infeasibility verdicts
add("C08", *[J("feas", "feas", *a, w=w) for a, w in [
    ((0, 1, 0, 1, 0, 0, 0), 1), ((0, 1, 1, 1, 0, 0, 1), 2), ((0, 1, 0, 1, 0, 0, 2), 2), ((0, 2, 1, 2, 0, 0, 0), 13),
    ((0, 2, 1, 2, 0, 0, 1), 22)]])

add("C08", *[J("feas", "feas_relink", *a, opts=["--reuse"], w=w) for a, w in [
    ((0, 1, 0, 1, 0, 0, 0), 1), ((0, 1, 1, 1, 0, 0, 1), 1), ((0, 2, 1, 2, 0, 0, 0), 17), ((1, 1, 1, 1, 1, 1, 1), 23)]])
add("C08", *[J("feas", "feas_large", *a, 0, 1, w=5, reach=["dual", "primal", "end"]) for a in [
    (0, 3, 1, 3, 0), (0, 5, 3, 7, 0), (0, 4, 0, 9, 0), (0, 3, 2, 9, 0), (0, 6, 1, 1, 0), (1, 1, 1, 2, 3), (1, 2, 2, 2, 3),
    (1, 3, 1, 2, 1), (1, 1, 1, 4, 1), (1, 2, 1, 4, 3), (1, 1, 4, 2, 1)]])

# C09, C10, C11: the algorithm over arbitrary component behaviour
for pid, g in (("C09", 1), ("C10", 2), ("C11", 4)):
    add(pid, *[J("algo", "algo_exit", *a, g, m="fpuf", w=w) for a, w in [
        ((1, 1, 1, 1, 3), 3), ((1, 1, 2, 1, 3), 2), ((1, 2, 3, 1, 1), 2), ((2, 2, 1, 1, 3), 2), ((2, 3, 1, 1, 3), 4), ((3, 3, 1, 1, 3), 3),
        ((2, 3, 2, 1, 15), 30), ((2, 4, 2, 1, 3), 44), ((1, 1, 1, 1, 19), 1), ((1, 2, 2, 1, 19), 24), ((2, 2, 1, 1, 27), 10)]])
    add(pid, *[J("algo", "algo_long", *a, g, m="fpuf", w=3) for a in [(40, 1000, 1, 20, 35, 2), (3, 600, 260, 1, 2, 1), (2, 60, 40, 30, 1, 1)]])
    add(pid, J("algo", "algo_exit", 2, 3, 2, 2, 6, g, m="fpuf"), J("algo", "algo_long", 300, 1000, 2, 1, 299, 2, g, m="fpuf"), t="thorough")

LG = ["--lazy", "--generic"]
add("C09", *[J("solve", "dense_report", 2, 1, 2, t, 0, 8, 30, 8, 4, m="fpuf", opts=LG) for t in range(4)])
add("C09", *[J("solve", "dense_report", *s, t, 0, 8, 30, 8, 4, m="fpuf", opts=LG)
             for s in [(1, 2, 3), (2, 2, 1), (1, 0, 6), (3, 0, 1), (4, 2, 7)] for t in range(4)])
add("C09", *[J("solve", "dense_report", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((2, 1, 2, 0, 1, 1, 1, 1, 31), 1), ((2, 1, 2, 1, 1, 1, 1, 1, 31), 1), ((1, 0, 1, 1, 1, 1, 1, 1, 1), 7),
    ((1, 0, 1, 0, 4, 1, 1, 1, 31), 11), ((3, 0, 4, 0, 1, 1, 1, 1, 31), 1)]])
add("C09", *[J("solve", "mpc_report", 2, 2, 1, 1, t, 0, 8, 30, 8, 4, m="fpuf", opts=LG) for t in range(4)])
add("C09", *[J("solve", "mpc_report", *s, t, 0, 8, 30, 8, 4, m="fpuf", opts=LG)
             for s in [(2, 1, 3, 2), (1, 2, 1, 6), (4, 1, 1, 1)] for t in range(4)])
add("C09", *[J("solve", "mpc_report", 1, 1, 1, 1, t, 1, 1, 1, 1, 1, m="fpuf", opts=LG, w=23) for t in (0, 2)])

# C12: options
add("C12", *[J("options", "options_validate", g, v, m="fpuf") for g in range(7) for v in (0, 1)])
add("C12", *[J("options", "options_nearest", g, m="fpuf") for g in range(6)])
add("C12", *[J("options", "options_update", g, v, m="fpuf") for g in range(7) for v in (0, 1)])
add("C12", J("options", "options_presets", m="fpuf"))

# ... and through the solver classes: every option alone
add("C12", *[J("solve", "dense_effect", *((1, 0, 1) if g <= 3 else (2, 1, 2)), g, k, m="fpuf", opts=LG,
               w=3 if g <= 3 or g == 10 else 1) for g in range(21) for k in (0, 1) if g != 0 or k == 0])
add("C12", *[J("solve", "mpc_effect", 1, 1, 1, 1, g, k, m="fpuf", opts=LG, w=27 if g == 0 else 14 if g == 3 else 1)
             for g in (0, 3, *range(4, 21)) for k in ((0, 1) if g > 3 else (0,))])
add("C12", *[J("solve", "mpc_effect", 1, 1, 1, 1, g, 1, m="fpuf", opts=LG) for g in (1, 2)], t="thorough")

# C13: input validation
add("C13", *[J("sizes", "dense_ctor", k, m="fpuf") for k in (0, 1)])
add("C13", *[J("sizes", "mpc_ctor", *a, m="fpuf", w=w) for a, w in [((0, 0), 1), ((1, 0), 20), ((1, 1), 5)]])
add("C13", *[J("sizes", "dense_sizes", *a, m="fpuf", w=3, reach=["accepted", "rejected"]) for a in [
    (2, 1, 3, 0, 3), (2, 1, 3, 1, 5), (1, 0, 1, 0, 2), (2, 1, 3, 0, 4), (1, 0, 1, 1, 2)]])
add("C13", *[J("sizes", "mpc_sizes", 1, 2, 1, 1, w_, 2, m="fpuf", w=w, reach=["accepted", "rejected"])
             for w_, w in [(0, 1), (1, 1), (2, 5), (3, 1)]])
add("C13", *[J("sizes", "mpc_sizes", 2, 1, 2, 3, w_, 3, m="fpuf", w=w, reach=["accepted", "rejected"])
             for w_, w in [(0, 1), (1, 1), (2, 18), (3, 1)]])
add("C13", *[J("sizes", "mpc_other", 1, 2, 1, 1, 2, g, m="fpuf", w=8, reach=["accepted", "rejected"]) for g in (0, 1)])
add("C13", *[J("sizes", "dense_owning", *a, m="fpuf", reach=["accepted", "rejected"]) for a in [(2, 1, 3), (1, 0, 1)]])
add("C13", *[J("sizes", "mpc_owning", *a, m="fpuf", reach=["accepted", "rejected"]) for a in [(2, 3, 2, 4), (1, 1, 1, 1)]])
add("C13", *[J("sizes", "dense_data", hi, m="fpuf", reach=["accepted", "rejected"]) for hi in (3, 5)])
add("C13", *[J("sizes", "mpc_data", *a, m="fpuf", reach=["accepted", "rejected"]) for a in [
    (1, 2, 1, 1, 0, 4), (1, 2, 1, 1, 1, 4), (1, 1, 2, 1, 0, 4), (1, 1, 2, 1, 1, 4), (2, 1, 2, 3, 0, 4), (2, 1, 2, 3, 1, 4), (3, 3, 1, 2, 0, 4),
    (3, 3, 1, 2, 1, 4)]])
add("C13", *[J("sizes", "mpc_empty", k, m="fpuf") for k in (0, 1)], J("sizes", "dense_null", m="fpuf"))

# C14: matrix sequences
add("C14", *[J("seq", "seq_owning", *a, m="fpuf", reach=["copied"]) for a in [(2, 2, 3), (1, 1, 1), (3, 2, 1), (0, 2, 2), (1, 2, 3), (1, 3, 1),
                                                                            (1, 1, 4), (2, 1, 3), (4, 2, 2)]])
add("C14", *[J("seq", "seq_mapped", *a, m="fpuf", reach=["inside", "outside"]) for a in [
    (2, 2, 3), (1, 1, 1), (3, 2, 1), (1, 2, 3), (1, 3, 1), (1, 1, 4), (2, 1, 3), (4, 2, 2)]])
add("C14", *[J("seq", "seq_ctor", k, m="fpuf", reach=["bad", "good"]) for k in (0, 1)], J("seq", "seq_column", 3, 2, m="fpuf"))
add("C14", *[J("seq", "seq_write", *a, m="fpuf") for a in [(3, 2, 2), (1, 3, 2), (2, 1, 4)]])

# C15: earlier solves leave no trace
add("C15", *[J("hist", "algo_history", *a, m="fpuf", w=w, reach=["end", "returned"]) for a, w in [
    ((1, 1, 1, 1, 1, 1, 1, 0), 1), ((1, 1, 1, 1, 1, 1, 1, 63), 1), ((2, 2, 1, 2, 2, 1, 1, 63), 2), ((3, 3, 1, 3, 3, 1, 1, 63), 12),
    ((1, 2, 2, 1, 2, 2, 2, 35), 18), ((2, 3, 2, 2, 3, 2, 1, 63), 20)]])
add("C15", *[J("solve", "dense_history", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((1, 0, 1, 1, 1, 1, 1, 1, 1), 6), ((2, 1, 2, 1, 1, 1, 1, 1, 1), 10), ((2, 1, 2, 1, 2, 1, 1, 1, 1), 8),
    ((2, 1, 2, 2, 1, 1, 1, 1, 31), 6), ((3, 0, 4, 1, 3, 1, 1, 1, 31), 2), ((1, 0, 1, 1, 31, 1, 1, 1, 31), 23)]])
add("C15", *[J("solve", "mpc_history", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((2, 2, 1, 1, 1, 1, 1, 1, 1, 31), 5), ((3, 1, 1, 1, 1, 1, 1, 1, 1, 31), 5), ((2, 2, 1, 2, 1, 3, 1, 1, 1, 31), 5),
    ((2, 3, 2, 2, 1, 1, 1, 1, 1, 31), 9), ((1, 1, 1, 1, 1, 2, 1, 1, 1, 1), 27), ((1, 1, 1, 1, 2, 1, 1, 1, 1, 31), 30)]])
# ... with objects at the addresses of earlier ones
LGR = LG + ["--reuse"]
add("C15", *[J("solve", "dense_history", *a, m="fpuf", opts=LGR, w=w) for a, w in [
    ((2, 1, 2, 2, 64, 3, 8, 8, 4), 1), ((3, 1, 4, 3, 64, 3, 8, 8, 4), 8), ((1, 0, 3, 2, 64, 3, 8, 8, 4), 1),
    ((2, 1, 2, 3, 0, 3, 8, 8, 4), 6), ((2, 1, 2, 1, 65, 1, 1, 1, 31), 1), ((2, 2, 1, 1, 65, 1, 1, 1, 31), 1),
    ((3, 0, 4, 1, 67, 1, 1, 1, 31), 1), ((1, 0, 1, 1, 65, 1, 1, 1, 1), 2)]])
add("C15", *[J("solve", "mpc_history", *a, m="fpuf", opts=LGR, w=w) for a, w in [
    ((2, 1, 3, 2, 1, 64, 3, 8, 8, 4), 1), ((2, 2, 1, 2, 2, 64, 3, 8, 8, 4), 8), ((1, 2, 4, 3, 1, 64, 3, 8, 8, 4), 1),
    ((2, 2, 1, 1, 2, 0, 3, 8, 8, 4), 8), ((2, 1, 3, 2, 1, 65, 1, 1, 1, 31), 5), ((2, 2, 1, 1, 1, 65, 1, 1, 1, 31), 4)]])
add("C15", *[J("solve", "dense_many", *a, 42, m="fpuf", opts=LGR) for a in [(2, 1, 2), (3, 0, 4), (2, 2, 1)]])
add("C15", *[J("solve", "mpc_many", *a, 42, m="fpuf", opts=LGR) for a in [(2, 2, 1, 1), (2, 1, 3, 2), (3, 1, 1, 2)]])
add("C15", J("hist", "algo_history", 2, 4, 2, 2, 3, 2, 1, 7, m="fpuf"), J("hist", "algo_history", 2, 3, 2, 2, 3, 2, 2, 15, m="fpuf"),
    J("solve", "dense_history", 1, 0, 1, 1, 4, 1, 1, 1, 1, m="fpuf", opts=LG),
    J("solve", "mpc_history", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, m="fpuf", opts=LG), t="thorough")

# C16: input kinds
add("C16", *[J("solve", "dense_kinds", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((1, 0, 1, 1, 1, 1, 1, 1), 1), ((2, 1, 2, 1, 1, 1, 1, 1), 1), ((2, 1, 2, 2, 1, 1, 1, 31), 14),
    ((1, 0, 1, 31, 1, 1, 1, 31), 15), ((3, 0, 4, 3, 1, 1, 1, 31), 23), ((2, 2, 2, 0, 3, 8, 8, 4), 1), ((3, 1, 3, 0, 3, 8, 8, 4), 1),
    *[((*s, 0, 3, 8, 8, 4), 1) for s in [(1, 2, 3), (2, 2, 1), (1, 0, 7)]]]])
add("C16", *[J("solve", "mpc_kinds", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((1, 1, 1, 1, 1, 1, 1, 1, 1), 2), ((2, 2, 2, 2, 1, 1, 1, 1, 31), 23), ((2, 2, 1, 2, 3, 1, 1, 1, 31), 24),
    ((3, 1, 1, 1, 1, 1, 1, 1, 31), 23), ((2, 2, 2, 2, 2, 1, 1, 1, 31), 23), ((2, 2, 1, 3, 0, 3, 8, 8, 4), 1),
    ((2, 1, 2, 1, 0, 3, 8, 8, 4), 1), *[((*s, 0, 3, 8, 8, 4), 1) for s in [(2, 1, 3, 2), (1, 2, 4, 7), (4, 1, 1, 1)]],
    ((1, 1, 3, 1, 1, 1, 1, 1, 31), 23)]])
# ... and reject the same sizes
add("C16", *[J("sizes", "dense_kinds_sizes", *a, m="fpuf", reach=["accepted", "rejected"]) for a in [(2, 1, 3), (3, 0, 2), (1, 0, 1), (2, 2, 2)]])
add("C16", *[J("sizes", "mpc_kinds_sizes", *a, m="fpuf", reach=["accepted", "rejected"]) for a in [
    (2, 3, 2, 4), (2, 1, 2, 1), (1, 1, 1, 1), (1, 2, 2, 3)]])

# C20: memory safety
add("C20", *[J("solve", "dense_safe", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((1, 0, 1, 1, 1, 1, 1, 1, 1), 7), ((2, 1, 2, 0, 3, 1, 1, 1, 31), 1), ((3, 0, 4, 1, 3, 1, 1, 1, 31), 1), ((3, 2, 5, 0, 1, 1, 1, 1, 31), 1),
    *[((2, 1, 2, t, 0, 8, 8, 4, 4), 1) for t in range(5)], *[((4, 2, 7, t, 0, 8, 8, 4, 4), 1) for t in range(5)],
    *[((*s, t, 0, 8, 8, 4, 4), 1) for s in [(3, 0, 9), (1, 2, 3), (2, 2, 1), (1, 0, 12), (6, 3, 2)] for t in range(5)]]])
add("C20", *[J("solve", "mpc_safe", *a, m="fpuf", opts=LG, w=w) for a, w in [
    ((1, 1, 1, 1, 0, 1, 1, 1, 1, 31), 1), ((2, 2, 1, 2, 1, 3, 1, 1, 1, 31), 1),
    *[((2, 2, 1, 2, t, 0, 8, 8, 4, 4), 1) for t in range(5)], *[((4, 1, 2, 3, t, 0, 8, 8, 4, 4), 1) for t in range(5)],
    *[((*s, t, 0, 8, 8, 4, 4), 1) for s in [(3, 3, 2, 1), (2, 1, 3, 2), (1, 2, 4, 7), (6, 1, 1, 1), (1, 1, 1, 6)] for t in range(5)]]])

# C21: instances
NG = ["--no-global-stores"]
add("C21", *[J("solve", "isolated", p, 1, 1, 1, 1, 31, m="fpuf", opts=LG + NG, w=24) for p in range(6)])
add("C21", *[J("solve", "isolated", p, 0, 3, 8, 8, 4, m="fpuf", opts=LG + NG) for p in range(6)])
add("C21", J("solve", "isolated", 0, 3, 1, 1, 1, 1, m="fpuf", opts=LG + NG, w=9))

# C17: line search
add("C17", *[J("inner", "algo_linesearch", *a, w=w) for a, w in [
    ((1, 1, 1, 1, 0, 0, 0), 1), ((1, 2, 2, 2, 1, 0, 0), 1), ((1, 2, 2, 2, 0, 0, 0), 1), ((1, 7, 7, 1, 1, 1, 6), 2),
    ((1, 7, 7, 2, 1, 2, 6), 2), ((1, 8, 8, 1, 1, 1, 7), 2), ((2, 4, 2, 1, 1, 0, 0), 2), ((1, 1, 1, 4, 1, 3, 0), 1),
    ((1, 1, 1, 20, 1, 3, 0), 1), ((1, 2, 2, 12, 0, 2, 1), 2), ((1, 3, 3, 3, 1, 0, 0), 3),
    ((1, 9, 9, 2, 1, 2, 7), 5), ((3, 9, 3, 1, 1, 1, 8), 5), ((2, 8, 7, 1, 1, 2, 7), 5)]])
add("C17", J("inner", "algo_linesearch", 1, 4, 4, 2, 1, 0, 0), t="thorough")

# C18: display
add("C18", *[J("display", "display_same", *a) for a in [(1, 1, 1, 1), (2, 2, 1, 1), (1, 2, 2, 0), (2, 3, 2, 0)]])
add("C18", *[J("display", "display_values", *a) for a in [(1, 1, 1), (1, 1, 2), (1, 2, 3), (2, 2, 1)]])
add("C18", *[J("display", "display_table", *a) for a in [
    (1, 1, 1, 0, 0), (1, 1, 1, 0, 1), (2, 2, 1, 0, 2), (3, 3, 1, 0, 2), (2, 3, 2, 0, 3), (2, 2, 2, 2, 3), (2, 3, 2, 1, 3),
    (2, 2, 2, 2, 2), (3, 3, 1, 1, 3)]])
add("C18", *[J("display", "display_solver", k) for k in (0, 1)])

# C19: warm starts
add("C19", *[J("inner", "algo_warm", k, m="fpuf") for k in (0, 1)])

add("C19", *[J("solve", "dense_warm", *a) for a in [
    (1, 0, 1, 0, 0), (2, 1, 2, 0, 0), (2, 1, 2, 0, 1), (2, 1, 2, 0, 2), (1, 1, 1, 32, 0), (2, 1, 2, 32, 0), (3, 2, 4, 0, 3), (1, 2, 3, 0, 0),
    (4, 2, 1, 32, 3)]])
add("C19", *[J("solve", "mpc_warm", *a, w=w) for a, w in [
    ((1, 1, 1, 1, 0, 0), 3), ((1, 1, 1, 1, 32, 3), 1), ((2, 2, 1, 1, 0, 3), 5), ((1, 2, 1, 2, 32, 3), 10),
    ((1, 1, 3, 1, 0, 0), 19), ((1, 1, 3, 1, 32, 3), 1), ((3, 1, 1, 1, 0, 3), 13)]])

# C22: component preconditions
add("C22", *[J("precond", "comp_ctor", *a, m="fpuf", w=w) for a, w in [
    ((0, 0, 3), 1), ((1, 0, 3), 1), ((2, 0, 3), 1), ((3, 0, 3), 2), ((4, 0, 2), 1), ((0, 1, 2), 1), ((1, 1, 2), 1), ((2, 1, 2), 1),
    ((3, 1, 2), 13), ((4, 1, 1), 1)]])
add("C22", *[J("precond", "comp_nodata", *a, m="fpuf") for a in [(0, 1, 1, 1, 0), (0, 2, 1, 3, 0), (1, 1, 1, 1, 1), (0, 2, 0, 1, 0)]])
add("C22", *[J("precond", "comp_init", *a, k, m="fpuf") for a in [(0, 2, 1, 3, 0), (1, 1, 1, 1, 1)] for k in (0, 1)])
add("C22", *[J("precond", e, *a, m="fpuf", w=2) for e in ("comp_solve", "comp_feas") for a in [(0, 2, 1, 3, 0), (1, 1, 2, 1, 1)]])
add("C22", *[J("precond", "mpc_product", k, 1, 2, 1, 1, m="fpuf") for k in range(8)])
add("C22", J("precond", "algo_null", m="fpuf"), J("precond", "util_saturate", m="fpuf", reach=["reversed"]),
    J("precond", "util_saturate_int", m="fpuf"))
add("C22", J("precond", "comp_ctor", 4, 1, 2, m="fpuf"), J("precond", "comp_ctor", 3, 1, 3, m="fpuf"), t="thorough")

# C23: subproblem accuracy
add("C23", *[J("inner", "algo_accuracy", *a, w=w) for a, w in [
    ((1, 1, 1, 1, 1), 1), ((2, 2, 1, 1, 1), 5), ((2, 3, 2, 1, 4), 19), ((3, 3, 1, 1, 4), 20), ((1, 4, 4, 2, 4), 6),
    ((2, 4, 2, 1, 4), 22)]])
add("C23", *[J("inner", "algo_accuracy", *a) for a in [(3, 3, 1, 1, 0), (4, 4, 1, 1, 4)]], t="thorough")

# C24: the sparse factorisation wrapper
add("C24", *[J("ldl", "ldl_solve", *a, opts=G) for a in [
    (1, 0, 1, 1), (1, 1, 0, 1), (2, 1, 1, 1), (2, 1, 2, 1), (3, 1, 2, 1), (3, 2, 1, 1), (3, 4, 2, 1), (4, 4, 2, 1), (4, 0, 2, 1),
    (3, 1, 2, 2), (5, 4, 2, 2), (4, 3, 0, 2)]])
add("C24", *[J("ldl", "ldl_solve", *a, opts=RG) for a in [
    (1, 0, 1, 0), (2, 1, 1, 0), (4, 1, 2, 0), (6, 5, 3, 0), (10, 5, 6, 0), (8, 4, 4, 0), (8, 3, 5, 0), (7, 2, 7, 0), (5, 0, 2, 0)]])

add("C24", *[J("ldl", "ldl_inplace", *a, opts=G) for a in [
    (1, 0, 1, 0), (2, 1, 1, -1), (3, 1, 2, 0), (3, 1, 2, 1), (3, 1, 2, 5), (4, 3, 2, 4), (4, 4, 2, 0), (5, 2, 3, 3), (5, 4, 2, -1)]])

PROPS = {}
for _p, _m in META.items():
    if _p in JOBS:
        PROPS[_p] = dict(_m, jobs=JOBS[_p])
