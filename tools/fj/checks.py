"""The check of each property: profiles, exhaustive sets, bounded models, special procedures."""
import itertools
import os
import subprocess
import sys
import time
import traceback

from . import driver, env, props, special, tlc
from .driver import Ctx, batches, gen, numbered
from .env import log
from .props import one, R

# Profile, cases of the quick tier, cases of one batch of the thorough tier, exhaustive sets (quick, thorough).
PROFILES = {}


def profile(pid, fn, quick, batch, small=None, full=None):
    PROFILES[pid] = (fn, quick, batch, small, full)


def docs(ctx):
    for i, vs in enumerate(props.c03_small()):
        if not ctx.full and (i + ctx.seed) % 2:
            continue
        yield one([[{"pre": "", "v": v} for v in vs]])


profile("C01", props.c01, 90, 200)
profile("C02", props.c02, 80, 200)
profile("C03", props.c03, 250, 600, docs)
profile("C04", props.c04, 200, 500)
profile("C05", props.c05, 100, 250)
profile("C06", props.c06, 250, 600, lambda ctx: props.c06_small())
profile("C07", props.c07, 50, 120)
profile("C08", props.c08, 300, 700)
profile("C09", props.c09, 200, 500, lambda ctx: props.c09_small())
profile("C10", props.c10, 160, 400, lambda ctx: props.c10_small())
profile("C11", props.c11, 120, 300, lambda ctx: props.c11_default(ctx, gen(ctx, "default")))
profile("C12", props.c12, 200, 500)
profile("C13", props.c13, 120, 400, lambda ctx: props.c13_small())
profile("C14", props.c14, 90, 250, lambda ctx: props.c14_chars())
profile("C15", props.c15, 30, 80, lambda ctx: props.c15_small(ctx.full))
profile("C16", props.c16, 150, 400, lambda ctx: props.c16_rows(ctx.full))
profile("C17", props.c17, 60, 150)
profile("C19", props.c19, 200, 500, lambda ctx: props.c19_small())
profile("C20", props.c20, 150, 400, lambda ctx: props.c20_small())
profile("C21", props.c21, 220, 500)
profile("C22", props.c22, 200, 500)
profile("C23", props.c23, 200, 500)
profile("C24", props.c24, 220, 500)
profile("C25", props.c25, 200, 500, lambda ctx: props.c25_exhaustive())
profile("C26", props.c26, 100, 250)
profile("C27", props.c27, 200, 500)
profile("C28", props.c28, 60, 150)
profile("C30", props.c30, 100, 250)
profile("C31", props.c31, 320, 600, lambda ctx: props.c31_small())
profile("C32", props.c32, 260, 600)


# Combinations of options that each profile is extended with: features that are always part of them.
MIX = {"C01": [("conc",), ("conc", "damaged")], "C02": [("conc",), ("conc", "hc"), ("conc", "emb"), ("conc", "tr")], "C03": [()], "C04": [("damaged",)], "C05": [("conc",)],
       "C06": [("sel", "selrx"), ("excl",), ("sel",)], "C07": [("sel",)], "C08": [("ren",), ("auto",), ("auto", "ren")], "C09": [("merge",)],
       "C10": [("tr",), ("tr", "sqlcols")], "C11": [("hc",)], "C12": [("keep",)], "C13": [("win",)], "C14": [()], "C15": [("sqlcols",)], "C16": [("sqlcols",), ()],
       "C17": [("comp",)], "C19": [("merge",), ("tr",), ("keep",), ("case",)], "C20": [("zero",)], "C21": [("emb",)], "C22": [("case",)], "C23": [("prefix",)],
       "C24": [("time",)], "C25": [("flim",), ("klim",), ("flim", "emb"), ("flim", "tr")], "C26": [("seq",), ("seq", "tr")], "C28": [("conc",)]}
MIXED = 48
EXTRA = int(os.environ.get("VERIF_EXTRA", "2"))
SHORT = int(os.environ.get("VERIF_SHORT", "50"))


def mixes(ctx, tag, n):
    ms = MIX.get(ctx.prop, [])
    for j, must in enumerate(ms):
        yield from props.mix(ctx, gen(ctx, "%s-mix%d" % (tag, j)), n // len(ms), must)


def run_profile(ctx, budget):
    fn, quick, batch, small, _ = PROFILES[ctx.prop]
    if small is not None:
        n = 0
        for b in batches(numbered(ctx, small(ctx), "small"), 1500):
            n += len(b)
            if not ctx.judge(b):
                return
        ctx.notes["enumerated_cases"] = n
    if not ctx.full:
        for k in range(EXTRA + 1):  # more of them while the check is short
            tag = "q%d" % k if k else "q"
            if not ctx.judge(numbered(ctx, itertools.chain(fn(ctx, gen(ctx, tag), quick), mixes(ctx, tag, MIXED)), tag)) or time.time() - ctx.t0 > SHORT:
                return
        return
    k = 0
    while ctx.left(budget) > 60:
        if not ctx.judge(numbered(ctx, itertools.chain(fn(ctx, gen(ctx, "t%d" % k), batch), mixes(ctx, "t%d" % k, 2 * MIXED)), "t%d" % k)):
            return
        k += 1


# Checks with a procedure of their own, and what some checks do before their profile.
SPECIAL = {"C18": special.c18, "C29": special.c29}
BEFORE = {"C01": special.long_c01, "C02": special.before_c02, "C03": special.long_c03, "C10": special.long_c10, "C05": special.before_keys, "C11": special.before_keys, "C14": special.long_c14, "C15": special.long_c15, "C16": special.long_c16, "C26": special.long_c26, "C28": special.long_c28,
          "C30": special.c30_rejects, "C31": special.loop_models}


def check(pid, tier, seed):
    ctx = Ctx(pid, tier, seed)
    ctx.cov["rule"] = "a case is a set of input files with a configuration; it is counted once per distinct content, if it has at least one line"
    try:
        if pid in SPECIAL:
            SPECIAL[pid](ctx, 780)
        elif pid not in BEFORE or BEFORE[pid](ctx):
            run_profile(ctx, 780)
        return ctx.finish()
    except env.BuildError as e:
        log("flatjsonl does not build:\n%s" % e)
        return 2
    except (tlc.TLCError, driver.CheckError) as e:
        log("check error: %s" % e)
        return 1 if ctx.violations and ctx.finish() else 2


def setup():
    """Parses the specification and builds the programs once."""
    for fn in sorted(os.listdir(env.SPEC)):
        if fn.endswith(".tla"):
            p = subprocess.run(["tla-sany", fn], cwd=env.SPEC, capture_output=True)
            if p.returncode != 0 or b"*** Errors" in p.stdout:
                log(p.stdout.decode("utf-8", "replace")[-2000:])
                return 2
    ctx = Ctx("setup", "quick", 1)
    for kind in ("", "yield", "lib", "csvequals"):
        ctx.prog(kind)
    return 0


def main():
    pid = sys.argv[1]
    if pid == "setup":
        sys.exit(setup())
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        rc = check(pid, "thorough" if tier == "thorough" else "quick", seed)
    except Exception:  # noqa
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
