"""What each check runs: models, generated behaviours replayed into the code, recorded runs checked against the spec."""
import os

from vlib import PROGRAM, SEED, THOROUGH, ToolError


def scale(q, t):
    return t if THOROUGH else q


# --- C01..C05: the run loop ---------------------------------------------------
def driver(c):
    c.need("drv", *(["st"] if c.pid == "C03" else ["wr"] if c.pid in ("C01", "C05") else []))

    def model():
        c.model("DriverMC", "DriverMCBig" if THOROUGH else "DriverMC", min_states=100000, workers=4)

    def replay(cfg, num):
        def f():
            path, n = c.gen("DriverMC", cfg, num)
            c.trace("DriverTrace", c.harness("driver-replay", path))
        return f

    def real(seed, num):
        return lambda: c.trace("DriverTrace", c.harness("driver-real", num, seed=seed))

    c.parallel(model, replay("DriverGen", scale(600, 6000)), replay("DriverGenLong", scale(400, 4000)),
               *([lambda: c.trace("FVTrace", c.harness("fv-st", scale(400, 3000)), start=None),
                  lambda: c.trace("HpTrace", c.harness("fv-cfl", scale(600, 5000)), start=None, workers=2)] if c.pid == "C03" else []),
               *([lambda: c.trace("WriterTrace", c.harness("wr-runs", scale(70, 400), seed=SEED * 1000 + 7, threads=4), start=None, workers=3)]
                 if c.pid in ("C01", "C05") else []),
               *[real(SEED * 1000 + i, scale(60, 400)) for i in range(scale(3, 6))])
    return c.finish(
        "cases are (a) behaviours generated by TLC from the Driver model (output counts, spans, widths, limits, faults) and replayed "
        "into the real run loop with a scripted environment, (b) seeded real simulations and, for C01 and C05, (c) runs with one to 17 streams of "
        "every kind whose snapshots are counted stream by stream; a case is one complete run, all are "
        "non-trivial in that at least the initial snapshot and one step or failure are observed",
        ["the scripted physics replaces only the crate's public extension points (Physics, NumFlux, TimeSolver)"])


CHECKS = {p: (driver, "model_checking") for p in ("C01", "C02", "C03", "C04", "C05")}


# --- C08, C11..C14, C24: one evaluation of the rates ---------------------------
LIMS = ["none", "MinMod", "VanLeer", "Monocent", "Superbee", "NoLimiter"]


def fv_models(c):
    return [lambda l=l: c.model("FVMC", env={"CELLS": scale("7", "8"), "LIMITER": l}, min_states=scale(1000, 8000), workers=2)
            for l in LIMS]


START = {"fv-eval": "fv", "fv-lim": "lim", "fv-bc": "bc", "fv-fine": "hp", "fv-st": None, "fv-pair": "pair", "run-uni": "uni", "run-mir": "mir",
         "run-tot": "tot"}


def fv(parts):
    """parts: harness command -> (quick, thorough) number of cases per batch"""
    def run(c):
        c.need(*sorted({PROGRAM[x] for x in parts}))

        def batch(cmd, n, seed):
            return lambda: c.trace("HpTrace" if cmd == "fv-fine" else "FVTrace", c.harness(cmd, n, seed=seed), start=START[cmd], workers=3)

        jobs = fv_models(c)
        if "fv-fine" in parts:
            jobs.append(lambda: c.model("BigMC", min_states=1000, workers=1))
        for cmd, (q, t, batches) in parts.items():
            jobs += [batch(cmd, scale(q, t), SEED * 1000 + 17 * i) for i in range(scale(batches, 3 * batches))]
        c.parallel(*jobs)
        return c.finish(
            "a case is one evaluation of the real right-hand side (boundary conditions, variables, reconstruction, fluxes, rates) on a "
            "seeded state over both physics, both flux schemes, every limiter, mixed boundary conditions, several mesh sizes and "
            "power-of-two scales; one reconstruction of magnified data; one application of one boundary condition object; a state or an "
            "evaluation taken from a real run; a pair of evaluations differing in a few cells; the surroundings of one cell to 48 fractional "
            "bits; or a run of a uniform, mirrored or compact problem",
            ["deviations below 2^-36 of the terms involved are not seen (5e-4 on domains that are far from the origin compared with their width)"]
            if "fv-fine" in parts else
            ["values are projected to fixed point with 15 fractional bits; deviations below about 5e-4 of the largest flux term are not seen here"])
    return run


CHECKS["C08"] = (fv({"fv-eval": (800, 6000, 1), "fv-pair": (4000, 20000, 2), "run-tot": (500, 4000, 2)}), "model_checking")
CHECKS["C09"] = (fv({"run-uni": (1500, 10000, 3)}), "model_checking")
CHECKS["C10"] = (fv({"run-mir": (2500, 15000, 3)}), "model_checking")
CHECKS["C11"] = (fv({"fv-eval": (1500, 8000, 2), "fv-st": (300, 2000, 1), "fv-fine": (1500, 12000, 1)}), "model_checking")
CHECKS["C12"] = (fv({"fv-eval": (1200, 6000, 2), "fv-lim": (2000, 10000, 2), "fv-fine": (1500, 12000, 1)}), "model_checking")
CHECKS["C13"] = (fv({"fv-eval": (1200, 6000, 2), "fv-bc": (3000, 15000, 2), "fv-fine": (1500, 12000, 1)}), "model_checking")
CHECKS["C14"] = (fv({"fv-eval": (800, 6000, 1), "fv-st": (600, 3000, 2), "fv-fine": (1500, 12000, 1)}), "model_checking")
CHECKS["C24"] = (fv({"fv-pair": (6000, 30000, 3), "fv-eval": (500, 5000, 1)}), "model_checking")


# --- C06, C07: time schemes and step control ------------------------------------
def rk(parts, control):
    def run(c):
        c.need("rk")

        def batch(cmd, n, seed):
            return lambda: c.trace("RKTrace", c.harness(cmd, n, seed=seed), start=None, workers=3)

        def replay(n, seed):
            def f():
                path, _ = c.gen("StepControlMC", "StepControlGen", n, depth=100, seed=seed)
                c.trace("RKTrace", c.harness("rk-control", path, seed=seed), start=None, workers=3)
            return f

        jobs = [lambda: c.model("RKMC", min_states=600, workers=2), lambda: c.model("StepControlMC", min_states=40000, workers=2)]
        for cmd, (q, t, batches) in parts.items():
            jobs += [batch(cmd, scale(q, t), SEED * 1000 + 17 * i) for i in range(scale(batches, 3 * batches))]
        jobs += [replay(scale(control[0], control[1]), SEED * 100 + i) for i in range(scale(control[2], 3 * control[2]))]
        c.parallel(*jobs)
        return c.finish(
            "a case is one recorded line: coefficients of a scheme recovered one by one through scripted rates; one step of the real "
            "time integration with all its trials and stages (scripted rates, error sequences generated by TLC from the StepControl "
            "model, or real physics), or a comparison of an adaptive step with the same step taken directly",
            ["errors within 3 % of one may be decided either way",
             "the width of a trial is inferred from the displacement of its second stage"])
    return run


CHECKS["C06"] = (rk({"rk-tab": (180, 900, 1), "rk-stages": (1200, 8000, 2), "rk-real": (700, 5000, 2)}, (300, 2000, 1)), "model_checking")
CHECKS["C07"] = (rk({"rk-real": (1000, 6000, 2)}, (1500, 8000, 2)), "model_checking")


# --- C15: steps that end in unphysical states -------------------------------------
def validation(c):
    c.need("val", "st")

    def replay(keep, seed):
        def f():
            path, _ = c.genset("ValidationMC", "ValidationGen", seed=seed, keep=keep)
            c.trace("ValTrace", c.harness("val-replay", path, seed=seed), start=None, workers=3)
        return f

    def real(n, seed):
        return lambda: c.trace("ValTrace", c.harness("val-real", n, seed=seed), start=None, workers=3)

    jobs = [lambda: c.model("ValidationMC", min_states=150, workers=2)]
    jobs += [replay(scale(2500, 5200), SEED * 100 + i) for i in range(scale(2, 8))]
    jobs += [real(scale(1500, 8000), SEED * 1000 + i) for i in range(scale(2, 6))]
    jobs += [lambda: c.trace("FVTrace", c.harness("fv-st", scale(300, 3000)), start=None)]
    c.parallel(*jobs)
    need = ("val-yes-ok", "val-no-err", "vst-ok", "vst-err-validation")
    if not c.rejects and min(c.classes.get(k, 0) for k in need) < 50:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    return c.finish(
        "a case is one step of the real code: with rates scripted so that the state it ends in is known exactly (drawn by TLC: every "
        "kind of violation, cell, variable, boundary condition, scheme, and admissible controls), or with real fluxes on receding, "
        "near-vacuum and too wide steps; the specification decides from the states which verdicts are allowed",
        ["where rounding decides the sign of a value that would be exactly zero, either verdict is allowed"])


CHECKS["C15"] = (validation, "model_checking")


# --- C16, C17, C18, C20: output streams ----------------------------------------------
def writer(c):
    c.need("wr")

    def replay(keep, seed, threads):
        def f():
            path, _ = c.genset("WriterMC", "WriterGen", seed=seed, keep=keep)
            c.trace("WriterTrace", c.harness("wr-replay", path, seed=seed, threads=threads), start=None, workers=3)
        return f

    def batch(cmd, n, seed, threads):
        return lambda: c.trace("WriterTrace", c.harness(cmd, n, seed=seed, threads=threads), start=None, workers=3)

    jobs = [lambda: c.model("WriterMC", env={"DEEP": scale("0", "1")}, min_states=20000, workers=4),
            lambda: c.refuted("WriterMC", "WriterMCRace", env={"DEEP": "0"}, workers=2),
            lambda: c.refuted("WriterMC", "WriterMCLost", env={"DEEP": "0"}, workers=2)]
    th = (8, 2, 1, 4)
    jobs += [replay(scale(200, 1000), SEED * 100 + i, th[i % 4]) for i in range(scale(2, 6))]
    jobs += [batch("wr-rand", scale(70, 400), SEED * 1000 + i, th[i % 4]) for i in range(scale(2, 6))]
    jobs += [batch("wr-ind", scale(150, 1000), SEED * 1000 + i, th[i % 4]) for i in range(scale(2, 4))]
    c.parallel(*jobs)
    if not c.rejects and min(c.classes.get(k, 0) for k in ("clearing-mixed", "keeping-mixed", "terminal", "clearing-mixed-failing", "obstructed")) < 5:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    return c.finish(
        "a case is one run of the real code with one to four streams of any kind in nested or separate, missing, empty, full or blocked "
        "folders (every pair of stream kinds, folders and clearing flags is drawn from the Writer model), its files, folder tree before "
        "and after, and terminal lines recomputed token by token by TLC; or one simulation under several selections and orders of streams",
        ["the values written are read from the simulation's own fields at the moment of writing",
         "where a number lies exactly between two decimals either is allowed",
         "streams have distinct files and non-empty column lists; an output folder that is itself a symbolic link is not covered"])


for p in ("C16", "C17", "C18", "C20"):
    CHECKS[p] = (writer, "model_checking")


# --- C19, C25: setting up a simulation -------------------------------------------------
def setup(c):
    c.need("cfg", *(["st"] if c.pid == "C25" else []))

    def replay(pairs, keep, seed):
        def f():
            path, _ = c.genset("SetupMC", "SetupGen", env={"PAIRS": pairs}, seed=seed, keep=keep)
            c.trace("SetupTrace", c.harness("cfg-replay", path, seed=seed), start=None, workers=3)
        return f

    jobs = [lambda: c.model("SetupMC", env={"PAIRS": scale("0", "1")}, min_states=2000, workers=2)]
    jobs += [replay("0", None, SEED * 100 + i) for i in range(scale(2, 4))]
    jobs += [replay("1", scale(3000, 20000), SEED * 100 + 50 + i) for i in range(scale(1, 4))]
    if c.pid == "C25":
        jobs += [lambda i=i: c.trace("SetupTrace", c.harness("ic", 0, seed=SEED * 1000 + i), start=None, workers=3) for i in range(scale(2, 6))]
        jobs += [lambda i=i: c.trace("FVTrace", c.harness("fv-st", scale(500, 3000), seed=SEED * 1000 + i), start=None, workers=3) for i in range(scale(2, 4))]
    c.parallel(*jobs)
    if not c.rejects and min(c.classes.get(k, 0) for k in ("cfg-bad", "cfg-good", "cfg-fails")) < 50:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    return c.finish(
        "a case is one attempt of the real code to set up a simulation, from a configuration drawn by TLC that deviates from a good one in "
        "one or two settings (at, one float beside and beyond each limit, NaN, infinities, every stream shape), in a folder with old "
        "content; one ready-made initial condition on one of 34 mesh sizes; or the state and first evaluation after a set-up",
        ["infinite settings and domains only a few floats wide may be refused or accepted"])


for p in ("C19", "C25"):
    CHECKS[p] = (setup, "model_checking")


# --- C28: the ready-made configurations ------------------------------------------------
def presets(c):
    c.need("cfg")
    jobs = [lambda: c.model("PresetsMC", min_states=20000, workers=2)]
    jobs += [lambda i=i: c.trace("PresetsTrace", c.harness("ready", scale(400, 3000), seed=SEED * 1000 + i), start=None, workers=3)
             for i in range(scale(2, 8))]
    c.parallel(*jobs)
    if not c.rejects and min(c.classes.get(k, 0) for k in ("whole-ok", "whole-err", "stdout-names", "file-names", "file", "numerics")) < 100:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    if not c.rejects and c.classes.get("run-ok", 0) < 10:
        raise ToolError("too few runs: %s" % c.classes)
    return c.finish(
        "a case is one ready-made configuration (or part of one) as the real code makes it for seeded arguments, compared field by field with "
        "the documented one; one attempt to set up a simulation with it; or one whole run of it from a ready-made initial condition",
        ["a mesh of six cells has a face at coordinate zero (see C19)", "a run of a ready-made configuration may fail; then C05 and C15 apply"])


CHECKS["C28"] = (presets, "model_checking")


# --- C22, C23: meshes and unit conversions ------------------------------------------------
def mesh(c):
    c.need("geo")
    jobs = [lambda: c.model("MeshMC", min_states=20000, workers=2)]
    jobs += [lambda i=i: c.trace("MeshTrace", c.harness("mesh", scale(4000, 30000), seed=SEED * 1000 + i), start=None, workers=3)
             for i in range(scale(3, 8))]
    c.parallel(*jobs)
    if not c.rejects and min(c.classes.get(k, 0) for k in ("exact-ok", "rounded-ok")) < 500:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    return c.finish(
        "a case is one mesh built by the real code, of one of 32 sizes, on a domain whose faces are exactly representable at scales from "
        "2^-450 to 2^450 (every face, centre and width compared exactly) or on any domain (residuals against exact arithmetic)",
        ["rounding of a few EPSILON times the larger edge is allowed where the positions are not representable",
         "domains that put a face or centre at coordinate zero may be refused (see C19)"])


def units(c):
    c.need("geo")

    def replay(cfg, repeat, seed):
        def f():
            path, _ = c.genset("UnitsMC", cfg, seed=seed)
            c.trace("UnitsTrace", c.harness("units", path, repeat, seed=seed), start=None, workers=3)
        return f

    jobs = [lambda: c.model("UnitsMC", min_states=3000, workers=2)]
    jobs += [replay("UnitsGen", scale(20, 200), SEED * 100 + i) for i in range(scale(1, 4))]
    jobs += [replay("UnitsAny", scale(5, 40), SEED * 100 + 50 + i) for i in range(scale(2, 4))]
    c.parallel(*jobs)
    if not c.rejects and min(c.classes.get(k, 0) for k in ("back-fin", "identity-fin", "scaled-fin")) < 200:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    return c.finish(
        "a case is one chain of conversions drawn by TLC (every sequence of five conversions of one quantity through the two systems, "
        "every sequence of three conversions of any kind) applied by the real code to one seeded value (zero, subnormal to largest, "
        "infinities, NaN, both signs), each step repeated with other objects and other conversions in between",
        ["a factor other than one may be rounded up to two floats differently"])


CHECKS["C22"] = (mesh, "model_checking")
CHECKS["C23"] = (units, "model_checking")


# --- C21: the same again ---------------------------------------------------------------------
def repro(c):
    c.parallel(lambda: c.need("rep"), lambda: c.need("rep", validation=False))
    n = scale(110, 500)
    runs = [("alone", True, 2), ("again", True, 1), ("again", True, 8), ("pool", True, 4), ("par", True, 4), ("par", True, 2),
            ("alone", False, 4), ("again", False, 1), ("par", False, 3), ("pool", False, 2)]

    def batch(seed):
        def f():
            parts = [None] * len(runs)

            def one(i):
                part, val, th = runs[i]
                parts[i] = c.harness("rep", n, part, validation=val, threads=th, seed=seed)
            c.parallel(*[lambda i=i: one(i) for i in range(len(runs))])
            path = os.path.join(c.workdir(), "all.ndjson")
            with open(path, "w") as o:
                for p in parts:
                    if p:
                        o.write(open(p).read())
            c.trace("ReproTrace", path, start=None, workers=1)
        return f

    jobs = [lambda: c.model("Repro", "ReproMC", min_states=500000, workers=4),
            lambda: c.refuted("Repro", "ReproShared", workers=2), lambda: c.refuted("Repro", "ReproEager", workers=2)]
    jobs += [batch(SEED * 100 + i) for i in range(scale(1, 4))]
    c.parallel(*jobs)
    if not c.rejects and min(c.classes.get(k, 0) for k in ("again-ok", "again-err", "unchecked-ok", "first")) < 40:
        raise ToolError("too few cases of one kind: %s" % c.classes)
    return c.finish(
        "a case is one run of a seeded simulation of the real code (both physics, both fluxes, every limiter, scheme and boundary "
        "condition, 8 to 1004 cells) or the files it wrote, compared bit by bit, step by step, with the first run of the same "
        "simulation: repeated, shuffled among others, six at a time, in pools of 1 to 8 threads, with other streams, with and without "
        "run-time validation",
        ["runs without validation are compared only with validated runs that succeed"])


CHECKS["C21"] = (repro, "model_checking")


# --- C26, C27: other units, other places ------------------------------------------------------
def sym(cmd, q, t):
    def run(c):
        c.need("sym")
        jobs = [lambda: c.model("Dimensions", min_states=50, workers=1), lambda: c.refuted("Dimensions", "DimensionsFloor", workers=1)]
        if cmd == "sym-shift":
            jobs = []
        jobs += [lambda l=l: c.model("FVMC", "FVSym", env={"CELLS": scale("7", "8"), "LIMITER": l}, min_states=scale(1000, 8000), workers=2) for l in LIMS]
        jobs += [lambda i=i: c.trace("SymTrace", c.harness(cmd, scale(q, t), seed=SEED * 1000 + i), start=None, workers=3)
                 for i in range(scale(3, 9))]
        c.parallel(*jobs)
        k = cmd[4:]
        if not c.rejects and min(c.classes.get(k + x, 0) for x in ("-kt-steps", "-hll-steps", "-kt-asc-steps", "-ok", "-err")) < 20:
            raise ToolError("too few cases of one kind: %s" % c.classes)
        return c.finish(
            "a case is a pair of runs of the real code, recorded step by step: " + (
                "one problem and the same problem with density, velocity and length multiplied by powers of two up to 2^100; TLC compares "
                "the factors found in every quantity with those its dimension demands"
                if cmd == "sym-scale" else
                "a profile of up to 14 cells in uniform surroundings, and the same profile in other cells of another mesh (96 to 270 cells) "
                "at another origin; TLC compares the cells one by one"),
            ["step widths, tolerances and times are part of what is scaled; with step control only density, length and time are scaled"]
            if cmd == "sym-scale" else
            ["domains whose faces are exactly representable; zero-gradient ends; the profile stays away from the ends for the whole run"])
    return run


CHECKS["C26"] = (sym("sym-scale", 1500, 10000), "model_checking")
CHECKS["C27"] = (sym("sym-shift", 600, 4000), "model_checking")
