"""Backing.tla, for amounts and histories of any size: Apalache shows that Ind is inductive and implies Safe, and
finds the counterexample when a rule is taken away."""
import os, re, shutil, subprocess
from .common import *

GOALS = [("Init", "Ind", 0, "Sound", 0), ("Ind", "Ind", 1, "Sound", 0), ("Ind", "Safe", 0, "Sound", 0),
         ("Ind", "Ind", 1, "Gross", 12), ("Ind", "Ind", 1, "Itself", 12), ("Ind", "Ind", 1, "Loose", 12)]


def goal(run, k):
    init, inv, length, flaw, want = GOALS[k]
    d = os.path.join(run.dir, f"proof{k}")
    os.makedirs(d)
    shutil.copy(os.path.join(SPEC, "Backing.tla"), d)
    env = {**os.environ, "JVM_ARGS": "-Xmx2g", "HOME": d}
    with open(os.path.join(d, "out"), "wb") as f:
        try:
            rc = subprocess.run(["apalache-mc", "check", f"--init={init}", f"--inv={inv}", f"--length={length}", f"--cinit={flaw}",
                                 f"--out-dir={d}/apalache", "Backing.tla"], stdout=f, stderr=subprocess.STDOUT, cwd=d, env=env, timeout=600).returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"Apalache on {GOALS[k]} took more than 600 s")
    if rc != want:
        raise ToolError(f"Apalache on {GOALS[k]} ended with {rc}, see {d}/out")


def backing(run):
    parallel([(goal, run, k) for k in range(len(GOALS))], 3)
    run.add(inductive_invariants_proved=3, flaws_found_in_variants=3)
