#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo as it is now
check.py setup                        builds everything
check.py replay PROPERTY FILE         executes a replay file and judges it"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import api, cli, common, js, proof, system, traces


CLI = ("C21", "C22")


def replay(prop, path):
    if prop in CLI:
        common.build(("cli",))
        return cli.replay(prop, path)
    if prop == "C23":
        return js.replay(path)
    common.build(("harness", "sbf") if prop == "C25" else ("harness",))
    log = path + ".log"
    traces.execute(path, log, traces.SBF_ENV if prop == "C25" else {})
    viol, n, _ = traces.judge(prop, log, path + ".tlc")
    for line, p, msg in viol:
        print(f"line {line}: {p} {msg}")
    print(open(log).read().split("\n")[-2][:3000])
    return 1 if viol else 0


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        common.build(("harness", "cli", "sbf"))
        return 0
    if a[0] == "replay":
        return replay(a[1], os.path.abspath(a[2]))
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    run = common.Run(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    if prop in CLI:
        common.build(("cli",))
        cli.cli(run)
        return run.finish()
    if prop == "C23":
        js.js(run)
        return run.finish()
    common.build(("harness", "sbf") if prop == "C25" else ("harness",))
    if prop in ("C01", "C06"):
        proof.backing(run)
    if prop in system.PLAN:
        system.system(run)
    if prop in traces.PLAN:
        traces.traces(run)
    api.api(run)
    return run.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except common.ToolError as e:
        print("ERROR:", e)
        rc = 2
    sys.exit(rc)
