#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough] [--replay FILE] [extra runner options]

Builds the property's harness from /repo's working tree, runs it, writes
evidence/<property>.json. Exit 0: held on everything explored; 1: violation
(with a VIOLATION line); 2: the check itself could not run.
"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vbuild, props

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    i = 2
    while i < len(sys.argv):
        x = sys.argv[i]
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--replay":
            i += 1
            extra.append("--replay=" + sys.argv[i])
        else:
            extra.append(x)
        i += 1
    spec = props.PROPS[prop]
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed) % (1 << 62))
    except ValueError:
        seed = "1"
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C", VT_ASSUMPTIONS=spec.get("assumptions", props.ASSUME))
    rc = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bins = vbuild.build([spec["bin"]] + spec.get("programs", []), spec.get("flavour", "std"))
    if bins is None:
        print("cannot build the harness from /repo's working tree", file=sys.stderr)
        return 2
    env["VT_BIN"] = bins
    cmd = [os.path.join(bins, spec["bin"]), "--prop=" + prop, "--tier=" + tier, "--seed=" + seed,
           "--evidence=" + os.path.join(HERE, "evidence", prop + ".json"),
           "--known=" + os.path.join(HERE, "known_findings.txt"),
           "--replays=" + os.path.join(HERE, "replays")] + extra
    if any(e.startswith("--replay=") or e.startswith("--only=") for e in extra):
        cmd = [c for c in cmd if not c.startswith("--evidence=")]
    sys.stdout.flush()
    rc = subprocess.run(cmd, env=env, cwd=HERE).returncode
    return rc if rc in (0, 1) else 2

if __name__ == "__main__":
    sys.exit(main())
