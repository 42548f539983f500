"""Plant a bug: plant(id, prop, [(file, old, new)], demo, needs, breaks, gaunt=False). Verifies it in /repo and undoes it."""
import os, subprocess, sys, json, shutil, textwrap
V = "/verif"; R = "/repo"
SH = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'find "$T" -delete' EXIT
export OMP_NUM_THREADS=2
I="-I$D -I$R/_build/libhelfem/include -I$R/libhelfem/include -I$R/libhelfem/src -I$R/libhelfemqc/include -I$R/libhelfemqc/src -I$R/src -I$R/src/general -I/usr/include/eigen3 -I/usr/include/hdf5/serial"
SRC=(%s)
g++-14 -std=gnu++23 -O1 -w -fopenmp $I "$D/demo.cpp" "${SRC[@]}" -o "$T/demo" -Wl,--start-group "$R/_build/src/libhelfem-common.a" "$R/_build/libhelfemqc/libhelfemqc.a" "$R/_build/libhelfem/libhelfem.a" -Wl,--end-group -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lxc -llapack -lblas -lquadmath -lm || exit 2
cd "$T" && ./demo
'''
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(id, prop, edits, demo, needs, breaks, src=(), files=(), check=True):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    assert not run("git -C /repo status --porcelain").stdout.strip(), "dirty repo"
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); t = open(p).read(); assert t.count(old) == 1, (id, f, t.count(old)); open(p, "w").write(t.replace(old, new))
        diff = run("git -C /repo diff").stdout; open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo); s = " ".join('"$R/%s"' % x if x.startswith(("src/", "lib")) else '"$D/%s"' % x for x in src)
        open(d + "/demo.sh", "w").write(SH % s); os.chmod(d + "/demo.sh", 0o755)
        if any("gaunt.cpp" in x for x in src): shutil.copy(V + "/shim/wignernj.hpp", d); shutil.copy(V + "/shim/wignernj_quadmath.h", d)
        for f in files: shutil.copy(f, d)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = run("bash /opt/vp/build.sh"); tt = run("bash /opt/vp/test.sh /tmp/o.json").stdout.strip().split("\n")[-1]
        m = run("bash %s/demo.sh" % d, cwd=R)
        c = run("python3 check.py %s quick" % prop, cwd=V) if check else None
    finally:
        run("git -C /repo checkout -- ."); 
    run("bash /opt/vp/build.sh"); m0 = run("bash %s/demo.sh" % d, cwd=R)
    good = b.returncode == 0 and tt.startswith("37 passed, 0") and m.returncode not in (0, 2) and m0.returncode == 0
    caught = c and c.returncode == 1 and "VIOLATION property=" + prop in c.stdout
    print("%s %s: build %d tests [%s] demo bug=%d clean=%d -> %s; check %s" % (id, prop, b.returncode, tt, m.returncode, m0.returncode, "VALID" if good else "INVALID", "CAUGHT" if caught else "missed (rc %s)" % (c.returncode if c else None)))
    if not good: print("   ", (m.stdout + m.stderr)[-600:], "| clean:", (m0.stdout + m0.stderr)[-600:])
    if c: print("   ", "\n    ".join(x[:300] for x in c.stdout.split("\n") if "FAILED" in x))
