#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a description: the patch (made by textual substitution on a
scratch copy of /repo's file), demo.sh, demo.cpp and meta.json."""
import json, os, subprocess, sys, tempfile, shutil
SEED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# run with cwd /repo; exit 0 on the unchanged tree
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/cfg/ftk"
python3 - "$PWD/include/ftk/config.hh.in" "$W/cfg/ftk/config.hh" <<'PY' || exit 3
import re, sys
have = set("%(have)s".split())
s = open(sys.argv[1]).read()
s = re.sub(r"#cmakedefine\s+(\w+)\s+1", lambda m: "#define %%s 1" %% m.group(1) if m.group(1) in have else "", s)
s = s.replace("${FTK_VERSION}", "0.0.9").replace("${FTK_FP_PRECISION}", "32768").replace("${FTK_CP_MAX_NUM_VARS}", "3")
open(sys.argv[2], "w").write(s)
PY
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_btl_vader_single_copy_mechanism=none
mpicxx -O1 -std=gnu++17 -w -DDIY_NO_THREADS -I"$W/cfg" -Iinclude %(inc)s "$D/demo.cpp" -o "$W/demo" %(libs)s -lgmpxx -lgmp -ltbb -lpthread || exit 4
cd "$W" && %(run)s
'''
def seed(sid, prop, subs, needs, breaks, cpp, have="FTK_HAVE_GMP FTK_HAVE_MPI FTK_HAVE_TBB", run="timeout 120 ./demo", inc="", libs=""):
    d = os.path.join(SEED, sid); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    out = ""
    for f, pairs in subs.items():
        src = open("/repo/" + f).read(); new = src
        for a, b in pairs:
            if new.count(a) != 1: sys.exit("%s: %d matches in %s of %r" % (sid, new.count(a), f, a))
            new = new.replace(a, b)
        for n, x in (("a", src), ("b", new)):
            p = os.path.join(t, n, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(x)
    r = subprocess.run(["diff", "-ru", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True)
    import re
    open(os.path.join(d, "patch.diff"), "w").write(re.sub(r"(?m)^diff -ru .*\n", "", re.sub(r"(?m)^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", r.stdout)))
    shutil.rmtree(t)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(have=have, run=run, inc=inc, libs=libs)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(cpp)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", sid)
