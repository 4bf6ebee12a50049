#!/usr/bin/env python3
"""mkseed.py SPEC.py : makes seeded/<id>/ from a spec with variables id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ body of main, returns nonzero when broken), inc (includes)."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork/repo"
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
        subprocess.call(["git", "-C", W, "pull", "-q"])
        for f, old, new in s["edits"]:
            p = os.path.join(W, "include/delfem2", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        inc = "".join(f'#include "delfem2/{x}"\n' for x in s["inc"].split())
        open(os.path.join(d, "demo.cpp"), "w").write("#include <cstdio>\n#include <cassert>\n#include <iostream>\n#include <cmath>\n#include <set>\n#include <vector>\n#include <string>\n#include <algorithm>\n" + inc +
            "namespace dfm2 = delfem2;\n#define EXPECT(c) do { if (!(c)) { printf(\"FAILED: %s (line %d)\\n\", #c, __LINE__); return 1; } } while (0)\n" + s.get("pre", "") + "int main() {\n" + s["demo"] + "\n  printf(\"ok\\n\");\n  return 0;\n}\n")
        open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -include cstdint -Iinclude "$D/demo.cpp" -o "$T/demo" -lpthread || exit 2
cd "$T" && timeout 120 ./demo
""")
        print("made", s["id"])
