#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE] [--only SECTION]

Compiles /verif/harness/ID.cpp against /repo's current working tree (include/delfem2) and runs it.
Exit 0: property held on everything explored. 1: VIOLATION line printed. Other: error of the check."""
import hashlib, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")


def directives(src):
    d = {}
    for l in open(src):
        m = re.match(r"//\s*@(\w+):\s*(.*)$", l)
        if m:
            d[m.group(1)] = m.group(2).split()
    return d


def main():
    args = sys.argv[1:]
    pid, rest = args[0], args[1:]
    if os.environ.get("VERIF_TIER") == "thorough" and "--thorough" not in rest and "--replay" not in rest:
        rest.append("--thorough")
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, "harness", pid + ".cpp")
    d = directives(src)
    if "runner" in d:  # a harness with a driver of its own
        return subprocess.call(["python3", os.path.join(ROOT, d["runner"][0]), pid, *rest])
    cxx = d.get("cxx", ["g++"])
    flags = d.get("flags", ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
                            "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-include", "cstdint"])
    flags = flags + d.get("add", [])
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "lib")]
    inc += [i.replace("$REPO", REPO) for i in d.get("inc", [])]
    libs = d.get("libs", []) + ["-lpthread"]
    # key: preprocessed source, so that any change of what is compiled is seen
    pre = subprocess.run(cxx + flags + inc + ["-E", "-P", src], capture_output=True)
    if pre.returncode:
        sys.stderr.write(pre.stderr.decode(errors="replace")[:6000])
        print("ERROR: harness does not preprocess against the current tree")
        return 2
    tus = []  # further translation units, with flags of their own
    for t in d.get("tu", []):
        tp = os.path.join(ROOT, t)
        tf = directives(tp).get("flags", flags)
        r = subprocess.run(cxx + tf + inc + ["-E", "-P", tp], capture_output=True)
        if r.returncode:
            sys.stderr.write(r.stderr.decode(errors="replace")[:6000])
            print("ERROR: " + t + " does not preprocess against the current tree")
            return 2
        pre.stdout += r.stdout + " ".join(tf).encode()
        tus.append((tp, tf))
    key = hashlib.sha256(pre.stdout + " ".join(cxx + flags + inc + libs).encode()).hexdigest()[:16]
    # __LINE__ and assert texts do not matter for behaviour; the key covers them anyway
    exe = os.path.join(BUILD, pid + "." + key)
    if not os.path.exists(exe):
        for f in os.listdir(BUILD):
            if f.startswith(pid + "."):
                os.unlink(os.path.join(BUILD, f))
        objs, r = [], None
        for k, (tp, tf) in enumerate(tus):
            o = f"{exe}.{k}.o"
            r = subprocess.run(cxx + tf + inc + ["-c", tp, "-o", o], capture_output=True)
            objs.append(o)
            if r.returncode:
                break
        if r is None or r.returncode == 0:
            r = subprocess.run(cxx + flags + inc + [src] + objs + ["-o", exe + ".tmp"] + libs, capture_output=True)
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if r.returncode:
            sys.stderr.write(r.stderr.decode(errors="replace")[-6000:])
            print("ERROR: harness does not compile against the current tree")
            return 2
        os.rename(exe + ".tmp", exe)
    env = dict(os.environ, VERIF_ROOT=ROOT)
    sys.stdout.flush()
    return subprocess.call([exe, *rest], env=env)


sys.exit(main())
