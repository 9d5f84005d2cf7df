#!/usr/bin/env python3
"""Planted bugs.  seed.py validate <id>...   builds + tests + demo without and with the patch, in a scratch copy of /repo
                 seed.py run <id> [prop..]  runs the property's quick check against the patched scratch copy
                 seed.py all [id..]         both, prints a table"""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get("SEED_SCRATCH", "/tmp/sw")
R = SW + "/repo"

def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def prepare():
    os.makedirs(SW, exist_ok=True)
    if not os.path.exists(R + "/.git"):
        sh("git clone -q /repo %s" % R)
    sh("git fetch -q origin && git reset -q --hard origin/HEAD && git checkout -q --detach $(git -C /repo rev-parse HEAD) && git clean -qfdx -e _build", cwd=R)
    if not os.path.exists(R + "/_build/build.ninja"):
        rc, o = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ "
           "-DSRTC_BUILD_TESTS=ON -DSRTC_BUILD_TOOLS=ON -DCMAKE_PROJECT_srtc_INCLUDE=/opt/vp/cmake/offline.cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON "
           "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest", cwd=R)
        assert rc == 0, o

def build():
    return sh("cmake --build _build -j8 --target srtc srtc_publish srtc_subscribe srtc_test", cwd=R)

def demo(i):
    d = SW + "/demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(VERIF + "/seeded/" + i, d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(d + "/" + f)
    return sh("bash %s/demo.sh" % d, cwd=R, timeout=300)

def apply(i):
    rc, o = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, i), cwd=R); assert rc == 0, o
def undo():
    sh("git checkout -q -- .", cwd=R)

def validate(i):
    undo(); rc, o = build(); assert rc == 0, o
    rc0, o0 = demo(i)
    apply(i)
    rcb, ob = build()
    if rcb != 0: undo(); return "DOES NOT BUILD\n" + ob[-1500:]
    rct, ot = sh("ctest --test-dir _build -j8 --timeout 300", cwd=R)
    rc1, o1 = demo(i)
    undo()
    if rc0 == 0 and rct == 0 and rc1 != 0: return "ok"
    return "BAD base demo rc=%s\n%s\n tests rc=%s\n%s\n patched demo rc=%s\n%s" % (rc0, o0[-800:], rct, ot[-600:] if rct else "", rc1, o1[-800:])

def run(i, props):
    undo(); apply(i)
    res = {}
    for p in props:
        t = time.time()
        rc, o = sh("python3 %s/tools/run_check.py %s quick" % (VERIF, p), env={"VERIF_REPO": R, "VERIF_BUILD": SW + "/vbuild", "VERIF_NOEVIDENCE": "1", "VERIF_SEED": "1"}, timeout=1000)
        keys = [l for l in o.splitlines() if l.startswith(("violated:", "CHECK-ERROR", "VIOLATION"))]
        res[p] = (rc, "; ".join(keys[:4])[:400], round(time.time() - t))
    undo()
    return res

if __name__ == "__main__":
    prepare()
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "validate":
        for i in ids: print(i, validate(i), flush=True)
    elif cmd == "run":
        i = ids[0]; props = ids[1:] or [json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))["property"]]
        for p, r in run(i, props).items(): print(i, p, r, flush=True)
    elif cmd == "all":
        for i in ids or sorted(os.listdir(VERIF + "/seeded")):
            v = validate(i)
            r = run(i, [json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))["property"]])
            print(i, v, r, flush=True)
