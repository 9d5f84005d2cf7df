"""Builds /repo's sources and the harnesses with ninja, per sanitizer flavour."""
import glob, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

UB = ("-fsanitize=undefined -fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,vptr,function "
      "-fno-sanitize-recover=all")
FLAVOURS = {
    "asan": "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address " + UB,
    "tsan": "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -gline-tables-only -fno-omit-frame-pointer",
}
COMMON = "-std=c++17 -DNDEBUG -D_GLIBCXX_ASSERTIONS -DHAVE_OPENSSL=1 -w -pthread"


def sources():
    s = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    return [x for x in s if not x.endswith(("_macos.cpp", "_win.cpp"))]


def incdirs():
    dirs = [REPO + "/include", REPO + "/src", REPO + "/src/stun", REPO + "/src/sctp"]
    for d in sorted({os.path.dirname(p) for p in glob.glob(REPO + "/src/**/*.h", recursive=True)}):
        if d not in dirs:
            dirs.append(d)
    return dirs


def build(flavour, name, harness_sources, extra_cflags="", ldlibs="", ldflags="", extra_repo_sources=(), extra_inc=()):
    """Returns (exe path or None, log)."""
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = " ".join("-I" + d for d in incdirs() + [VERIF + "/harness", VERIF + "/sim"])
    L = ["ninja_required_version = 1.5",
         "cflags = %s %s %s" % (COMMON, FLAVOURS[flavour], inc),
         "rule cc", "  command = clang++ $cflags $xflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule cplain", "  command = clang -O1 -g -w -fno-omit-frame-pointer %s $xflags -MMD -MF $out.d -c $in -o $out" %
         {"tsan": "-fsanitize=thread", "asan": "-fsanitize=address"}.get(flavour, ""), "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && llvm-ar-18 rcs $out $in || ar rcs $out $in",
         "rule ld", "  command = clang++ $lflags $in -o $out $libs"]
    objs = []
    for s in sources():
        o = "obj/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        L.append("build %s: cc %s" % (o, s))
        objs.append(o)
    L.append("build libsrtc.a: ar %s" % " ".join(objs))
    hobjs = []
    extra = []
    for s in extra_repo_sources:
        extra += sorted(glob.glob(s))
    xflags = " ".join([extra_cflags] + ["-I" + d for d in extra_inc]).strip()
    for s in list(harness_sources) + extra:
        s = s if s.startswith("/") else os.path.join(VERIF, s)
        o = "h_%s/%s.o" % (name, os.path.basename(s))
        L.append("build %s: %s %s" % (o, "cplain" if s.endswith(".c") else "cc", s))
        if xflags:
            L.append("  xflags = " + xflags)
        hobjs.append(o)
    L.append("build %s: ld %s libsrtc.a" % (name, " ".join(hobjs)))
    L.append("  lflags = %s -pthread %s" % (FLAVOURS[flavour], ldflags))
    L.append("  libs = %s -lssl -lcrypto" % ldlibs)
    nf = os.path.join(out, name + ".ninja")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", out, "-f", name + ".ninja", "-j", str(os.cpu_count() or 8), name],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    lock.close()
    return (os.path.join(out, name) if r.returncode == 0 else None), r.stdout
