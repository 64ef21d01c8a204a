#!/usr/bin/env python3
"""Builds picotm (from /repo's current working tree) together with one harness.

Nothing is written into /repo: configuration headers are regenerated from
/repo's *.h.in templates with the macro values in config.json (what configure
finds on this platform), objects go to /verif/build/<variant>.
"""
import glob, json, os, re, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PICOTM_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
MODULES = ["arithmetic", "cast", "libc", "libm", "libpthread", "ptrdata", "tm", "txlib"]
# modules needed by each module
DEPS = {"arithmetic": [], "cast": [], "tm": [], "txlib": [], "ptrdata": [],
        "libc": ["tm", "ptrdata"], "libm": ["libc", "tm", "ptrdata"],
        "libpthread": ["libc", "tm", "ptrdata"]}
VARIANTS = {
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O2", "-g"],
    # a call at every basic block and atomic operation of the code under test (see mt.h)
    "fine": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}
FINE_SUT = ["-fsanitize-coverage=trace-pc", "-include", os.path.join(HARN, "fine.h")]
FINE_WRAP = ["-Wl" + "".join(",--wrap=pthread_" + f for f in
             ("mutex_lock", "rwlock_rdlock", "rwlock_wrlock", "cond_wait", "cond_timedwait", "cond_signal", "cond_broadcast"))]
WARN = ["-w"]


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def gen_config(bdir):
    conf = json.load(open(os.path.join(HARN, "config.json")))
    ins = [os.path.join(REPO, "config/config.h.in"),
           os.path.join(REPO, "include/picotm/config/picotm-config.h.in")]
    ins += sorted(glob.glob(os.path.join(REPO, "modules/*/include/picotm/config/*.h.in")))

    def sub(m):
        name = m[2]
        if name in conf:
            return ("%s#define %s %s" % (m[1], name, conf[name])).rstrip()
        return "/* %s#undef %s */" % (m[1], name)
    for p in ins:
        src = p
        if not os.path.exists(src) and p.endswith("/config/config.h.in"):
            src = os.path.join(HARN, "config.h.in")     # generated by autoheader; may be absent
        text = re.sub(r"^([ \t]*)#[ \t]*undef[ \t]+(\w+)[ \t]*$", sub, open(src).read(), flags=re.M)
        rel = os.path.relpath(p, REPO)[:-3]
        if rel == "config/config.h":
            out = os.path.join(bdir, "gen/config.h")
        else:
            out = os.path.join(bdir, "gen/inc/picotm/config", os.path.basename(rel))
        write_if_changed(out, text)


def closure(mods):
    out = []
    def add(m):
        for d in DEPS[m]:
            add(d)
        if m not in out:
            out.append(m)
    for m in mods:
        add(m)
    return out


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(harness, mods, variant="asan", extra_c=(), cflags=(), ldflags=()):
    """Returns the path of the linked harness. Raises CalledProcessError on failure."""
    mods = closure(mods)
    bdir = os.path.join(VERIF, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen_config(bdir)
    vflags = VARIANTS[variant]
    base = ["-std=gnu17", "-U_FORTIFY_SOURCE", "-pthread", "-DHAVE_CONFIG_H"] + WARN + vflags
    incs = ["-I" + os.path.join(bdir, "gen"), "-I" + os.path.join(bdir, "gen/inc"),
            "-I" + os.path.join(REPO, "include")]
    allinc = incs + ["-I" + os.path.join(REPO, "modules", m, "include") for m in MODULES]
    n = ["rule cc", "  command = gcc -MMD -MF $out.d $flags -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
         "rule link", "  command = gcc -o $out $in $flags", "  description = LINK $out",
         "rule so", "  command = gcc -shared -o $out $in $flags", "  description = SO $out"]
    libs = []
    for m in ["core"] + mods:
        srcd = os.path.join(REPO, "src") if m == "core" else os.path.join(REPO, "modules", m, "src")
        srcs = sorted(glob.glob(srcd + "/**/*.c", recursive=True))
        mi = list(incs)
        for d in ([] if m == "core" else [m] + closure(DEPS[m])):
            mi.append("-I" + os.path.join(REPO, "modules", d, "include"))
        objs = []
        for s in srcs:
            o = os.path.join(bdir, m, os.path.relpath(s, srcd)[:-2] + ".o")
            objs.append(o)
            n += ["build %s: cc %s" % (esc(o), esc(s)),
                  "  flags = " + " ".join(base + ["-fPIC", "-I" + srcd, "-include config.h"] +
                                          (FINE_SUT if variant == "fine" else []) + mi)]
        libs += objs
    hb = os.path.join(bdir, "h")
    hobjs = []
    for s in [os.path.join(HARN, harness + ".c"), os.path.join(HARN, "pbt.c")] + [os.path.join(HARN, x) for x in extra_c]:
        o = os.path.join(hb, harness, os.path.basename(s)[:-2] + ".o")
        hobjs.append(o)
        n += ["build %s: cc %s" % (esc(o), esc(s)),
              "  flags = " + " ".join(base + ["-I" + HARN, "-include config.h",
                                              "-I" + os.path.join(REPO, "src")] +
                                      ["-I" + os.path.join(REPO, "modules", m, "src") for m in mods] +
                                      allinc + (['-DMT_FINE'] if variant == 'fine' else []) + list(cflags))]
    exe = os.path.join(bdir, harness)
    n += ["build %s: link %s" % (esc(exe), " ".join(esc(o) for o in hobjs + libs)),
          "  flags = " + " ".join(vflags + ["-pthread", "-rdynamic"] + list(ldflags) +
                                (FINE_WRAP if variant == 'fine' else []) + ["-lm", "-ldl"])]
    n += ["default " + esc(exe), ""]
    nf = os.path.join(bdir, harness + ".ninja")
    write_if_changed(nf, "builddir = %s/nb-%s\n" % (bdir, harness) + "\n".join(n))
    r = subprocess.run(["ninja", "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise subprocess.CalledProcessError(r.returncode, "ninja")
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else [],
                sys.argv[3] if len(sys.argv) > 3 else "asan"))
