#!/usr/bin/env python3
"""Builds the harness binaries from /repo's current working tree.

All sources named by /repo/src/Makefile.am (filter_src and
libmetaproxy_la_SOURCES) are compiled against the YAZ++ stand-in in shim/, in
two flavours:
  asan  -fsanitize=address (memory errors end a run as a violation)
  race  -fsanitize=thread instrumentation calls, answered by mc/tsan_hooks.cpp
"""
import os, re, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

FLAV = {
    "asan": dict(cxx="-fsanitize=address -D_GLIBCXX_ASSERTIONS",
                 ld="-fsanitize=address"),
    "race": dict(cxx="-fsanitize=thread -D_GLIBCXX_ASSERTIONS", ld=""),
}
BASE = ("-std=gnu++17 -O1 -g1 -w -fno-omit-frame-pointer "
        "-fno-optimize-sibling-calls -DMC_VERIF")


def sources():
    am = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    out = []
    for var in ("filter_src", "libmetaproxy_la_SOURCES"):
        m = re.search(r"^%s[ \t]*=([^\n]*)" % var, am, re.M)
        for w in (m.group(1).split() if m else []):
            if re.fullmatch(r"[A-Za-z0-9_]+\.cpp", w) and w not in out:
                out.append(w)
    return out


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def config_hpp():
    ver = "0"
    for l in open(os.path.join(REPO, "IDMETA")):
        if l.startswith("VERSION="):
            ver = l.strip().split("=", 1)[1]
    t = ""
    for d in ("DLFCN_H", "DL_SUPPORT", "GETRLIMIT", "LOCALTIME_R",
              "SYS_SELECT_H", "SYS_SOCKET_H", "SYS_STAT_H", "SYS_TYPES_H",
              "UNISTD_H"):
        t += "#define HAVE_%s 1\n" % d
    t += '#define PACKAGE "metaproxy"\n#define VERSION "%s"\n' % ver
    t += '#define VERSION_SHA1 ""\n'
    return t


def generate(targets, subset=True):
    """targets: list of (harness, flavour)"""
    inc = os.path.join(BUILD, "inc")
    write_if_changed(os.path.join(inc, "config.hpp"), config_hpp())
    yaz = subprocess.check_output(
        ["pkg-config", "--cflags", "yaz"], text=True).strip()
    yazl = subprocess.check_output(
        ["pkg-config", "--libs", "yaz"], text=True).strip()
    n = ["ninja_required_version = 1.5",
         "builddir = %s" % BUILD,
         "inc = -I%s -I%s/include -I%s/src -I%s/shim -I%s/mc -I%s/h %s"
         % (inc, REPO, REPO, VERIF, VERIF, VERIF, yaz),
         "rule cxx",
         "  command = g++ $flags $inc -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "  description = CXX $out",
         "rule link",
         "  command = g++ $ldf -rdynamic -o $out $in $libs",
         "  description = LINK $out"]
    libs = ("%s -lboost_thread -lboost_system -lboost_regex -lexslt -lxslt "
            "-lxml2 -lpthread -ldl" % yazl)
    srcs = sources()
    done = set()
    outs = []
    for fl in sorted(set(t[1] for t in targets)):
        d = os.path.join(BUILD, fl)
        f = FLAV[fl]
        for s in srcs:
            o = "%s/repo/%s.o" % (d, s[:-4])
            n.append("build %s: cxx %s/src/%s" % (o, REPO, s))
            n.append("  flags = %s %s" % (BASE, f["cxx"]))
        # the checker itself is never race-instrumented
        cf = f["cxx"] if fl == "asan" else ""
        sup = [("mc/explorer.cpp", ""), ("mc/sched.cpp", ""),
               ("shim/yazpp_shim.cpp", cf)]
        if fl == "race":
            sup.append(("mc/tsan_hooks.cpp", ""))
        for s, c in sup:
            o = "%s/sup/%s.o" % (d, os.path.basename(s)[:-4])
            n.append("build %s: cxx %s/%s" % (o, VERIF, s))
            n.append("  flags = -std=gnu++17 -O2 -g1 -w %s" % c)
    for h, fl in targets:
        if (h, fl) in done:
            continue
        done.add((h, fl))
        d = os.path.join(BUILD, fl)
        f = FLAV[fl]
        hf = open(os.path.join(VERIF, "h", h + ".cpp")).read()
        ho = "%s/h/%s.o" % (d, h)
        # harness templates instantiate code of the tree's headers: in the
        # race flavour those have to be instrumented too
        n.append("build %s: cxx %s/h/%s.cpp" % (ho, VERIF, h))
        n.append("  flags = %s %s" % (BASE, f["cxx"]))
        extra = re.findall(r"^// *LIBS: *(.*)$", hf, re.M)
        m = re.search(r"^// *WITHOUT: *(.*)$", hf, re.M)
        skip = m.group(1).split() if m else []
        o = re.search(r"^// *ONLY: *(.*)$", hf, re.M)
        only = o.group(1).split() if o and subset else None
        objs = [ho] + ["%s/repo/%s.o" % (d, s[:-4]) for s in srcs
                       if s[:-4] not in skip
                       and (only is None or s[:-4] in only)]
        sup = ["explorer", "sched", "yazpp_shim"]
        if fl == "race":
            sup.append("tsan_hooks")
        objs += ["%s/sup/%s.o" % (d, s) for s in sup]
        out = "%s/%s" % (d, h)
        n.append("build %s: link %s" % (out, " ".join(objs)))
        n.append("  ldf = %s" % f["ld"])
        n.append("  libs = %s %s" % (libs, " ".join(extra)))
        outs.append(out)
    name = os.path.join(BUILD, "build-%s%s.ninja"
                        % ("" if subset else "all-", "_".join(sorted("%s.%s" % t for t in done))))
    if len(os.path.basename(name)) > 200:
        name = os.path.join(BUILD, "build-many.ninja")
    write_if_changed(name, "\n".join(n) + "\n")
    return name, outs


def build(targets, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    # first with the sources the harness needs today (its ONLY: line); code
    # may have moved between files, so fall back to linking everything
    for subset in (True, False):
        name, outs = generate(targets, subset)
        p = subprocess.run(["ninja", "-k", "0", "-f", name] + outs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if not p.returncode:
            break
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        sys.stdout.write("BUILD FAILED\n")
        return False
    if verbose:
        sys.stdout.write(p.stdout[-2000:])
    return True


if __name__ == "__main__":
    ts = []
    if sys.argv[1:] == ["--setup"]:
        # tools present? (checks build what they need themselves)
        ok = subprocess.call(["sh", "-c", "which g++ ninja >/dev/null"]) == 0
        sys.exit(0 if ok else 2)
    for a in sys.argv[1:]:
        h, _, fl = a.partition(":")
        ts.append((h, fl or "asan"))
    sys.exit(0 if build(ts, True) else 2)
