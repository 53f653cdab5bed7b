#!/usr/bin/env python3
"""Builds the simulator executables from /repo's current working tree.

usage: build.py [plain|asan ...]      (output: /verif/build/<variant>/sim)
"""
import os, sys, glob, subprocess, re, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

CONFIG_H = """#define ENABLE_NLS 1
#define GETTEXT_PACKAGE "milter-manager"
#define GLIB_VERSION_MIN_REQUIRED GLIB_VERSION_2_50
#define HAVE_BIND_TEXTDOMAIN_CODESET 1
#define HAVE_DCGETTEXT 1
#define HAVE_DLFCN_H 1
#define HAVE_EV_H 1
#define HAVE_GETTEXT 1
#define HAVE_INTTYPES_H 1
#define HAVE_LC_MESSAGES 1
#define HAVE_LOCALE_H 1
#define HAVE_RECVMSG 1
#define HAVE_SENDMSG 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRUCT_MSGHDR_MSG_CONTROL 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_UN_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "milter-manager"
#define PACKAGE_NAME "milter-manager"
#define PACKAGE_STRING "milter-manager 2.3.2"
#define PACKAGE_TARNAME "milter-manager"
#define PACKAGE_URL ""
#define PACKAGE_BUGREPORT "none"
#define PACKAGE_VERSION "2.3.2"
#define STDC_HEADERS 1
#define VERSION "2.3.2"
"""
DEFS = ("-DHAVE_CONFIG_H -DLOCALEDIR='\"/nonexistent\"' -DPREFIX='\"/nonexistent\"' "
        "-DG_DISABLE_DEPRECATED -DEV_COMPAT3=0 "
        "-DCONFIGURATION_MODULE_DIR='\"/nonexistent\"' -DRUBY_BINDINGS_EXT_DIR='\"/nonexistent\"' "
        "-DRUBY_BINDINGS_LIB_DIR='\"/nonexistent\"' -DCONFIG_DIR='\"/nonexistent\"' "
        "-DCONFIG_FILE_NAME='\"milter-manager.conf\"' -DCUSTOM_CONFIG_FILE_NAME='\"milter-manager.custom.conf\"' "
        "-DMILTER_MANAGER_PACKAGE_PLATFORM='\"debian\"' -DMILTER_MANAGER_PACKAGE_OPTIONS=NULL "
        "-DMILTER_MANAGER_DEFAULT_EFFECTIVE_USER=NULL -DMILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP=NULL "
        "-DMILTER_MANAGER_DEFAULT_SOCKET_GROUP=NULL -DMILTER_MANAGER_DEFAULT_CONNECTION_SPEC='\"inet:10025@[127.0.0.1]\"' "
        "-DMILTER_MANAGER_DEFAULT_PID_FILE=NULL -DMILTER_MANAGER_SIMULATION")

def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)

def gen(out):
    g = os.path.join(out, "gen")
    write_if_changed(os.path.join(g, "config.h"), CONFIG_H)
    v = open(os.path.join(REPO, "milter/core/milter-version.h.in")).read()
    for k, x in (("VERSION_MAJOR", "2"), ("VERSION_MINOR", "3"), ("VERSION_MICRO", "2"), ("VERSION", "2.3.2")):
        v = v.replace("@MILTER_MANAGER_%s@" % k, x)
    write_if_changed(os.path.join(g, "milter/core/milter-version.h"), v)
    pfx = ("core", "client", "server", "manager")
    srcs = []
    for d in pfx:
        # the same header lists the project's own build uses, where it has one
        mk = open(os.path.join(REPO, "milter", d, "Makefile.am")).read()
        if "enum_source_prefix" not in mk:
            continue
        name = re.search(r"enum_source_prefix\s*=\s*(\S+)", mk).group(1)
        hs = [h for h in sorted(glob.glob(os.path.join(REPO, "milter", d, "*.h")))
              if not re.search(r"(-private|-internal|-enum-types|-version)\.h$", h)]
        for ext in ("c", "h"):
            t = open(os.path.join(REPO, "build/enum-types-template." + ext)).read().replace("@enum_types_header@", name + ".h")
            tp = os.path.join(g, "t-%s.%s" % (name, ext))
            write_if_changed(tp, t)
            r = subprocess.run(["/usr/bin/glib-mkenums", "--template", tp] + [os.path.basename(h) for h in hs],
                               cwd=os.path.join(REPO, "milter", d), stdout=subprocess.PIPE, check=True)
            p = os.path.join(g, "milter", d, name + "." + ext)
            write_if_changed(p, r.stdout.decode())
        srcs.append((d, os.path.join(g, "milter", d, name + ".c")))
    return g, srcs

def build(variant, targets=None):
    out = os.path.join(OUT, variant)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    g, gsrcs = gen(out)
    opt = "-g -O1 -w -fno-omit-frame-pointer"
    ld = ""
    if variant == "asan":
        opt += " -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment"
        ld = "-fsanitize=address,undefined"
    elif variant == "cov":
        opt += " --coverage"
        ld = "--coverage -Wl,-u,__gcov_dump"
    pc = subprocess.run(["pkg-config", "--cflags", "glib-2.0", "gobject-2.0", "gmodule-2.0", "gthread-2.0"], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    pl = subprocess.run(["pkg-config", "--libs", "glib-2.0", "gobject-2.0", "gmodule-2.0", "gthread-2.0"], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    L = []
    L.append("rule cc\n  command = gcc $opt $defs -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    L.append("rule cxx\n  command = g++ -std=c++17 $opt -Wall -Wno-unused-function $defs -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    L.append("rule link\n  command = g++ -rdynamic $ldf $in -o $out %s -lev -ldl -lpthread\n" % pl)
    inc = "-I%s -I%s -I%s %s" % (g, REPO, os.path.join(VERIF, "sim"), pc)
    objs = []
    def cc(src, domain, extra=""):
        o = os.path.join(out, "o", re.sub(r"[^A-Za-z0-9.]+", "_", src) + ".o")
        L.append("build %s: cc %s\n  opt = %s\n  defs = -std=gnu11 %s -I%s %s -DMILTER_LOG_DOMAIN='\"%s\"' %s\n" % (o, src, opt, inc, os.path.join(g, "milter", domain.split("-")[-1]), DEFS, domain, extra))
        objs.append(o)
    for d in ("core", "client", "server", "manager"):
        for s in sorted(glob.glob(os.path.join(REPO, "milter", d, "*.c"))):
            if s.endswith("-enum-types.c"):
                continue
            cc(s, "milter-" + d)
    for d, s in gsrcs:
        cc(s, "milter-" + d, "-I" + os.path.join(REPO, "milter", d))
    for s in sorted(glob.glob(os.path.join(REPO, "libmilter", "*.c"))):
        cc(s, "libmilter")
    hobjs = []
    for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cc"))):
        o = os.path.join(out, "o", "sim_" + os.path.basename(s) + ".o")
        L.append("build %s: cxx %s\n  opt = %s\n  defs = %s %s\n" % (o, s, opt, inc, DEFS))
        hobjs.append(o)
    exe = os.path.join(out, "sim")
    L.append("build %s: link %s\n  ldf = %s\n" % (exe, " ".join(hobjs + objs), ld))
    L.append("default %s\n" % exe)
    write_if_changed(os.path.join(out, "build.ninja"), "\n".join(L))
    r = subprocess.run(["ninja", "-C", out, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit("build failed")
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
