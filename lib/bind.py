"""Builds the language bindings of /repo's working tree into the scratch directory."""
import os, subprocess, sysconfig
from common import *
from common import _run

PY = "/usr/bin/python3"
_built = {}
PUBDEFS = [d for d in DEFS if d != "-DLIBLOC_PRIVATE"]

def _objs(tag, flags, sources, inc, defs):
    d = os.path.join(scratch(), "bobj-" + tag)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in sources:
        o = os.path.join(d, os.path.basename(s) + ".o")
        jobs.append((["gcc", "-g", "-O1", "-w", "-fPIC"] + inc + defs + flags + ["-c", s, "-o", o], o))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: _run(j[0], "compiling"), jobs))
    return [j[1] for j in jobs]

def lib_objs(asan):
    key = ("lib", asan)
    if key not in _built:
        _built[key] = _objs("lib%d" % asan, ASAN if asan else [], lib_sources(), ["-I", os.path.join(REPO, "src")], DEFS)
    return _built[key]

def outdir(name, asan):
    d = os.path.join(scratch(), "%s%d" % (name, asan))
    os.makedirs(d, exist_ok=True)
    return d

def _link(so, objs, asan):
    _run(["gcc", "-shared", "-g"] + (ASAN if asan else []) + objs + ["-lcrypto", "-lresolv", "-o", so], "linking " + so)

def sources(sub):
    d = os.path.join(REPO, "src", sub)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))

def python(asan=0):
    """environment for running Python with the module of this tree"""
    key = ("py", asan)
    if key not in _built:
        d = outdir("pymod", asan)
        inc = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_path('include'), sysconfig.get_path('platinclude'))"],
                             stdout=subprocess.PIPE, text=True).stdout.split()
        objs = _objs("py%d" % asan, ASAN if asan else [], sources("python"),
                     ["-I", os.path.join(REPO, "src")] + sum((["-I", i] for i in inc), []), DEFS)
        _link(os.path.join(d, "_location.so"), objs + lib_objs(asan), asan)
        _built[key] = d
    e = dict(os.environ, PYTHONPATH=_built[key] + ":" + os.path.join(REPO, "src", "python"), PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", LC_ALL="C.UTF-8", no_proxy="*")
    for v in ("http_proxy", "https_proxy", "PYTHONSTARTUP", "TMPDIR"):
        e.pop(v, None)
    return asanenv(e) if asan else e

def asanenv(e):
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    e["LD_PRELOAD"] = os.path.realpath(lib)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["PYTHONMALLOC"] = "malloc"
    return e

def lua(asan=0):
    key = ("lua", asan)
    if key not in _built:
        d = outdir("luamod", asan)
        objs = _objs("lua%d" % asan, ASAN if asan else [], sources("lua"),
                     ["-I", os.path.join(REPO, "src"), "-I/usr/include/lua5.4"], DEFS)
        _link(os.path.join(d, "location.so"), objs + lib_objs(asan), asan)
        _built[key] = d
    e = dict(os.environ, LUA_CPATH=_built[key] + "/?.so", LUA_PATH="")
    return asanenv(e) if asan else e

def perl(asan=0):
    key = ("perl", asan)
    if key not in _built:
        d = outdir("perlmod", asan)
        src = os.path.join(REPO, "src", "perl")
        cf = os.path.join(d, "Location.c")
        conf = lambda k: subprocess.run(["perl", "-MConfig", "-e", "print $Config{%s}" % k], stdout=subprocess.PIPE, text=True).stdout
        tm = os.path.join(conf("privlibexp"), "ExtUtils", "typemap")
        _run(["xsubpp", "-typemap", tm, "-typemap", os.path.join(src, "typemap"), "-output", cf,
              os.path.join(src, "Location.xs")], "xsubpp")
        objs = _objs("perl%d" % asan, (ASAN if asan else []) + conf("ccflags").split(), [cf],
                     ["-I", os.path.join(REPO, "src"), "-I", src, "-I", os.path.join(conf("archlibexp"), "CORE")],
                     DEFS + ['-DVERSION="0.01"', '-DXS_VERSION="0.01"'])
        os.makedirs(os.path.join(d, "auto", "Location"), exist_ok=True)
        _link(os.path.join(d, "auto", "Location", "Location.so"), objs + lib_objs(asan), asan)
        _built[key] = d
    e = dict(os.environ, PERL5LIB=_built[key] + ":" + os.path.join(REPO, "src", "perl", "lib"), PERL_DL_NONLAZY="1")
    return asanenv(e) if asan else e

def script(name="location"):
    """the command line tool of this tree"""
    key = ("script", name)
    if key not in _built:
        t = open(os.path.join(REPO, "src", "scripts", name + ".in"), encoding="utf-8").read()
        for k, v in (("@VERSION@", "0.9.17"), ("@databasedir@", "/nonexistent")):
            t = t.replace(k, v)
        p = os.path.join(scratch(), name + "-cli.py")
        open(p, "w", encoding="utf-8").write(t)
        _built[key] = p
    return _built[key]
