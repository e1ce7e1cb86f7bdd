"""Compile the extension modules that setup.py lists, in place, in parallel and
with one object file per (extension, source) - setup.py -j lets two extensions
write the same object file at once.  Run in the scratch tree."""
import os, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor
import distutils.core
exts = []
def fake_setup(**kw):
    exts.extend(kw.get("ext_modules") or [])
distutils.core.setup = fake_setup
sys.argv = ["setup.py", "build_ext"]
src = open("setup.py").read()
exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
if not exts: sys.exit("setup.py lists no extensions")
cflags = os.environ.get("CFLAGS", "").split()
ldflags = os.environ.get("LDFLAGS", "").split()
inc = ["-I" + sysconfig.get_paths()["include"], "-I" + sysconfig.get_paths()["platinclude"]]
jobs = []
for n, e in enumerate(exts):
    for m, s in enumerate(e.sources):
        obj = "build_%d_%d.o" % (n, m)
        cmd = ["g++", "-fPIC", "-fwrapv", "-DNDEBUG"] + cflags + inc + \
              ["-I" + d for d in e.include_dirs] + \
              ["-D" + (k if v is None else "%s=%s" % (k, v)) for k, v in e.define_macros] + \
              list(e.extra_compile_args or []) + ["-c", s, "-o", obj]
        jobs.append((n, obj, cmd))
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: sys.stdout.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
    return r.returncode
with ThreadPoolExecutor(8) as pool:
    rc = list(pool.map(run, [j[2] for j in jobs]))
if any(rc): sys.exit(1)
link = []
for n, e in enumerate(exts):
    target = e.name.replace(".", "/") + sysconfig.get_config_var("EXT_SUFFIX")
    link.append(["g++", "-shared"] + ldflags + [j[1] for j in jobs if j[0] == n] +
                ["-l" + l for l in e.libraries] + list(e.extra_link_args or []) + ["-o", target])
with ThreadPoolExecutor(8) as pool:
    rc = list(pool.map(run, link))
for j in jobs:
    if os.path.exists(j[1]): os.remove(j[1])
sys.exit(1 if any(rc) else 0)
