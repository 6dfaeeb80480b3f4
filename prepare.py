"""Preparation steps named by target specs (property checks that need more than one compiler call).

A step is "name:argument"; it returns None or an error text and writes only below the work directory."""
import os, re, subprocess, threading

MODULE = "TAT.cpython-312-x86_64-linux-gnu.so"
LOCK, FULL = threading.Lock(), {}

PYFLAGS = ["-std=c++17", "-w", "-O0", "-DPyTAT_EXPORTS", '-DTAT_BUILD_TYPE="Default"', "-DTAT_PYTHON_MODULE=TAT", "-DTAT_USE_MPI",
           "-isystem", "/usr/include/python3.12", "-fPIC", "-fvisibility=hidden", "-shared"]


def compile_module(d, text, repo, env):
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "PyTAT.cpp")
    with open(src, "w") as f:
        f.write(text)
    cmd = ["mpic++"] + PYFLAGS + ["-I" + os.path.join(repo, "PyTAT"), "-I" + os.path.join(repo, "include"), src,
                                  "-o", os.path.join(d, MODULE), "-llapack", "-lblas"]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return "%s\n%s" % (" ".join(cmd), p.stdout[-6000:]) if p.returncode else None


def pytat(sym, work, repo, env):
    """The Python module with the tensors of one symmetry (all scalar types), built from the current PyTAT.cpp.

    Where that file no longer lists its tensor types through the macro that is narrowed here, the whole module is built once and shared."""
    d = os.path.join(work, "py", sym)
    text = open(os.path.join(repo, "PyTAT/PyTAT.cpp")).read()
    m = re.search(r"^namespace TAT \{", text, re.M)
    if m and all(re.search(r"#define\s+" + w, text[:m.start()]) for w in ("TAT_LOOP_ALL_SCALAR_SYMMETRY", "TAT_SINGLE_SYMMETRY_ALL_SCALAR")):
        narrow = (text[:m.start()] + "#undef TAT_LOOP_ALL_SCALAR_SYMMETRY\n#define TAT_LOOP_ALL_SCALAR_SYMMETRY TAT_SINGLE_SYMMETRY_ALL_SCALAR(%s)\n" % sym
                  + text[m.start():])
        if compile_module(d, narrow, repo, env) is None:
            return None
    full = os.path.join(work, "py", "all")
    with LOCK:
        if full not in FULL:
            FULL[full] = compile_module(full, text, repo, env)
    os.makedirs(d, exist_ok=True)
    if FULL[full] is None:
        if os.path.lexists(os.path.join(d, MODULE)):
            os.unlink(os.path.join(d, MODULE))
        os.symlink(os.path.join(full, MODULE), os.path.join(d, MODULE))
    return FULL[full]
