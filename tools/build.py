"""Builds the simulator and, from /repo's working tree, the code under test."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
NCOPY = 72

CXXSIM = ["g++", "-std=c++17", "-O2", "-g1", "-fvisibility=hidden", "-Wall", "-Wno-unused-function", "-Wno-cast-function-type",
          "-I" + OMPI, "-I" + VERIF + "/harness"]
# the code under test: the project's own definitions; memory accesses and basic blocks report to the simulator
DEFS = ["-DHAVE_OPENMP", "-DOMPI_SKIP_MPICXX", "-D_TEAMS=64", "-D_THREADS_PER_TEAM=32", "-DNDEBUG"]
INSTR = ["-fsanitize=thread", "-fsanitize-coverage=trace-pc"]
CXX = ["g++", "-std=gnu++11", "-O1", "-g1", "-fPIC", "-fno-gnu-unique", "-w"] + DEFS + ["-fopenmp"] + INSTR + ["-I" + REPO + "/cxx", "-I" + OMPI,
       "-I" + VERIF + "/harness"]
FC = ["gfortran", "-O1", "-g1", "-fPIC", "-w", "-ffree-line-length-none"] + DEFS + ["-fopenmp"] + INSTR


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()


def read(f):
    with open(f, "rb") as s:
        return s.read()


def tree(*dirs):
    """Everything a compilation may include from these directories."""
    out = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if not x.startswith((".", "_build", "build")))
            for f in sorted(fs):
                if f.endswith((".cxx", ".cpp", ".c", ".h", ".hpp", ".F90", ".f90", ".inc", ".py")):
                    p = os.path.join(root, f)
                    out += [p, read(p)]
    return out


def fresh(target, stamp):
    try:
        return os.path.exists(target) and read(target + ".stamp").decode() == stamp
    except OSError:
        return False


def mark(target, stamp):
    with open(target + ".stamp", "w") as f:
        f.write(stamp)


def pool():
    return cf.ThreadPoolExecutor(max_workers=8)


def build_sim():
    """The simulator itself: depends on nothing in /repo."""
    os.makedirs(B + "/obj", exist_ok=True)
    exe = B + "/vsim"
    srcs = sorted(glob.glob(VERIF + "/sim/*.cpp"))
    common = tree(VERIF + "/sim", VERIF + "/harness")
    stamp = digest(common + CXXSIM + [read(VERIF + "/sim/exports.list")])
    if fresh(exe, stamp):
        return exe
    heads = [x for f in sorted(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/harness/*.h")) for x in (f, read(f))]

    def one(s):
        o = B + "/obj/" + os.path.basename(s) + ".o"
        st = digest([s, read(s)] + heads + CXXSIM)
        if not fresh(o, st):
            sh(CXXSIM + ["-c", s, "-o", o])
            mark(o, st)
        return o
    with pool() as p:
        objs = list(p.map(one, srcs))
    sh(["g++", "-o", exe + ".new"] + objs + ["-Wl,--dynamic-list=" + VERIF + "/sim/exports.list", "-Wl,--no-as-needed", "-lgfortran", "-ldl", "-lpthread"])
    os.replace(exe + ".new", exe)
    mark(exe, stamp)
    return exe


def copies(so, name, n, libdir):
    for i in range(n):
        d = "%s/%s.%d.so" % (libdir, name, i)
        if os.path.exists(d):
            os.unlink(d)
        shutil.copyfile(so, d)


def drop_lib(name, libdir):
    for f in glob.glob("%s/%s.*.so*" % (libdir, name)):
        os.unlink(f)


def build_lib(name, libdir):
    """Compile one program of the repository as a library; returns an error text or None."""
    t = TARGETS[name]
    os.makedirs(libdir, exist_ok=True)
    first = "%s/%s.0.so" % (libdir, name)
    work = B + "/work/" + name
    srcs = t["src"]() if callable(t["src"]) else t["src"]
    srcs = [s.replace("@", REPO) for s in srcs]
    stamp = digest([name, str(t.get("flags")), str(t.get("copies", 1)), " ".join(CXX), " ".join(FC), read(__file__)] + srcs
                   + tree(REPO + "/cxx", REPO + "/laplacian", REPO + "/upwind", REPO + "/matmult", VERIF + "/harness"))
    if fresh(first, stamp):
        return None
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    if t.get("prepare"):
        srcs = t["prepare"](work, srcs)
    cmds, objs = [], []
    for i, s in enumerate(srcs):
        o = "%s/%d.o" % (work, i)
        fortran = s.endswith((".F90", ".f90"))
        base = t.get("fc", FC) + ["-J" + work, "-I" + os.path.dirname(s)] if fortran else t.get("cxx", CXX) + ["-I" + os.path.dirname(s)]
        if fortran:
            s = concurrent(s, work, base, t.get("flags", []))
        cmds.append(base + t.get("flags", []) + ["-c", s, "-o", o])
        objs.append(o)
    with pool() as p:
        list(p.map(sh, cmds))
    so = work + "/lib.so"
    link = ["gfortran" if any(s.endswith((".F90", ".f90")) for s in srcs) else "g++", "-shared", "-Wl,-z,lazy", "-o", so] + objs
    sh(link)
    copies(so, name, t.get("copies", 1), libdir)
    mark(first, stamp)
    shutil.rmtree(work)
    return None


def concurrent(src, work, base, flags):
    """The source with its "do concurrent" loops handed to the simulator, if it has any."""
    import fconc
    why = None
    for pure in ("enclosing", "all", "keep"):
        try:
            text, n = fconc.rewrite(fconc.preprocess(src, [f for f in base + flags if f.startswith("-D")]), pure)
            if not n:
                break
            new = work + "/" + os.path.basename(src).rsplit(".", 1)[0] + "_conc.f90"
            with open(new, "w") as f:
                f.write(text)
            sh([x for x in base if not x.startswith("-fsan")] + flags + ["-ffree-line-length-none", "-fsyntax-only", new])
            return new
        except (RuntimeError, BuildError, IndexError, ValueError) as e:
            why = why or e
    if why:
        sys.stderr.write("note: concurrent loops of %s run in order: %s\n" % (src, str(why)[-500:]))
    return src


def acc_cxx(work, srcs):
    """The program with its OpenACC directives turned into OpenMP target directives (see accomp.py)."""
    import accomp
    out = []
    for s in srcs:
        if s.startswith(REPO + "/cxx/"):
            out.append(s)
            continue
        try:
            text, n = accomp.cxx(open(s).read())
        except accomp.GiveUp as e:
            raise BuildError("OpenACC directive not understood in %s: %s" % (s, e))
        new = work + "/" + os.path.basename(s)
        with open(new, "w") as f:
            f.write('#line 1 "%s"\n' % s + text)
        out.append(new)
    return out


def acc_class(src):
    def prepare(work, srcs):
        acc_cxx(work, [src])
        return srcs
    return prepare


def acc_fortran(defs):
    def prepare(work, srcs):
        import accomp, fconc
        out = []
        for s in srcs:
            a, b = work + "/raw.F90", work + "/" + os.path.basename(s).rsplit(".", 1)[0] + ".f90"
            with open(a, "w") as f:
                f.write(accomp.undent(open(s).read()))
            try:
                text = fconc.preprocess(a, defs)
                if "-DHAVE_OPENACC" in defs or "-DACC" in defs:
                    text, n = accomp.fortran(text)
            except RuntimeError as e:
                raise BuildError("OpenACC directive not understood in %s: %s" % (s, e))
            with open(b, "w") as f:
                f.write(text)
            out.append(b)
        return out
    return prepare


def modules(text, src, driver, new):
    """The modules of a program with a driver of our own in place of its main program."""
    import re
    mods = re.findall(r"(?ims)^[ \t]*module[ \t]+\w+[ \t]*(?:![^\n]*)?$.*?^[ \t]*end[ \t]*module\b[^\n]*$", text)
    if not mods:
        raise BuildError("no module in " + src)
    with open(new, "w") as f:
        f.write("\n".join(mods) + "\n" + read(VERIF + "/harness/" + driver).decode())
    return [new]


def mm_module(work, srcs):
    import fconc
    return modules(fconc.preprocess(srcs[0], []), srcs[0], "mm_drive.f90", work + "/mm.f90")


def up_module(defs=None):
    def prepare(work, srcs):
        import fconc
        if defs is None:
            text = fconc.preprocess(srcs[0], [])
        else:
            text = read(acc_fortran(defs)(work, srcs)[0]).decode()
        return modules(text, srcs[0], "upwind_drive.f90", work + "/up.f90")
    return prepare


def cxxlib():
    return sorted(f for f in glob.glob(REPO + "/cxx/*.cpp"))


def parser():
    return cxxlib()


UPC = REPO + "/upwind/cxx/"
UPF = REPO + "/upwind/fortran/"
ACCI = ["-I" + UPC, "-foffload=disable"]
TT = ["-D_TEAMS=64", "-D_THREADS_PER_TEAM=32"]
TARGETS = {
    "laplacian": dict(src=lambda: [REPO + "/laplacian/cxx/laplacian.cxx"] + cxxlib(), copies=NCOPY),
    "stencil2d": dict(src=lambda: [REPO + "/laplacian/cxx/testStencil2d.cxx"] + cxxlib(), copies=NCOPY),
    "upwindmpi": dict(src=lambda: [REPO + "/upwind/cxx/upwindMpi.cxx"] + cxxlib(), copies=NCOPY),
    "upwindcxx": dict(src=lambda: [UPC + "upwind.cxx"] + parser()),
    "upwindtasks": dict(src=lambda: [UPC + "upwindOMPTasks.cxx"] + parser()),
    "upwindclass": dict(src=lambda: [VERIF + "/harness/upwind_class.cxx"] + parser(), flags=["-DUPWIND_SRC=\"" + UPC + "upwind.cxx\""]),
    "upwindclasst": dict(src=lambda: [VERIF + "/harness/upwind_class.cxx"] + parser(), flags=["-DUPWIND_SRC=\"" + UPC + "upwindOMPTasks.cxx\""]),
    "upwindf90": dict(src=[UPF + "upwind.F90"]),
    "upwindf03": dict(src=[UPF + "upwindF03.F90"]),
    "upwindf08": dict(src=[UPF + "upwindF08.F90"]),
    "upwindf08gpu": dict(src=[UPF + "upwindF08Gpu.F90"]),
    "matmult": dict(src=["@/matmult/fortran/matmult.F90"]),
    "matmultlib": dict(src=["@/matmult/fortran/matmult.F90"], prepare=mm_module),
    "upwindacc": dict(src=lambda: [UPC + "upwindAcc.cxx"] + parser(), prepare=acc_cxx, flags=ACCI),
    "upwindacc2": dict(src=lambda: [UPC + "upwindAcc2.cxx"] + parser(), prepare=acc_cxx, flags=ACCI),
    "upwindomp5": dict(src=lambda: [UPC + "upwindOMP5.cxx"] + parser(), flags=["-foffload=disable"]),
    "accclass": dict(src=lambda: [VERIF + "/harness/upwind_class.cxx"] + parser(), prepare=acc_class(UPC + "upwindAcc.cxx"), flags=ACCI + ["-DDIM_LO=3", "-DUPWIND_SRC=\"" + B + "/work/accclass/upwindAcc.cxx\""]),
    "acc2class": dict(src=lambda: [VERIF + "/harness/upwind_class.cxx"] + parser(), prepare=acc_class(UPC + "upwindAcc2.cxx"), flags=ACCI + ["-DDIM_LO=3", "-DUPWIND_SRC=\"" + B + "/work/acc2class/upwindAcc2.cxx\""]),
    "omp5class": dict(src=lambda: [VERIF + "/harness/upwind_class.cxx"] + parser(), flags=ACCI + ["-DDIM_LO=3", "-DUPWIND_SRC=\"" + UPC + "upwindOMP5.cxx\""]),
    "upwindf90acc": dict(src=[UPF + "upwind.F90"], prepare=acc_fortran(["-DACC"]), flags=["-foffload=disable"]),
    "upwindgpuacc": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=acc_fortran(["-DHAVE_OPENACC"] + TT), flags=["-foffload=disable"]),
    "upwindgpuker": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=acc_fortran(["-DHAVE_OPENACC", "-DHAVE_OPENACC_KERNELS"] + TT), flags=["-foffload=disable"]),
    "upwindgpuomp": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=acc_fortran(["-DHAVE_OPENMP_OFFLOAD", "-DHAVE_OPENMP"] + TT), flags=["-foffload=disable"]),
    "f90class": dict(src=[UPF + "upwind.F90"], prepare=up_module()),
    "f03class": dict(src=[UPF + "upwindF03.F90"], prepare=up_module()),
    "f08class": dict(src=[UPF + "upwindF08.F90"], prepare=up_module()),
    "gpuclass": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=up_module()),
    "f90accclass": dict(src=[UPF + "upwind.F90"], prepare=up_module(["-DACC"]), flags=["-foffload=disable"]),
    "gpuaccclass": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=up_module(["-DHAVE_OPENACC"] + TT), flags=["-foffload=disable"]),
    "gpukerclass": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=up_module(["-DHAVE_OPENACC", "-DHAVE_OPENACC_KERNELS"] + TT), flags=["-foffload=disable"]),
    "gpuompclass": dict(src=[UPF + "upwindF08Gpu.F90"], prepare=up_module(["-DHAVE_OPENMP_OFFLOAD", "-DHAVE_OPENMP"] + TT), flags=["-foffload=disable"]),
    "filterops": dict(src=lambda: [VERIF + "/harness/filter_ops.cxx"] + cxxlib(), copies=NCOPY),
}


# the same without optimisation
for t in ("upwindcxx", "upwindtasks", "upwindf90", "upwindf03", "upwindf08", "upwindf08gpu", "upwindacc", "upwindacc2", "upwindomp5",
          "upwindf90acc", "upwindgpuacc", "upwindgpuker", "upwindgpuomp", "matmult", "matmultlib"):
    TARGETS[t + "_o0"] = dict(TARGETS[t], flags=TARGETS[t].get("flags", []) + ["-O0"])


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(B + "/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()
