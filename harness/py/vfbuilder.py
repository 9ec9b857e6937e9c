"""Replacement of the just-in-time builder of dune.generator.

The C++ modules the Python bindings generate are compiled here against a chosen working tree of dune-functions, with
AddressSanitizer, into a directory of this run (never into the dune-py directory of the installation). Modules that do
not contain code of dune-functions (grids, reference elements) are taken from the installation if it has them with
identical source.
"""
import fcntl, glob, importlib, importlib.machinery, os, shutil, subprocess, sys, types

DUNE = "/opt/dune/venv"
INSTALLED = "/opt/dune/dunepy/dune-py/python/dune/generated"
HERE = os.path.dirname(os.path.abspath(__file__))


def setup(repo, build):
    """Has to be called before anything of dune is imported."""
    os.makedirs(build, exist_ok=True)
    os.environ["DUNE_PY_DIR"] = os.path.join(build, "dunepy")  # not used, but never the one of the installation
    import dune
    # dune.functions comes from the tree under test
    dune.__path__ = [p for p in dune.__path__ if not os.path.exists(os.path.join(p, "functions", "globalbasis.py"))] \
        + [os.path.join(repo, "python", "dune")]
    sys.modules.pop("dune.functions", None)
    gen = types.ModuleType("dune.generated")
    gen.__path__ = [build]
    sys.modules["dune.generated"] = gen
    dune.generated = gen
    import dune.generator
    dune.generator.builder = Builder(repo, build)
    import dune.functions
    assert os.path.realpath(dune.functions.__file__).startswith(os.path.realpath(repo)), dune.functions.__file__


class CompileError(Exception):
    """the compiler rejects the generated code"""


class BuildTrouble(Exception):
    """the compiler could not do its work"""


class Builder:
    dune_py_dir = None
    generated_dir = None

    def __init__(self, repo, build):
        self.repo, self.build = repo, build
        self.dune_py_dir = self.generated_dir = build
        self.compiled = []

    def initialize(self):
        pass

    def load(self, name, source, pythonName, extraCMake=None):
        full = "dune.generated." + name
        if full not in sys.modules:
            so = os.path.join(self.build, name + ".so")
            with open(os.path.join(self.build, name + ".lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                if not os.path.exists(so):
                    self.make(name, source, so)
        return importlib.import_module(full)

    def flags(self):
        return ["-std=gnu++20", "-fPIC", "-w", "-DHAVE_CONFIG_H", "-D_GLIBCXX_ASSERTIONS", "-DDUNE_CHECK_BOUNDS", "-O0", "-g0",
                "-fno-omit-frame-pointer", "-fsanitize=address",
                # as in the installed grid modules, with which types are shared
                "-DHAVE_GMP=1", "-DHAVE_METIS=1", "-DHAVE_MPI=1", "-DHAVE_QUADMATH=1", "-DMETIS_API_VERSION=5",
                "-DMPICH_SKIP_MPICXX=1", "-DMPIPP_H", "-DMPI_NO_CPPBIND=1", "-DOMPI_SKIP_MPICXX=1", "-D_MPICC_H",
                "-I" + os.environ.get("VF_HARNESS", os.path.dirname(HERE)), "-I" + self.repo,
                "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
                "-isystem", DUNE + "/include", "-isystem", DUNE + "/include/dune/python", "-isystem", "/usr/include/python3.12"]

    def gxx(self, args):
        return subprocess.run([os.environ.get("VF_PYCXX", "g++")] + self.flags() + args, capture_output=True, text=True,
                              env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"})

    def diagnose(self, source):
        """error messages of a translation unit"""
        cc = os.path.join(self.build, "diagnose%d.cc" % os.getpid())
        with open(cc, "w") as f:
            f.write(source)
        p = self.gxx(["-fsyntax-only", cc])
        errors = [l for l in p.stderr.splitlines() if "error" in l]
        return errors if errors or p.returncode == 0 else [p.stderr[-500:]]

    def make(self, name, source, so):
        own = "dune/functions" in source or "dune/python/functions" in source
        inst = os.path.join(INSTALLED, name)
        try:
            if not own and open(inst + ".cc").read().strip() == source.strip():
                shutil.copy(inst + ".so", so)
                return
        except OSError:
            pass
        cc = os.path.join(self.build, name + ".cc")
        with open(cc, "w") as f:
            f.write(source)
        libs = [f"{DUNE}/lib/libdunegrid.a", f"{DUNE}/lib/libdunegeometry.a", f"{DUNE}/lib/libdunecommon.a",
                "-llapack", "-lblas", "-l:libtbb.so.12", "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so"]
        tmp = so + ".tmp"
        p = self.gxx(["-shared", cc, "-o", tmp] + libs)
        if p.returncode:
            errors = [l for l in p.stderr.splitlines() if "error" in l]
            text = "compilation of %s failed: %s" % (name, "\n".join(errors)[:2000])
            trouble = ("fatal error", "Killed", "internal compiler error", "No space left", "collect2", "out of memory")
            if not any("error: " in l for l in errors) or any(t in p.stderr for t in trouble):
                raise BuildTrouble(text + p.stderr[-1000:])
            raise CompileError(text)
        os.replace(tmp, so)
        self.compiled.append(name)
