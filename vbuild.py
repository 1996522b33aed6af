"""Builds the simulator, hilapp and the harness images from /repo's current working tree.

Nothing is ever written to /repo.  Everything goes to /verif/build (ignored by git), keyed by the
content of every input, so a change in /repo always leads to a rebuild."""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HILA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIB = os.path.join(REPO, "libraries")
NCPU = min(8, os.cpu_count() or 1)

# hilapp as built when the sandbox was made: source tree hash -> binary hash.  When both match,
# the existing binary is the binary of the current sources and is used as it is.
KNOWN_HILAPP = os.path.join(VERIF, "hilapp.known")

LIBSRC = ["initialize", "input", "cmdline", "random", "lattice", "map_node_layout", "memalloc",
          "timing", "test_gathers", "com_mpi", "memory_pool", "fft"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout.decode("utf8", "replace")


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def tree(d, exts=None, skip=()):
    out = []
    for dp, dn, fn in os.walk(d):
        dn[:] = sorted(x for x in dn if x not in skip and not x.startswith("."))
        for f in sorted(fn):
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append(os.path.join(dp, f))
    return out


def rel_hash(root, files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.relpath(f, root).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def hilapp_src_hash():
    d = os.path.join(REPO, "hilapp")
    files = tree(os.path.join(d, "src")) + [os.path.join(d, "Makefile")] + [os.path.join(REPO, "libraries/hila_signatures.h")]
    return rel_hash(d, [f for f in files if os.path.isfile(f)])


def file_hash(p):
    h = hashlib.sha256()
    with open(p, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


_hilapp = None


def get_hilapp(log=lambda s: None):
    global _hilapp
    if _hilapp:
        return _hilapp
    sh_ = hilapp_src_hash()
    binp = os.path.join(REPO, "hilapp/bin/hilapp")
    known = {}
    if os.path.exists(KNOWN_HILAPP):
        for ln in open(KNOWN_HILAPP):
            p = ln.split()
            if len(p) == 2:
                known.setdefault(p[0], set()).add(p[1])
    if os.path.exists(binp) and sh_ in known and file_hash(binp) in known[sh_]:
        _hilapp = (binp, sh_)
        return _hilapp
    dst = os.path.join(BUILD, "hilapp-" + sh_[:20])
    out = os.path.join(dst, "hilapp/build/hilapp")
    if not os.path.exists(os.path.join(dst, "ok")):
        log("building hilapp from source")
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        shutil.copytree(os.path.join(REPO, "hilapp"), os.path.join(dst, "hilapp"),
                        ignore=shutil.ignore_patterns("build", "bin"))
        os.makedirs(os.path.join(dst, "libraries"))
        shutil.copy(os.path.join(REPO, "libraries/hila_signatures.h"), os.path.join(dst, "libraries"))
        sh(["make", "-C", os.path.join(dst, "hilapp"), "-j%d" % NCPU, "LLVM_VERSION=18", "GIT_SHA=local", "build/hilapp"])
        open(os.path.join(dst, "ok"), "w").write("ok\n")
    _hilapp = (out, sh_)
    return _hilapp


def build_sim(log=lambda s: None):
    d = os.path.join(VERIF, "sim")
    files = tree(d)
    key = rel_hash(d, files)[:20]
    dst = os.path.join(BUILD, "sim-" + key)
    exe = os.path.join(dst, "simrun")
    if os.path.exists(exe):
        return exe
    tmp = dst + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    srcs = ["simcore", "simmpi", "simfs", "simomp", "simheap"]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda s: sh(["g++", "-std=c++17", "-O2", "-w", "-fno-builtin-malloc", "-I" + d, "-I" + d + "/api", "-c",
                                  os.path.join(d, s + ".cpp"), "-o", os.path.join(tmp, s + ".o")]), srcs))
    sh(["g++", "-rdynamic", "-o", os.path.join(tmp, "simrun")] + [os.path.join(tmp, s + ".o") for s in srcs] + ["-ldl"])
    if os.path.exists(dst):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, dst)
    return exe


class Variant:
    """One build of the library plus a harness."""

    def __init__(self, name, src, ndim=3, defs=(), hilapp_opts=(), vector=False, avx=False, openmp=False,
                 tsan=False, copies=8, extra=(), cxx=("-O1",), layout=None, extra_src=()):
        self.name, self.src, self.ndim = name, src, ndim
        self.defs = list(defs)
        self.hilapp_opts = list(hilapp_opts)
        self.vector, self.avx, self.openmp, self.tsan = vector or avx, avx, openmp, tsan
        self.copies, self.extra, self.cxx = copies, list(extra), list(cxx)
        self.layout = layout
        self.extra_src = list(extra_src)

    def all_defs(self):
        d = ["-DNDIM=%d" % self.ndim] + self.defs
        if not any(x.startswith("-DNODE_LAYOUT") for x in d):
            d.append("-DNODE_LAYOUT_BLOCK=4")
        if self.vector:
            d.append("-DSUBNODE_LAYOUT")
        if self.avx:
            d.append("-DAVX")
        if self.openmp:
            d.append("-DOPENMP")
        d += ["-DGIT_SHA_VALUE=local", "-DGIT_SHA_HILA_VALUE=local"]
        return d

    def key(self, hsha):
        files = tree(LIB, {".h", ".cpp", ".hpp", ".c"})
        hd = os.path.join(VERIF, "harness")
        files += [f for f in tree(hd) if f.endswith(".h")] + [os.path.join(hd, self.src), os.path.join(hd, "rankmem.cpp")]
        files += [os.path.join(VERIF, "sim/mpi.h"), os.path.join(VERIF, "sim/api/simapi.h"), os.path.abspath(__file__)]
        if self.openmp or self.tsan:
            files += [os.path.join(VERIF, "sim/simomp.cpp")]
        cfg = repr((self.ndim, self.all_defs(), self.hilapp_opts, self.vector, self.avx, self.openmp, self.tsan,
                    self.copies, self.extra, self.cxx, self.layout, self.extra_src, hsha))
        return hash_files(files, cfg)[:20]


def build_variants(variants, log=lambda s: None):
    """returns {name: path of the .so without the .N suffix}"""
    hilapp, hsha = get_hilapp(log)
    res = {}
    jobs = []
    fin = []
    seen = set()
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    libkey = hash_files(tree(LIB, {".h", ".cpp", ".hpp", ".c"}) + [os.path.join(VERIF, "sim/mpi.h")])
    hd = os.path.join(VERIF, "harness")

    def harnkey(v):
        return hash_files([f for f in tree(hd) if f.endswith(".h")] + [os.path.join(hd, v.src), os.path.join(VERIF, "sim/api/simapi.h")])
    rankmem = os.path.join(BUILD, "o", "rankmem-%s.o" % hash_files([os.path.join(hd, "rankmem.cpp")])[:20])
    if not os.path.exists(rankmem):
        tmp = rankmem + ".t%d.o" % os.getpid()
        sh(["g++", "-std=c++17", "-O2", "-fPIC", "-fno-builtin", "-w", "-c", os.path.join(hd, "rankmem.cpp"), "-o", tmp])
        os.rename(tmp, rankmem)
    for v in variants:
        key = v.key(hsha)
        dst = os.path.join(BUILD, "v-%s-%s" % (v.name, key))
        so = os.path.join(dst, "h.so")
        res[v.name] = so
        if os.path.exists(os.path.join(dst, "ok")):
            continue
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        inc = ["-I" + LIB, "-I" + LIB + "/plumbing", "-I" + LIB + "/datatypes", "-I" + LIB + "/tools",
               "-I" + VERIF + "/harness", "-I" + VERIF + "/sim/api"]
        hopts = list(v.hilapp_opts)
        if v.avx:
            hopts.append("-target:AVX")
        if v.openmp:
            hopts.append("-target:openmp")
        cxx = ["-x", "c++", "-std=c++17", "-fno-rtti", "-fPIC", "-fno-gnu-unique", "-w"] + v.cxx
        if v.avx:
            cxx += ["-mavx2", "-mfma", "-fabi-version=0", "-fomit-frame-pointer"]
        if v.openmp:
            cxx += ["-fopenmp"]
        if v.tsan:
            cxx += ["-fsanitize=thread"]
        srcs = [os.path.join(LIB, "plumbing", s + ".cpp") for s in LIBSRC]
        srcs.append(os.path.join(LIB, "plumbing", v.layout or ("setup_layout_vector.cpp" if v.vector else "setup_layout_generic.cpp")))
        srcs.append(os.path.join(LIB, "datatypes/extended.cpp"))
        srcs += [os.path.join(LIB, x) for x in v.extra]
        srcs.append(os.path.join(VERIF, "harness", v.src))
        objs = []
        for i, s in enumerate(srcs):
            c2 = list(cxx)
            if s.endswith("extended.cpp"):
                c2 = [x for x in c2 if not x.startswith("-O") and x not in ("-mavx2", "-mfma")]
            mine = s.startswith(VERIF)
            okey = hashlib.sha256((libkey + (harnkey(v) if mine else "") + repr((s, hopts, v.all_defs(), c2, hsha))).encode()).hexdigest()[:24]
            base = os.path.join(BUILD, "o", okey)
            objs.append(base + ".o")
            if base in seen:
                continue
            seen.add(base)
            if os.path.exists(base + ".o"):
                continue
            prio = 0 if mine else (1 if "com_mpi" in s or "test_gathers" in s or "fft" in s else 2)
            tmp = os.path.join(base + ".t%d" % os.getpid(), os.path.splitext(os.path.basename(s))[0])
            jobs.append((prio, s, base, [hilapp] + hopts + ["-std=c++17"] + v.all_defs() + inc + [s, "-o", tmp + ".cpt"],
                         ["g++"] + c2 + ["-I" + VERIF + "/sim"] + v.all_defs() + inc + ["-c", tmp + ".cpt", "-o", tmp + ".o"], tmp))
        fin.append((v, dst, so, objs))
    if fin:
        t0 = time.time()

        def one(j):
            d = os.path.dirname(j[5])
            os.makedirs(d, exist_ok=True)
            sh(j[3])
            sh(j[4])
            os.rename(j[5] + ".o", j[2] + ".o")
            shutil.rmtree(d, ignore_errors=True)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, sorted(jobs, key=lambda j: j[0])))

        def link(f):
            v, dst, so, objs = f
            sh(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"]
               + ["-Wl,--wrap=%s_%s" % (w, f) for w in ("fftw", "fftwf") for f in ("malloc", "free", "plan_dft_1d", "destroy_plan")] + ["-o", so + ".0"] + objs + [rankmem] + ["-lfftw3", "-lfftw3f", "-lm"])
            sh(["strip", "-g", so + ".0"])
            for k in range(1, v.copies):
                shutil.copyfile(so + ".0", so + ".%d" % k)
            open(os.path.join(dst, "ok"), "w").write("ok\n")
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(link, fin))
        log("built %d variant(s) in %.1f s" % (len(fin), time.time() - t0))
    return res


if __name__ == "__main__":
    if sys.argv[1:] == ["record-hilapp"]:
        print(hilapp_src_hash(), file_hash(os.path.join(REPO, "hilapp/bin/hilapp")))
