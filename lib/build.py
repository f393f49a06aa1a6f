"""Build libtomo from /repo's working tree into /verif/build/<variant>-<hash> (content addressed).

Variants:
  release  the flags of a normal Release build
  asan     AddressSanitizer + UndefinedBehaviorSanitizer
  tsan     ThreadSanitizer; OpenMP outlined bodies run on lib/minigomp.c (pthreads) so that
           TSan sees the fork/join edges
Nothing is written in /repo or /opt.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
LIBS = ["libtomo-misc.so", "libtomo-prep.so", "libtomo-recon.so", "libtomo-gridrec.so"]
FLAGS = {
    "release": "",
    "asan": "-g -O1 -DNDEBUG -fsanitize=address,undefined,float-cast-overflow -fno-omit-frame-pointer -fno-sanitize=alignment",
    "tsan": "-g -O1 -DNDEBUG -fsanitize=thread -fno-omit-frame-pointer",
}
BTYPE = {"release": "Release", "asan": "None", "tsan": "None"}


class BuildError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    roots = ["CMakeLists.txt", "Config.cmake.in", "cmake", "include", "source/CMakeLists.txt", "source/libtomo"]
    files = []
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files.append(p)
        for d, dn, fn in os.walk(p):
            dn.sort()
            files += [os.path.join(d, f) for f in fn]
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(VERIF, "lib", "minigomp.c"), "rb") as fh:
        h.update(fh.read())
    h.update(repr(FLAGS).encode())
    return h.hexdigest()[:20]


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "PYTHONHOME", "TOMOPY_FFT_IMPL", "LD_PRELOAD", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["CC"] = "/usr/bin/gcc"
    env["CXX"] = "/usr/bin/g++"
    return env


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, f"{variant}-{source_hash()}")
        if os.path.isfile(os.path.join(out, "ok")):
            os.utime(out)
            return out
        _prune(variant)
        tmp = tempfile.mkdtemp(prefix=f"tomobuild-{variant}-")
        try:
            env = clean_env()
            cmd = ["cmake", "-S", REPO, "-B", tmp, "-GNinja", f"-DCMAKE_BUILD_TYPE={BTYPE[variant]}",
                   "-DTOMOPY_USE_MKL=OFF", "-DTOMOPY_USE_CUDA=OFF", "-DTOMOPY_USE_OPENCV=OFF",
                   "-DPYTHON_EXECUTABLE=/opt/venv/bin/python"]
            if FLAGS[variant]:
                cmd += [f"-DCMAKE_C_FLAGS={FLAGS[variant]}", f"-DCMAKE_CXX_FLAGS={FLAGS[variant]}"]
            for c in (cmd, ["cmake", "--build", tmp]):
                r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                if r.returncode:
                    raise BuildError(r.stdout[-4000:])
            new = out + ".new"
            shutil.rmtree(new, ignore_errors=True)
            os.makedirs(new)
            for l in LIBS:
                shutil.copy(os.path.join(tmp, l), os.path.join(new, l))
            if variant == "tsan":
                r = subprocess.run(["/usr/bin/gcc", "-O1", "-g", "-fPIC", "-shared", "-o", os.path.join(new, "minigomp.so"),
                                    os.path.join(VERIF, "lib", "minigomp.c"), "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError(r.stdout)
            open(os.path.join(new, "ok"), "w").close()
            shutil.rmtree(out, ignore_errors=True)
            os.rename(new, out)
            return out
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def accel_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "source/libtomo/accel"), os.path.join(REPO, "include"), os.path.join(VERIF, "lib/accel")):
        for d, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(f.encode() + hashlib.sha256(fh.read()).digest())
    h.update(repr(FLAGS).encode())
    return h.hexdigest()[:20]


def build_accel(variant):
    """the accelerated CPU kernels against the stand-ins for PTL and OpenCV in lib/accel"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-accel-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, f"accel{variant}-{accel_hash()}.so")
        if os.path.isfile(out):
            os.utime(out)
            return out
        _prune("accel" + variant)
        src = os.path.join(REPO, "source/libtomo/accel")
        inc = os.path.join(VERIF, "lib/accel")
        cmd = ["/usr/bin/g++", "-std=c++17", "-fPIC", "-shared", "-pthread", "-DTOMOPY_USE_OPENCV", "-I", inc, "-I", src, "-I", os.path.join(REPO, "include"),
               "-o", out + ".new"] + (FLAGS[variant] or "-O3 -DNDEBUG").split()
        cmd += sorted(os.path.join(src, "cxx", f) for f in os.listdir(os.path.join(src, "cxx")) if f.endswith(".cc")) + [os.path.join(inc, "probe.cc")]
        r = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.rename(out + ".new", out)
        return out


def _prune(variant, keep=3):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(variant + "-")]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep]:
        os.unlink(d) if os.path.isfile(d) else shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["release", "asan", "tsan"]:
        print(v, build(v))
        print(v, build_accel(v))
