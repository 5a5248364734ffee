"""Builds the simulators from /repo's current working tree and this directory, into build/<content hash>/."""
import concurrent.futures, fcntl, hashlib, os, glob, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

INC = ["src/util", "src/baf", "src/spl", "src/io", "src/io/executables", "external/pugixml", "external"]
COMMON = ["-std=c++17", "-include", "cstdint", "-include", "stdexcept", "-D_GLIBCXX_ASSERTIONS", "-w", "-fno-omit-frame-pointer"]
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]


def repo_sources():
    r = []
    for d in ("src/util", "src/baf", "src/spl", "src/io"):
        r += sorted(glob.glob(os.path.join(REPO, d, "*.cc")))
    return r


def has_main(f):
    return re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read()) is not None


def programs():
    return [f for f in sorted(glob.glob(os.path.join(REPO, "src/io/executables/*.cc"))) if has_main(f)]


def program_parts():
    return [f for f in sorted(glob.glob(os.path.join(REPO, "src/io/executables/*.cc"))) if not has_main(f)]


def pugi():
    for c in ("external/pugixml/pugixml.cpp", "external/pugixml/src/pugixml.cpp"):
        f = os.path.join(REPO, c)
        if os.path.exists(f):
            return f
    raise SystemExit("pugixml not found")


def headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "external")):
        for f in sorted(glob.glob(root + "/**/*", recursive=True)):
            if os.path.isfile(f) and f.endswith((".h", ".hpp", ".inc", ".tpp", ".ipp")):
                h.update(f.encode() + b"\0" + open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "sim", "*.h"))):
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


class Unit:
    def __init__(self, src, flags, compiler="g++", rename=""):
        self.src, self.flags, self.compiler, self.rename = src, flags, compiler, rename


def compile_units(name, units, link):
    """Compiles (objects cached by content) and links; returns the path of the program."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "." + name + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hd = headers_digest()
    objs, todo = [], []
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    for u in units:
        key = hashlib.sha256((hd + "\0" + u.compiler + "\0" + "\0".join(u.flags) + "\0" + u.src + "\0" + u.rename).encode() + open(u.src, "rb").read()).hexdigest()[:24]
        o = os.path.join(odir, os.path.basename(u.src) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((u, o))
    exe = os.path.join(BUILD, name + "-" + hashlib.sha256(("\0".join(objs) + "\0".join(link)).encode()).hexdigest()[:24])
    if os.path.exists(exe):
        return exe

    def one(t):
        u, o = t
        tmp = o + ".%d.tmp" % os.getpid()
        p = subprocess.run([u.compiler] + u.flags + ["-c", u.src, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            return u.src + "\n" + p.stderr[-4000:]
        if u.rename:  # main() keeps its meaning for the compiler and gets another name afterwards
            p = subprocess.run(["objcopy", "--redefine-sym", "main=" + u.rename, tmp], capture_output=True, text=True)
            if p.returncode:
                return u.src + "\n" + p.stderr[-4000:]
        os.rename(tmp, o)
        return ""
    # the big ones first
    todo.sort(key=lambda t: -weight(t[0].src))
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(8, os.cpu_count() or 8)) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        sys.stderr.write("\n".join(errs))
        raise SystemExit(3)
    tmp = exe + ".tmp"
    p = subprocess.run(["g++", "-o", tmp] + objs + link, capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write(p.stderr[-6000:])
        raise SystemExit(3)
    os.rename(tmp, exe)
    prune(name, exe)
    return exe


def weight(src):
    b = os.path.basename(src)
    return {"glue_io.cc": 9, "world_disk.cc": 8, "world_work.cc": 10, "glue.cc": 8}.get(b, 0) * 1000000 + os.path.getsize(src)


def prune(name, keep):
    """Old programs and objects go, the newest stay."""
    exes = sorted((f for f in glob.glob(os.path.join(BUILD, name + "-*")) if not f.endswith(".tmp")), key=os.path.getmtime)
    for f in exes[:-6]:
        if f != keep:
            os.unlink(f)
    objs = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    for f in objs[:-600]:
        os.unlink(f)


def sim(f):
    return os.path.join(VERIF, "sim", f)


def includes():
    return ["-I" + os.path.join(REPO, d) for d in INC] + ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(BUILD, "gen")]


def gen_programs_inc():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    t = "".join("SIM_PROGRAM(%s)\n" % os.path.splitext(os.path.basename(p))[0] for p in programs())
    f = os.path.join(d, "programs.inc")
    if not os.path.exists(f) or open(f).read() != t:
        open(f, "w").write(t)
    return hashlib.sha256(t.encode()).hexdigest()[:8]


def build_disk():
    ph = gen_programs_inc()
    flags = COMMON + ASAN + includes()
    units = [Unit(s, flags) for s in repo_sources() + program_parts()] + [Unit(pugi(), flags)]
    for p in programs():
        stem = os.path.splitext(os.path.basename(p))[0]
        units.append(Unit(p, flags, rename="sim_main_" + stem))
    for f in ("main.cc", "env.cc", "model.cc", "formats.cc", "glue.cc", "world_disk.cc", "dispatch_disk.cc"):
        units.append(Unit(sim(f), flags))
    units.append(Unit(sim("glue_io.cc"), flags + ["-DSIM_PROGRAMS_" + ph]))
    return compile_units("disk", units, ["-fsanitize=address,undefined", "-ldl", "-lpthread"])


def lib_sources():
    return [s for s in repo_sources() if "/src/io/" not in s]


def build_work():
    flags = COMMON + ASAN + includes()
    units = [Unit(s, flags) for s in lib_sources()] + [Unit(pugi(), flags)]
    for f in ("main.cc", "env.cc", "model.cc", "glue_work.cc", "world_work.cc", "dispatch_work.cc"):
        units.append(Unit(sim(f), flags))
    return compile_units("work", units, ["-fsanitize=address,undefined", "-ldl", "-lpthread"])


TSAN = ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
PLAIN = ["-O1", "-g1", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]


def build_thread():
    lib = COMMON + TSAN + includes()
    own = COMMON + PLAIN + includes()
    units = [Unit(s, lib) for s in repo_sources()] + [Unit(pugi(), lib)]
    units += [Unit(sim("glue.cc"), lib), Unit(sim("glue_work.cc"), lib), Unit(sim("glue_io.cc"), lib + ["-DSIM_NO_PROGRAMS"])]
    for f in ("main.cc", "env.cc", "model.cc", "formats.cc", "world_thread.cc", "dispatch_thread.cc", "threads.cc"):
        units.append(Unit(sim(f), own))
    return compile_units("thread", units, ["-rdynamic", "-ldl", "-lpthread"])


BUILDERS = {"thread": build_thread, "disk": build_disk, "work": build_work}


if __name__ == "__main__":
    for n in BUILDERS:
        t = time.time()
        print(BUILDERS[n](), "%.1f s" % (time.time() - t))
