"""Builds the library (from the current tree of /repo) and the harness, one variant per sanitizer family.
Objects are cached by content hash under /verif/build (git-ignored)."""
import fcntl, glob, hashlib, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
BASE = ["-std=gnu99", "-g", "-fno-omit-frame-pointer", "-w", "-DC3_VERIF_MONITOR"]
VARIANTS = {
    "asan": dict(cc="clang", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                    "-fno-sanitize=nonnull-attribute,pointer-overflow", "-fsanitize=float-cast-overflow"]),
    "tsan": dict(cc="clang", flags=["-O1", "-fsanitize=thread"]),
    "plain": dict(cc="clang", flags=["-O1"]),
    "cov": dict(cc="clang", flags=["-O1", "-fprofile-instr-generate", "-fcoverage-mapping"]),
}


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    return sorted(p for p in glob.glob(REPO + "/c3/lib_*/*.c"))


def harness_sources():
    return sorted(glob.glob(VERIF + "/harness/*.c"))


def build(variant="asan", log=sys.stderr):
    """Returns the path of the harness binary."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, log)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(variant, log):
    v = VARIANTS[variant]
    tab = os.path.join(BUILD, "tables")
    gen = os.path.join(VERIF, "gen", "gen_tables.py")
    stamp = os.path.join(tab, "stamp")
    gh = _h(_read(gen))
    if not (os.path.exists(stamp) and _read(stamp).decode() == gh):
        os.makedirs(tab, exist_ok=True)
        subprocess.run([sys.executable, gen, tab], check=True, stdout=subprocess.DEVNULL)
        with open(stamp, "w") as f:
            f.write(gh)
    incdirs = [tab, VERIF + "/harness"] + sorted(glob.glob(REPO + "/c3/lib_*")) + [REPO + "/include", REPO + "/c3"]
    incs = ["-I" + d for d in incdirs if os.path.isdir(d)]
    libhdr = sorted(glob.glob(REPO + "/c3/lib_*/*.h") + glob.glob(REPO + "/include/*.h") + glob.glob(REPO + "/c3/*.h"))
    hh = _h(*[_read(p) for p in libhdr], *[os.path.relpath(p, REPO) for p in libhdr], gh)
    vhh = _h(*[_read(p) for p in sorted(glob.glob(VERIF + "/harness/*.h"))])
    odir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(odir, exist_ok=True)
    flags = BASE + v["flags"]
    jobs, objs, keys = [], [], []
    for src in lib_sources() + harness_sources():
        ish = src.startswith(VERIF)
        key = _h(_read(src), hh, vhh if ish else "", " ".join(flags), os.path.basename(src))
        o = os.path.join(odir, os.path.basename(src)[:-2] + "-" + key + ".o")
        objs.append(o)
        keys.append(key)
        if not os.path.exists(o):
            jobs.append((src, o))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        src, o = j
        tmp = "%s.%d.%d.tmp" % (o, os.getpid(), threading.get_ident())
        r = subprocess.run([v["cc"]] + flags + incs + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return "%s: %s" % (src, r.stderr[:3000])
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    exe = os.path.join(BUILD, "h-%s-%s" % (variant, _h(*keys)))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = subprocess.run([v["cc"]] + flags + objs + ["-o", tmp, "-Wl,--wrap=c3opt_minimize,--wrap=rand,--wrap=srand", "-llapack", "-lblas", "-lm", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stderr[:3000])
        os.replace(tmp, exe)
    live = set(objs)
    for o in glob.glob(odir + "/*.o"):      # drop stale objects and executables
        if o not in live:
            os.unlink(o)
    for e in glob.glob(BUILD + "/h-%s-*" % variant):
        if e != exe and not e.endswith(".tmp"):
            os.unlink(e)
    return exe


if __name__ == "__main__":
    for vname in sys.argv[1:] or ["asan"]:
        print(build(vname))
