#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Objects are cached by the hash of their preprocessed text and flags, so a
change in /repo is always picked up, whatever its time stamps, and an
unchanged file costs one preprocessor run."""
import fcntl, hashlib, json, os, shlex, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "_build")
REPO = os.environ.get("SIM_REPO", "/repo")

WRAP = """malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf getline getdelim posix_memalign aligned_alloc
fopen fopen64 fclose freopen fdopen tmpfile
fileno open open64 creat close read write writev lseek lseek64 fsync fdatasync rename
time gettimeofday clock_gettime clock getenv secure_getenv
exit _exit _Exit abort quick_exit __assert_fail __assert_perror_fail
rand srand random srandom rand_r drand48 lrand48 getrandom getpid
setlocale pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort""".split()

# string and formatting functions that are switch points in flavour t
POINTS = """sprintf snprintf vsprintf vsnprintf strcpy strncpy strcat strncat strlen strcmp strncmp strcasecmp strchr strrchr strtok
memcpy memmove memset memcmp fputs fputc fprintf vfprintf fwrite atoi atof strtol strtod sscanf qsort""".split()
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-fno-builtin-malloc"]
FLAVOURS = {
    # memory-checked build; automatic variables start as 0xFE...
    "a": {"c": ["-fsanitize=address", "-ftrivial-auto-var-init=pattern"], "ld": ["-fsanitize=address"]},
    # fast build; automatic variables start as zero
    "z": {"c": ["-ftrivial-auto-var-init=zero"], "ld": []},
    # fast build; pattern-initialised (differs from "z" only in stack residue)
    "p": {"c": ["-ftrivial-auto-var-init=pattern"], "ld": []},
    # for interleavings: the code under test also tells of its memory accesses
    # (-fsanitize=thread without its run-time library) and of its C library calls
    "t": {"c": ["-ftrivial-auto-var-init=zero"], "ld": ["-Wl,--wrap=" + w for w in POINTS],
          "lib": ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-fno-builtin", "-DSIM_ACCESS"], "sim": ["-DSIM_ACCESS"]},
}
INSTR = ["-fsanitize-coverage=trace-pc"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def fail(msg):
    sys.stderr.write(msg + "\n")
    sys.exit(3)

def configure():
    cfg = os.path.join(BUILD, "cfg-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
        env.pop(k, None)
    r = sh(["cmake", "-S", os.path.join(HERE, "cmake"), "-B", cfg, "-G", "Ninja", "-DREPO=" + REPO,
            "-DCMAKE_DISABLE_FIND_PACKAGE_ImageMagick=ON", "-DCMAKE_BUILD_TYPE=None",
            "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++"], env=env)
    if r.returncode:
        fail("cmake configure failed:\n" + r.stdout.decode())
    return cfg, json.load(open(os.path.join(cfg, "compile_commands.json")))

def split(entry):
    argv = shlex.split(entry["command"])
    comp, rest, out, i = argv[0], [], None, 1
    while i < len(argv):
        a = argv[i]
        if a == "-o":
            out = argv[i + 1]; i += 2; continue
        if a == "-c":
            i += 2; continue
        if a.startswith("-O") or a == "-g":
            i += 1; continue
        rest.append(a); i += 1
    return comp, rest, entry["file"], out

def units():
    cfg, cc = configure()
    res = []
    for e in cc:
        comp, flags, src, out = split(e)
        if "libautotrace.dir" in out or "autotraceCppLib.dir" in out:
            res.append((comp, flags + INSTR, src, cfg))
        elif "/autotrace.dir" in out or out.startswith("autotrace.dir"):
            res.append((comp, flags + INSTR + ["-Dmain=autotrace_cli_main"], src, cfg))
        elif "json11.dir" in out:
            res.append((comp, flags, src, cfg))
    # the simulator itself: include paths of the wrapper, no instrumentation
    winc = [f for (c, fl, s, _) in res if "/wrapper/" in s for f in fl if f.startswith(("-I", "-D"))]
    inc = []
    for f in winc:
        if f not in inc:
            inc.append(f)
    # the buffer interface: the wrapper's program, seen as a library
    res.append(("/usr/bin/g++", inc + ["-std=c++17", "-include", "stdexcept", '-DASSET_PATH=""', "-DBUFFER_SOURCE=" + '"' + REPO + '/src/wrapper/autotraceMain.cpp"'] + INSTR, os.path.join(HERE, "shim", "buffer.cpp"), cfg))
    for s in sorted(os.listdir(HERE)):
        if s.endswith(".cpp"):
            res.append(("/usr/bin/g++", inc + ["-std=c++17"], os.path.join(HERE, s), cfg))
    return res

def compile_one(job):
    comp, flags, src, cwd, fl = job
    cf = flags + COMMON + FLAVOURS[fl]["c"] + FLAVOURS[fl].get("lib" if INSTR[0] in flags else "sim", [])
    pp = subprocess.run([comp] + cf + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd)
    if pp.returncode:
        return None, pp.stderr.decode()
    h = hashlib.sha256(("\0".join([comp] + cf + [src]) + "\0").encode() + pp.stdout).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", h + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([comp] + cf + ["-c", src, "-o", tmp], cwd=cwd)
        if r.returncode:
            return None, r.stdout.decode()
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj, ""

def build(flavours):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        us = units()
        bins = {}
        jobs = [u + (f,) for f in flavours for u in us]
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            objs = list(ex.map(compile_one, jobs))
        for j, (o, err) in zip(jobs, objs):
            if o is None:
                fail("cannot compile %s:\n%s" % (j[2], err))
        for f in flavours:
            mine = [o for j, (o, _) in zip(jobs, objs) if j[-1] == f]
            key = hashlib.sha256(("\0".join(mine) + repr(WRAP) + repr(FLAVOURS[f]["ld"])).encode()).hexdigest()[:20]
            out = os.path.join(BUILD, "sim-%s-%s" % (f, key))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                r = sh(["/usr/bin/g++"] + FLAVOURS[f]["ld"] + ["-no-pie", "-static-libstdc++", "-o", tmp] + mine +
                       ["-Wl,--wrap=" + w for w in WRAP] +
                       ["/usr/lib/x86_64-linux-gnu/libpng16.a", "/usr/lib/x86_64-linux-gnu/libz.a", "-lpthread", "-lm"])
                if r.returncode:
                    fail("link failed:\n" + r.stdout.decode()[-4000:])
                os.replace(tmp, out)
            bins[f] = out
            # keep the directory small: the newest few binaries per flavour
            old = sorted((p for p in os.listdir(BUILD) if p.startswith("sim-%s-" % f) and not p.endswith(".tmp")),
                         key=lambda p: os.stat(os.path.join(BUILD, p)).st_mtime)
            for p in old[:-6]:
                if os.path.join(BUILD, p) != out:
                    os.unlink(os.path.join(BUILD, p))
        objd = os.path.join(BUILD, "obj")
        old = sorted(os.listdir(objd), key=lambda p: os.stat(os.path.join(objd, p)).st_mtime)
        for p in old[:-3000]:
            os.unlink(os.path.join(objd, p))
        for lang, cset in (("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9")):
            loc = os.path.join(BUILD, "locale", lang + "." + cset)
            if not os.path.exists(os.path.join(loc, "LC_NUMERIC")):
                os.makedirs(os.path.dirname(loc), exist_ok=True)
                sh(["localedef", "-i", lang, "-f", cset, loc])
        return bins

if __name__ == "__main__":
    fl = sys.argv[1:] or list(FLAVOURS)
    for k, v in build(fl).items():
        print(k, v)
