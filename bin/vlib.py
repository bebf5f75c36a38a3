"""Shared machinery: build drivers from /repo's working tree, record traces,
validate them with TLC, write evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery could not decide (exit 2)."""


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build ----
CXX = "g++"
CXXFLAGS = ("-std=c++17 -O1 -g0 -w -fno-strict-aliasing -msse4.2 -maes -mpclmul "
            "-DPSI_VERIF_HOOKS -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -fopenmp -ffunction-sections -fdata-sections")
LIBS = ("-lprotobuf -lspdlog -lfmt -lcrypto -lssl -lgmp -lpthread -lstdc++fs -lgomp -ldl")


def build(target, spec):
    """spec: dict(driver=[...verif sources], repo=[...repo sources], protos=[...], flags, pre_inc)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(target, spec)
    finally:
        lock.close()


def _build(target, spec):
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    flags = CXXFLAGS + " " + spec.get("flags", "")
    pre = spec.get("pre_inc", [])  # include dirs searched before /repo
    inc = ["-I" + os.path.join(VERIF, p) for p in pre]
    inc += ["-I" + os.path.join(VERIF, "harness/shim"), "-I" + os.path.join(VERIF, "harness/common"),
            "-I" + gen, "-I" + REPO]
    key = hashlib.sha1((flags + "|".join(inc)).encode()).hexdigest()[:8]
    odir = os.path.join(BUILD, "obj-" + key)
    os.makedirs(odir, exist_ok=True)
    L = ["ninja_required_version = 1.5",
         "rule cxx\n  command = %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" %
         (CXX, flags, " ".join(inc)),
         "rule protoc\n  command = protoc -I%s -I%s --cpp_out=%s $in\n  restat = 1" % (REPO, os.path.join(VERIF, "harness/shim"), gen),
         "rule link\n  command = %s -fopenmp -Wl,--gc-sections $in -o $out %s %s" %
         (CXX, spec.get("libs", ""), LIBS)]
    objs, pbh = [], []
    stands = spec.get("shim_protos", [])  # of libraries that are not here
    for p in spec.get("protos", []) + stands:
        base = p[:-len(".proto")]
        cc, h = (os.path.join(gen, base + e) for e in (".pb.cc", ".pb.h"))
        L.append("build %s %s: protoc %s" % (cc, h, os.path.join(VERIF, "harness/shim", p) if p in stands else os.path.join(REPO, p)))
        pbh.append(h)
    for p in spec.get("protos", []) + stands:
        base = p[:-len(".proto")]
        o = os.path.join(odir, "gen", base + ".pb.o")
        L.append("build %s: cxx %s || %s" % (o, os.path.join(gen, base + ".pb.cc"), " ".join(pbh)))
        objs.append(o)
    for s in spec.get("repo", []):
        o = os.path.join(odir, "repo", s + ".o")
        L.append("build %s: cxx %s || %s" % (o, os.path.join(REPO, s), " ".join(pbh)))
        objs.append(o)
    for s in spec.get("driver", []):
        o = os.path.join(odir, "verif", s + ".o")
        L.append("build %s: cxx %s || %s" % (o, os.path.join(VERIF, s), " ".join(pbh)))
        objs.append(o)
    exe = os.path.join(BUILD, "bin", target)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    L.append("build %s: link %s" % (exe, " ".join(objs)))
    L.append("default %s" % exe)
    nf = os.path.join(BUILD, "build-%s.ninja" % target)
    text = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    t0 = time.time()
    r = subprocess.run(["ninja", "-C", BUILD, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise CheckError("build of %s failed" % target)
    log("built %s in %.1fs" % (target, time.time() - t0))
    return exe


# -------------------------------------------------------------- drivers ----
CASE_TIMEOUT = 60
SLOW = 18          # seconds; ordinary cases take milliseconds
SLOW_TOTAL = 90    # a shard that spent this long in slow cases stops: what it has is judged


def limits():
    # code that runs away must not take the sandbox with it
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(exe, args, out, env=None, budget=600, only=None, shards=1):
    """Runs the driver as `shards` processes that share the cases; see _run_driver."""
    if shards <= 1:
        return _run_driver(exe, args, out, env, budget, only)
    import concurrent.futures as cf
    parts = ["%s.s%d" % (out, k) for k in range(shards)]
    with cf.ThreadPoolExecutor(shards) as ex:
        fs = [ex.submit(_run_driver, exe, args + ["--shard", "%d/%d" % (k, shards)], parts[k], env, budget, only)
              for k in range(shards)]
        short = any([f.result() for f in fs])
    lines = []
    for f in parts:
        lines += whole_lines(f)
        os.unlink(f)
    lines.sort(key=lambda x: json.loads(x)["i"])
    open(out, "w").write("".join(x + "\n" for x in lines))
    return short


def keep_whole(f):
    ls = whole_lines(f)
    open(f, "w").write("".join(x + "\n" for x in ls))


def whole_lines(f):
    r = []
    for x in open(f):
        try:
            json.loads(x)
            r.append(x.rstrip("\n"))
        except ValueError:
            pass
    return r


def _run_driver(exe, args, out, env=None, budget=600, only=None):
    """The driver protocol: `exe OUT START [ONLY] args...` appends one JSON line per case to OUT and
    prints 'CASE i' before and 'END i' after each; 'ALLDONE' at the end. A crash or a hang of the code
    under test becomes a case whose only event is Crash/Hang, and the driver is restarted after it.
    Returns True when not every case was run (too many crashes, too slow)."""
    if os.path.exists(out):
        os.unlink(out)
    open(out, "w").close()
    start = 0
    crashes = 0
    slow = 0
    t_end = time.time() + budget
    while True:
        e = dict(os.environ)
        e.update(env or {})
        cmd = [exe, "--out", out, "--start", str(start)] + (["--only", ",".join(map(str, only))] if only is not None else []) + args
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None,
                             text=True, env=e, start_new_session=True, preexec_fn=limits)
        cur, key, done, last = None, "", False, time.time()
        import selectors
        sel = selectors.DefaultSelector()
        fd = p.stdout.fileno()
        os.set_blocking(fd, False)
        sel.register(fd, selectors.EVENT_READ)
        buf = b""
        hang = False
        while True:
            if sel.select(timeout=1):
                chunk = os.read(fd, 65536)
                if not chunk:
                    break
                last = time.time()
                buf += chunk
                while b"\n" in buf:
                    line, buf = buf.split(b"\n", 1)
                    line = line.decode("utf8", "replace")
                    if line.startswith("CASE "):
                        _, i, key = (line.split(" ", 2) + [""])[:3]
                        cur = int(i)
                        began = time.time()
                    elif line.startswith("END "):
                        cur = None
                        if time.time() - began > SLOW:
                            slow += time.time() - began
                    elif line == "ALLDONE":
                        done = True
            if done:
                break
            if time.time() - last > CASE_TIMEOUT:
                hang = True
                break
            if time.time() > t_end or (slow > SLOW_TOTAL and not only):
                kill(p)
                p.wait()
                log("driver %s stopped before the end: %s" % (exe, "too many slow cases" if slow > SLOW_TOTAL else "out of its time budget"))
                return True
        kill(p) if (hang or done) else None
        p.wait()
        kill(p)
        if done:
            return False
        if cur is None:
            raise CheckError("driver %s ended outside a case, rc=%s" % (exe, p.returncode))
        crashes += 1
        if hang:
            slow += CASE_TIMEOUT
        with open(out, "a") as f:
            f.write(json.dumps({"i": cur, "key": key, "in": {"none": 0}, "ev": [
                {"e": "Hang" if hang else "Crash", "rc": p.returncode or 0}]}) + "\n")
        if crashes >= 6:
            log("too many crashes; giving up on the remaining cases")
            return True
        start = cur + 1


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


# ------------------------------------------------------------------ TLC ----
def tlc(module, cfg, env=None, timeout=600, workers="auto", extra=(), heap="3g", scratch=None):
    md = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), int(time.time() * 1e6) % 10**9))
    os.makedirs(md, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp", JAR, "tlc2.TLC",
           "-metadir", md, "-workers", str(workers), "-config", cfg, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
        for f in glob.glob(os.path.join(SPECS, "*_TTrace_*")):
            os.unlink(f)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    st = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return r.returncode, r.stdout, st


def model_check(module, cfg, timeout=600, **kw):
    rc, out, st = tlc(module, cfg, timeout=timeout, **kw)
    if rc != 0 or "Model checking completed. No error" not in out:
        if not os.environ.get("VERIF_QUIET"):
            sys.stderr.write(out[-5000:])
        raise CheckError("the model %s/%s itself fails" % (module, cfg))
    log("model %s/%s: %d states generated, %d distinct" % (module, cfg, st[0], st[1]))
    return st


def validate(module, trace, cfg=None, timeout=700, workers="auto", env=None):
    """Returns (set of rejected case positions (1-based), stats)."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise CheckError("empty trace file " + trace)
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out, st = tlc(module, cfg or "Trace.cfg", env=e, timeout=timeout, workers=workers)
    if "Model checking completed. No error" not in out:
        sys.stderr.write(out[-5000:])
        raise CheckError("TLC failed while validating %s with %s" % (trace, module))
    acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
    return set(range(1, n + 1)) - acc, st


def longest_prefix(module, trace, cfg=None):
    rc, out, st = tlc(module, cfg or "Trace.cfg", env={"TRACE": trace, "VERBOSE": "1"}, timeout=300, workers=1)
    ls = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)]
    return max(ls) if ls else 0


# ------------------------------------------------------------- findings ----
def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]
