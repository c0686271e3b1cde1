#!/usr/bin/env python3
"""Runner shared by all checks: builds monitored binaries from /repo's working tree, runs seeded
workloads under them, collects the monitors' verdicts, writes evidence.

usage: runner.py <PROPERTY-ID> [--tier quick|thorough]

Exit 0: held on everything explored (lines KNOWN-FINDING for listed findings).
Exit 1: at least one line `VIOLATION property=<id> replay=<path>`.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "vlib"))

CLANG = "clang++"
BASE = ["-std=c++17", "-g1", "-w", "-DCURRENT_CI", "-DCURRENT_VERIF_HOOKS", "-pthread", "-fno-omit-frame-pointer"]
UB = "signed-integer-overflow,shift,bounds,float-cast-overflow,integer-divide-by-zero,bool,return,unreachable"
WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
        "-Wl,--wrap=pthread_cond_clockwait", "-Wl,--wrap=pthread_cond_timedwait"]
SAN = {
    "asan": ["-O1", "-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=" + UB],
    "asan0": ["-O0", "-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=" + UB],
    "tsan": ["-O1", "-fsanitize=thread"],
    "tsan0": ["-O0", "-fsanitize=thread"],
    "plain": ["-O1"],
    "opt": ["-O2"],
}


class Job:
    """One (binary, mode) workload.  `shards` processes run it with distinct derived seeds."""

    def __init__(self, src, mode, san="asan", cases=100, thorough=None, shards=1, thorough_shards=None,
                 timeout=300, flags=(), wrap=True, args=(), env=None, as_nobody=False, compiler=None, tsan_extra=""):
        self.src, self.mode, self.san = src, mode, san
        self.cases = cases
        self.thorough = thorough if thorough is not None else cases * 12
        self.shards = shards
        self.thorough_shards = thorough_shards if thorough_shards is not None else shards * 2
        self.timeout = timeout
        self.flags = list(flags)
        self.wrap = wrap
        self.args = list(args)
        self.env = env or {}
        self.as_nobody = as_nobody
        self.tsan_extra = tsan_extra
        self.compiler = compiler or CLANG

    def bin_key(self):
        return (self.src, self.san, tuple(self.flags), self.wrap, self.compiler)


def have(x):
    return shutil.which(x) is not None


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        os.chmod(self.scratch, 0o755)
        self.violations = []       # (key, detail, replay dict)
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.notes = []
        self.lock = threading.Lock()
        self.log = os.environ.get("VERIF_VERBOSE")

    def add_violation(self, key, detail, replay):
        with self.lock:
            self.violations.append((key, detail, replay))


# ---------------------------------------------------------------- build

def build(ctx, job):
    name = "%s_%s_%s" % (os.path.basename(job.src).replace(".cc", ""), job.san,
                         hashlib.sha1(repr(job.bin_key()).encode()).hexdigest()[:8])
    out = os.path.join(ctx.scratch, name)
    comp = [job.compiler]
    env = dict(os.environ)
    cmdflags = BASE + SAN[job.san] + job.flags + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
    src = os.path.join(VERIF, "harness", job.src)
    obj = out + ".o"
    if have("ccache") and os.environ.get("VERIF_CCACHE", "1") == "1" and os.path.isdir(os.path.join(VERIF, ".cache")):
        env["CCACHE_DIR"] = os.path.join(VERIF, ".cache", "ccache")
        env["CCACHE_MAXSIZE"] = "3G"
        env["CCACHE_SLOPPINESS"] = "time_macros"
        comp = ["ccache"] + comp
    t0 = time.time()
    p = subprocess.run(comp + cmdflags + ["-c", src, "-o", obj], capture_output=True, text=True, env=env,
                       cwd=ctx.scratch)
    if p.returncode == 0:
        p = subprocess.run([job.compiler] + cmdflags + (WRAP if job.wrap else []) + [obj, "-o", out, "-ldl"],
                           capture_output=True, text=True, cwd=ctx.scratch)
    if p.returncode != 0:
        return None, (p.stdout + p.stderr)[-6000:]
    try:
        os.unlink(obj)
    except OSError:
        pass
    if ctx.log:
        print("  built %s in %.1fs" % (name, time.time() - t0), flush=True)
    return out, None


# ---------------------------------------------------------------- sanitizer report parsing

FRAME = re.compile(r"^\s*#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.*)$")


def clean_fn(line):
    m = FRAME.match(line)
    if not m:
        return None, None
    t = m.group(1)
    loc = None
    lm = re.search(r"(/[^\s:]+):(\d+)", t)
    if lm:
        loc = lm.group(1)
    fn = t
    if lm:
        fn = t[: lm.start()].strip()
    fn = re.sub(r"\(.*", "", fn)
    prev = None
    while prev != fn:
        prev = fn
        fn = re.sub(r"<[^<>]*>", "", fn)
    fn = fn.strip()
    if "::" in fn:
        fn = "::".join(fn.split("::")[-2:])
    return fn, loc


def repo_frames(lines, n=2):
    r = []
    for l in lines:
        fn, loc = clean_fn(l)
        if fn and loc and (loc.startswith(REPO + "/")) and fn not in r:
            r.append("%s@%s" % (fn, os.path.basename(loc)))
            if len(r) >= n:
                break
    return r


def parse_san(text):
    """Returns a list of (key, excerpt)."""
    out = []
    for blk in re.split(r"(?=WARNING: ThreadSanitizer)|(?==+\d*=*ERROR: (?:Address|Leak)Sanitizer)|(?=\n[^\n]*runtime error:)", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", blk)
        if m:
            kind = m.group(1).strip().replace(" ", "-")
            stacks, cur = [], None
            for l in blk.splitlines():
                if re.match(r"^\s{2}\S", l):
                    cur = []
                    stacks.append((l.strip(), cur))
                elif cur is not None and FRAME.match(l):
                    cur.append(l)
            tops = []
            for title, st in stacks[:2]:
                fr = repo_frames(st, 1)
                tops.append(fr[0] if fr else "?")
            out.append(("tsan:%s:%s" % (kind, "|".join(sorted(tops))), blk[:5000]))
            continue
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]+)", blk)
        if m:
            kind = m.group(2).split(" on ")[0].split(" (")[0].strip().split(":")[0].replace(" ", "-")
            fr = repo_frames(blk.splitlines(), 2)
            out.append(("asan:%s:%s" % (kind, "<-".join(fr) or "?"), blk[:6000]))
            continue
        m = re.search(r"([^\s]+):(\d+):\d+: runtime error: ([^\n]+)", blk)
        if m:
            msg = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))[:60]
            out.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), msg.replace(" ", "-")), blk[:4000]))
    return out


# ---------------------------------------------------------------- run one shard

def drop_to_nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def run_shard(ctx, job, binary, shard, attempt=0):
    seed = int(hashlib.sha256(("%d/%s/%s/%s/%d" % (ctx.seed, job.src, job.mode, job.san, shard)).encode()).hexdigest()[:15], 16)
    tag = "%s_%s_%s_%d_%d" % (job.src.replace(".cc", ""), job.mode, job.san, shard, attempt)
    d = os.path.join(ctx.scratch, tag)
    os.mkdir(d)
    if job.as_nobody:
        os.chmod(d, 0o777)
    outf = os.path.join(d, "out.jsonl")
    hashf = os.path.join(d, "hashes.bin")
    sdir = os.path.join(d, "s")
    os.mkdir(sdir)
    if job.as_nobody:
        os.chmod(sdir, 0o777)
    cases = job.thorough if ctx.tier == "thorough" else job.cases
    cmd = [binary, "--mode=" + job.mode, "--seed=%d" % seed, "--cases=%d" % cases, "--out=" + outf,
           "--hashes=" + hashf, "--scratch=" + sdir, "--tier=" + ctx.tier, "--shard=%d" % shard] + job.args
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:log_path=%s/san:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=6000" % d,
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78:log_path=%s/san" % d,
        "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:log_path=%s/san:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:report_signal_unsafe=0:suppressions=%s%s" % (d, os.path.join(VERIF, "vlib", "tsan.supp"), ":" + job.tsan_extra if job.tsan_extra else ""),
        "TMPDIR": sdir,
    })
    env.update(job.env)
    timeout = job.timeout * (6 if ctx.tier == "thorough" else 1)
    t0 = time.time()
    with open(os.path.join(d, "stdio"), "wb") as so:
        p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, env=env, cwd=sdir, start_new_session=True,
                             stdin=subprocess.DEVNULL, preexec_fn=drop_to_nobody if job.as_nobody else None)
        try:
            rc = p.wait(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    wall = time.time() - t0
    stdio = open(os.path.join(d, "stdio"), "rb").read()[-8000:].decode("utf-8", "replace")
    replay = {"cmd": cmd, "src": job.src, "san": job.san, "mode": job.mode, "seed": seed, "cases": cases,
              "flags": job.flags, "wall_s": round(wall, 2)}
    done = False
    progress = ""
    got_violation = False
    if os.path.exists(outf):
        for line in open(outf, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            t = r.get("t")
            if t == "violation":
                ctx.add_violation(r["key"], r.get("detail", ""), dict(replay, case=r.get("case")))
                got_violation = True
            elif t == "count":
                with ctx.lock:
                    ctx.counters[r["k"]] = ctx.counters.get(r["k"], 0) + r["n"]
            elif t == "sample":
                with ctx.lock:
                    if len(ctx.samples) < 12:
                        ctx.samples.append("[%s/%s] %s" % (job.mode, job.san, r["v"]))
            elif t == "case":
                progress = r.get("v", "")
            elif t == "done":
                done = True
    if os.path.exists(hashf):
        b = open(hashf, "rb").read()
        hs = struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8])
        salt = hashlib.sha1((job.src + job.mode).encode()).hexdigest()[:6]
        with ctx.lock:
            ctx.distinct.update((salt, h) for h in hs)
    for f in sorted(glob.glob(os.path.join(d, "san*"))):
        for key, ex in parse_san(open(f, errors="replace").read()):
            ctx.add_violation(key, ex, dict(replay, case=progress))
            got_violation = True
    if hung:
        if attempt == 0 and not got_violation:
            with ctx.lock:
                ctx.notes.append("timeout after %ds, retried: %s" % (timeout, tag))
            shutil.rmtree(d, ignore_errors=True)
            return run_shard(ctx, job, binary, shard, 1)
        if not got_violation:
            ctx.add_violation("hang:%s" % job.mode, "no progress within %ds, twice; last case: %s\n%s" % (timeout, progress, stdio[-1500:]), replay)
    elif not done and not got_violation:
        if rc is not None and rc < 0 and -rc == signal.SIGKILL and attempt == 0:
            # Ended from outside (memory guard): inconclusive, retry once.
            with ctx.lock:
                ctx.notes.append("killed, retried: " + tag)
            return run_shard(ctx, job, binary, shard, 1)
        what = "signal-%d" % -rc if (rc or 0) < 0 else "exit-%s" % rc
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", stdio) or re.search(r"terminating due to uncaught exception of type (\S+)", stdio)
        if m:
            what = "uncaught-" + m.group(1)
        ctx.add_violation("crash:%s:%s" % (job.mode, what), "case=%s\n%s" % (progress, stdio[-3000:]), replay)
    if ctx.log:
        print("  ran %s in %.1fs rc=%s done=%s" % (tag, wall, rc, done), flush=True)
        if ctx.log == "2":
            print(stdio[-3000:])
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- known findings

def load_known():
    known = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^finding: property=(\S+) key=(\S+) :: (.*)$", line.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import registry
    spec = registry.CHECKS[pid]
    jobs = spec["jobs"]
    if only:
        jobs = [j for j in jobs if only in (j.mode + "/" + j.san)]
    ctx = Ctx(pid, tier, seed)
    t0 = time.time()
    if have("ccache") and os.environ.get("VERIF_DEV"):
        os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    broken = []
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            bins, futs = {}, []
            for j in jobs:
                k = j.bin_key()
                if k not in bins:
                    bins[k] = ex.submit(build, ctx, j)
            pending = {bins[k]: k for k in bins}
            for f in cf.as_completed(list(pending)):
                binary, err = f.result()
                for j in jobs:
                    if j.bin_key() == pending[f]:
                        if err:
                            broken.append((j.src, err))
                            break
                        n = j.thorough_shards if tier == "thorough" else j.shards
                        for s in range(n):
                            futs.append(ex.submit(run_shard, ctx, j, binary, s))
            for f in futs:
                f.result()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)

    for src, err in broken:
        # The monitored program no longer builds against the public API of the tree under test.
        ctx.add_violation("build:%s" % src, err, {"src": src})

    evaluations = ctx.counters.get("evaluations", 0)
    if not broken and not ctx.violations and (evaluations == 0 or not ctx.distinct):
        ctx.add_violation("observed-nothing", "the monitors observed no events", {})

    known = [k for k in load_known() if k[0] == pid]
    hit, fresh = {}, {}
    for key, detail, replay in ctx.violations:
        for _, pat, desc in known:
            if re.fullmatch(pat, key):
                hit[pat] = (desc, key)
                break
        else:
            fresh.setdefault(key, (detail, replay))

    wall = time.time() - t0
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(ctx.distinct),
            "rule": spec["rule"],
            "samples": ctx.samples[:12] or ["(no sample: run stopped by a violation)"],
            "observed": {k: v for k, v in sorted(ctx.counters.items()) if k != "evaluations"},
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    if ctx.notes:
        evid["coverage"]["inconclusive_retries"] = ctx.notes[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)

    for pat, (desc, key) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (key, (detail, replay)) in enumerate(sorted(fresh.items())):
            rp = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, i))
            with open(rp, "w") as f:
                json.dump({"property": pid, "key": key, "detail": detail, "replay": replay, "seed": seed, "tier": tier}, f, indent=1)
            if i < 10:
                print("  %s :: %s" % (key, detail.strip()[:600].replace("\n", "\n    ")))
                print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        sys.exit(1)
    print("%s OK: %d evaluations, %d distinct non-trivial, %.1fs; %s" % (
        pid, evaluations, len(ctx.distinct), wall,
        ", ".join("%s=%d" % kv for kv in sorted(ctx.counters.items()) if kv[0] != "evaluations")[:800]))
    sys.exit(0)


if __name__ == "__main__":
    main()
