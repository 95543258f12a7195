#!/usr/bin/env python3
"""Driver of every property check in /verif.

usage: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N]

Builds the property's harness from /repo's working tree (sources are taken from
/repo/include; nothing is written there), runs generated cases in parallel child
processes over several build flavours, and on a failure re-runs the case three
times, shrinks it and writes a replay file.  Exit 0: held on everything
explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, FLAVORS, CLANG  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def log(*a):
    print(*a, flush=True)


def tree_hash(paths, extra):
    h = hashlib.sha256()
    h.update(extra.encode())
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode())
            h.update(open(root, "rb").read())
            continue
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def compile_one(args):
    cmd, out = args
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, out, time.time() - t


def build(prop, spec, flavors):
    """Compile all parts of all flavours in parallel; returns {flavor: binary}.
    A flavour clang refuses to compile is compiled with gcc: the library is what gcc accepts."""
    bins, broken = build_with(prop, spec, flavors, False)
    if broken:
        log("note: clang refuses %s; compiled with gcc" % " ".join(broken))
        again, broken = build_with(prop, spec, broken, True)
        bins.update(again)
    if broken:
        log("ERROR: harness for %s does not compile against %s" % (prop, REPO))
        sys.exit(2)
    return bins


def build_with(prop, spec, flavors, gcc):
    bins, compile_jobs, link_jobs = {}, [], []
    inc = os.path.join(REPO, "include")
    for fl in flavors:
        f = FLAVORS[fl]
        cxx = GCC_BIN if gcc else f["cxx"]
        own = [x.replace("-fno-sanitize=vptr,function", "-fno-sanitize=vptr") if gcc else x for x in f["flags"]]
        parts = spec.get("flavor_parts", {}).get(fl, spec.get("parts", [0]))
        # a program of the repository, compiled with stand-ins for what it links to
        tool = [os.path.join(REPO, "src")] if spec.get("tool") else []
        flags = own + spec.get("defs", []) + ["-I" + inc, "-I" + os.path.join(VERIF, "harness")]
        if cxx == CLANG:
            flags = flags + ["-Wno-c++11-narrowing"]
        if tool:
            flags = flags + ["-I" + tool[0], "-I" + os.path.join(VERIF, "harness", "stub")]
        key = tree_hash([inc, os.path.join(VERIF, "harness")] + tool,
                        " ".join([cxx] + flags + [spec["src"]] + spec.get("link", []) + [str(parts)]))
        d = os.path.join(BUILD, key)
        binp = os.path.join(d, "harness")
        bins[fl] = binp
        if os.path.exists(binp):
            continue
        os.makedirs(d, exist_ok=True)
        objs = []
        for p in parts:
            obj = os.path.join(d, "part%d.o" % p)
            objs.append(obj)
            cmd = [cxx, "-std=c++23"] + flags + ["-DPART=%d" % p, "-c",
                   os.path.join(VERIF, "harness", spec["src"]), "-o", obj]
            compile_jobs.append((f.get("cost", 1), (cmd, fl)))
        link_jobs.append((fl, ([cxx] + own + objs + spec.get("link", []) + ["-o", binp + ".tmp"], binp)))
    compile_jobs.sort(key=lambda x: -x[0])
    t0 = time.time()
    broken = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, out, fl, dt in ex.map(compile_one, [j for _, j in compile_jobs]):
            if rc != 0 and fl not in broken:
                log(out[-6000:])
                if gcc or FLAVORS[fl]["cxx"] != CLANG:
                    log("ERROR: harness for %s does not compile against %s" % (prop, REPO))
                    sys.exit(2)
                broken.append(fl)
        for rc, out, b, dt in ex.map(compile_one, [j for fl, j in link_jobs if fl not in broken]):
            if rc != 0:
                log(out[-4000:])
                log("ERROR: link failed")
                sys.exit(2)
            os.rename(b + ".tmp", b)
            for o in os.listdir(os.path.dirname(b)):
                if o.endswith(".o"):
                    os.unlink(os.path.join(os.path.dirname(b), o))
    if compile_jobs:
        log("built %d objects in %.1fs" % (len(compile_jobs), time.time() - t0))
    return {fl: b for fl, b in bins.items() if fl not in broken}, broken


def compile_probes(prop, spec):
    """Sources that must compile and run; the CONTROL variant tells a broken
    property from a broken probe.  Returns (source, output) of a broken one."""
    for src in spec.get("probes", []) if not os.environ.get("VERIF_NOPROBE") else []:
        path = os.path.join(VERIF, "harness", src)
        d = os.path.join(BUILD, "probe-%s-%d" % (prop, os.getpid()))
        os.makedirs(d, exist_ok=True)
        res = []
        for control in (True, False):
            exe = os.path.join(d, "probe")
            r = subprocess.run([GCC_BIN, "-std=c++23", "-O1", "-I" + os.path.join(REPO, "include")] +
                               (["-DCONTROL"] if control else []) + [path, "-o", exe],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out, ok = r.stdout, r.returncode == 0
            if ok:
                r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                ok = r.returncode == 0
                out += r.stdout + "\nexit code %d" % r.returncode
            res.append((ok, out))
        shutil.rmtree(d, ignore_errors=True)
        if res[0][0] and not res[1][0]:
            return path, res[1][1]
        if not res[0][0]:
            log("note: probe %s not applicable (its control fails too)" % src)
    return None


GCC_BIN = "/usr/bin/g++-14"


def child_env(fl):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/tmp", "LC_ALL": "C",
         "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:hard_rss_limit_mb=7000:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=0:symbolize=%s" % os.environ.get("VERIF_SYMBOLIZE", "0"),
         "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0:symbolize=%s" % os.environ.get("VERIF_SYMBOLIZE", "0"),
         "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0"}
    if os.environ.get("VERIF_SYMBOLIZE"):
        e["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18"
    e.update(FLAVORS[fl].get("env", {}))
    return e


AS_GB = 12  # address space of a harness without sanitizer


def limits(fl):
    def f():
        os.setsid()
        if not FLAVORS[fl].get("asan"):
            resource.setrlimit(resource.RLIMIT_AS, (AS_GB << 30, AS_GB << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Runner:
    def __init__(self, binary, flavor, extra=(), tries=1):
        self.bin, self.fl, self.extra, self.tries = binary, flavor, list(extra), tries

    def replay(self, path, cpu=60):
        """(failed or None, output); where the schedule matters, the first failure in several tries counts."""
        for _ in range(self.tries):
            bad, out = self.replay_once(path, cpu)
            if bad:
                break
        return bad, out

    def replay_once(self, path, cpu):
        try:
            r = subprocess.run([self.bin, "replay", "--file", path, "--cpu", str(cpu)] + self.extra,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(self.fl),
                               preexec_fn=limits(self.fl), timeout=600)
        except subprocess.TimeoutExpired:
            return None, "wall-clock timeout (inconclusive)"
        out = r.stdout.decode(errors="replace")
        if r.returncode == 64:
            return None, out
        return r.returncode != 0, out

    def dump(self, seed, idx):
        return subprocess.run([self.bin, "dump", "--seed", str(seed), "--idx", str(idx)] + self.extra,
                              stdout=subprocess.PIPE, env=child_env(self.fl), check=True).stdout.decode()


def summarize(out, rc=None):
    m = re.findall(r"^FAIL[^\n]*", out, re.M)
    if m:
        return m[-1][:400]
    m = re.findall(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error:[^\n]*|Assertion [^\n]*|terminate called[^\n]*|what\(\)[^\n]*)", out)
    if m:
        return " | ".join(m)[:400]
    lines = [l for l in out.strip().splitlines() if l.strip()]
    return ("crash rc=%s %s" % (rc, lines[-1] if lines else ""))[:400]


def parse_case(text):
    head, ops = [], []
    for l in text.splitlines():
        (ops if l.startswith("op ") else head).append(l)
    return head, ops


def shrink(runner, text, scratch, budget_s, cpu):
    """ddmin over the op list, then numeric shrinking of op arguments/params."""
    deadline = time.time() + budget_s
    counter = [0]
    lock = threading.Lock()

    def failing(head, ops):
        if time.time() > deadline:
            return False
        with lock:
            counter[0] += 1
            n = counter[0]
        p = os.path.join(scratch, "s%d.case" % n)
        with open(p, "w") as f:
            f.write("\n".join(head + ops) + "\n")
        bad, _ = runner.replay(p, cpu)
        os.unlink(p)
        return bool(bad)

    head, ops = parse_case(text)
    ex = cf.ThreadPoolExecutor(JOBS)

    def first_failing(cands):
        """First candidate (in order) that fails, evaluated in parallel batches."""
        for i in range(0, len(cands), JOBS):
            if time.time() > deadline:
                return None
            batch = cands[i:i + JOBS]
            for c, bad in zip(batch, ex.map(lambda c: failing(*c), batch)):
                if bad:
                    return c
        return None

    n = 2
    # cut the tail first
    lo, hi = 0, len(ops)
    cands = [(head, ops[:len(ops) * k // 16]) for k in range(0, 16)]
    c = first_failing(cands)
    if c:
        ops = c[1]
    while len(ops) >= 1 and time.time() < deadline:
        size = max(1, len(ops) // n)
        chunks = [(i, min(i + size, len(ops))) for i in range(0, len(ops), size)]
        c = first_failing([(head, ops[:a] + ops[b:]) for a, b in chunks])
        if c:
            ops = c[1]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)

    def nums(line):
        return line.split()

    changed = True
    rounds = 0
    while changed and rounds < 4 and time.time() < deadline:
        changed = False
        rounds += 1
        for i in range(len(ops)):
            parts = ops[i].split()
            for j in range(2, len(parts)):
                v = int(parts[j])
                if v == 0:
                    continue
                cands = []
                for nv in [0, 1, v // 2, v - (1 if v > 0 else -1), abs(v)]:
                    if nv != v and abs(nv) <= abs(v):
                        q = parts[:]
                        q[j] = str(nv)
                        cands.append((head, ops[:i] + [" ".join(q)] + ops[i + 1:]))
                c = first_failing(cands)
                if c:
                    ops = c[1]
                    parts = ops[i].split()
                    changed = True
                if time.time() > deadline:
                    break
        for hi_ in range(len(head)):
            if head[hi_].startswith("params "):
                parts = head[hi_].split()
                for j in range(1, len(parts)):
                    v = int(parts[j])
                    for nv in (0, v // 2):
                        if nv == v:
                            continue
                        q = parts[:]
                        q[j] = str(nv)
                        h2 = head[:hi_] + [" ".join(q)] + head[hi_ + 1:]
                        if failing(h2, ops):
                            head, parts, changed = h2, q, True
                            break
    ex.shutdown()
    return "\n".join(head + ops) + "\n", counter[0]


def load_known(prop):
    """known_findings.txt: lines 'finding: property=<id> case=<sha> <what>' / 'fixed: ...'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) file=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def write_evidence(prop, spec, tier, seed, t0, cov, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def save_replay(prop, flavor, seed, text, msg, name):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("# property=%s flavor=%s seed=%s\n" % (prop, flavor, seed))
        for l in msg.splitlines()[:6]:
            f.write("# %s\n" % l)
        f.write("# replay: python3 /verif/bin/check.py %s --replay %s\n" % (prop, p))
        f.write(text)
    return p


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--seed":
            seed = int(a.pop(0))
        elif k == "--replay":
            replay = a.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[prop]
    global AS_GB
    AS_GB = spec.get("as_gb", AS_GB)
    if "script" in spec:  # python-level checks (benchmark script)
        env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed))
        os.execvpe(spec["script"][0], spec["script"] + [prop] + (["--replay", replay] if replay else []), env)
    t0 = time.time()
    if replay and replay.endswith(".cpp"):
        broken = compile_probes(prop, spec)
        if broken:
            log(broken[1][-2000:])
            log("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1 if broken else 0
    plan = spec["cases"][tier]  # flavor -> number of cases
    only = os.environ.get("VERIF_FLAVORS")  # development aid
    if only:
        plan = {k: v for k, v in plan.items() if k in only.split(",")}
    if replay:
        txt = open(replay).read()
        m = re.search(r"flavor=(\S+)", txt)
        fls = [m.group(1)] if m and m.group(1) in FLAVORS else list(plan)
        bins = build(prop, spec, fls)
        bad_any = False
        for fl in fls:
            rm = re.search(r"^range seed=(\d+) from=(\d+) to=(\d+) step=(\d+)", txt, re.M)
            if rm:
                cmd = [bins[fl], "run", "--seed", rm.group(1), "--from", rm.group(2), "--to", rm.group(3),
                       "--step", rm.group(4), "--stats", "/dev/null"] + spec.get("args", [])
                r = subprocess.run(cmd, env=child_env(fl), preexec_fn=limits(fl))
                bad = r.returncode != 0
                out = ""
            else:
                bad, out = Runner(bins[fl], fl, spec.get("args", []), spec.get("tries", 1)).replay(replay)
            log("[%s] %s" % (fl, out.strip()[-3000:]))
            bad_any |= bool(bad)
        if bad_any:
            log("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0

    flavors = list(plan)
    broken = compile_probes(prop, spec)
    if broken:
        path, out = broken
        cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": spec["rule"],
               "samples": [open(path).read()], "compile_probe": out[-2000:]}
        write_evidence(prop, spec, tier, seed, t0, cov, 1)
        log(out[-2000:])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bins = build(prop, spec, flavors)
    t_built = time.time()
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cpu = spec.get("cpu", 60)
    extra = spec.get("args", [])
    max_s = spec.get("max_seconds", {"quick": 90, "thorough": 3000})[tier]
    jobs = []
    per = JOBS if tier == "quick" else JOBS * 2
    for fi, fl in enumerate(flavors):
        n = plan[fl]
        # every flavour explores its own part of the case space
        fseed = seed * 1000 + FLAVORS[fl]["salt"]
        for j in range(per):
            jobs.append((fl, fseed, j, n, per))
    failure = {}
    stop = threading.Event()
    procs = set()
    plock = threading.Lock()
    stats = []

    # saved regression cases first
    cdir = os.path.join(VERIF, "corpus", prop)
    corpus = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
    known_files = {f for f, _ in load_known(prop)}
    corpus_runs = 0

    def run_corpus(item):
        fl, f = item
        bad, out = Runner(bins[fl], fl, extra, spec.get("tries", 1)).replay(os.path.join(cdir, f), cpu)
        return fl, f, bad, out

    known_hit = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for fl, f, bad, out in ex.map(run_corpus, [(fl, f) for fl in flavors for f in corpus]):
            if bad is None:
                continue
            corpus_runs += 1
            if bad and f in known_files:
                known_hit.append(f)
            elif bad and not failure:
                failure.update(kind="corpus", fl=fl, text=open(os.path.join(cdir, f)).read(),
                               out=out, name=f)

    def run_job(job):
        fl, fseed, j, n, per = job
        if stop.is_set():
            return
        st = os.path.join(scratch, "%s.%d.state" % (fl, j))
        sf = os.path.join(scratch, "%s.%d.json" % (fl, j))
        cmd = [bins[fl], "run", "--seed", str(fseed), "--from", str(j), "--to", str(n), "--step", str(per),
               "--state", st, "--stats", sf, "--max-seconds", str(max_s), "--cpu", str(cpu)] + extra
        of = open(os.path.join(scratch, "%s.%d.out" % (fl, j)), "w+b")
        p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, env=child_env(fl), preexec_fn=limits(fl),
                             cwd=scratch)
        with plock:
            procs.add(p)
        rc = p.wait()
        with plock:
            procs.discard(p)
        if rc == 0:
            try:
                d = json.load(open(sf))
                d["flavor"] = fl
                stats.append(d)
            except Exception as e:  # noqa
                log("ERROR: statistics of job %s.%d unreadable: %s" % (fl, j, e))
            return
        if stop.is_set():
            return
        of.flush()
        of.seek(0)
        out = of.read().decode(errors="replace")
        try:
            idx, flag = struct.unpack("QQ", open(st, "rb").read(16))
        except Exception:
            idx, flag = None, 0
        with plock:
            if not failure and not stop.is_set():
                if idx is None or flag != 1:
                    failure.update(kind="infra", fl=fl, out=out, rc=rc)
                elif rc == -9:
                    failure.update(kind="killed", fl=fl, out=out, rc=rc, idx=idx, fseed=fseed, per=per, j=j)
                else:
                    failure.update(kind="case", fl=fl, out=out, rc=rc, idx=idx, fseed=fseed, per=per, j=j)
                stop.set()
                for q in procs:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass

    if not failure:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(run_job, jobs))

    # ---- aggregate coverage
    counters, per_config, hashes, samples, evals, timed = {}, {}, set(), [], 0, 0
    per_flavor = {}
    for d in stats:
        evals += d["done"]
        timed += 1 if d["timed_out"] else 0
        per_flavor[d["flavor"]] = per_flavor.get(d["flavor"], 0) + d["done"]
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in d["per_config"].items():
            per_config[k] = per_config.get(k, 0) + v
        hashes.update(d["hashes"])
        if len(samples) < 4:
            samples.extend(d["samples"][:1])
    cov = {"evaluations": evals + corpus_runs, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
           "samples": samples[:4] or ["(no small non-trivial case completed in this run)"],
           "saved_cases_replayed": corpus_runs, "cases_per_flavor": per_flavor, "cases_per_config": per_config,
           "distribution": counters, "jobs_stopped_by_time_cap": timed,
           "flavors": {f: " ".join([FLAVORS[f]["cxx"]] + FLAVORS[f]["flags"]) for f in flavors},
           "build_s": round(t_built - t0, 1)}

    for f, what in load_known(prop):
        if f in known_hit:
            log("KNOWN-FINDING: property=%s %s" % (prop, what))

    if not failure:
        if timed:
            log("note: %d of %d jobs stopped at the time cap; fewer cases than planned" % (timed, len(jobs)))
        if not stats:
            log("ERROR: nothing was run")
            shutil.rmtree(scratch, ignore_errors=True)
            sys.exit(2)
        write_evidence(prop, spec, tier, seed, t0, cov, 0)
        log("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d build=%.0fs run=%.0fs" %
            (prop, tier, seed, evals, len(hashes), t_built - t0, time.time() - t_built))
        shutil.rmtree(scratch, ignore_errors=True)
        return 0

    fl = failure["fl"]
    rn = Runner(bins[fl], fl, extra, spec.get("tries", 1))
    if failure["kind"] == "infra":
        log(failure["out"][-3000:])
        log("ERROR: harness failed outside a case (rc=%s)" % failure.get("rc"))
        sys.exit(2)
    if failure["kind"] == "corpus":
        rp = save_replay(prop, fl, seed, failure["text"], summarize(failure["out"]),
                         "%s-saved-%s" % (prop, failure["name"]))
        cov["samples"] = [failure["text"][:2000]]
        write_evidence(prop, spec, tier, seed, t0, cov, 1)
        log(summarize(failure["out"]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        shutil.rmtree(scratch, ignore_errors=True)
        return 1
    text = rn.dump(failure["fseed"], failure["idx"])
    cp = os.path.join(scratch, "fail.case")
    open(cp, "w").write(text)
    res = [rn.replay(cp, cpu) for _ in range(3)]
    if all(b for b, _ in res):
        small, tried = shrink(rn, text, scratch, 90 if tier == "quick" else 300, min(cpu, 10) if "terminate" not in failure["out"] else 10)
        sp = os.path.join(scratch, "small.case")
        open(sp, "w").write(small)
        bad, out = rn.replay(sp, cpu)
        if not bad:
            small, out = text, res[0][1]
        msg = summarize(out)
        name = "%s-%s-%d-%d.case" % (prop, fl, failure["fseed"], failure["idx"])
        rp = save_replay(prop, fl, seed, small, msg, name)
        cov["samples"] = [small[:3000]]
        cov["shrink_attempts"] = tried
        write_evidence(prop, spec, tier, seed, t0, cov, 1)
        log("failing case (%s), shrunk from %d to %d ops:" % (fl, text.count("\nop "), small.count("\nop ")))
        log(small[:3000])
        log(msg)
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        shutil.rmtree(scratch, ignore_errors=True)
        return 1
    if spec.get("tries", 1) > 1 and re.search(r"^FAIL|ThreadSanitizer: data race", failure["out"], re.M):
        # The schedule that broke it did not recur; the report of that one run stands.
        rp = save_replay(prop, fl, seed, text, summarize(failure["out"]), "%s-%s-%d-%d.case" % (prop, fl, failure["fseed"], failure["idx"]))
        cov["samples"] = [text[:3000]]
        write_evidence(prop, spec, tier, seed, t0, cov, 1)
        log(failure["out"][-3000:])
        log("the failing schedule did not recur in the replays")
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        shutil.rmtree(scratch, ignore_errors=True)
        return 1
    # The case alone does not fail: does the deterministic sequence of cases?
    log("case %s does not fail on its own (%s); re-running its sequence" % (failure["idx"], summarize(failure["out"])))

    def run_range(frm):
        cmd = [bins[fl], "run", "--seed", str(failure["fseed"]), "--from", str(frm), "--to", str(failure["idx"] + 1),
               "--step", str(failure["per"]), "--stats", "/dev/null", "--cpu", str(cpu)] + extra
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(fl), preexec_fn=limits(fl))
        return r.returncode != 0, r.stdout.decode(errors="replace")
    rs = [run_range(failure["j"]) for _ in range(3)]
    if all(b for b, _ in rs):
        frm = failure["j"]
        span = (failure["idx"] - frm) // failure["per"]
        while span > 1:  # shortest failing tail of the sequence, by halving
            nf = failure["idx"] - (span // 2) * failure["per"]
            if run_range(nf)[0]:
                frm = nf
                span //= 2
            else:
                break
        rp = save_replay(prop, fl, seed, "range seed=%d from=%d to=%d step=%d\n" %
                         (failure["fseed"], frm, failure["idx"] + 1, failure["per"]),
                         summarize(rs[0][1]), "%s-%s-range-%d.case" % (prop, fl, failure["idx"]))
        write_evidence(prop, spec, tier, seed, t0, cov, 1)
        log(summarize(rs[0][1]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        shutil.rmtree(scratch, ignore_errors=True)
        return 1
    log(failure["out"][-2000:])
    log("ERROR: failure did not reproduce; treated as an infrastructure problem")
    sys.exit(2)


if __name__ == "__main__":
    sys.exit(main())
