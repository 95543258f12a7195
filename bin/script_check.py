#!/usr/bin/env python3
"""C22: (and the driver that C27 shares) the A/B benchmark script against an independent recomputation.

Generated cases (hypothesis): configuration names, options, and per-run outputs
of a stand-in benchmark binary, including runs that fail or print garbage.  The
script is executed as __main__; its invocations of the binary, printed tables,
CSV and JSON are compared with values computed here from the raw runs.
"""
import contextlib
import csv
import io
import json
import math
import multiprocessing as mp
import os
import re
import runpy
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = os.path.join(REPO, "scripts", "interleaved_btree_benchmark.py")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, HERE)
OPS = ("insert", "find", "erase")
PCT = ("p0", "p50", "p95", "p99", "p99_9", "p99_99")
CASES = {"quick": 500, "thorough": 12000}  # per worker


class Broken(Exception):
    pass


def need(ok, msg):
    if not ok:
        raise Broken(msg)


# ---------------------------------------------------------------- the oracle
def med(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def dev(v):
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (len(v) - 1))


def close(got, want, digits):
    return abs(got - want) <= 0.5000001 * 10 ** -digits + 1e-9 * abs(want)


def order(case):
    """Configurations in the order in which they must be run."""
    for p in range(case["passes"]):
        for c in (case["configs"] if p % 2 == 0 else list(reversed(case["configs"]))):
            yield c


def document(case, i):
    """The benchmark output of run i."""
    vals = case["values"]
    perf = {}
    for a, op in enumerate(OPS):
        perf[op] = {p: vals[(i * 18 + a * 6 + b) % len(vals)] if case["plain"] else vals[(i * 7 + a * 5 + b * 11 + i * i) % len(vals)]
                    for b, p in enumerate(PCT)}
    return {"config": "x", "iterations": case["opts"].get("iterations", 1), "total_cycles": {"insert": i, "find": 2, "erase": 3, "iterate": 4}, "performance": perf}


def run_file(case, i):
    """Exit code and output of run i, and whether it is usable."""
    text = json.dumps(document(case, i), indent=1).encode()
    bad = case.get("bad")
    if not bad or bad["run"] != i:
        return 0, text
    k = bad["kind"]
    if k == "exit":
        return bad["code"], text if bad["cut"] % 2 else b""
    if k == "signal":
        return -9, text
    if k == "truncated":
        return 0, text[:bad["cut"] % len(text)]
    if k == "noise":
        return 0, b"Leaf pool stats:\n" + text
    if k == "trailing":
        return 0, text + b"\noops"
    if k == "bytes":
        return 0, b"\xff\xfe\x80" + text
    doc = document(case, i)
    ops = doc["performance"]
    op = OPS[bad["cut"] % 3]
    if k == "no_metric":
        del ops[op][("p99_9", "p50")[bad["code"] % 2]]
    elif k == "no_operation":
        del ops[op]
    elif k == "no_performance":
        del doc["performance"]
    elif k == "null":
        ops[op]["p99_9"] = None
    elif k == "text":
        ops[op]["p50"] = "fast"
    return 0, json.dumps(doc).encode()


def check_args(argv, case, config):
    o = case["opts"]
    want = {"i": o.get("iterations", 1), "t": o.get("tree_size", 1000000), "b": o.get("batches", 100),
            "s": o.get("batch_size", 1000), "d": o.get("seed", 42)}
    longs = {"--iterations": "-i", "--tree-size": "-t", "--batches": "-b", "--batch-size": "-s", "--seed": "-d", "--json": "-j", "--record-rampup": "-r"}
    seen, names, j, r = {}, [], False, None
    a = list(argv)
    while a:
        x = a.pop(0)
        x = longs.get(x, x)
        if x == "-j":
            j = True
        elif x in ("-i", "-t", "-b", "-s", "-d", "-r"):
            need(a, "option %s of the benchmark has no value" % x)
            if x == "-r":
                r = a.pop(0)
            else:
                seen[x[1:]] = a.pop(0)
        else:
            names.append(x)
    need(j, "the benchmark was not asked for JSON")
    need(names == [config], "the benchmark was given %r, expected %r" % (names, config))
    for k, v in want.items():
        # the benchmark's own defaults differ, so every option must be passed
        need(seen.get(k) == str(v), "option -%s of the benchmark is %r, expected %s" % (k, seen.get(k), v))
    need((r == "false") if o.get("no_record_rampup") else r in (None, "true"), "record-rampup is %r" % r)


def section(text, title):
    i = text.find(title)
    need(i >= 0, "no table %r" % title)
    body = text[i + len(title):]
    nxt = [body.find(t) for t in TITLES + ["DETAILED PERCENTILES", "✓ Exported", "✓ Benchmark"] if body.find(t) >= 0]
    return body[:min(nxt)] if nxt else body


TITLES = ["%s %s LATENCY COMPARISON" % (op.upper(), m) for op in OPS for m in ("P99.9", "P50 (MEDIAN)")]


def check_table(text, title, stats):
    body = section(text, title)
    rows = []
    for line in body.splitlines():
        t = line.split()
        if t and t[0] == "⭐":
            t = t[1:]
        if len(t) >= 7 and t[0] in stats:
            rows.append((t[0], t[1:7], line.startswith("⭐")))
    need(sorted(r[0] for r in rows) == sorted(stats), "table %r lists %r" % (title, [r[0] for r in rows]))
    best = min(med(v) for v in stats.values())
    last = None
    for n, (c, f, star) in enumerate(rows):
        v = stats[c]
        m = med(v)
        need(last is None or m >= last, "table %r is not sorted: %s after a slower one" % (title, c))
        last = m
        need(star == (n == 0), "winner mark on row %d of %r" % (n, title))
        need(int(f[0]) == len(v), "%s: %s passes shown, %d made" % (c, f[0], len(v)))
        for got, want, digits, what in ((f[1], m, 1, "median"), (f[2], min(v), 1, "minimum"), (f[3], max(v), 1, "maximum"), (f[4], dev(v), 2, "standard deviation")):
            need(close(float(got), want, digits), "%s, %s: %s shown as %s, is %r" % (title, c, what, got, want))
        if n == 0:
            need(f[5] == "baseline" and close(m, best, 9), "first row of %r is %s" % (title, c))
        else:
            need(f[5].endswith("%") and f[5][0] in "+-", "difference %r" % f[5])
            need(close(float(f[5][:-1]), (m - best) / best * 100, 2), "%s, %s: difference shown as %s, is %r" % (title, c, f[5], (m - best) / best * 100))
    w = rows[0][0]
    v = stats[w]
    need(re.search(r"Winner: (.*)", body).group(1).strip() == w, "winner of %r is not %s" % (title, w))
    g = re.search(r"Range: (\S+) ns \((\S+)%\)", body)
    need(g and close(float(g.group(1)), max(v) - min(v), 1) and close(float(g.group(2)), (max(v) - min(v)) / med(v) * 100, 2), "range of the winner of %r" % title)
    g = re.search(r"StdDev: (\S+) ns \((\S+)%\)", body)
    need(g and close(float(g.group(1)), dev(v), 2) and close(float(g.group(2)), dev(v) / med(v) * 100, 2), "deviation of the winner of %r" % title)


def check_detail(text, op, runs):
    """runs: config -> list of per-run performance documents of one operation."""
    g = re.search(r"DETAILED PERCENTILES - (\S+) \(P99.9 Winner for %s\)(.*?)(?=DETAILED|✓|\Z)" % op.upper(), text, re.S)
    need(g, "no detailed percentiles for %s" % op)
    w = g.group(1)
    m = {c: med([r["p99_9"] for r in v]) for c, v in runs.items()}
    need(w in m and m[w] == min(m.values()), "detailed percentiles of %s are of %s, which is not the winner" % (op, w))
    got = {}
    for label, key in (("P0", "p0"), ("P50", "p50"), ("P95", "p95"), ("P99", "p99"), ("P99.9", "p99_9"), ("P99.99", "p99_99")):
        x = re.search(r"^\s*%s:\s+(\S+) ns" % re.escape(label), g.group(2), re.M)
        need(x, "detailed percentiles of %s lack %s" % (op, label))
        got[key] = float(x.group(1))
    s = sorted(r["p99_9"] for r in runs[w])
    middle = {s[len(s) // 2], s[(len(s) - 1) // 2]}
    ok = [r for r in runs[w] if r["p99_9"] in middle and all(close(got[k], r[k], 2) for k in PCT)]
    need(ok, "percentiles shown for %s (%s) are not those of its median run: %r" % (w, op, got))


def execute(case, d, stats=None):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    total = case["passes"] * len(case["configs"])
    for i in range(total):
        code, out = run_file(case, i)
        with open(os.path.join(d, "run.%d" % i), "wb") as f:
            f.write(b"%d\n" % code + out)
    os.environ["FAKE_DIR"] = d
    o = case["opts"]
    argv = [SCRIPT, "-b", os.path.join(BUILD, "fake-c22", "fake") if not case.get("no_binary") else os.path.join(d, "absent"), "-p", str(case["passes"])]
    for k, f in (("iterations", "-i"), ("tree_size", "-t"), ("batches", "--batches"), ("batch_size", "--batch-size"), ("seed", "-d")):
        if k in o:
            argv += [f, str(o[k])]
    if o.get("no_record_rampup"):
        argv.append("--no-record-rampup")
    if o.get("taskset"):
        argv += ["--taskset", str(min(os.sched_getaffinity(0)))]
    cf, jf = os.path.join(d, "out.csv"), os.path.join(d, "out.json")
    if case["csv"]:
        argv += ["--csv", cf]
    if case["json"]:
        argv += ["--json", jf]
    argv += ["-c"] + case["configs"]
    out, err, code = io.StringIO(), io.StringIO(), 0
    old = sys.argv, os.getcwd()
    sys.argv = argv
    os.chdir(d)
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Broken("the script did not finish within 60 s")))
    signal.alarm(60)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(SCRIPT, run_name="__main__")
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Broken:
        raise
    except Exception:  # an uncaught exception: reported, exit status 1
        code = 1
        err.write(traceback.format_exc())
    finally:
        signal.alarm(0)
        sys.argv = old[0]
        os.chdir(old[1])
    text = out.getvalue()
    log = []
    if os.path.exists(os.path.join(d, "log")):
        with open(os.path.join(d, "log"), encoding="utf-8", errors="surrogateescape") as f:
            log = [line.rstrip("\n").split("\x1f")[:-1] for line in f.read().split("\n")[:-1]]
    want = list(order(case))
    failed = None
    if case["passes"] < 2 or case.get("no_binary"):
        need(code != 0 and not log, "a request that cannot be met was not refused (exit code %d, %d runs)" % (code, len(log)))
        return "refused"
    if case.get("bad"):
        failed = case["bad"]["run"]
        # complete prefix of a document is never valid, so every kind is bad
        need(code != 0, "run %d went wrong (%s) and the script exits with 0" % (failed, case["bad"]["kind"]))
        need(len(log) > failed, "only %d runs were made" % len(log))
        need("Benchmark complete" not in text, "run %d went wrong and the script claims completion" % failed)
        need(not any(t in text for t in TITLES), "run %d went wrong (%s) and comparison tables are printed" % (failed, case["bad"]["kind"]))
        need((text + err.getvalue()).strip(), "nothing is reported")
        need(not os.path.exists(cf) and not os.path.exists(jf), "run %d went wrong and results are exported" % failed)
        for a, c in zip(log, want):
            check_args(a, case, c)
        return "bad_" + case["bad"]["kind"]
    need(code == 0, "exit code %d: %s %s" % (code, text[-300:], err.getvalue()[-500:]))
    need(len(log) == total, "%d runs were made, expected %d" % (len(log), total))
    for i, (a, c) in enumerate(zip(log, want)):
        need(c in a, "run %d was %r, expected configuration %r" % (i, a, c))
        check_args(a, case, c)
    runs = {c: [document(case, i) for i in range(total) if want[i] == c] for c in case["configs"]}
    for op in OPS:
        for m, key in (("P99.9", "p99_9"), ("P50 (MEDIAN)", "p50")):
            check_table(text, "%s %s LATENCY COMPARISON" % (op.upper(), m), {c: [r["performance"][op][key] for r in v] for c, v in runs.items()})
        check_detail(text, op, {c: [r["performance"][op] for r in v] for c, v in runs.items()})
    if case["json"]:
        with open(jf) as f:
            got = json.load(f)
        need(got == runs, "exported JSON differs from the runs")
    else:
        need(not os.path.exists(jf), "JSON exported without being asked for")
    if case["csv"]:
        with open(cf, newline="") as f:
            rows = list(csv.DictReader(f))
        need(sorted(r["config"] for r in rows) == sorted(case["configs"]), "CSV lists %r" % [r.get("config") for r in rows])
        last = None
        for r in rows:
            need(int(r["passes"]) == case["passes"], "CSV passes")
            for op in OPS:
                v = [x["performance"][op]["p99_9"] for x in runs[r["config"]]]
                for k, w in (("median", med(v)), ("min", min(v)), ("max", max(v)), ("stdev", dev(v))):
                    g = float(r["%s_p99_9_%s" % (op, k)])
                    need(math.isclose(g, w, rel_tol=1e-9, abs_tol=1e-9), "CSV %s_p99_9_%s of %s is %r, is %r" % (op, k, r["config"], g, w))
            m = med([x["performance"]["insert"]["p99_9"] for x in runs[r["config"]]])
            need(last is None or m >= last, "CSV rows are not in order of the insert median")
            last = m
    else:
        need(not os.path.exists(cf), "CSV exported without being asked for")
    return "ok"


def nontrivial(case, kind):
    return len(case["configs"]) > 1 and kind != "refused"


# ------------------------------------------------------------- the generator
def strategy():
    from hypothesis import strategies as st
    names = st.one_of(st.sampled_from(["btree_8_32_96_128_linear", "btree_8_32_96_128_simd", "absl_8_32", "map_8_32", "absl_8_32_hp", "a", "passes", "x,y", "q\"uote", "it's"]),
                      st.text("abcdefgXYZ0189_.+,:;/", min_size=1, max_size=40).filter(lambda s: s not in ("x",)))
    value = st.one_of(st.integers(1, 400).map(float), st.floats(0.01, 5000), st.floats(1, 3), st.sampled_from([100.0, 100.1, 250.25, 1e6, 0.5]), st.integers(1, 10 ** 7))

    @st.composite
    def case(draw):
        c = {"configs": draw(st.lists(names, min_size=1, max_size=5, unique=True)), "passes": draw(st.integers(2, 7))}
        c["values"] = draw(st.lists(value, min_size=1, max_size=40))
        c["plain"] = draw(st.booleans())
        o = {}
        for k, lo, hi in (("iterations", 1, 500), ("tree_size", 1, 10 ** 7), ("batches", 0, 300), ("batch_size", 1, 5000), ("seed", 0, 2 ** 31)):
            if draw(st.booleans()):
                o[k] = draw(st.integers(lo, hi))
        if draw(st.integers(0, 2)) == 0:
            o["no_record_rampup"] = True
        if draw(st.integers(0, 7)) == 0:
            o["taskset"] = True
        c["opts"] = o
        c["csv"], c["json"] = draw(st.booleans()), draw(st.booleans())
        what = draw(st.integers(0, 29))
        if what == 1:
            c["passes"] = draw(st.integers(-1, 1))
        elif what == 2:
            c["no_binary"] = True
        elif what >= 23:
            c["bad"] = {"run": draw(st.integers(0, c["passes"] * len(c["configs"]) - 1)),
                        "kind": draw(st.sampled_from(["exit", "signal", "truncated", "noise", "trailing", "bytes", "no_metric", "no_operation", "no_performance", "null", "text"])),
                        "code": draw(st.integers(1, 255)), "cut": draw(st.integers(0, 2000))}
        return c
    return case()


def worker(a):
    i, seed, n, d = a
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    st = {"n": 0, "kinds": {}, "hashes": set(), "samples": [], "last": None}

    @hseed(seed * 1000 + i)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)
    @given(strategy())
    def prop(case):
        st["n"] += 1
        try:
            kind = execute(case, d)
        except Broken as e:
            st["last"] = (case, str(e))
            raise
        except (OSError, MemoryError) as e:
            raise RuntimeError("infrastructure: %r" % e)
        except Exception as e:
            # output the oracle cannot even parse
            st["last"] = (case, "output cannot be interpreted: %r" % e)
            raise Broken(str(e))
        st["kinds"][kind] = st["kinds"].get(kind, 0) + 1
        if nontrivial(case, kind):
            t = json.dumps(case, sort_keys=True)
            st["hashes"].add(hash(t))
            if len(st["samples"]) < 2 and len(t) < 1500:
                st["samples"].append(t)
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            prop()
    except Broken as e:
        err = st["last"] or ({}, str(e))
    except Exception as e:
        if st["last"]:
            err = st["last"]
        else:
            return {"infra": traceback.format_exc()}
    shutil.rmtree(d, ignore_errors=True)
    return {"n": st["n"], "kinds": st["kinds"], "hashes": len(st["hashes"]), "samples": st["samples"], "err": err}


def build_fake():
    d = os.path.join(BUILD, "fake-c22")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "fake")
    tmp = exe + ".%d" % os.getpid()
    subprocess.check_call(["/usr/bin/gcc", "-O1", os.path.join(VERIF, "harness", "script", "fake_benchmark.c"), "-o", tmp])
    os.rename(tmp, exe)


def main():
    prop = sys.argv[1]
    build_fake()
    base = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        txt = open(sys.argv[3]).read()
        case = json.loads(txt[txt.index("{"):])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                execute(case, base)
        except Broken as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
            return 1
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return 0
    from check import write_evidence
    from props import PROPS
    spec = PROPS[prop]
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cdir = os.path.join(VERIF, "corpus", prop)
    saved = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
    err = None
    for f in saved:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                txt = open(os.path.join(cdir, f)).read()
                execute(json.loads(txt[txt.index("{"):]), base)
        except Broken as e:
            err = (json.loads(txt[txt.index("{"):]), str(e))
            break
    res = []
    if not err:
        with mp.Pool(JOBS) as pool:
            for r in pool.imap_unordered(worker, [(i, seed, CASES[tier], "%s-%d" % (base, i)) for i in range(JOBS)]):
                if "infra" in r:
                    print(r["infra"])
                    print("ERROR: the check itself failed")
                    return 2
                res.append(r)
                if r["err"] and (err is None or len(json.dumps(r["err"][0])) < len(json.dumps(err[0]))):
                    err = r["err"]
    shutil.rmtree(base, ignore_errors=True)
    kinds = {}
    for r in res:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    cov = {"evaluations": max(1, sum(r["n"] for r in res) + len(saved)), "distinct_nontrivial": sum(r["hashes"] for r in res) or 1, "rule": spec["rule"],
           "samples": [s for r in res for s in r["samples"]][:4], "saved_cases_replayed": len(saved), "distribution": kinds}
    if err:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-%d.case" % (prop, seed))
        with open(rp, "w") as f:
            f.write("# property=%s %s\n%s\n" % (prop, err[1].replace("\n", " ")[:500].replace("{", "("), json.dumps(err[0], indent=1)))
        cov["samples"] = [json.dumps(err[0])[:3000]]
        write_evidence(prop, spec, tier, seed, t0, cov, 1)
        print(json.dumps(err[0])[:2000])
        print(err[1])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    write_evidence(prop, spec, tier, seed, t0, cov, 0)
    print("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d run=%.0fs" % (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
