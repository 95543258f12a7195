#!/usr/bin/env python3
"""C27: the pre-commit hook against a model of what a commit may contain.

Generated cases (hypothesis): the contents of files in HEAD, in the index and in
the working tree, a way of committing, and which tools are installed.  The case
is set up in a scratch repository with the hook of the tree under test, and
stand-ins for clang-format, clang-tidy and cmake; the commit, the index and the
working tree are compared with the model.
"""
import hashlib
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import script_check as sc
from script_check import Broken, need

TOOLS = ("clang-format", "clang-tidy-19", "cmake")
DB = "cmake-build-clang-tidy"
ROOT = os.path.join(sc.BUILD, "hook-c27")
NAMES = ["include/fast_containers/a.hpp", "include/fast_containers/b.ipp", "include/fast_containers/sub/c.hpp", "include/fast_containers/two words.hpp",
         "include/other/d.hpp", "tests/t.cpp", "src/binary/main program.cpp", "src/ünï.cpp", "x.cpp.txt", "README.md", "hpp", "CMakeLists.txt", "src/[a].cpp",
         "src/a.cpp", "deep/include/fast_containers/e.hpp", "scripts/run.py", "include/fast_containers/notes.md", "src/q\"uote.ipp", "src/it's.hpp", "src/f.h",
         "include/fast_containers/hpp", "src/tab\there.cpp"]
USER = 65534 if os.geteuid() == 0 else None


def fmt(b):
    out = bytearray()
    for ch in b:
        if ch == 32 and out[-1:] == b" ":
            continue
        if ch == 10 and out[-1:] == b" ":
            out.pop()
        out.append(ch)
    if out[-1:] == b" ":
        out.pop()
    if out and out[-1:] != b"\n":
        out += b"\n"
    return bytes(out)


def text(lines):
    return None if lines is None else "".join(lines).encode()


def blob(b):
    return hashlib.sha1(b"blob %d\0" % len(b) + b).hexdigest()


def is_cpp(n):
    return n.endswith((".cpp", ".hpp", ".ipp"))


def is_production(n):
    return n.startswith("include/fast_containers/") and n.endswith((".hpp", ".ipp"))


class Repo:
    def __init__(self, d, tools, cmake_ok):
        self.d = d
        self.env = {"PATH": os.path.join(ROOT, "tools" + "".join("01"[t in tools] for t in TOOLS)) + ":" + os.path.join(ROOT, "path"), "HOME": d, "LC_ALL": "C.UTF-8",
                    "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a",
                    "GIT_COMMITTER_EMAIL": "a@b", "GIT_AUTHOR_DATE": "1700000000 +0000", "GIT_COMMITTER_DATE": "1700000000 +0000", "GIT_TERMINAL_PROMPT": "0",
                    "GIT_CEILING_DIRECTORIES": os.path.dirname(d), "STANDIN_CMAKE": "ok" if cmake_ok else "fail"}

    def run(self, *argv, check=True):
        p = subprocess.run(argv, cwd=self.d, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, user=USER,
                           group=USER, extra_groups=[] if USER else None)
        if check and p.returncode:
            raise RuntimeError("infrastructure: %r: %s" % (argv, p.stdout[-300:]))
        return p.returncode, p.stdout

    def put(self, name, data, mode):
        p = os.path.join(self.d, name)
        if data is None:
            if os.path.exists(p):
                os.unlink(p)
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, mode)
        if USER:
            os.chown(p, USER, USER)
            q = os.path.dirname(p)
            while len(q) >= len(self.d):
                os.chown(q, USER, USER)
                q = os.path.dirname(q)

    def get(self, name):
        try:
            with open(os.path.join(self.d, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def entries(self, out, index):
        r = {}
        for e in out.split(b"\0"):
            if e:
                meta, name = e.split(b"\t", 1)
                m = meta.split(b" ")
                r[name.decode()] = (m[0].decode(), (m[1] if index else m[2]).decode())
        return r

    def head(self):
        rc, out = self.run("git", "rev-parse", "-q", "--verify", "HEAD", check=False)
        return out.strip() if rc == 0 else None


def execute(case, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    d = os.path.join(d, "work")
    os.makedirs(d)
    if USER:
        os.chown(d, USER, USER)
    tools = case["tools"]
    r = Repo(d, tools, case["cmake"])
    files = {f["name"]: f for f in case["files"]}
    head = {n: text(f["head"]) for n, f in files.items()}
    staged = {n: text(f["staged"]) if f["staged"] != "head" else head[n] for n, f in files.items()}
    work = {n: text(f["work"]) if f["work"] != "staged" else staged[n] for n, f in files.items()}
    mode = {n: 0o755 if f["exec"] else 0o644 for n, f in files.items()}
    born = any(v is not None for v in head.values()) or case["born"]
    r.run("git", "-c", "init.defaultBranch=main", "init", "-q", "--template=")
    if born:
        for n in files:
            r.put(n, head[n], mode[n])
        r.run("git", "add", "-A")
        r.run("git", "commit", "-q", "--no-verify", "--allow-empty", "-m", "base")
    for n in files:
        r.put(n, staged[n], mode[n])
    r.run("git", "add", "-A")
    for n in files:
        r.put(n, work[n], mode[n])
    hooks = os.path.join(d, ".git", "hooks")
    os.makedirs(hooks)
    if USER:
        os.chown(hooks, USER, USER)
    src = os.path.join(sc.REPO, "hooks", "pre-commit")
    exclude = DB + "/\n"
    if case["setup"]:
        # installed by the documented script instead of by hand
        os.makedirs(os.path.join(d, "hooks"))
        for f, g in ((src, "hooks/pre-commit"), (os.path.join(sc.REPO, "setup-dev.sh"), "setup-dev.sh")):
            shutil.copy(f, os.path.join(d, g))
            os.chmod(os.path.join(d, g), 0o755)
        if USER:
            os.chown(os.path.join(d, "hooks"), USER, USER)
        exclude += "/hooks/\n/setup-dev.sh\n"
        if case["old"]:  # an earlier version of the hook is installed
            r.put(".git/hooks/pre-commit", b"#!/bin/bash\nexit 0\n", 0o755)
    os.makedirs(os.path.join(d, ".git", "info"), exist_ok=True)
    with open(os.path.join(d, ".git", "info", "exclude"), "w") as f:
        f.write(exclude)
    db = case["db"]
    if case["setup"]:
        all_tools = Repo(d, TOOLS, True)
        rc, out = all_tools.run("bash", os.path.join(d, "setup-dev.sh"), check=False)
        need(rc == 0, "setup-dev.sh fails with every tool installed: %s" % out[-300:].decode(errors="replace"))
        with open(src, "rb") as f, open(os.path.join(hooks, "pre-commit"), "rb") as g:
            need(f.read() == g.read(), "setup-dev.sh installs something else than the hook")
        need(os.stat(os.path.join(hooks, "pre-commit")).st_mode & 0o111 == 0o111, "setup-dev.sh leaves the hook not executable")
        need(os.path.exists(os.path.join(d, DB, "compile_commands.json")), "setup-dev.sh creates no compilation database")
        db = True
    else:
        shutil.copy(src, os.path.join(hooks, "pre-commit"))
        os.chmod(os.path.join(hooks, "pre-commit"), 0o755)
        if db:
            r.put(DB + "/compile_commands.json", b"[]\n", 0o644)
    before = r.head()

    # what the commit is made of
    how = case["how"]
    argv = ["git", "commit", "-m", "change"]
    if how == "amend":
        argv += ["--amend"] if born else []
        how = how if born else "plain"
    into = dict(staged)
    if how == "all":
        argv.append("-a")
        for n in files:
            if staged[n] is not None:  # tracked
                into[n] = work[n]
    elif how == "only":
        some = [n for n in sorted(files) if (staged[n] is not None or (head[n] is not None and work[n] is not None)) and files[n]["pick"]]
        if some:
            argv += ["--"] + [":(literal)" + n for n in some]
            into = {n: work[n] if n in some else head[n] for n in files}
        else:
            how = "plain"
    changed = [n for n in files if into[n] != head[n] and into[n] is not None]
    cpp = [n for n in changed if is_cpp(n)]
    gone = {head[n] for n in files if into[n] is None and head[n] is not None}
    formats = "clang-format" in tools
    # a renamed file whose contents did not change may be left alone
    want = {n: ({fmt(into[n])} | ({into[n]} if into[n] in gone else set()) if n in cpp and formats else {into[n]}) for n in files if into[n] is not None}
    nothing_new = all(head[n] in want.get(n, {None}) for n in files) and how != "amend" or not want

    marked = [n for n in cpp if is_production(n) and b"BAD_TIDY" in into[n]]
    # the tool looks at the working tree: only judged where both agree
    unsure = [n for n in cpp if is_production(n) and (work[n] is None or (b"BAD_TIDY" in work[n]) != (b"BAD_TIDY" in into[n])) or n in marked and into[n] in gone]
    can_tidy = "clang-tidy-19" in tools and (db or ("cmake" in tools and case["cmake"]))

    rc, out = r.run(*argv, check=False)
    say = out.decode(errors="replace")[-400:]
    after = r.head()
    ok = rc == 0
    need(ok == (after != before or (ok and how == "amend")), "git commit exits with %d and HEAD %s" % (rc, "moved" if after != before else "did not move"))
    verdict = "committed" if ok else "refused"
    if formats and can_tidy and marked and not [n for n in marked if n not in unsure] == []:
        need(not ok, "%r has clang-tidy warnings and is committed" % marked)
    elif not ok and not nothing_new:
        judged = not unsure and not (not formats and marked)
        need(not judged, "the commit is refused though nothing is wrong: %s" % say)
    if not formats and not nothing_new and not marked:
        need(ok, "without clang-format the commit is refused: %s" % say)
    if ok:
        _, out = r.run("git", "ls-tree", "-r", "-z", "HEAD")
        got = r.entries(out, False)
        need(sorted(got) == sorted(want), "the commit contains %r, expected %r" % (sorted(got), sorted(want)))
        for n, (m, h) in got.items():
            if h not in {blob(x) for x in want[n]}:
                what = [k for k, x in (("the working tree's contents", work[n]), ("the working tree's contents, formatted", fmt(work[n]) if work[n] is not None else None),
                                       ("its contents before formatting", into[n])) if x is not None and blob(x) == h]
                raise Broken("%r is committed with %s, expected %s of what was to be committed" % (n, what[0] if what else "something else",
                                                                                              "the formatted form" if n in cpp and formats else "exactly the form"))
            need(m == ("100755" if mode[n] == 0o755 else "100644"), "%r is committed with mode %s" % (n, m))
    # the index, unless git itself keeps another one for a partial commit
    if how != "only":
        _, out = r.run("git", "ls-files", "-s", "-z")
        idx = r.entries(out, True)
        # a refused "commit -a" leaves the index as it was
        allowed = {n: (want[n] if ok else {x for x in (staged[n], into[n]) if x is not None} | {fmt(x) for x in (staged[n], into[n]) if x is not None and n in cpp}) for n in files
                   if (into[n] if ok else staged[n]) is not None}
        for n, (m, h) in idx.items():
            need(n in allowed and h in {blob(x) for x in allowed[n]} or (not ok and into[n] is None), "%r is staged with contents nobody staged after the commit was %s" % (n, verdict))
    # nothing of the user's work is lost, and nobody else's files are touched
    for n in files:
        now = r.get(n)
        if n in cpp and formats:
            need(now in ({work[n], fmt(work[n])} if work[n] is not None else {None}), "the working tree's %r was changed beyond formatting" % n)
            if ok and work[n] == into[n] and into[n] not in gone:
                need(now == fmt(work[n]), "%r was committed formatted and left unformatted in the working tree" % n)
        else:
            need(now == work[n], "the working tree's %r, which is no C++ file of the commit, was changed" % n)
    known = set(files) | {"setup-dev.sh", "hooks/pre-commit"}
    for top, dirs, names in os.walk(d):
        rel = os.path.relpath(top, d)
        if rel.split("/")[0] in (".git", DB):
            dirs[:] = []
            continue
        for x in names:
            p = os.path.normpath(os.path.join(rel, x))
            need(p in known, "the hook left %r behind" % p)
    partial = any(work[n] != into[n] and n in cpp for n in files)
    return "%s_%s%s%s" % (how, verdict, "_partial" if partial else "", "" if formats else "_noformat")


def strategy():
    from hypothesis import strategies as st
    lines = st.lists(st.sampled_from(["int a;\n", "int  b;\n", "x; \n", "\n", "  y\n", "BAD_TIDY\n", "f(  1 );\n", "int c = 3;\n", "end", "class k {};\n", "z   \n"]), min_size=0, max_size=6)

    @st.composite
    def file(draw, name, i):
        # every file has a line of its own, so that git does not take one for another
        def contents():
            base = draw(lines)
            return (["file %d;\n" % i] * 3 + base) if draw(st.integers(0, 9)) else base
        f = {"name": name, "exec": draw(st.integers(0, 7)) == 0, "pick": draw(st.booleans())}
        f["head"] = contents() if draw(st.integers(0, 2)) else None
        k = draw(st.integers(0, 7))
        f["staged"] = "head" if k < 2 else None if k == 2 else contents()
        k = draw(st.integers(0, 7))
        f["work"] = "staged" if k < 4 else None if k == 4 else contents()
        return f

    @st.composite
    def case(draw):
        headers = draw(st.integers(0, 3)) == 0  # a commit of several production headers, with every tool
        names = draw(st.lists(st.sampled_from([n for n in NAMES if is_production(n)] if headers else NAMES), min_size=2 if headers else 1, max_size=6, unique=True))
        c = {"files": [draw(file(n, i)) for i, n in enumerate(names)]}
        if len(names) > 1 and draw(st.integers(0, 3)) == 0:
            # a rename, perhaps with a change
            a, b = c["files"][0], c["files"][1]
            a["head"] = (a["head"] or []) + ["renamed %d;\n" % j for j in range(8)]
            a["staged"], a["work"], b["head"] = None, "staged", None
            b["staged"] = a["head"] + draw(st.sampled_from([[], ["int  more;\n"], ["BAD_TIDY\n"]]))
        c["tools"] = [t for t in TOOLS if headers or draw(st.integers(0, 5))]
        for f in c["files"]:
            if headers:
                f["work"] = "staged"
                f["staged"] = ["file %d;\n" % names.index(f["name"])] + (f["staged"] if isinstance(f["staged"], list) else [])
        c["cmake"] = draw(st.integers(0, 3)) > 0
        c["db"] = draw(st.booleans())
        c["born"] = draw(st.booleans())
        c["setup"] = draw(st.integers(0, 9)) == 0
        c["old"] = draw(st.booleans())
        c["how"] = draw(st.sampled_from(["plain", "plain", "plain", "all", "only", "amend"]))
        return c
    return case()


def prepare():
    os.makedirs(ROOT, exist_ok=True)
    exe = os.path.join(ROOT, "dev_tool")
    tmp = "%s.%d" % (exe, os.getpid())
    subprocess.check_call(["/usr/bin/gcc", "-O1", os.path.join(sc.VERIF, "harness", "script", "dev_tool.c"), "-o", tmp])
    os.rename(tmp, exe)
    path = os.path.join(ROOT, "path")
    os.makedirs(path, exist_ok=True)
    for n in ("/usr/bin", "/bin"):
        for f in os.listdir(n):
            if not f.startswith(("clang", "cmake", "ccmake", "run-clang", "git-clang")) and not os.path.lexists(os.path.join(path, f)):
                os.symlink(os.path.join(n, f), os.path.join(path, f))
    for k in range(8):
        t = "".join("01"[k >> b & 1] for b in range(3))
        os.makedirs(os.path.join(ROOT, "tools" + t), exist_ok=True)
        for b in range(3):
            p = os.path.join(ROOT, "tools" + t, TOOLS[b])
            if t[b] == "1" and not os.path.lexists(p):
                os.symlink(exe, p)


sc.execute, sc.strategy, sc.build_fake, sc.CASES = execute, strategy, prepare, {"quick": 150, "thorough": 4000}
sc.nontrivial = lambda case, kind: any(f["staged"] not in ("head", None) and is_cpp(f["name"]) for f in case["files"])

if __name__ == "__main__":
    sys.exit(sc.main())
