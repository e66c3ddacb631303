#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check ID      Decide property ID by generated-input search against /repo's current working tree.
                       Exit 0: held on everything explored. Exit 1: VIOLATION line. Else: could not decide.
  run.py replay FILE   Rebuild and rerun the case of a replay file. Exit 1 if it still fails, 0 if it passes.
  run.py setup         Check that the tools are there.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough; default quick).
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVIDENCE = os.path.join(HERE, "evidence")
JOBS = 8

COMMON = ["-std=c++20", "-ftrivial-auto-var-init=pattern", "-w"]
KINDS = {
    # name: (compiler, compile flags, link flags)
    "fast": ("g++", ["-O2"], []),
    "san": ("g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
            ["-fsanitize=address,undefined"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # Counts the work done: see props/p23.cpp.
    "work": ("g++", ["-O2", "-DNDEBUG", "-fsanitize-coverage=trace-pc"],
             ["-static-libstdc++"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen")]),
    "fuzz": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=fuzzer-no-link,address,undefined",
                         "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             ["-fsanitize=fuzzer,address,undefined"]),
}
# The configurations which P24 compares; each becomes a shared object.
CONFIGS = {
    "gcc-debug": ("g++", ["-O0"]),
    "gcc-release": ("g++", ["-O3", "-DNDEBUG", "-ftrivial-auto-var-init=zero"]),
    "gcc-unsigned-char": ("g++", ["-O1", "-funsigned-char"]),
    "gcc-c++23": ("g++", ["-O2", "-std=c++23"]),
    "gcc-c++23-release": ("g++", ["-O2", "-DNDEBUG", "-std=c++23"]),
    "clang-debug-unsigned-char": ("clang++", ["-O0", "-funsigned-char"]),
    "clang-release": ("clang++", ["-O3", "-DNDEBUG"]),
    "clang-c++23": ("clang++", ["-O1", "-std=c++23", "-ftrivial-auto-var-init=zero"]),
    "clang-c++23-release": ("clang++", ["-O2", "-DNDEBUG", "-std=c++23"]),
}
# Those in which icubaby.hpp, which does not need C++20, is compared on its own.
ICUBABY_CONFIGS = {
    "gcc-c++17": ("g++", ["-std=c++17", "-O0"]),
    "clang-c++17": ("clang++", ["-std=c++17", "-O2", "-DNDEBUG", "-funsigned-char"]),
}
# Locales of the C library, compiled from its sources for P26: (name, source, encoding).
LOCALES = [("de_DE.ISO-8859-1", "de_DE", "ISO-8859-1"), ("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"),
           ("el_GR.ISO-8859-7", "el_GR", "ISO-8859-7"), ("ja_JP.EUC-JP", "ja_JP", "EUC-JP"), ("tr_TR.UTF-8", "tr_TR", "UTF-8")]
HEADERS = ("find_last", "icubaby", "parts", "pctdecode", "pctencode", "punycode", "rule", "starts_with", "uri")
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:malloc_context_size=6:quarantine_size_mb=16:allocator_may_return_null=1:hard_rss_limit_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0",
    "MALLOC_PERTURB_": "165",
    "LC_ALL": "C.UTF-8",
}
# Number of cases of the quick tier per stage, over all workers; the thorough tier runs THOROUGH times as many.
# A stage stops early if it takes longer than its wall-clock limit (which only bounds what is explored).
THOROUGH = 25
QUICK_LIMIT = 45
THOROUGH_LIMIT = 230


def prop(fast, san, fuzz, tsan=0, work=0, tool=False, schedule=False, configs=False, locales=False, compiles=()):
    return {"configs": configs, "locales": locales, "compiles": compiles, "stages": {"fast": fast, "san": san, "fuzz": fuzz, "tsan": tsan, "work": work}, "tool": tool, "schedule": schedule}


PROPS = {
    "P01": prop(2_000_000, 200_000, 160_000),
    "P02": prop(2_000_000, 200_000, 160_000),
    "P03": prop(2_000_000, 200_000, 160_000),
    "P04": prop(2_500_000, 220_000, 180_000),
    "P05": prop(1_200_000, 120_000, 120_000),
    "P06": prop(5_000_000, 600_000, 200_000),
    "P07": prop(8_000_000, 1_200_000, 500_000),
    "P08": prop(6_000_000, 800_000, 300_000),
    "P09": prop(6_000_000, 800_000, 300_000),
    "P10": prop(1_200_000, 140_000, 90_000),
    "P11": prop(1_800_000, 250_000, 120_000),
    "P12": prop(1_400_000, 160_000, 90_000),
    "P13": prop(3_000_000, 250_000, 120_000),
    "P14": prop(3_000_000, 200_000, 80_000),
    "P15": prop(3_000_000, 300_000, 80_000),
    "P16": prop(3_000_000, 300_000, 80_000),
    "P17": prop(32_000, 5_000, 0, tool=True),
    "P18": prop(500_000, 60_000, 50_000),
    "P19": prop(1_600_000, 140_000, 110_000),
    "P20": prop(2_000_000, 160_000, 130_000),
    "P21": prop(40_000, 4_000, 0, tsan=3_000, schedule=True),
    "P22": prop(6_000_000, 1_000_000, 400_000),
    "P23": prop(0, 0, 0, work=40_000),
    "P25": prop(500_000, 60_000, 0),
    "P26": prop(1_000_000, 120_000, 80_000, locales=True),
    # That its harness compiles is a part of the property, provided that those of others do, which use the same interfaces.
    "P27": prop(5_000_000, 450_000, 200_000, compiles=("P08", "P14")),
    "P24": prop(300_000, 0, 0, configs=True),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def files(root, suffixes):
    out = []
    for d, _, names in os.walk(root):
        out += [os.path.join(d, n) for n in names if n.endswith(suffixes)]
    return sorted(out)


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def content(path):
    with open(path, "rb") as f:
        return f.read()


class Builder:
    """Compiles with a cache keyed by the contents of everything a translation unit can include."""

    def __init__(self):
        repo_headers = files(os.path.join(REPO, "include"), (".hpp", ".h", ".ipp", ".inc"))
        repo_headers += files(os.path.join(REPO, "lib"), (".hpp", ".h", ".ipp", ".inc"))
        repo_headers += files(os.path.join(REPO, "tools"), (".hpp", ".h", ".ipp", ".inc"))
        own = []
        for d in ("engine", "ref", "gen", "props"):
            own += files(os.path.join(HERE, d), (".hpp",))
        self.headers = digest([x for f in repo_headers + own for x in (f, content(f))])
        self.lib = files(os.path.join(REPO, "lib", "uri"), (".cpp", ".cc", ".cxx"))
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.lock = threading.Lock()
        self.locks = {}

    def compile(self, src, kind):
        compiler, flags, _ = KINDS[kind]
        cmd = [compiler] + COMMON + flags + ["-I", os.path.join(REPO, "include")]
        obj = os.path.join(BUILD, "obj", digest([json.dumps(cmd), src, content(src), self.headers]) + ".o")
        # The same file may be asked for twice at the same time (the library, for the harness and the tool).
        with self.lock:
            lock = self.locks.setdefault(obj, threading.Lock())
        with lock:
            if not os.path.exists(obj):
                tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
                r = sh(cmd + ["-c", src, "-o", tmp])
                if r.returncode != 0:
                    raise BuildError(f"{' '.join(cmd)} -c {src}\n{r.stdout[-4000:]}")
                os.replace(tmp, obj)
        return obj

    def link(self, objs, kind, out):
        compiler, _, flags = KINDS[kind]
        r = sh([compiler] + objs + flags + ["-pthread", "-o", out])
        if r.returncode != 0:
            raise BuildError(f"linking {out}\n{r.stdout[-4000:]}")

    def build(self, pid, kinds, out_dir):
        """Returns {kind: path or BuildError}."""
        engine = os.path.join(HERE, "engine")
        common = [os.path.join(engine, "engine.cpp")]
        common += files(os.path.join(HERE, "ref"), (".cpp",)) + files(os.path.join(HERE, "gen"), (".cpp",))
        own = [os.path.join(HERE, "props", pid.lower() + ".cpp")]
        os.makedirs(out_dir, exist_ok=True)
        result = {}
        with ThreadPoolExecutor(JOBS) as pool:
            jobs = {}
            for kind in kinds:
                main = os.path.join(engine, "fuzz_main.cpp" if kind == "fuzz" else "main.cpp")
                # The biggest first.
                jobs[kind] = [pool.submit(self.compile, s, kind) for s in own + self.lib + common + [main]]
            tool_jobs = {}
            if PROPS[pid]["tool"]:
                srcs = files(os.path.join(REPO, "tools", "uri-split"), (".cpp", ".cc", ".cxx"))
                for kind in kinds:
                    tool_jobs[kind] = [pool.submit(self.compile, s, kind) for s in srcs + self.lib]
            for kind in kinds:
                try:
                    objs = [j.result() for j in jobs[kind]]
                    out = os.path.join(out_dir, f"{pid}-{kind}")
                    self.link(objs, kind, out)
                    result[kind] = out
                except BuildError as e:
                    result[kind] = e
                if kind in tool_jobs:
                    try:
                        self.link([j.result() for j in tool_jobs[kind]], kind, os.path.join(out_dir, f"uri-split-{kind}"))
                    except BuildError as e:
                        result[kind] = e
        return result

    def build_configs(self, out_dir):
        """Compiles the library for every configuration. Returns [(configuration, command)] of what does not compile."""
        bad = []
        shared = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"]
        own = [os.path.join(HERE, "props", "p24_side.cpp")] + files(os.path.join(HERE, "ref"), (".cpp",)) + [os.path.join(HERE, "engine", "engine.cpp")]

        def header(name, h):
            compiler, flags = CONFIGS[name]
            path = os.path.join(REPO, "include", "uri", h + ".hpp")
            if os.path.exists(path):
                cmd = [compiler] + COMMON + flags + ["-I", os.path.join(REPO, "include"), "-fsyntax-only", "-x", "c++", path]
                mark = os.path.join(BUILD, "obj", digest([json.dumps(cmd), self.headers]) + ".ok")
                if not os.path.exists(mark):
                    r = sh(cmd)
                    if r.returncode != 0:
                        return cmd, r.stdout[-3000:]
                    open(mark, "w").close()
            return None

        def one(name, src):
            compiler, flags = CONFIGS[name]
            key = "config " + name
            KINDS[key] = (compiler, flags + shared + (["-fno-gnu-unique"] if compiler == "g++" else []), [])
            try:
                return self.compile(src, key)
            except BuildError as e:
                return e

        with ThreadPoolExecutor(JOBS) as pool:
            objs = {n: [(s, pool.submit(one, n, s)) for s in own + self.lib] for n in CONFIGS}
            headers = {n: [pool.submit(header, n, h) for h in HEADERS] for n in CONFIGS}
            for n in CONFIGS:
                done = [(s, j.result()) for s, j in objs[n]]
                for s, o in done:
                    if isinstance(o, BuildError):
                        bad.append((n, os.path.relpath(s, "/"), str(o)))
                bad += [(n, j.result()[0][-1], j.result()[1]) for j in headers[n] if j.result()]
                if not any(b[0] == n for b in bad):
                    r = sh([CONFIGS[n][0], "-shared"] + [o for _, o in done] +
                           ["-Wl,-Bsymbolic", "-o", os.path.join(out_dir, f"cfg-{n}.so")])
                    if r.returncode != 0:
                        bad.append((n, "linking", r.stdout[-3000:]))
        return bad

    def build_icubaby_configs(self, out_dir):
        """Returns those configurations that do not compile."""
        bad = []
        src = os.path.join(HERE, "props", "p24_cxx17.cpp")
        for n, (compiler, flags) in ICUBABY_CONFIGS.items():
            key = "config " + n
            KINDS[key] = (compiler, flags + ["-fPIC", "-fvisibility=hidden"] + (["-fno-gnu-unique"] if compiler == "g++" else []), [])
            try:
                obj = self.compile(src, key)
            except BuildError as e:
                bad.append((n, str(e)))
                continue
            r = sh([compiler, "-shared", obj, "-Wl,-Bsymbolic", "-o", os.path.join(out_dir, f"icubaby-{n}.so")])
            if r.returncode != 0:
                bad.append((n, r.stdout[-3000:]))
        return bad


def environment(extra=None):
    env = dict(os.environ)
    env.update(ENV)
    env.update(extra or {})
    return env


def known_findings(pid):
    """{key: text} of the findings recorded for a property."""
    found = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == f"property={pid}" and w[2].startswith("key="):
                found[w[2][4:]] = w[3].strip()
    return found


class Failure:
    def __init__(self, kind, what, choices=None, campaign=None, log=""):
        self.kind = kind            # the build which showed it
        self.what = what
        self.choices = choices      # bytes, or
        self.campaign = campaign    # (seed, first, step, cases)
        self.log = log


class Check:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.dir = os.path.join(BUILD, f"{pid}-{os.getpid()}")
        self.t0 = time.monotonic()
        self.stats = []
        self.notes = []
        self.stage_report = {}
        self.bin = {}
        self.uncompiled = []  # configurations which do not build
        self.known = known_findings(pid)
        self.env = environment({"PBT_KNOWN": ",".join(self.known)})

    # -- building -----------------------------------------------------------------------------------------------------
    def build(self, kinds=None):
        cfg = PROPS[self.pid]
        if kinds is None:
            kinds = [k for k, n in cfg["stages"].items() if n > 0]
        built = Builder().build(self.pid, kinds, self.dir)
        for kind, b in built.items():
            if isinstance(b, BuildError):
                if kind == "fuzz":
                    # Only an additional search: the others decide as well.
                    self.notes.append("the clang build failed, so there was no coverage-guided stage")
                    print(f"note: {self.notes[-1]}\n{b}")
                    continue
                if cfg["compiles"] and self.compiles(cfg["compiles"]):
                    self.uncompiled = [("g++", f"props/{self.pid.lower()}.cpp", str(b))]
                    return
                raise b
            self.bin[kind] = b
        if cfg["configs"]:
            self.uncompiled = Builder().build_configs(self.dir)
            for name, log in Builder().build_icubaby_configs(self.dir):
                # What is promised there are results.
                self.notes.append(f"icubaby.hpp does not compile in the configuration {name}, so it was not compared in it")
                print(f"note: {self.notes[-1]}\n{log}")
        if cfg["locales"]:
            self.locales()
        self.env["URI_SPLIT_DIR"] = self.dir
        self.env["VERIF_SCRATCH"] = os.path.join(self.dir, "scratch")
        os.makedirs(self.env["VERIF_SCRATCH"], exist_ok=True)

    def compiles(self, pids):
        try:
            for pid in pids:
                Builder().compile(os.path.join(HERE, "props", pid.lower() + ".cpp"), "fast")
            return True
        except BuildError:
            return False

    def locales(self):
        d = os.path.join(self.dir, "locale")
        os.makedirs(d, exist_ok=True)
        names = []
        for name, source, encoding in LOCALES:
            try:
                sh(["localedef", "--no-archive", "-c", "-i", source, "-f", encoding, os.path.join(d, name)], timeout=60)
            except (OSError, subprocess.TimeoutExpired):
                pass
            if os.path.exists(os.path.join(d, name, "LC_CTYPE")):
                names.append(name)
            else:
                self.notes.append(f"the locale {name} could not be compiled")
                print("note: " + self.notes[-1])
        self.env["LOCPATH"] = d
        self.env["PBT_LOCALES"] = ",".join(names)

    # -- processes ----------------------------------------------------------------------------------------------------
    def run(self, cmd, timeout, cwd=None, extra=None):
        """Returns (exit code or "hang", output)."""
        env = dict(self.env)
        env.update(extra or {})
        with tempfile.TemporaryFile() as out:
            p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=cwd or self.dir,
                                 env=env, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "hang"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            size = out.seek(0, 2)
            out.seek(max(0, size - 20000))
            return rc, out.read().decode(errors="replace")

    def random_stage(self, kind, cases, limit, corpus=None):
        """JOBS workers share the cases. Returns the failures."""
        each = max(1, cases // JOBS)

        def worker(w):
            state = os.path.join(self.dir, f"{kind}-{w}.state")
            out = os.path.join(self.dir, f"{kind}-{w}.json")
            cmd = [self.bin[kind], "run", str(self.seed), str(w), str(JOBS), str(each), str(limit), state, out]
            if corpus:
                cmd.append(corpus)
            rc, log = self.run(cmd, limit + 120)
            return w, rc, log, state, out

        failures = []
        t = time.monotonic()
        stopped = 0
        with ThreadPoolExecutor(JOBS) as pool:
            for w, rc, log, state, out in pool.map(worker, range(JOBS)):
                if rc == 0:
                    self.stats.append(out)
                    stopped += "BUDGET" in log
                    continue
                if rc == 2 or not os.path.exists(state):
                    raise RuntimeError(f"worker failed to run: {rc}\n{log}")
                raw = content(state)
                number = int.from_bytes(raw[:8], "little")
                count = int.from_bytes(raw[8:16], "little")
                failures.append(Failure(kind, self.describe(rc, log), choices=raw[16:16 + count],
                                        campaign=(self.seed, w, JOBS, number + 1), log=log))
        self.stage_report[kind] = {"workers": JOBS, "cases_planned": each * JOBS,
                                   "wall_s": round(time.monotonic() - t, 1)}
        if stopped:
            self.stage_report[kind]["workers_stopped_by_time_limit"] = stopped
        failures.sort(key=lambda f: f.campaign[3])
        return failures

    @staticmethod
    def describe(rc, log):
        if rc == "hang":
            return "did not finish"
        for line in log.splitlines():
            for mark in ("FAILED ", "ERROR: AddressSanitizer", "runtime error:", "Assertion", "CPU-LIMIT",
                         "WARNING: ThreadSanitizer", "terminate called", "DEADLYSIGNAL"):
                if mark in line:
                    return line.strip()[:600]
        return f"exit status {rc}"

    def fuzz_stage(self, runs, limit, seeds):
        each = max(1, runs // JOBS)
        t = time.monotonic()

        def worker(w):
            d = os.path.join(self.dir, f"fuzz-{w}")
            os.makedirs(os.path.join(d, "corpus"), exist_ok=True)
            out = os.path.join(self.dir, f"fuzz-{w}.json")
            cmd = [self.bin["fuzz"], f"-seed={self.seed * 1000 + w + 1}", f"-runs={each}", f"-max_total_time={limit}",
                   "-timeout=120", "-rss_limit_mb=3000", "-max_len=4096", "-print_final_stats=1", "-verbosity=1",
                   f"-use_value_profile={w % 2}", f"-artifact_prefix={d}/", os.path.join(d, "corpus")]
            if w % 4 != 3:
                cmd.append(seeds)  # one in four starts from nothing
            rc, log = self.run(cmd, limit + 300, extra={"PBT_OUT": out})
            return w, rc, log, d, out

        failures = []
        units = 0
        cov = 0
        with ThreadPoolExecutor(JOBS) as pool:
            for w, rc, log, d, out in pool.map(worker, range(JOBS)):
                if os.path.exists(out):
                    self.stats.append(out)
                units += len(os.listdir(os.path.join(d, "corpus")))
                for line in log.splitlines():
                    if " cov: " in line:
                        cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                if rc == 0:
                    continue
                for name in sorted(os.listdir(d)):
                    if name.startswith(("crash-", "timeout-")):
                        failures.append(Failure("fuzz", self.describe(rc, log), choices=content(os.path.join(d, name)),
                                                log=log))
        self.stage_report["fuzz"] = {"workers": JOBS, "runs_planned": each * JOBS, "corpus_units": units,
                                     "edges_covered": cov, "wall_s": round(time.monotonic() - t, 1)}
        return failures

    # -- failures -----------------------------------------------------------------------------------------------------
    def replay_once(self, kind, choices):
        path = os.path.join(self.dir, "replay.bin")
        with open(path, "wb") as f:
            f.write(choices)
        cmd = [self.bin[kind], path] if kind == "fuzz" else [self.bin[kind], "replay", path]
        # Three times the limit of a campaign, so that merely slow cases (on a busy machine) are not taken for endless ones.
        return self.run(cmd, 120, extra={"PBT_CPU_LIMIT": "60"})

    def campaign_once(self, kind, campaign):
        seed, first, step, cases = campaign
        return self.run([self.bin[kind], "run", str(seed), str(first), str(step), str(cases), "600",
                         os.path.join(self.dir, "again.state"), os.path.join(self.dir, "again.json")], 900)

    def confirm(self, f):
        """Replays the failure 3 times. Returns (the replay's record, or None)."""
        kinds = [f.kind]
        if f.kind == "fuzz":
            kinds = [k for k in ("san", "fast") if k in self.bin] + ["fuzz"]
        for kind in kinds:
            logs = [self.replay_once(kind, f.choices)]
            if logs[0][0] not in (11, "hang"):
                logs += [self.replay_once(kind, f.choices) for _ in range(2)]
            if all(rc != 0 for rc, _ in logs):
                return self.shrunk(kind, f, logs[-1])
            if PROPS[self.pid]["schedule"]:
                # It may depend on how the threads are interleaved.
                logs += [self.replay_once(kind, f.choices) for _ in range(17)]
                bad = [x for x in logs if x[0] != 0]
                if len(bad) >= 2:
                    return {"property": self.pid, "type": "case", "build": kind, "choices": f.choices.hex(),
                            "failure": self.describe(*bad[-1]), "log": bad[-1][1][-6000:],
                            "note": f"failed in {len(bad)} of {len(logs)} replays: it depends on the interleaving"}
        if f.campaign:
            # It may need the cases before it.
            bad = 0
            for _ in range(5):
                rc, log = self.campaign_once(f.kind, f.campaign)
                bad += rc != 0
                if bad >= 2:
                    return {"property": self.pid, "type": "campaign", "build": f.kind, "campaign": list(f.campaign),
                            "failure": self.describe(rc, log),
                            "note": "the last case fails after the earlier ones of the same campaign",
                            "log": log[-6000:]}
        self.notes.append(f"a failure of the {f.kind} build did not reproduce: {f.what}")
        print("note: " + self.notes[-1])
        return None

    def shrunk(self, kind, f, last):
        rc, log = last
        choices = f.choices
        if kind != "fuzz" and rc not in (11, "hang"):
            src, dst = os.path.join(self.dir, "shrink.in"), os.path.join(self.dir, "shrink.out")
            with open(src, "wb") as o:
                o.write(choices)
            src_rc, _ = self.run([self.bin[kind], "shrink", src, dst, "40"], 150)
            if src_rc == 0 and os.path.exists(dst):
                small = content(dst)
                again = [self.replay_once(kind, small) for _ in range(3)]
                if all(r != 0 for r, _ in again):
                    choices, (rc, log) = small, again[-1]
        return {"property": self.pid, "type": "case", "build": kind, "choices": choices.hex(),
                "failure": self.describe(rc, log), "log": log[-6000:]}

    # -- the check ----------------------------------------------------------------------------------------------------
    def violation(self, record):
        d = os.path.join(EVIDENCE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{digest([json.dumps(record)])[:12]}.json")
        with open(path, "w") as f:
            json.dump(record, f, indent=1)
        print(record["log"][-3000:])
        print(f"{self.pid}: {record['failure']}")
        print(f"replay with: python3 {os.path.join(HERE, 'run.py')} replay {path}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def evidence(self, violations):
        total = {"evaluations": 0, "discarded": 0, "nontrivial": 0}
        labels, samples, rule = {}, [], ""
        for path in self.stats:
            try:
                with open(path) as f:
                    s = json.load(f)
            except ValueError:  # the process ended while it wrote this
                continue
            for k in total:
                total[k] += s[k]
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
            rule = s["rule"]
            samples += [x for x in s["samples"][:2] if x not in samples]
        hashes = [p + ".hashes" for p in self.stats if os.path.exists(p + ".hashes")]
        distinct = 0
        if hashes:
            _, out = self.run([next(iter(self.bin[k] for k in ("fast", "san", "tsan", "work") if k in self.bin)), "count"] + hashes,
                              300)
            distinct = int(out.split()[-1])
        if not rule:
            rule = "no stage completed: the first case of each worker which failed ended it"
        doc = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": total["evaluations"], "distinct_nontrivial": distinct, "rule": rule,
                "samples": samples[:12], "nontrivial_evaluations": total["nontrivial"], "discarded": total["discarded"],
                "labels": dict(sorted(labels.items())), "stages": self.stage_report,
            },
            "assumptions": [
                "The reference models in /verif/ref express the RFCs and the decisions recorded in DESIGN.md.",
                "g++ 13 and clang 18 with libstdc++ on x86-64; the C locale, except for P26.",
            ] + self.notes,
            "wall_s": round(time.monotonic() - self.t0, 1),
            "violations": violations,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, f".{self.pid}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(EVIDENCE, f"{self.pid}.json"))
        return doc

    def stages(self):
        cfg = PROPS[self.pid]["stages"]
        factor, limit = (THOROUGH, THOROUGH_LIMIT) if self.tier == "thorough" else (1, QUICK_LIMIT)
        seeds = os.path.join(self.dir, "seeds")
        os.makedirs(seeds, exist_ok=True)
        for kind in ("tsan", "work", "fast", "san"):
            if cfg[kind] and kind in self.bin:
                yield lambda kind=kind: self.random_stage(kind, cfg[kind] * factor, limit, seeds if kind == "san" else None)
        if cfg["fuzz"] and "fuzz" in self.bin:
            yield lambda: self.fuzz_stage(cfg["fuzz"] * factor, limit, seeds)

    def main(self):
        try:
            self.build()
            print(f"{self.pid}: built in {time.monotonic() - self.t0:.1f} s", flush=True)
            if self.uncompiled:
                name, what, log = self.uncompiled[0]
                self.evidence(1)
                self.violation({"property": self.pid, "type": "build", "build": "fast", "config": name, "what": what,
                                "failure": f"{what} does not compile in the configuration {name}", "log": log})
                return 1
            for stage in self.stages():
                tried = 0
                for f in stage():
                    tried += 1
                    if tried > 3:
                        break
                    record = self.confirm(f)
                    if record:
                        self.evidence(1)
                        self.violation(record)
                        return 1
            doc = self.evidence(0)
            cov = doc["coverage"]
            for key, what in self.known.items():
                if cov["labels"].get(f"known finding: {key}"):
                    print(f"KNOWN-FINDING: property={self.pid} {key}: {what}")
            print(f"{self.pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial, "
                  f"{cov['discarded']} discarded) in {doc['wall_s']} s")
            return 0
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def replay(path):
    with open(path) as f:
        record = json.load(f)
    c = Check(record["property"], 1, "quick")
    try:
        c.build([record["build"]])
        if record["type"] == "build":
            rc, log = len(c.uncompiled), "\n".join(f"{n}: {w}: {o}" for n, w, o in c.uncompiled)
        elif record["type"] == "campaign":
            rc, log = c.campaign_once(record["build"], record["campaign"])
        else:
            rc, log = c.replay_once(record["build"], bytes.fromhex(record["choices"]))
        print(log)
        print("still fails" if rc != 0 else "passes")
        return 1 if rc != 0 else 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def setup():
    for tool in ("g++", "clang++"):
        r = sh([tool, "--version"])
        print(r.stdout.splitlines()[0] if r.stdout else tool)
        if r.returncode != 0:
            return 1
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    return 0


def main(argv):
    if len(argv) == 2 and argv[1] == "setup":
        return setup()
    if len(argv) == 3 and argv[1] == "replay":
        return replay(argv[2])
    if len(argv) == 3 and argv[1] == "check" and argv[2] in PROPS:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        tier = os.environ.get("VERIF_TIER", "quick")
        return Check(argv[2], seed, tier if tier == "thorough" else "quick").main()
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv))
    except (BuildError, RuntimeError, OSError) as e:
        print(f"ERROR: {e}")
        sys.exit(2)
