"""Shared machinery of the checks: building c3c from /repo, compiling and running C3 programs,
running TLC, reporting violations and writing evidence.  Everything is written in a private scratch
directory that is removed at the end, except /verif/evidence and the content-addressed build cache
(/verif/.cache, ignored by git, keyed by the bytes of the sources it was built from)."""

import atexit
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CACHE = os.path.join(VERIF, ".cache")
JOBS = min(8, os.cpu_count() or 1)
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not run (not a verdict on the property)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, timeout=120, env=None, stdin=None, binary=False):
    """(exit code, stdout, stderr); the process group is killed at the limit (code -999)."""
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, env=env,
                         shell=isinstance(cmd, str))
    if isinstance(stdin, str):
        stdin = stdin.encode()
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        code = -999
    if not binary:
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    return code, out, err


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, ds, fs in os.walk(top):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", prop)))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        atexit.register(shutil.rmtree, self.dir, True)
        self.violations = []
        self.known_hit = []
        self.coverage = {"samples": []}
        self.assumptions = []
        self.known = self._load_known()
        self.states = 0
        self.transitions = 0
        self.traces = 0

    # ---------------------------------------------------------------- findings
    def _load_known(self):
        known = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line)
                if m and m[1] == self.prop:
                    known[m[2]] = m[3]
        return known

    def violation(self, key, what, replay):
        """key identifies the failing input or call site; replay is written to the evidence directory."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
                print(f"KNOWN-FINDING: property={self.prop} {self.known[key]} [{key}]", flush=True)
            return
        if key in [k for k, _ in self.violations]:
            return
        n = len(self.violations)
        if n < 20:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            log(f"  {key}: {str(what)[:600]}")
        self.violations.append((key, what))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.coverage)
        if self.level == "model_checking":
            cov.setdefault("states", self.states)
            cov.setdefault("transitions", self.transitions)
            cov.setdefault("traces_validated_against_impl", self.traces)
        cov["samples"] = cov.get("samples", [])[:6]
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        log(f"{self.prop}: {len(self.violations)} violations, {json.dumps({k: v for k, v in cov.items() if k != 'samples'}, default=str)[:900]}, {ev['wall_s']} s")
        return 1 if self.violations else 0

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    # ---------------------------------------------------------------- c3c
    def build_c3c(self):
        """Builds c3c from /repo's working tree (same flags as /opt/vp/build.sh) and returns its path.
        The standard library is used straight from /repo/lib."""
        key = tree_hash([os.path.join(REPO, x) for x in
                         ("src", "wrapper", "dependencies", "CMakeLists.txt", "git_hash.cmake")])
        cached = os.path.join(CACHE, "c3c-" + key)
        if os.path.exists(cached):
            self.c3c = cached
            os.utime(cached)        # the least recently used builds are the ones dropped below
        else:
            b = os.path.join(self.dir, "build")
            code, out, err = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=clang-18",
                                 "-DCMAKE_CXX_COMPILER=clang++-18", "-DCMAKE_BUILD_TYPE=Debug",
                                 "-DCMAKE_C_FLAGS_DEBUG=-O1", "-DC3_LLVM_VERSION=18.1",
                                 "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], timeout=300)
            if code:
                raise CheckError("cmake failed:\n" + out[-3000:] + err[-3000:])
            code, out, err = sh(["ninja", "-C", b, "c3c"], timeout=800)
            if code:
                raise CheckError("build failed:\n" + out[-5000:] + err[-3000:])
            os.makedirs(CACHE, exist_ok=True)
            try:
                old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
                for f in old[:-4]:
                    os.unlink(f)
                tmp = f"{cached}.{os.getpid()}"
                shutil.copy2(os.path.join(b, "c3c"), tmp)
                os.replace(tmp, cached)
                self.c3c = cached
            except OSError:
                self.c3c = os.path.join(b, "c3c")
            else:
                shutil.rmtree(b, True)
        self.stdlib = os.path.join(REPO, "lib")
        return self.c3c

    def c3(self, args, cwd=None, timeout=120):
        return sh([self.c3c] + list(args) + ["--stdlib", self.stdlib], cwd=cwd, timeout=timeout)

    def compile(self, name, files, opts=(), timeout=120, cmd="compile"):
        """Compiles {filename: text} (or a list of paths) in its own directory; (executable or None, messages)."""
        d = os.path.join(self.dir, "c", name)
        os.makedirs(d, exist_ok=True)
        paths = []
        if isinstance(files, dict):
            for f, text in files.items():
                with open(os.path.join(d, f), "w") as fh:
                    fh.write(text)
                if f.endswith((".c3", ".c")):
                    paths.append(f)
        else:
            paths = list(files)
        exe = os.path.join(d, "prog")
        code, out, err = self.c3([cmd] + paths + ["-o", "prog", "--threads", "1", "-g0", "--ansi=no"] + list(opts), cwd=d, timeout=timeout)
        if code != 0 or not os.path.exists(exe):
            return None, f"exit {code}\n{out}{err}"
        return exe, out + err

    def pmap(self, fn, items, jobs=JOBS):
        with ThreadPoolExecutor(jobs) as pool:
            return list(pool.map(fn, items))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=(), consts="", simulate=None, depth=100, workers=JOBS, timeout=600,
            extra=(), heap="6g", expect_ok=True, jvm=()):
        """Runs TLC on spec/<module>.tla with the given configuration text, in a private directory into which
        spec/*.tla and `files` {name: text} are put. Returns (exit code, output)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for n, t in dict(files).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", f"-Xmx{heap}", "-Xss64m", *jvm, "-cp", TLA, "tlc2.TLC", "-config", "run.cfg",
               "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE", "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        code, out, err = sh(cmd, cwd=d, timeout=timeout)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"(\d[\d,]*) states checked", out)
            if m:
                n = int(m[-1].replace(",", ""))
                self.states += n
                self.transitions += n
        if expect_ok and code != 0:
            raise CheckError(f"TLC on {module} ended with {code}:\n" + out[-4000:] + err[-2000:])
        shutil.rmtree(d, True)
        return code, out

    def tlc_cases(self, module, cases, cfg, name="cases.json", shards=None, timeout=600, heap="3g", **kw):
        """Validates recorded cases: writes them as JSON, runs TLC, and returns the tuples the specification
        printed with PrintT(<<"TAG", ...>>), parsed as lists of fields (ints, strings)."""
        shards = shards or 1
        parts = [cases[i::shards] for i in range(shards)]
        idx = [list(range(len(cases)))[i::shards] for i in range(shards)]

        def one(i):
            if not parts[i]:
                return []
            code, out = self.tlc(module, cfg, files={name: json.dumps(parts[i])}, workers=max(1, JOBS // shards),
                                 timeout=timeout, heap=heap, **kw)
            res = []
            for tup in parse_prints(out):
                if len(tup) > 1 and isinstance(tup[1], int) and 1 <= tup[1] <= len(parts[i]):
                    tup = [tup[0], idx[i][tup[1] - 1]] + tup[2:]
                res.append(tup)
            return res

        return [t for r in self.pmap(one, range(shards), shards) for t in r]


def parse_tla(s, i=0):
    """Parses a TLA+ value printed by TLC (numbers, strings, booleans, sequences, sets, records, functions)."""
    n = len(s)

    def ws(i):
        while i < n and s[i] in " \n\t\r":
            i += 1
        return i

    def items(i, close):
        out = []
        i = ws(i)
        if s.startswith(close, i):
            return out, i + len(close)
        while True:
            v, i = val(i)
            out.append(v)
            i = ws(i)
            if s[i] == ",":
                i += 1
                continue
            if s.startswith(close, i):
                return out, i + len(close)
            raise ValueError(f"bad value at {s[i:i+40]!r}")

    def val(i):
        i = ws(i)
        if s.startswith("<<", i):
            return items(i + 2, ">>")
        if s[i] == "{":
            return items(i + 1, "}")
        if s[i] == '"':
            j = i + 1
            buf = []
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                    buf.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[j], s[j]))
                else:
                    buf.append(s[j])
                j += 1
            return "".join(buf), j + 1
        if s[i] == "[":
            out = {}
            i = ws(i + 1)
            while s[i] != "]":
                m = re.compile(r"(\w+)\s*\|->").match(s, i)
                v, i = val(m.end())
                out[m[1]] = v
                i = ws(i)
                if s[i] == ",":
                    i = ws(i + 1)
            return out, i + 1
        if s[i] == "(":
            out = {}
            i = ws(i + 1)
            while True:
                k, i = val(i)
                i = ws(i)
                assert s.startswith(":>", i)
                v, i = val(i + 2)
                out[k if not isinstance(k, list) else tuple(k)] = v
                i = ws(i)
                if s.startswith("@@", i):
                    i += 2
                    continue
                return out, ws(i) + 1
        m = re.compile(r"-?\d+").match(s, i)
        if m:
            return int(m[0]), m.end()
        m = re.compile(r"\w+").match(s, i)
        return {"TRUE": True, "FALSE": False}.get(m[0], m[0]), m.end()

    return val(i)


def parse_prints(out):
    res = []
    for m in re.finditer(r'<<\s*"[A-Z_]+"', out):
        try:
            res.append(parse_tla(out, m.start())[0])
        except Exception:
            raise CheckError("cannot parse TLC output: " + out[m.start():m.start() + 400])
    if len(res) != out.count('"MISMATCH"'):
        raise CheckError("cannot read TLC's output: " + out[:2000])
    return res


def main(prop, level, run):
    ctx = Ctx(prop, level)
    try:
        run(ctx)
        return ctx.finish()
    except CheckError as e:
        log(f"{prop}: check error: {e}")
        if ctx.violations:
            ctx.finish()
            return 1
        return 2
