"""Check framework: builds /repo sources with sanitizers, runs harnesses, judges, writes evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(V, ".cache")
JOBS = max(2, min(8, os.cpu_count() or 4))
R = lambda *p: os.path.join(REPO, *p)
H = lambda *p: os.path.join(V, "harness", *p)

class CheckError(Exception):
    pass

# --------------------------------------------------------------------------- sources
def _g(d, pats=("*.cc",), skip=()):
    out = []
    for p in pats:
        for f in sorted(glob.glob(R(d, p))):
            b = os.path.basename(f)
            if b in skip or b.endswith("_test.cc") or "_main." in b:
                continue
            out.append(f)
    return out

def group(name):
    if name == "utils":
        return _g("utils", ("*.cc", "maxent.cpp"), ("atools.cc", "dedup_corpus.cc", "ts.cc", "reconstruct_weights.cc"))
    if name == "mteval":
        return _g("mteval", skip=("fast_score.cc", "mbr_kbest.cc"))
    if name == "decoder":
        return _g("decoder", skip=("cdec.cc", "rule_lexer.cc", "hg_test.cc", "ff_sample_fsa.cc", "minimal_decoder.cc")) + ["@rule_lexer"]
    if name == "klm_util":
        return _g("klm/util") + _g("klm/util/double-conversion")
    if name == "klm_stream":
        return _g("klm/util/stream")
    if name == "klm":
        return _g("klm/lm")
    if name == "ksearch":
        return _g("klm/search", skip=("vertex_generator.cc",))  # not in its CMakeLists
    if name == "lmbuilder":
        return _g("klm/lm/builder")
    if name == "extractor":
        return _g("extractor", skip=("sacompile.cc", "run_extractor.cc", "extract.cc")) + _g("extractor/features")
    if name == "training_utils":
        return [R("training/utils", f) for f in ("candidate_set.cc", "entropy.cc", "risk.cc", "optimize.cc", "online_optimizer.cc")]
    if name == "dpmert":
        return [R("training/dpmert", f) for f in ("ces.cc", "error_surface.cc", "line_optimizer.cc", "mert_geometry.cc")]
    if name == "liblbfgs":
        return _g("training/liblbfgs", ("*.c", "*.cpp"), ("ll_test.cc",))
    raise CheckError("unknown group " + name)

INC = ["-I" + os.path.join(V, "include"), "-I" + REPO, "-I" + R("decoder"), "-I" + R("utils"), "-I" + R("mteval"),
       "-I" + R("klm"), "-I/usr/include/eigen3", "-I" + R("training"), "-I" + R("training/utils"),
       "-I" + R("training/dpmert"), "-I" + R("training/liblbfgs"), "-I" + R("training/crf"), "-I" + R("word-aligner")]
INC_EXT = ["-I" + os.path.join(V, "include"), "-I" + R("utils"), "-I" + R("extractor"), "-I" + R("extractor/features"), "-I" + REPO]
DEFS = ["-DKENLM_MAX_ORDER=6", "-DHAVE_CONFIG_H", "-DCDEC_VERIF"]
SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr,null,alignment,object-size,nonnull-attribute", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
    "opt": ["-O2", "-g1"],
}
LINK_SAN = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": [], "opt": []}
LIBS = ["-lboost_regex", "-lboost_filesystem", "-lboost_serialization", "-lboost_program_options", "-lboost_system",
        "-lboost_thread", "-lz", "-lbz2", "-llzma", "-ldl", "-lpthread", "-lrt"]

def _sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return "missing"

_sha_memo = {}
def _shac(path):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
    except OSError:
        return "missing"
    if k not in _sha_memo:
        _sha_memo[k] = _sha(path)
    return _sha_memo[k]

class Builder:
    def __init__(self, flavor="asan", extra=(), ext=False, verbose=False):
        self.flavor, self.extra = flavor, list(extra)
        self.inc = INC_EXT if ext else INC
        self.verbose = verbose
        self.dir = os.path.join(CACHE, "obj")
        os.makedirs(self.dir, exist_ok=True)

    def _resolve(self, src):
        if src == "@rule_lexer":
            d = os.path.join(CACHE, "gen"); os.makedirs(d, exist_ok=True)
            ll = R("decoder/rule_lexer.ll")
            out = os.path.join(d, "rule_lexer_%s.cc" % _shac(ll)[:12])
            if not os.path.exists(out):
                tmp = out + ".%d" % os.getpid()
                r = subprocess.run(["flex", "-o", tmp, ll], capture_output=True, text=True)
                if r.returncode:
                    raise CheckError("flex failed: " + r.stderr)
                s = open(tmp).read().replace(tmp, "rule_lexer.cc")
                open(tmp, "w").write(s)
                os.rename(tmp, out)
            return out
        return src

    def compile(self, src, extra=()):
        real = self._resolve(src)
        isc = real.endswith(".c")
        flags = ["-std=gnu99" if isc else "-std=c++14", "-w"] + SAN[self.flavor] + self.extra + list(extra) + DEFS + self.inc
        if not isc:
            flags += ["-include", os.path.join(V, "include/vcompat.h")]
        key = hashlib.sha1(("\0".join([real] + flags)).encode()).hexdigest()[:20]
        obj = os.path.join(self.dir, key + ".o")
        man = os.path.join(self.dir, key + ".json")
        try:
            m = json.load(open(man))
            if os.path.exists(obj) and all(_shac(p) == h for p, h in m.items()):
                return obj
        except (OSError, ValueError):
            pass
        dep = obj + ".d%d" % os.getpid()
        tmp = obj + ".t%d" % os.getpid()
        r = subprocess.run(["gcc" if isc else "g++", "-c", real, "-o", tmp, "-MMD", "-MF", dep] + flags,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (real, r.stderr[-3000:]))
        deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        os.unlink(dep)
        os.rename(tmp, obj)
        json.dump({p: _shac(p) for p in set(deps) if not p.startswith("/usr/")}, open(man, "w"))
        return obj

    def compile_many(self, srcs, extra=()):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda s: self.compile(s, extra), srcs))

    def link(self, out, objs, libs=(), archive=None, trace=None):
        cmd = ["g++"] + LINK_SAN[self.flavor] + self.extra + ["-fuse-ld=gold", "-o", out] + objs
        if trace: cmd += ["-Wl,-t"]
        if archive: cmd += ["-Wl,--start-group", archive, "-Wl,--end-group"]
        cmd += LIBS + list(libs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (out, r.stderr[-3000:]))
        return r.stdout

    def program(self, name, mains, groups, libs=(), extra=()):
        """Builds `mains` plus what they need of `groups`; returns the executable."""
        outdir = os.path.join(CACHE, "bin"); os.makedirs(outdir, exist_ok=True)
        exe = os.path.join(outdir, "%s.%s" % (name, self.flavor))
        clos_file = os.path.join(V, "vlib", "closures.json")
        clos = json.load(open(clos_file)) if os.path.exists(clos_file) else {}
        allsrc = []
        for g in groups:
            for s in group(g):
                if s not in allsrc: allsrc.append(s)
        rel = lambda s: os.path.relpath(s, REPO) if s.startswith("/") else s
        want = clos.get(name)
        if want is not None and not os.environ.get("VERIF_CLOSURE"):
            sub = [s for s in allsrc if rel(s) in set(want)]
            objs = self.compile_many(list(mains) + sub, extra)
            try:
                self.link(exe, objs, libs)
                return exe
            except CheckError:
                pass  # the set of needed sources changed: fall back to everything
        objs = self.compile_many(list(mains) + allsrc, extra)
        mo, lo = objs[:len(mains)], objs[len(mains):]
        ar = exe + ".a"
        if os.path.exists(ar): os.unlink(ar)
        if lo:
            subprocess.run(["ar", "rcs", ar] + lo, check=True, capture_output=True)
        tr = self.link(exe, mo, libs, ar if lo else None, trace=True)
        used = set(re.findall(r"([0-9a-f]{20}\.o)", tr))
        byobj = {os.path.basename(o): rel(s) for s, o in zip(allsrc, lo)}
        if os.environ.get("VERIF_CLOSURE"):
            clos = json.load(open(clos_file)) if os.path.exists(clos_file) else {}
            clos[name] = sorted(byobj[u] for u in used if u in byobj)
            json.dump(clos, open(clos_file, "w"), indent=1, sort_keys=True)
        return exe

# --------------------------------------------------------------------------- check context
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}

def run_env(extra=None):
    e = dict(os.environ); e.update(SAN_ENV)
    if extra: e.update(extra)
    return e

class Check:
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.t0 = time.time()
        self.work = os.path.join(V, ".work", prop + ".%d" % os.getpid())
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.counts, self.maxima, self.distinct, self.samples = {}, {}, {}, []
        self.viol = []      # (key, message, replay dict)
        self.notes = []
        try:
            kf = json.load(open(os.path.join(V, "known_findings.json")))
        except OSError:
            kf = {"findings": []}
        self.known = [k for k in kf.get("findings", []) if k["property"] == prop]
        self.known_hit = {}

    @property
    def thorough(self): return self.tier == "thorough"
    def n(self, quick, thorough): return thorough if self.thorough else quick

    # -- recording
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def dist(self, k, v): self.distinct.setdefault(k, set()).add(v)
    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(str(s)[:800])
    def violation(self, key, msg, replay=None):
        for k in self.known:
            if re.fullmatch(k["key"], key):
                self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                return
        self.viol.append((key, msg, replay or {}))
    def expect(self, cond, key, msg, replay=None):
        self.count("oracle_checks")
        if not cond: self.violation(key, msg() if callable(msg) else msg, replay() if callable(replay) else replay)
        return cond

    # -- running C++ harness in parallel shards
    def harness(self, exe, total, shards=None, timeout=420, env=None, args=(), label=None, case_timeout=150):
        shards = shards or JOBS
        total = max(total, shards)
        if os.environ.get("VERIF_ONLY"):
            only = int(os.environ["VERIF_ONLY"])
            r = subprocess.run([exe, "--seed", str(self.seed), "--only", str(only), "--dir", self.work, "--verbose"] +
                               (["--thorough"] if self.thorough else []) + list(args), env=run_env(env))
            print("replayed case", only, "exit", r.returncode); sys.exit(1 if r.returncode else 0)
        label = label or os.path.basename(exe)
        # striped blocks so that every shard has similar work
        per = (total + shards - 1) // shards
        def one(i):
            d = os.path.join(self.work, "%s.%d" % (label, i)); os.makedirs(d, exist_ok=True)
            out, st = os.path.join(d, "stats.json"), os.path.join(d, "status")
            cmd = [exe, "--seed", str(self.seed), "--first", str(i * per), "--count", str(per), "--out", out,
                   "--status", st, "--dir", d] + (["--thorough"] if self.thorough else []) + list(args)
            log, so = os.path.join(d, "stderr"), os.path.join(d, "stdout")
            with open(log, "wb") as e, open(so, "wb") as o:
                p = subprocess.Popen(cmd, stdout=o, stderr=e, env=run_env(env), cwd=d, start_new_session=True)
                to = False
                try:
                    p.wait(timeout)
                except subprocess.TimeoutExpired:
                    to = True
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
            return i, cmd, p.returncode, to, d
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, range(shards)))
        for i, cmd, rc, to, d in res:
            self._judge(exe, cmd, rc, to, d, args, env, case_timeout)

    def _case(self, d):
        try:
            return int(open(os.path.join(d, "status"), "rb").read().split(b"\0")[0] or b"-1")
        except (OSError, ValueError):
            return -1

    def _judge(self, exe, cmd, rc, to, d, args, env, case_timeout):
        so = open(os.path.join(d, "stdout"), errors="replace").read()
        nv = 0
        for m in re.finditer(r"^@@VIOL key=(\S+) case=(-?\d+) msg=(.*)$", so, re.M):
            nv += 1
            self.violation(m.group(1), m.group(3), {"case": int(m.group(2)), "exe": os.path.basename(exe), "args": list(args)})
        try:
            st = json.load(open(os.path.join(d, "stats.json")))
            self.merge(st)
        except (OSError, ValueError):
            pass
        if to:
            case = self._case(d)
            # not a verdict by itself: run the current case alone, twice as long
            try:
                c2 = [exe, "--seed", str(self.seed), "--only", str(case), "--dir", d] + (["--thorough"] if self.thorough else []) + list(args)
                subprocess.run(c2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=run_env(env), timeout=case_timeout, cwd=d)
                self.notes.append("shard %s timed out at case %d (slow, not hung)" % (d[-3:], case))
                self.count("shards_timed_out")
            except subprocess.TimeoutExpired:
                self.violation("hang:" + os.path.basename(exe).split(".")[0],
                               "case %d does not finish within %d s on its own" % (case, case_timeout),
                               {"case": case, "exe": os.path.basename(exe), "args": list(args)})
            return
        if rc not in (0, 3) or "@@DONE" not in so and nv == 0:
            err = open(os.path.join(d, "stderr"), errors="replace").read()
            if rc == 64: raise CheckError("harness usage error: " + err[-500:])
            key, line = crash_key(err, rc)
            self.violation(key, line, {"case": self._case(d), "exe": os.path.basename(exe), "args": list(args), "stderr": err[-6000:]})

    def merge(self, st):
        for k, v in st.get("counts", {}).items(): self.count(k, v)
        for k, v in st.get("maxima", {}).items(): self.maxima[k] = max(v, self.maxima.get(k, v))
        for k, v in st.get("distinct", {}).items(): self.distinct.setdefault(k, set()).update(v)
        for s in st.get("samples", []): self.sample(s)

    # -- running one program under the sanitizers; crash is reported as a violation
    def run(self, cmd, stdin=None, env=None, timeout=180, key=None, replay=None, ok=(0,), cwd=None):
        try:
            r = subprocess.run(cmd, input=stdin, capture_output=True, env=run_env(env), timeout=timeout, cwd=cwd or self.work)
        except subprocess.TimeoutExpired:
            try:
                r = subprocess.run(cmd, input=stdin, capture_output=True, env=run_env(env), timeout=timeout * 2, cwd=cwd or self.work)
            except subprocess.TimeoutExpired:
                self.violation("hang:" + os.path.basename(cmd[0]), "no answer within %d s (twice)" % timeout, replay)
                return None
        self.count("program_runs")
        if r.returncode not in ok:
            err = r.stderr.decode("utf8", "replace")
            k, line = crash_key(err, r.returncode)
            self.violation(key or k, "%s: %s" % (os.path.basename(cmd[0]), line),
                           dict(replay or {}, cmd=[str(c) for c in cmd], stdin=(stdin or b"").decode("utf8", "replace")[:20000], stderr=err[-6000:]))
            return None
        return r

    # -- end
    def finish(self, evaluations=None, distinct=None, min_evals=1):
        ev = evaluations if evaluations is not None else self.counts.get("cases", 0)
        dn = distinct if distinct is not None else len(self.distinct.get("nontrivial", ()))
        wall = round(time.time() - self.t0, 2)
        cov = {"evaluations": int(ev), "distinct_nontrivial": int(dn), "rule": self.rule,
               "samples": self.samples or ["(none)"],
               "observed": dict(sorted(self.counts.items())),
               "observed_distinct": {k: len(v) for k, v in sorted(self.distinct.items())},
               "observed_maxima": dict(sorted(self.maxima.items()))}
        if self.notes: cov["notes"] = self.notes
        if self.known_hit: cov["known_findings_seen"] = self.known_hit
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        p = os.path.join(V, "evidence", self.prop + ".json")
        json.dump(d, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.viol:
            rp = os.path.join(V, "evidence", self.prop + ".replay.json")
            json.dump([{"key": k, "message": m, "replay": r, "property": self.prop, "seed": self.seed, "tier": self.tier}
                       for k, m, r in self.viol[:20]], open(rp, "w"), indent=1)
            for k, m, r in self.viol[:5]:
                print("  [%s] %s" % (k, m[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, V)))
            shutil.rmtree(self.work, ignore_errors=True)
            sys.exit(1)
        shutil.rmtree(self.work, ignore_errors=True)
        if ev < min_evals or dn < 2:
            print("INCONCLUSIVE property=%s: only %d evaluations, %d distinct non-trivial" % (self.prop, ev, dn))
            sys.exit(2)
        print("HELD property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (self.prop, ev, dn, wall))
        sys.exit(0)

def crash_key(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", err)
    def top():
        for fn, f, l in fr:
            if f.startswith(REPO) or "/repo/" in f:
                return os.path.basename(f) + ":" + re.sub(r"\(.*", "", fn).replace(" ", "")[:60]
        return "?"
    if m: return "asan:%s:%s" % (m.group(1), top()), "AddressSanitizer %s in %s" % (m.group(1), top())
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", err)
    if m: return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[^a-z]+", "-", m.group(3).lower())[:40]), m.group(0)[:300]
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z ]+)", err)
    if m: return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), top()), "ThreadSanitizer " + m.group(1) + " in " + top()
    m = re.search(r"(\S+): Assertion [`'](.*)' failed", err)
    if m: return "assert:" + re.sub(r"\W+", "_", m.group(2))[:60], m.group(0)[:300]
    m = re.search(r"terminate called.*?(?:what\(\): *(.*))?$", err, re.M | re.S)
    if "terminate called" in err: return "exception", err[err.index("terminate called"):][:300].replace("\n", " ")
    return "exit:%d" % rc, "exit status %d: %s" % (rc, err[-300:].replace("\n", " "))

def text(path):
    with open(path, "rb") as f: return f.read().decode("utf8", "replace")
def gunzip(path):
    import gzip
    with gzip.open(path, "rb") as f: data = f.read()
    with open(path[:-3], "wb") as f: f.write(data)
    os.unlink(path)
