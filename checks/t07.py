import gzip, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
from checks.d12 import dump, dot
TECHNIQUE = "end-to-end monitoring of the tuning drivers on the real decoder, workers and optimisers: every round's translations, scores, forests and weights are recomputed from the development set and the weights the round started from; the score promised by minimum error training is recomputed from all derivations of the accumulated forests; under ASan+UBSan, with the drivers' waiting times shortened"
NOTE = "Held on the runs made: up to 12 sentences, 6 features, 3 rounds and 3 workers on one machine (no queueing system). mira.py needs Python 2, which is not installed, and is not run."
def build():
    b = vf.Builder("asan"); D = ["decoder", "utils", "mteval"]; T = ["training_utils", "liblbfgs"] + D; q = lambda n, s, g, **k: b.program(n, [vf.R(s)], g, **k)
    e = {"cdec": q("cdec", "decoder/cdec.cc", D + ["klm", "klm_util", "ksearch"]), "score": q("fast_score", "mteval/fast_score.cc", ["utils", "mteval"]), "server": b.program("sentserver", [vf.R("training/utils/sentserver.cc"), vf.H("jitter.cc")], [], libs=["-lpthread", "-Wl,--wrap=pthread_mutex_unlock"]), "client": q("sentclient", "training/utils/sentclient.cc", []), "hgdump": b.program("hgdump", [vf.H("hgdump.cc")], D)}
    for n in ("mr_dpmert_generate_mapper_input", "mr_dpmert_map", "mr_dpmert_reduce"): e[n] = b.program(n, [vf.R("training/dpmert/%s.cc" % n)], ["dpmert"] + D)
    for n in ("mr_pro_map", "mr_pro_reduce"): e[n] = q(n, "training/pro/%s.cc" % n, T)
    e["rampion_cccp"] = q("rampion_cccp", "training/rampion/rampion_cccp.cc", T); e["minrisk_optimize"] = q("minrisk_optimize", "training/minrisk/minrisk_optimize.cc", T); return e
DRIVERS = {"dpmert": ("dpmert.pl", ["mr_dpmert_generate_mapper_input", "mr_dpmert_map", "mr_dpmert_reduce"], []), "pro": ("pro.pl", ["mr_pro_map", "mr_pro_reduce"], ["mr_pro_generate_mapper_input.pl"]), "rampion": ("rampion.pl", ["rampion_cccp"], ["rampion_generate_input.pl"]), "minrisk": ("minrisk.pl", ["minrisk_optimize"], ["minrisk_generate_input.pl"])}
def wr(p, t): open(p, "w").write(t)
def stage(c, E):
    """scripts and programs laid out as in a build"""
    d = os.path.join(c.work, "stage")
    for x in ["training/utils", "environment", "mteval", "decoder", "bin"] + ["training/" + k for k in DRIVERS]: os.makedirs(os.path.join(d, x))
    cp = lambda a, b: shutil.copy(a, os.path.join(d, b)); cp(vf.R("environment/LocalConfig.pm"), "environment")
    for x in ("parallelize.pl", "libcall.pl"): cp(vf.R("training/utils/" + x), "training/utils")
    cp(E["server"], "training/utils/sentserver"); cp(E["client"], "training/utils/sentclient"); cp(E["cdec"], "decoder/cdec"); cp(E["score"], "mteval/fast_score")
    for k, (pl, ex, sc) in DRIVERS.items():
        for x in [pl] + sc: cp(vf.R("training/%s/%s" % (k, x)), "training/%s/%s" % (k, x)); os.chmod("%s/training/%s/%s" % (d, k, x), 0o755)
        for x in ex: cp(E[x], "training/%s/%s" % (k, x))
    for n, t in (("hostname", "echo localhost"), ("netstat", "exit 0")): wr(d + "/bin/" + n, "#!/bin/sh\n%s\n" % t); os.chmod(d + "/bin/" + n, 0o755)
    return d
def wts(t): return {k: float(v) for k, v in (l.rsplit(" ", 1) for l in t.split("\n") if l and l[0] != "#")}
def same(a, b, tol=1e-6): return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * (1 + abs(a.get(k, 0))) for k in set(a) | set(b))
class Tie(Exception): pass
def best(D, w):
    s = [(dot(f, w), e) for e, _, f, _ in D]; b = max(x for x, _ in s); t = {e for x, e in s if x >= b - 1e-7 * (1 + abs(b))}
    if len(t) > 1: raise Tie()
    return t.pop()
def one(c, E, d, kind, i, r):
    w = os.path.join(c.work, "%s%d" % (kind, i)); os.mkdir(w); env = {"PATH": d + "/bin:" + os.environ["PATH"], "ASAN_OPTIONS": "detect_leaks=0", "USER": "x", "PERL5OPT": "-I%s -MQuick" % vf.H("perl"), "QUICK_PORTS": d + "/ports", "LC_ALL": "C"}; V = "abcd"; F = ["F%d" % k for k in range(r.randint(2, 6))]; ter = r.random() < .4; metric = r.choice(["ter", "TER"]) if ter else r.choice(["ibm_bleu", "ibm_bleu", "IBM_BLEU", "koehn_bleu"]) 
    T = [(s, t) for s in V for t in ["A" + s, "B " + s, "C" + s][:r.randint(2, 3)]]
    wr(w + "/g", "".join("[X] ||| %s ||| %s ||| %s\n" % (s, t, " ".join("%s=%.3f" % (f, r.uniform(-1, 1)) for f in F)) for s, t in T)); n = r.choice([3, 6, 9, 12]); src = [" ".join(r.choice(V) for _ in range(r.randint(2, 5))) for _ in range(n)]; wr(w + "/ini", "formalism=scfg\ngrammar=%s/g\n%s" % (w, "beam_prune=%.1f\n" % r.choice([.1, r.uniform(.1, 2)]) if r.random() < .7 else "")); wr(w + "/w0", "".join("%s %.3f\n" % (f, r.uniform(-1, 1)) for f in F) + "Glue 0.1\n" * (r.random() < .5))
    def ref(s):
        out = [r.choice([t for x, t in T if x == z]) for z in s.split()]
        if r.random() < .5: out.insert(r.randrange(len(out) + 1), "z")
        return " ".join(out)
    k = r.randint(1, 2); refs = [[ref(s) for _ in range(k)] for s in src]; jobs = r.randint(1, 3); rounds = r.randint(2, 3); rep = {"kind": kind, "case": i, "metric": metric, "source": src, "references": refs, "rounds": rounds, "jobs": jobs, "weights": open(w + "/w0").read(), "grammar": open(w + "/g").read(), "ini": open(w + "/ini").read()}; out = w + "/out"; script = "%s/training/%s/%s" % (d, kind, DRIVERS[kind][0])
    wr(w + "/src", "".join(s + "\n" for s in src)); wr(w + "/dev", "".join(" ||| ".join([s] + f) + "\n" for s, f in zip(src, refs))); wr(w + "/refs", "".join(" ||| ".join(f) + "\n" for f in refs)); ropt = []
    for j in range(k): wr(w + "/ref.%d" % j, "".join(f[j] + "\n" for f in refs)); ropt += ["-r", w + "/ref.%d" % j]
    if kind in ("dpmert", "pro"): args = ["--config", w + "/ini", "--devset", w + "/dev", "--weights", w + "/w0", "--metric", metric, "--jobs", str(jobs), "--output-dir", out]
    else: args = ["--source-file", w + "/src", "--ref-files", " ".join(ropt[1::2]), "--weights", w + "/w0", "--metric", metric, "--jobs", str(jobs), "--workdir", out, "--max-iterations", str(rounds), w + "/ini"]; r.random() < .5 and args.insert(0, "--dont-accumulate"); rep["accumulate"] = args[0] != "--dont-accumulate"
    if kind == "pro": psi, reg, prev = r.choice([("1", "500", "5000"), ("0.5", "10", "0"), ("0.1", "1", "100")]); args += ["--max-iterations", str(rounds)] + (["--interpolate-with-weights", psi, "--reg", reg, "--reg-previous", prev] if psi != "1" else [])
    if kind == "dpmert": args += ["--iterations", str(rounds), r.choice(["--random-directions", "--rand-directions"]), str(r.choice([1, 5, 15]))]
    rep["args"] = args; q = c.run(["perl", script] + args, b"", env, replay=rep, key="exit:" + kind, cwd=w, timeout=240)
    if not q: return
    log = q.stderr.decode("utf8", "replace"); path = q.stdout.decode().strip().split("\n")[-1]; rep["log"] = [l for l in log.split("\n") if re.match(r"(ITERATION|DECODER SCORE|PROJECTED|OPTIMIZER|REACHED|FINAL)", l)]; parts = re.split(r"\nITERATION \d+\n", log)[1:]; R = [p for p in parts if "DECODER SCORE" in p]; N = len(R)
    if not c.expect(1 <= N <= rounds and (kind == "dpmert" or N == rounds), "rounds:" + kind, lambda: "%d rounds of %d" % (N, rounds), rep): return
    W = [open("%s/weights.%d" % (out, j)).read() for j in range(N + 1)]; c.expect(W[0] == rep["weights"], "start:" + kind, lambda: "starts from %r" % W[0], rep); c.expect(open(path).read() == W[N] and not os.path.exists("%s/weights.%d" % (out, N + 1)), "final:" + kind, lambda: "the reported weights %s are not those of the last round: %r, %r" % (path, open(path).read(), W[N]), rep)
    def score(hyp):
        x = c.run([E["score"], "-r", w + "/refs", "-m", metric], "".join(h + "\n" for h in hyp).encode(), env, replay=rep); return x and float(x.stdout)
    hg, kb = w + "/hg", w + "/kb"; os.mkdir(hg); os.mkdir(kb); seg = "".join('<seg id="%d">%s</seg>\n' % x for x in enumerate(src)).encode()
    for j in range(1, N + 1):
        if kind != "dpmert": shutil.rmtree(hg); os.mkdir(hg)
        wr(w + "/wj", W[j - 1]); x = c.run([E["cdec"], "-c", w + "/ini", "-w", w + "/wj", "-O", hg], seg, env, replay=rep)
        if not x: return
        own = x.stdout.decode().split("\n")[:-1]; got = gzip.open("%s/run.raw.%d.gz" % (out, j), "rt").read().split("\n")[:-1]; rj = dict(rep, round=j)
        files = [os.path.join(hg, "%d.bin.gz" % z) for z in range(n)]; D = dump(c, E["hgdump"], files)
        if not D: return
        D = [D[f]["d"] for f in files]; wj = wts(W[j - 1]); bad = None
        for z in range(n):
            if own[z] != got[z] if z < len(got) else True:
                try:
                    if kind != "dpmert": best(D[z], wj)
                    bad = z; break
                except Tie: c.count("ties")
        c.expect(bad is None and len(got) == n, "translations:" + kind, lambda: "round %d, sentence %s: %r, alone: %r" % (j, bad, got, own), rj); c.count("translations", n)
        m = re.search(r"DECODER SCORE: (\S+)", R[j - 1]); s = score(got); c.expect(m and s is not None and abs(float(m.group(1)) - s) < 1e-6, "score:" + kind, lambda: "round %d reports %s; the translations score %s" % (j, m and m.group(1), s), rj)
        if kind == "dpmert":
            P = [float(z) for z in re.findall(r"PROJECTED SCORE: (\S+)", R[j - 1])]; cur = W[j - 1]; sg = -1 if ter else 1
            def proj(t):
                try: return score([best(x, wts(t)) for x in D])
                except Tie: c.count("ties"); return None
            last = cur; base = proj(cur)
            for a, p in enumerate(P, 1):
                rk = dict(rj, step=a, projected=P)
                if base is not None: c.expect(sg * p >= sg * base - 2e-5, "promise:worse", lambda: "step %d.%d: promised %s, the weights it starts from reach %s" % (j, a, p, base), rk); c.count("steps")
                A = open("%s/agenda.%d-%d" % (out, j - 1, a)).read().split("\n")[:-1]; G = {}
                for l in A: f, sid, o, dr = l.split(); G.setdefault(dr, []).append((int(sid), os.path.basename(f))); c.expect(same({y.split("=")[0]: float(y.split("=")[1]) for y in o.split(";") if y}, wts(cur), 1e-4), "agenda:origin", lambda: "step %d.%d starts from %s, not %s" % (j, a, o, cur), rk)
                c.expect(all(sorted(v) == [(z, "%d.bin.gz" % z) for z in range(n)] for v in G.values()) and len(G) >= len(wts(cur)), "agenda:all", lambda: "step %d.%d: directions and sentences %r" % (j, a, G), rk); f = "%s/weights.%d-%d" % (out, j - 1, a)
                if not os.path.exists(f): c.expect(a == len(P), "step:missing", lambda: "step %d.%d left no weights" % (j, a), rk); break
                cur = open(f).read(); c.expect(set(wts(cur)) == set(wts(W[0])), "step:features", lambda: "step %d.%d: %r" % (j, a, cur), rk); base = proj(cur)
                if base is not None: c.expect(abs(base - p) < 2e-5 * (1 + abs(p)), "promise", lambda: "step %d.%d promises %s, its weights reach %s" % (j, a, p, base), rk); c.count("promises")
                last = cur
            c.expect(W[j] == last, "carry", lambda: "round %d leaves %r, its last step %r" % (j, W[j], last), rj)
            if j == N and os.path.exists("%s/redoutput.%d" % (out, j - 1)):
                S = [float(l.rsplit("|", 1)[1]) for l in open("%s/redoutput.%d" % (out, j - 1)).read().split("\n")[:-1]]; c.expect(P[-1] == (min if ter else max)(S), "promise:best", lambda: "promises %r; the directions reach %r" % (P[-1], S), rj); c.count("directions", len(S))
            continue
        A = open("%s/agenda.%d" % (out, j - 1)).read().split("\n")[:-1]
        if not c.expect(sorted((int(l.split()[1].split(".")[0]), os.path.basename(l.split()[0])) for l in A) == [(z, "%d.bin.gz" % z) for z in range(n)], "agenda:" + kind, lambda: "%r" % A, rj): return
        wr(w + "/agenda", "".join("%s/%s %s\n" % (hg, os.path.basename(l.split()[0]), l.split()[1]) for l in A)); x = None
        if kind == "pro":
            c.run([E["mr_pro_map"], "-s", w + "/src", "-m", metric, "-r", w + "/refs", "-w", w + "/wj", "-K", kb, "-S", "1", "-i", w + "/agenda"], b"", env, replay=rj)
            if j == N:
                for z in range(n): f = "kbest.%d.txt.gz" % z; pool = [sorted(gzip.open(os.path.join(y, f), "rt").read().split("\n")) if os.path.exists(os.path.join(y, f)) else None for y in (kb, out + "/kbest")]; c.expect(pool[0] == pool[1], "pool:pro", lambda: "sentence %d: candidates kept %r; of all rounds %r" % (z, pool[1], pool[0]), rj); c.count("pools")
            sd = "%s/splag.%d" % (out, j - 1); M = sorted(z for z in os.listdir(sd) if z.startswith("mapoutput.")); I = sorted(z for z in os.listdir(sd) if z.startswith("mapinput.")); c.expect([z[3:].replace("output", "input") for z in M] == [z[3:] for z in I] and sorted(l for z in I for l in open(sd + "/" + z).read().split("\n")[:-1]) == sorted(A), "shards", lambda: "%r %r" % (M, I), rj); c.count("shards", len(M)); orders = [M, M[::-1]]; X = []
            for o in orders: x = c.run([E["mr_pro_reduce"], "-w", w + "/wj"] + ["-C", reg, "-y", prev, "--interpolate_with_weights", psi], b"".join(open(sd + "/" + z, "rb").read() for z in o), env, replay=rj); X.append(wts(x.stdout.decode()) if x else {})
            c.expect(any(same(wts(W[j]), y, 1e-3) for y in X), "optimise:pro", lambda: "round %d leaves %r; its examples lead to %r" % (j, W[j], X), rj)
        else:
            x = c.run([E[DRIVERS[kind][1][0]]] + ropt + ["-m", metric, "-i", w + "/agenda"] + (["--kbest_repository", kb] if rep["accumulate"] else []) + ["-w", w + "/wj"], b"", env, replay=rj)
            if x: c.expect(same(wts(W[j]), wts(x.stdout.decode()), 1e-6), "optimise:" + kind, lambda: "round %d leaves %r; from the same weights and forests: %r" % (j, W[j], x.stdout.decode()), rj)
        c.count("optimised")
    c.count("runs_" + kind); c.count("rounds", N); c.count("cases"); c.dist("nontrivial", (kind, W[N])); c.sample({"kind": kind, "metric": metric, "log": rep["log"]}); shutil.rmtree(w)
def main():
    c = vf.Check("T07", "run of a tuning driver, distinct by the weights it ends with"); E = build(); only = os.environ.get("VERIF_ONLY"); d = stage(c, E); n = c.n(32, 300); ks = [os.environ["KIND"]] if os.environ.get("KIND") else ["dpmert", "minrisk", "rampion", "dpmert", "pro", "rampion", "dpmert", "minrisk"]
    with ThreadPoolExecutor(2 * vf.JOBS) as p:
        for f in [p.submit(one, c, E, d, ks[i % len(ks)], i, random.Random("t07-%d-%d" % (c.seed, i))) for i in ([int(only)] if only else range(n))]: f.result()
    c.finish()
