import glob, gzip, math, os, random, struct
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import dump, near, dot, lse, fmap
TECHNIQUE = "online oracle over recorded executions: weights written by the training programs (every step where the program writes every step) compared with a step by step simulation of their update rules over all derivations of the forests the decoder wrote for the same sentences, with the same random numbers; features and reachable sentences written compared with the derivations; under ASan+UBSan"
NOTE = "Held on the runs made: up to 5 sentences with 800 derivations each, up to 8 updates per run, one process (no MPI)."
def build():
    b = vf.Builder("asan"); g = ["training_utils", "liblbfgs", "decoder", "utils", "mteval", "klm", "klm_util", "ksearch"]; o = vf.R("training/crf/cllh_observer.cc"); D = ["decoder", "utils", "mteval"]
    e = {n: b.program("mpi_" + n, [vf.R("training/crf/mpi_%s.cc" % n), o], g) for n in ("extract_reachable", "extract_features", "baum_welch", "online_optimize", "adagrad_optimize", "flex_optimize")}
    e.update(kbest_mira=b.program("kbest_mira", [vf.R("training/mira/kbest_mira.cc")], g), rampion=b.program("rampion_cccp", [vf.R("training/rampion/rampion_cccp.cc")], ["training_utils", "liblbfgs", "decoder", "utils", "mteval"]), dtrain=b.program("dtrain", [vf.R("training/dtrain/dtrain.cc"), vf.R("training/dtrain/score.cc")], D + ["klm", "klm_util", "ksearch"]), mscore=b.program("mscore", [vf.H("mscore.cc")], ["utils", "mteval"]), dscore=b.program("dscore", [vf.H("dscore.cc")], ["mteval", "utils"]), cut=b.program("kbest_cut_mira", [vf.R("training/mira/kbest_cut_mira.cc")], g))
    e.update(cdec=b.program("cdec", [vf.R("decoder/cdec.cc")], D + ["klm", "klm_util", "ksearch"]), hgdump=b.program("hgdump", [vf.H("hgdump.cc")], D)); return e
class MT:
    """the Mersenne twister, seeded by one number"""
    def __init__(s, seed):
        m = [seed & 0xffffffff]
        for i in range(1, 624): m.append((1812433253 * (m[-1] ^ (m[-1] >> 30)) + i) & 0xffffffff)
        s.r = random.Random(); s.r.setstate((3, tuple(m) + (624,), None))
    def next(s): return s.r.getrandbits(32) / 4294967296.0
def expect(D, w):
    """expected features and log partition of the derivations"""
    l = [dot(f, w) for f in D]; z = lse(l); out = {}
    for f, x in zip(D, l):
        p = math.exp(x - z)
        for k, v in f.items(): out[k] = out.get(k, 0) + p * v
    return out, z
def plus(a, b, s=1.0):
    for k, v in b.items(): a[k] = a.get(k, 0) + s * v
    return a
def loss(S, w):
    """gradient and value of the sum of negative conditional log likelihoods"""
    g, o = {}, 0.0
    for al, ref in S:
        if not ref: continue
        a, z = expect(al, w); b, y = expect(ref, w); plus(g, a); plus(g, b, -1); o += z - y
    return g, o
def weights(path):
    t = gzip.open(path, "rt").read(); return {p[0]: float(p[1]) for p in (l.rsplit(" ", 1) for l in t.split("\n") if l and not l.startswith("#"))}
class Tie(Exception): pass
def norm2(f): return sum(v * v for v in f.values())
def minus(a, b): return plus(dict(a), b, -1)
def pick(H, key):
    """the first of those that come first by key; ties between different features decide nothing"""
    b = max(key(h) for h in H); best = [h for h in H if key(h) >= b - 1e-9 * (1 + abs(b))]
    if any(norm2(minus(h["f"], best[0]["f"])) > 1e-12 for h in best): raise Tie()
    return best[0]
def ngrams(w, n):
    out = {}
    for i in range(len(w) - n + 1): g = tuple(w[i:i + n]); out[g] = out.get(g, 0) + 1
    return out
def bleu(kind, h, ref, N):
    """sentence level BLEU as described by dtrain"""
    if not h or not ref: return 0.0
    M = min(N, len(ref)); cs = []
    for n in range(1, M + 1): a, b = ngrams(h, n), ngrams(ref, n); cs.append((sum(min(v, b.get(g, 0)) for g, v in a.items()), sum(a.values())))
    bp = lambda r: 1.0 if len(h) > r else math.exp(1 - r / len(h))
    if kind == "bleu": return 0.0 if any(c == 0 for c, _ in cs) else bp(len(ref)) * math.exp(sum(math.log(c / t) / M for c, t in cs))
    if kind in ("stupid_bleu", "fixed_stupid_bleu"): return 0.0 if cs[0][0] == 0 else bp(len(ref) + (kind[0] == "f")) * math.exp(sum(math.log((c + (i > 0)) / (t + (i > 0))) / M for i, (c, t) in enumerate(cs)))
    s = l = 0.0
    for i, (c, t) in enumerate(cs):
        if kind == "smooth_bleu":
            if c: l += math.log(c / t)
            s += (math.exp(sum(math.log(x / y) for x, y in cs[:i + 1]) / (i + 1)) if all(x for x, _ in cs[:i + 1]) else 0) / 2 ** (N - i)
            if not c: break
        else:
            if not c: break
            p = c / t; s += {"sum_bleu": p, "sumexp_bleu": math.exp(p), "sumwhatever_bleu": p ** (1 / M)}[kind] / 2 ** (N - i)
    return bp(len(ref)) * s
def cut(r, d, P, e, E, c, run, same, w, N, hyps, refs, files, use, q, rep, env):
    """kbest_cut_mira: one pass over a corpus, or a session of commands"""
    metric = r.choice(["ibm_bleu", "ibm_bleu", "koehn_bleu", "ter"]); x = c.run([e["dscore"], metric], stdin=q.encode(), env=env, replay=rep)
    if x is None: return
    sc = iter(float(z) for z in x.stdout.decode().split("\n")[:-1]); scale = round(r.choice([1, r.uniform(.2, 5)]), 3); C = r.choice([.001, .01, .1, 1, 10]); o = r.choice([1, 2, 2, 4]); hope, fear = (r.choice([1, 2]), r.choice([1, 2, 3])) if o == 1 else (1, 1); stream = r.random() < .6; f32 = lambda v: struct.unpack("f", struct.pack("f", v))[0]
    for H in hyps:
        for h in H: h["m"] = f32(scale * next(sc)) * (-1 if metric == "ter" else 1)
    src = vf.text(P("src")).split("\n")[:-1]; a = ["-w", P("w"), "-m", metric, "-o", str(o), "-C", str(C), "-s", str(scale), "--hope", str(hope), "--fear", str(fear), "-k", "2000"]; v = dict(w); open(P("ini2"), "w").write(vf.text(P("ini")) + "input=%s\n" % P("src"))
    def top(H, key): b = max(map(key, H)); return {" ".join(h["y"]) for h in H if key(h) >= b - 1e-9 * (1 + abs(b))}
    def step(H):
        sc = lambda h: dot(h["f"], v); hk = (lambda h: h["m"] + sc(h)) if hope == 1 else lambda h: h["m"]; g = pick(H, hk); fk = {1: lambda h: sc(h) - h["m"], 2: lambda h: -h["m"], 3: sc}[fear]; b = pick(H, fk); words = [top(H, z) for z in (hk, sc, fk)]; diff = minus(g["f"], b["f"]); loss = sc(b) - sc(g) + g["m"] - b["m"]
        if o == 1: plus(v, diff, C)
        else:
            if o == 2 and abs(loss - 1e-4) < 1e-6: raise Tie()
            if norm2(diff) > 0 and (o == 4 or loss > 1e-4): plus(v, diff, min(C, loss / norm2(diff))); c.count("updates of the second MIRA trainer")
        return words
    def shown(l, words): f = l.split(" ||| "); return len(f) == 3 and all(y.strip() in z for y, z in zip(f, words))
    if not stream:
        os.makedirs(P("W")); x = run("cut", a + ["-c", P("ini2"), "-r", P("ref"), "-p", "0", "-O", P("W"), "-D", d])
        if x is None: return
        tot = dict(v); out = x.stdout.decode().split("\n")[:-1]
        for H, l in zip(hyps, out):
            z = step(H); plus(tot, v)
            if not E(shown(l, z), "shown", "printed '%s', hope, best and fear are %s" % (l, z)): return
        F = {("avg" if "avg" in f else "last"): f for f in glob.glob(P("W/weights.mira-pass00.*"))}
        if not E(len(out) == N and set(F) == {"avg", "last"}, "output", "%d lines for %d sentences, files %s" % (len(out), N, sorted(F))): return
        same(weights(F["last"]), v, "after the pass", 1e-6) and same(weights(F["avg"]), {f: y / (N + 1) for f, y in tot.items()}, "average", 1e-6); return
    cmds = []; names = sorted(w) or ["Unseen"]
    for _ in range(r.randint(3, 10)):
        i = r.randrange(N); q = r.random()
        if q < .45: cmds.append(("learn", i, "LEARN ||| %s ||| %s" % (src[i], refs[i])))
        elif q < .7: cmds.append(("write", 0, "WEIGHTS ||| WRITE"))
        elif q < .85: ch = {f: r.choice([0, .25, round(r.uniform(-1, 1), 3)]) for f in r.sample(names, min(len(names), r.randint(1, 3)))}; cmds.append(("set", ch, "WEIGHTS ||| " + " ".join("%s=%s" % z for z in ch.items())))
        elif q < .95: cmds.append(("best", i, src[i]))
        else: cmds.append(("bad", 0, r.choice(["", "NOTHING ||| x"])))
    cmds.append(("write", 0, "WEIGHTS ||| WRITE")); text = "".join(z + "\n" for _, _, z in cmds); rep["session"] = text; x = run("cut", a + ["-c", P("ini"), "-t"], stdin=text.encode())
    if x is None: return
    out = x.stdout.decode().split("\n")[:-1]
    if not E(len(out) == sum(k in ("learn", "write", "best") for k, _, _ in cmds), "session", "%d commands, %d lines: %s" % (len(cmds), len(out), out[:4])): return
    out = iter(out)
    for n, (k, i, z) in enumerate(cmds):
        if k == "set": v.update(i)
        elif k == "learn":
            t = step(hyps[i]); l = next(out)
            if not E(shown(l, t), "session:shown", "command %d (%s) printed '%s', hope, best and fear are %s" % (n, z, l, t)): return
        elif k == "best":
            l = next(out); t = top(hyps[i], lambda h: dot(h["f"], v))
            if not E(l.strip() in t, "session:best", "command %d (%s) printed '%s', best are %s" % (n, z, l, t)): return
        elif k == "write" and not same({y.split("=")[0]: float(y.split("=")[1]) for y in next(out).split()}, v, "command %d of %s" % (n, [y for y, _, _ in cmds]), 1e-6): return
    c.count("sessions of the second MIRA trainer"); c.count("commands", len(cmds))
def learn(r, d, P, kind, e, E, c, run, same, w, N, hyps, refs, files, use, metric, q, rep, env):
    if kind == "cut": return cut(r, d, P, e, E, c, run, same, w, N, hyps, refs, files, use, q, rep, env)
    if kind != "dtrain":
        x = c.run([e["mscore"], metric], stdin=q.encode(), env=env, replay=rep)
        if x is None: return
        sc = iter(float(z) for z in x.stdout.decode().split("\n")[:-1])
        for H in hyps:
            for h in H: h["s"] = next(sc)
    err = metric in ("TER", "WER", "CER")
    if kind == "mira":
        n, C, scale, seed = r.randint(1, 3), r.choice([.01, .1, 1, 10]), round(r.choice([1, r.uniform(.2, 5)]), 3), r.randint(1, 1 << 30); rng = MT(seed)
        x = run("kbest_mira", ["-w", P("w"), "-i", P("src"), "-r", P("ref"), "-c", P("ini"), "-p", str(n), "-k", "2000", "-m", metric, "-C", str(C), "-s", str(scale), "-S", str(seed)])
        if x is None: return
        def shuffle():
            o = list(range(N))
            for i in range(N, 0, -1): j = int(rng.next() * i); o[i - 1], o[j] = o[j], o[i - 1]
            return o
        for H in hyps:
            for h in H: h["m"] = -h["s"] if err else h["s"]
        v = dict(w); tot = dict(w); norm = 1; good = {}; updates = 0
        for p in range(n):
            for i in shuffle():
                H = hyps[i]; sc = lambda h: dot(h["f"], v); best = pick(H, sc); top = max(h["m"] for h in H); low = min(h["m"] for h in H); g = pick([h for h in H if h["m"] == top], sc); b = pick([h for h in H if h["m"] == low], sc)
                if i not in good or top > good[i]["m"]: good[i] = g
                g = good[i]; norm += 1
                if best["m"] != g["m"] and not (g["m"] and abs(best["m"] - g["m"]) / abs(g["m"]) < 1e-6):
                    loss = sc(b) - sc(g) + scale * (g["m"] - b["m"]); diff = minus(g["f"], b["f"])
                    if abs(loss) < 1e-7: raise Tie()
                    if loss > 0 and norm2(diff) > 0: plus(v, diff, min(C, loss / norm2(diff))); updates += 1
                plus(tot, v)
            if not E(os.path.exists(P("weights.mira-pass%02d.gz" % p)), "output", "no weights for pass %d" % p): return
            if not same(weights(P("weights.mira-pass%02d.gz" % p)), {f: y / norm for f, y in tot.items()}, "average after pass %d" % p): return
        same(weights(P("weights.mira-final.gz")), v, "final weights") and same(weights(P("weights.mira-final-avg.gz")), {f: y / norm for f, y in tot.items()}, "final average"); c.count("MIRA updates", updates); return
    if kind == "rampion":
        I, J, eta, C, alpha = r.randint(1, 3), r.randint(1, 3), round(r.choice([1e-4, r.uniform(.01, .5)]), 4), round(r.choice([0, 1, r.uniform(0, 2)]), 3), round(r.choice([10, r.uniform(.1, 10)]), 2)
        x = run("rampion", ["-w", P("w"), "-r", P("ref"), "-m", metric, "-k", "2000", "-I", str(I), "-J", str(J), "--eta", str(eta), "-C", str(C), "-a", str(alpha)], stdin="".join("%s %d\n" % (files[i], j) for j, (i, _) in enumerate(use)).encode())
        if x is None: return
        for H in hyps:
            for h in H: h["cost"] = h["s"] if err else 1 - h["s"]
        v = dict(w)
        for _ in range(I):
            goals = [pick(H, lambda h: dot(h["f"], v) - alpha * h["cost"]) for H in hyps]
            for _2 in range(J):
                for g, H in zip(goals, hyps):
                    fear = pick(H, lambda h: dot(h["f"], v) + alpha * h["cost"]); v = {f: y * (1 - eta * C / N) for f, y in v.items()}; plus(v, minus(g["f"], fear["f"]), eta)
        got = {p[0]: float(p[1]) for p in (l.rsplit(" ", 1) for l in x.stdout.decode().split("\n") if l and not l.startswith("#"))}; same(got, v, "after %d times %d steps" % (I, J), 1e-6); return
    T, uniq, ps, scorer, Ng, eta = r.randint(1, 4), r.random() < .6, r.choice(["all", "all", "XYX", "XYX", "PRO"]), r.choice(["bleu", "stupid_bleu", "stupid_bleu", "fixed_stupid_bleu", "smooth_bleu", "sum_bleu", "sumexp_bleu", "sumwhatever_bleu"]), r.choice([2, 3, 4, 4]), round(r.choice([1, r.uniform(.01, 1)]), 4)
    gamma, margin, thr, hl = r.choice([0, 0, 0, .01]), r.choice([0, 0, .5, 1]), r.choice([0, 0, .05, .1]), r.choice([.1, .1, .25, .3, .5]); sel = r.choice(["last", "last", "avg", "best"]); batch, scale, rescale = r.random() < .2, r.random() < .15, r.random() < .1; clip = round(r.choice([.001, .05, r.uniform(0, .3)]), 4) if r.random() < .2 else 0
    if ps == "PRO" and not margin: margin = 1
    if ps == "PRO" and not thr: thr = .05
    out = r.choice(["-", P("out.gz")] + [P("out")] * (sel != "best")); a = ["--decoder_config", P("ini"), "--input_weights", P("w"), "--output", out, "--epochs", str(T), "--k", "2000", "--filter", "uniq" if uniq else "not", "--pair_sampling", ps, "--scorer", scorer, "--N", str(Ng), "--learning_rate", str(eta), "--gamma", str(gamma), "--loss_margin", str(margin), "--pair_threshold", str(thr), "--hi_lo", str(hl), "--select_weights", sel] + ["--batch"] * batch + ["--scale_bleu_diff"] * scale + ["--rescale"] * rescale + (["--l1_reg", "clip", "--l1_reg_strength", str(clip)] if clip else [])
    if r.random() < .5: open(P("bitext"), "w").write("".join("%s ||| %s\n" % z for z in zip(rep["src"].split("\n"), refs))); a += ["--bitext", P("bitext")]
    else: a += ["--input", P("src"), "--refs", P("ref")]
    x = run("dtrain", a)
    if x is None: return
    for H, ref in zip(hyps, refs):
        for h in H: h["s"] = bleu(scorer, h["y"], ref.split(), Ng)
        s = sorted({h["s"] for h in H})
        if any(y - z < 1e-9 for z, y in zip(s, s[1:])) or any(thr and abs(y - z - thr) < 1e-9 for y in s for z in s): raise Tie()
    v = dict(w); avg = {}; bestw, bestsc = None, 0.0; pairs_used = 0
    for t in range(T):
        upd = {}; npairs = 0; tot = 0.0
        for H in hyps:
            m = lambda h: dot(h["f"], v); tot += pick(H, m)["s"]; L = []
            if uniq:
                by = {}
                for h in H: by.setdefault(tuple(h["y"]), []).append(h)
                L = [pick(z, m) for z in by.values()]
            else: L = list(H)
            L = [(h["s"], m(h), h["f"]) for h in L]; L.sort(key=lambda z: -z[0]); n = len(L); P2 = []
            if ps == "XYX":
                if n > 1:
                    sep = max(1, int(math.floor(float(n * hl) + .5)))
                    if abs(n * hl - math.floor(n * hl) - .5) < 1e-4: raise Tie()
                    hi = sep if n > 4 else 1
                    if n <= 4 and L[0][0] == L[1][0]: raise Tie()   # which one comes first is not said
                    while n > 4 and hi < n and L[hi - 1][0] == L[hi][0]: hi += 1
                    lo = n - sep
                    while 0 < lo and L[lo - 1][0] == L[lo][0]: lo -= 1
                    P2 = [(i, j) for i in range(hi) for j in range(hi, n)] + [(i, j) for i in range(hi, lo) for j in range(lo, n)]
            else: P2 = [(i, j) for i in range(n) for j in range(i + 1, n)]
            P2 = [(L[i], L[j]) for i, j in P2]; P2 = [z for z in P2 if z[0][0] - z[1][0] >= thr and z[0][0] != z[1][0]]
            fast = gamma == 0 and margin == 0
            for y, z in P2:
                dm = y[1] - z[1]
                if (abs(dm) < 1e-9 or abs(dm - margin) < 1e-9) and norm2(minus(y[2], z[2])) > 1e-15: raise Tie()
            if ps == "PRO":
                if len(P2) > 5000: raise Tie()
                P2.sort(key=lambda z: -(z[0][0] - z[1][0]))
                if len(P2) > 50:
                    if (P2[49][0][0] - P2[49][1][0]) - (P2[50][0][0] - P2[50][1][0]) < 1e-9: raise Tie()
                    P2 = P2[:50]
            elif fast: P2 = [z for z in P2 if z[0][1] <= z[1][1]]
            npairs += len(P2); wrong = [z for z in P2 if z[0][1] - z[1][1] <= 0 or (not fast and z[0][1] - z[1][1] < margin)]; pairs_used += len(wrong)
            if gamma and not batch and len(wrong) > 1: raise Tie()   # the order of the pairs matters
            if scale and batch: raise Tie()
            old, touched = dict(v), set()
            for y, z in wrong:
                df = minus(y[2], z[2])
                if batch: plus(upd, df); continue
                et = y[0] - z[0] if scale else eta; plus(v, df, et); touched |= {f for f, q2 in df.items() if q2} | (set(v) if gamma else set())
                if gamma: v = {f: q2 * (1 - 2 * gamma * et / len(P2)) for f, q2 in v.items()}
            for f in touched if clip else ():
                if abs(v.get(f, 0) - old.get(f, 0)) < 1e-9 and (v.get(f, 0) or old.get(f, 0)): raise Tie()
                v[f] = math.copysign(max(0, abs(v.get(f, 0)) - clip), v.get(f, 0))
            if rescale:
                n2 = math.sqrt(norm2(v))
                if n2 < 1e-6: raise Tie()
                v = {f: q2 / n2 for f, q2 in v.items()}
        if batch:
            plus(v, upd, eta)
            if gamma and npairs: v = {f: q2 * (1 - 2 * gamma * eta / npairs) for f, q2 in v.items()}
            elif gamma: raise Tie()
        plus(avg, v, 1.0 / T); tot /= N
        if abs(tot - bestsc) < 1e-9 and t > 0 and tot != bestsc: raise Tie()
        if tot > bestsc or bestw is None: bestsc, bestw = max(tot, bestsc), dict(v)
    if out != "-" and not E(os.path.exists(out), "output", "no output"): return
    text = x.stdout.decode() if out == "-" else gzip.open(out, "rt").read() if out.endswith("gz") else vf.text(out)
    got = {p[0]: float(p[1]) for p in (l.split() for l in text.split("\n") if l and not l.startswith("#"))}; same(got, {"last": v, "avg": avg, "best": bestw}[sel], "%s of %d epochs" % (sel, T), 1e-6); c.count("preference pairs learnt from", pairs_used)
def main():
    c = vf.Check("T05", "training run, distinct by program, settings and forests")
    e = build()
    def one(k):
        r = random.Random(c.seed * 49979687 + k); d = os.path.join(c.work, "t%d" % k); os.makedirs(d + "/A"); P = lambda n: os.path.join(d, n); kind = os.environ.get("KIND") or ["reach", "feats", "baum", "online", "online", "adagrad", "adagrad", "flex", "mira", "mira", "rampion", "rampion", "dtrain", "dtrain", "cut", "cut"][k % 16]
        opt, src, tgt, nts = G.scfg(r, d); ini = ["formalism=scfg", "intersection_strategy=full"] + ["grammar=" + P(n) for n in ("g", "g2") if os.path.exists(P(n))]
        if "-P" in opt or r.random() < .7: ini.append("add_pass_through_rules=true")
        if "-n" in opt: ini.append("scfg_no_hiero_glue_grammar=true")
        if "-S" in opt: ini.append("scfg_max_span_limit=" + opt[opt.index("-S") + 1])
        if kind == "baum":
            for n in ("g", "g2"):
                if os.path.exists(P(n)):
                    L = []
                    for l in vf.text(P(n)).split("\n")[:-1]:
                        if r.random() < .7: l += " " + " ".join(r.choice(["Bi:%s_%s=1" % (r.choice("abc"), r.choice("abc_")), "Id:%s:%s=1" % (r.choice("xyz"), r.choice("uv")), "Id:%s=%d" % (r.choice("uv"), r.randint(1, 2)), "Bi:q=1", "Bi:a_b_%s=1" % r.choice("cd")]) for _ in range(r.randint(1, 2)))
                        L.append(l)
                    open(P(n), "w").write("\n".join(L) + "\n")
        for f in r.sample(["WordPenalty", "ArityPenalty", "SourceSpanSizeFeatures", "NgramFeatures -o 2", "OutputIndicator"], r.choice([0, 0, 1, 2])): ini.append("feature_function=" + f)
        open(P("ini"), "w").write("".join(l + "\n" for l in ini)); rep = {n: vf.text(P(n)) for n in ("g", "g2", "ini") if os.path.exists(P(n))}
        env = {"ASAN_OPTIONS": "detect_leaks=0"}; E = lambda ok, key, msg: c.expect(ok, kind + ":" + key, msg, rep)
        S = [" ".join(G.sentence(r, src, r.choice([2, 3, 4]), .08)) for _ in range(r.randint(2, 7))]
        x = c.run([e["cdec"], "-c", P("ini"), "-O", P("A")], stdin="".join(s + "\n" for s in S).encode(), env=env, replay=rep)
        if x is None: return
        files = {i: P("A/%d.bin.gz" % i) for i in range(len(S)) if os.path.exists(P("A/%d.bin.gz" % i))}; D = dump(c, e["hgdump"], list(files.values())) if files else {}
        if D is None: return
        al = {}; drop = set()
        for i, f in files.items():
            if D[f]["n"] > 800: drop.add(i)
            else: al[i] = [(y, fe) for y, _, fe, _ in D[f]["d"]]
        use = [i for i in range(len(S)) if i not in drop][:5]
        if not al or not use: c.count("grammars without small forests"); return
        text, C = [], []   # lines of the corpus; (all derivations, derivations of the reference)
        for i in use:
            ys = sorted({y for y, _ in al.get(i, [])}); q = r.random(); y = r.choice(ys) if ys and q < .85 else "e0 e1 e0 e2 e2 e1 e0" if r.random() < .5 or not ys else r.choice(ys) + " e0"
            A = [fe for _, fe in al.get(i, [])]; R = [fe for z, fe in al.get(i, []) if z == y]
            if kind == "baum" or (kind == "feats" and r.random() < .5): text.append(S[i]); C.append((A, []))
            elif not y.strip(): continue
            else: text.append(S[i] + " ||| " + y); C.append((A, R))
        if not text: return
        if kind in ("mira", "rampion", "dtrain", "cut"):
            use = [(i, t) for i, t in zip([i for i in use if i in al], [t for t, (A, _) in zip(text, C) if A])]
            if not use: return
            N = len(use); refs = [t.split(" ||| ")[1] for _, t in use]; hyps = [[{"y": y.split(), "f": fe} for y, fe in al[i]] for i, _ in use]; srcs = [S[i] for i, _ in use]; q = "".join("%s\t%s\n" % (refs[i], " ".join(h["y"])) for i in range(N) for h in hyps[i])
            if kind == "rampion" and r.random() < .3: refs[r.randrange(N)] = "e0 e1 e2 e0"; q = "".join("%s\t%s\n" % (refs[i], " ".join(h["y"])) for i in range(N) for h in hyps[i])
            open(P("src"), "w").write("".join(z + "\n" for z in srcs)); open(P("ref"), "w").write("".join(z + "\n" for z in refs)); rep.update(src="\n".join(srcs), ref="\n".join(refs)); feats = sorted({f for A in hyps for h in A for f in h["f"]}); w = {f: round(r.uniform(-1, 1), 4) for f in feats + ["Unseen"] if r.random() < .9}; open(P("w"), "w").write("".join("%s %.10g\n" % z for z in w.items())); rep["w"] = vf.text(P("w")); metric = r.choice(["IBM_BLEU", "TER", "WER", "QCRI_BLEU", "TER", "CER"])
            def run(prog, a, **o): rep["cmd"] = " ".join([prog] + a); return c.run([e[prog]] + a, env=env, replay=dict(rep), cwd=d, key=kind + ":exit", **o)
            def same(got, want, what, ab=1e-7):
                for f in set(got) | set(want):
                    if not near(got.get(f, 0), want.get(f, 0), 1e-6, ab): E(False, "weights", "%s: weight of %s is %.12g, by the update rule %.12g (%s)" % (what, f, got.get(f, 0), want.get(f, 0), rep["cmd"])); return False
                c.count("weights compared", len(set(got) | set(want))); c.count("weight files compared: " + kind); return True
            c.count("cases")
            try: learn(r, d, P, kind, e, E, c, run, same, w, N, hyps, refs, files, use, metric, q, rep, env)
            except Tie: c.count("runs left unjudged for ties"); return
            c.count("runs: " + kind); c.dist("nontrivial", hash((kind, rep["cmd"], rep["src"], rep["g"]))); c.sample("%s: %d sentences, %d derivations" % (rep["cmd"].replace(d, ""), N, sum(map(len, hyps)))); return
        open(P("corpus"), "w").write("".join(t + "\n" for t in text)); rep["corpus"] = "\n".join(text); feats = sorted({f for A, _ in C for fe in A for f in fe})
        w = {f: round(r.uniform(-1, 1), 4) for f in feats + ["Unseen"] if kind == "baum" or r.random() < .7}; have = r.random() < .7 or kind == "baum"; w = w if have else {}
        open(P("w"), "w").write("".join("%s %.10g\n" % z for z in w.items())); rep["w"] = vf.text(P("w")); seed = r.randint(1, 1 << 30); rng = MT(seed); N = len(C)
        def run(prog, a):
            rep["cmd"] = " ".join([prog] + a); return c.run([e[prog]] + a, env=env, replay=dict(rep), cwd=d, key=kind + ":exit")
        def same(got, want, what, ab=1e-7):
            for f in set(got) | set(want):
                if not near(got.get(f, 0), want.get(f, 0), 1e-6, ab): E(False, "weights", "%s: weight of %s is %.12g, by the update rule %.12g (%s)" % (what, f, got.get(f, 0), want.get(f, 0), rep["cmd"])); return False
            c.count("weights compared", len(set(got) | set(want))); c.count("steps compared: " + kind); return True
        c.count("cases"); done = lambda: (c.count("runs: " + kind), c.dist("nontrivial", hash((kind, rep["cmd"], rep["corpus"], rep["g"]))), c.sample("%s: %d sentences, %d derivations, %d features" % (rep["cmd"].replace(d, ""), N, sum(len(A) for A, _ in C), len(feats))))
        if kind in ("reach", "feats"):
            if r.random() < .1: open(P("corpus"), "w").write("\n".join(text))
            x = run("extract_" + {"reach": "reachable", "feats": "features"}[kind], ["-c", P("ini"), "-t", P("corpus"), "-o", P("out")] + (["-w", P("w")] if have else []))
            if x is None or not E(os.path.exists(P("out.0_of_1")), "output", "no output file"): return
            got = vf.text(P("out.0_of_1")).split("\n")[:-1]
            if kind == "reach": want = [t for t, (A, R) in zip(text, C) if R]; E(got == want, "lines", "wrote %s, reachable are %s" % (got, want)); c.count("reachable sentences", len(want)); c.count("unreachable sentences", len(text) - len(want))
            else:
                miss = [f for f in feats if f not in got]; E(not miss and len(got) == len(set(got)), "features", "derivations have %s, missing from the output" % miss if miss else "features written twice: %s" % got); c.count("features compared", len(feats))
            done(); return
        if kind == "baum":
            n = r.randint(1, 4); x = run("baum_welch", ["-w", P("w"), "-n", str(n), "-t", P("corpus"), "-c", P("ini")])
            if x is None: return
            norm = lambda f: f[:f.rindex("_")] if f.startswith("Bi:") and "_" in f else "Emit:" + f[f.rindex(":"):] if f.startswith("Id:") else None
            v = dict(w)
            for _ in range(n):
                g = {}
                for A, _2 in C:
                    if A: plus(g, expect(A, v)[0])
                grp = {}
                for f in w:
                    if norm(f) and g.get(f, 0) != 0: grp.setdefault(norm(f), []).append(f)
                for fs in grp.values():
                    z = math.log(sum(g[f] + 1e-9 for f in fs))
                    for f in fs: v[f] = math.log(g[f] + 1e-9) - z
            if not E(os.path.exists(P("weights.final.gz")), "output", "no final weights"): return
            same(weights(P("weights.final.gz")), v, "after %d iterations" % n); done(); return
        s = r.randint(1, min(N, 4)); a = ["-s", str(s), "-S", str(seed)] + (["-w", P("w")] if have else [])
        batch = lambda M=None: [C[int((M or N) * rng.next())] for _ in range(s)]
        if kind == "online":
            n = [r.randint(1, 4) for _ in range(r.choice([1, 1, 2]))]; eta, Cs = round(r.uniform(.05, 1), 3), round(r.choice([0, 0.01, .3, 1, 3]), 3); open(P("agenda"), "w").write("# agenda\n" + "".join("%s %d\n" % (P("ini"), q) for q in n)); a += ["-e", str(eta), "-C", str(Cs), "-t", P("corpus"), "-a", P("agenda")]; frozen = set()
            if r.random() < .4 and feats: frozen = set(r.sample(feats, r.randint(1, min(3, len(feats))))); open(P("z"), "w").write("".join(f + "\n" for f in sorted(frozen))); a += ["-z", P("z")]; rep["z"] = vf.text(P("z"))
            x = run("online_optimize", a)
            if x is None: return
            v = dict(w)
            for ai, q in enumerate(n):
                u, cum, t = 0.0, {}, 0
                for it in range(q + 1):
                    if it == q and ai + 1 == len(n): break
                    b = batch(); g, _ = loss(b, v); t += 1; et = eta * .85 ** (t / s); u += et * Cs / N
                    for f, y in g.items():
                        if f not in frozen: v[f] = v.get(f, 0) - et * y / s
                    for f in set(v) | set(cum):
                        if f in frozen: continue
                        z = v.get(f, 0); nz = max(0.0, z - (u + cum.get(f, 0))) if z > 0 else min(0.0, z + (u - cum.get(f, 0))) if z < 0 else z
                        cum[f] = cum.get(f, 0) + nz - z; v[f] = nz
            if not E(os.path.exists(P("weights.final.gz")), "output", "no final weights"): return
            same(weights(P("weights.final.gz")), v, "after %s iterations" % n); done(); return
        if kind == "adagrad":
            eta, lam, passes = round(r.uniform(.1, 1), 3), r.choice([.001, .01, .05, .2]), r.choice([1, 1.5, 2, 3]); a += ["-e", str(eta), "-C", str(lam), "-d", P("corpus"), "-c", P("ini"), "--max_passes", str(passes), "--write_every_n_minibatches", "1"]
            if r.random() < .3: open(P("test"), "w").write("".join(t + "\n" for t in r.sample(text, r.randint(1, N)))); a += ["-t", P("test")]
            x = run("adagrad_optimize", a)
            if x is None: return
            last = int(passes / (s / N)) + 1; v = dict(w); u, H = {}, {}
            if not E(os.path.exists(P("weights.%d.gz" % last)), "output", "no weights after %d updates: %s" % (last, sorted(os.path.basename(f) for f in glob.glob(P("weights.*"))))): return
            for it in range(last + 1):
                if not same(weights(P("weights.%d.gz" % it)), v, "after %d updates" % it): return
                g, _ = loss(batch(), v); g = {f: y / s for f, y in g.items()}
                for f, y in g.items(): u[f] = u.get(f, 0) + y; H[f] = H.get(f, 0) + y * y
                t = it + 1; v = {f: (-math.copysign(1, u[f]) * eta * (abs(u[f] / t) - lam) * t / math.sqrt(H[f]) if abs(u[f] / t) > lam else 0.0) for f in u}
            done(); return
        I = r.randint(1, 3); Cs, T = round(r.uniform(.05, 1), 3), r.choice([0, 0, .1, .5]); a += ["-d", P("corpus"), "-c", P("ini"), "-I", str(I), "-i", "150", "-C", str(Cs), "-T", str(T)]
        x = run("flex_optimize", a)
        if x is None: return
        if not E(os.path.exists(P("weights.final.gz")), "output", "no final weights"): return
        v = weights(P("weights.final.gz")); bs = [batch() for _ in range(I)]; g, o = loss(bs[-1], v)
        base = weights(P("weights.cur.gz")) if I > 1 and os.path.exists(P("weights.cur.gz")) else w
        for f in set(v) | set(w) | set(g): g[f] = g.get(f, 0) + 2 * Cs * v.get(f, 0) + 2 * T * (v.get(f, 0) - base.get(f, 0))
        n2 = math.sqrt(sum(y * y for y in g.values())); E(n2 <= 1e-3 * max(1, math.sqrt(sum(y * y for y in v.values()))), "stationary", "gradient %.4g of the regularised objective at the final weights (%s)" % (n2, rep["cmd"])); c.count("optima judged"); done()
    def safe(k):
        try: one(k)
        except OverflowError: c.count("cases given up")
    only = os.environ.get("VERIF_ONLY"); n = c.n(160, 6000)
    with ThreadPoolExecutor(vf.JOBS) as ex: list(ex.map(safe, [int(only)] if only else range(n)))
    c.finish()
