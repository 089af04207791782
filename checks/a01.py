import math, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "online oracle: whole training runs of the aligner on random corpora under ASan+UBSan, whose reported likelihoods, printed links, written parameters and held-out scores are compared with an independent expectation maximisation; normaliser, derivative and tables observed in process against direct sums"
NOTE = "Held on the corpora run (up to 12 pairs of up to 12 words, up to 9 iterations). Links whose two best positions tie to within 1e-6 may go either way. How the tension is updated is not judged, only that the expectations it is computed from are the model's."
def build():
    b = vf.Builder("asan")
    return {"a01": b.program("a01", [vf.H("a01.cc"), vf.R("word-aligner/ttables.cc")], ["utils"]), "fast_align": b.program("fast_align", [vf.R("word-aligner/fast_align.cc"), vf.R("word-aligner/ttables.cc")], ["utils"])}
def digamma(x):
    s = 0.0
    while x < 12: s -= 1 / x; x += 1
    y = 1 / (x * x); return s + math.log(x) - .5 / x - y * (1/12. - y * (1/120. - y * (1/252. - y * (1/240. - y / 132.))))
def near(a, b, rel=2e-5, ab=1e-5): return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= ab + rel * max(abs(a), abs(b))
NULL = 0
class Model:
    def __init__(s, o): s.o = o; s.t = {}; s.tension = o["T"]
    def feat(s, i, j, m, n): return -abs(j / n - i / m)
    def prior(s, i, m, n):  # of null and of each source position for target position i of m
        nul = not s.o["N"]
        if not s.o["d"]: u = 1 / (n + nul) if n + nul else 0; return [u if nul else 0] + [u] * n
        p0 = s.o["p0"] if nul else 0
        w = [math.exp(s.feat(i, j, m, n) * s.tension) for j in range(1, n + 1)]; z = sum(w)
        return [p0] + [(1 - p0) * x / z for x in w]
    def p(s, e, f): return s.t.get(e, {}).get(f, 1e-9)
    def joint(s, src, i, trg):
        return [a * s.p(e, trg[i]) for a, e in zip(s.prior(i + 1, len(trg), len(src)), [NULL] + src)]
def corpus(r):
    V, W = r.randint(1, 12), r.randint(1, 12); mx = r.choice([3, 6, 12])
    lines = []
    for _ in range(r.randint(1, 12)):
        s = ["s%d" % min(r.randrange(V), r.randrange(V)) for _ in range(r.randint(1, mx))]
        if r.random() < .6: t = ["t%d" % (int(x[1:]) % W if r.random() < .8 else r.randrange(W)) for x in s if r.random() < .9] or ["t0"]
        else: t = ["t%d" % r.randrange(W) for _ in range(r.randint(1, mx))]
        if r.random() < .2: t = t + ["s1"]  # a word of both languages
        lines.append((s, t))
    return lines
def links(m, src, trg, o, tie):
    out = []  # per target word: set of acceptable source positions (0: none)
    for i in range(len(trg)):
        q = m.joint(src, i, trg); q = q if not o["N"] else [-1] + q[1:]; b = max(q); out.append({k for k, x in enumerate(q) if x >= 0 and (x >= b * (1 - tie) if b > 0 else x == b)})
    return out
def judge(text, ok, o):
    f = [tuple(map(int, x.split("-"))) for x in text.split()]; got = {}
    for a, b in f:
        if o["r"]: a, b = b, a
        if b in got: return "two links for target word %d" % b
        got[b] = a + 1
    if [x for x in (f if not o["r"] else [(b, a) for a, b in f])] != sorted([(got[b] - 1, b) for b in got], key=lambda z: z[1]): return "links are not in the order of the target words"
    for i, s in enumerate(ok):
        if got.pop(i, 0) not in s: return "target word %d is linked to %s, the best are %s" % (i, text, sorted(s))
    return "links past the end" if got else None
def loglik(m, src, trg, mult):
    l = 0.05 + len(src) * mult; x = math.log(l) * len(trg) - math.lgamma(len(trg) + 1) - l
    for i in range(len(trg)):
        z = sum(m.joint(src, i, trg)); x += math.log(z) if z > 0 else -math.inf
    return x
def main():
    c = vf.Check("A01", "training run of the aligner, distinct by corpus and options; normaliser or table, distinct by arguments")
    e = build(); c.harness(e["a01"], c.n(6000, 300000))
    def one(k):
        r = random.Random(c.seed * 49979687 + k); d = os.path.join(c.work, "a%d" % k); os.makedirs(d); P = lambda n: os.path.join(d, n)
        lines = corpus(r); o = dict(r=r.random() < .3, I=r.choice([1, 2, 2, 3, 4, 5, 9]), d=r.random() < .6, p0=round(r.uniform(.01, .5), 3), T=r.choice([4.0, 0.0, round(r.uniform(.1, 12), 2)]), o=False, v=r.random() < .25, alpha=r.choice([.01, round(r.uniform(.001, 1), 3)]), N=r.random() < .25, H=r.random() < .25, V=r.random() < .35, t=r.choice([-4.0, -10000.0, 0.0, round(-r.uniform(0, 3), 2)])); o["o"] = o["d"] and r.random() < .35
        text = "".join(" ".join(s) + " ||| " + " ".join(t) + "\n" for s, t in lines); open(P("in"), "w").write(text); test = corpus(r)[:5] + lines[:2]
        for i in range(len(test)):
            if r.random() < .1: test[i] = (test[i][0] + ["new"], test[i][1] + ["unseen"])
            if r.random() < .05: test[i] = (test[i][0], [])
        ttext = "".join(" ".join(s) + " ||| " + " ".join(t) + "\n" for s, t in test); open(P("test"), "w").write(ttext)
        cmd = [e["fast_align"], "-i", P("in"), "-I", str(o["I"]), "-p", P("par"), "-t", str(o["t"]), "-x", P("test")] + [f for k2, f in (("r", "-r"), ("d", "-d"), ("o", "-o"), ("v", "-v"), ("N", "-N"), ("H", "-H"), ("V", "-V")) if o[k2]] + ["--prob_align_null", str(o["p0"]), "-T", str(o["T"]), "-a", str(o["alpha"])]
        rep = {"corpus": text, "test": ttext, "options": str(o), "cmd": " ".join(cmd)}
        x = c.run(cmd, replay=rep)
        if x is None: return
        c.count("cases"); c.dist("nontrivial", hash((text, str(o)))); c.sample("%s on %d pairs" % (o, len(lines)))
        out = x.stdout.decode().split("\n"); err = x.stderr.decode(); E = lambda *a, **q: c.expect(*a, **q)
        pick = lambda s, t: (t, s) if o["r"] else (s, t)
        pairs = [pick(*z) for z in lines]; m = Model(o); its = re.split(r"ITERATION \d+.*\n", err)[1:]
        if not c.expect(len(its) == o["I"], "iterations", "%d of %d" % (len(its), o["I"]), rep): return
        val = lambda it, name: float(re.search(name + r":? *=? *(\S+)", it).group(1)); prev = None; toks = sum(len(t) for _, t in pairs); vit = set(); last = {}
        mult = sum(len(t) / len(s) for s, t in pairs) / len(pairs); c.expect(near(val(its[0], r"source length \*"), mult), "multiplier", "%g reported, %g by definition" % (val(its[0], r"source length \*"), mult), rep)
        for it, txt in enumerate(its):
            fin = it == o["I"] - 1; ll = 0.; cnt = {}; c0 = 0.; ft = 0.
            for s, t in pairs:
                for i in range(len(t)):
                    q = m.joint(s, i, t); z = sum(q); ll += math.log(z)
                    for j, y in enumerate(q):
                        if j == 0 and o["N"]: continue
                        w = cnt.setdefault(NULL if j == 0 else s[j-1], {}); w[t[i]] = w.get(t[i], 0) + y / z
                        if j: ft += m.feat(i + 1, j, len(t), len(s)) * y / z
                        else: c0 += y / z
            if fin: last = m.t
            got = val(txt, "log_e likelihood"); c.count("likelihoods compared")
            if not c.expect(near(got, ll), "likelihood", "iteration %d reports %g, the model gives %g" % (it + 1, got, ll), rep): return
            c.expect(near(val(txt, "log_2 likelihood"), ll / math.log(2)) and near(val(txt, "cross entropy"), -ll / math.log(2) / toks) and near(val(txt, "perplexity"), 2 ** min(1000, -ll / math.log(2) / toks), 1e-3), "entropy", "iteration %d: %s" % (it + 1, txt), rep)
            if prev is not None and not o["v"] and not o["o"]: c.expect(got >= prev - 1e-5 * abs(prev) - 1e-6, "monotone", "the likelihood falls from %g to %g" % (prev, got), rep)
            prev = got
            if fin: break
            c.expect(near(val(txt, "posterior p0"), c0 / toks), "posterior:null", "iteration %d: %g, %g by definition" % (it + 1, val(txt, "posterior p0"), c0 / toks), rep)
            c.expect(near(val(txt, "posterior al-feat"), ft / toks), "posterior:feature", "iteration %d: %g, %g by definition" % (it + 1, val(txt, "posterior al-feat"), ft / toks), rep)
            tn = re.findall(r"model al-feat: (\S+) \(tension=(\S+)\)", txt); c.expect(len(tn) == (8 if o["o"] and it else 0), "tension:steps", "%d" % len(tn), rep)
            for mf, ten in tn:
                ten = float(ten); w = 0.
                for s, t in pairs:
                    n = len(s)
                    for i in range(1, len(t) + 1):
                        g = [math.exp(m.feat(i, j, len(t), n) * ten) for j in range(1, n + 1)]; w += sum(m.feat(i, j, len(t), n) * y for j, y in enumerate(g, 1)) / sum(g)
                c.expect(near(float(mf), w / toks, 1e-4), "tension:expectation", "at tension %g the model is said to expect %s, it expects %g" % (ten, mf, w / toks), rep); c.count("tension steps")
            f = re.search(r"final tension: (\S+)", txt)
            if f: m.tension = float(f.group(1)); c.expect(0.1 - 1e-6 <= m.tension <= 14 + 1e-4, "tension:range", f.group(1), rep)
            for w in cnt:
                tot = sum(y + (o["alpha"] if o["v"] else 0) for y in cnt[w].values())
                cnt[w] = {g: (math.exp(digamma(y + o["alpha"]) - digamma(tot)) if o["v"] else y / tot) for g, y in cnt[w].items()}
            m.t = cnt
        tie = 1e-3 if o["o"] else 1e-6; pos = 0
        maybe = set()
        for s, t in pairs:
            ok = links(m, s, t, o, tie)
            if not o["H"]:
                why = judge(out[pos], ok, o) if pos < len(out) else "a line is missing"; pos += 1; c.count("sentences aligned"); c.expect(why is None, "links", "%s ||| %s: %s" % (" ".join(s), " ".join(t), why), rep)
            for i, z in enumerate(ok): (vit if len(z) == 1 else maybe).update((([NULL] + s)[b], t[i]) for b in z)
        tlp = 0.
        for s, t in test:
            fld = (out[pos] if pos < len(out) else "").split("|||"); pos += 1
            if not c.expect(len(fld) == 4 and fld[0].split() == s and fld[1].split() == t, "heldout:line", "'%s' for %s ||| %s" % (fld, s, t), rep): return
            a, b = pick(s, t); ok = links(m, a, b, o, tie) if a else [{0}] * len(b); 
            if o["N"]: ok = [z | {0} if not any(m.joint(a, i, b)) else z for i, z in enumerate(ok)]
            why = None if o["H"] and not fld[2].strip() else judge(fld[2], ok, o); c.expect(why is None, "heldout:links", "%s: %s" % (fld, why), rep)
            try: want = loglik(m, a, b, mult)
            except ZeroDivisionError: want = None
            c.count("held-out pairs scored"); tlp += want or 0
            if want is not None: c.expect(near(float(fld[3]), want, 1e-3 if o["o"] else 2e-5), "heldout:score", "%s scored %s, %g by definition" % (fld, fld[3], want), rep)
        c.expect(pos == len(out) - 1, "lines", "%d lines, %d expected" % (len(out) - 1, pos), rep)
        par = {}
        for l in vf.text(P("par")).split("\n")[:-1]:
            w = l.split(); c.expect(len(w) == 3 and (w[0], w[1]) not in par, "parameters:line", l, rep); par[w[0], w[1]] = float(w[2])
        thr = 10 ** max(o["t"], -400) if o["t"] > -400 else 0.; wt = 1e-3 if o["o"] else 1e-6
        for w in m.t:
            best = max(m.t[w].values()); ties = sum(z >= best * (1 - wt) for z in m.t[w].values()); name = w if w != NULL else "<eps>"
            for g, y in m.t[w].items():
                inc = y >= best * thr * (1 + wt) or (y == best and ties == 1) or (not o["V"] and (w, g) in vit); exc = y < best * thr * (1 - wt) and (o["V"] or ((w, g) not in vit and (w, g) not in maybe)); v = par.pop((name, g), None)
                if y < 1e-300: continue
                if thr > .999 and ties > 1: inc = False
                c.expect(not (inc and v is None), "parameters:missing", "p(%s|%s)=%g is not written, the best is %g, threshold 10^%g" % (g, name, y, best, o["t"]), rep); c.expect(not (exc and v is not None), "parameters:extra", "p(%s|%s)=%g is written, the best is %g, threshold 10^%g" % (g, name, y, best, o["t"]), rep)
                if v is not None: c.expect(near(v, math.log(y), 1e-3 if o["o"] else 2e-5), "parameters:value", "log p(%s|%s) written as %g, %g by definition" % (g, name, v, math.log(y)), rep); c.count("parameters compared")
        c.expect(not par, "parameters:unknown", "%s" % list(par)[:3], rep)
        # forced alignment with the written parameters
        m2 = Model(o); m2.tension = round(m.tension, 3)
        for l in vf.text(P("par")).split("\n")[:-1]: w = l.split(); m2.t.setdefault(NULL if w[0] == "<eps>" else w[0], {})[w[1]] = math.exp(float(w[2]))
        cmd = [e["fast_align"], "-i", P("test"), "-f", P("par"), "-m", "%.6g" % mult, "-T", str(m2.tension), "--prob_align_null", str(o["p0"])] + [f for k2, f in (("r", "-r"), ("d", "-d"), ("N", "-N")) if o[k2]]
        x = c.run(cmd, replay=dict(rep, cmd=" ".join(cmd)))
        if x is None: return
        out = x.stdout.decode().split("\n"); c.expect(len(out) == len(test) + 1, "forced:lines", "%d" % len(out), rep)
        for l, (s, t) in zip(out, test):
            fld = l.split("|||"); a, b = pick(s, t); ok = links(m2, a, b, o, 1e-9) if a else [{0}] * len(b)
            if o["N"]: ok = [z | {0} if not any(m2.joint(a, i, b)) else z for i, z in enumerate(ok)]
            why = judge(fld[2], ok, o); c.expect(why is None, "forced:links", "%s: %s" % (fld, why), rep)
            want = loglik(m2, a, b, float("%.6g" % mult)); c.expect(near(float(fld[3]), want), "forced:score", "%s, %g by definition" % (fld, want), rep); c.count("pairs force-aligned")
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(1500, 30000))))
    c.finish()
