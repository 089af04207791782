import math, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import near
import checks.d09 as d09
TECHNIQUE = "offline oracle over recorded executions: feature totals of derivations drawn from the forests the decoder rescored compared, name by name in both directions, with the definitions of the built-in features applied to the finished derivation (its rules, spans, words, source tree); under ASan+UBSan"
NOTE = "Held on the runs made: 24 built-in feature functions in random combinations and parameters, one or two rescoring passes, open and frozen feature sets, words and lattices. Rule-level indicators (InputIndicator, OutputIndicator) fire once per rule by design. Feature functions for alignment models, morphology and constituent reordering are not judged."
def build():
    b = vf.Builder("asan"); g = ["decoder", "utils", "mteval"]
    return {"cdec": b.program("cdec", [vf.R("decoder/cdec.cc")], g + ["klm", "klm_util", "ksearch"]), "hgtree": b.program("hgtree", [vf.H("hgtree.cc")], g)}
L10 = 1 / math.log(10)
def esc(s): return s.replace("=", "_").replace(";", "_")
def bins(n): return int(math.log(n + 1) / math.log(1.39)) - 1 if n else 0
class Edge:
    def __init__(self, l):
        h, t, sp, self.lhs, f, e, al, fe = l.split("\t"); self.head = int(h); self.tails = [int(x) for x in t.split()]; self.i, self.j, self.pi, self.pj = map(int, sp.split()); self.f = f.split(); self.e = e.split(); self.al = [tuple(map(int, z.split("-"))) for z in al.split()]; self.fe = dict((k, float(v)) for k, v in (z.rsplit("=", 1) for z in fe.split("\x01") if z)); self.ar = len(self.tails)
def gap(w): return w[0] == "[" and w[-1] == "]" and len(w) > 2
def gi(w): return int(w[1:-1])
class D:
    """a derivation: an edge and those of its parts, in source order"""
    def __init__(self, e, kids):
        self.e, self.kids = e, kids; q = iter(kids); self.src = []; self.trg = []
        for w in e.f: self.src += next(q).src if gap(w) else [w]
        for w in e.e: self.trg += kids[gi(w)].trg if gap(w) else [w]
    def all(self):
        yield self
        for k in self.kids: yield from k.all()
def forests(text):
    out = {}; cur = None
    for l in text.split("\n")[:-1]:
        if l.startswith("#\t"): _, f, n = l.split("\t"); cur = out[f] = {"n": int(n), "in": {}}
        else: e = Edge(l); cur["in"].setdefault(e.head, []).append(e)
    return out
def draw(r, F, node): e = r.choice(F["in"][node]); return D(e, [draw(r, F, t) for t in e.tails])
def tree(r, words, labels):
    """a bracketed tree over the words: returns its text and the category of each span that is a constituent"""
    spans = {}
    def node(i, j, top=False):
        lab = r.choice(labels); k = j - i
        if k == 1 or r.random() < .3: body = " ".join(words[i:j]) if k > 1 or r.random() < .6 else node(i, j)
        else: cuts = sorted(r.sample(range(i + 1, j), min(k - 1, r.choice([1, 1, 2])))); p = [i] + cuts + [j]; body = " ".join(node(a, b) for a, b in zip(p, p[1:]))
        spans[(i, j)] = lab; return "(%s %s)" % (lab, body)
    return node(0, len(words)), spans
def mindist(spans, i, j):
    if (i, j) in spans: return 0, spans[(i, j)]
    for k in range(1, j - i):
        for l in range(k + 1):
            for a, b in ((i - l, j + k - l), (i + l, j - (k - l))):
                if (a, b) in spans: return k, spans[(a, b)]
    return (j - i - 1 or 1), ""
class Ctx: pass
# each: (parameters, generator of (feature name, value)) by the definition; applied to a derivation d without its goal rule, sentence context c
def make(r, P, tgt, src, texts):
    def file(n, t): open(P(n), "w").write(t); texts[n] = t; return P(n)
    def per(fn): return lambda d, c: [z for x in d.all() for z in fn(x, c)]
    M = {}
    M["WordPenalty"] = lambda: ("", lambda d, c: [("WordPenalty", -L10 * len(d.trg))])
    M["SourceWordPenalty"] = lambda: ("", lambda d, c: [("SourceWordPenalty", -L10 * len(d.src))])
    def arity(): m = r.choice([None, 0, 1, 2, 3]); return ("" if m is None else str(m), per(lambda x, c: [("Arity_%d" % x.e.ar, 1)] if m is None or x.e.ar <= m else []))
    M["ArityPenalty"] = arity
    M["RuleIdentityFeatures"] = lambda: ("", per(lambda x, c: [(esc("R:%s:%s:%s" % (x.e.lhs, "_".join("N" + w[1:-1] if gap(w) else w for w in x.e.f), "_".join("N%d" % (gi(w) + 1) if gap(w) else w for w in x.e.e))), 1)]))
    def bigrams(pre, ws): ws = ["<r>"] + ws + ["</r>"]; return [(esc(pre + a + "_" + b), 1) for a, b in zip(ws, ws[1:])]
    M["RuleSourceBigramFeatures"] = lambda: ("", per(lambda x, c: bigrams("RBS:", [w[1:-1] if gap(w) else w for w in x.e.f])))
    def cats(x): return [w[1:-1] for w in x.e.f if gap(w)]
    M["RuleTargetBigramFeatures"] = lambda: ("", per(lambda x, c: bigrams("RBT:", [cats(x)[gi(w)] + str(gi(w) + 1) if gap(w) else w for w in x.e.e])))
    def side(ws):
        o = ""; i = 0
        while i < len(ws):
            if len(o) % 2: o += "1"; i += 1
            elif gap(ws[i]): o += "0"
            else:
                o += "1"
                while i < len(ws) and not gap(ws[i]): i += 1
        return o.ljust(5, "0")
    M["RuleShape"] = lambda: ("", per(lambda x, c: [("Shape_S%s_T%s" % (side(x.e.f), side(x.e.e)), 1)]))
    def shape2():
        em = {w: r.choice(["c1", "c2", "word"]) for w in tgt if r.random() < .7}; fm = {w: r.choice(["c1", "c2", "word"]) for w in src if r.random() < .7}; what = r.choice(["e", "f", "ef", "ef", "ef"]); p = r.choice([0, 0, 1, 3]); a = []
        if "e" in what: a += ["-e", file("emap", "".join("%s %s%s\n" % (v, k, r.choice(["", " 7"])) for k, v in em.items()))]
        if "f" in what: a += ["-f", file("fmap", "".join("%s %s\n" % (v, k) for k, v in fm.items()))]
        if p: a += ["-p", str(p)]
        cl = lambda m, ws: "_".join("NT" if gap(w) else (m[w][:p] if p else m[w]) if w in m else "<unk>" for w in ws)
        return " ".join(a), per(lambda x, c: [("RS:" + "__".join(([cl(fm, x.e.f)] if "f" in what else []) + ([cl(em, x.e.e)] if "e" in what else [])), 1)])
    M["RuleShape2"] = shape2
    M["NonLatinCount"] = lambda: ("", lambda d, c: [("NonLatinCount", sum(any(ord(z) > 127 for z in w) for w in d.trg))])
    def ngrams():
        o = r.choice([1, 2, 2, 3, 4, 5]); a = ["-o", str(o)]; pre = [None, "U:", "B:", "T:", "4:", "5:"]; sep = "_"; name = ""; m = None
        if r.random() < .2: pre[2] = "bi:"; a += ["-B", "bi:"]
        if r.random() < .2: sep = "|"; a += ["-S", "|"]
        if r.random() < .2: name = "NG_"; a += ["-n", "NG_"]
        if r.random() < .3: m = {w: r.choice(["k1", "k2", "k3"]) for w in tgt if r.random() < .8} or {"e0": "k1"}; a += ["-c", file("clusters", "".join("%s %s\n" % (v, k) for k, v in m.items()))]
        def f(d, c):
            ws = ["<s>"] + [(m.get(w, "<unk>") if m else w) for w in d.trg] + ["</s>"]
            return [(name + pre[n] + sep.join(esc(z) for z in ws[k - n + 1:k + 1]), 1) for k in range(1, len(ws)) for n in range(1, o + 1) if k - n + 1 >= 0]
        return " ".join(a), f
    M["NgramFeatures"] = ngrams
    def wordset(): v = {w for w in tgt if r.random() < .5}; oov = r.random() < .6; n = r.choice(["WSet", "Known"]); return "-v %s -N %s%s" % (file("vocab", "".join(w + "\n" for w in v)), n, " --oov" if oov else ""), lambda d, c: [(n, sum((w in v) != oov for w in d.trg))]
    M["WordSet"] = wordset
    def spans():
        m = {w: r.choice(["p", "q"]) for w in src if r.random() < .8} if r.random() < .5 else None; vals = None
        if m is not None and not m: m = {"f0": "p"}
        if m is not None: file("spanmap", "".join("%s %s\n" % z for z in m.items()))
        if m is not None and r.random() < .5:
            names = ["p", "q", "OOV", "BOS", "EOS"]; vals = {}
            for _ in range(30): a, b = r.choice(names), r.choice(names); vals[r.choice(["ES:" + a, "BS:" + a, "EBI:%s_%s" % (a, b), "BBI:%s_%s" % (a, b), "S:%s_%s" % (a, b), "S_S:%s_%s" % (a, b), "LS:%d_%s_%s" % (r.randint(0, 4), a, b), "S_LS:%d_%s_%s" % (r.randint(0, 4), a, b)])] = round(r.uniform(-1, 1), 3)
            file("spanvals", "# values\n" + "".join("%s %g\n" % z for z in vals.items()))
        cl = lambda w: w if m is None or w in ("BOS", "EOS") else m.get(w, "OOV")
        def f(x, c):
            i, j = x.e.i, x.e.j; b = lambda k: cl(c.words[k - 1] if k else "BOS"); e = lambda k: cl(c.words[k] if k < len(c.words) else "EOS"); S = "S_" if x.e.lhs == "S" else ""
            n = {"E": ["ES:" + e(j), "EBI:%s_%s" % (b(j), e(j))], "B": ["BS:" + b(i), "BBI:%s_%s" % (b(i), e(i))], "X": [S + "S:%s_%s" % (b(i), e(j)), S + "LS:%d_%s_%s" % (bins(j - i), b(i), e(j))]}
            if vals is None: return [(esc(z), 1) for v in n.values() for z in v]
            s = {k: sum(vals.get(esc(z), 0) for z in v) for k, v in n.items()}; return [("SpanEnd", s["E"]), ("SpanBegin", s["B"]), ("SSpanContext" if S else "XSpanContext", s["X"])]
        return " ".join(["" if m is None else P("spanmap")] + ([P("spanvals")] if vals else [])).strip(), per(f)
    M["SpanFeatures"] = spans
    def cmr(x, c):
        if x.e.ar != 2 or x.e.lhs == "S": return []
        n = "CMRReorder" if next(gi(w) for w in x.e.e if gap(w)) else "CMRMono"; return [(n, 1), (n + "_%d" % bins(min(15, x.e.j - x.e.i)), 1)]
    M["CMR2008ReorderingFeatures"] = lambda: ("", per(cmr))
    def named(x, f): q = iter(x.kids); return "_".join(f(w, next(q)) if gap(w) else w for w in x.e.f)
    def etxt(x): return "_".join("[%d]" % (gi(w) + 1) if gap(w) else w for w in x.e.e)
    M["SourceSpanSizeFeatures"] = lambda: ("", per(lambda x, c: [("SSS:%s:%s" % (named(x, lambda w, k: "[%s%d]" % (w[1:-1], bins(k.e.j - k.e.i))), etxt(x)), 1)] if x.e.ar else []))
    lab = lambda c, x: c.tree.get((x.e.i, x.e.j), "XX")
    M["SourceSyntaxFeatures"] = lambda: ("", per(lambda x, c: [("SSYN:%s:%s:%s" % (lab(c, x), named(x, lambda w, k: "[" + lab(c, k) + "]"), etxt(x)), 1)]))
    def ssyn2(x, c):
        o = ""; q = iter(x.kids)
        for n, w in enumerate(x.e.f):
            if gap(w): o += ("_" if n else "") + "[" + lab(c, next(q)) + "]"
        return [("SSYN2:%s:%s:%s" % (lab(c, x), o, etxt(x)), 1)]
    M["SourceSyntaxFeatures2"] = lambda: ("", per(ssyn2))
    def soft(min_):
        def g():
            ls = r.sample(["NP", "VP", "PP", "N"], r.randint(1, 3)); ks = [r.choice("2_+-") for _ in ls]; pre = "SOFTM:" if min_ else "SOFT:"
            def f(x, c):
                dist, l = mindist(c.tree, x.e.i, x.e.j) if min_ else (0 if (x.e.i, x.e.j) in c.tree else 1, lab(c, x)); o = []
                for a, k in zip(ls, ks):
                    same = l == a; n = pre + a
                    if k == "2" and (same or not min_): o.append((n + ("_conform" if same and dist == 0 else "_cross"), 1))
                    if k == "_" and (same or not min_): o.append((n, 1 if same and dist == 0 else -1))
                    if k == "+" and same and dist == 0: o.append((n + "_conform", 1))
                    if k == "-" and not same and (dist > 0 or not min_): o.append((n + "_cross", 1))
                return o
            return " ".join(a + k for a, k in zip(ls, ks)), per(f)
        return g
    M["SoftSyntaxFeatures"] = soft(False); M["SoftSyntaxFeaturesMindist"] = soft(True)
    def pm():
        k = r.choice(["", "b", "l", "e", "r"])
        def f(x, c):
            n = x.e.j - x.e.i; m = mindist(c.tree, x.e.i, x.e.j)[0]; s = m + sum(mindist(c.tree, y.e.i, y.e.j)[0] for y in x.kids); return [("PM", {"l": 1 / (m + 1), "e": math.exp(-m), "r": n / (n + m)}.get(k, float(s == 0)))]
        return k, per(f)
    M["ParseMatchFeatures"] = pm
    M["SourcePathFeatures"] = lambda: ("", lambda d, c: [("SU:" + w, 1) for w in d.src] + [("SB:%s_%s" % z, 1) for z in zip(d.src, d.src[1:])])
    sp = {"=": "__EQ", ";": "__SC", ",": "__CO"}
    M["InputIndicator"] = lambda: ("", per(lambda x, c: [("S:" + sp.get(w, w), 1) for w in set(x.e.f) if not gap(w)]))
    M["OutputIndicator"] = lambda: ("", per(lambda x, c: [(esc("T:" + sp.get(w, w)), 1) for w in set(x.e.e) if not gap(w)]))
    def lexical():
        a = r.choice([None, (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0)]); T, I, Dl = a or (1, 1, 1)
        def f(x, c):
            al = c.align(x.e); o = [("LT:%s:%s" % (esc(x.e.f[s]), esc(x.e.e[t])), 1) for s, t in al] if T else []
            if Dl: o += [("LD:" + esc(w), 1) for k, w in enumerate(x.e.f) if not gap(w) and k not in {s for s, t in al}]
            if I: o += [("LI:" + esc(w), 1) for k, w in enumerate(x.e.e) if not gap(w) and k not in {t for s, t in al}]
            return o
        return "" if a is None else "%d %d %d" % a, per(f)
    M["LexicalFeatures"] = lexical
    return M
TREE = ["SourceSyntaxFeatures", "SourceSyntaxFeatures2", "SoftSyntaxFeatures", "SoftSyntaxFeaturesMindist", "ParseMatchFeatures"]; SPANS = ["SpanFeatures", "CMR2008ReorderingFeatures", "SourceSpanSizeFeatures", "SourcePathFeatures", "LexicalFeatures"]
BASE = set(G.FEATS) | {"Glue", "PassThrough", "LatticeCost"}
def base(n): return n in BASE or n.startswith("PhraseModel_") or n.startswith("LatticeCost_") or n.startswith("PassThrough_") or n.startswith("Glue_")
def main():
    c = vf.Check("D14", "derivation, distinct by configuration, sentence and rules used"); e = build(); noleak = {"ASAN_OPTIONS": "detect_leaks=0"}
    def one(k):
        r = random.Random(c.seed * 67867967 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d); P = lambda n: os.path.join(d, n); texts = {}; mode = r.choice(["scfg"] * 6 + ["pb"])
        src = ["f%d" % i for i in range(r.randint(2, 4))]; tgt = ["e%d" % i for i in range(r.randint(2, 5))]; lattice = r.random() < .12; odd = r.random() < .3; aligns = {}
        if odd: swap = {"e0": r.choice([";", "=", ",", "größe", "日本"]), "f0": r.choice([";", ",", "=", "über"])}
        else: swap = {}
        w = {z: round(r.uniform(-1, 1), 3) for z in G.FEATS}
        if mode == "scfg":
            g = []
            for l in G.grammar(r, len(src), len(tgt), r.choice([["X"], ["X", "A"]]), "S", r.randint(3, 14)):
                f = l.split(" ||| "); f[1] = " ".join(swap.get(z, z) for z in f[1].split()); f[2] = " ".join(swap.get(z, z) for z in f[2].split()); a = []
                if (f[0][1:-1], f[1], f[2]) in aligns or f[1] == f[2]: continue # (the second: indistinguishable from a pass-through rule)
                F_, E_ = f[1].split(), f[2].split()
                if r.random() < .7: a = [(i, j) for i, x in enumerate(F_) for j, y in enumerate(E_) if not x.startswith("[") and not y.startswith("[") and r.random() < .35]
                aligns[(f[0][1:-1], f[1], f[2])] = a; g.append(" ||| ".join(f) + (" ||| " + " ".join("%d-%d" % z for z in a) if a else ""))
            texts["g"] = "".join(l + "\n" for l in g); opt = ["-f", "scfg", "-g", P("g"), "-S", str(r.choice([3, 5, 9, 30]))] + (["-P"] if r.random() < .8 else []) + (["-n"] if r.random() < .15 else [])
            if "-P" in opt and r.random() < .3: opt += ["-Q", str(r.randint(1, 5))]
        else: rows = [(tuple(swap.get(z, z) for z in f), tuple(swap.get(z, z) for z in t), s) for f, t, s in d09.table(r, src, tgt, r.randint(4, 12), [1, 1, 2, 3])]; d09.write(P("g"), rows); texts["g"] = vf.text(P("g")); opt = ["-f", "pb", "-g", P("g"), "--pb_max_distortion", str(r.randint(0, 4)), "-P"]
        open(P("g"), "w").write(texts["g"])
        many = any(len([z for z in l.split(" ||| ")[1].split() if z.startswith("[")]) > 2 for l in texts["g"].split("\n") if l)  if mode == "scfg" else False
        M = make(r, P, [swap.get(z, z) for z in tgt], [swap.get(z, z) for z in src], texts); names = [n for n in M if not (mode == "pb" and n in TREE + SPANS) and not (lattice and n in TREE) and not (many and n == "RuleShape")]; chosen = r.sample(names, r.choice([1, 2, 3, 5])); defs = []; F = []; two = r.random() < .15 and len(chosen) > 1
        for q, n in enumerate(chosen): a, fn = M[n](); defs.append((n, fn)); F += ["--feature_function2" if two and q == len(chosen) - 1 else "-F", (n + " " + a).strip()]
        needtree = any(n in TREE for n in chosen); ins = []; ctx = []
        for i in range(r.randint(1, 3)):
            s = [swap.get(z, z) for z in G.sentence(r, src, r.choice([4, 6, 6, 20 if "CMR2008ReorderingFeatures" in chosen and len(src) > 3 else 6]))]; x = Ctx(); x.words = s; x.tree = {}
            if lattice and not any(z in ";=," for z in s): t = G.plf(r, s)
            else: t = " ".join(s)
            if needtree: tt, x.tree = tree(r, s, ["NP", "VP", "PP", "N", "S"]); texts["tree%d" % i] = tt; open(P("tree%d" % i), "w").write(tt + r.choice(["", "\n"])); t = '<seg id="%d" src_tree="%s"> %s </seg>' % (i, P("tree%d" % i), t)
            x.align = lambda ed: aligns.get((ed.lhs, " ".join(cat(ed, q) for q in range(len(ed.f))), " ".join("[%d]" % (gi(z) + 1) if gap(z) else z for z in ed.e)), [(0, 0)] if ed.f == ed.e and len(ed.f) == 1 else [])
            ins.append(t); ctx.append(x)
        if r.random() < .6: F += ["-I", r.choice(["full", "full", "cube_pruning", "fast_cube_pruning", "fast_cube_pruning_2"])]
        if r.random() < .4: F += ["-K", str(r.choice([3, 20, 200]))]
        if two: F += ["--weights2", P("w")]
        text = "".join(i + "\n" for i in ins); frozen = None
        def go(tag, extra):
            os.makedirs(P(tag)); open(P("w"), "w").write("".join("%s %s\n" % z for z in w.items())); cmd = [e["cdec"]] + opt + F + extra + ["-w", P("w"), "-O", P(tag)]; rep = dict(texts, cmd=" ".join(cmd), input=text, weights=vf.text(P("w"))); x = c.run(cmd, stdin=text.encode(), env=noleak, replay=rep)
            if x is None: return None, rep
            files = [P(tag + "/%d.bin.gz" % i) for i in range(len(ins)) if os.path.exists(P(tag + "/%d.bin.gz" % i))]
            if not files: return {}, rep
            y = c.run([e["hgtree"]] + files, key="hgtree"); return (forests(y.stdout.decode()) if y else None), rep
        seen = set()
        def judge(Fs, tag, rep, keep):
            for i, x in enumerate(ctx):
                f = Fs.get(P(tag + "/%d.bin.gz" % i))
                if not f or not f["in"].get(f["n"] - 1): continue
                c.count("sentences")
                for _ in range(c.n(25, 60)):
                    z = draw(r, f, f["n"] - 1); inner = z.kids[0] if len(z.kids) == 1 and z.e.lhs == "Goal" else z; want = {}; got = {}
                    for y in z.all():
                        for n, v in y.e.fe.items(): got[n] = got.get(n, 0) + v
                    for n, fn in defs:
                        for m, v in fn(inner, x):
                            if v and keep(m): want[m] = want.get(m, 0) + v
                    got = {n: v for n, v in got.items() if not base(n)}; bad = [n for n in set(got) | set(want) if not near(got.get(n, 0), want.get(n, 0), 1e-6, 1e-6)]
                    if frozen is not None: bad = [n for n in bad if keep(n)]
                    seen.update(want); c.dist("nontrivial", hash((str(F), texts["g"], i, tuple((y.e.lhs, tuple(y.e.f), tuple(y.e.e), y.e.i, y.e.j) for y in z.all())))); c.count("derivations"); c.count("feature values compared", len(want))
                    c.sample("%s: '%s' -> '%s': %s" % (" ".join(F), " ".join(z.src), " ".join(z.trg), sorted(want.items())[:6]))
                    if not c.expect(not bad, "feature:" + ",".join(sorted(n for n, _ in defs if n in F or True))[:80] if len(defs) > 1 else "feature:" + defs[0][0], "sentence %d, %s: '%s' -> '%s' (%d rules): %s" % (i, F, " ".join(z.src), " ".join(z.trg), len(list(z.all())), ["%s is %g, by definition %g" % (n, got.get(n, 0), want.get(n, 0)) for n in sorted(bad)[:5]]), rep): return
        def cat(ed, q): # the grammar's text of a source symbol
            w2 = ed.f[q]; return "[%s,%d]" % (w2[1:-1], 1 + sum(gap(z) for z in ed.f[:q])) if gap(w2) else w2
        Fs, rep = go("A", [])
        if Fs is None: return
        c.count("cases"); [c.dist("feature functions", n) for n in chosen]; judge(Fs, "A", rep, lambda n: True)
        if r.random() < .35 and seen:
            frozen = {n for n in seen if r.random() < .6} | {"FA"}; w.update({n: .1 for n in ["Glue", "PassThrough", "LatticeCost", "LatticeCost_0", "LatticeCost_1"] + ["PassThrough_%d" % q for q in range(12)] + ["Glue_%d" % q for q in range(6)]}); w.update({n: round(r.uniform(-.5, .5), 3) for n in frozen if " " not in n and "=" not in n}); texts["frozen"] = str(sorted(frozen)); Fs, rep = go("B", ["-Z"])
            if Fs is not None: judge(Fs, "B", rep, lambda n: n in w); c.count("runs with a frozen feature set")
    with ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(one, k) for k in range(c.n(420, 12000))]: f.result()
    c.finish()
