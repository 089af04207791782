# Random decoder configurations: grammars, language models, weights, inputs.
import os, random
def arpa(r, path, words, order):
    """a small ARPA model over some of the words: every context of an n-gram is listed, with random values"""
    known = [w for w in words if r.random() < .8] or words[:1]; uni = ["<unk>", "<s>", "</s>"] + known; grams = [[(w,) for w in uni]]
    for n in range(2, order + 1):
        g = set()
        for h in grams[-1]:
            if h[-1] == "</s>" or h[-1] == "<unk>" or "<unk>" in h: continue
            for w in ["</s>"] + known:
                if r.random() < (.35 if n == 2 else .25) and (n == 2 or (h[1:] + (w,)) in set(grams[-1])): g.add(h + (w,))
        if n == 2 and not g: g.add(("<s>", known[0]))
        grams.append(sorted(g))
    while len(grams) > 1 and not grams[-1]: grams.pop()
    o = ["\\data\\"] + ["ngram %d=%d" % (n + 1, len(g)) for n, g in enumerate(grams)] + [""]
    for n, g in enumerate(grams):
        o.append("\\%d-grams:" % (n + 1))
        for x in g:
            p = "-99" if x == ("<s>",) else "%.4f" % -r.uniform(.05, 3); o.append(p + "\t" + " ".join(x) + ("\t%.4f" % -r.uniform(0, 1) if n + 1 < len(grams) and x[-1] != "</s>" else ""))
        o.append("")
    open(path, "w").write("\n".join(o + ["\\end\\", ""])); return len(grams)
FEATS = ["FA", "FB", "FC", "FD", "PhraseModel_0", "PhraseModel_1"]
def features(r):
    if r.random() < .2: return " ".join("%.4f" % r.uniform(-2, 2) for _ in range(r.randint(1, 2)))
    return " ".join("%s=%.4f" % (f, r.uniform(-2, 2)) for f in FEATS[:4] if r.random() < .6)
def grammar(r, sv, tv, nts, goal, n, deep=True):
    src = ["f%d" % i for i in range(sv)]; tgt = ["e%d" % i for i in range(tv)]; lines = []
    for w in src:
        for _ in range(r.choice([0, 1, 1, 1, 2])): lines.append("[%s] ||| %s ||| %s ||| %s" % (r.choice(nts), w, " ".join(r.choice(tgt) for _ in range(r.choice([1, 1, 1, 2]))), features(r)))
    for _ in range(n):
        k = r.choice([0, 0, 1, 1, 2, 2, 2, 3]); t = r.randint(0 if k > 1 else 1, 3); s = [r.choice(src) for _ in range(t)]; cats = [r.choice(nts) for _ in range(k)]; pos = sorted(r.sample(range(t + k), k)); e = [r.choice(tgt) for _ in range(r.randint(0 if k else 1, 3))]; f = []; si = iter(s); q = 0
        for z in range(t + k):
            if z in pos: q += 1; f.append("[%s,%d]" % (cats[q - 1], q))
            else: f.append(next(si))
        o = list(range(1, k + 1)); r.shuffle(o)
        if o: at = sorted(r.randint(0, len(e)) for _ in o); e = [x for z in range(len(e) + 1) for x in ["[%d]" % y for y, a in zip(o, at) if a == z] + e[z:z + 1]]
        lhs = goal if deep and r.random() < .15 else r.choice(nts); lines.append("[%s] ||| %s ||| %s ||| %s" % (lhs, " ".join(f), " ".join(e), features(r)))
    return [l for l in lines if not l.startswith("[%s] ||| [%s,1] |||" % (goal, goal))]
def plf(r, words):
    n, out = len(words), []
    for i, w in enumerate(words):
        arcs = [(w, 0.0, 1)]
        if r.random() < .4: arcs.append((r.choice(words), -round(r.random(), 3), 1))
        if i + 2 <= n and r.random() < .3: arcs.append((r.choice(words), -round(r.random(), 3), 2))
        out.append("(" + "".join("('%s',%s,%d)," % a for a in arcs) + ")")
    return "(" + ",".join(out) + ",)"
STATELESS = ["WordPenalty", "SourceWordPenalty", "ArityPenalty", "RuleIdentityFeatures", "RuleSourceBigramFeatures", "RuleTargetBigramFeatures", "RuleShape", "NonLatinCount", "CMR2008ReorderingFeatures", "InputIndicator", "OutputIndicator", "SourceSpanSizeFeatures"]
STATEFUL = ["NgramFeatures -o 2", "NgramFeatures -o 3", "SpanFeatures", "SourcePathFeatures"]
def scfg(r, d, ff=True, maxlen=6):
    """writes grammar, weights and models into d; returns (options, source vocabulary, feature names likely to fire)"""
    sv, tv = r.randint(2, 5), r.randint(2, 6); nts = r.choice([["X"], ["X"], ["X", "A"]]); P = lambda n: os.path.join(d, n)
    g = grammar(r, sv, tv, nts, "S", r.randint(2, 14)); open(P("g"), "w").write("".join(l + "\n" for l in g)); opt = ["-f", "scfg", "-g", P("g")]
    if r.random() < .25: g2 = grammar(r, sv, tv, nts, "S", r.randint(1, 5)); open(P("g2"), "w").write("".join(l + "\n" for l in g2)); opt += ["-g", P("g2")]
    if r.random() < .6: opt.append("-P")
    if r.random() < .2: opt.append("-n")
    if r.random() < .5: opt += ["-S", str(r.randint(1, 8))]
    return opt, ["f%d" % i for i in range(sv)], ["e%d" % i for i in range(tv)], nts
def weights(r, path, extra=()):
    names = [f for f in FEATS + ["Glue", "PassThrough", "Glue_0", "WordPenalty", "SourceWordPenalty", "Arity_0", "Arity_1", "Arity_2", "NonLatinCount", "LanguageModel", "LanguageModel_OOV", "NG_e0", "NG_e0_e1", "LatticeCost_0"] + list(extra) if r.random() < .8]
    w = {n: round(r.uniform(-1.5, 1.5), 4) for n in names}; open(path, "w").write("".join("%s %s\n" % (n, w[n]) for n in names)); return w
def sentence(r, src, maxlen=6, unk=.1):
    return ["unk%d" % r.randrange(3) if r.random() < unk else r.choice(src) for _ in range(r.randint(1, maxlen))]
