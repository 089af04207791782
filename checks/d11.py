import gzip, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import near, samef, fmap, dump
import checks.d12 as d12
TECHNIQUE = "offline checkers over recorded executions: the same decoding run twice compared byte for byte; sentences decoded alone, in permuted, repeated and mixed histories with per-sentence grammars, references, failing and blank inputs compared entry by entry (k-best lists, one-best lines, every derivation of the forests written) with each other; under ASan+UBSan"
NOTE = "Held on the histories run. Where feature or word numbers depend on the history the values are compared to six digits and lists as multisets; where they cannot, verbatim. Sampling options are random by design and not run."
build = d12.build
FIXED = ["WordPenalty", "SourceWordPenalty", "ArityPenalty", "NonLatinCount"]
def parse(text):
    """k-best entries by sentence id"""
    out = {}
    for l in text.split("\n"):
        f = l.split(" ||| ")
        if len(f) == 4 and f[0].isdigit(): out.setdefault(int(f[0]), []).append(l.split(" ||| ", 1)[1])
    return out
def entry(l): y, f, s = l.split(" ||| "); return y.strip(), fmap(f), float(s)
def same(a, b, dot=True):
    """multisets of (text, features, score) compared with tolerance; returns what is wrong or None"""
    if len(a) != len(b): return "%d and %d" % (len(a), len(b))
    left = {}
    for z in b: left.setdefault(z[0], []).append(z)
    for z in a:
        c = left.get(z[0], []); j = next((j for j, q in enumerate(c) if near(z[2], q[2]) and samef(z[1], q[1])), None)
        if j is None: return "%s %s only in one" % (z[0], z[2])
        c.pop(j)
    return None
def main():
    c = vf.Check("D11", "sentence compared between two histories, distinct by configuration, sentence and pair of histories")
    e = build()
    def one(k):
        r = random.Random(c.seed * 49979687 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d); P = lambda n: os.path.join(d, n)
        strict = r.random() < .5; opt, src, tgt, nts = G.scfg(r, d); w = G.weights(r, P("w"), [] if strict else ["Own"]); F = []
        ff = r.sample(FIXED if strict else G.STATELESS + G.STATEFUL, r.choice([0, 1, 2, 2]))
        if not strict and any(",3]" in vf.text(P(n)) for n in ("g", "g2") if os.path.exists(P(n))): ff = [f for f in ff if f != "RuleShape"]
        if r.random() < .5: G.arpa(r, P("lm"), tgt, r.randint(2, 4)); ff.append("KLanguageModel " + P("lm")); w["LanguageModel"] = round(r.uniform(0, 1), 3)
        if strict:
            for n in G.FEATS + ["Glue", "PassThrough", "Glue_0", "WordPenalty", "SourceWordPenalty", "NonLatinCount", "LanguageModel", "LanguageModel_OOV", "LatticeCost", "LatticeCost_0"] + ["Arity_%d" % z for z in range(6)] + ["PassThrough_%d" % z for z in range(1, 9)]: w.setdefault(n, round(r.uniform(-1, 1), 4))
        open(P("w"), "w").write("".join("%s %.10g\n" % z for z in w.items()))
        for f in ff: F += ["-F", f]
        if ff and strict: F += ["-I", r.choice(["full", "fast_cube_pruning", "cube_pruning", "fast_cube_pruning_2"]), "-K", str(r.choice([2, 5, 30]))]
        elif ff: F += ["-I", "full"]  # pruning breaks ties by numbers that depend on the history
        two = strict and ff and r.random() < .4 or not strict and ff and r.random() < .2
        if two:
            open(P("w2"), "w").write("".join("%s %.10g\n" % (z, v * r.choice([.5, 1, -1])) for z, v in w.items() if strict or r.random() < .8)); F += ["--weights2", P("w2")] + ([] if strict else ["--intersection_strategy2", "full"])
            if r.random() < .5: F += ["--feature_function2", r.choice(FIXED)]
            if strict and r.random() < .5: F += ["--beam_prune2", "3"]
        if strict and r.random() < .4: F += [r.choice(["--beam_prune", "--density_prune"]), str(r.choice([1, 1.5, 4]))]
        # sentences
        items = []
        for i in range(r.randint(2, 5)):
            s = G.sentence(r, src, r.choice([2, 4, 6, 7]), 0 if strict else .15); body = G.plf(r, s) if r.random() < .15 else " ".join(s); attr = ""
            if r.random() < .35:
                g = G.grammar(r, len(src), len(tgt), nts, "S", r.randint(1, 4))
                if not strict: g = [l + " Own=%.3f" % r.uniform(-1, 1) if "=" in l.split("|||")[3] else l for l in g] + ["[%s] ||| %s ||| own%d %s ||| Own=1.5" % (r.choice(nts), r.choice(s), i, r.choice(tgt))]
                g = [l for l in g if ",3]" not in l]; open(P("own%d" % i), "w").write("".join(l + "\n" for l in g)); attr = ' grammar="%s"' % P("own%d" % i)
            items.append((body, attr))
        if r.random() < .3: items.append((" ".join("zz%d" % z for z in range(2)) if not strict else "unk0 unk1", ""))
        refs = r.random() < .25; K = r.choice([1, 3, 20]) if strict else 5000; rep0 = {n: vf.text(P(n)) for n in os.listdir(d) if os.path.isfile(P(n))}; base = [e["cdec"]] + opt + F + ["-w", P("w"), "-k", str(K)]
        if refs: base.append("-z")
        rt = {i: (" ".join(r.choice(tgt) for _ in range(r.randint(1, 3)))) for i in range(len(items)) if refs and r.random() < .6}
        runs = []  # (list of (id, item), results)
        def go(name, seq):
            lines = []
            for i, (id_, it) in enumerate(seq):
                lines.append('<seg id="%d"%s> %s%s </seg>' % (id_, items[it][1], items[it][0], " ||| " + rt[it] if it in rt else ""))
                if r.random() < .15 and not name.startswith("again"): lines.append("")
            text = "".join(l + "\n" for l in lines); return name, seq, text
        def execute(name, seq, text):
            D = P("out-" + name); os.makedirs(D); rep = dict(rep0, input=text, cmd=" ".join(base))
            x = c.run(base + ["-O", D], stdin=text.encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=rep)
            if x is None: return None
            fo = {i: os.path.join(D, "%d.bin.gz" % i) for i, _ in seq if os.path.exists(os.path.join(D, "%d.bin.gz" % i))}; c.count("sentences decoded", len(seq)); return dict(name=name, seq=seq, text=text, out=x.stdout.decode(), forests=fo, rep=rep)
        ns = list(range(len(items))); hist = []; o = ns[:]; ids = lambda seq: [(j * 3 + 1, it) for j, it in enumerate(seq)]
        a = go("first", ids(o)); hist = [a, ("again", a[1], a[2])]; p = o[:]; r.shuffle(p); hist.append(go("permuted", ids(p)))
        m = o + [r.choice(o) for _ in range(r.randint(1, 4))]; r.shuffle(m); hist.append(go("repeated", ids(m)))
        for it in r.sample(ns, min(2, len(ns))): hist.append(go("alone%d" % it, [(r.randint(0, 99), it)]))
        res = [execute(*h) for h in hist]
        if any(x is None for x in res): return
        A, B = res[0], res[1]; E = lambda ok, key, msg, rep: c.expect(ok, key, msg, rep); c.count("cases")
        E(A["out"] == B["out"], "twice:output", "the same run printed\n%s\nand\n%s" % (A["out"][:1500], B["out"][:1500]), A["rep"])
        E(sorted(A["forests"]) == sorted(B["forests"]) and all(gzip.open(A["forests"][i]).read() == gzip.open(B["forests"][i]).read() for i in A["forests"]), "twice:forests", "the same run wrote different forests", A["rep"]); c.count("runs made twice")
        if k % 4 == 0 and not refs:  # the one-best translations of two orders
            y1 = c.run(base[:-2], stdin=A["text"].encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=A["rep"]); y2 = c.run(base[:-2], stdin=res[2]["text"].encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=res[2]["rep"])
            if y1 and y2:
                l1, l2 = (y.stdout.decode().split("\n")[:-1] for y in (y1, y2))
                if E(len(l1) == len(l2) == len(ns), "onebest:lines", "%d and %d lines for %d sentences" % (len(l1), len(l2), len(ns)), A["rep"]) and strict:
                    m1 = {it: l for (_, it), l in zip(A["seq"], l1)}; m2 = {it: l for (_, it), l in zip(res[2]["seq"], l2)}
                    for it in ns: E(m1[it] == m2[it], "onebest", "'%s' is translated '%s' and '%s'" % (items[it][0], m1[it], m2[it]), A["rep"]); c.count("one-best translations compared")
        first = {}; dumps = {}
        fl = [f for x in res if x is not B for f in x["forests"].values()]; dd = dump(c, e["hgdump"], fl) if fl else {}
        if dd is None: return
        for x in res:
            if x is B: continue
            kb = parse(x["out"]); E(set(kb) <= {i for i, _ in x["seq"]}, "ids", "%s" % list(kb), x["rep"])
            for i, it in x["seq"]:
                mine = (kb.get(i, []), dd.get(x["forests"].get(i)), x)
                if it not in first: first[it] = mine; continue
                u, fu, X = first[it]; v, fv, _ = mine; rep = dict(x["rep"], other=X["text"]); what = "'%s' in '%s' and '%s'" % (items[it][0], X["name"], x["name"]); c.count("sentences compared"); c.dist("nontrivial", hash((k, it, x["name"], i)))
                if not E((fu is None) == (fv is None) and bool(u) == bool(v), "failure", what + ": fails in one only", rep): continue
                if strict: E(u == v, "kbest", what + ":\n%s\n%s" % ("\n".join(u[:20]), "\n".join(v[:20])), rep); c.count("k-best entries compared", len(u))
                elif fu and fu["n"] <= 4000 or not fu: why = same([entry(z) for z in u], [entry(z) for z in v]); E(why is None, "kbest", what + ": " + str(why), rep); c.count("k-best entries compared", len(u))
                if fu:
                    ok = E(fu["n"] == fv["n"] and (fu["nodes"], fu["edges"]) == (fv["nodes"], fv["edges"]), "forest:size", what + ": %s %s" % ([fu[z] for z in ("n", "nodes", "edges")], [fv[z] for z in ("n", "nodes", "edges")]), rep)
                    if ok and fu["d"]: why = same([(z[0] + "/" + z[1] + "/" + shape(z[3]), z[2], 0) for z in fu["d"]], [(z[0] + "/" + z[1] + "/" + shape(z[3]), z[2], 0) for z in fv["d"]]); E(why is None, "forest", what + ": " + str(why), rep); c.count("derivations compared", len(fu["d"]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(160, 4000))))
    c.finish()
def shape(content): return " ".join(sorted(re.sub(r"\{.*?\}", "", z) for z in content.split(" ## ")))
