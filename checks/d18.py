import os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import near, dump, dot
import checks.d12 as d12, checks.d08 as d08
TECHNIQUE = "offline oracle over recorded executions: translations and scores printed by the lazy search, for text, hashed and rest-cost models, compared with every derivation of the same sentences' forests, each scored by its rule features, its words and an independent back-off scorer; small pop limits judged by the scores of derivations with the printed words; under ASan+UBSan"
NOTE = "Held on the runs made: synchronous grammars of up to 4000 derivations per sentence, orders 2 to 5, words and lattices. With a pop limit above the search space the printed translation must be the best; below it, it must only be a licensed translation with the score of one of its derivations. Scores to 1e-4 (single precision). Models give no back-off weight to n-grams that nothing continues, as estimation does (state minimisation relies on it where no end of sentence follows). Rest-cost models are judged only where sentences start with their marker, since otherwise scores include the costs of an unseen beginning."
def build(): return d08.build()
def frag(t, order, words):
    """a sentence without implied markers: words are scored with the context there is"""
    s = 0.0; h = []
    for k, w in enumerate([w if (w,) in t else "<unk>" for w in words]):
        if k or w != "<s>": s += d08.prob(t, tuple(h[-(order - 1):]), w)
        h.append(w)
    return s
def closed(t, path):
    """n-grams that no listed n-gram continues get no back-off weight, as in any estimated model"""
    o = []
    for l in open(path):
        f = l.rstrip("\n").split("\t")
        if len(f) == 3 and not any(g[:-1] == tuple(f[1].split()) for g in t): f[2] = "0"; t[tuple(f[1].split())] = (t[tuple(f[1].split())][0], 0.0)
        o.append("\t".join(f))
    open(path, "w").write("\n".join(o) + "\n")
def main():
    c = vf.Check("D18", "sentence searched, distinct by models, grammar and answer"); e = build(); noleak = {"ASAN_OPTIONS": "detect_leaks=0"}
    def one(k):
        r = random.Random(c.seed * 67867967 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d); P = lambda n: os.path.join(d, n); kind = r.choice(["arpa", "arpa", "probing", "-r"]); marks = kind == "-r" or r.random() < .4; lattice = r.random() < .15
        src, tgt = ["f%d" % i for i in range(r.randint(2, 4))], ["e%d" % i for i in range(r.randint(2, 6))]
        g = G.grammar(r, len(src), len(tgt), r.choice([["X"], ["X", "A"]]), "S", r.randint(3, 16), not marks); opt = ["-f", "scfg", "-S", str(r.randint(2, 9))] + (["-P"] if r.random() < (.2 if marks else .7) else [])
        if marks: g += ["[S] ||| <s> [X,1] </s> ||| <s> [1] </s> ||| FA=0.1"] if r.random() < .5 else ["[S] ||| <s> ||| <s> ||| FA=0.1", "[X] ||| </s> ||| </s> ||| FA=0.2"]
        open(P("g"), "w").write("".join(l + "\n" for l in g)); opt += ["-g", P("g")]
        t, order = d08.arpa(r, P("lm"), tgt, r.choice([2, 3, 3, 4, 5]), r.random() < .7, False); closed(t, P("lm")); f = P("lm"); texts = {"lm": vf.text(f), "grammar": vf.text(P("g"))}
        if kind != "arpa":
            a = ["-T", d + "/tmp", "-S", "20M", "probing"]
            if kind == "-r":
                low = []
                for n in range(1, order): low.append(P("low%d" % n)); d08.write_low(low[-1], t, n)
                a = ["-r", " ".join(low)] + a
            x = c.run([e["build_binary"]] + a + [f, f + ".bin"], env=noleak, key="build_binary", replay=dict(texts, cmd=" ".join(a)))
            if x is None: return
            f += ".bin"
        w = {n: round(r.uniform(-1, 1), 3) for n in ("FA", "FB", "FC", "Glue", "PassThrough", "WordPenalty", "LatticeCost", "LatticeCost_0")}; w["KLanguageModel"] = round(r.uniform(.05, 1.5), 3); w["KLanguageModel_OOV"] = r.choice([-1.0, -.5, 0, .3])
        for n in r.sample(sorted(w), r.choice([0, 0, 1, 2])):
            if n != "KLanguageModel": del w[n]
        open(P("w"), "w").write("".join("%s %s\n" % z for z in w.items())); ins = []
        for _ in range(r.randint(1, 3)):
            s = G.sentence(r, src + (["zz"] if r.random() < .2 else []), 7); s = ["<s>"] + s + ["</s>"] if marks else s; ins.append(G.plf(r, s) if lattice else " ".join(s))
        text = "".join(i + "\n" for i in ins); os.makedirs(P("O")); x = c.run([e["cdec"]] + opt + ["-w", P("w"), "-O", P("O")], stdin=text.encode(), env=noleak, replay=dict(texts, input=text))
        if x is None: return
        files = {i: P("O/%d.bin.gz" % i) for i in range(len(ins))}; files = {i: z for i, z in files.items() if os.path.exists(z)}; D = dump(c, e["hgdump"], list(files.values())) if files else {}
        if D is None: return
        lim = r.choice([1000000, 1000000, 1000000, 1, 2, 5, 20]); again = r.random() < .2; text2 = "".join("::forest:: %s\n" % z for z in files.values()) if again else text; cmd = [e["cdec"]] + (["-f", "rescore"] if again else opt) + ["-w", P("w"), "-K", str(lim), "--incremental_search", f]; rep = dict(texts, cmd=" ".join(cmd), input=text2, weights=vf.text(P("w"))); x = c.run(cmd, stdin=text2.encode(), env=noleak, replay=rep)
        if x is None: return
        out = [l for l in x.stdout.decode().split("\n") if l]; c.count("cases"); c.count("sentences without a parse", len(ins) - len(files))
        if not c.expect(len(out) == len(files), "lines", "%d of %d sentences parse, %d lines printed: %s" % (len(files), len(ins), len(out), out[:3]), rep): return
        for l, z in zip(out, files.values()):
            if not c.expect(" ||| " in l or l.startswith("||| "), "line", "printed '%s'" % l, rep): return
            words, got = l.rsplit("||| ", 1); words = words.strip(); got = float(got); all = []
            if D[z]["n"] > 4000 or not D[z]["d"]: c.count("forests too large"); continue
            if any("<s>" in es.split()[1:] for es, _, _, _ in D[z]["d"]): c.count("forests with sentence starts out of place"); continue
            if kind == "-r" and any(not es.startswith("<s> ") for es, _, _, _ in D[z]["d"]): c.count("rest-cost models without sentence start"); continue
            for es, _, fe, _ in D[z]["d"]:
                y = es.split(); fe = {q: v for q, v in fe.items() if q not in ("KLanguageModel", "WordPenalty")}
                all.append((dot(fe, w) - len(y) / 2.302585093 * w.get("WordPenalty", 0) + w["KLanguageModel"] * frag(t, order, y) + w.get("KLanguageModel_OOV", 0) * sum((q,) not in t for q in y), es))
            best = max(all); c.count("derivations scored", len(all)); c.dist("nontrivial", hash((z, l, str(opt)))); c.dist("models", kind); c.count("answers for stored forests", again); c.sample("%s: %s of %d derivations" % (kind, l, len(all)))
            own = [v for v, es in all if es == words]
            if not c.expect(own, "licensed", "'%s' is not a translation the grammar licenses" % words, rep): continue
            if lim == 1000000:
                c.count("answers compared with the best of all derivations"); c.expect(near(got, best[0], 1e-4, 1e-4), "best", "%s, order %d: printed %s, best is %g '%s'" % (kind, order, l, best[0], best[1]), rep); c.expect(near(max(own), best[0], 1e-4, 1e-4), "translation", "printed '%s' scores %g, best is %g '%s'" % (words, max(own), best[0], best[1]), rep)
            else: c.count("answers of a limited search"); c.count("of these, the best", near(got, best[0], 1e-4, 1e-4)); c.expect(any(near(got, v, 1e-4, 1e-4) for v in own), "score", "limit %d: printed %s, derivations of these words score %s" % (lim, l, sorted(own)[-4:]), rep)
    N = c.n(int(os.environ.get("NN", 260)), 6000)
    with ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(one, k) for k in range(N)]: f.result()
    c.finish()
