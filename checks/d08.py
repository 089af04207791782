import math, os, random, socket, struct, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import near, dump
import checks.d12 as d12, checks.d09 as d09
TECHNIQUE = "offline oracle over recorded executions: every derivation of the forests rescored by the decoder's language-model features (own formats and all binary ones, class maps, explicit sentence markers, models asked over the network) compared with an independent back-off scorer applied to its translation; out-of-vocabulary and class-emission totals recounted; under ASan+UBSan"
NOTE = "Held on the runs made: orders 2 to 5, forests of up to 4000 derivations from synchronous, phrase-based and rescored input, words and lattices. Scores are judged to 1e-4 (single-precision models). Quantised models are compared with sums of the values a separate query of the same file returns. Misplaced explicit markers are judged only to be penalised by their documented 100. The network client is not judged at order 1 (no end of sentence there); it floors words at -100."
def build():
    b = vf.Builder("asan"); d = d12.build()
    d["build_binary"] = b.program("build_binary", [vf.R("klm/lm/build_binary_main.cc")], ["klm", "klm_util"]); d["query"] = b.program("query", [vf.R("klm/lm/query_main.cc")], ["klm", "klm_util"]); return d
def arpa(r, path, words, order, unk, loose):
    """a back-off model over some of the words; loose: an n-gram's ending need not be listed itself (back-off weights then stay below 1: no probability above it)"""
    known = [w for w in words if r.random() < .75] or words[:1]; grams = [[("<s>",), ("</s>",)] + [(w,) for w in known]]
    if unk: grams[0].append(("<unk>",))
    for n in range(2, order + 1):
        g = set(); prev = set(grams[-1])
        for h in grams[-1]:
            if h[-1] == "</s>" or "<unk>" in h: continue
            for w in ["</s>"] + known:
                if r.random() < (.45 if n == 2 else .4) and (n == 2 or loose or h[1:] + (w,) in prev): g.add(h + (w,))
        if not g and n > 2: break
        if not g: g.add(("<s>", known[0]))
        grams.append(sorted(g))
    table = {}; o = ["\\data\\"] + ["ngram %d=%d" % (n + 1, len(g)) for n, g in enumerate(grams)] + [""]
    for n, g in enumerate(grams):
        o.append("\\%d-grams:" % (n + 1))
        if r.random() < .5: r.shuffle(g)
        for x in g:
            p = "-99" if x == ("<s>",) else "%.4f" % -r.uniform(.05, 3); b = r.choice(["%.4f" % -r.uniform(0, 1), "%.4f" % -r.uniform(0, 1), "0", "%.4f" % r.uniform(-.5 if loose else 0, 0 if loose else .5)]) if n + 1 < len(grams) and x[-1] != "</s>" else None
            o.append(p + "\t" + " ".join(x) + ("\t" + b if b else "")); table[x] = (float(p), float(b or 0))
        o.append("")
    open(path, "w").write("\n".join(o + ["\\end\\", ""]))
    if not unk: table[("<unk>",)] = (-100.0, 0.0)
    return table, len(grams)
def prob(t, h, w):
    """log10 p(w|h): the longest listed n-gram, and the back-off weights of the longer contexts"""
    b = 0.0
    while True:
        if h + (w,) in t: return b + t[h + (w,)][0]
        if not h: return b + t[("<unk>",)][0]
        b += t.get(h, (0, 0))[1]; h = h[1:]
def score(t, order, words, floor=-1e9):
    h = ["<s>"]; s = 0.0
    for w in [w if (w,) in t else "<unk>" for w in words] + ["</s>"]: s += max(floor, prob(t, tuple(h[-(order - 1):]), w)); h.append(w)
    return s
class Server:
    """a model server: answers 'prob WORD CONTEXT..' (nearest first) with a float and two more bytes"""
    def __init__(self, t, order, split):
        self.split = split; self.t, self.order, self.n, self.bad = t, order, 0, []; self.s = socket.socket(); self.s.bind(("127.0.0.1", 0)); self.s.listen(8); self.port = self.s.getsockname()[1]; threading.Thread(target=self.accept, daemon=True).start()
    def accept(self):
        try:
            while True: c, _ = self.s.accept(); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); threading.Thread(target=self.serve, args=(c,), daemon=True).start()
        except OSError: pass
    def serve(self, c):
        f = c.makefile("rb")
        for l in f:
            p = l.decode().split(); self.n += 1
            if not p or p[0] != "prob" or len(p) < 2: self.bad.append(l); break
            h = [w if (w,) in self.t else "<unk>" for w in p[2:2 + self.order - 1]][::-1]; w = p[1] if (p[1],) in self.t else "<unk>"
            if any(x.startswith("<{") or x == "" for x in p[1:self.order + 1]): self.bad.append(l)
            out = struct.pack("<f", prob(self.t, tuple(h), w)) + b"\r\n"
            if self.split and self.n % 7 == 0: c.sendall(out[:self.split]); time.sleep(.002); out = out[self.split:]
            c.sendall(out)
        f.close(); c.close()
    def close(self):
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()
def write_low(path, t, n):
    gr = [[x for x in t if len(x) == z + 1] for z in range(n)]
    o = ["\\data\\"] + ["ngram %d=%d" % (z + 1, len(g)) for z, g in enumerate(gr)] + [""]
    for z, g in enumerate(gr): o += ["\\%d-grams:" % (z + 1)] + ["%.4f\t%s%s" % (t[x][0] - (.2 if x != ("<s>",) else 0), " ".join(x), "\t%.4f" % t[x][1] if z + 1 < n and x[-1] != "</s>" else "") for x in g] + [""]
    open(path, "w").write("\n".join(o + ["\\end\\", ""]))
def main():
    c = vf.Check("D08", "rescored derivation, distinct by configuration, sentence and translation"); e = build(); noleak = {"ASAN_OPTIONS": "detect_leaks=0"}
    def one(k):
        r = random.Random(c.seed * 49979687 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d); P = lambda n: os.path.join(d, n); marks = r.random() < .15; mode = "scfg" if marks else r.choice(["scfg", "scfg", "scfg", "pb", "rescore"]); lattice = r.random() < .15 and not marks; texts = []
        src, tgt = ["f%d" % i for i in range(r.randint(2, 4))], ["e%d" % i for i in range(r.randint(2, 6))] + (["<unk>"] if r.random() < .1 else [])
        if mode == "scfg":
            nts = r.choice([["X"], ["X", "A"]]); g = G.grammar(r, len(src), len([t for t in tgt if t[0] == "e"]), nts, "S", r.randint(3, 14), not marks)
            if "<unk>" in tgt: g = [l.replace("e0", "<unk>", 1) if r.random() < .1 else l for l in g]
            if marks:
                g += ["[X] ||| <s> ||| <s> ||| FA=0.1", "[X] ||| </s> ||| </s> ||| FA=0.2"]
                if r.random() < .3: g += [r.choice(["[X] ||| f0 ||| e0 <s> ||| FA=1", "[X] ||| f0 ||| </s> e1 ||| FA=1", "[X] ||| <s> [X,1] ||| <s> [1] ||| FB=1", "[X] ||| [X,1] </s> ||| [1] </s> ||| FB=1", "[X] ||| <s> f0 [X,1] ||| <s> e0 [1] ||| FB=1", "[X] ||| f0 </s> ||| </s> ||| FB=0.5"])]
            open(P("g"), "w").write("".join(l + "\n" for l in g)); opt = ["-f", "scfg", "-g", P("g"), "-S", str(r.randint(2, 9))] + (["-P"] if r.random() < .7 else [])
        elif mode == "pb":
            rows = d09.table(r, src, tgt, r.randint(4, 12), [1, 1, 2, 3]); d09.write(P("g"), rows); opt = ["-f", "pb", "-g", P("g"), "--pb_max_distortion", str(r.randint(0, 4)), "-P"]
        else: opt = ["-f", "rescore"]
        ws = tgt; mapped = {}
        if r.random() < .2 and not marks:
            ws = ["C%d" % i for i in range(r.randint(1, 4))]; mapped = {w: (r.choice(ws), round(-r.uniform(0, 3), 3) if r.random() < .8 else 0.0) for w in tgt if w != "<unk>" and r.random() < .8}
            if r.random() < .3: mapped["unk0"] = (r.choice(ws), -.5)
            if r.random() < .3: mapped["nosuchword%d" % r.randrange(99)] = ("C77", -1.0)
            open(P("map"), "w").write("".join("%s %s %s\n" % (a, w, b) for w, (a, b) in mapped.items()))
        lms = []; F = []; texts2 = {}
        for q in range(r.choice([1, 1, 1, 2])):
            m = mapped if not q or r.random() < .5 else {}; kind = r.choice(["arpa", "arpa", "probing", "trie", "-a", "-q", "-qa", "-r", "net"]); t, order = arpa(r, P("lm%d" % q), [w for w in (ws if m else tgt) if w != "<unk>"], r.choice([2, 3, 3, 4, 5]), r.random() < .7, r.random() < .5 and kind not in ("arpa", "probing", "-r")); f = P("lm%d" % q); name = r.choice(["LanguageModel", "MyLM", "L_M"]) + ("2" if q else ""); texts2["lm%d" % q] = vf.text(f)
            if kind == "net" and (m or marks): kind = "trie"
            if kind not in ("arpa", "net"):
                a = {"probing": ["probing"], "trie": ["trie"], "-a": ["-a", str(r.randint(1, 64)), "trie"], "-q": ["-q", str(r.randint(2, 10)), "-b", str(r.randint(2, 10)), "trie"], "-qa": ["-q", str(r.randint(4, 10)), "-a", str(r.randint(1, 64)), "trie"], "-r": ["probing"]}[kind]; a = a[:-1] + ["-T", d + "/tmp", "-S", "20M"] + a[-1:]
                if kind == "-r":
                    low = []
                    for n in range(1, order): arpa2 = P("low%d.%d" % (q, n)); write_low(arpa2, t, n); low.append(arpa2)
                    a = ["-r", " ".join(low)] + a
                x = c.run([e["build_binary"]] + a + [f, f + ".bin"], env=noleak, key="build_binary", replay=dict(texts2, cmd=" ".join(a)))
                if x is None: return
                f += ".bin"
            lms.append(dict(t=t, order=order, m=m, f=f, kind=kind, name=name)); s = None
            if kind == "net": s = Server(t, order, r.choice([0, 0, 1, 2, 3, 4, 5])); lms[-1]["server"] = s; F += ["-F", "LanguageModel -o %d -n %s lm://127.0.0.1:%d" % (order, name, s.port)]
            else: F += ["-F", " ".join(["KLanguageModel"] + (["-x"] if marks else []) + (["-m", P("map")] if m else []) + (["-n", name] if name != "LanguageModel" else []) + [f])]
            c.dist("model formats", kind)
        if r.random() < .3: F += ["-F", r.choice(G.STATELESS[:6] + G.STATEFUL[:2])]
        w = {l["name"]: round(r.uniform(-.2, 1), 3) for l in lms}; w.update({l["name"] + "_OOV": -1.0 for l in lms}); w.update({z: round(r.uniform(-1, 1), 3) for z in ("FA", "FB", "Glue", "PassThrough", "WordPenalty")}); open(P("w"), "w").write("".join("%s %s\n" % z for z in w.items()))
        if mode == "rescore":
            # forests of an earlier run, without models
            g = G.grammar(r, len(src), len([t for t in tgt if t[0] == "e"]), ["X"], "S", 10); open(P("g"), "w").write("".join(l + "\n" for l in g)); os.makedirs(P("F"))
            ins = [" ".join(G.sentence(r, src, 6)) for _ in range(2)]; x = c.run([e["cdec"], "-f", "scfg", "-g", P("g"), "-P", "-w", P("w"), "-O", P("F")], stdin="".join(i + "\n" for i in ins).encode(), env=noleak)
            if x is None: return
            ins = ["::forest:: " + P("F/%d.bin.gz" % i) for i in range(2) if os.path.exists(P("F/%d.bin.gz" % i))]
        else:
            ins = []
            for _ in range(r.randint(1, 3)):
                s = G.sentence(r, src, 6 if mode == "scfg" else 5); ins.append("<s> " + " ".join(s) + " </s>" if marks else G.plf(r, s) if lattice else " ".join(s))
        if r.random() < .6: F += ["-I", r.choice(["full", "full", "cube_pruning", "fast_cube_pruning", "fast_cube_pruning_2"])]
        if r.random() < .3: F += ["-K", str(r.choice([3, 20, 200]))]
        if r.random() < .1: F += [r.choice(["--beam_prune", "--density_prune"]), "4"]
        if r.random() < .15: F += ["--weights2", P("w")]
        os.makedirs(P("O")); cmd = [e["cdec"]] + opt + F + ["-w", P("w"), "-O", P("O"), "-k", "5"]; text = "".join(i + "\n" for i in ins); rep = dict(texts2, cmd=" ".join(cmd), input=text); rep.update({n: vf.text(P(n)) for n in ("g", "map") if os.path.exists(P(n))})
        try: x = c.run(cmd, stdin=text.encode(), env=noleak, replay=rep)
        finally:
            for l in lms:
                if "server" in l: l["server"].close()
        if x is None: return
        files = [P("O/" + z) for z in sorted(os.listdir(P("O")))]; c.count("cases"); c.count("sentences", len(ins))
        for l in lms:
            if "server" in l: c.expect(not l["server"].bad, "request", "request to the server: %s" % l["server"].bad[:3], rep); c.count("words asked of a server", l["server"].n)
        D = dump(c, e["hgdump"], files) if files else {}
        if D is None: return
        D = [(f, z) for f in files for z in D[f]["d"]]; quant = {}
        for l in lms:
            if l["kind"] in ("-q", "-qa"):
                y = sorted(set(z[0] for _, z in D)); cls = lambda s: " ".join(l["m"].get(w, ("<unk>",))[0] if l["m"] else w for w in strip(s).split()); x = c.run([e["query"], l["f"]], stdin="".join(cls(s) + "\n" for s in y).encode(), env=noleak, key="query")
                if x is None: return
                tot = [float(q.split("Total:")[1].split()[0]) for q in x.stdout.decode().split("\n") if "Total:" in q][:len(y)]; l["quant"] = dict(zip(y, tot))
        for f, (eside, fside, fe, _) in D:
            for l in lms:
                words = eside.split(); good = True; m = l["m"]; emit = 0.0; name = l["name"]; c.count("derivations compared with " + ("a network model" if l["kind"] == "net" else "a class model" if m else "explicit markers" if marks else "a model"))
                if marks: good = len(words) > 1 and words[0] == "<s>" and words[-1] == "</s>" and not any(z in ("<s>", "</s>") for z in words[1:-1])
                if not good: c.expect(fe.get(name, 0) <= -98, "markers", "'%s' has misplaced markers, scores %g" % (eside, fe.get(name, 0)), rep); c.count("misplaced markers"); continue
                if marks: words = words[1:-1]
                if m: emit = sum(m[w][1] for w in words if w in m); words = [m[w][0] if w in m else "<unk>" for w in words]
                want = score(l["t"], l["order"], words, -100 if l["kind"] == "net" else -1e9) if "quant" not in l else l["quant"][eside]; oov = sum((w,) not in l["t"] or w == "<unk>" for w in words); got = fe.get(name, 0)
                c.dist("nontrivial", hash((f, eside, str(opt), l["kind"], name))); c.sample("%s %s: '%s' scores %g" % (l["kind"], " ".join(F), eside, got))
                c.expect(near(got, want, 1e-4, 2e-4), "score:" + l["kind"], "%s (%s, order %d): '%s' scores %.6g, by the model %.6g" % (name, l["kind"], l["order"], eside, got, want), rep)
                if l["kind"] != "net": c.expect(abs(fe.get(name + "_OOV", 0) - oov) < 1e-6, "oov", "%s: '%s' has %d unknown words, the feature says %g" % (name, eside, oov, fe.get(name + "_OOV", 0)), rep); c.expect(near(fe.get(name + "_Emit", 0), emit, 1e-5, 1e-5), "emit", "%s: '%s' emission %g, by the map %g" % (name, eside, fe.get(name + "_Emit", 0), emit), rep); c.count("unknown words", oov)
    def strip(s): w = s.split(); return " ".join(w[1:-1] if len(w) > 1 and w[0] == "<s>" and w[-1] == "</s>" else w)
    N = c.n(130, 6000)
    with ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(one, k) for k in range(N)]: f.result()
    c.finish()
