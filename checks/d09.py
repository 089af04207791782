import itertools, math, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import near, samef, fmap, dump
from checks.d11 import same
import checks.d12 as d12
TECHNIQUE = "offline oracle over recorded executions: every derivation of the forests written by phrase-based, finite-state, lexical-translation, lexical-alignment, tagging and compound-splitting decoding compared, as multisets with source, translation and features, with independent enumerations of what tables, tag sets, distortion limits, references and lattices license; aligner output compared with the best derivation; under ASan+UBSan"
NOTE = "Held on the runs made: inputs with up to 4000 licensed derivations, sentences of up to 9 words, lattices, distortion limits 0 to 7. Lattice costs are not carried into phrase-based derivations (a documented omission) and not judged; phrases with an empty side are not generated; dynasearch neighbourhoods are not judged."
build = d12.build
LIM = 4000
class Many(Exception): pass
def feats(s):
    if not s: return {}
    if "=" not in s: return {"PhraseModel_%d" % i: float(v) for i, v in enumerate(s.split())}
    return {k: float(v) for k, v in (x.split("=") for x in s.split())}
def add(*ds):
    m = {}
    for d in ds:
        for k, v in d.items(): m[k] = m.get(k, 0) + v
    return m
def table(r, src, tgt, n, k):
    rows = []
    for _ in range(n): rows.append((tuple(r.choice(src) for _ in range(r.choice(k))), tuple(r.choice(tgt) for _ in range(r.choice([1, 1, 2, 3] if max(k) > 1 else [1]))), G.features(r)))
    if r.random() < .3 and rows: f, e, s = r.choice(rows); rows.append((f, e, s)); rows.append((f, e, G.features(r)))
    return rows
def index(rows):
    m = {}
    for f, e, s in rows: m.setdefault(f, []).append((e, feats(s)))
    return m
def write(path, rows): open(path, "w").write("".join("%s ||| %s ||| %s\n" % (" ".join(f), " ".join(e), s) for f, e, s in rows))
def passthrough(t, words):
    t = dict(t)
    for w in words:
        if (w,) not in t: t[(w,)] = [((w,), {"PassThrough": 1.0})]
    return t
def phrases(t, lat, i, n):
    """(end, source words, translation, features) of each path from i that the table translates"""
    out = []; longest = max([len(f) for f in t] or [0])
    def go(j, ws):
        for e, fe in t.get(ws, []): out.append((j, ws, e, fe))
        if j < n and len(ws) < longest:
            for w, d in lat[j]: go(j + d, ws + (w,))
    go(i, ()); return out
def phrasebased(t, lat, D):
    n = len(lat); memo = [phrases(t, lat, i, n) for i in range(n)]; out = []; steps = [0]
    def go(cov, f, e, fe):
        steps[0] += 1
        if len(out) > LIM or steps[0] > 60000: raise Many()
        if all(cov): out.append((" ".join(e) + "/" + " ".join(f), fe, 0)); return
        g = cov.index(False)
        for i in range(g, min(n, g + D + 1)):
            if cov[i]: continue
            for j, ws, te, tf in memo[i]:
                if any(cov[i:j]): continue
                c2 = cov[:]; c2[i:j] = [True] * (j - i); go(c2, f + list(ws), e + list(te), add(fe, tf))
    go([False] * n, [], [], {}); return out
def product(lists, top={}):
    k = 1
    for l in lists: k *= len(l)
    if k > LIM: raise Many()
    return [(" ".join(y for x in c for y in x[1] if y) + "/" + " ".join(y for x in c for y in x[0]), add(top, *[x[2] for x in c]), 0) for c in itertools.product(*lists)]
def fugen(p, last):
    out = [(p, {})]
    if not last:
        b = len(p.encode())
        if b > 5 and p.endswith("es"): out.append((p[:-2], {"FugS": 1.0}))
        elif b > 4 and p.endswith("s"): out.append((p[:-1], {"FugS": 1.0}))
        elif b > 5 and p.endswith("en"): out.append((p[:-1], {"FugN": 1.0}))
    return out
def splits(w):
    n = len(w); out = []
    def go(i, e, f, fe):
        if len(out) > LIM: raise Many()
        if i == n: out.append(("# " + " ".join(e) + "/# " + " ".join(f), fe, 0)); return
        for j in range(i + 1, n + 1):
            if j < n and (j - i < 3 or n - j < 3): continue
            for p, d in fugen(w[i:j], j == n): go(j, e + [p], f + [w[i:j]], add(fe, d))
    go(0, [], [], {}); return out
def lattice(r, words):
    n, lat = len(words), []
    for i, w in enumerate(words):
        arcs = [(w, 1)]
        while r.random() < .4: arcs.append((r.choice(words), 1 if r.random() < .5 or i + 2 > n else r.randint(2, n - i)))
        lat.append(arcs)
    return lat
def main():
    c = vf.Check("D09", "sentence whose derivations were compared, distinct by configuration and sentence")
    e = build()
    def one(k):
        r = random.Random(c.seed * 32452843 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d + "/A"); P = lambda n: os.path.join(d, n); kind = ["pb", "pb", "fst", "lextrans", "lexalign", "tagger", "csplit"][k % 7]
        src = ["f%d" % i for i in range(r.randint(1, 5))]; tgt = ["e%d" % i for i in range(r.randint(1, 5))]; opt = ["-f", kind]; G.weights(r, P("w"), ["PassThrough", "TOP", "FugS", "FugN"] + ["Lx:%s_%s" % (a, b) for a in src for b in tgt]); S = []; n = r.randint(1, 5); al = r.random() < .5; long = False
        for i in range(n):
            ref = None
            if kind == "csplit": w = "".join(r.choice(["a", "b", "es", "s", "en", "n", "\u00e4", "\u20ac", "xyz"]) for _ in range(r.randint(1, 12))); S.append((w, None)); continue
            s = G.sentence(r, src, r.choice([3, 5, 7]), .1 if kind in ("pb", "fst", "tagger", "lexalign") else .03)
            if kind in ("lextrans", "lexalign"): ref = [r.choice(tgt) if r.random() < .95 or kind == "lexalign" else "never" for _ in range(r.randint(1, 5))]
            elif kind == "tagger" and r.random() < .3: ref = []
            
            if kind == "pb" and r.random() < .1: s = [r.choice(src) for _ in range(r.choice([63, 64, 65, 128]))]; long = True
            S.append((lattice(r, s) if kind == "pb" and len(s) < 20 and r.random() < .4 else s, ref))
        want = []; lines = []; T = {}; pt = r.random() < .6; null = r.random() < .4; D = r.choice([0, 1, 2, 3, 4, 4, 7, 40]); only = r.random() < .4
        if long: D = r.choice([0, 0, 1])
        if kind in ("pb", "fst"):
            few = long or r.random() < .1
            rows = table(r, src, tgt, r.randint(0, 14), r.choice([[1], [1, 1, 2], [1, 2, 3, 4]])); rows = [((w,), (r.choice(tgt),), G.features(r)) for w in src] if few else rows + [((w,), (r.choice(tgt),), G.features(r)) for w in src if r.random() < .7]; r.shuffle(rows); write(P("g"), rows); opt += ["-g", P("g")]; T = index(rows)
            if kind == "fst" and r.random() < .3: rows2 = table(r, src, tgt, 4, [1, 2]); write(P("g2"), rows2); opt += ["-g", P("g2")]; T = index(rows + rows2)
            if pt: opt.append("-P")
            if kind == "pb": opt += ["-D", str(D)]
        elif kind == "lextrans":
            rows = [((f,), (t,), G.features(r)) for f in src + ["<eps>"] for t in tgt if r.random() < .8] + [((f,), (r.choice(tgt),), G.features(r)) for f in src + ["<eps>"]]; r.shuffle(rows); write(P("g"), rows); opt += ["-g", P("g")] + (["--lextrans_use_null"] if null else []) + (["--lextrans_align_only"] if only else []); T = index(rows)
        elif kind == "lexalign": null = False
        elif kind == "tagger": tags = r.sample(["N", "V", "D", "J"], r.randint(1, 4)); open(P("t"), "w").write(r.choice([" ", "\n"]).join(tags) + r.choice(["", "\n"])); opt += ["-t", P("t")]
        for s, ref in S:
            try:
                if kind == "pb":
                    lat = s if isinstance(s[0], list) else [[(w, 1)] for w in s]; t = passthrough(T, {w for a in lat for w, _ in a}) if pt else T; x = phrasebased(t, lat, D)
                    line = G_plf(r, lat) if isinstance(s[0], list) else " ".join(s)
                elif kind == "fst":
                    t = passthrough(T, s) if pt else T; line = " ".join(s); x = []
                    def go(i, f, te, fe):
                        if len(x) > LIM: raise Many()
                        if i == len(s): x.append((" ".join(te) + "/" + " ".join(f), fe, 0)); return
                        for j in range(i + 1, len(s) + 1):
                            for y, yf in t.get(tuple(s[i:j]), []): go(j, f + s[i:j], te + list(y), add(fe, yf))
                    go(0, [], [], {"TOP": 1.0})
                elif kind in ("lextrans", "lexalign"):
                    line = " ".join(s) + " ||| " + " ".join(ref); fs = (["<eps>"] if null else []) + s
                    if kind == "lextrans":
                        x = [] if any((f,) not in T for f in fs) else product([[((f,), te, fe) for f in fs for te, fe in T[(f,)] if te == (w,)] for w in ref])
                        if not x and all((f,) in T for f in fs): x = None  # no derivation reaches the reference
                    else: x = product([[((f,), (w,), {"Lx:%s_%s" % (f, w): 1.0}) for f in fs] for w in ref])
                elif kind == "tagger":
                    line = " ".join(s); rf = [r.choice(tags) for _ in s] if ref is not None else None
                    if rf: line += " ||| " + " ".join(rf)
                    x = product([[((w,), (t,), {}) for t in tags if not rf or t == rf[q]] for q, w in enumerate(s)])
                else: line = s; x = splits(s)
            except Many: continue
            want.append(x); lines.append(line)
        if not lines: return
        text = "".join(l + "\n" for l in lines); base = [e["cdec"]] + opt + ["-w", P("w")]; rep = dict({f: vf.text(P(f)) for f in os.listdir(d) if os.path.isfile(P(f))}, input=text, cmd=" ".join(base)); E = lambda ok, key, msg: c.expect(ok, kind + ":" + key, msg, rep)
        x = c.run(base + ["-k", "1", "-O", P("A")], stdin=text.encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=rep)
        if x is None: return
        want = [[(re.sub(r"(.*)/(.*)", r"\2/\1", z[0]),) + z[1:] for z in w] if w and " ||| " in l else w for w, l in zip(want, lines)]  # references are read from target to source
        files = {i: P("A/%d.bin.gz" % i) for i in range(len(lines)) if os.path.exists(P("A/%d.bin.gz" % i))}; dd = dump(c, e["hgdump"], list(files.values())) if files else {}
        if dd is None: return
        c.count("cases"); blocks = re.split(r"\nINPUT: .*\n  id = ", x.stderr.decode())[1:]
        if not E(len(blocks) == len(lines), "sentences", "%d sentences decoded of %d" % (len(blocks), len(lines))): return
        for i, w in enumerate(want):
            failed = "NO PARSE FOUND" in blocks[i]; what = "sentence %d '%s': " % (i, lines[i])
            if w is None: E("REFERENCE UNREACHABLE" in blocks[i] or failed, "unreachable", what + "reported as reachable"); c.count(kind + ": unreachable references"); continue
            if not w: E(failed, "unlicensed", what + "has output, but none is licensed"); c.count(kind + ": inputs without licensed output"); continue
            if not E(not failed and i in files, "missing", what + "has no output, %d licensed, e.g. %s" % (len(w), w[0])): continue
            f = dd[files[i]]; got = [(z[0] + "/" + z[1], {a: b for a, b in z[2].items() if not a.startswith("LatticeCost")}, 0) for z in f["d"]]
            if f["n"] > LIM: E(False, "derivations", what + "%g derivations, %d licensed" % (f["n"], len(w))); continue
            why = same(got, w) or same(w, got); E(why is None, "derivations", what + "forest and licensed derivations: " + str(why)); c.count(kind + ": sentences compared"); c.count(kind + ": derivations compared", len(w)); c.dist("nontrivial", hash((str(opt), lines[i], str(rep.get("g"))))); c.sample("%s '%s': %d derivations" % (" ".join(opt), lines[i], len(w)))
        if al and kind in ("lextrans", "lexalign"):
            wt = {a: float(b) for a, b in (l.split() for l in vf.text(P("w")).split("\n") if l)}; at = []
            for l, w in zip(lines, want):
                if not w: continue
                s, t = (z.split() for z in l.split(" ||| ")); fs = list(enumerate(s)) + ([(-1, "<eps>")] if null else [])
                at.append((l, [[(j, fe) for j, f in fs for te, fe in T[(f,)] if te == (y,)] if kind == "lextrans" else [(j, {"Lx:%s_%s" % (f, y): 1.0}) for j, f in fs] for y in t]))
            if at: align(c, base, [z[0] for z in at], [z[1] for z in at], wt, rep, r.random() < .4)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(420, 12000))))
    c.finish()
def align(c, base, lines, lists, w, rep, viterbi):
    x = c.run(base + ["--aligner"] + (["--aligner_use_viterbi"] if viterbi else []), stdin="".join(l + "\n" for l in lines).encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=rep)
    if x is None: return
    out = [z for z in x.stdout.decode().split("\n")[:-1]]
    if not c.expect(len(out) == len(lines), "align:lines", "%d lines for %d sentences: %s" % (len(out), len(lines), out[:5]), rep): return
    for l, o, ls in zip(lines, out, lists):
        f = [z.strip() for z in o.split("|||")]; s, t = l.split(" ||| ")
        if not c.expect(len(f) == 3 and f[0] == s and f[1] == t, "align:text", "%s for %s" % (o, l), rep): continue
        got = {tuple(map(int, z.split("-"))) for z in f[2].split()}; sure = set(); may = set()
        for i, cand in enumerate(ls):  # candidates (source position or -1, features)
            v = {}
            for j, fe in cand: q = math.exp(sum(b * w.get(a, 0) for a, b in fe.items())); v[j] = max(v.get(j, 0), q) if viterbi else v.get(j, 0) + q
            m = max(v.values()); top = {j for j in v if v[j] >= m * (1 - 1e-9)}
            if viterbi and sum(1 for j, fe in cand if abs(math.exp(sum(b * w.get(a, 0) for a, b in fe.items())) / m - 1) < 1e-9) > 1: may |= {(j, i) for j in top if j >= 0}; c.expect(len({j for j, q in got if q == i}) <= 1, "align:viterbi", "'%s': %s" % (l, f[2]), rep); continue
            z = {(j, i) for j in top if j >= 0}; may |= z
            if len(top) == 1: sure |= z
        c.expect(sure <= got <= may, "align", "'%s' is aligned %s, by definition at least %s, at most %s" % (l, f[2], sorted(sure), sorted(may)), rep); c.count("word alignments compared")
def G_plf(r, lat): return "(" + ",".join("(" + "".join("('%s',%s,%d)," % (w, -round(r.random(), 3), d) for w, d in a) + ")" for a in lat) + ",)"
