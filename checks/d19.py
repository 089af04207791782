import ast, math, os, random, shutil
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
from checks.d12 import near, dot, kbest
import checks.d12 as d12, checks.d08 as d08
TECHNIQUE = "offline oracle over recorded executions: every segmentation the splitter lists, its features, its lattices (whole and pruned) and the output of the splitting script compared with an independent enumeration of all segmentations scored from the features' definitions; under ASan+UBSan"
NOTE = "Held on the runs made: words of up to 22 characters, generated dictionaries, lists of bad and marked words, character models of orders 2 to 5. Values are judged to the six digits printed (1e-4 for character-model scores); arcs within 1e-3 of the beam may or may not be kept."
CH = ["a", "b", "e", "s", "n", "es", "en", "sch", "ch", "ie", "zw", "\u00e4", "\u00fc", "\u00df", "\u20ac", "t"]
B = math.log(1.69)
def build(): return dict(d12.build(), **{"build_binary": d08.build()["build_binary"]})
def ulen(s): return len(s.encode())
def segs(w):
    """all segmentations: lists of (from, to, form written, linking element)"""
    n = len(w); top = max(n - 2, 1); at = [0] + list(range(3, top)) + ([n] if n else []); out = {0: [[]]}
    def pieces(i, j):
        y = w[i:j]; r = [(i, j, y, None)]; b = ulen(y)
        if j != n:
            if b > 5 and y.endswith("es"): r.append((i, j, y[:-2], "FugS"))
            elif b > 4 and y.endswith("s"): r.append((i, j, y[:-1], "FugS"))
            elif b > 5 and y.endswith("en"): r.append((i, j, y[:-1], "FugN"))
        return r
    for j in at[1:]:
        out[j] = [d + [p] for i in at if i < j and j - i >= min(3, n - i) and i in out for p in pieces(i, j) for d in out[i]]
    return out[n]
def features(w, p, M):
    i, j, y, fug = p; n = len(w); l = j - i; sub = i > 0 or j < n; f = Counter(); f["LenBias_%d" % min(9, int(math.log(n) / B))] += 1
    if M["basic"]:
        f["WordCount"] = 1; f["LettersSq"] = l * l; f["LettersLog"] = math.log(l); f["LettersSqrt"] = math.sqrt(l); c = len(y)
        c -= 2 if "sch" in y else 1 if "ch" in y else 0; c -= ("ie" in y) + ("zw" in y); q = M["freq"].get(y, 0)
        if q: f["LogFreq"] = q; f["LogLogFreq"] = math.log(q) / B; f["InDict"] = 1; f["InDictSubWord"] = int(sub)
        else: f["OOV"] = 1; f["OOVSubWord"] = int(sub); f["InDictFullWord"] = int(not sub); q = 99.0
        if y in M["special"]: f["CS:" + y] = 1
        f["Bad"] = int(y in M["bad"]); f["Short"] = int(c < 5); f["Long"] = int(c > 10); f["HighFreq"] = int(q < 7); f["MedFreq"] = int(8 < q < 10); f["ShortRange"] = int(q < 10 and c < 5); f["FreqLen1"] = math.sqrt(c * q); f["FreqLen2"] = q / c
    else: del f["LenBias_%d" % min(9, int(math.log(n) / B))]
    if M["lm"]:
        t, o = M["lm"]; h = ["<s>"]
        for x in list(w[i:i + o - 1])[::-1]: h.append(x if (x,) in t else "<unk>")
        f["RevCharLM"] = d08.prob(t, tuple(h[-(o - 1):]), "</s>")
    if fug: f[fug] += 1
    return f
def all_of(w, M, W):
    out = []
    for d in segs(w):
        f = Counter()
        for p in d:
            for k, v in features(w, p, M).items(): f[k] += v
        out.append((tuple(p[2] for p in d), f, dot(f, W), d))
    return out
def paths(L):
    """all paths of a lattice in PLF: (words, total score)"""
    L = ast.literal_eval(L); at = {0: [((), 0.0)]}
    for i, col in enumerate(L):
        for word, s, dist in col:
            for ws, t in at.get(i, []): at.setdefault(i + dist, []).append((ws + (word,), t + s))
    return at.get(len(L), []), L
def main():
    c = vf.Check("D19", "word split, distinct by word, models and answer"); e = build(); noleak = {"ASAN_OPTIONS": "detect_leaks=0"}
    def one(k):
        r = random.Random(c.seed * 49979687 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d + "/de"); P = lambda n: os.path.join(d, n); wr = lambda n, s: open(P(n), "w").write(s)
        def word(hi=22): return "".join(r.choice(CH) for _ in range(r.randint(1, 9)))[:hi]
        script = k % 3 == 2; ws = [word() for _ in range(r.randint(2, 5))]; short = lambda: word(r.randint(3, 7)); pool = {w[i:j] for w in ws for i in range(len(w)) for j in range(i + 2, len(w) + 1)} | {p[2] for w in ws for s in segs(w) for p in s}; pool = sorted(pool); M = {"basic": script or r.random() < .9, "freq": {}, "bad": set(), "special": set(), "lm": None}; opt = ["-f", "csplit"]; ini = "formalism=csplit\n"
        if script or r.random() < .7: opt.append("--intersection_strategy=full"); ini += "intersection_strategy=full\n"
        ff = []
        if M["basic"]:
            pick = lambda hi: r.sample(pool, min(len(pool), r.randint(0, hi))); M["freq"] = {x: r.choice([round(r.uniform(1.5, 15), 3), r.choice([7.0, 8.0, 10.0, 1.0])]) for x in pick(25) or pool[:1]}
            wr("de/freq", "".join("%s %s\n" % z for z in M["freq"].items())); a = ["de/freq"]; n = r.choice([1, 2, 3, 3])
            if n > 1: M["bad"] = set(pick(10)); wr("de/bad", "".join(x + "\n" for x in sorted(M["bad"]))); a.append("de/bad")
            if n > 2: M["special"] = set(pick(10)); wr("de/special", "".join(x + "\n" for x in sorted(M["special"]))); a.append("de/special")
            ff.append("CSplit_BasicFeatures " + " ".join(a)); c.count("lists given: %d" % n)
        if r.random() < .7 or not ff:
            t, o = d08.arpa(r, P("de/lm"), sorted({x for w in ws for x in w}), r.choice([2, 3, 4, 5]), r.random() < .7, False); M["lm"] = (t, o); ff.append("CSplit_ReverseCharLM de/lm")
        for x in ff: opt += ["-F", x]; ini += "feature_function=%s\n" % x
        names = sorted({n for w in ws for s in segs(w) for p in s for n in features(w, p, M)} | {"FugS", "FugN", "Bad", "InDict", "OOV"} | {"LenBias_%d" % i for i in range(10)}); W = {n: round(r.uniform(-1, 1) * (.02 if n == "LettersSq" else .2 if n.startswith("FreqLen") else 1), 4) for n in names}
        wr("w", "".join("%s %s\n" % z for z in W.items())); ini += "weights=w\n"; texts = {n: vf.text(P(n)) for n in ("w", "de/freq", "de/bad", "de/special", "de/lm") if os.path.exists(P(n))}; c.count("cases"); c.dist("models", (M["basic"], bool(M["lm"]), len(ff)))
        if script: return tool(k, r, d, ws, M, W, ini, texts, wr, P)
        text = "".join(w + "\n" for w in ws); S = [all_of(w, M, W) for w in ws]; rep = dict(texts, input=text, cmd=" ".join(opt)); x = c.run([e["cdec"]] + opt + ["-w", "w", "-k", "100000"], stdin=text.encode(), env=noleak, cwd=d, replay=rep)
        if x is None: return
        K = kbest(x.stdout.decode()); ok = []
        for i, (w, A) in enumerate(zip(ws, S)):
            got = K.get(i, []); rw = dict(rep, word=w)
            if not c.expect(Counter(y for y, _, _ in got) == Counter(" ".join(("#",) + a[0]) for a in A), "segmentations", lambda: "%s: listed %s, expected %s" % (w, sorted(y for y, _, _ in got)[:9], sorted(" ".join(a[0]) for a in A)[:9]), rw): continue
            used = set(); c.count("segmentations", len(A)); c.dist("nontrivial", hash((w, str(sorted(W.items())))))
            for y, f, s in got:
                cand = [j for j, a in enumerate(A) if j not in used and " ".join(("#",) + a[0]) == y]; hit = [j for j in cand if all(near(f.get(n, 0), A[j][1].get(n, 0), 1e-4, 1e-4) for n in set(f) | set(A[j][1]))]
                if not c.expect(hit, "features", lambda: "%s: '%s' has %s" % (w, y, [(n, f.get(n, 0), A[cand[0]][1].get(n, 0)) for n in set(f) | set(A[cand[0]][1]) if not near(f.get(n, 0), A[cand[0]][1].get(n, 0), 1e-4, 1e-4)]), rw): break
                used.add(hit[0]); c.count("features compared", len(f)); c.expect(near(s, A[hit[0]][2], 1e-4, 2e-3), "score", lambda: "%s: '%s' scores %s, its features %s" % (w, y, s, A[hit[0]][2]), rw)
            c.expect(all(a[2] >= b[2] - 1e-6 for a, b in zip(got, got[1:])), "order", "scores of %s are not in order" % w, rw)
        beam = r.choice([None, None, .3, 1.0, 2.1, 5.0]); po = ["--csplit_output_plf"] + (["--beam_prune", str(beam)] + ["--csplit_preserve_full_word"] * (r.random() < .7) if beam else []); rep = dict(rep, cmd=" ".join(opt + po)); x = c.run([e["cdec"]] + opt + po + ["-w", "w"], stdin=text.encode(), env=noleak, cwd=d, replay=rep)
        if x is None: return
        out = [l for l in x.stdout.decode().split("\n") if l]
        if c.expect(len(out) == len(ws), "lines", "%d words, %d lattices" % (len(ws), len(out)), rep):
            for l, w, A in zip(out, ws, S): lattice(l, w, A, M, W, beam, len(po) != 3, dict(rep, word=w, lattice=l))
    def lattice(l, w, A, M, W, beam, full, rep, up=lambda s: s):
        try: L, cols = paths("(" + l + ")")
        except (SyntaxError, ValueError) as x: c.expect(False, "syntax", "%s: %s is not a lattice" % (w, l), rep); return
        c.count("lattices"); c.expect(all(x[2] >= 1 and i + x[2] <= len(cols) for i, col in enumerate(cols) for x in col), "distances", "%s: %s" % (w, l), rep)
        def verdicts(must):
            best = max(a[2] for a in A); V = Counter()
            top = {}
            for a in A:
                for p in a[3]: top[p] = max(top.get(p, -1e9), a[2])
            lim = best - (beam or 1e9); slack = -1e-3 if must else 1e-3; keep = {p for p, v in top.items() if v >= lim - slack or (full and p[0] == 0 and p[1] == len(w)) or (must and v >= best - 1e-9)}
            return Counter(tuple(map(up, a[0])) for a in A if all(p in keep for p in a[3]))
        got = Counter(y for y, _ in L); lo, hi = verdicts(True), verdicts(False); c.count("paths", sum(got.values())); c.count("paths cut", len(A) - sum(got.values()))
        c.expect(not lo - got, "lost", lambda: "%s: segmentations missing from the lattice: %s" % (w, list(lo - got)[:4]), rep); c.expect(not got - hi, "extra", lambda: "%s: paths not expected: %s" % (w, list(got - hi)[:4]), rep)
        for y, s in L: c.expect(any(near(s, a[2], 1e-4, 2e-3) for a in A if tuple(map(up, a[0])) == y) or not any(tuple(map(up, a[0])) == y for a in A), "path:score", lambda: "%s: path %s scores %s, its segmentation %s" % (w, y, s, [a[2] for a in A if tuple(map(up, a[0])) == y]), rep)
    def tool(k, r, d, ws, M, W, ini, texts, wr, P):
        shutil.copy(vf.R("compound-split/compound-split.pl"), P("compound-split.pl")); wr("cdec-de.ini", ini); cased = r.random() < .5; plf = r.random() < .6; beam = r.choice([1.0, 2.1, 4.0]); lines = []
        for _ in range(r.randint(1, 4)):
            l = [r.choice(ws) for _ in range(r.randint(0, 4))] + [r.choice(["und", "A-b-c-defg", "3.1415926", "12,345,678", "o'b", "x@y.deeee", "a/bcdefgh", "\u00c4rger", "b:cdefgh", "k\\no"]) for _ in range(r.randint(0, 2))]; r.shuffle(l)
            lines.append([x[:1].upper() + x[1:] if "\u20ac" not in x and r.random() < .4 and len(x[:1].upper()) == 1 else x for x in l])
        lines = [l for l in lines if l] or [["und"]]; text = "".join(r.choice(["", " "]) + r.choice([" ", "  "]).join(l) + r.choice(["", " "]) + "\n" for l in lines); args = ["--decoder", e["cdec"], "--output", "plf" if plf else "1best"] + (["--beam", str(beam)] if plf else []) + ["--preserve_case"] * cased; rep = dict(texts, input=text, cmd=" ".join(args), ini=ini)
        x = c.run(["perl", P("compound-split.pl")] + args, stdin=text.encode(), env=dict(noleak, LC_ALL="C"), cwd=d, replay=rep, key="script")
        if x is None: return
        out = x.stdout.decode().split("\n")[:-1]; c.count("runs of the script")
        if not c.expect(len(out) == len(lines), "script:lines", "%d lines in, %d out" % (len(lines), len(out)), rep): return
        for l, o in zip(lines, out):
            want = []
            for x in l:
                low = x.lower(); plain = len(low) < 6 or set(low) <= set(",-0123456789.") or set(low) & set("@.-/:"); caps = cased and low != x; want.append((x, low, plain, caps)); c.count("words passed through" if plain else "words split")
            rl = dict(rep, line=" ".join(l), output=o)
            if plf:
                try: L = ast.literal_eval(o)
                except (SyntaxError, ValueError): c.expect(False, "script:syntax", "%s is not a lattice" % o, rl); continue
                i = 0
                for x, low, plain, caps in want:
                    if plain:
                        if not c.expect(i < len(L) and len(L[i]) == 1 and (L[i][0][0], L[i][0][2]) == (low, 1), "script:plain", lambda: "'%s': column %d is %s" % (x, i, L[i:i + 1]), rl): break
                        i += 1; continue
                    j = i; end = i + 1
                    while j < end and j < len(L): end = max([end] + [j + a[2] for a in L[j]]); j += 1
                    up = (lambda s: s[:1].title() + s[1:]) if caps else (lambda s: s); lattice("".join(repr(y) + "," for y in L[i:end]), low, all_of(low, M, W), M, W, beam, True, dict(rl, word=x), up); i = end
                else: c.expect(i == len(L), "script:columns", "%d columns, %d used" % (len(L), i), rl)
            else:
                toks = o.split(" "); i = 0; toks = [t for t in toks if t]
                for x, low, plain, caps in want:
                    if plain:
                        if not c.expect(toks[i:i + 1] == [x if cased else low], "script:word", lambda: "'%s' gives '%s'" % (x, toks[i:i + 1]), rl): break
                        i += 1; continue
                    A = all_of(low, M, W); best = max(a[2] for a in A); up = (lambda s: s[:1].title() + s[1:]) if caps else (lambda s: s); good = [a[0] for a in A if a[2] > best - 1e-3]; hit = [a for a in good if tuple(toks[i:i + len(a)]) == tuple(map(up, a))]
                    if not c.expect(hit, "script:best", lambda: "'%s' gives %s, best is %s" % (x, toks[i:], good), rl): break
                    i += len(hit[0]); c.count("best segmentations")
                else: c.expect(i == len(toks), "script:rest", "%s left over" % toks[i:], rl)
    N = c.n(int(os.environ.get("NN", 240)), 5000)
    with ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(one, k) for k in range(N)]: f.result()
    c.finish()
