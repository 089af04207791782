import gzip, math, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "online oracle over executions of the real scripts: their outputs for random corpora compared line by line with the definition of what each does, with every line's fate (kept, emptied, moved) followed; malformed and extreme corpora included"
NOTE = "Held on the corpora run: up to 60 lines, ASCII and a little of Latin-1, Greek and Cyrillic; the tokenizer is monitored for what it keeps (lines, separators, characters, word boundaries) and not against a definition of a token."
def build(): return {}
S = lambda n: vf.R("corpus/" + n)
WORDS = ["a", "b", "the", "Haus", "casa", "x1", "17", "Ünder", "ÀÇÉ", "ΑΒΓ", "Мир", "don't", "3.5", ",", ".", "|", "||", "-", "%", "&"]
def word(r): return r.choice(WORDS) if r.random() < .7 else "".join(r.choice("abcXYZñЖ09") for _ in range(r.randint(1, 4)))
def sent(r, lo=0, hi=8, dirty=False):
    w = [word(r) for _ in range(r.randint(lo, hi))]; s = " ".join(w)
    if dirty:
        if r.random() < .1: s = s.replace(" ", "  ")
        if r.random() < .1: s = " " + s
        if r.random() < .1: s += " \t "
        if r.random() < .05: s += "\r"
        if r.random() < .05: s = s.replace(" ", "\t")
        if r.random() < .08: s += " ||| z"
        elif r.random() < .03: s = "q|||r " + s
    return s
def put(p, lines, r=None):
    t = "".join(l + "\n" for l in lines)
    if r and r.random() < .15 and lines and lines[-1]: t = t[:-1]
    if p.endswith(".gz"): open(p, "wb").write(gzip.compress(t.encode()))
    else: open(p, "wb").write(t.encode())
    return t
def lines(b): t = b.decode("utf8"); return t.split("\n")[:-1] if t.endswith("\n") else t.split("\n") if t else []
def pl(c, name, args=(), stdin="", rep=None, ok=(0,), exe="perl"):
    return c.run(([exe] if exe else []) + [S(name)] + [str(a) for a in args], stdin=stdin.encode(), replay=rep, key="exit:" + name, ok=ok, timeout=60)
def cmp(c, key, got, want, rep):
    bad = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return c.expect(got == want, key, lambda: "line %d of %d/%d: got %r want %r" % (bad + 1, len(got), len(want), got[bad:bad + 1], want[bad:bad + 1]), rep)
def paste(c, r, d, i):
    k = r.randint(2, 4); n = r.choice([0, 1, 2, 5, 12, 30]); F = [[sent(r, dirty=True) for _ in range(n)] for _ in range(k)]; paths = []; uneven = r.random() < .25
    if uneven:
        j = r.randrange(k)
        F[j] = F[j] + [sent(r, 1)] * r.randint(1, 2) if r.random() < .5 or not n else F[j][:-1]
        uneven = len(set(map(len, F))) > 1
    for j, f in enumerate(F): p = d + "/f%d%s" % (j, ".gz" if r.random() < .2 else ""); put(p, f); paths.append(p)
    rep = {"files": F}; q = pl(c, "paste-files.pl", paths, rep=rep, ok=range(256))
    if q is None: return
    if not c.expect((q.returncode != 0) == uneven, "paste:uneven", lambda: "files of %r lines: exit %d" % ([len(f) for f in F], q.returncode), rep): return
    clean = lambda s: "" if "|||" in s else re.sub(r"\s+", " ", s.replace("\r", "")).strip(" ")
    m = min(map(len, F)); want = [" ||| ".join(clean(f[x]) for f in F) for x in range(m)]; cmp(c, "paste:lines", lines(q.stdout), want, rep); c.count("pasted_lines", m)
    blanked = sum("|||" in s for f in F for s in f); c.count("lines_emptied", blanked)
    if uneven: c.count("uneven_files"); return
    c.expect(bool(blanked) == (b"containing ||| was: %d" % blanked in q.stderr) or not blanked, "paste:count", lambda: q.stderr[-200:].decode(), rep)
    # and back again
    for j in range(k):
        u = pl(c, "cut-corpus.pl", [j + 1], q.stdout.decode(), rep)
        if u: cmp(c, "paste:cut", lines(u.stdout), [clean(s) for s in F[j]], rep)
def cut(c, r, d, i):
    n = r.randint(1, 15); k = r.randint(1, 6); L = [[sent(r, 0, 4) for _ in range(r.randint(1, k))] for _ in range(n)]; L = [[re.sub(r"\|", "!", x) for x in l] for l in L]
    sp = lambda: r.choice([" ||| ", " ||| ", "|||", "  |||\t"]); T = []
    for l in L:
        s = l[0]
        for x in l[1:]: s += sp() + x
        T.append(s)
    spec, idx = [], []
    for _ in range(r.randint(1, 3)):
        a = r.randint(1, k + 1)
        if r.random() < .5: spec.append(str(a)); idx.append(a)
        else: b = a + r.randint(1, 3); spec.append("%d-%d" % (a, b)); idx += range(a, b + 1)
    rep = {"lines": T, "spec": ",".join(spec)}; arg = [",".join(spec)]; t = "".join(x + "\n" for x in T)
    if r.random() < .3: put(d + "/cut", T); arg.append(d + "/cut"); t = ""
    q = pl(c, "cut-corpus.pl", arg, t, rep)
    if q: cmp(c, "cut:fields", lines(q.stdout), [" ||| ".join(l[a - 1].strip() if a <= len(l) else "" for a in idx) for l in L], rep); c.count("cut_lines", n); c.dist("cuts", (tuple(idx), k))
    if r.random() < .2:
        b = r.choice(["3-3", "4-2", "x", "1,,2", "-2", "2-", ""]); q = pl(c, "cut-corpus.pl", [b], "a ||| b\n", {"spec": b}, ok=range(256))
        if q: c.expect(q.returncode != 0 or b == "", "cut:bad", "accepted fields %r" % b, {"spec": b}); c.count("bad_field_lists")
def filt(c, r, d, i):
    mode = r.choice(["mixed", "mixed", "mixed", "mixed", "short", "same", "one", "empty", "bad"]); mx = r.choice([None, None, 5, 9, 12, 20]); n = r.choice([1, 5, 20, 60, 60]); L = []
    def side(k): return " ".join(r.choice(["a", "bb", "ccc", "dü"]) for _ in range(k))
    for _ in range(n):
        m = mode if r.random() < .8 else "mixed" if mode in ("mixed", "bad") else mode
        if m == "short": a, b = r.randint(1, 6), r.randint(1, 6)
        elif m in ("same", "one"): a = b = r.randint(7, 12)
        elif m == "empty": a, b = r.choice([(0, 4), (3, 0), (0, 0)])
        else:
            a = r.randint(1, 14); b = max(1, a + r.choice([0, 0, 0, 1, -1, 2, -2, 5, -5, 12]))
            if r.random() < .08: a, b = r.choice([(1, 10), (10, 1), (19, 2), (2, 18), (1, 9), (9, 1), (160, 150), (151, 150), (150, 150), (0, 5), (5, 0), (7, 1), (6, 1), (1, 7)])
        s = side(a) + r.choice([" ||| ", " ||| ", " ||| ", "|||", "\t"]) + side(b)
        if (mode == "bad" or r.random() < .05) and r.random() < .3: s = r.choice([side(a or 1), side(a) + " ||| " + side(b) + " ||| " + side(2), side(8) + "\t" + side(8) + "\t" + side(7), ""])
        L.append(s)
        if m == "one": break
    MX = mx if mx is not None else 150
    def parse(s):
        p = re.split(r"\s*\|\|\|\s*| *\t *", s + "\n")
        while p and p[-1] == "": p.pop()
        if len(p) != 2: return None
        a, b = [len(x.split()) for x in p]; return (a, b) if a and b and a <= MX and b <= MX else None
    P = [parse(s) for s in L]; rat = [math.log(a) - math.log(b) for a, b in filter(None, P) if max(a, b) >= 7]; ok = [x for x in rat if abs(x) <= math.log(9)]
    if any(abs(abs(x) - math.log(9)) < 1e-9 for x in rat): return c.count("ties")
    if ok: mean = sum(ok) / len(ok); sd = math.sqrt(sum((x - mean) ** 2 for x in ok) / len(ok))
    want = []
    for s, p in zip(L, P):
        if not p: continue
        if max(p) >= 7:
            x = math.log(p[0]) - math.log(p[1])
            if abs(x) > math.log(9): c.count("extreme_ratios"); continue
            if sd > 1e-9:
                z = abs(x - mean) / sd
                if abs(z - 2) < 1e-7: return c.count("ties")
                if z > 2: c.count("outliers"); continue
        else: c.count("short_kept")
        want.append(s)
    f = d + "/c" + (".gz" if r.random() < .2 else ""); put(f, L); rep = {"lines": L, "max": mx, "mode": mode}; q = pl(c, "filter-length.pl", (["-%d" % mx] if mx is not None else []) + [f], rep=rep)
    if q: cmp(c, "filter:lines", lines(q.stdout), want, rep); c.count("filtered_lines", n); c.count("filter_" + mode); c.count("filter_dropped", n - len(want))
def eos(c, r, d, i):
    n = r.randint(0, 15); k = r.randint(2, 4) if r.random() < .6 else 1; L = [[re.sub(r"\|", "!", sent(r, 0 if r.random() < .3 else 1, 6)) for _ in range(k)] for _ in range(n)]; al = k > 1 and r.random() < .7
    f, a, o = d + "/c", d + "/a", d + "/oa"; put(f, [" ||| ".join(l) for l in L]); A = []; bad = False
    if al:
        for l in L:
            x, y = len(l[0].split()), len(l[1].split()); A.append(sorted({(r.randrange(x), r.randrange(y)) for _ in range(r.randint(0, 5))} if x and y else set(), key=lambda p: r.random()))
        T = [" ".join("%d-%d" % p for p in q) for q in A]; bad = n and r.random() < .15
        if bad: T = T[:-1] if r.random() < .5 else T + ["0-0"]
        put(a, T)
    rep = {"lines": L, "alignments": A}; q = pl(c, "add-sos-eos.pl", [f] + ([a, o] if al else []), rep=rep, ok=range(256))
    if not q: return
    if not c.expect((q.returncode != 0) == bool(bad), "eos:exit", lambda: "exit %d: %s" % (q.returncode, q.stderr[-200:].decode()), rep) or bad: return
    c.count("marked_lines", n); cmp(c, "eos:lines", lines(q.stdout), [" ||| ".join("<s> %s </s>" % x for x in l) for l in L], rep)
    if al:
        cmp(c, "eos:links", lines(open(o, "rb").read()), [" ".join("%d-%d" % p for p in [(0, 0)] + [(u + 1, v + 1) for u, v in A[j]] + [(len(L[j][0].split()) + 1, len(L[j][1].split()) + 1)]) for j in range(n)], rep); c.count("shifted_links", sum(map(len, A)))
def lower(c, r, d, i):
    L = [sent(r, dirty=True) for _ in range(r.randint(0, 10))]; t = "".join(x + "\n" for x in L); q = pl(c, "lowercase.pl", (), t, {"lines": L})
    if q: cmp(c, "lower:lines", lines(q.stdout), ["".join(x.lower() for x in l) for l in L], {"lines": L}); c.count("lowercased_lines", len(L))
    v = ["ab", "c", "d!", "é", "zz"] + ["w%d" % x for x in range(20)]; L = [" ".join(r.choice(v) for _ in range(r.randint(1, 9))) for _ in range(r.randint(1, 10))]; rep = {"lines": L}; q = pl(c, "corpus-stats.pl", (), "".join(x + "\n" for x in L), rep)
    if q:
        W = [w for l in L for w in l.split()]; o = q.stdout.decode(); g = lambda k: float(re.search(r"%s: (\S+)" % re.escape(k), o).group(1)); C = {w: W.count(w) for w in W}
        for k, x in (("Lines", len(L)), ("Tokens", len(W)), ("Types", len(C)), ("sqrt(types)", math.sqrt(len(C))), ("Type-tok ratio", len(W) / len(C)), ("Singletons", sum(x == 1 for x in C.values()))): c.expect(abs(g(k) - x) < 1e-6 * (1 + x), "stats", "%s: %r, not %r" % (k, g(k), x), rep)
        top = re.search(r"Most freq types: (.*)", o).group(1).split(); c.expect([C.get(w) for w in top] == sorted(C.values(), reverse=True)[:25] and len(set(top)) == len(top), "stats:frequent", lambda: repr(top), rep); c.count("statistics", 6)
def selft(c, r, d, i):
    v = ["a", "b", "Ort", "17", "é"] + ["w%d" % x for x in range(r.choice([3, 30]))]; L = [([r.choice(v) for _ in range(r.randint(1, 6))], [r.choice(v) for _ in range(r.randint(1, 6))]) for _ in range(r.randint(1, 12))]
    rep = {"lines": L}; q = pl(c, "add-self-translations.pl", (), "".join("%s ||| %s\n" % (" ".join(a), " ".join(b)) for a, b in L), rep)
    if not q: return
    got = lines(q.stdout); n = {}; both = set()
    for a, b in L:
        for w in a: n[w] = n.get(w, 0) + 1
        both |= set(a) & set(b)
    O = {}
    for g in got:
        p = g.split(" ||| ")
        if c.expect(len(p) == 2 and p[0] == p[1] and p[0] in both, "self:line", lambda: "not a self-translation of the corpus: %r" % g, rep): O[p[0]] = O.get(p[0], 0) + 1
    for w in both:
        if n[w] < 2: c.expect(O.get(w, 0) > 1, "self:rare", lambda: "%r was seen once and is not added several times: %r" % (w, O), rep); c.count("self_translations")
        elif n[w] > 4: c.expect(w not in O, "self:frequent", lambda: "%r was seen %d times and is added" % (w, n[w]), rep); c.count("not_self_translated")
def conll(c, r, d, i):
    k = r.randint(0, 3); D = [[[word(r) for _ in range(k + 2)] for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 6))]
    if k and r.random() < .3: D[0][0][1] = 'q"t"'
    sep = lambda: r.choice([" ", "\t"]); T = []
    for x in D: T += [sep().join(w) for w in x] + [""]
    if r.random() < .4: T.pop()
    f = d + "/c"; put(f, T); rep = {"lines": T}; q = pl(c, "conll2cdec.pl", [f], rep=rep)
    if q: cmp(c, "conll:sentences", lines(q.stdout), ['<seg id="%d"%s> %s ||| %s </seg>' % (j, "".join(' feat%d="%s"' % (y + 1, " ".join(w[y + 1].replace('"', "'") for w in x)) for y in range(k)), " ".join(w[0] for w in x), " ".join(w[-1] for w in x)) for j, x in enumerate(D)], rep); c.count("conll_sentences", len(D))
def moses(c, r, d, i):
    t = "".join("".join(r.choice("ab &|<>'\"[];#19apostquolg") for _ in range(r.randint(0, 30))) + "\n" for _ in range(5)) + "&amp;lt; &amp;#124; &apos;\n"; q = pl(c, "moses-xml.pl", ["escape"], t, {"text": t})
    if q:
        c.expect(not set(q.stdout.decode()) & set("|<>'\"[]"), "escape:left", lambda: q.stdout.decode(), {"text": t}); u = pl(c, "moses-xml.pl", ["unescape"], q.stdout.decode(), {"text": t}); c.count("escaped_lines", 6)
        if u: cmp(c, "escape:back", lines(u.stdout), t.split("\n")[:-1], {"text": t})
    L, want = [], []
    cat = lambda: r.choice(["X", "NP", "VP", "S", "X,Y", "&apos;s"]); fix = lambda s: s.replace("&apos;", "'").replace(",", "COMMA")
    for _ in range(r.randint(1, 10)):
        k = r.randint(0, 3); nt = [cat() for _ in range(k)]; src = [("w", word(r).replace("|", "!")) for _ in range(r.randint(0 if k else 1, 3))] + [("n", j) for j in range(k)]; trg = [("w", word(r).replace("|", "!")) for _ in range(r.randint(0 if k else 1, 3))] + [("n", j) for j in range(k)]; r.shuffle(src); r.shuffle(trg); order = [j for t, j in src if t == "n"]; p = [math.exp(-r.uniform(.01, 8)) for _ in range(7)]; lhs = cat()
        if r.random() < .2: p[r.choice([0, 1, 2, 3, 4, 6])] = 0
        al = [(src.index(("n", j)), trg.index(("n", j))) for j in range(k)]; r.shuffle(al); n = ["%.6g" % x for x in p]; w = lambda x: " ".join("[X][%s]" % nt[j] if t == "n" else j for t, j in x)
        L.append("%s [X] ||| %s [%s] ||| %s ||| %s ||| 3 7 2" % (w(src), w(trg), lhs, " ".join(n), " ".join("%d-%d" % x for x in al)))
        if "0" in n[:5] + n[6:]: c.count("zero_rules"); continue
        v = ["%.6g" % math.log(float(x)) if "%.6g" % math.log(float(x)) != "-0" else "0" for x in (n[0], n[1], n[2], n[4], n[3], n[6])]
        want.append("[%s] ||| %s ||| %s ||| RuleCount=1 FgivenE=%s EgivenF=%s Joint=%s LexEgivenF=%s LexFgivenE=%s Other=%s" % ((fix(lhs), " ".join("[%s]" % fix(nt[j]) if t == "n" else j for t, j in src), " ".join("[%d]" % (order.index(j) + 1) if t == "n" else j for t, j in trg)) + tuple(v)))
    rep = {"lines": L}; q = pl(c, "moses-scfg-to-cdec.pl", (), "".join(x + "\n" for x in L), rep)
    if q: cmp(c, "moses:rules", lines(q.stdout), want, rep); c.count("converted_rules", len(want))
def devs(c, r, d, i):
    size, per, sets = r.randint(1, 4), r.randint(1, 4), r.randint(1, 3); n = size * per * sets + r.randint(0, 40); lc = r.random() < .4; T = ["s%d" % x for x in range(n)]; f, o = d + "/c", d + "/o"; put(f, T); rep = {"lines": n, "doc": size, "docs": per, "sets": sets, "lc": lc}
    q = pl(c, "sample-dev-sets.py", [f, o, size, per, sets] + (["-lc"] if lc else []), rep=rep, exe="python3")
    if not q: return
    O = [lines(open(o + x, "rb").read()) for x in [".train"] + [".dev.%d" % (j + 1) for j in range(sets)]]; c.count("sampled_lines", n)
    if lc: c.expect(all(re.fullmatch(r"(\d+) \|\|\| s(\d+)", x) and int(x.split()[0]) == int(x.split()[2][1:]) + 1 for x in sum(O, [])), "dev:number", "wrong line numbers", rep); O = [[x.split()[-1] for x in y] for y in O]
    c.expect(sorted(sum(O, [])) == sorted(T), "dev:lines", lambda: "the lines are not all in exactly one part: %r" % O, rep)
    for j, x in enumerate(O):
        k = [int(y[1:]) for y in x]; c.expect(k == sorted(k), "dev:order", lambda: "part %d is out of order" % j, rep)
        if j: c.expect(len(k) == size * per and all(k[a * size:(a + 1) * size] == list(range(k[a * size], k[a * size] + size)) for a in range(per)), "dev:documents", lambda: "development set %d has not %d documents of %d lines: %r" % (j, per, size, k), rep)
NORM = {ord(a): b for a, b in zip("“”„«»", '"""""')}
def chars(s): s = s.translate(NORM).replace("''", '"').replace("`", "'"); return re.sub(r"\s+", "", s)
def toks(c, r, d, i):
    P = [",", ".", "!", "?", ";", ":", "(", ")", '"', "%", "-", "/", "+", "=", "#", "@", "_", "~", "*", "$", "|", "..."]; W = ["house", "Haus", "it's", "don't", "they've", "U.S.", "e.g.", "3.5", "1,000", "12-13", "www.abc.com", "a@b.org", "Мир", "λόγος", "ein", "x", "90%", "$5", "AT&T", "co-operate", "5:4", "1/2", "Mr.", "été", "naïve", "I'd"]
    def text():
        o = []
        for _ in range(r.randint(1, 8)):
            w = r.choice(W)
            if r.random() < .4: w += r.choice(P) if r.random() < .5 else r.choice(",.!?")
            if r.random() < .15: w = r.choice('("$#@') + w
            if r.random() < .08: w += r.choice(P) + r.choice(W)
            if r.random() < .06: w = "".join(r.choice(P) for _ in range(r.randint(1, 3)))
            o.append(w.replace("|||", "||").replace(",,", ",;"))
        return o
    L = []
    for _ in range(r.randint(1, 8)): L.append([] if r.random() < .15 else [text() for _ in range(r.choice([1, 1, 2, 3]))])
    T = [" ||| ".join(" ".join(x) for x in l) for l in L]; T = [t.replace(" ", "  ") if r.random() < .1 else t for t in T]; rep = {"lines": T}; q = pl(c, "tokenize-anything.sh", (), "".join(t + "\n" for t in T), rep, exe=None)
    if not q: return
    O = lines(q.stdout); c.count("tokenized_lines", len(T))
    if not c.expect(len(O) == len(T), "tok:count", lambda: "%d lines became %d" % (len(T), len(O)), rep): return
    for l, t, o in zip(L, T, O):
        c.expect(o == o.strip() and "  " not in o and "\t" not in o, "tok:spaces", lambda: repr(o), rep); p = o.split(" ||| ")
        if l and c.expect(len(p) == len(l), "tok:fields", lambda: "%r became %r" % (t, o), rep):
            for x, y in zip(l, p):
                x = " ".join(x)
                c.expect(chars(x) == chars(y), "tok:characters", lambda: "%r became %r" % (x, y), rep); bounds(c, x, y, rep)
                for w in x.split():
                    if re.fullmatch(r"[A-Za-zМирλόγοςéïü]+", w): c.expect(w in y.split(), "tok:words", lambda: "the word %r is not a token of %r" % (w, y), rep); c.count("plain_words")
                    m = re.fullmatch(r"([a-zA-Z]{2,})([,!?;])", w)
                    if m: c.expect((m.group(1) + " " + m.group(2)) in y or m.group(1).lower() in ("co",), "tok:punctuation", lambda: "%r is not separated in %r" % (w, y), rep); c.count("separated_punctuation")
        elif not l: c.expect(o == "", "tok:empty", lambda: "an empty line became %r" % o, rep)
    if len(T) > 1 and r.random() < .5:
        j = r.randrange(len(T)); u = pl(c, "tokenize-anything.sh", (), T[j] + "\n", rep, exe=None)
        if u: cmp(c, "tok:alone", lines(u.stdout), [O[j]], rep); c.count("alone")
    if r.random() < .4:
        u = pl(c, "tokenize-anything.sh", ["-u"], "".join(t + "\n" for t in T), rep, exe=None)
        if u: cmp(c, "tok:unbuffered", lines(u.stdout), O, rep); c.count("unbuffered")
    if r.random() < .4:
        f = d + "/t"; put(f, T); u = c.run(["python3", S("tokenize-parallel.py"), f, str(r.randint(1, 4)), d], replay=rep, key="exit:tokenize-parallel.py", env={"PYTHONIOENCODING": "utf8", "PYTHONUTF8": "1"})
        if u: cmp(c, "tok:parallel", lines(u.stdout), O, rep); c.count("parallel"); c.expect(not [x for x in os.listdir(d) if x.startswith("tok.")], "tok:left", "temporary files are left", rep)
    u = pl(c, "untok.pl", (), q.stdout.decode(), rep)
    if u:
        U = lines(u.stdout); c.expect(len(U) == len(O) and all(re.sub(r"\s", "", a) == re.sub(r"\s", "", b) for a, b in zip(U, O)), "untok:characters", lambda: "%r became %r" % (O, U), rep)
        for a, b in zip(O, U):
            W = a.split(); c.expect(not re.search(r" [,;?!)\]](?= |$)", b) and not re.search(r"(^| )[(\[] ", b), "untok:punctuation", lambda: "%r became %r" % (a, b), rep)
            plain = [x for x in re.findall(r"(?<!\S)[A-Za-z]+ [A-Za-z]+(?!\S)", a)]; c.expect(all(x in b for x in plain), "untok:words", lambda: "%r became %r" % (a, b), rep); c.count("untokenized_lines")
def bounds(c, x, y, rep):
    """no space of the input is lost between two words"""
    x, y = x.translate(NORM), y.translate(NORM)
    if "''" in x or "' '" in x or "`" in x: return
    pos = lambda s: {len(re.sub(r"\s", "", s[:m.start()])) for m in re.finditer(r"\s+", s)}; lost = pos(x) - pos(y); z = re.sub(r"\s", "", x)
    lost = [p for p in lost if z[p - 1:p] != "'" and z[p:p + 1] != "'" and z[p - 1:p] not in "-"]; c.expect(not lost, "tok:boundary", lambda: "words joined: %r became %r" % (x, y), rep)
KINDS = dict(paste=paste, cut=cut, filt=filt, eos=eos, lower=lower, selft=selft, conll=conll, moses=moses, devs=devs, toks=toks)
def main():
    c = vf.Check("C01", "corpus, distinct by tool, shape and content"); n = c.n(1500, 40000); only = os.environ.get("VERIF_ONLY"); ks = [os.environ["KIND"]] if os.environ.get("KIND") else ["paste", "paste", "cut", "filt", "filt", "filt", "eos", "eos", "lower", "selft", "conll", "moses", "devs", "toks", "toks"]
    def one(i):
        r = random.Random("c01-%d-%d" % (c.seed, i)); d = os.path.join(c.work, "c%d" % i); os.mkdir(d); k = ks[i % len(ks)]; KINDS[k](c, r, d, i); c.count("cases"); c.count("kind_" + k); c.dist("nontrivial", (k, i))
        for x in os.listdir(d): os.remove(os.path.join(d, x))
        os.rmdir(d)
    with ThreadPoolExecutor(vf.JOBS) as p:
        for f in [p.submit(one, i) for i in ([int(only)] if only else range(n))]: f.result()
    c.finish()
