import random, os, math
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "differential monitor: models written by the real estimator (ASan+UBSan) are compared entry by entry with an independent double-precision interpolated modified Kneser-Ney estimate of the same corpus, summed over the vocabulary in every context, and compared across memory, block-size and block-count settings"
NOTE = ("Held on the corpora run: orders 1-6, up to a few thousand tokens, sort memory from tens of kilobytes (many spilled blocks) upwards, pruning thresholds, fallback discounts, unigram interpolation on and off, padded vocabularies, "
        "collapsed values judged by whole-sentence scores, special symbols treated as white space. The entry for <s> carries no probability mass and its probability is not judged.")
def build():
    b = vf.Builder("asan")
    return {"lmplz": b.program("lmplz", [vf.R("klm/lm/builder/lmplz_main.cc")], ["lmbuilder", "klm", "klm_stream", "klm_util"], libs=["-lboost_program_options", "-lboost_thread", "-lboost_system"])}
BAD = ("<s>", "</s>", "<unk>")
def corpus(r, big):
    words = []
    nw = r.choice([1, 3, 8, 30, 30, 200, 200, 2000])
    odd = ["\u00fc", "\u4e2d", "|||", "-1.5", "\\data\\", "a|b", "%", "<S>", "\u00a0x"]
    while len(words) < nw:
        w = r.choice(odd) if r.random() < .05 else "".join(r.choice("abcdefgh") for _ in range(r.randint(1, 60 if r.random() < .02 else 5)))
        if w not in words or len(words) > 300: words.append(w)
    n = r.choice([1, 2, 3, 20, 100, 300] + ([2000] if big else [300])); sents = []
    kind = r.random()
    for _ in range(n):
        if sents and r.random() < (.15 if kind < .7 else .0): sents.append(list(r.choice(sents))); continue
        L = 0 if r.random() < .05 else r.randint(1, 12)
        s = []
        for k in range(L):
            if s and r.random() < .4: s.append(words[(words.index(s[-1]) * 7 + 3 + r.randint(0, 1)) % nw])
            else: s.append(words[min(nw - 1, int(r.paretovariate(.6)) - 1)])
        sents.append(s)
    return sents
def render(r, sents, skip):
    out = []
    for s in sents:
        t = ""
        for i, w in enumerate(s):
            if skip and r.random() < .05: t += r.choice(BAD) + " "
            t += w + (r.choice([" ", " ", " ", "  ", "\t", "\r ", " \0"]) if r.random() < .1 else " ")
        if skip and r.random() < .03: t += r.choice(BAD)
        elif r.random() < .9: t = t[:-1] if t.endswith(" ") else t
        out.append(t)
    t = "\n".join(out)
    if sents and (r.random() < .85 or not out[-1]): t += "\n"
    return t.encode()
def estimate(sents, N, prune, fallback, interp, pad):
    full = defaultdict(int)
    for s in sents:
        h = ["<s>"] * (N - 1)
        for w in s + ["</s>"]:
            g = tuple(h + [w]); full[g] += 1
            h = (h + [w])[1:] if N > 1 else []
    vocab = {"<unk>", "<s>", "</s>"} | {w for s in sents for w in s}
    true = [defaultdict(int) for _ in range(N + 1)]; ext = [defaultdict(set) for _ in range(N + 1)]
    for g, c in full.items():
        for k in range(1, N + 1):
            q = g[N - k:]
            if len(q) > 1 and q[1] == "<s>": continue
            true[k][q] += c
            if k < N and not (q[0] == "<s>"): ext[k][q].add(g[N - k - 1])
    adj = [None] * (N + 1)
    for k in range(1, N + 1):
        adj[k] = {q: (true[k][q] if (k == N or q[0] == "<s>") else len(ext[k][q])) for q in true[k]}
        if k == 1: adj[1][("<unk>",)] = 0; adj[1][("<s>",)] = 0
    disc, failed = [None], False
    for k in range(1, N + 1):
        n = [0] * 6
        for q, c in adj[k].items():
            if c < 5: n[c] += 1
        D = None
        if all(n[j] for j in (1, 2, 3)):
            y = n[1] / (n[1] + 2.0 * n[2]); D = [0.0] + [j - (j + 1) * y * n[j + 1] / n[j] for j in (1, 2, 3)]
            if any(D[j] < -1e-7 or D[j] > j + 1e-7 for j in (1, 2, 3)): D = None
            elif any(n[j + 1] and (abs(D[j]) < 1e-5 or abs(D[j] - j) < 1e-5) for j in (1, 2, 3)): failed = "edge"   # rounding decides whether it is in range
        if D is None:
            failed = failed or "fallback"
            if fallback is None: return None, vocab, None, failed
            D = [0.0] + [fallback[min(j, len(fallback) - 1)] for j in range(3)]
        disc.append(D)
    V = max(pad, len(vocab) - 1)
    model = [None]; bo = [None]; gam = [None]
    for k in range(1, N + 1):
        keep = {q for q in adj[k] if not (k > 1 and prune[k - 1] and true[k][q] <= prune[k - 1])}
        den = defaultdict(int); mass = defaultdict(float)
        for q, c in adj[k].items():
            h = q[:-1]; den[h] += c
            if q in keep: mass[h] += disc[k][min(c, 3)]
            else: mass[h] += c
        gamma = {h: mass[h] / den[h] for h in den}
        gam.append(gamma); P = {}
        for q in keep:
            c = adj[k][q]; h = q[:-1]; p = (c - disc[k][min(c, 3)]) / den[h]
            if k == 1:
                if interp: p += gamma[()] / V
                elif q == ("<unk>",): p = gamma[()]
            else: p += gamma[h] * model[k - 1][q[1:]]
            P[q] = p
        model.append(P)
    return model, vocab, gam, failed
def parse(txt):
    L = txt.split("\n"); counts = {}; grams = []; i = 0
    while i < len(L) and L[i] != "\\data\\": i += 1
    i += 1
    while L[i]:
        a, b = L[i][6:].split("="); counts[int(a)] = int(b); i += 1
    i += 1
    for k in range(1, len(counts) + 1):
        assert L[i] == "\\%d-grams:" % k, L[i]
        i += 1; d = {}
        while L[i]:
            f = L[i].split("\t"); g = tuple(f[1].split(" "))
            assert len(g) == k, L[i]
            assert g not in d, "twice: " + L[i]
            d[g] = (float(f[0]), float(f[2]) if len(f) > 2 else None); i += 1
        grams.append(d); i += 1
    assert L[i] == "\\end\\", L[i]
    return counts, grams
def near(a, b, t): return a == b or abs(a - b) <= t
def score(grams, sent, q):
    N = len(grams); h = ["<s>"]; tot = 0.0
    for w in sent + ["</s>"]:
        if (w,) not in grams[0]: w = "<unk>"
        c = h[-(N - 1):] if N > 1 else []
        b = 0.0
        while True:
            g = tuple(c) + (w,)
            if len(g) <= N and g in grams[len(g) - 1]: tot += grams[len(g) - 1][g][0] + b; break
            e = grams[len(c) - 1].get(tuple(c)) if c else None
            if e and e[1] is not None: b += e[1]
            c = c[1:]
        h.append(w)
    return tot
def main():
    c = vf.Check("K04", "corpus, distinct by content")
    exe = build()["lmplz"]
    def one(i):
        r = random.Random(c.seed * 1000003 + i)
        d = os.path.join(c.work, str(i)); os.makedirs(d)
        N = r.randint(1, 6); sents = corpus(r, c.thorough or i % 7 == 0); skip = r.random() < .15
        data = render(r, sents, skip)
        prune = [0] * N; pargs = []
        if N > 1 and r.random() < .4:
            t = [0]
            for _ in range(r.randint(1, N - 1)): t.append(t[-1] + r.choice([0, 1, 1, 2, 5]))
            prune = t + [t[-1]] * (N - len(t)); pargs = ["--prune"] + [str(x) for x in t]
        fb = None; args = ["-o", str(N)] + pargs
        if r.random() < .93:
            fb = r.choice([[.5, 1, 1.5], [.5, 1, 1.5], [.75], [0, 0, 0], [1, 2, 3], [.3, .9]]); 
            args += ["--discount_fallback"] + ([] if fb == [.5, 1, 1.5] and r.random() < .5 else [str(x) for x in fb])
        interp = r.random() < .8; pad = r.choice([0, 0, 0, 5, 5000]) if interp else 0
        if not interp: args += ["--interpolate_unigrams", "0"]
        if pad: args += ["--vocab_pad", str(pad)]
        if skip: args += ["--skip_symbols"]
        rep = {"args": args, "text": data.decode("utf8", "replace")[:6000]}
        model, vocab, gam, failed = estimate(sents, N, prune, fb, interp, pad)
        if failed == "edge": c.count("discounts at the edge of their range, skipped"); return
        if model is not None and any(not m for m in model[1:]): model = None   # every n-gram of an order pruned: refused
        ref = None; c.dist("nontrivial", hash((data, tuple(args))))
        def mem():
            k = r.random()
            if k < .45:
                mb = r.choice([40, 64, 128, 500, 8192]); bc = r.randint(1, 4)
                mb = max(mb, 4 * N + 8); need = mb * N * bc
                return ["-S", "%db" % max(need * r.choice([1, 2, 4]) + r.choice([0, 1, 777]), 4 * mb + r.randint(4000, 9000)), "--minimum_block", "%db" % mb, "--sort_block", "%db" % (mb * r.choice([1, 2, 10])), "--block_count", str(bc), "--vocab_estimate", str(r.choice([1, 7, 50]))]
            if k < .6: return ["-S", "%dK" % r.randint(300, 3000), "--sort_block", "%dK" % r.randint(8, 64), "--vocab_estimate", str(r.choice([10, 1000]))]
            return ["-S", "%dM" % r.choice([30, 64]), "--sort_block", "1M", "--block_count", str(r.randint(1, 5)), "--vocab_estimate", str(r.choice([100, 100000]))]
        runs = [["-S", "40M", "--sort_block", "1M", "--vocab_estimate", "1000"]] + [mem() for _ in range(3)]
        for k, m in enumerate(runs):
            fn = os.path.join(d, "out.arpa"); cmd = [exe] + args + m + ["-T", os.path.join(d, "t"), "--arpa", fn]
            stdin = data; voc = None
            if r.random() < .3:
                f = os.path.join(d, "in"); open(f, "wb").write(data); cmd += ["--text", f]; stdin = None
            if r.random() < .2: voc = os.path.join(d, "voc"); cmd += ["--vocab_file", voc]
            hdr = r.random() < .2
            if hdr: cmd += ["--verbose_header"]
            rr = dict(rep, mem=m)
            p = c.run(cmd, stdin=stdin, replay=rr, ok=(0, 1, -6, 134), timeout=240)
            if p is None: return
            if k and p.returncode in (1, -6, 134) and (b"too small for" in p.stderr or b"Not enough memory" in p.stderr or b"exceeds total memory" in p.stderr or b"below the minimum block" in p.stderr): c.count("settings refused for lack of memory"); continue
            if p.returncode and model is not None: c.violation("failed", "exit status %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-400:]), rr); return
            if model is None:
                c.expect(p.returncode != 0, "accepted", lambda: "the discounts cannot be estimated or an order is pruned empty, but the estimator succeeded", rr); c.count("estimation failures"); return
            try: counts, grams = parse(open(fn, encoding="utf8").read())
            except Exception as e:
                c.violation("format", "output is not a well-formed ARPA file: %s: %r" % (type(e).__name__, str(e)[:300]), rr); return
            c.count("models"); c.count("entries", sum(map(len, grams)))
            if voc:
                got = open(voc, "rb").read().decode("utf8").split("\0"); c.expect(got[-1] == "" and sorted(got[:-1]) == sorted(vocab), "vocab-file", lambda: "vocabulary file lists %r" % got[:20], rr)
            if hdr: c.expect("# Token count: %d\n" % sum(map(len, sents)) in open(fn, encoding="utf8").read()[:4000], "header", "token count in the header is wrong", rr)
            if ref is not None:
                same = len(grams) == len(ref) and all(a.keys() == b.keys() and all(near(a[g][0], b[g][0], 1e-5) and (a[g][1] is None) == (b[g][1] is None) and (a[g][1] is None or near(a[g][1], b[g][1], 1e-5)) for g in a) for a, b in zip(grams, ref))
                c.expect(same, "resources", lambda: "another model with %s than with %s: %s" % (m, runs[0], diff(grams, ref)), rr); c.count("resource settings compared")
                continue
            ref = grams
            c.expect(len(grams) == N and all(counts[k + 1] == len(grams[k]) for k in range(N)), "counts", lambda: "the header counts %r but %r are listed" % (counts, [len(g) for g in grams]), rr)
            bad = None
            for k in range(N):
                if set(grams[k]) != set(model[k + 1]):
                    a = set(grams[k]) - set(model[k + 1]); b = set(model[k + 1]) - set(grams[k])
                    bad = ("entries", "order %d: unexpected %r, missing %r" % (k + 1, sorted(a)[:4], sorted(b)[:4])); break
                for g, (lp, bo) in grams[k].items():
                    if g == ("<s>",): lp = None
                    w = model[k + 1][g]
                    if lp is not None and not (near(10 ** lp, w, 2e-5 * w + 2e-7) if w > 0 else 10 ** lp < 1e-6): bad = ("prob", "p(%s | %s) is %g, expected %g" % (g[-1], " ".join(g[:-1]), 10 ** lp, w)); break
                    if k + 1 < N:
                        wb = gam[k + 2].get(g, 1.0)
                        if bo is None or not (near(10 ** bo, wb, 2e-5 * wb + 2e-7) if wb > 0 else 10 ** bo < 1e-6): bad = ("backoff", "back-off of %r is %r, expected %g" % (g, bo if bo is None else 10 ** bo, wb)); break
                    c.count("entries checked")
                if bad: break
            if bad: c.violation(bad[0], bad[1], rr); return
            # probabilities sum to one over words and </s> in every context
            words = sorted(vocab - {"<s>"}); ctxs = [()] + [g for k in range(N - 1) for g in grams[k] if g[-1] != "</s>" and g != ("<unk>",)]
            if len(ctxs) > 40: ctxs = r.sample(ctxs, 40)
            for h in ctxs:
                tot = 0.0
                for w in words if len(words) * len(ctxs) < 60000 else []:
                    hh = h; b = 0.0
                    while True:
                        e = grams[len(hh)].get(hh + (w,))
                        if e: tot += (10 ** (e[0] + b)) * ((max(pad, len(vocab) - 1) - len(vocab) + 2) if w == "<unk>" else 1); break
                        x = grams[len(hh) - 1].get(hh); b += x[1] if x and x[1] is not None else 0.0
                        hh = hh[1:]
                else:
                    if len(words) * len(ctxs) < 60000: c.expect(near(tot, 1, 2e-3 if len(words) > 300 else 3e-4), "sum", lambda: "probabilities after %r sum to %g" % (h, tot), rr); c.count("contexts summed")
        if N > 1 and interp is not None and r.random() < .5:
            fn = os.path.join(d, "q.arpa"); p = c.run([exe] + args + runs[0] + ["-T", os.path.join(d, "t"), "--arpa", fn, "--collapse_values"], stdin=data, replay=rep, timeout=240)
            if p is None: return
            try: _, q = parse(open(fn, encoding="utf8").read())
            except Exception as e: c.violation("q:format", "collapsed output is not well formed: %r" % str(e)[:300], rep); return
            allw = sorted(w for w in vocab if w not in BAD) + ["not-in-vocabulary"]
            for _ in range(12):
                s = list(r.choice(sents)) if sents and r.random() < .5 else []
                for _ in range(r.randint(0, 8)): s.insert(r.randint(0, len(s)), r.choice(allw))
                a, b = score(ref, s, False), score(q, s, True) + (ref[0][("<s>",)][1] or 0)   # q spends the back-off of <s> on <s> itself, which is not scored
                c.expect(math.isinf(a) or math.isnan(b) or near(a, b, 1e-3 * (1 + abs(a))) , "collapsed", lambda: "sentence %r scores %g with collapsed values, %g without" % (s, b, a), rep); c.count("sentences scored with collapsed values")
        if i < 3: c.sample("%s -> %s n-grams" % (" ".join(args), [len(g) for g in ref] if ref else None))
    def diff(a, b):
        for x, y in zip(a, b):
            for g in sorted(set(x) | set(y)):
                if x.get(g) != y.get(g): return "%r: %r and %r" % (g, x.get(g), y.get(g))
    import shutil
    def guard(i):
        try: one(i)
        finally: shutil.rmtree(os.path.join(c.work, str(i)), ignore_errors=True)
    with ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(guard, i) for i in range(c.n(120, 4000))]: f.result()
    c.count("cases", c.n(120, 4000))
    c.finish()
