import itertools, os, random, re
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
from checks.d12 import near, dot, fmap
TECHNIQUE = "offline oracle over recorded executions: best strings and derivation lists printed by grammar_convert, with and without reorderings, compared with an independent enumeration of the derivations of each grammar; under ASan+UBSan"
NOTE = "Held on the runs made: acyclic grammars with up to 3000 derivations after reordering, several per file, some deriving nothing. Without weights only strings and features are judged, not scores. Reordering of rules that mix words and punctuation categories is not exercised."
def build():
    b = vf.Builder("asan"); return {"grammar_convert": b.program("grammar_convert", [vf.R("training/utils/grammar_convert.cc")], ["decoder", "utils", "mteval", "klm", "klm_util", "ksearch"])}
def order_name(lhs, rhs, pi):
    used = {}; t = []
    for x in rhs: x = x[1:-1].split("_")[0] if x[0] == "[" else "x"; n = used.get(x, 0); t.append(x + (str(n) if n else "")); used[x] = n + 1
    return lhs.split("_")[0] + ":" + "_".join(t[p] for p in pi)
PU = {"PU", "PUNC", "CC", "PU!H", "PUNC!H"}
def reorder(lhs, rhs, f, far):
    seg = []; s = 0
    for x in rhs:
        if x[0] == "[" and x[1:-1].split("_")[0] in PU: seg.append(s + 1); s += 2
        else: seg.append(s)
    for pi in itertools.permutations(range(len(rhs))):
        if all(seg[p] == seg[i] and abs(p - i) <= far for i, p in enumerate(pi)): yield [rhs[p] for p in pi], dict(f, **{order_name(lhs, rhs, pi): 1.0})
def main():
    c = vf.Check("D20", "grammar converted, distinct by its derivations"); e = build(); noleak = {"ASAN_OPTIONS": "detect_leaks=0"}
    def grammar(r, tree):
        N = ["S"] + r.sample(["NP", "NP_2", "VP", "PU", "CC", "D", "N", "V", "PUNC", "A_1", "X", "Q_1_2"], r.randint(2, 6)); G = []; dead = r.random() < .3
        for i, a in enumerate(N):
            below = N[i + 1:] + (["GONE"] if dead and r.random() < .3 else [])
            for _ in range(1 if tree and r.random() < .85 else r.choice([1, 1, 2, 3])):
                n = r.choice([1, 2, 2, 3, 4]) if below else 1; mixed = r.random() < .3; rhs = ["[%s]" % r.choice(below) if below and (not mixed or r.random() < .6) and (n > 1 or r.random() < .3) else r.choice("abcdef") for _ in range(n)]
                if tree and len({x[0] == "[" for x in rhs}) > 1 and any(x[1:-1].split("_")[0] in PU for x in rhs): rhs = [x for x in rhs if x[0] == "["]
                G.append((a, rhs, {k: round(r.uniform(-1, 1), 2) for k in r.sample(["A", "B", "C"], r.randint(0, 2))}))
        return G
    def derivations(G, yk, far):
        R = {}
        for a, rhs, f in G: R.setdefault(a, []).append((rhs, f))
        ok = set()
        while True:
            more = {a for a in R if a not in ok and any(all(x[0] != "[" or x[1:-1] in ok for x in rhs) for rhs, _ in R[a])}
            if not more: break
            ok |= more
        R = {a: [(rhs, f) for rhs, f in v if all(x[0] != "[" or x[1:-1] in ok for x in rhs)] for a, v in R.items() if a in ok}
        if "S" not in ok: return []
        if yk:
            todo, seen = ["S"], set()
            while todo:
                a = todo.pop()
                if a in seen or len(R[a]) != 1: continue
                seen.add(a); todo += [x[1:-1] for x in R[a][0][0] if x[0] == "["]
            for a in seen:
                rhs, f = R[a][0]
                if len(rhs) > 1: R[a] = list(reorder(a, rhs, f, far))
        memo = {}
        def size(a, memo={}):
            if a not in memo:
                memo[a] = 0
                for rhs, _ in R[a]:
                    n = 1
                    for x in rhs: n *= size(x[1:-1], memo) if x[0] == "[" else 1
                    memo[a] += n
            return memo[a]
        if size("S", {}) > 3000: return None
        def go(a):
            if a not in memo:
                o = []
                for rhs, f in R[a]:
                    part = [((), f)]
                    for x in rhs: part = [(y + (x,), g) for y, g in part] if x[0] != "[" else [(y + z, {k: g.get(k, 0) + h.get(k, 0) for k in set(g) | set(h)}) for y, g in part for z, h in go(x[1:-1])]
                    o += part
                memo[a] = o
            return memo[a]
        return go("S")
    def one(k):
        r = random.Random(c.seed * 53471161 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d); yk = r.random() < .6; far = r.choice([999, 999, 0, 1, 2]); Gs = []
        for _ in range(r.randint(1, 4)):
            G = grammar(r, yk); D = derivations(G, yk, far)
            if D is None: c.count("grammars too large")
            else: Gs.append((G, D))
        if not Gs: return
        text = ""
        for i, (G, _) in enumerate(Gs):
            L = ["[%s] ||| %s" % (a, " ".join(rhs)) + (" ||| " + " ".join("%s=%s" % z for z in f.items()) if f or r.random() < .2 else "") for a, rhs, f in G]; r.shuffle(L)
            if r.random() < .2: L.insert(r.randint(0, len(L)), "# a comment")
            text += "\n" * (i > 0) + "".join(l + "\n" for l in L)
        W = {}; cmd = [e["grammar_convert"], "-i", "g", "-o", "1best"]; K = r.choice([100000, 100000, 1, 3, 10]); cmd += ["-k", str(K)]
        if yk: cmd.append("-r"); cmd += ["-m", str(far)] if far != 999 else []
        names = sorted({n for _, D in Gs for _, f in D for n in f}); coll = False
        if r.random() < .8:
            W = {n: round(r.uniform(-1, 1), 3) for n in names if r.random() < .9} or {"A": .5}; open(d + "/w", "w").write("".join("%s %s\n" % z for z in W.items())); cmd += ["-w", "w"]
            if r.random() < .3: cmd.append("-C"); coll = True
        open(d + "/g", "w").write(text); rep = {"grammar": text, "weights": W, "cmd": " ".join(cmd)}; x = c.run(cmd, env=noleak, cwd=d, replay=rep)
        if x is None: return
        out = x.stdout.decode().split("\n")[:-1]; c.count("cases"); c.count("files with reorderings", yk)
        if not c.expect(len(out) == len(Gs), "lines", "%d grammars, %d lines" % (len(Gs), len(out)), rep): return
        lists = []
        for l in x.stderr.decode().split("\n"):
            if l.startswith("Removing ") or l.startswith("Warning! Grammar defines"): lists.append([])
            m = re.match(r"(-?[\d.e+-]+|-inf) \|\|\| (.*) \|\|\| ?(.*)$", l)
            if m and lists: lists[-1].append((float(m[1]), tuple(m[2].split()), fmap(m[3])))
        if not c.expect(len(lists) == len(Gs), "lists", "%d grammars, %d lists" % (len(Gs), len(lists)), rep): return
        for (G, D), l, got in zip(Gs, out, lists):
            if not D: c.count("grammars deriving nothing"); c.expect(l == "" and not got, "empty", "a grammar deriving nothing gives '%s'" % l, rep); continue
            A = sorted(((dot(f, W), y, f) for y, f in D), key=lambda z: -z[0]); best = A[0][0]; c.count("derivations", len(A)); c.dist("nontrivial", hash(str(A)))
            c.expect(any(near(s, best, 1e-6, 1e-6) and " ".join(y) == l for s, y, _ in A), "best", lambda: "printed '%s', best is %s" % (l, A[:2]), rep)
            if not c.expect(len(got) == min(K, len(A)), "number", "%d derivations, -k %d, %d listed" % (len(A), K, len(got)), rep): continue
            c.expect(not W or all(near(g[0], a[0], 2e-5, 2e-5) for g, a in zip(got, A)), "scores", lambda: "scores %s, expected %s" % ([g[0] for g in got][:9], [a[0] for a in A][:9]), rep); free = Counter(); key = lambda s, y, f: (y,) if coll else (y, tuple(sorted((n, "%.4f" % (v + 0)) for n, v in f.items() if abs(v) > 1e-6)))
            for a in A: free[key(*a)] += 1
            for s, y, f in got:
                z = key(s, y, f)
                if not c.expect(free[z] > 0, "derivation", lambda: "'%s' with %s is not a (further) derivation" % (" ".join(y), f), rep): break
                free[z] -= 1; c.count("derivations compared"); c.expect(not W or near(s, f.get("Reordering", 0) if coll else dot(f, W), 5e-5, 5e-5), "score", lambda: "'%s' scores %s, its features %s" % (" ".join(y), s, f), rep)
    N = c.n(int(os.environ.get("NN", 600)), 20000)
    with ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(one, k) for k in range(N)]: f.result()
    c.finish()
