import itertools, math, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import dump, fmap
from checks.d11 import same
from checks.d09 import add, feats, lattice, Many
import checks.d12 as d12
TECHNIQUE = "offline oracle over recorded executions: every derivation of the forests written by coarse-to-fine decoding compared, as multisets with source, translation and features, with an independent parser's coarse forest, its edges outside the beam removed by their max-marginals, refined rule by rule, over all levels, widenings and the fall-back to the full forest; under ASan+UBSan"
NOTE = "Held on the runs made: one or two projections, up to 7 words or lattice nodes, fine forests of up to 3000 derivations, beams from 0.01 to 30. Runs with a margin too close to the beam's edge to be told by double arithmetic are not judged."
build = d12.build
LIM = 3000
class Close(Exception): pass
class Rule:
    def __init__(self, line):
        p = [z.strip() for z in line.split("|||")]; self.lhs = p[0][1:-1]; self.f = p[1].split(); self.e = p[2].split(); self.fe = feats(p[3]); self.fine = []; self.text = line
    def gaps(self): return [z[1:-1].split(",")[0] for z in self.f if z.startswith("[")]
def parse(rules, lat, words, pt, glue):
    """coarse forest {node: [(edge key, rule, child nodes, lattice features)]} for nodes (category, i, j)"""
    n = len(lat); rs = list(rules)
    if pt:
        for w in sorted({w for a in lat for w, d, c in a}): rs.append(Rule("[X] ||| %s ||| %s ||| PassThrough=1" % (w, w)))
    memo = {}; lefts = {}
    for r in rs: lefts.setdefault(r.lhs, []).append(r)
    def spans(r, k, i, j):
        """ways to read r.f[k:] from i to j: (path, child nodes, lattice features)"""
        if k == len(r.f):
            if i == j: yield ((), (), {})
            return
        z = r.f[k]
        if z.startswith("["):
            for m in range(i + 1, j + 1):
                if j - m < len(r.f) - k - 1 and not lattice_: break
                nd = (z[1:-1].split(",")[0], i, m)
                if not node(nd): continue
                for p, c, l in spans(r, k + 1, m, j): yield (p, (nd,) + c, l)
        elif i < j:
            for q, (w, d, cost) in enumerate(lat[i]):
                if w == z and i + d <= j:
                    for p, c, l in spans(r, k + 1, i + d, j): yield ((q,) + p, c, add(cost, l))
    lattice_ = any(d != 1 for a in lat for w, d, c in a)
    def node(nd):
        if nd in memo: return memo[nd]
        out = memo[nd] = []; cat, i, j = nd
        for q, r in enumerate(lefts.get(cat, [])):
            for p, c, l in spans(r, 0, i, j): out.append(((nd, q, p, c), r, c, l))
        if cat == "S" and glue:
            one, two = glue
            if node(("X", i, j)): out.append(((nd, "g1"), one, (("X", i, j),), {}))
            if i == 0:
                for m in range(1, j):
                    if node(("S", 0, m)) and node(("X", m, j)): out.append(((nd, "g2", m), two, (("S", 0, m), ("X", m, j)), {}))
        return out
    top = ("S", 0, n)
    return top if node(top) else None, memo
def reach(top, F):
    out = []; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        for e in F[x]:
            for c in e[2]: go(c)
        out.append(x)
    go(top); return out
def margins(top, F, w):
    order = reach(top, F); ins = {}; outs = {x: -1e300 for x in order}; dot = lambda e: sum(v * w.get(a, 0) for a, v in add(e[1].fe, e[3]).items())
    for x in order: ins[x] = max(dot(e) + sum(ins[c] for c in e[2]) for e in F[x])
    outs[top] = 0; mm = {}
    for x in reversed(order):
        for e in F[x]:
            t = dot(e) + sum(ins[c] for c in e[2]); mm[e[0]] = outs[x] + t - ins[top]
            for c in e[2]: outs[c] = max(outs[c], outs[x] + t - ins[c])
    return mm
def refine(top, F, keep, lh):
    """forest of the next level, nodes (coarse node, fine category)"""
    out = {}; cats = {}
    for x in reach(top, F):
        for e in F[x]:
            if keep is not None and e[0] not in keep: continue
            for q, r in enumerate(e[1].fine):
                kids = tuple((c, g) for c, g in zip(e[2], r.gaps()))
                if all(k in out for k in kids): out.setdefault((x, r.lhs), []).append(((q, e[0], kids), r, kids, e[3]))
    t = (top, "S"); return (t, out) if t in out else (None, None)
def ctf(top, F, w, alpha, levels, widen, times, exhaustive, st):
    a = alpha
    for i in range(times + 1):
        t, f = top, F
        for _ in range(levels):
            mm = margins(t, f, w); cut = min(-a, -1e-6); eps = 1e-5 + a * 3e-6 * (len(mm) + 10)
            if any(abs(m - cut) < eps and m < -1e-9 for m in mm.values()) : raise Close()
            if eps > a / 2 and any(-1e-9 > m > cut - 2 * eps for m in mm.values()): raise Close()
            keep = {k for k, m in mm.items() if m >= cut}; st["edges pruned"] = st.get("edges pruned", 0) + len(mm) - len(keep)
            t, f = refine(t, f, keep, None)
            if t is None: break
        if t is not None: st["beam"] = i; return t, f
        a *= widen
    if not exhaustive: st["beam"] = "fail"; return None, None
    t, f = top, F; st["beam"] = "full"
    for _ in range(levels):
        t, f = refine(t, f, None, None)
        if t is None: st["beam"] = "fail"; return None, None
    return t, f
def derivations(top, F):
    memo = {}
    def rec(x):
        if x in memo: return memo[x]
        out = []
        for key, r, kids, l in F[x]:
            opts = [rec(k) for k in kids]; n = 1
            for o in opts: n *= len(o)
            if n + len(out) > LIM: raise Many()
            for ch in itertools.product(*opts):
                it = iter(ch); f = []; e = []
                for z in r.f: f += next(it)[0] if z.startswith("[") else [z]
                for z in r.e: m = re.fullmatch(r"\[(\d+)\]", z); e += ch[int(m.group(1)) - 1][1] if m else [z]
                out.append((f, e, add(r.fe, l, *[q[2] for q in ch])))
        memo[x] = out; return out
    return rec(top)
def main():
    c = vf.Check("D16", "sentence decoded coarse to fine and compared, distinct by grammar and sentence")
    e = build()
    def one(k):
        r = random.Random(c.seed * 86028121 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d + "/A"); P = lambda n: os.path.join(d, n); levels = r.choice([1, 1, 2])
        sv, tv = r.randint(1, 4), r.randint(1, 5); nts = r.choice([["X"], ["X", "A"]]); src = ["f%d" % i for i in range(sv)]; rules = []; files = []
        glue = r.random() < .7
        def finer(cat, dense): return cat if cat in "S" or r.random() < dense else cat + r.choice("ab")
        dense = r.choice([.3, .6, .9])
        def expand(rule, lv):
            for _ in range(r.choice([1, 1, 2, 3])):
                f = [("[%s,%s" % (finer(z[1:-1].split(",")[0], dense), z.split(",")[1]) if z.startswith("[") else z) for z in rule.f]
                x = Rule("[%s] ||| %s ||| %s ||| %s" % (finer(rule.lhs, dense), " ".join(f), " ".join(rule.e), G.features(r))); rule.fine.append(x)
                if lv > 1: expand(x, lv - 1)
        def show(rule, ind): return " " * ind + rule.text + "\n" + "".join(show(x, ind + 1) for x in rule.fine)
        opt = ["-f", "scfg"]
        for gi in range(r.choice([1, 1, 2])):
            L = [Rule(l) for l in G.grammar(r, sv, tv, nts, "S", r.randint(2, 10))]
            if not glue: L += [Rule("[S] ||| [%s,1] ||| [1] ||| %s" % (r.choice(nts), G.features(r)))]
            L = [x for x in L if not (len(x.f) == 1 and x.f[0].startswith("[") and x.lhs != "S") and "[S" not in " ".join(x.f)]
            if not L: return
            for x in L: expand(x, levels)
            open(P("g%d" % gi), "w").write("".join(show(x, 0) for x in L)); opt += ["-g", P("g%d" % gi)]; rules += L
        if not glue: opt.append("-n"); gl = None
        else:
            gl = (Rule("[S] ||| [X,1] ||| [1] ||| "), Rule("[S] ||| [S,1] [X,2] ||| [1] [2] ||| Glue=1"))
            for z in gl: z.fine = [z]
        pt = r.random() < .5; opt += ["-P"] if pt else []; w = G.weights(r, P("w"), ["PassThrough", "LatticeCost_1"])
        alpha = round(r.choice([r.uniform(.01, 1), r.uniform(.5, 6), 30]), 3); widen = r.choice([1.5, 2.0, 4.0]); times = r.choice([0, 1, 2, 2, 3]); exh = r.random() < .6
        opt += ["--coarse_to_fine_beam_prune", str(alpha), "--ctf_beam_widen", str(widen), "--ctf_num_widenings", str(times)] + ([] if exh else ["--ctf_no_exhaustive"])
        lines, want, sts = [], [], []
        for _ in range(r.randint(1, 4)):
            s = G.sentence(r, src, r.choice([3, 5, 7]), .03)
            if r.random() < .3:
                nc = r.choice([1, 1, 2]); lat = [[(x, dd, [-round(r.random(), 3) for _ in range(nc)]) for x, dd in dict.fromkeys(a)] for a in lattice(r, s)]
                line = "(" + ",".join("(" + "".join("('%s',%s,%d)," % (x, ",".join(map(str, q)), dd) for x, dd, q in a) + ")" for a in lat) + ",)"; lat = [[(x, dd, {"LatticeCost_%d" % z: y for z, y in enumerate(q)}) for x, dd, q in a] for a in lat]
            else: lat = [[(x, 1, {})] for x in s]; line = " ".join(s)
            rs = rules
            if pt: pass
            try:
                top, F = parse(rules, lat, s, pt, gl); st = {}
                if top is not None:
                    for es in F.values():
                        for z in es:
                            if not z[1].fine:  # pass-through rules refine to themselves
                                z[1].fine = [z[1]]
                    t, f = ctf(top, F, w, alpha, levels, widen, times, exh, st); x = derivations(t, f) if t is not None else []
                else: x = []; st["beam"] = "coarse"
            except (Many, Close): continue
            lines.append(line); want.append([(" ".join(z[1]) + "/" + " ".join(z[0]), z[2], 0) for z in x]); sts.append(st)
        if not lines: return
        txt = "".join(l + "\n" for l in lines); cmd = [e["cdec"]] + opt + ["-w", P("w")]
        rep = dict({f: vf.text(P(f)) for f in os.listdir(d) if os.path.isfile(P(f))}, input=txt, cmd=" ".join(cmd)); E = lambda ok, key, msg: c.expect(ok, key, msg, rep)
        x = c.run(cmd + ["-k", "1", "-O", P("A")], stdin=txt.encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=rep)
        if x is None: return
        files = {i: P("A/%d.bin.gz" % i) for i in range(len(lines)) if os.path.exists(P("A/%d.bin.gz" % i))}; dd = dump(c, e["hgdump"], list(files.values())) if files else {}
        if dd is None: return
        c.count("cases"); blocks = re.split(r"\nINPUT: .*\n  id = ", x.stderr.decode())[1:]
        if not E(len(blocks) == len(lines), "sentences", "%d sentences decoded of %d" % (len(blocks), len(lines))): return
        for i, wn in enumerate(want):
            failed = "NO PARSE FOUND" in blocks[i]; what = "sentence %d '%s' (%s): " % (i, lines[i], sts[i])
            c.count({"fail": "sentences without fine parse", "full": "sentences refined without pruning", "coarse": "sentences without coarse parse", 0: "sentences parsed in the first beam"}.get(sts[i]["beam"], "sentences parsed in a wider beam"))
            if not wn: E(failed, "unlicensed", what + "has output, but none is licensed"); continue
            if not E(not failed and i in files, "missing", what + "has no output, %d licensed, e.g. %s" % (len(wn), wn[0])): continue
            f = dd[files[i]]; got = [(z[0] + "/" + z[1], z[2], 0) for z in f["d"]]
            if f["n"] > LIM: E(False, "derivations", what + "%g derivations, %d licensed" % (f["n"], len(wn))); continue
            why = same(got, wn) or same(wn, got); E(why is None, "derivations", what + "forest and licensed derivations: " + str(why)); c.count("sentences compared"); c.count("derivations compared", len(wn)); c.count("coarse edges outside the beam", sts[i].get("edges pruned", 0)); c.dist("nontrivial", hash((lines[i], rep.get("g0")))); c.sample("%s '%s': %d derivations" % (" ".join(opt), lines[i], len(wn)))
            if lines[i].startswith("("): c.count("lattices compared")
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(600, 16000))))
    c.finish()
