import itertools, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import dump
from checks.d11 import same
from checks.d09 import add, feats, product, Many, LIM
import checks.d12 as d12
TECHNIQUE = "offline oracle over recorded executions: every derivation of the forests written by tree-to-string decoding compared, as multisets with source, translation and features, with an independent matcher's enumeration of the ways to cover each input tree with the grammars' fragments, over sequences of sentences with changing per-sentence grammars and with pass-through rules; under ASan+UBSan"
NOTE = "Held on the runs made: trees of up to 40 nodes with up to 4000 licensed derivations, up to four grammars at once, fragments cut from the trees and altered ones. The not yet implemented multi-state transducers are not judged."
build = d12.build
LABELS = ["S", "NP", "VP", "NN", "DT", "NP-SBJ", ",", ".", "PRP$", "S|<NP-VP>", "''", "X1", ":"]
def text(t): return "(" + t[0] + "".join(" " + (text(x) if isinstance(x, tuple) else x) for x in t[1]) + ")"
def tree(r, labels, words, depth, l=None):
    n = r.choice([1, 1, 2, 2, 3, 4] if depth > 1 else [1, 1, 1, 2])
    return (l or r.choice(labels), [tree(r, labels, words, depth - 1) if depth > 1 and r.random() < .7 else r.choice(words) for _ in range(n)])
def nodes(t): return [t] + [y for x in t[1] if isinstance(x, tuple) for y in nodes(x)]
def cut(r, t, p):
    return (t[0], [x if isinstance(x, str) else cut(r, x, p) if r.random() < p else "[%s]" % x[0] for x in t[1]])
def alter(r, t, labels, words):
    """a fragment of the same symbols in another structure, or with a symbol changed"""
    ns = nodes(t); x = r.choice(ns); kids = x[1]; how = r.randrange(5)
    if how == 0 and len(ns) > 1:  # a node's last child becomes its parent's
        for y in ns:
            for i, z in enumerate(y[1]):
                if isinstance(z, tuple) and len(z[1]) > 1: y[1].insert(i + 1, z[1].pop()); return t
    elif how == 1:  # a sibling to the right of a node becomes the node's last child
        for y in ns:
            for i, z in enumerate(y[1][:-1]):
                if isinstance(z, tuple): z[1].append(y[1].pop(i + 1)); return t
    elif how == 2: kids.insert(r.randint(0, len(kids)), r.choice(words))
    elif how == 3 and len(kids) > 1: kids.pop(r.randrange(len(kids)))
    elif how == 4: i = r.randrange(len(kids)); kids[i] = r.choice([r.choice(words), "[%s]" % r.choice(labels)])
    return t
def frontier(t): return [y for x in t[1] for y in ([x[1:-1]] if isinstance(x, str) and re.fullmatch(r"\[\S+\]", x) else frontier(x) if isinstance(x, tuple) else [])]
def fits(frag, t):
    """the subtrees at the fragment's frontier, or None"""
    if frag[0] != t[0] or len(frag[1]) != len(t[1]): return None
    out = []
    for a, b in zip(frag[1], t[1]):
        if isinstance(a, str) and re.fullmatch(r"\[\S+\]", a):
            if isinstance(b, str) or b[0] != a[1:-1]: return None
            out.append(b)
        elif isinstance(a, str):
            if a != b: return None
        else:
            s = fits(a, b) if isinstance(b, tuple) else None
            if s is None: return None
            out += s
    return out
def source(t):
    out = []
    for x in t[1]: out += source(x) if isinstance(x, tuple) else [x]
    return out
def derive(rules, t):
    memo = {}
    def rec(x):
        if id(x) in memo: return memo[id(x)]
        out = []
        for frag, tgt, fe in rules:
            subs = fits(frag, x)
            if subs is None: continue
            opts = [rec(s) for s in subs]; k = 1
            for o in opts: k *= len(o)
            if len(out) + k > LIM: raise Many()
            for ch in itertools.product(*opts):
                e = []
                for y in tgt: e += ch[y][0] if isinstance(y, int) else [y]
                out.append((e, add(fe, *[q[1] for q in ch])))
        memo[id(x)] = out; return out
    return rec(t)
def rule(r, frag, tgt):
    n = len(frontier(frag)); t = list(range(n))
    if r.random() < .6: r.shuffle(t)
    for _ in range(r.choice([0, 0, 1, 2]) if n else r.randint(1, 2)): t.insert(r.randint(0, len(t)), r.choice(tgt))
    return (frag, t, G.features(r) or "FA=1")
def write(r, path, rows):
    with open(path, "w") as f:
        for frag, t, s in rows:
            if r.random() < .05: f.write(r.choice(["", "# (S x) ||| a ||| R=1"]) + "\n")
            f.write("%s ||| %s ||| %s%s\n" % (text(frag), " ".join("[%d]" % (x + 1) if isinstance(x, int) else x for x in t), s, r.choice(["", "", " ||| 0-0"])))
def copy(t): return (t[0], [copy(x) if isinstance(x, tuple) else x for x in t[1]])
def pools(rows): return [(a, b, feats(s)) for a, b, s in rows]
def passthrough(t, others):
    """a rule for each production of the tree, unless it is abstract and another grammar has it word for word"""
    seen = set(); out = []
    for x in nodes(t):
        frag = cut(random, x, 0); key = text(frag)
        if key in seen: continue
        seen.add(key); lex = any(isinstance(y, str) for y in x[1]); nt = any(isinstance(y, tuple) for y in x[1]); k = itertools.count(); tgt = [y if isinstance(y, str) else next(k) for y in x[1]]
        if nt and not lex and any(text(a) == key and b == tgt for a, b, _ in others): continue
        out.append((frag, tgt, {"PassThrough:" + x[0]: 1.0, "PassThrough": 1.0, "PassThrough_Mix" if lex and nt else "PassThrough_Lexical" if lex else "PassThrough_Abstract": 1.0}))
    return out
def main():
    c = vf.Check("D15", "tree whose derivations were compared, distinct by configuration and tree")
    e = build()
    def one(k):
        r = random.Random(c.seed * 49979687 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d + "/A"); P = lambda n: os.path.join(d, n)
        labels = r.sample(LABELS, r.choice([1, 2, 3, 5, 9])); src = ["f%d" % i for i in range(r.choice([1, 2, 5]))] + r.sample([",", ".", "'s", "[]", "\u00e4"], r.randint(0, 2)); tgt = ["e%d" % i for i in range(r.randint(1, 4))]
        trees = [tree(r, labels, src, r.choice([1, 2, 3, 3, 4])) for _ in range(r.randint(1, 5))]
        if r.random() < .3: trees.append(copy(trees[0]))
        def grammar(ts, full):
            rows = []
            for t in ts:
                for x in nodes(t):
                    for _ in range(r.choice([0, 1, 1, 2])):
                        f = cut(r, x, r.choice([0, .3, .6, 1]))
                        if r.random() < .25: f = alter(r, copy(f), labels, src)
                        if r.random() < .5 or full: rows.append(rule(r, f, tgt))
                    if r.random() < (.85 if full else .2): rows.append(rule(r, cut(r, x, 0), tgt))
                    if r.random() < .1: f = cut(r, x, 0); rows.append((f, [i for i, _ in enumerate(frontier(f))] or [r.choice(tgt)], G.features(r) or "FA=1"))
            r.shuffle(rows); rows = rows[:r.choice([4, 25, 60])] if not full else rows
            if rows and r.random() < .2: rows.append(r.choice(rows))
            return rows
        pt = r.random() < .4; opt = ["-f", "t2s"] + (["-P"] if pt else []); base = []
        for i in range(r.choice([0, 1, 1, 2]) if pt else r.choice([1, 1, 1, 2])):
            g = grammar(trees, r.random() < .7); write(r, P("g%d" % i), g); opt += ["-g", P("g%d" % i)]; base += g
        own = r.random() < .3 or not base; extra = []; lines = []; want = []; keep = []
        for i, t in enumerate(trees):
            mine = []; attr = ""
            if own:
                for j in range(r.choice([0, 1, 1, 2])):
                    n = "s%d_%d" % (i, j); g = grammar([t] if r.random() < .7 else trees, r.random() < .5); write(r, P(n), g); attr += ' grammar%s="%s"' % (j or "", P(n)); mine += g
            rules = pools(base + mine)
            if pt: rules += passthrough(t, rules)
            try: x = derive(rules, t)
            except Many: continue
            ref = r.choice(x)[0] if x and r.random() < .1 else None
            if ref is not None and (len(ref) > 12 or not ref): ref = None
            if ref is not None: x = [z for z in x if z[0] == ref]
            s = text(t) + (" ||| " + " ".join(ref) if ref is not None else "")
            if attr or r.random() < .1: s = "<seg%s> %s </seg>" % (attr, s)
            want.append([(" ".join(source(t)) + "/" + " ".join(z[0]) if ref is not None else " ".join(z[0]) + "/" + " ".join(source(t)), z[1], 0) for z in x]); lines.append(s); keep.append(t)  # references are read from target to source
        if not lines: return
        G.weights(r, P("w"), ["PassThrough", "PassThrough_Lexical"]); txt = "".join(l + "\n" for l in lines); cmd = [e["cdec"]] + opt + ["-w", P("w")]
        rep = dict({f: vf.text(P(f)) for f in os.listdir(d) if os.path.isfile(P(f))}, input=txt, cmd=" ".join(cmd)); E = lambda ok, key, msg: c.expect(ok, key, msg, rep)
        x = c.run(cmd + ["-k", "1", "-O", P("A")], stdin=txt.encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=rep)
        if x is None: return
        files = {i: P("A/%d.bin.gz" % i) for i in range(len(lines)) if os.path.exists(P("A/%d.bin.gz" % i))}; dd = dump(c, e["hgdump"], list(files.values())) if files else {}
        if dd is None: return
        c.count("cases"); blocks = re.split(r"\nINPUT: .*\n  id = ", x.stderr.decode())[1:]
        if not E(len(blocks) == len(lines), "sentences", "%d sentences decoded of %d" % (len(blocks), len(lines))): return
        for i, w in enumerate(want):
            failed = "NO PARSE FOUND" in blocks[i]; what = "sentence %d '%s': " % (i, lines[i])
            if not w: E(failed, "unlicensed", what + "has output, but none is licensed"); c.count("trees without licensed derivation"); continue
            if not E(not failed and i in files, "missing", what + "has no output, %d licensed, e.g. %s" % (len(w), w[0])): continue
            f = dd[files[i]]; got = [(z[0] + "/" + z[1], z[2], 0) for z in f["d"]]
            if f["n"] > LIM: E(False, "derivations", what + "%g derivations, %d licensed" % (f["n"], len(w))); continue
            why = same(got, w) or same(w, got); E(why is None, "derivations", what + "forest and licensed derivations: " + str(why)); c.count("trees compared"); c.count("derivations compared", len(w)); c.dist("nontrivial", hash((str(opt), lines[i], rep.get("g0")))); c.sample("%s '%s': %d derivations" % (" ".join(opt), lines[i], len(w)))
            if "<seg grammar" in lines[i]: c.count("trees with grammars of their own")
            if " ||| " in lines[i]: c.count("trees decoded to a reference")
            if pt: c.count("trees with pass-through rules")
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(400, 12000))))
    c.finish()
