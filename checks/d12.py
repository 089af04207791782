import math, os, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
TECHNIQUE = "online oracle over recorded executions: k-best lists, unique lists, one-best translations, partitions, expected lengths, constrained decodings, conditional probabilities and feature expectations printed by the decoder compared with every derivation of the forests the same runs wrote, by their definitions; forests rescored from disk compared with the run that wrote them; under ASan+UBSan"
NOTE = "Held on the runs made: synchronous grammars with up to 4000 derivations per sentence, words and lattices, up to two rescoring passes. Values are judged to the six digits printed; entries tied to that precision may come in any order."
def build():
    b = vf.Builder("asan"); g = ["decoder", "utils", "mteval"]
    return {"cdec": b.program("cdec", [vf.R("decoder/cdec.cc")], g + ["klm", "klm_util", "ksearch"]), "hgdump": b.program("hgdump", [vf.H("hgdump.cc")], g)}
def fmap(s): return {k: float(v) for k, v in (x.rsplit("=", 1) for x in re.split(r"[; ]", s) if x)}
def logs(s):
    """vectors printed as text hold the logarithms of their values' magnitudes, after a mark of the sign"""
    out = {}
    for x in re.split(r"[; ]", s):
        if not x: continue
        k, v = x.rsplit("=", 1); out[k] = float(v) if k == "**OBJ**" else -math.exp(float(v[3:])) if v.startswith("(-)") else math.exp(float(v))
    return out
def lse(v):
    m = max(v); return m + math.log(sum(math.exp(x - m) for x in v))
def near(a, b, rel=2e-5, ab=2e-5): return a == b or abs(a - b) <= ab + rel * max(abs(a), abs(b))
def dot(f, w): return sum(v * w.get(k, 0) for k, v in f.items())
def mass(f, w): return sum(abs(v * w.get(k, 0)) for k, v in f.items())
def rnd(f): return tuple(sorted((k, "%.4g" % v) for k, v in f.items() if abs(v) > 1e-9))
def samef(a, b): return all(near(a.get(k, 0), b.get(k, 0), 1e-5, 1e-6) for k in set(a) | set(b))
def kbest(text):
    out = {}
    for l in text.split("\n"):
        f = l.split(" ||| ")
        if len(f) == 4 and f[0].isdigit(): out.setdefault(int(f[0]), []).append((f[1].strip(), fmap(f[2]), float(f[3])))
    return out
def dump(c, exe, files, ids=False):
    x = c.run([exe] + ["-e"] * ids + files); out = {}; cur = None
    if x is None: return None
    for l in x.stdout.decode().split("\n")[:-1]:
        f = l.split("\t")
        if f[0] == "#": cur = out[f[1]] = {"nodes": int(f[2]), "edges": int(f[3]), "n": float(f[4]), "d": []}
        elif len(f) > 2: cur["d"].append((f[0], f[1], fmap(f[2]), f[3]))
    return out
def grow(rules, root):
    """all derivations of a context-free grammar {lhs: [(list of symbols to read, list of symbols to write, features)]}; gaps are (category, number) and numbers"""
    memo = {}
    def rec(x):
        if x in memo: return memo[x]
        memo[x] = []; out = []
        for f, e, fe in rules.get(x, []):
            acc = [([], {})]
            gaps = [z for z in f if isinstance(z, tuple)]
            acc = [[]]
            for z in gaps:
                acc = [a + [q] for a in acc for q in rec(z[0])]
                if len(acc) > 10000: raise OverflowError()
            for a in acc:
                sub = {z[1]: q for z, q in zip(gaps, a)}; m = dict(fe)
                for q in a:
                    for kk, v in q[2].items(): m[kk] = m.get(kk, 0) + v
                side = lambda y, w: " ".join(t for t in ((z if isinstance(z, str) else sub.get(z[1] if isinstance(z, tuple) else z, ("[?]", "[?]"))[w]) for z in y) if t)
                out.append((side(f, 0), side(e, 1), m))
            if len(out) > 30000: raise OverflowError()
        memo[x] = out; return out
    return rec(root)
def cfg(text):
    rules = {}
    for l in text.split("\n"):
        p = l.split(" ||| ")
        if len(p) < 3 or not p[0].startswith("["): continue
        f = []
        for z in p[1].split(): m = re.fullmatch(r"\[(\S+_\d+)\]", z); f.append((m.group(1), 1 + sum(isinstance(q, tuple) for q in f)) if m else z)
        e = [int(z[1:-1]) if re.fullmatch(r"\[\d+\]", z) else z for z in p[2].split()]; rules.setdefault(p[0][1:-1], []).append((f, e, fmap(p[3]) if len(p) > 3 else {}))
    return rules
def match(entries, all_, k, score=None):
    """entries: the k best of all_ (pairs of (yield, features, score)); returns what is wrong, or None"""
    n = min(k, len(all_))
    if len(entries) != n: return "%d entries, %d derivations, k=%d" % (len(entries), len(all_), k)
    ref = sorted(all_, key=lambda z: -z[2])
    for i, (a, b) in enumerate(zip(entries, ref)):
        if not near(a[2], b[2]): return "entry %d scores %g, number %d of the derivations %g" % (i, a[2], i, b[2])
    left = {}
    for z in ref: left.setdefault(z[0], []).append(z)
    for i, a in enumerate(entries):
        c = left.get(a[0], []); j = next((j for j, z in enumerate(c) if near(a[2], z[2]) and samef(a[1], z[1])), None)
        if j is None: return "entry %d ('%s', score %g) is no derivation, or comes too often" % (i, a[0], a[2])
        c.pop(j)
    return None
def main():
    c = vf.Check("D12", "decoded sentence, distinct by configuration and forest")
    e = build()
    def one(k):
        r = random.Random(c.seed * 86028121 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d + "/A"); P = lambda n: os.path.join(d, n)
        opt, src, tgt, nts = G.scfg(r, d); w = G.weights(r, P("w")); passes = []; F = []; lm = False
        ff = r.sample(G.STATELESS + G.STATEFUL, r.choice([0, 0, 1, 2, 3]))
        if any(",3]" in vf.text(P(n2)) for n2 in ("g", "g2") if os.path.exists(P(n2))): ff = [f for f in ff if f != "RuleShape"]  # shapes of at most two gaps
        if r.random() < .35: G.arpa(r, P("lm"), tgt, r.randint(2, 4)); ff.append("KLanguageModel " + P("lm")); w["LanguageModel"] = round(r.uniform(0, 1), 3)
        if r.random() < .3:
            for z in list(w): w[z] = w[z] * r.choice([.2, 3])
        open(P("w"), "w").write("".join("%s %.10g\n" % z for z in w.items()))
        for f in ff: F += ["-F", f]
        if ff and r.random() < .3: F += ["-I", r.choice(["full", "full", "fast_cube_pruning", "fast_cube_pruning_2"])]
        if ff and r.random() < .5: F += ["-K", str(r.choice([5, 30, 1000]))]
        last = w; two = r.random() < .2 and ff
        if two:
            last = {z: round(r.uniform(-1.5, 1.5), 4) for z in w if r.random() < .8}; open(P("w2"), "w").write("".join("%s %.10g\n" % z for z in last.items())); F += ["--weights2", P("w2")]
            if r.random() < .5: F += ["--feature_function2", r.choice(G.STATELESS)]
        prune = r.random() < .2
        if prune: F += [r.choice(["--beam_prune", "--density_prune"]), str(r.choice([1, 1.5, 4, 20]))]
        if r.random() < .1 and ff: F += ["--summary_feature", "Summary", "--summary_feature_type", r.choice(["node_risk", "edge_risk"])]
        n = r.randint(1, 5); K = r.choice([1, 2, 10, 100, 5000]); ins = []; ids = []; nxt = -1
        for i in range(n):
            s = G.sentence(r, src, r.choice([3, 5, 7])); t = G.plf(r, s) if r.random() < .15 else " ".join(s); nxt += 1
            if r.random() < .2: nxt = nxt + r.randint(0, 50); t = '<seg id="%d"> %s </seg>' % (nxt, t)
            ids.append(nxt); ins.append(t)
        text = "".join(t + "\n" for t in ins); text = text[:-1] if r.random() < .2 else text; rep = {n2: vf.text(P(n2)) for n2 in ("g", "g2", "w", "w2", "lm") if os.path.exists(P(n2))}; base = [e["cdec"]] + opt + F + ["-w", P("w")]; rep.update(input=text, cmd=" ".join(base))
        E = lambda ok, key, msg: c.expect(ok, key, msg, rep); run = lambda a, t, **q: c.run(base + a, stdin=t.encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=dict(rep, input=t, cmd=" ".join(base + a)), **q)
        x = run(["-k", str(K), "-z", "-O", P("A"), "--show_expected_length"], text)
        if x is None: return
        got = kbest(x.stdout.decode()); err = x.stderr.decode(); blocks = re.split(r"\nINPUT: .*\n  id = ", err)[1:]
        if not E(len(blocks) == n and [int(b.split("\n")[0]) for b in blocks] == ids, "ids", "sentences %s, decoded %s" % (ids, [b.split("\n")[0] for b in blocks])): return
        files = {i: P("A/%d.bin.gz" % i) for i in ids if os.path.exists(P("A/%d.bin.gz" % i))}; D = dump(c, e["hgdump"], list(files.values())) if files else {}
        if D is None: return
        c.count("cases"); c.count("sentences decoded", n); ok = {}; srcy = {}
        for i, b in zip(ids, blocks):
            failed = "NO PARSE FOUND" in b; E(failed == (i not in files) and failed == (i not in got), "failure", "sentence %d: %s" % (i, "fails, but has output" if failed else "has a forest or k-best list missing"))
            if failed: c.count("sentences without translation"); continue
            if i not in files or i not in got: continue
            f = D[files[i]]; g = got[i]; sc = [z[2] for z in g]
            for y, fe, s in g: E(near(s, dot(fe, last), 1e-5, 1e-5 + 1e-5 * mass(fe, last)), "score", "'%s' scores %g, its features %g" % (y, s, dot(fe, last)))
            E(all(a >= b2 - 1e-5 * (1 + abs(a)) for a, b2 in zip(sc, sc[1:])), "order", "sentence %d: %s" % (i, sc[:20])); c.count("k-best entries", len(g))
            z = [float(q) for q in re.findall(r"artition     log\(Z\): (\S+)", b)] or [float(q) for q in re.findall(r"Partition +log\(Z\): (\S+)", b)]
            E(z and sc[0] <= z[-1] + 1e-5 * (1 + abs(z[-1])), "partition:best", "sentence %d: best %g, log partition %s" % (i, sc[0], z))
            if f["n"] > 4000: continue
            al = [(y, fe, dot(fe, last)) for y, _, fe, _ in f["d"]]; ok[i] = al; srcy[i] = [q[1] for q in f["d"]]; c.dist("nontrivial", hash((text, str(opt), str(F), i))); c.count("derivations", len(al)); c.sample("%s: %d derivations, best '%s' %g" % (" ".join(F), len(al), g[0][0], sc[0]))
            why = match(g, al, K, last); E(why is None, "kbest", "sentence %d: %s" % (i, why)); t = lse([q[2] for q in al])
            if z: E((t <= z[-1] + 1e-5 * (1 + abs(t))) if prune else near(t, z[-1], 1e-5), "partition", "sentence %d: log partition %g, the %d derivations of its forest sum to %g" % (i, z[-1], len(al), t)); c.count("partitions compared")
            m = re.search(r"Expected length  \(words\): (\S+)", b)
            if m and not ff and not two and not prune: ex = sum(math.exp(q[2] - t) * len(q[0].split()) for q in al); E(near(float(m.group(1)), ex, 1e-4, 1e-4), "length", "sentence %d: expected length %s, by definition %g" % (i, m.group(1), ex)); c.count("expected lengths compared")
        if not ok: return
        what = r.sample(["one", "unique", "refs", "refs", "rescore", "expect", "cfg", "graph"], 3)
        if "one" in what:
            x = run([], text)
            if x:
                l = x.stdout.decode().split("\n")[:-1]; E(len(l) == n, "one:lines", "%d lines for %d sentences" % (len(l), n))
                for i, t in zip(ids, l):
                    if i not in got: E(not t, "one:failed", t)
                    elif i in ok: E(any(y == t.strip() and near(s, got[i][0][2]) for y, _, s in ok[i]), "one:best", "sentence %d: '%s' is not best, which is '%s' %g" % (i, t, got[i][0][0], got[i][0][2])); c.count("one-best translations")
        if "unique" in what:
            x = run(["-k", str(K), "-r"], text)
            if x:
                u = kbest(x.stdout.decode())
                for i in ok:
                    best = {}
                    for z in ok[i]:
                        if z[0] not in best or z[2] > best[z[0]][2]: best[z[0]] = z
                    g = u.get(i, []); ref = sorted(best.values(), key=lambda z: -z[2]); E(len({z[0] for z in g}) == len(g), "unique:twice", "sentence %d: a translation comes twice" % i)
                    E(len(g) == min(K, len(ref)) and all(near(a[2], b2[2]) for a, b2 in zip(g, ref)), "unique", "sentence %d: scores %s, by definition %s" % (i, [z[2] for z in g][:8], [z[2] for z in ref][:8]))
                    for z in g: E(any(y == z[0] and near(s, z[2]) and samef(z[1], fe) for y, fe, s in ok[i]) and near(best.get(z[0], (0, 0, 1e9))[2], z[2]), "unique:entry", "sentence %d: '%s' %g" % (i, z[0], z[2])); c.count("unique entries")
        if "rescore" in what and not ff and not two and not prune:
            fs = list(ok); x = c.run([e["cdec"], "-f", "rescore", "-w", P("w"), "-k", str(K)], stdin="".join("::forest:: %s\n" % files[i] for i in fs).encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=rep)
            if x:
                u = kbest(x.stdout.decode())
                for j, i in enumerate(fs): why = match(u.get(j, []), ok[i], K, last); E(why is None, "rescored", "sentence %d read from its forest: %s" % (i, why)); c.count("forests rescored")
        if "cfg" in what:
            i = r.choice(list(ok)); x = run(["--show_cfg_search_space"], ins[ids.index(i)] + "\n")
            if x:
                rules = cfg(x.stdout.decode()); root = [z for z in rules if z.endswith("_%d" % (D[files[i]]["nodes"] - 1))]
                if E(len(root) == 1, "cfg:goal", "goals %s in %s" % (root, list(rules)[:20])): al = [(y + " / " + sy, fe, dot(fe, last)) for (y, fe, _), sy in zip(ok[i], srcy[i])]; g = sorted(((a + " / " + b, m, dot(m, last)) for a, b, m in grow(rules, root[0])), key=lambda z: -z[2]); why = match(g, al, 1 << 30, last); E(why is None, "cfg", "sentence %d: the search space printed as a grammar: %s" % (i, why)); c.count("search spaces printed as grammars")
        if "graph" in what and not ff and not two and not prune:
            os.makedirs(P("T")); i = r.choice(list(ok)); x = run(["--show_target_graph", P("T")], re.sub(r"<seg[^>]*>", '<seg id="%d">' % i, ins[ids.index(i)]) + "\n") if "<seg" in ins[ids.index(i)] else run(["--show_target_graph", P("T")], '<seg id="%d"> %s </seg>\n' % (i, ins[ids.index(i)]))
            if x:
                l = iter(vf.text(P("T/%d" % i)).split("\n")); nn, ne = map(int, next(l).split()); rules = {}; tot = 0
                for v in range(nn):
                    for _ in range(int(next(l))): a, b = next(l).split("||| "); tot += 1; f = [(int(z[1:-1]), q) if re.fullmatch(r"\[\d+\]", z) else z for q, z in enumerate(a.split())]; rules.setdefault(v, []).append((f, [], fmap(b)))
                E(tot == ne == D[files[i]]["edges"] and nn == D[files[i]]["nodes"], "graph:size", "%d edges, %d announced, %d in the forest" % (tot, ne, D[files[i]]["edges"])); g = grow(rules, nn - 1); E(sorted(z[0] for z in g) == sorted(z[0] for z in ok[i]), "graph", "sentence %d: the target graph has other translations than the forest: %s, %s" % (i, sorted(z[0] for z in g)[:5], sorted(z[0] for z in ok[i])[:5])); c.count("target graphs")
        if ("refs" in what or "expect" in what):
            refs = {}
            for i in ok: refs[i] = r.choice(ok[i])[0] if r.random() < .8 else " ".join(r.choice(tgt) for _ in range(r.randint(1, 4)))
            lines = []; idl = []
            for i, t in zip(ids, ins):
                if i in refs and refs[i]: body = re.sub(r"</?seg[^>]*>", "", t).strip(); lines.append('<seg id="%d"> %s ||| %s </seg>' % (i, body, refs[i])); idl.append(i)
            text2 = "".join(z + "\n" for z in lines)
            con = {i: [z for z in ok[i] if z[0] == refs[i]] for i in idl}
            if idl and "refs" in what:
                orig = r.random() < .5; x = run(["-k", str(K), "-z", "--show_conditional_prob"] + (["--remove_intersected_rule_annotations"] if orig else []), text2)
                if x:
                    u = kbest(x.stdout.decode()); other = [l for l in x.stdout.decode().split("\n")[:-1] if "|||" not in l]; bl = re.split(r"\nINPUT: .*\n  id = ", x.stderr.decode())[1:]
                    if E(len(other) == len(idl), "constrained:lines", "%d conditional probabilities for %d sentences: %s" % (len(other), len(idl), other)):
                        for i, cp, b in zip(idl, other, bl):
                            side = con[i] if orig else [(sy, fe, sc) for (y, fe, sc), sy in zip(ok[i], srcy[i]) if y == refs[i]]; why = match(u.get(i, []), side, K, last)  # constrained rules read from target to source
                            E(why is None, "constrained:annotated" if orig else "constrained", "sentence %d, reference '%s': %s" % (i, refs[i], why)); c.count("references reached" if con[i] else "references not reachable")
                            if con[i]:
                                t = lse([z[2] for z in con[i]]); v = t - lse([z[2] for z in ok[i]]); E(near(float(cp), v, 1e-4, 2e-5), "conditional", "sentence %d: log probability %s, by definition %g" % (i, cp, v)); q = re.search(r"Contst. partition  log\(Z\): (\S+)", b); E(q and near(float(q.group(1)), t, 1e-5), "constrained:partition", "sentence %d: %s, by definition %g" % (i, q and q.group(1), t))
                            else: E(cp == "-Inf", "conditional:unreachable", cp)
            if idl and "expect" in what:
                C = r.choice([1, 1, 2, 3]); x = run(["--feature_expectations", "--vector_format", "text", "-C", str(C)], text2)
                if x:
                    want = []; acc = {}; obj = 0; cnt = 0
                    for i in idl:
                        if not con[i]: continue
                        t = lse([z[2] for z in con[i]]); obj += t; cnt += 1
                        for y, fe, s in con[i]:
                            for kk, v in fe.items(): acc[kk] = acc.get(kk, 0) + v * math.exp(s - t)
                        if cnt % C == 0: want.append((obj, acc)); acc = {}; obj = 0
                    if acc: want.append((obj, acc))
                    l = [z for z in x.stdout.decode().split("\n")[:-1] if z.startswith("0\t")]
                    if E(len(l) == len(want), "expectation:lines", "%d lines, %d expected: %s" % (len(l), len(want), l[:3])):
                        for g, (o, a) in zip(l, want):
                            v = logs(g[2:]); ob = v.pop("**OBJ**"); E(near(ob, o, 1e-5) and all(near(v.get(q, 0), a.get(q, 0), 1e-4, 1e-4 + 1e-5 * sum(abs(fe.get(q, 0)) for i in con for _, fe, _ in con[i][:50])) for q in set(v) | set(a)), "expectation", "%s, by definition %g %s" % (g[:300], o, {q: round(z, 5) for q, z in a.items()})); c.count("expectation vectors")
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(220, 6000))))
    c.finish()
