import base64, math, os, random, re, struct
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, cdecgen as G
from checks.d12 import near, samef, fmap, kbest, dump, match, lse, dot, mass, logs, grow, cfg
import checks.d12 as d12
TECHNIQUE = "online oracle over recorded executions: summary features, likelihood gradients, sampled translations, maximum translations, scores under weight updates sent with the input, and constrained search spaces printed by the decoder compared with their definitions over every derivation of the forests that the same configuration writes (sampled frequencies by seven standard deviations); under ASan+UBSan"
NOTE = "Held on the runs made: synchronous grammars with up to 4000 derivations per sentence, words and lattices, full intersection. The maximum translation is judged for beams that never cut; sampled frequencies are judged for 300 to 3000 samples."
build = d12.build
FFS = [f for f in G.STATELESS + G.STATEFUL if f != "RuleShape"]
def write(path, w): open(path, "w").write("".join("%s %.10g\n" % z for z in w.items()))
def main():
    c = vf.Check("D17", "decoded sentence whose report was compared, distinct by configuration and kind of report")
    e = build()
    def one(k):
        r = random.Random(c.seed * 15485867 + k); d = os.path.join(c.work, "d%d" % k); os.makedirs(d + "/A"); P = lambda n: os.path.join(d, n)
        opt, src, tgt, nts = G.scfg(r, d); w = G.weights(r, P("w"))
        if r.random() < .3: w = {a: b * r.choice([.2, 3]) for a, b in w.items()}; write(P("w"), w)
        ff = r.sample(FFS, r.choice([0, 0, 1, 2])); F = [z for f in ff for z in ("-F", f)] + (["-I", "full"] if ff else [])
        n = r.randint(1, 4); ins = []
        for i in range(n): s = G.sentence(r, src, r.choice([3, 5, 6])); ins.append(G.plf(r, s) if r.random() < .15 else " ".join(s))
        seg = lambda i, t, a="": '<seg id="%d"%s> %s </seg>\n' % (i, a, t); text = "".join(seg(i, t) for i, t in enumerate(ins)); base = [e["cdec"]] + opt + ["-w", P("w")]
        rep = {f: vf.text(P(f)) for f in os.listdir(d) if os.path.isfile(P(f))}; rep["input"] = text
        E = lambda ok, key, msg: c.expect(ok, key, msg, rep)
        def run(a, t, b=base + F):
            rep["cmd"] = " ".join(b + a); return c.run(b + a, stdin=t.encode(), env={"ASAN_OPTIONS": "detect_leaks=0"}, replay=dict(rep, input=t))
        def forests(x, where, ids=False):
            files = {i: P("%s/%d.bin.gz" % (where, i)) for i in range(n) if os.path.exists(P("%s/%d.bin.gz" % (where, i)))}; dd = dump(c, e["hgdump"], list(files.values()), ids) if files else {}
            return None if dd is None else {i: dd[f] for i, f in files.items()}
        x = run(["-k", "1", "-O", P("A")], text)
        D = x and forests(x, "A")
        if not D: return
        c.count("cases"); ok = {i: [(z[0], z[2], dot(z[2], w)) for z in f["d"]] for i, f in D.items() if f["n"] <= 4000}; srcy = {i: [z[1] for z in D[i]["d"]] for i in ok}
        if not ok: return
        note = lambda kind, i: (c.dist("nontrivial", hash((kind, text, str(opt), str(F), i))), c.count(kind))
        kinds = r.sample(["summary", "summary", "gradient", "sample", "maxtrans", "mira", "align", "passes"], 3) if not os.environ.get("KIND") else [os.environ["KIND"]]
        if "summary" in kinds:
            os.makedirs(P("B"), exist_ok=True); ty = r.choice(["node_risk", "edge_risk", "edge_prob"]); two = r.random() < .4; K = 500; G_ = F if ff else ["-F", "WordPenalty", "-I", "full"]; a = ["--summary_feature", "Summary", "-k", str(K), "-O", P("B")] + (["--summary_feature_type", ty] if ty != "node_risk" or r.random() < .5 else [])
            if two: w2 = {z: round(r.uniform(-1.5, 1.5), 4) for z in list(w) + ["Summary"] if r.random() < .8}; write(P("w2"), w2); a += ["--weights2", P("w2")]; rep["w2"] = vf.text(P("w2"))
            x = run(a, text, base + G_); B = x and forests(x, "B", True)
            if B is not None and B:
                kb = kbest(x.stdout.decode())
                for i in ok:
                    if not E(i in B and B[i]["n"] == D[i]["n"], "summary:forest", "sentence %d: %s derivations with, %d without the summary feature" % (i, B.get(i, {}).get("n"), D[i]["n"])): continue
                    ds = B[i]["d"]; sc = [dot({a: b for a, b in z[2].items() if a != "Summary"}, w) for z in ds]; Z = lse(sc); pe = {}; pn = {}; es = [[q.split(":") for q in z[3].split(" ## ") if q.strip()] for z in ds]
                    for s, el in zip(sc, es):
                        for a, h in el: p = math.exp(s - Z); pe[a] = pe.get(a, 0) + p; pn[h] = pn.get(h, 0) + p
                    for z, s, el in zip(ds, sc, es):
                        v = s - Z if ty == "edge_prob" else sum(pe[a] for a, h in el) if ty == "edge_risk" else sum(pn[h] for a, h in el)
                        if not E(near(z[2].get("Summary", 0), v, 1e-5, 1e-5), "summary:" + ty, "sentence %d, derivation '%s': Summary=%s, by definition %g" % (i, z[0], z[2].get("Summary", 0), v)): break
                    note("summary features: " + ty, i)
                    al = [(z[0], z[2], dot(z[2], w2 if two else w)) for z in ds]; why = match(kb.get(i, []), al, K); E(why is None, "summary:kbest", "sentence %d, %s: %s" % (i, ty, why))
        if "sample" in kinds:
            N = r.choice([300, 3000]); K = r.choice([0, 1, 3, 20]); x = run(["-X", str(N)] + (["-k", str(K)] if K else []), text)
            if x:
                bl = x.stdout.decode().split("\n")[:-1]; it = iter(bl)
                for i in range(n):
                    if i not in D: E(next(it, None) == "", "sample:failed", "sentence %d" % i); continue
                    if i not in ok: break
                    Z = lse([z[2] for z in ok[i]]); p = {}
                    for z in ok[i]: p[z[0]] = p.get(z[0], 0) + math.exp(z[2] - Z)
                    if not K: l = next(it, None); E(l in p and p[l] > max(p.values()) - 10 * math.sqrt(.25 / N) - .01, "sample:best", "sentence %d: '%s' sampled most often of %s" % (i, l, sorted(p.items(), key=lambda z: -z[1])[:5])); note("samples: most frequent translation", i); continue
                    got = []
                    while len(got) < K:
                        l = next(it, None); m = l is not None and re.fullmatch(r"(\d+) \|\|\| (.*)", l)
                        if not m: break
                        got.append((int(m.group(1)), m.group(2)))
                        if sum(q[0] for q in got) >= N: break
                    tot = sum(q[0] for q in got); E(got and all(a[0] >= b[0] for a, b in zip(got, got[1:])) and len({q[1] for q in got}) == len(got), "sample:order", "sentence %d: %s" % (i, got[:8])); E(tot == N or len(got) == K and tot < N, "sample:total", "sentence %d: %d samples of %d in %d of %d entries" % (i, tot, N, len(got), K))
                    for q, y in got:
                        if not E(y in p, "sample:foreign", "sentence %d: '%s' is no translation" % (i, y)): break
                        sd = math.sqrt(p[y] * (1 - p[y]) / N) if p[y] < 1 else 0; E(abs(q / N - p[y]) <= 7 * sd + 12 / N, "sample:frequency", "sentence %d: '%s' sampled %d times of %d, its probability is %.4f" % (i, y, q, N, p[y]))
                    note("samples: frequencies", i)
        if "maxtrans" in kinds:
            for i in r.sample(list(ok), min(2, len(ok))):
                x = run(["--max_translation_beam", "100000"], seg(i, ins[i]))
                if not x: continue
                l = x.stdout.decode().split("\n")[:-1]; p = {}; Z = lse([z[2] for z in ok[i]])
                for z in ok[i]: p.setdefault(z[0], []).append(z[2])
                m = {y: lse(v) for y, v in p.items()}; best = max(m.values()); q = re.search(r"Best path: (\S+)", x.stderr.decode())
                E(len(l) == 2 and l[1] in m and near(m[l[1]], best, 1e-5), "maxtrans", "sentence %d: %s, by definition %s" % (i, l, sorted(m.items(), key=lambda z: -z[1])[:4])); E(q and near(float(q.group(1)), best, 1e-4, 1e-4), "maxtrans:score", "sentence %d: %s, by definition %g" % (i, q and q.group(1), best)); note("maximum translations", i)
        if "mira" in kinds:
            cur = dict(w); lines = []; at = []; K = r.choice([1, 3, 20])
            for i in range(n):
                dl = {f: round(r.uniform(-1, 1), 3) for f in r.sample(G.FEATS + ["Glue", "PassThrough", "New_%d" % r.randrange(40), "LatticeCost_0"], r.randint(0, 4))}
                for f, v in dl.items(): cur[f] = cur.get(f, 0) + v
                at.append(dict(cur)); raw = b"".join(f.encode() + b"\0" + struct.pack("<d", v) for f, v in dl.items()); lines.append(seg(i, ins[i], ' delta="%s"' % base64.b64encode(raw).decode() if dl else ""))
            x = run(["--mr_mira_compat", "-k", str(K)], "".join(lines))
            if x:
                l = x.stdout.decode().split("\n")[:-1]; at_ = 0
                for i in range(n):
                    if i not in D: E(at_ < len(l) and l[at_] == "", "mira:failed", "sentence %d" % i); at_ += 1; continue
                    if not E(at_ + K < len(l) and l[at_] == str(K), "mira:lines", "sentence %d: %s" % (i, l[at_:at_ + 2])): break
                    ent = []
                    for z in l[at_ + 1:at_ + 1 + K]:
                        if not z: continue
                        f = z.split(" ||| ")
                        if not E(len(f) == 5 and f[0] == str(i), "mira:entry", z): break
                        raw = base64.b64decode(f[3]); fe = {}
                        while raw: name, raw = raw.split(b"\0", 1); fe[name.decode()] = struct.unpack("<d", raw[:8])[0]; raw = raw[8:]
                        ent.append((f[2], fe, float(f[4]))); E(ins[i].startswith("(") or int(f[1]) == len(ins[i].split()), "mira:length", z)
                    at_ += K + 1
                    if i in ok: al = [(y, fe, dot(fe, at[i])) for y, fe, _ in ok[i]]; why = match(ent, al, K); E(why is None, "mira", "sentence %d under its weights: %s" % (i, why)); note("k-best lists under updated weights", i)
        if "passes" in kinds and ff:
            os.makedirs(P("C"), exist_ok=True); os.makedirs(P("E"), exist_ok=True); f2 = r.choice([f for f in G.STATEFUL + G.STATELESS if f not in ff and f != "RuleShape"]); one = ["-I", r.choice(["cube_pruning", "fast_cube_pruning", "fast_cube_pruning_2", "full"]), "-K", str(r.choice([2, 10, 5000]))]; b = base + [z for f in ff for z in ("-F", f)] + one; w2 = {z: round(r.uniform(-1.5, 1.5), 4) for z in w if r.random() < .8}; write(P("w2"), w2); rep["w2"] = vf.text(P("w2")); two = r.random() < .5; K = 500
            x = run(["-O", P("C")], text, b); C_ = x and forests(x, "C")
            x = C_ and run(["-k", str(K), "-O", P("E"), "--feature_function2", f2, "--intersection_strategy2", r.choice(["full", "Full"]), "--cubepruning_pop_limit2", "1"] + (["--weights2", P("w2")] if two else []), text, b); B = x and forests(x, "E")
            if B:
                kb = kbest(x.stdout.decode())
                for i in C_:
                    if C_[i]["n"] > 4000 or not E(i in B and B[i]["n"] == C_[i]["n"], "passes:forest", "sentence %d: %d derivations after the first pass, %s after a second pass with full intersection" % (i, C_[i]["n"], B.get(i, {}).get("n"))): continue
                    al = [(z[0], z[2], dot(z[2], w2 if two else w)) for z in B[i]["d"]]; why = match(kb.get(i, []), al, K); E(why is None, "passes:kbest", "sentence %d: %s" % (i, why)); note("second passes", i)
                    E(sorted(z[0] for z in B[i]["d"]) == sorted(z[0] for z in C_[i]["d"]), "passes:translations", "sentence %d: other derivations after the second pass" % i)
        if "gradient" in kinds or "align" in kinds:
            refs = {i: r.choice(ok[i])[0] if r.random() < .85 else " ".join(r.choice(tgt) for _ in range(r.randint(1, 3))) for i in ok}; idl = [i for i in ok if refs[i]]; con = {i: [(sy, fe, s) for (y, fe, s), sy in zip(ok[i], srcy[i]) if y == refs[i]] for i in idl}; t2 = lambda L: "".join(seg(i, ins[i] + " ||| " + refs[i]) for i in L)
            if "gradient" in kinds and idl:
                C = r.choice([1, 1, 2, 3]); b64 = r.random() < .4; x = run(["-G", "-C", str(C)] + ([] if b64 else ["--vector_format", "text"]), t2(idl))
                if x:
                    want = []; acc = {}; obj = 0; cnt = 0
                    for i in idl:
                        if not con[i]: want.append(None); continue
                        z = lse([q[2] for q in ok[i]]); t = lse([q[2] for q in con[i]]); obj += z - t; cnt += 1
                        for L, zz, sg in ((con[i], t, 1), (ok[i], z, -1)):
                            for _, fe, s in L:
                                for a, v in fe.items(): acc[a] = acc.get(a, 0) + sg * v * math.exp(s - zz)
                        if cnt % C == 0: want.append((obj, acc)); acc = {}; obj = 0
                    if cnt % C: want.append((obj, acc) if any(abs(v) > 1e-7 for v in acc.values()) else "maybe")
                    l = x.stdout.decode().split("\n")[:-1]
                    if want and want[-1] == "maybe": want = want[:-1]; l = l[:len(want)] if len(l) == len(want) + 1 else l
                    if E(len(l) == len(want), "gradient:lines", "%d lines, %d expected: %s" % (len(l), len(want), l[:4])):
                        for g, q in zip(l, want):
                            if q is None: E(g == "", "gradient:unreachable", g); continue
                            if not E(g.startswith("0\t"), "gradient:line", g): continue
                            if b64:
                                raw = base64.b64decode(g[2:]); ob, nf = struct.unpack("<di", raw[:12]); raw = raw[12:]; v = {}
                                for _ in range(nf): ln = raw[0]; v[raw[1:1 + ln].decode()] = struct.unpack("<d", raw[1 + ln:9 + ln])[0]; raw = raw[9 + ln:]
                                E(raw == struct.pack("<I", 0xBAABABBA), "gradient:magic", repr(raw))
                            else:
                                v = logs(g[2:]); ob = v.pop("**OBJ**")
                            E(near(ob, q[0], 1e-4, 1e-4), "gradient:objective", "%g, by definition %g" % (ob, q[0])); tol = 1e-4 + 1e-4 * max([abs(z) for i in idl for y in ok[i][:50] for z in y[1].values()] + [0])
                            E(all(abs(v.get(a, 0) - q[1].get(a, 0)) < tol for a in set(v) | set(q[1])), "gradient", "%s, by definition %s" % (v, q[1])); note("gradients", len(want))
            if "align" in kinds:
                for i in [j for j in idl if con[j]][:1]:
                    x = run(["--show_cfg_alignment_space"], t2([i]))
                    if not x: continue
                    rules = cfg(x.stdout.decode()); used = {z[0] for L in rules.values() for f, _, _ in L for z in f if isinstance(z, tuple)}; root = [z for z in rules if z not in used]
                    if E(len(root) == 1, "align:goal", "goals %s in %s" % (root, x.stdout.decode()[:1500])):
                        try: g = [(b + "/" + a, m, dot(m, w)) for a, b, m in grow(rules, root[0])]
                        except OverflowError: E(False, "align:size", "sentence %d, reference '%s': more than 30000 derivations, %d licensed" % (i, refs[i], len(con[i]))); continue
                        why = match(sorted(g, key=lambda z: -z[2]), [(refs[i] + "/" + sy, fe, s) for sy, fe, s in con[i]], 1 << 30); E(why is None, "align", "sentence %d, reference '%s': the constrained space printed as a grammar: %s" % (i, refs[i], why)); note("alignment spaces", i)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(260, 7000))))
    c.finish()
