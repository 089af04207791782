import os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, extgen
TECHNIQUE = "round-trip monitor: every component written and read back is compared by content and by lookups; grammars extracted from compiled files are compared with those extracted from the text, all under ASan+UBSan"
NOTE = "Held on the corpora run: up to 40 sentence pairs for components, up to 12 for whole programs; archives are read on the platform that wrote them. Grammars are compared as sets of lines."
L = ["-lboost_filesystem", "-lboost_serialization", "-lboost_program_options", "-lboost_system", "-lz"]
def build():
    b = vf.Builder("asan", ext=True, extra=["-fopenmp"])
    d = {"x03": b.program("x03", [vf.H("x03.cc")], ["extractor", "utils"], libs=L)}
    for p in ("sacompile", "run_extractor", "extract"): d[p] = b.program(p, [vf.R("extractor/%s.cc" % p)], ["extractor", "utils"], libs=L)
    return d
def grammars(d):
    return {n: sorted(vf.text(os.path.join(d, n)).split("\n")) for n in os.listdir(d)} if os.path.isdir(d) else {}
def main():
    c = vf.Check("X03", "corpus, distinct by content, its components read back and used; program runs distinct by corpus and options")
    e = build()
    c.harness(e["x03"], c.n(1200, 40000))
    def one(i):
        r = random.Random(c.seed * 104729 + i); d = os.path.join(c.work, "x%d" % i); os.makedirs(d); src, tgt, al = extgen.corpus(r, d); text = extgen.inputs(r, src, r.randint(0, 6)); shared, index, ext = extgen.options(r)
        rep = {n: vf.text(os.path.join(d, n)) for n in ("f", "e", "a")}; rep.update(input=text, options=" ".join(shared + index + ext)); p = lambda n: os.path.join(d, n)
        data = ["-b", p("fe")] if r.random() < .3 else ["-f", p("f"), "-e", p("e")]
        a = c.run([e["run_extractor"]] + data + ["-a", p("a"), "-g", p("g1")] + shared + index + ext, stdin=text.encode(), replay=rep)
        s = c.run([e["sacompile"]] + data + ["-a", p("a"), "-o", p("sa"), "-c", p("ini")] + shared + index, replay=rep)
        if a is None or s is None: return
        z = r.random() < .3; b = c.run([e["extract"], "-c", p("ini"), "-g", p("g2")] + shared + ext + (["-z"] if z else []), stdin=text.encode(), replay=rep)
        if b is None: return
        if z:
            for n in os.listdir(p("g2")): vf.gunzip(p("g2/" + n))
        g1, g2 = grammars(p("g1")), grammars(p("g2")); n = text.count("\n")
        c.expect(set(g1) == {"grammar.%d" % k for k in range(n)}, "program:files", lambda: "grammar files %s for %d sentences" % (sorted(g1), n), rep)
        c.expect(set(g2) == set(g1), "program:files", lambda: "compiled: %s, direct: %s" % (sorted(g2), sorted(g1)), rep)
        for k in g1:
            if k in g2: c.expect(g1[k] == g2[k], "program:grammar", lambda: "%s differs: only direct %s, only compiled %s" % (k, [x for x in g1[k] if x not in g2[k]][:3], [x for x in g2[k] if x not in g1[k]][:3]), rep)
        o1 = a.stdout.decode().replace(p("g1"), "G"); o2 = b.stdout.decode().replace(".gz", "").replace(os.path.realpath(p("g2")), "G"); c.expect(o1 == o2, "program:output", lambda: "segments differ:\n%s\n%s" % (o1[:400], o2[:400]), rep)
        c.count("program runs"); c.count("cases"); c.count("rules compared", sum(len(v) - 1 for v in g1.values())); c.dist("nontrivial", hash(str(rep)))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(100, 1500))))
    c.finish()
