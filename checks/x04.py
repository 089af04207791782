import os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import vf, extgen
TECHNIQUE = "happens-before race detection (ThreadSanitizer over an OpenMP runtime whose only visible synchronisation is what OpenMP promises) of whole extractions with injected delays, with an output monitor comparing every grammar and the segment lines with a one-thread run"
NOTE = "Held on the schedules run (2 to 8 threads, delays at critical sections and loop steps); the evidence counts distinct interleavings of loop steps and critical sections. Line order inside a grammar file is not judged: it follows word numbers, which depend on the order of first use."
L = ["-lboost_filesystem", "-lboost_serialization", "-lboost_program_options", "-lboost_system", "-lz"]
def build():
    b = vf.Builder("tsan", ext=True, extra=["-fopenmp"])
    return {p: b.program(p + "_omp", [vf.R("extractor/%s.cc" % p), vf.H("gompshim.cc")], ["extractor", "utils"], libs=L) for p in ("run_extractor", "extract", "sacompile")}
def main():
    c = vf.Check("X04", "interleaving of loop steps and critical sections, distinct by trace of a run that used several threads")
    e = build()
    def one(i):
        r = random.Random(c.seed * 15485863 + i); d = os.path.join(c.work, "x%d" % i); os.makedirs(d); src, tgt, al = extgen.corpus(r, d); text = extgen.inputs(r, src, r.randint(2, 16)); shared, index, ext = extgen.options(r)
        rep = {n: vf.text(os.path.join(d, n)) for n in ("f", "e", "a")}; rep.update(input=text, options=" ".join(shared + index + ext)); p = lambda n: os.path.join(d, n); compiled = r.random() < .5
        if compiled:
            if c.run([e["sacompile"], "-f", p("f"), "-e", p("e"), "-a", p("a"), "-o", p("sa"), "-c", p("ini")] + shared + index, replay=rep) is None: return
            cmd = lambda g, t: [e["extract"], "-c", p("ini"), "-g", p(g), "-t", str(t)] + shared + ext
        else: cmd = lambda g, t: [e["run_extractor"], "-f", p("f"), "-e", p("e"), "-a", p("a"), "-g", p(g), "-t", str(t)] + shared + index + ext
        base = c.run(cmd("g1", 1), stdin=text.encode(), replay=rep)
        if base is None: return
        want = {n: sorted(vf.text(p("g1/" + n)).split("\n")) for n in os.listdir(p("g1"))}; lines = text.split("\n")[:-1]
        segs = ['<seg grammar=G/grammar.%d id="%d"> %s </seg> %s' % (k, k, x.split("|||")[0] if "|||" in x else x, "|||" + x.split("|||", 1)[1] if "|||" in x else "") for k, x in enumerate(lines)]; segs = [" ".join(z.split()) for z in segs]
        clean = lambda out, g: [" ".join(z.split()) for z in out.decode().replace(os.path.realpath(p(g)), "G").replace('"G/', "G/").replace('" id=', " id=").split("\n")[:-1]]
        c.expect(clean(base.stdout, "g1") == segs, "segments", lambda: "one thread: %s" % clean(base.stdout, "g1")[:3], rep)
        for t in (r.choice([2, 3]), r.choice([4, 8])):
            g = "g%d" % (t + 1); tr = p("trace%d" % t)
            x = c.run(cmd(g, t), stdin=text.encode(), env={"VERIF_DELAY": str(r.randrange(1, 1 << 30)), "VERIF_TRACE": tr}, replay=rep)
            if x is None: return
            got = {n: sorted(vf.text(p(g + "/" + n)).split("\n")) for n in os.listdir(p(g))}
            c.expect(set(got) == set(want), "files", lambda: "%d threads wrote %s" % (t, sorted(got)), rep)
            for k in want:
                if k in got: c.expect(got[k] == want[k], "grammar", lambda: "%s with %d threads differs: missing %s, extra %s" % (k, t, [z for z in want[k] if z not in got[k]][:3], [z for z in got[k] if z not in want[k]][:3]), rep)
            c.expect(clean(x.stdout, g) == segs, "segments", lambda: "%d threads: %s" % (t, clean(x.stdout, g)[:4]), rep)
            f = vf.text(tr).split() if os.path.exists(tr) else []; c.count("threaded runs"); c.count("cases"); c.count("rules compared", sum(len(v) - 1 for v in want.values()))
            if len(f) == 3: c.count("loop steps and critical sections", int(f[1])); c.count("threads that took work", int(f[2])); 
            if len(f) == 3 and int(f[2]) > 1: c.dist("nontrivial", hash((i, f[0])))
    with ThreadPoolExecutor(6) as ex: list(ex.map(one, range(c.n(160, 1500))))
    c.finish()
