import random, os
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "byte-identity monitor: content written by the real writer (or by zlib) and read by the real reader in every style is compared with the content; tool output of dedup_corpus compared with a reference; under ASan+UBSan"
NOTE = "Held on the files run: lengths aimed at the edges of the compression buffer and up to 1 MB, all byte values, up to 3 gzip members, all read and write styles of the istream interface. Damaged gzip data is not judged. dedup_corpus is judged up to 64-bit hash collisions."
def build():
    b = vf.Builder("asan")
    return {"u06": b.program("u06", [vf.H("u06.cc")], ["utils"]), "dedup": b.program("dedup", [vf.R("utils/dedup_corpus.cc")], ["utils"])}
def main():
    c = vf.Check("U06", "file content, distinct by bytes")
    e = build()
    c.harness(e["u06"], c.n(500, 12000))
    def one(i):
        r = random.Random(c.seed * 7919 + i)
        pool = [bytes(r.randrange(256) for _ in range(r.randint(0, 30))).replace(b"\n", b"x") if r.random() < .3 else b" ".join(r.choice((b"a", b"b", b"c", b"|||", "ü".encode())) for _ in range(r.randint(0, 6))) for _ in range(r.randint(1, 60))]
        if r.random() < .3: pool.append(b"x" * r.randint(1, 200000))
        pool += [p + b" " for p in pool[:3]] + [p[:-1] for p in pool[:5]]
        ls = [r.choice(pool) for _ in range(r.randint(0, 300))]
        data = b"\n".join(ls) + (b"\n" if ls and (r.random() < .8 or not ls[-1]) else b"")
        seen, want = set(), []
        for l in ls:
            if l not in seen: seen.add(l); want.append(l)
        p = c.run([e["dedup"]], stdin=data, replay={"input": data.decode("latin1")[:20000]})
        if p is None: return
        c.expect(p.stdout == b"".join(w + b"\n" for w in want), "dedup", lambda: "dedup_corpus printed %d lines, expected %d" % (p.stdout.count(b"\n"), len(want)), lambda: {"input": data.decode("latin1")[:20000]})
        c.count("cases"); c.count("dedup_lines", len(ls)); c.dist("nontrivial", hash(data))
    with ThreadPoolExecutor(4) as ex: list(ex.map(one, range(c.n(24, 400))))
    c.finish()
