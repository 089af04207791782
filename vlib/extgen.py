# Random corpora and options for the extractor programs.
import os, random
def corpus(r, d, maxsent=12, maxlen=9):
    n = r.randint(1, maxsent); vs = r.choice([1, 2, 4, 10]); src, tgt, al = [], [], []
    for i in range(n):
        a = r.randint(1, maxlen); b = max(1, a + r.randint(-2, 2)); s = ["f%d" % r.randrange(vs) for _ in range(a)]; t = ["e%d" % r.randrange(vs + 1) for _ in range(b)]
        if i and r.random() < .3: j = r.randrange(i); s, t = src[j], tgt[j]
        k = r.randrange(3); L = set()
        if k == 0: L = {(x, x) for x in range(min(len(s), len(t))) if r.random() > .15}
        elif k == 1: p = list(range(len(t))); r.shuffle(p); L = {(x, p[x]) for x in range(min(len(s), len(t))) if r.random() > .1}
        else: L = {(r.randrange(len(s)), r.randrange(len(t))) for _ in range(r.randint(0, len(s) + 2))}
        src.append(s); tgt.append(t); al.append(sorted(L))
    def w(name, lines):
        with open(os.path.join(d, name), "w") as f: f.write("".join(x + "\n" for x in lines))
    w("f", [" ".join(s) for s in src]); w("e", [" ".join(t) for t in tgt]); w("fe", [" ".join(s) + " ||| " + " ".join(t) for s, t in zip(src, tgt)]); w("a", [" ".join("%d-%d" % p for p in l) for l in al])
    return src, tgt, al
def inputs(r, src, n):
    out = []
    for _ in range(n):
        s = list(r.choice(src)) if r.random() < .5 else ["f%d" % r.randrange(5) for _ in range(r.randint(0, 8))]
        if r.random() < .2: s.append("new%d" % r.randrange(3))
        x = " ".join(s[:9])
        if r.random() < .3: x += " ||| ref %d" % r.randrange(9)
        out.append(x)
    return "".join(x + "\n" for x in out)
def options(r):
    span, syms, gap = r.randint(3, 10), r.randint(2, 6), r.choice([1, 1, 2])
    shared = ["--max_rule_span", str(span), "--max_rule_symbols", str(syms), "--min_gap_size", str(gap)]
    index = ["--frequent", str(r.randint(0, 12)), "--super_frequent", str(r.randint(0, 5)), "--min_frequency", str(r.randint(1, 3)), "--max_phrase_len", str(r.randint(1, 4))]
    extract = ["--max_nonterminals", str(r.randint(0, 3)), "--max_samples", str(r.choice([3, 10, 300])), "--tight_phrases", str(int(r.random() < .75))]
    if r.random() < .3: extract.append("--leave_one_out")
    return shared, index, extract
