import random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "differential trace monitor: every line printed by the real tool compared with the set definition of its command evaluated independently; the tool runs under ASan+UBSan"
NOTE = ("Held on the alignment files run: up to 60 lines, grids up to 40 x 40 and single far points, empty lines and sets, sentences in front of the alignment, both inputs on standard input, "
        "unterminated last lines, mismatched line counts. The growing heuristics are judged against the fixpoint that visits candidate points in row order.")
N8 = [(1,0),(-1,0),(0,1),(0,-1),(1,1),(-1,1),(1,-1),(-1,-1)]
def build():
    b = vf.Builder("asan")
    return {"atools": b.program("atools", [vf.R("utils/atools.cc")], ["utils"])}
def grow(a, b, final):
    res = a & b; un = a | b
    ai = {i for i, _ in res}; aj = {j for _, j in res}
    def add(p): res.add(p); ai.add(p[0]); aj.add(p[1])
    todo = sorted(un - res); again = True
    while again:
        again = False; rest = []
        for p in todo:
            if not (p[0] in ai and p[1] in aj) and any((p[0]+x, p[1]+y) in res for x, y in N8): add(p); again = True
            else: rest.append(p)
        todo = rest
    if final:
        for s in (a, b):
            for p in sorted(s):
                if p in res: continue
                if final == "or" and not (p[0] in ai and p[1] in aj): add(p)
                if final == "and" and p[0] not in ai and p[1] not in aj: add(p)
    return res
def rand_al(r, like=None):
    if r.random() < .08: return set()
    w, h = (r.randint(1, 40), r.randint(1, 40)) if r.random() < .3 else (r.randint(1, 9), r.randint(1, 9))
    k = r.random()
    if like is not None and r.random() < .5:
        s = {(max(0, i + r.choice((0,0,0,1,-1))), max(0, j + r.choice((0,0,0,1,-1)))) for i, j in like if r.random() < .8}
        return s
    if k < .3: s = {(i, min(h-1, i)) for i in range(w) if r.random() < .8}
    elif k < .7: s = {(r.randrange(w), r.randrange(h)) for _ in range(r.randint(1, w + h))}
    else: s = {(i, j) for i in range(w) for j in range(h) if r.random() < .4}
    if r.random() < .05: s.add((r.randint(100, 900), r.randint(0, 99)))
    return s
def text(r, s):
    l = list(s); r.shuffle(l)
    if l and r.random() < .1: l.append(r.choice(l))
    sep = "  " if r.random() < .1 else " "
    t = sep.join("%d-%d" % p for p in l)
    if r.random() < .1: t = "ein - haus 1-2 ||| a ||| house 3-4 ||| " + t
    if s and r.random() < .05: t += " "
    return t
def fmt(s): return " ".join("%d-%d" % p for p in sorted(s))
def main():
    c = vf.Check("U05", "pair of alignments, distinct by content")
    exe = build()["atools"]
    def one(i):
        r = random.Random(c.seed * 1000003 + i); import os
        d = os.path.join(c.work, str(i)); os.makedirs(d)
        n = 0 if r.random() < .03 else r.randint(1, 60)
        A = [rand_al(r) for _ in range(n)]; B = [rand_al(r, a) for a in A]
        la = [text(r, x) for x in A]; lb = [text(r, x) for x in B]
        ta = "\n".join(la) + ("\n" if n and (r.random() < .8 or la[-1] == "") else ""); tb = "\n".join(lb) + ("\n" if n and (r.random() < .8 or lb[-1] == "") else "")
        ext = ".gz" if r.random() < .2 else ""
        import gzip
        for nm, t in (("a" + ext, ta), ("b", tb)):
            with (gzip.open if nm.endswith("gz") else open)(os.path.join(d, nm), "wb") as fh: fh.write(t.encode())
        fa, fb = os.path.join(d, "a" + ext), os.path.join(d, "b")
        rep = {"a": ta, "b": tb}
        two = {"intersect": lambda a, b: a & b, "union": lambda a, b: a | b, "grow-diag": lambda a, b: grow(a, b, None),
               "grow-diag-final": lambda a, b: grow(a, b, "or"), "grow-diag-final-and": lambda a, b: grow(a, b, "and")}
        one_ = {"convert": lambda a: a, "invert": lambda a: {(j, i) for i, j in a}, "display": lambda a: a}
        for cmd, f in list(two.items()) + list(one_.items()):
            args = [exe, "-c", cmd, "-i", fa] + (["-j", fb] if cmd in two else []); stdin = None
            if cmd in two and r.random() < .15: args = [exe, "-c", cmd, "-i", "-", "-j", "-"]; stdin = "".join(x + "\n" + y + "\n" for x, y in zip(la, lb)).encode()
            elif cmd in one_ and r.random() < .2: args[4] = "-"; stdin = ta.encode()
            p = c.run(args, stdin=stdin, replay=rep)
            if p is None: continue
            out = p.stdout.decode()
            if cmd == "display":
                got = [l for l in out.split("\n")[:-1] if re.fullmatch(r"(\d+-\d+)?( \d+-\d+)*", l) and (l or True)]
                want = [fmt(x) for x in A]
                c.expect([l for l in got if l] == [l for l in want if l], "display", "display prints other points than the input's", rep)
                stars = out.count("*"); c.expect(stars == sum(map(len, A)), "display:grid", "display shows %d points, expected %d" % (stars, sum(map(len, A))), rep)
                continue
            want = [fmt(f(a, b)) for a, b in zip(A, B)] if cmd in two else [fmt(f(a)) for a in A]
            got = out.split("\n")[:-1]
            if not c.expect(len(got) == n, cmd + ":lines", "%d lines for %d inputs" % (len(got), n), rep): continue
            for k in range(n):
                if not c.expect(got[k] == want[k], cmd, lambda: "%s of '%s' and '%s' is '%s', expected '%s'" % (cmd, fmt(A[k]), fmt(B[k]), got[k], want[k]), lambda: {"a": la[k], "b": lb[k]}): break
                if cmd in two:
                    pts = {tuple(map(int, x.split("-"))) for x in got[k].split()}
                    c.expect((A[k] & B[k]) <= pts <= (A[k] | B[k]), cmd + ":bounds", "result outside intersection..union", rep)
                c.count("lines_checked")
        m = sum(len(a & b) for a, b in zip(A, B)); na = sum(map(len, A)); nb = sum(map(len, B))
        if na and nb:
            p = c.run([exe, "-c", "fmeasure", "-i", fa, "-j", fb], replay=rep)
            if p:
                v = dict(re.findall(r"^([PRF]): (\S+)$", p.stdout.decode(), re.M)); P, R = m / na, m / nb
                want = {"P": P, "R": R}
                if m: want["F"] = 2 * P * R / (P + R)
                c.expect(all(k in v and abs(float(v[k]) - x) < 1e-5 * max(1, x) for k, x in want.items()), "fmeasure", "reported %s expected %s" % (v, want), rep)
        if n and r.random() < .3:  # mismatched files must be refused
            with open(fb, "a") as fh: fh.write(("\n" if not tb.endswith("\n") else "") + "0-0\n")
            p = c.run([exe, "-c", "union", "-i", fa, "-j", fb], ok=(1,), key="mismatch", replay=rep)
        for a, b in zip(la, lb): c.dist("nontrivial", hash((a, b)))
        c.count("cases", n); c.sample(ta[:200])
    with ThreadPoolExecutor(vf.JOBS) as ex: list(ex.map(one, range(c.n(60, 2500))))
    c.finish()
