import os, random, re, shutil, socket, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "recorded histories with injected faults: the real sentence server is driven over loopback by simulated workers that are late, slow, reset, killed before answering, without the key, while its input is fed at any pace; an exactly-once and order oracle judges what every worker received and what came out, under ASan+UBSan; the script that starts server and workers and the one that decodes and scores are run on the real decoder"
NOTE = "Held on the histories run: up to 40 sentences and 8 workers; workers fail between answers, not in the middle of a line; multi-line answers are not exercised."
def build():
    b = vf.Builder("asan"); D = ["decoder", "utils", "mteval"]
    return {"server": b.program("sentserver", [vf.R("training/utils/sentserver.cc"), vf.H("jitter.cc")], [], libs=["-lpthread", "-Wl,--wrap=pthread_mutex_unlock"]), "client": b.program("sentclient", [vf.R("training/utils/sentclient.cc")], []),
            "cdec": b.program("cdec", [vf.R("decoder/cdec.cc")], D + ["klm", "klm_util", "ksearch"]), "score": b.program("fast_score", [vf.R("mteval/fast_score.cc")], ["utils", "mteval"])}
LIMIT = 30
LOCK = threading.Lock()
PORT = [10000 + os.getpid() * 37 % 8000]
def port():
    """a port no other server of this run uses: a worker that comes late must not reach another one"""
    with LOCK:
        while True:
            PORT[0] = PORT[0] + 1 if PORT[0] < 31000 else 10000; k = socket.socket(); k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try: k.bind(("", PORT[0])); return PORT[0]
            except OSError: pass
            finally: k.close()
MINE = threading.local()
def wr(p, t): open(p, "w").write(t)
class Server:
    def __init__(s, exe, args, feed, jitter=None, anyport=False):
        s.p = subprocess.Popen([exe, "0" if anyport else str(port())] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vf.run_env(dict({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99" + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0:max_malloc_fill_size=0" if jitter else "")}, **({"JITTER": str(jitter)} if jitter else {})))); s.hung = 0
        MINE.__dict__.setdefault("servers", []).append(s); s.out, s.log, s.lock, s.port, s.ready = b"", [], threading.Condition(), None, threading.Event(); s.th = [threading.Thread(target=f) for f in (s._out, s._err)]; s.fed = threading.Event()
        for t in s.th: t.start()
        def run():
            try:
                for x in feed:
                    if isinstance(x, float): time.sleep(x)
                    elif isinstance(x, threading.Event): x.wait(LIMIT)
                    else: s.p.stdin.write(x); s.p.stdin.flush()
            except OSError: pass
            try: s.p.stdin.close()
            except OSError: pass
            s.fed.set()
        s.feeder = threading.Thread(target=run); s.feeder.start(); s.ready.wait(LIMIT)
    def _out(s):
        while True:
            x = os.read(s.p.stdout.fileno(), 65536)
            if not x: return
            with s.lock: s.out += x; s.lock.notify_all()
    def _err(s):
        for x in s.p.stderr:
            x = x.decode("utf8", "replace"); m = re.match(r"Listening on port (\d+)", x)
            with s.lock: s.log.append(x); s.lock.notify_all()
            if m: s.port = int(m.group(1)); s.ready.set()
        s.ready.set()
    def wait(s, f, t=LIMIT):
        with s.lock: return s.lock.wait_for(lambda: f(s) or (s.p.poll() is not None), t) and f(s)
    def logged(s, x): return sum(x in l for l in s.log)
    def end(s, t=LIMIT):
        try: rc = s.p.wait(t)
        except subprocess.TimeoutExpired: s.p.kill(); s.p.wait(); rc = None
        for x in s.th: x.join()
        s.feeder.join(); s.p.stdout.close(); s.p.stderr.close(); return rc
class Worker:
    """connects and answers sentences; what it received is recorded"""
    def __init__(s, srv, key=None):
        for i in range(50):  # the port is announced just before the server listens
            try: s.k = socket.create_connection(("127.0.0.1", srv.port), LIMIT); break
            except ConnectionRefusedError:
                if i == 49 or srv.p.poll() is not None: raise
                time.sleep(.02)
        s.k.settimeout(LIMIT); s.srv = srv; s.buf = b""; s.got, s.holding = [], None; _ = key is not None and s.k.sendall(key.encode() + b"\n")
    def get(s):
        while b"\n" not in s.buf:
            try: x = s.k.recv(65536)
            except ConnectionError: x = b""
            except TimeoutError: s.srv.hung += 1; s.srv.p.kill(); return None
            if not x: return None
            s.buf += x
        l, s.buf = s.buf.split(b"\n", 1); s.got.append(l); s.holding = l; return l
    def put(s, a): s.holding = None; s.k.sendall(a + b"\n")
    def die(s, reset):
        if reset: s.k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.k.close()
def answer(l):
    h = sum(l) * 7 + len(l)
    if h % 11 == 0: return b""
    return l[::-1] + b"!" + b"z" * (h % 97 if h % 5 else h % 6000)
def inputs(r):
    n = r.choice([1, 2, 3, 8, 20, 40]); L = []
    for i in range(n):
        k = r.random(); s = b"%d %s" % (i, bytes(r.choice(b"abc \xc3\xa9|<>") for _ in range(r.randint(0, 20))))
        if k < .06: s = b"%d " % i + b"long" * r.choice([19, 20, 39, 79, 80, 81, 400, 3000])
        elif k < .14: s = b"===SYNCH==="
        elif k < .17: s = r.choice([b"===SYNCH=== %d", b"===SYNCH===%d", b" ===SYNCH===%d", b"===SYNC===%d"]) % i
        L.append(s)
    return L
def feed(r, L):
    mode = r.choice(["all", "slow", "bits"]); F = []; t = b"".join(l + b"\n" for l in L)
    if r.random() < .15 and t: t = t[:-1]
    if mode == "all": F = [t]
    elif mode == "slow":
        for i in range(0, len(t), 37): F += [t[i:i + 37], r.uniform(0, .01)]
        F = F[:200] + [t[37 * 100:]]
    else: k = r.randrange(len(t) + 1); F = [t[:k], r.uniform(0, .2), t[k:]]
    return F
def judge(c, L, srv, rc, W, rep, complete=True, died=()):
    rep = dict(rep, exit=rc, log=[x.rstrip() for x in srv.log[-60:]], received=[[x.decode("utf8", "replace")[:60] for x in w.got] for w in W]); want = [l if l == b"===SYNCH===" else answer(l) for l in L]; out = srv.out.split(b"\n"); tail = out.pop()
    san = [x for x in srv.log if "ERROR: AddressSanitizer" in x or "runtime error" in x]
    if not c.expect(not san, "sanitizer", lambda: san[0], rep): return
    if not c.expect(not srv.hung, "hang", "the server neither sent a worker a sentence nor dismissed it", rep): return
    if complete: c.expect(rc == 0, "exit", lambda: "the server ended with %r" % rc if rc is not None else "the server did not end", rep)
    else: c.expect(rc == 1, "exit:panic", lambda: "all workers died; the server ended with %r" % rc, rep)
    n = len(out); c.expect(not tail and out == want[:n] and (n == len(want) or not complete), "output", lambda: "%d of %d answers; first difference at %d: %r, not %r" % (n, len(want), next((i for i in range(min(n, len(want))) if out[i] != want[i]), -1), next((out[i] for i in range(min(n, len(want))) if out[i] != want[i]), b"")[:80], next((want[i] for i in range(min(n, len(want))) if out[i] != want[i]), b"")[:80]), rep)
    G = {}; K = set(L)
    for w in W:
        for x in w.got: G[x] = G.get(x, 0) + 1; c.expect(x in K and x != b"===SYNCH===", "received", lambda: "a worker received %r" % x[:80], rep)
    for x in died: G[x] = G.get(x, 0) - 1
    for x in K - {b"===SYNCH==="}:
        if complete: c.expect(G.get(x, 0) == 1, "once", lambda: "the sentence %r was given to workers %d times beyond those that failed on it" % (x[:60], G.get(x, 0)), rep); c.count("sentences")
        else: c.expect(G.get(x, 0) <= 0, "once", lambda: "%r" % x[:60], rep) if x in died else None
    again = re.findall(r"Sending data (\d+) to", "".join(srv.log)); again = {int(x) for x in again if again.count(x) > 1}
    for w in W:
        k = [L.index(x) for x in w.got if x in K and x not in died and L.index(x) not in again]; c.expect(k == sorted(k), "order", lambda: "a worker received sentences in the order %r" % k, rep)
    c.count("answers_out", n)
def stray(r, srv, key):
    """connections that are no workers"""
    def run():
        for _ in range(r.randint(1, 3)):
            time.sleep(r.uniform(0, .03))
            try:
                k = socket.create_connection(("127.0.0.1", srv.port), 2); w = r.randrange(4)
                if w == 0: k.sendall(b"wrong\n")
                elif w == 1: k.sendall(b"\n")
                elif w == 2: k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                k.close()
            except OSError: pass
    t = threading.Thread(target=run); t.start(); return t
def healthy(c, E, r, rep):
    L = inputs(r); key = "k%d" % r.randrange(1000) if r.random() < .5 else None; S = Server(E["server"], ["-k", key] if key else [], feed(r, L), r.choice([None, r.randint(1, 10 ** 6)])); n = r.randint(1, 8); W = []; plan = [(r.choice([0, 0, r.uniform(0, .05)]), r.choice([0, 0, r.uniform(0, .02)])) for _ in range(n)]; T = []; seeds = [r.random() for _ in range(n)]
    if key and r.random() < .6: st = stray(r, S, key); c.count("strays")
    else: st = None
    def life(late, slow, seed):
        q = random.Random(seed); time.sleep(late)
        try: w = Worker(S, key)
        except OSError: return
        W.append(w)
        while True:
            l = w.get()
            if l is None: break
            if slow: time.sleep(q.uniform(0, slow))
            try: w.put(answer(l))
            except OSError: break
        w.k.close()
    for p, s in zip(plan, seeds): T.append(threading.Thread(target=life, args=p + (s,))); T[-1].start()
    rc = S.end()
    for t in T + ([st] if st else []): t.join()
    c.dist("histories", tuple(sorted(tuple(w.got) for w in W))); c.count("workers", len(W)); judge(c, L, S, rc, W, rep)
def deaths(c, E, r, rep):
    """one worker keeps its sentence until the others have failed"""
    L = inputs(r)
    if len([x for x in L if x != b"===SYNCH==="]) < 2: L = [b"0 a", b"1 b", b"2 c"]
    key = "k%d" % r.randrange(1000) if r.random() < .5 else None; S = Server(E["server"], ["-k", key] if key else [], feed(r, L)); W, died, dead = [], [], 0; A = Worker(S, key); W.append(A); a = A.get()
    for _ in range(r.randint(1, 5)):
        try: w = Worker(S, key)
        except OSError: break
        W.append(w); k = r.choice([0, 0, 1, 2, 5]); reset = r.random() < .5; busy = True
        for _ in range(k):
            l = w.get()
            if l is None: busy = False; break
            w.put(answer(l))
        if not busy: w.k.close(); break
        if r.random() < .25 and k:
            # fails right after an answer: it may or may not have been sent another sentence
            how = "after"; w.die(reset); S.wait(lambda s: s.logged("Client died") > dead or s.logged("Client dismissed"))
            if not S.logged("Client died") > dead: break
            m = re.findall(r"Sending data (\d+) to client \(fid (\d+)\)", "".join(S.log)); x = L[int(m[-1][0])]; died.append(x); w.got.append(x)
        else:
            l = w.get(); how = "holding"
            if l is None: w.k.close(); break
            w.die(reset); died.append(l); S.wait(lambda s: s.logged("Client died") > dead)
        dead += 1; c.count("worker_failed_" + how); time.sleep(.02)
    l = a
    while l is not None:
        try: A.put(answer(l))
        except OSError: break
        l = A.get()
    A.k.close(); rc = S.end(); judge(c, L, S, rc, W, rep, died=died); c.count("reissued", len(died)); c.dist("histories", tuple(sorted(tuple(w.got) for w in W)))
def waiting(c, E, r, rep):
    """the only other worker fails while this one waits for input, which then ends"""
    L = [b"%d x" % i for i in range(r.randint(2, 5))]; more, eof = threading.Event(), threading.Event(); S = Server(E["server"], [], [b"".join(l + b"\n" for l in L), eof], anyport=True); A = Worker(S); a = A.get(); B = Worker(S); b = B.get()
    # A answers all there is and then waits at the input with nothing to do
    while True:
        A.put(answer(a))
        if len(A.got) == len(L) - 1: break
        a = A.get()
    S.wait(lambda s: s.logged("returned data") == len(L) - 1); time.sleep(.05); B.die(r.random() < .5); S.wait(lambda s: s.logged("Client died")); time.sleep(.05); eof.set(); l = A.get()
    if l is not None:
        A.put(answer(l)); l = A.get()
    A.k.close(); rc = S.end(8); judge(c, L, S, rc, [A, B], rep, died=[b]); c.count("failed_while_another_waits")
def alldie(c, E, r, rep):
    L = inputs(r); stay = r.random() < .6; S = Server(E["server"], ["--stay-alive"] if stay else [], feed(r, L)); W, died = [], []; k = r.randint(0, max(0, len([x for x in L if x != b"===SYNCH==="]) - 1)); w = Worker(S); W.append(w); l = w.get()
    if l is None: rc = S.end(); return judge(c, L, S, rc, W, rep)
    for _ in range(k):
        w.put(answer(l)); l = w.get()
        if l is None: c.violation("dismissed", "the only worker was dismissed after %d of %d sentences" % (len(w.got), len(L)), dict(rep, log=S.log)); S.p.kill(); return S.end()
    S.wait(lambda s: s.out.count(b"\n") >= L.index(l)); c.expect(S.out.count(b"\n") >= L.index(l), "streaming", lambda: "%d answers out, %d finished" % (S.out.count(b"\n"), L.index(l)), rep)
    died.append(l); w.die(r.random() < .5); c.count("all_failed")
    if not stay: rc = S.end(); judge(c, L, S, rc, W, rep, complete=False, died=died); c.expect(S.out.count(b"\n") >= L.index(died[0]), "flushed", "finished answers are missing", rep); return
    S.wait(lambda s: s.logged("Staying alive")); c.expect(S.p.poll() is None, "stay", "the server ended though it should stay alive", rep); w = Worker(S); W.append(w); l = w.get()
    while l is not None:
        try: w.put(answer(l))
        except OSError: break
        l = w.get()
    w.k.close(); rc = S.end(); judge(c, L, S, rc, W, rep, died=died); c.count("revived")
def idle(c, E, r, rep):
    """workers that fail while they have nothing to do: what they are sent afterwards goes to others"""
    m, n = r.randint(1, 6), r.randint(1, 6); L = [b"%d x" % i for i in range(m + n)]; more = threading.Event(); S = Server(E["server"], [], [b"".join(l + b"\n" for l in L[:m]), more, b"".join(l + b"\n" for l in L[m:])], anyport=True); W = [Worker(S)]
    A = W[0]; l = A.get(); A.put(answer(l)); W += [Worker(S) for _ in range(r.randint(1, 3))]
    def life(w):
        while True:
            l = w.get()
            if l is None: break
            try: w.put(answer(l))
            except OSError: break
        w.k.close()
    T = [threading.Thread(target=life, args=(w,)) for w in W[1:]]
    for t in T: t.start()
    A.k.settimeout(.05)
    def serve():  # until the first lines are answered
        while S.logged("returned data") < m:
            try: x = A.k.recv(65536)
            except TimeoutError: continue
            except ConnectionError: return
            if not x: return
            A.buf += x
            while b"\n" in A.buf: l, A.buf = A.buf.split(b"\n", 1); A.got.append(l); A.put(answer(l))
    end = time.time() + LIMIT
    while S.logged("returned data") < m and time.time() < end and S.p.poll() is None: serve()
    time.sleep(.02); A.die(r.random() < .7); time.sleep(.02); more.set(); rc = S.end()
    for t in T: t.join()
    c.count("failed_idle"); left = rc == 1 and S.logged("Panicking") and S.logged("(0 connected)"); left and c.count("failed_as_the_last"); judge(c, L, S, rc, W, rep, complete=not left); c.dist("histories", tuple(sorted(tuple(w.got) for w in W)))
KINDS = dict(idle=idle, healthy=healthy, deaths=deaths, waiting=waiting, alldie=alldie)
def stage(c, E):
    """the scripts and the programs they look for, laid out as in a build"""
    d = os.path.join(c.work, "stage")
    for x in ("training/utils", "environment", "mteval", "decoder", "bin"): os.makedirs(os.path.join(d, x))
    for x in ("parallelize.pl", "libcall.pl", "decode-and-evaluate.pl"): shutil.copy(vf.R("training/utils/" + x), d + "/training/utils/" + x)
    shutil.copy(vf.R("environment/LocalConfig.pm"), d + "/environment"); ln = lambda a, b: shutil.copy(a, os.path.join(d, b)); ln(E["server"], "training/utils/sentserver"); ln(E["client"], "training/utils/sentclient"); ln(E["cdec"], "decoder/cdec"); ln(E["score"], "mteval/fast_score")
    for n, t in (("hostname", "echo localhost"), ("netstat", "exit 0")): wr(d + "/bin/" + n, "#!/bin/sh\n%s\n" % t); os.chmod(d + "/bin/" + n, 0o755)
    return d
def scripts(c, E, r, d, i, rep):
    env = {"PATH": d + "/bin:" + os.environ["PATH"], "ASAN_OPTIONS": "detect_leaks=0", "USER": "x", "PERL5OPT": "-I%s -MQuick" % vf.H("perl"), "QUICK_PORTS": d + "/ports"}; w = os.path.join(c.work, "s%d" % i); os.mkdir(w); V = "abcd"; wr(w + "/g", "".join("[X] ||| %s ||| %s ||| f=%.2f\n" % (s, t, r.uniform(-1, 1)) for s in V for t in ("A" + s, "B " + s))); n = r.randint(3, 12); src = [" ".join(r.choice(V) for _ in range(r.randint(1, 5))) for _ in range(n)]; wr(w + "/w", "f 1\n"); wr(w + "/ini", "formalism=scfg\ngrammar=%s/g\nadd_pass_through_rules=true\n" % w); rep = dict(rep, source=src)
    q = c.run([d + "/decoder/cdec", "-c", w + "/ini", "-w", w + "/w"], ("".join(s + "\n" for s in src)).encode(), env, replay=rep)
    if not q: return
    best = q.stdout.decode().split("\n")[:-1]; jobs = r.randint(1, 4)
    if i % 2:
        q = c.run(["perl", d + "/training/utils/parallelize.pl", "--workdir", w, "--use-fork", "-e", w + "/logs", "-j", str(jobs), "--", d + "/decoder/cdec", "-c", w + "/ini", "-w", w + "/w"], "".join(s + "\n" for s in src).encode(), env, replay=rep, key="exit:parallelize")
        if q: c.expect(q.stdout.decode().split("\n")[:-1] == best, "parallelize", lambda: "in parallel: %r; alone: %r" % (q.stdout.decode(), best), rep); c.count("parallel_runs")
    else:
        ref = [[b if r.random() < .5 else b + " z", "A q"][:r.randint(1, 2)] for b in best]; wr(w + "/dev", "".join(" ||| ".join([s] + f) + "\n" for s, f in zip(src, ref)))
        q = c.run(["perl", d + "/training/utils/decode-and-evaluate.pl", "--config", w + "/ini", "--weights", w + "/w", "--input", w + "/dev", "--dir", w, "--jobs", str(jobs)], None, env, replay=rep, key="exit:decode-and-evaluate", cwd=w)
        if q:
            e = [x for x in os.listdir(w) if x.startswith("eval.")][0]; got = open("%s/%s/test.trans" % (w, e)).read().split("\n")[:-1]; c.expect(got == best, "evaluate:translations", lambda: "%r; alone: %r" % (got, best), rep); wr(w + "/refs", "".join(" ||| ".join(f) + "\n" for f in ref)); rpt = open("%s/%s/test.scores" % (w, e)).read(); c.count("evaluation_runs")
            for m, k in (("ibm_bleu", "BLEU"), ("ter", "TER")):
                u = c.run([d + "/mteval/fast_score", "-r", w + "/refs", "-m", m], "".join(b + "\n" for b in best).encode(), env, replay=rep)
                if u: x = re.search(r"%s=(\S+)" % k, rpt); c.expect(x and abs(float(x.group(1)) - float(u.stdout)) < 1e-6, "evaluate:" + m, lambda: "%s; alone: %s" % (rpt, u.stdout.decode()), rep)
    shutil.rmtree(w)
def main():
    c = vf.Check("T06", "history of server, input and workers, distinct by what every worker received"); E = build(); n = c.n(400, 12000); only = os.environ.get("VERIF_ONLY"); ks = [os.environ["KIND"]] if os.environ.get("KIND") else ["healthy", "healthy", "healthy", "deaths", "deaths", "waiting", "alldie", "idle"]; d = stage(c, E)
    def one(i):
        r = random.Random("t06-%d-%d" % (c.seed, i)); k = ks[i % len(ks)]; rep = {"kind": k, "case": i}
        try: KINDS[k](c, E, r, rep)
        except (OSError, AssertionError, ValueError, TypeError, IndexError) as e: c.violation("connection:" + k, "%s: %r" % (k, e), rep)
        finally:
            for x in MINE.__dict__.pop("servers", []): x.p.poll() is None and x.p.kill()
        c.count("cases"); c.count("kind_" + k); c.dist("nontrivial", (k, i))
    with ThreadPoolExecutor(6) as q, ThreadPoolExecutor(2 * vf.JOBS) as p:
        F = [] if only or os.environ.get("KIND") else [q.submit(scripts, c, E, random.Random("t06s-%d-%d" % (c.seed, i)), d, i, {"script": i}) for i in range(c.n(12, 120))]; F += [p.submit(one, i) for i in ([int(only)] if only else range(n))]
        for f in F: f.result()
    c.finish()
