import random, os
from concurrent.futures import ThreadPoolExecutor
from vlib import vf
TECHNIQUE = "exactly-once/in-order monitor on self-identifying records at every stage of random worker chains, sorted-permutation oracle for external sorting, delivery monitor for queues and pools; the same workloads and whole language model estimations under ThreadSanitizer, the former also under ASan+UBSan, with injected delays"
NOTE = "Held on the schedules and configurations run: chains of up to 7 workers, 1-6 blocks of 1-40 records, several chains driven by one worker, memory down to four buffers, up to 4 producers and 4 consumers, throwing assignments included. Workers that throw abort the process by design and are not run. Progress bars appear only on a terminal and are not run."
BL = ["-lboost_program_options", "-lboost_thread", "-lboost_system"]
def build():
    d = {f: vf.Builder(f).program("k05", [vf.H("k05.cc")], ["klm_util", "klm_stream"], libs=BL[1:]) for f in ("asan", "tsan")}
    d["lmplz"] = vf.Builder("tsan").program("lmplz", [vf.R("klm/lm/builder/lmplz_main.cc")], ["lmbuilder", "klm", "klm_stream", "klm_util"], libs=BL)
    return d
def main():
    c = vf.Check("K05", "configuration (entry size, blocks, memory, stages, thread counts), distinct by content")
    e = build()
    c.harness(e["asan"], c.n(4000, 100000))
    c.harness(e["tsan"], c.n(2000, 60000))
    def one(i):
        r = random.Random(c.seed * 7919 + i); d = os.path.join(c.work, "e%d" % i); os.makedirs(d)
        text = "".join(" ".join("w%d" % min(60, int(r.paretovariate(.7))) for _ in range(r.randint(1, 9))) + "\n" for _ in range(r.randint(30, 400))).encode()
        n = r.randint(1, 5); mb = max(4 * n + 8, r.choice([64, 256, 1024])); bc = r.randint(1, 4); prune = ["--prune", "0"] + ["1"] * (n - 1) if n > 1 and r.random() < .3 else []
        cmd = [e["lmplz"], "-o", str(n), "--discount_fallback", "-T", os.path.join(d, "t"), "--arpa", os.path.join(d, "a"), "--minimum_block", "%db" % mb, "--sort_block", "%db" % (mb * r.choice([1, 4])), "--block_count", str(bc), "-S", "%db" % (mb * n * bc * 4 + 20000), "--vocab_estimate", "50"] + prune
        p = c.run(cmd, stdin=text, ok=(0, 1, -6, 134), replay={"text": text.decode()})
        if p is None: return
        if p.returncode: 
            c.expect(b"ThreadSanitizer" not in p.stderr, "tsan:estimator", lambda: p.stderr.decode("utf8", "replace")[:600]); c.count("estimations refused for lack of memory"); return
        c.count("estimations"); c.count("cases"); c.dist("nontrivial", hash((text, tuple(cmd[1:]))))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(c.n(48, 800))))
    c.finish()
