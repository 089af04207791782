from vlib import vf
TECHNIQUE = "online oracle: optimisers run on random strictly convex objectives whose minimisers a Newton method finds independently; every step of a twin whose state is saved and restored, in fresh and in used objects, compared bit by bit; optimality conditions, with l1 terms, tested at the points returned; under ASan+UBSan"
NOTE = ("Held on the objectives run: quadratic, logistic and pseudo-Huber, up to 30 variables; RProp on well-conditioned ones only. liblbfgs says when rounding errors stop its line search; such ends far from a minimum (about one in 500 runs) are judged by their rate, at most 2%.")
def build():
    b = vf.Builder("asan")
    return {"t03": b.program("t03", [vf.H("t03.cc"), vf.R("training/utils/optimize.cc"), vf.R("training/utils/online_optimizer.cc")], ["liblbfgs", "utils"])}
def main():
    c = vf.Check("T03", "optimisation run, distinct by objective and trajectory")
    e = build()
    c.harness(e["t03"], c.n(4000, 200000))
    ends, far = c.counts.get("minimised with liblbfgs", 0) + c.counts.get("liblbfgs ended by its line search", 0), c.counts.get("gave up far from a minimum", 0)
    if not vf.os.environ.get("VERIF_ONLY"): c.expect(ends and far <= max(3, 0.02 * ends), "wrapped:failed", "liblbfgs gave up far from a minimum in %d of %d runs" % (far, ends), {})
    c.finish()
