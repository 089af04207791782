from vlib import vf
TECHNIQUE = "online oracle: objectives and gradients reported by the real code compared with their definitions over all candidates or derivations, in extended precision, and with numerical derivatives; weights written by minrisk_optimize, mr_pro_reduce and mpi_batch_optimize tested to be stationary points of the objective as defined; under ASan+UBSan"
NOTE = ("Held on the inputs run: up to 12 candidates, 3000 derivations, 10 features. The decoder prints the gradient of the conditional log-likelihood and the objective negated, which is taken as its meaning. Optimisers ended by their line search are judged with a wider tolerance.")
def build():
    b = vf.Builder("asan"); g = ["training_utils", "liblbfgs", "decoder", "utils", "mteval"]; G = g + ["klm", "klm_util", "ksearch"]
    o = vf.R("training/crf/cllh_observer.cc")
    return {"t02": b.program("t02", [vf.H("t02.cc")], g), "minrisk": b.program("minrisk_optimize", [vf.R("training/minrisk/minrisk_optimize.cc")], g), "reduce": b.program("mr_pro_reduce", [vf.R("training/pro/mr_pro_reduce.cc")], g), "cdec": b.program("cdec", [vf.R("decoder/cdec.cc")], ["decoder", "utils", "mteval", "klm", "klm_util", "ksearch"]),
            "cllh": b.program("mpi_compute_cllh", [vf.R("training/crf/mpi_compute_cllh.cc"), o], G), "batch": b.program("mpi_batch_optimize", [vf.R("training/crf/mpi_batch_optimize.cc"), o], G)}
def main():
    c = vf.Check("T02", "candidate set or forest, distinct by content")
    e = build()
    c.harness(e["t02"], c.n(3000, 120000), env={"MINRISK": e["minrisk"], "REDUCE": e["reduce"], "CDEC": e["cdec"], "CLLH": e["cllh"], "BATCH": e["batch"]})
    c.finish()
