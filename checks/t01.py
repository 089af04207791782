from vlib import vf
TECHNIQUE = "online oracle: envelopes, error surfaces and line-search results of the real code compared with all derivations listed one by one; mr_dpmert_map and mr_dpmert_reduce run on stored forests; under ASan+UBSan"
NOTE = ("Held on the forests run: up to 10 nodes and 400 derivations, 1 to 4 sentences, 8 metrics. Line searches over switches closer together than four times the tolerance are left out, and corpora whose score is not finite on some interval. Leak reports of the map tool are off.")
def build():
    b = vf.Builder("asan"); g = ["dpmert", "decoder", "utils", "mteval"]
    return {"t01": b.program("t01", [vf.H("t01.cc")], g), "map": b.program("mr_dpmert_map", [vf.R("training/dpmert/mr_dpmert_map.cc")], g), "reduce": b.program("mr_dpmert_reduce", [vf.R("training/dpmert/mr_dpmert_reduce.cc")], g)}
def main():
    c = vf.Check("T01", "forest, distinct by shape and rules")
    e = build()
    c.harness(e["t01"], c.n(2500, 100000), env={"MAP": e["map"], "REDUCE": e["reduce"]})
    c.finish()
