from vlib import vf
TECHNIQUE = "online oracle: candidate pools of the real code, in memory, written and read back, and as kept by mr_pro_map, minrisk_optimize and rampion_cccp, compared with a model pool of all derivations listed; ranking examples traced to the two candidates they come from; under ASan+UBSan"
NOTE = ("Held on the pools run: up to four rounds of forests with 200 derivations, 12 features. Two candidates closer than one part in a hundred thousand are not told apart. Examples leave out differences below 1e-4 as the tool does; they are printed with six digits.")
def build():
    b = vf.Builder("asan"); g = ["training_utils", "liblbfgs", "decoder", "utils", "mteval"]
    return {"t04": b.program("t04", [vf.H("t04.cc")], g), "map": b.program("mr_pro_map", [vf.R("training/pro/mr_pro_map.cc")], g), "minrisk": b.program("minrisk_optimize", [vf.R("training/minrisk/minrisk_optimize.cc")], g), "rampion": b.program("rampion_cccp", [vf.R("training/rampion/rampion_cccp.cc")], g)}
def main():
    c = vf.Check("T04", "forest, distinct by shape and rules")
    e = build()
    c.harness(e["t04"], c.n(2000, 80000), env={"MAP": e["map"], "MINRISK": e["minrisk"], "RAMPION": e["rampion"]})
    c.finish()
