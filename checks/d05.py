from vlib import vf
TECHNIQUE = "reference-model monitor: derivation multisets before and after each transformation, under ASan+UBSan"
NOTE = ("Held on the random forests, pairs of forests and references generated (rules with at least one target symbol for general intersection).")
def build():
    b = vf.Builder("asan")
    return {"d05": b.program("d05", [vf.H("d05.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D05", "forest with more than two derivations (or non-empty intersection), distinct by structure")
    c.harness(build()["d05"], c.n(5000, 100000))
    c.finish()
