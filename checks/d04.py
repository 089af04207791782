from vlib import vf
TECHNIQUE = "reference-model monitor: edge margins from brute-force derivation enumeration vs pruned forests, under ASan+UBSan"
NOTE = ("Held on the random forests and settings generated. Edges whose margin equals the cutoff up to rounding may go either way; best derivation survival is required for the max criterion (the one the decoder uses).")
def build():
    b = vf.Builder("asan")
    return {"d04": b.program("d04", [vf.H("d04.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D04", "forest with more than two derivations, distinct by hyperedge structure")
    c.harness(build()["d04"], c.n(4000, 60000))
    c.finish()
