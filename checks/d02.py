from vlib import vf
TECHNIQUE = "reference-model monitor: brute-force derivation enumeration vs k-best lists, under ASan+UBSan"
NOTE = ("Held on the random forests generated (spurious ambiguity, ties, repeated tails) for k from 1 to beyond the number of derivations and several request orders.")
def build():
    b = vf.Builder("asan")
    return {"d02": b.program("d02", [vf.H("d02.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D02", "forest with more than two derivations, distinct by hyperedge structure")
    c.harness(build()["d02"], c.n(1600, 40000))
    c.finish()
