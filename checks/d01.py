from vlib import vf
TECHNIQUE = "reference-model monitor: brute-force derivation enumeration vs forest inference, under ASan+UBSan"
NOTE = ("Held on the random forests generated (up to ~12 nodes, 1500 derivations, repeated tails, ties, unreachable nodes, "
        "large weights); every value the inference code returned was compared with the enumerated one.")
def build():
    b = vf.Builder("asan")
    return {"d01": b.program("d01", [vf.H("d01.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D01", "forest with more than one derivation, distinct by hyperedge structure")
    exe = build()["d01"]
    c.harness(exe, c.n(4000, 120000))
    c.finish()
