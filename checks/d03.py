from vlib import vf
TECHNIQUE = "round-trip monitor: full dumps of forests and lattices before writing and after reading in another process, under ASan+UBSan"
NOTE = ("Held on the random forests and lattice texts generated. Word alignments of rules are not part of the stored format; rules have at most 64 symbols per side (the format's own limit).")
def build():
    b = vf.Builder("asan")
    return {"d03": b.program("d03", [vf.H("d03.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D03", "forest with several edges or lattice with several positions, distinct by full content")
    c.harness(build()["d03"], c.n(1200, 20000))
    c.finish()
