from vlib import vf
TECHNIQUE = "statistical monitor of recorded samples against the exactly enumerated posterior (Bernstein bounds), identity of every sample, under ASan+UBSan"
NOTE = "Held on the forests and seeds generated; deviations smaller than the stated bound for the sample size are not seen."
def build():
    b = vf.Builder("asan")
    return {"d13": b.program("d13", [vf.H("d13.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D13", "forest with more than two derivations sampled, or set of weights drawn from, distinct by structure")
    c.harness(build()["d13"], c.n(480, 12000))
    c.finish()
