from vlib import vf
TECHNIQUE = "reference-model monitor: every derivation of the rescored forest against direct application of recorded synthetic feature functions, under ASan+UBSan"
NOTE = "Held on the forests, feature functions, strategies and limits generated."
def build():
    b = vf.Builder("asan")
    return {"d07": b.program("d07", [vf.H("d07.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D07", "forest with more than two derivations rescored with a stateful feature function, distinct by structure")
    c.harness(build()["d07"], c.n(2400, 60000))
    c.finish()
