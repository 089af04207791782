from vlib import vf
TECHNIQUE = "reference-model monitor: the translator's forest against an independent recursive enumeration of licensed derivations, under ASan+UBSan"
NOTE = ("Held on the grammars, sentences and lattices generated (no epsilon rules, no unary cycles, no unary rule over the goal symbol alone; "
        "for lattices the span limit is checked between two bounds: every derivation whose constituents consume at most the limit is there, none with a constituent whose shortest distance exceeds it).")
def build():
    b = vf.Builder("asan")
    return {"d06": b.program("d06", [vf.H("d06.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D06", "input with more than two derivations, distinct by grammar, options and input")
    c.harness(build()["d06"], c.n(3600, 120000))
    c.finish()
