from vlib import vf
TECHNIQUE = "oracle monitor over the real extractor: every score of every rule extracted from random aligned corpora is recomputed from its definition, under ASan+UBSan"
NOTE = "Held on the corpora run (tight phrases): scores over chosen occurrence sets of single patterns and over whole grammars without sampling."
def build():
    b = vf.Builder("asan", ext=True, extra=["-fopenmp"])
    return {"x02": b.program("x02", [vf.H("x02.cc")], ["extractor", "utils"], libs=["-lboost_filesystem", "-lboost_serialization", "-lboost_program_options", "-lz"])}
def main():
    c = vf.Check("X05", "scored rule, distinct by text, pair count, sample count and source count")
    c.harness(build()["x02"], c.n(1200, 50000), env={"X_SCORES": "1"})
    c.finish()
