from vlib import vf
TECHNIQUE = "online oracle over every evaluation: statistics and scores of each real metric compared with an independent computation from its definition, edit counts checked against explicit shift-and-edit scripts; under ASan+UBSan"
NOTE = ("Held on the sentences run: up to 70 words, 1 to 4 references, repeated words, empty hypotheses, multi-byte characters. TER's edit counts are checked for validity and against the plain edit distance, not for optimality; where several references "
        "are equally close either length is accepted. CER counts bytes. METEOR (an external program) is not run.")
def build():
    b = vf.Builder("asan")
    return {"m01": b.program("m01", [vf.H("m01.cc")], ["mteval", "utils"]), "fast": b.program("fast_score", [vf.R("mteval/fast_score.cc")], ["mteval", "utils"])}
def main():
    c = vf.Check("M01", "hypothesis and reference set, distinct by text")
    e = build()
    c.harness(e["m01"], c.n(1600, 100000), env={"FAST_SCORE": e["fast"]})
    c.finish()
