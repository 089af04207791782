from vlib import vf
TECHNIQUE = "oracle monitor over the real extractor: every rule extracted from random aligned corpora, per pattern and per whole grammar, is judged against all rules derived directly from the links of the occurrences, under ASan+UBSan"
NOTE = "Held on the corpora run: up to 25 sentence pairs of up to 16 words, five families of alignments, gap 1 to 3, span 1 to 15, up to 3 nonterminals. With loose phrases a rule is required only where the nonterminal at the edge starts with a linked word; with sampling switched on only soundness is judged."
def build():
    b = vf.Builder("asan", ext=True, extra=["-fopenmp"])
    return {"x02": b.program("x02", [vf.H("x02.cc")], ["extractor", "utils"], libs=["-lboost_filesystem", "-lboost_serialization", "-lboost_program_options", "-lz"])}
def main():
    c = vf.Check("X02", "extracted rule, distinct by text, links and span limit")
    c.harness(build()["x02"], c.n(1500, 60000))
    c.finish()
