from vlib import vf
TECHNIQUE = "oracle monitor over the real index: suffix array, phrase lookup, gapped intersection, precomputed collocations and samplers are compared with a direct scan of random corpora, under ASan+UBSan"
NOTE = "Held on the corpora run: up to 40 sentences of up to 30 words over 1 to 12 word types, empty sentences, repeated sentences, every mixture of frequent and super-frequent patterns. Corpora whose words are the index's own markers (__NULL__, __END_OF_LINE__) are not used."
def build():
    b = vf.Builder("asan", ext=True, extra=["-fopenmp"])
    return {"x01": b.program("x01", [vf.H("x01.cc")], ["extractor", "utils"], libs=["-lboost_filesystem", "-lboost_serialization", "-lboost_program_options", "-lz"])}
def main():
    c = vf.Check("X01", "gapped pattern with more than one place, distinct by corpus and pattern")
    c.harness(build()["x01"], c.n(1200, 40000))
    c.finish()
