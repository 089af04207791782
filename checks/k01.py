from vlib import vf
TECHNIQUE = "differential monitor: each structure loaded by the real readers from a random ARPA file is queried along random histories and judged against the backoff definition evaluated over the file's entries (ASan+UBSan build)"
NOTE = ("Held on the models run (orders 2-6, up to 12 words, up to 150 n-grams per order; every n-gram's context listed, suffixes possibly missing). Scores are compared to 2e-5 relative because the structures add floats in another order. "
        "Matched order and rest costs are judged only where no lower order is missing (a blank inserted by the loader counts as matched there). Quantised models are exact only with a bin for every value, otherwise bounded by the values of the order.")
def build():
    b = vf.Builder("asan")
    return {"k01": b.program("k01", [vf.H("k01.cc")], ["klm", "klm_util"])}
def main():
    c = vf.Check("K01", "model file, distinct by content")
    c.harness(build()["k01"], c.n(1500, 40000))
    c.finish()
