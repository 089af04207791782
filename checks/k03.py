from vlib import vf
TECHNIQUE = "metamorphic monitor: sentences are assembled from fragments in random ways by the real scorers and every total is judged against the left-to-right definition over the model file's entries; equal boundary states are substituted for each other in random contexts"
NOTE = ("Models give a non-zero backoff only to n-grams that are contexts of longer ones (as estimation produces; the fragment scorer relies on it). Held on the models and bracketings run (orders 2-6; sentences to 16 words). Float sums differ by order of addition: 3e-5 relative. State equality is judged for non-empty fragments (an empty and an ended fragment share a representation by design).")
def build():
    b = vf.Builder("asan")
    return {"k03": b.program("k03", [vf.H("k03.cc")], ["klm", "klm_util"])}
def main():
    c = vf.Check("K03", "model file, distinct by content")
    c.harness(build()["k03"], c.n(3000, 40000))
    c.finish()
