from vlib import vf
TECHNIQUE = "model-based round-trip monitor: rules rendered to text from a model, read by the real lexer and grammar, compared field by field and printed/re-read, under ASan+UBSan"
NOTE = ("Held on the grammar texts generated: all documented forms (synchronous, monolingual, phrase-table, projection levels, named and positional features, "
        "alignments, trees, blank lines, missing final newline), up to 99 gaps and 600 words a side; printed feature values compared to six digits.")
def build():
    b = vf.Builder("asan")
    return {"d10": b.program("d10", [vf.H("d10.cc")], ["decoder", "utils", "mteval"])}
def main():
    c = vf.Check("D10", "rule read from a generated grammar, distinct by content")
    c.harness(build()["d10"], c.n(1600, 40000))
    c.finish()
