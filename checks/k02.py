from vlib import vf
TECHNIQUE = "round-trip monitor: scores, states and vocabulary of the structure built from text are recorded and compared bit for bit with every way of writing and loading its binary image; truncated, altered and mismatched images are loaded in children that must end in an exception (ASan+UBSan)"
NOTE = ("Held on the models run. Any truncation must be refused when the vocabulary is requested or not stored; header fields altered: version, test values, structure type, search version. Bit flips inside the tables themselves carry no checksum in this format and are not judged.")
def build():
    b = vf.Builder("asan")
    return {"k02": b.program("k02", [vf.H("k02.cc")], ["klm", "klm_util"])}
def main():
    c = vf.Check("K02", "model file and structure, distinct by content")
    c.harness(build()["k02"], c.n(600, 15000))
    c.finish()
