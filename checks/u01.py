from vlib import vf
TECHNIQUE = "online model monitor: every operation of a random history is mirrored on ordinary containers and the whole state compared after it, under ASan+UBSan"
NOTE = ("Held on the histories run: sparse vectors over double, float and log-domain values with up to 60 entries (crossing the inline/heap switch both ways), "
        "small vectors up to 3000 entries with inline sizes 1, 2 and 5, 2-d and value arrays. Equality of vectors that differ only in stored zeros is not judged; feature 0 is not used as a key.")
def build():
    b = vf.Builder("asan")
    return {"u01": b.program("u01", [vf.H("u01.cc")], ["utils"])}
def main():
    c = vf.Check("U01", "final contents of the vectors of a history, distinct by content")
    c.harness(build()["u01"], c.n(4000, 120000))
    c.finish()
