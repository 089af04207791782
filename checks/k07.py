from vlib import vf
TECHNIQUE = "model-based monitoring: random histories of table, packing, search, sort, intersection, token, pool and pointer-compression operations are compared after each step with std::map, a bit array and the ordinary definitions, under ASan+UBSan"
NOTE = "Held on the histories run: hashes that collide on purpose, every width of field, every alignment, key types of 2, 4 and 8 bytes. Keys equal to the table's own empty marker are outside its contract and not used."
def build():
    b = vf.Builder("asan")
    return {"k07": b.program("k07", [vf.H("k07.cc")], ["klm", "klm_util"])}
def main():
    c = vf.Check("K07", "history, distinct by its random stream (tables, fields, searches, sorts with more than two elements)")
    c.harness(build()["k07"], c.n(4000, 150000))
    c.finish()
