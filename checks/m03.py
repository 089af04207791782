from vlib import vf
TECHNIQUE = "offline oracle over the tool's output: every chosen translation and every line of list output of the real mbr_kbest compared with expected losses computed from the k-best files; tool under ASan+UBSan"
NOTE = ("Held on the runs made: up to 5 sentences of up to 45 entries from 1 to 3 files, scales and offsets per file, ten metric names, duplicates and ties (any entry within rounding of the smallest loss is accepted). Files name their sentences in the same order and may end early. "
        "With error metrics no entry is empty (the loss against an empty reference is undefined).")
def build():
    b = vf.Builder("asan")
    return {"m03": b.program("m03", [vf.H("m03.cc")], ["mteval", "utils"]), "mbr": b.program("mbr_kbest", [vf.R("mteval/mbr_kbest.cc")], ["mteval", "utils"])}
def main():
    c = vf.Check("M03", "k-best files and options, distinct by content")
    e = build()
    c.harness(e["m03"], c.n(800, 20000), env={"MBR": e["mbr"]})
    c.finish()
