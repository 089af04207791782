from vlib import vf
TECHNIQUE = "round-trip monitor: files, strings and encodings produced from a model map are read back by the real readers and compared bit for bit; damaged encodings are decoded in children watched by ASan"
NOTE = ("Held on the maps run: names of any bytes but whitespace and '=', up to 400 bytes (255 in the gradient encoding, whose format stores the length in one byte), any finite double. "
        "Damage that ends an encoding exactly between two entries cannot be told from a shorter vector and is accepted as such. Weights files whose first line starts with the binary magic are excluded.")
def build():
    b = vf.Builder("asan")
    return {"u04": b.program("u04", [vf.H("u04.cc")], ["utils"])}
def main():
    c = vf.Check("U04", "text file or encoded vector, distinct by content")
    c.harness(build()["u04"], c.n(1600, 30000))
    c.finish()
