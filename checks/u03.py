from vlib import vf
TECHNIQUE = "online model monitor: every conversion mirrored in a string table; sentence splitting compared with an independent splitter; frozen state observed in forked children; under ASan+UBSan"
NOTE = "Held on the conversion histories run: arbitrary bytes (no NUL, no line breaks inside words), words up to 20000 bytes, up to some 10^5 entries, special words included."
def build():
    b = vf.Builder("asan")
    return {"u03": b.program("u03", [vf.H("u03.cc")], ["utils"])}
def main():
    c = vf.Check("U03", "word converted, distinct by content")
    c.harness(build()["u03"], c.n(800, 20000))
    c.finish()
