from vlib import vf
TECHNIQUE = "reference-cursor monitor: random sequences of line, word, character and number reads are compared with the same reads on the uncompressed string, for every encoding (plain, gzip, bzip2, xz, concatenated and mixed members) and way of opening (mapped, descriptor, pipe with random chunking, istream), under ASan+UBSan"
NOTE = "Held on the files run: up to 100 kB (3 MB thorough), windows and buffers from the smallest the reader accepts, so windows move many times per file. Numbers are judged when the token is a plain decimal number. Truncated archives must end in an exception. Zero padding after a member is not judged."
def build():
    return {"k06": vf.Builder("asan").program("k06", [vf.H("k06.cc")], ["klm_util"], libs=["-lbz2", "-llzma", "-lz"])}
def main():
    c = vf.Check("K06", "file bytes, way of opening and buffer size, distinct by content")
    c.harness(build()["k06"], c.n(1600, 40000))
    c.finish()
