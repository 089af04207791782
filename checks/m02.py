from vlib import vf
TECHNIQUE = "online oracle over recorded operation histories: sums in random order and grouping, differences, scaling and encodings of the real statistics of every metric compared with sequential accumulation; error surfaces through serialisation and base64; under ASan+UBSan"
NOTE = ("Held on the histories run: statistics from real evaluations and arbitrary finite values, sizes that differ, metric names of up to several hundred characters. Floating-point sums are compared to a relative 1e-5. Statistics without a metric name decode to the name NULL, which is accepted. "
        "In the older interface sentence-error statistics have no encoding; GetZero/GetOne of scorers are deprecated there and not judged.")
def build():
    return {"m02": vf.Builder("asan").program("m02", [vf.H("m02.cc")], ["mteval", "utils", "dpmert"])}
def main():
    c = vf.Check("M02", "corpus of hypotheses and references, distinct by text")
    c.harness(build()["m02"], c.n(5000, 200000))
    c.finish()
