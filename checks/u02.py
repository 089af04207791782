from vlib import vf
TECHNIQUE = "online oracle monitor: every operation on log-domain numbers compared with the same operation in 80-bit arithmetic (error bounds from the condition of the operation), under UBSan"
NOTE = ("Held on the operand pairs and histories run, logs from -1e6 to 1e6 of both signs including zero, one, equal, opposite and neighbouring operands. "
        "Powers of negative numbers, 0^0 and division by zero are outside the property; star() is not judged.")
def build():
    b = vf.Builder("asan")
    return {"u02": b.program("u02", [vf.H("u02.cc")], [])}
def main():
    c = vf.Check("U02", "operand pair, distinct by value")
    c.harness(build()["u02"], c.n(4000, 200000))
    c.finish()
