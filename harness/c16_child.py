"""Child process of check C16: run a batch of sessions, print canonical results as JSON."""
import json
import os
import random
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
import core  # noqa: E402


def canonical(value):
    if isinstance(value, dict):
        return sorted([str(k), canonical(v)] for k, v in value.items())
    if hasattr(value, "get_result_map"):
        return sorted([str(k), str(v)] for k, v in value.get_result_map().items())
    if isinstance(value, float):
        return value
    return str(value)


def same(a, b):
    """Equal results; floats to rounding (the order of summation is not promised)."""
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def run_session(calls, interpreter):
    out = []
    for mode, texts in calls:
        if mode.startswith("rolls:"):
            for _ in range(int(mode[6:])):
                seen = core.observe(interpreter.roll, list(texts))
                out.append(canonical(seen[1]) if seen[0] == "ok" else "raised %s" % seen[1])
            continue
        seen = core.observe(getattr(interpreter, mode), list(texts))
        out.append([mode, canonical(seen[1]) if seen[0] == "ok" else "raised %s: %s" % (seen[1], re.sub("0x[0-9a-f]+", "0x", seen[2]))])
    return out


def main():
    job = json.load(sys.stdin)
    core.import_repo()
    out = []
    for number, calls in enumerate(job["sessions"]):
        random.seed(number)
        out.append(run_session(calls, core.new_interpreter()))
    print(json.dumps(out))


if __name__ == "__main__":
    main()
