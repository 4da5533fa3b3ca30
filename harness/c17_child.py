"""Child process of check C17: one text or program under a CPU limit set by the parent."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402


def evaluate(lines):
    for mode in ("roll", "max", "min", "get_average", "get_probability_distributions_dict"):
        getattr(core.new_interpreter(), mode)(lines)
    result = core.new_interpreter().get_probability_distributions(lines)["stdout"]
    result.get_result_map()
    result.at_least()
    result.at_most()


def main():
    import resource
    import time

    job = json.load(sys.stdin)
    core.import_repo()
    core.new_interpreter()
    used = time.process_time()
    base = int(used)
    hard = base + job["cpu"] + job.get("cost_cpu", 0) + 3
    resource.setrlimit(resource.RLIMIT_CPU, (base + job.get("cost_cpu", job["cpu"]) + 1, hard))
    print("ready", flush=True)
    if job["kind"] == "text":  # with the usual recursion limit
        seen = core.observe(lambda: core.shared_parser().parse(job["text"])[0])
        if seen[0] == "ok":  # what a user does next with a text that was read, with room for deep recursion
            sys.setrecursionlimit(20000)
            for use in (lambda: str(seen[1]), lambda: seen[1].get_contained_variables(), lambda: seen[1].estimated_cost()):
                core.observe(use)
    else:
        sys.setrecursionlimit(20000)
        for lines in job["lines"]:
            seen = core.observe(lambda: core.new_interpreter().get_estimated_cost(lines))
        resource.setrlimit(resource.RLIMIT_CPU, (hard - 2, hard))
        print("estimated", flush=True)
        for lines in job["lines"]:
            seen = core.observe(evaluate, lines)
            if seen[0] != "ok":
                break
    print(json.dumps({"outcome": seen[0] if seen[0] == "ok" else seen[1], "cpu": round(time.process_time() - used, 3)}))


if __name__ == "__main__":
    main()
