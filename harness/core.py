"""Monitor object, observation of the code under test, and import of /repo."""
import collections
import hashlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class CaseTimeout(BaseException):
    pass


class StopChecking(Exception):
    pass


class Mon:
    """Collects what was observed. Oracles call check()/violation(); nothing else decides."""

    def __init__(self, max_violations=3):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.evaluations = 0
        self.skipped = collections.Counter()
        self.case = None
        self.max_violations = max_violations

    def event(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, key):
        self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, value):
        if len(self.samples) < 4:
            self.samples.append(value)

    def skip(self, why):
        self.skipped[why] += 1

    def violation(self, message, **detail):
        self.violations.append({"message": message, "detail": {k: short(v) for k, v in detail.items()}, "case": self.case})
        if len(self.violations) >= self.max_violations:
            raise StopChecking()

    def check(self, ok, message, **detail):
        self.events["oracle_decisions"] += 1
        if not ok:
            self.violation(message, **detail)
        return ok

    def finding(self, key, text):
        """A violation that matches a recorded finding's mechanism exactly."""
        entry = self.known.setdefault(key, [0, short(text, 160)])
        entry[0] += 1

    def result(self):
        return {
            "events": dict(self.events),
            "distinct": sorted(self.distinct),
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known,
            "evaluations": self.evaluations,
            "skipped": dict(self.skipped),
        }


def short(value, limit=1500):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + "...(%d chars)" % len(text)


def observe(function, *args, **kwargs):
    """Call the code under test; an exception is an observation, not a harness error."""
    try:
        result = function(*args, **kwargs)
        if getattr(function, "__name__", "") in ("roll", "max", "min"):
            for value in result.values() if type(result) is dict else [result]:
                if not isinstance(value, int):  # a roll, a maximum and a minimum are whole numbers
                    return ("exc", "NotAWholeNumber", repr(value), ())
        return ("ok", result)
    except CaseTimeout:
        raise
    except RecursionError as error:
        return ("exc", "RecursionError", str(error))
    except Exception as error:  # noqa: whatever the code raises is data
        return ("exc", type(error).__name__, str(error), type(error).__mro__)


def import_repo():
    sys.path.insert(0, REPO)
    import python_dice

    path = os.path.realpath(python_dice.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("imported python_dice from %s, not from %s" % (path, REPO))
    return python_dice


def plotting():
    """Whether the real plotting library is there (CPython runs use empty stand-ins)."""
    import matplotlib.pyplot

    return hasattr(matplotlib.pyplot, "subplots")


_PARSER = []


def new_interpreter(fresh_parser=False, state=None):
    """Interpreter with its own state. Building the LALR table dominates the cost of a
    fresh interpreter, so most cases pass in a shared parser (a documented constructor argument)."""
    from python_dice import PythonDiceInterpreter

    if fresh_parser or not _PARSER:
        interpreter = PythonDiceInterpreter(starting_state=state)
        if not _PARSER:
            from python_dice.src.python_dice_parser import PythonDiceParser

            _PARSER.append(PythonDiceParser())
        return interpreter
    return PythonDiceInterpreter(parser=_PARSER[0], starting_state=state)


def shared_parser():
    if not _PARSER:
        new_interpreter()
    return _PARSER[0]


def result_map(distribution):
    return dict(distribution.get_result_map())


def last_dist(interpreter, lines):
    """Observation of the distribution of the last line."""
    seen = observe(interpreter.get_probability_distributions, lines)
    if seen[0] != "ok":
        return seen
    if not isinstance(seen[1], dict) or "stdout" not in seen[1]:
        return ("exc", "NoStdout", repr(seen[1]), ())
    return observe(result_map, seen[1]["stdout"])


def is_exc(seen, name):
    return seen[0] == "exc" and any(c.__name__ == name for c in seen[3:4] and seen[3] or ())
