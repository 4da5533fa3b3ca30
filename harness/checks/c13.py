"""C13: plots depict the numbers (matplotlib is watched at the moment a figure is saved)."""
import io

import core
import gen
import refmodel as R
from common import norm_seen, sized_program

RULE = ("all seven plot calls on distributions from random programs and random count maps (gaps, negatives, wide ranges, single values); "
        "a hook on Figure.savefig records the drawn bars and lines, which are compared with the distribution's own numbers at every "
        "integer; the returned image must be the saved rendering, and no figure may stay open; non-trivial: more than one outcome; "
        "distinct by (plot, count maps)")
REQUIRED = ["empty_programs", "figures_of_the_caller", "images_read_late", "figures_saved", "bars_compared", "line_points_compared", "average_lines", "images_compared", "interpreter_plots"]
CASE_CPU_S = 200.0


def rand_counts(rng, wide=True):
    span = rng.choice([1, 4, 8, 8, 20, 60 if wide else 12])
    off = rng.choice([0, 1, -3, -span, 5, 100])
    out = {}
    for _ in range(rng.randint(1, 9)):
        out[off + rng.randint(0, span)] = rng.choice([1, 1, 2, 3, 10])
    return sorted(out.items())


def wide_counts(rng):
    low, span = rng.choice([-150, 0, 1, 500]), rng.choice([64, 65, 99, 127, 129, 200, 257])
    out = {low: rng.choice([1, 5]), low + span: 1}
    for _ in range(rng.randint(0, 30)):
        out[low + rng.randint(0, span)] = rng.choice([1, 2, 3, 10 ** 6, 2 ** 70])
    return sorted(out.items())


HIST = ["get_histogram", "get_at_least_histogram", "get_at_most_histogram"]
COMPARE = ["get_compare", "get_compare_at_least", "get_compare_at_most"]


def cases(rng, tier, shard, nshards, impl):
    """The whole drawing is sometimes moved far from zero."""
    for case in drawings(rng, tier, shard, nshards, impl):
        if "a" in case and rng.random() < 0.25:
            shift = rng.choice([1000, -1001, 12345, -100000])
            for part in ("a", "b"):
                if part in case:
                    case[part] = [[v + shift, c] for v, c in case[part]]
        yield case


def drawings(rng, tier, shard, nshards, impl):
    def pairs(m):
        return [list(p) for p in m]

    if shard == 0:
        yield {"plots": ["get_compare_histogram"], "a": [[1, 1], [2, 1]], "b": [[2, 1], [3, 1]]}
        yield {"plots": ["get_compare_histogram"], "a": [[1, 1], [2, 1]], "b": [[5, 1], [6, 1]]}
        yield {"plots": ["get_histogram"], "lines": ["d6"]}
        yield {"plots": HIST, "lines": ["d%"]}
        yield {"plots": HIST, "lines": ["3"], "own": 2}
        yield {"plots": HIST, "lines": ["VAR a = d4", "(a == 1) * 10"]}
        yield {"plots": COMPARE + HIST, "a": [[0, 7], [1, 1]], "b": [[0, 7], [1, 1]], "lazy": True}
        for plot in HIST:
            yield {"plots": [plot], "lines": [], "empty": True, "own": 1}
            yield {"plots": [plot], "lines": ["d2 + 1000"]}
            yield {"plots": [plot], "a": [[-2001, 1], [-2000, 2]]}
    plot = (HIST + COMPARE)[shard % 6]
    yield {"plots": [plot], "a": [[v, 1 + v % 3] for v in range(1, 301)], "b": [[-200, 1], [99, 3]]}
    if shard == 2:
        for plot in COMPARE:
            for names in (["same", "same"], ["only first"], ["b", "a"], ["other distribution", "This distribution"]):
                yield {"plots": [plot], "a": [[1, 1], [3, 2]], "b": [[0, 1], [1, 1], [4, 5]], "names": names}
            yield {"plots": [plot, plot], "a": [[1, 1], [3, 2]], "same_object": True, "names": ["me", "me too"], "keywords": True}
            yield {"plots": [plot], "a": [[5, 1]], "b": [[5, 3]]}
            yield {"plots": [plot], "a": [[5, 1]], "b": [[-7, 3]]}
        yield {"plots": ["get_compare_histogram"], "a": [[1, 1], [3, 2]], "same_object": True}
        yield {"plots": ["get_compare_histogram"], "a": [[5, 1]], "b": [[5, 3]]}
        yield {"plots": ["get_compare_histogram"], "a": [[1005, 1], [1007, 2]], "b": [[1008, 3], [1020, 1]]}
    for i in range(5 if tier == "quick" else 60):
        for plot in HIST:
            yield {"plots": [plot], "a": pairs(rand_counts(rng)), "own": rng.choice([0, 0, 2])}
            lines = sized_program(rng, 400, nontrivial=False, n_lines=rng.randint(1, 3), depth=1, max_faces=6)
            yield {"plots": rng.choice([[plot], [plot, plot], rng.sample(HIST, 3)]), "lines": gen.texts(lines), "own": rng.choice([0, 0, 1]), "lazy": rng.random() < 0.5}
        for plot in COMPARE + ["get_compare_histogram"]:
            case = {"plots": [plot], "a": pairs(rand_counts(rng, False)), "b": pairs(rand_counts(rng, False)), "own": rng.choice([0, 0, 2])}
            if plot != "get_compare_histogram" and rng.random() < 0.6:
                case["names"] = rng.choice([["one %d" % i, "two"], ["b", "a"], ["x" * 40, "y"], ["Fighter (2d6)", "Wizard & co"], ["same", "same"], ["other distribution", "This distribution"],
                                            ["x"], ["50% hit", "d%"], ["a\\b", "A"], ["\u00e9t\u00e9", "\u3042"], ["0", "1"]])
                case["keywords"] = rng.random() < 0.4
            yield case
        # several plots of the same objects, the images looked at only afterwards
        for _ in range(2):
            case = {"plots": [rng.choice(HIST + COMPARE) for _ in range(rng.randint(2, 4))], "a": pairs(rand_counts(rng, False)), "b": pairs(rand_counts(rng, False)), "lazy": True,
                    "own": rng.choice([0, 1])}
            yield case
        yield {"plots": [rng.choice(HIST)], "a": pairs(wide_counts(rng))}
        if i % 2 == 0:
            yield {"plots": [rng.choice(COMPARE)], "a": pairs(wide_counts(rng)), "b": pairs(wide_counts(rng))}
    # disjoint or touching comparisons
    for i in range(3 if tier == "quick" else 40):
        a, b = rand_counts(rng, False), rand_counts(rng, False)
        shift = max(v for v, _ in a) - min(v for v, _ in b) + rng.randint(1, 6)
        b = [(v + shift, c) for v, c in b]
        if rng.random() < 0.5:
            a, b = b, a
        yield {"plots": [rng.choice(["get_compare_histogram"] * 2 + COMPARE)], "a": pairs(a), "b": pairs(b)}


class Watch:
    """Hook on matplotlib: what every figure shows at the moment it is saved."""

    def __enter__(self):
        import matplotlib.figure

        self.cls, self.original, self.saved = matplotlib.figure.Figure, matplotlib.figure.Figure.savefig, []
        watch = self

        def savefig(figure, target, *args, **kwargs):
            axes = []
            for axis in figure.axes:
                bars = [(p.get_x(), p.get_width(), p.get_y(), p.get_height()) for p in axis.patches if hasattr(p, "get_width")]
                lines = [(str(l.get_label()), [float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()]) for l in axis.lines]
                legend = axis.get_legend()
                axes.append({"bars": bars, "lines": lines, "legend": [t.get_text() for t in legend.get_texts()] if legend else None})
            start = target.tell() if hasattr(target, "tell") else None
            result = watch.original(figure, target, *args, **kwargs)
            data = target.getvalue()[start:] if hasattr(target, "getvalue") else None
            watch.saved.append((axes, data))
            return result

        self.cls.savefig = savefig
        return self

    def __exit__(self, *_):
        self.cls.savefig = self.original


def table(exact, kind):
    low, high = min(exact), max(exact)
    out, acc = {}, 0
    order = range(high, low - 1, -1) if kind == "at_least" else range(low, high + 1)
    for v in order:
        acc += exact.get(v, 0)
        out[v] = float(exact.get(v, 0)) if kind == "pdf" else float(acc)
    return out


def near(x, y):
    return abs(x - y) < 1e-9


def bars_at(bars, v):
    return sum(h for x, w, y, h in bars if w > 1e-6 and x + 1e-6 < v < x + w - 1e-6)


def bar_problem(bars, wanted):
    """None if the bars show exactly this table: one unit-wide bar per integer, nothing elsewhere."""
    low, high = min(wanted), max(wanted)
    for v, p in wanted.items():
        for spot in (v, v - 0.4, v + 0.4):
            if not near(bars_at(bars, spot), p):
                return "at %s the bars show %r instead of %r" % (spot, bars_at(bars, spot), p)
    for x, w, y, h in bars:
        if abs(h) > 1e-9 and w > 1e-6 and (x < low - 0.5 - 1e-6 or x + w > high + 0.5 + 1e-6):
            return "a bar is drawn outside the possible values"
        if not near(y, 0) and abs(h) > 1e-9:
            return "a bar does not start at zero"
    return None


def run(case, mon):
    from matplotlib import pyplot
    from python_dice.src.probability_distribution.probability_distribution_factory import ProbabilityDistributionFactory

    own = [pyplot.figure() for _ in range(case.get("own", 0))]  # figures of the caller
    mon.event("figures_of_the_caller", len(own))
    try:
        open_before = list(pyplot.get_fignums())
        factory = ProbabilityDistributionFactory()
        one = two = interpreter = None
        if "lines" in case:
            if case.get("empty"):
                mon.event("empty_programs")
                core.observe(getattr(core.new_interpreter(), case["plots"][0]), [])
                mon.check(list(pyplot.get_fignums()) == open_before, "%s of an empty program left a figure open" % case["plots"][0], seen=pyplot.get_fignums())
                return
            counts = core.last_dist(core.new_interpreter(), case["lines"])
            if not mon.check(counts[0] == "ok", "no distribution", seen=counts[1:3]):
                return
            if max(counts[1]) - min(counts[1]) > 400:
                mon.skip("range too wide to draw")
                return
            exact, other = norm_seen(counts[1]), None
            interpreter = core.new_interpreter()
        else:
            exact, other = R.normal({v: c for v, c in case["a"]}), None
            one = factory.create({v: c for v, c in case["a"]})
            if case.get("same_object"):
                other, two = exact, one
            if "b" in case:
                other = R.normal({v: c for v, c in case["b"]})
                two = factory.create({v: c for v, c in case["b"]})
        if len(exact) > 1:
            mon.nontrivial((case["plots"], sorted(exact.items()), case.get("b")))
        waiting = []
        for plot in case["plots"]:
            with Watch() as watch:
                if interpreter is not None:
                    mon.event("interpreter_plots")
                    image = core.observe(getattr(interpreter, plot), list(case["lines"]))
                elif plot in HIST:
                    image = core.observe(getattr(one, plot))
                else:
                    names = case.get("names", []) if plot in COMPARE else []
                    if case.get("keywords"):
                        mon.event("names_by_keyword")
                        image = core.observe(lambda: getattr(one, plot)(two, **dict(zip(("this_distribution_name", "other_distribution_name"), names))))
                    else:
                        image = core.observe(getattr(one, plot), two, *names)
            if not mon.check(image[0] == "ok", "%s raised" % plot, seen=image[1:3], case=case):
                return
            mon.check(list(pyplot.get_fignums()) == open_before, "%s left a figure open (or closed one of the caller's)" % plot, seen=pyplot.get_fignums(), case=case)
            mon.event("figures_saved", len(watch.saved))
            if not watch.saved or not watch.saved[-1][0]:
                mon.skip("no figure was saved through matplotlib")
                continue
            axes, data = watch.saved[-1]
            judge(case, plot, axes[0], exact, other, mon)
            if case.get("lazy"):
                mon.event("images_read_late")
                waiting.append((plot, image[1], data))
            else:
                compare_image(plot, image[1], data, mon, case)
        for plot, image, data in waiting:
            compare_image(plot, image, data, mon, case)
        mon.sample(case)
    finally:
        for figure in own:
            pyplot.close(figure)


def compare_image(plot, image, data, mon, case):
    from PIL import Image

    if not data:
        return
    mon.event("images_compared")
    seen = core.observe(lambda: (image.convert("RGB").tobytes(), image.size))
    drawn = Image.open(io.BytesIO(data))
    mon.check(seen[0] == "ok" and seen[1] == (drawn.convert("RGB").tobytes(), drawn.size), "%s: the returned image is not the drawing" % plot,
              seen=seen[1:2] if seen[0] == "exc" else None, case=case)


def judge(case, plot, axis, exact, other, mon):
    detail = {"case": case}
    kind = "at_least" if "at_least" in plot else ("at_most" if "at_most" in plot else "pdf")
    if plot in HIST:
        problem = bar_problem(axis["bars"], table(exact, kind))
        mon.event("bars_compared", len(axis["bars"]))
        mon.check(problem is None, "%s: %s" % (plot, problem), bars=axis["bars"][:20], **detail)
        mean = float(sum(k * p for k, p in exact.items()))
        mon.event("average_lines")
        found = [l for l in axis["lines"] if l[1] and all(abs(x - mean) < 1e-6 * max(1, abs(mean)) for x in l[1])]
        mon.check(bool(found), "%s: no line at the average %r" % (plot, mean), lines=axis["lines"], **detail)
    elif plot == "get_compare_histogram":
        mon.event("bars_compared", len(axis["bars"]))
        low, high = min(list(exact) + list(other)), max(list(exact) + list(other))
        wanted = {v: float(exact.get(v, 0) - other.get(v, 0)) for v in range(low, high + 1)}
        problem = bar_problem(axis["bars"], wanted)
        if problem:
            both = set(range(min(exact), max(exact) + 1)) & set(range(min(other), max(other) + 1))
            doubled = {v: p * (2 if v in both else 1) for v, p in wanted.items()}
            if bar_problem(axis["bars"], doubled) is None:
                mon.event("oracle_decisions")
                mon.finding("K-COMPARE", "a=%r b=%r" % (case["a"], case.get("b")))
                problem = None
        mon.check(problem is None, "%s: %s" % (plot, problem), bars=axis["bars"][:30], expected=wanted, **detail)
    else:
        names = list(case.get("names", []))
        names += ["This distribution", "other distribution"][len(names):]
        for name, values in zip(names, (exact, other)):
            wanted = table(values, kind)
            lines = [l for l in axis["lines"] if l[0] == name]
            if names[0] == names[1] and len(lines) == 2:
                mon.event("equal_names")
                lines = [l for l in lines if set(l[1]) == {float(v) for v in wanted} and all(near(dict(zip(l[1], l[2]))[float(v)], p) for v, p in wanted.items())][:1]
            if not mon.check(len(lines) == 1, "%s: no line labelled %r" % (plot, name), seen=axis["lines"], **detail):
                continue
            points = dict(zip(lines[0][1], lines[0][2]))
            mon.event("line_points_compared", len(points))
            ok = set(points) == {float(v) for v in wanted} and all(near(points[float(v)], p) for v, p in wanted.items())
            ok = ok and lines[0][1] == sorted(lines[0][1])
            mon.check(ok, "%s: line %r shows other numbers" % (plot, name), seen=lines[0], expected=wanted, **detail)
            mon.check(axis["legend"] is not None and name in axis["legend"], "%s: the legend does not name %r" % (plot, name), seen=axis["legend"])
