"""C26: statistics of a run, and their file form."""
import time

from pyvrp.Statistics import Statistics, _Datum
from pyvrp._pyvrp import CostEvaluator, Solution


def rows_of(lines, delimiter=",", **kwargs):
    """Stands for csv.DictReader of a file with these columns."""
    lines.columns(delimiter, kwargs)
    return [{"runtime": str(line.runtime),
             "current_cost": str(line.current_cost),
             "current_feas": str(line.current_feas),
             "candidate_cost": str(line.candidate_cost),
             "candidate_feas": str(line.candidate_feas),
             "best_cost": str(line.best_cost),
             "best_feas": str(line.best_feas)}
            for line in lines.rows]


def opened(where, mode="r"):
    """Stands for open()."""
    where.opened(mode)
    return where


def writer_to(fh, header, delimiter=",", quoting=0, **kwargs):
    """Stands for csv.DictWriter."""
    fh.columns(header, delimiter, quoting, kwargs)
    return Writer(fh, header)


class Writer:
    def __init__(self, fh, header):
        self.fh, self.header = fh, header

    def writeheader(self):
        self.fh.line(self.header)

    def writerow(self, row):
        self.fh.line([str(row[name]) for name in self.header])


def got_series(collect, log):
    stats = Statistics(collect)
    for x in log:
        time.sleep(1)
        stats.collect(x.current, x.candidate, x.best, x.cost_evaluator)
    return [stats.runtimes, stats.num_iterations, stats.data,
            stats.is_collecting()]


def want_series(collect, log):
    runtimes, data, last = [], [], time.perf_counter()
    for x in log:
        time.sleep(1)
        if collect:
            now = time.perf_counter()
            runtimes.append(now - last)
            last = now
            data.append(_Datum(
                x.cost_evaluator.penalised_cost(x.current),
                x.current.is_feasible(),
                x.cost_evaluator.penalised_cost(x.candidate),
                x.candidate.is_feasible(),
                x.cost_evaluator.penalised_cost(x.best),
                x.best.is_feasible()))
    return [runtimes, len(log) if collect else 0, data, collect]


def got_written(log, where, delimiter, quoting):
    stats = Statistics()
    for x in log:
        stats.runtimes.append(x.runtime)
        stats.num_iterations += 1
        stats.data.append(_Datum(
            int(x.current_cost), x.current_feas > 0, int(x.candidate_cost),
            x.candidate_feas > 0, int(x.best_cost), x.best_feas > 0))
    stats.to_csv(where, delimiter, quoting)


def want_written(log, where, delimiter, quoting):
    where.opened("w")
    header = ["runtime", "current_cost", "current_feas", "candidate_cost",
              "candidate_feas", "best_cost", "best_feas"]
    where.columns(header, delimiter, quoting, {})
    where.line(header)
    for x in log:
        where.line([
            str(x.runtime), str(int(x.current_cost)),
            "1" if x.current_feas > 0 else "0", str(int(x.candidate_cost)),
            "1" if x.candidate_feas > 0 else "0", str(int(x.best_cost)),
            "1" if x.best_feas > 0 else "0"])


def got_read(where, delimiter):
    stats = Statistics.from_csv(where, delimiter)
    return [stats.runtimes, stats.num_iterations, stats.data,
            stats.is_collecting()]


def want_read(where, delimiter):
    lines = where.readlines()
    data = [_Datum(x.current_cost, x.current_feas != 0,
                   x.candidate_cost, x.candidate_feas != 0,
                   x.best_cost, x.best_feas != 0)
            for x in lines.rows]
    return [[x.runtime for x in lines.rows], len(data), data, True]


def got_equal(a, b, one, other):
    return made(a > 0, one) == made(b > 0, other)


def want_equal(a, b, one, other):
    return ((a > 0) == (b > 0) and len(one) == len(other) and
            [x.runtime for x in one] == [x.runtime for x in other] and
            [x.datum for x in one] == [x.datum for x in other])


def got_equalOne(a, b, one, other):
    return made(a > 0, [one]) == made(b > 0, [other])


def want_equalOne(a, b, one, other):
    return ((a > 0) == (b > 0) and one.runtime == other.runtime and
            one.datum == other.datum)


def made(collect, log):
    stats = Statistics(collect)
    for x in log:
        stats.runtimes.append(x.runtime)
        stats.num_iterations += 1
        stats.data.append(x.datum)
    return stats
