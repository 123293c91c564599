"""Reading calls on a sudoku with comparable results (C02, C03, C15)."""
from itertools import islice

from . import boards


def step_key(s):
    return (type(s).__name__, tuple(s.clues), tuple(s.affected), tuple(s.values))


def _solvers():
    from sudokutools import solvers
    return solvers


def solver_names():
    return [c.__name__ for c in _solvers().SOLVERS]


def solver_class(name):
    for c in _solvers().SOLVERS:
        if c.__name__ == name:
            return c
    raise KeyError(name)


def r_dlx(s, k, other):
    from sudokutools.solve import dlx
    return tuple(boards.nums(x) for x in islice(dlx(s), k))


def r_brute(s, k, other):
    from sudokutools.solve import bruteforce
    return tuple(boards.nums(x) for x in islice(bruteforce(s), k))


def r_solve(s, k, other):
    steps = []
    out = _solvers().solve(s, steps.append)
    return (boards.full_state(out), tuple(map(step_key, steps)))


def r_rate(s, k, other):
    from sudokutools.analyze import rate
    return rate(s)


def r_score(s, k, other):
    from sudokutools.analyze import score
    return score(s)


def r_unique(s, k, other):
    from sudokutools.analyze import is_unique
    return bool(is_unique(s))


def r_solved(s, k, other):
    from sudokutools.analyze import is_solved
    return bool(is_solved(s))


def r_conflicts(s, k, other):
    from sudokutools.analyze import find_conflicts
    return tuple(find_conflicts(s))


def r_conflicts_at(s, k, other):
    from sudokutools.analyze import find_conflicts
    n = s.box_width * s.box_height
    return tuple(find_conflicts(s, (k % n, 0), (0, k % n), (n - 1, k % n)))


def r_hints(s, k, other):
    return tuple(step_key(x) for x in islice(_solvers().hints(s), k * 3))


def r_find(s, k, other):
    cls = _solvers().SOLVERS[k % len(_solvers().SOLVERS)]
    return tuple(step_key(x) for x in islice(cls.find(s), 12))


def r_find_str(s, k, other):
    cls = _solvers().SOLVERS[k % len(_solvers().SOLVERS)]
    return tuple((str(x), repr(x)) for x in islice(cls.find(s), 6))


def r_calc(s, k, other):
    from sudokutools.solve import calc_candidates
    return tuple(frozenset(calc_candidates(s, r, c)) for r, c in islice(s, k, k + 20))


def r_copy(s, k, other):
    c = s.copy(include_candidates=bool(k & 1))
    return boards.full_state(c)


def r_copywork(s, k, other):
    """Work on a copy: the original must not notice."""
    from sudokutools.solve import init_candidates
    c = s.copy(include_candidates=bool(k & 1))
    if k & 2:
        init_candidates(c)
    cls = _solvers().SOLVERS[k % (len(_solvers().SOLVERS) - 1)]
    cls.apply_all(c)
    n = c.box_width * c.box_height
    c[0, 0] = 0
    c.set_candidates(n - 1, n - 1, [1])
    c.remove_candidates(0, n - 1, [1, 2])
    return boards.full_state(c)


def r_eq(s, k, other):
    return (s == other, s != other, s == s, s.equals(other, candidates=bool(k & 1)))


def r_diff(s, k, other):
    return (tuple(s.diff(other)), tuple(other.diff(s)))


def r_walk(s, k, other):
    return (tuple(s), tuple(s.empty()), tuple(s.filled()), s.count(), len(s))


def r_encode(s, k, other):
    return (s.encode(include_candidates=bool(k & 1)),
            s.encode(row_sep="\n", col_sep=","))


def r_view(s, k, other):
    from sudokutools.sudoku import view
    return (view(s, include_candidates=bool(k & 1), align_right=bool(k & 2)), str(s))


def r_geometry(s, k, other):
    n = s.box_width * s.box_height
    r, c = k % n, (k // 3) % n
    return (s.box_at(r, c), tuple(s.row_of(r, c)), tuple(s.column_of(r, c, False)),
            tuple(s.box_of(r, c)), tuple(s.surrounding_of(r, c)), s.get_number(r, c),
            frozenset(s.get_candidates(r, c)))


def r_template(s, k, other):
    from sudokutools.generate import generate_from_template
    try:
        generate_from_template(s, 1 + k % 2)
    except RuntimeError:
        pass
    return None


def r_solve_abort(s, k, other):
    """A progress callback that gives up."""
    class Stop(Exception):
        pass
    left = [k]

    def report(step):
        left[0] -= 1
        if left[0] < 0:
            raise Stop()
    try:
        _solvers().solve(s, report)
    except Stop:
        return "stopped"
    return "finished"


def r_solve_nested(s, k, other):
    """A progress callback that itself calls the library on the sudoku."""
    from sudokutools.analyze import is_unique, find_conflicts
    seen = []

    def report(step):
        if len(seen) < 3:
            seen.append((step_key(step), bool(is_unique(s)), len(tuple(find_conflicts(s))),
                         boards.full_state(s)))
    _solvers().solve(s, report)
    return tuple(seen)


OPS = dict(dlx=r_dlx, bruteforce=r_brute, solve=r_solve, rate=r_rate, score=r_score,
           unique=r_unique, solved=r_solved, conflicts=r_conflicts, conflicts_at=r_conflicts_at,
           hints=r_hints, find=r_find, find_str=r_find_str, calc=r_calc, copy=r_copy,
           copywork=r_copywork, eq=r_eq, diff=r_diff, walk=r_walk, encode=r_encode, view=r_view,
           geometry=r_geometry, template=r_template, solve_abort=r_solve_abort,
           solve_nested=r_solve_nested)
HEAVY = ("solve", "rate", "score", "solve_abort", "solve_nested", "template", "bruteforce")


def iterator(name, s, k, other):
    """The lazily consumed reading calls as (iterator, key function)."""
    from sudokutools.analyze import find_conflicts
    from sudokutools.solve import bruteforce, dlx
    if name == "dlx":
        return dlx(s), boards.nums
    if name == "bruteforce":
        return bruteforce(s), boards.nums
    if name == "hints":
        return _solvers().hints(s), step_key
    if name == "find":
        return _solvers().SOLVERS[k % len(_solvers().SOLVERS)].find(s), step_key
    if name == "conflicts":
        return find_conflicts(s), lambda x: x
    if name == "iter":
        return iter(s), lambda x: x
    if name == "empty":
        return s.empty(), lambda x: x
    if name == "filled":
        return s.filled(), lambda x: x
    if name == "diff":
        return s.diff(other), lambda x: x
    raise KeyError(name)


ITERS = ("dlx", "bruteforce", "hints", "find", "find", "conflicts", "iter", "empty", "filled", "diff")
