"""Driving the real code and comparing its answers with a reference specification."""

import logging
import os
import sys

REPO = os.environ.get("NOQX_REPO", "/repo")
_loaded = {}


def load():
    """import the solver package from the repository under test (once per process)"""
    if _loaded:
        return _loaded
    sys.dont_write_bytecode = True
    os.chdir(REPO)
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    from noqx import clingo as nclingo
    from noqx import manager
    if not manager.modules:
        manager.load_solvers("solver")
    _loaded.update(clingo=nclingo, manager=manager, run_solver=nclingo.run_solver, Config=nclingo.Config)
    return _loaded


class Inconclusive(Exception):
    pass


def solve_urls(name, url, params, limit, time_limit=20):
    nx = load()
    nx["Config"].max_solutions_to_find = limit
    nx["Config"].time_limit = time_limit
    given = {k: v["default"] for k, v in nx["manager"].modules[name].parameters.items()}      # as the page does
    given.update(params)
    try:
        return nx["run_solver"](name, url, given)["url"]
    except TimeoutError as e:
        raise Inconclusive("time limit") from e
    finally:
        nx["Config"].max_solutions_to_find = 10
        nx["Config"].time_limit = 30


def answers(case, limit):
    """the solver's answers to a case, read back as abstract fillings"""
    from nx.penpa import View, parse
    urls = solve_urls(case.spec.solver, case.board.url(), case.params, limit)
    out = []
    for u in urls:
        out.append(case.spec.view(case, View(parse(u))))
    return out


def check_case(spec, case, rng):
    """returns (status, info)"""
    if case.accept is not None:
        return check_large(spec, case)
    spec.trim(case, rng)
    info = {"expected": len(case.expected)}
    lim = spec.cap + 40
    try:
        got = answers(case, lim)
    except Inconclusive as e:
        return "inconclusive", {"why": str(e)}
    except Exception as e:  # the solver must answer every well-formed board
        info["case"] = case.describe()
        info["why"] = "the solver raised %s: %s" % (type(e).__name__, e)
        return "violation", info
    info["dup"] = len(got) - len(set(got))
    kept = {g for g in got if not spec.skip(case, g)}
    info["got"] = len(kept)
    missing = set() if spec.sound_only else case.expected - kept
    extra = kept - case.expected
    if missing and len(got) >= lim and not extra:
        return "inconclusive", {"why": "answer list truncated"}
    if missing or extra:
        info["case"] = case.describe()
        info["data"] = repr(case.data)
        info["missing"] = [spec.show(case, s) for s in sorted(missing, key=repr)[:3]]
        info["extra"] = [spec.show(case, s) for s in sorted(extra, key=repr)[:3]]
        info["why"] = "%d permitted filling(s) not returned, %d returned filling(s) not permitted (of %d permitted)" % (
            len(missing), len(extra), len(case.expected))
        return "violation", info
    return "ok", info


def check_large(spec, case, limit=24):
    """a board too large to list its fillings: every answer must be permitted, and a short list must hold the secret one"""
    case.expected = {case.secret} if case.secret is not None else set()
    info = {"expected": 1}
    try:
        got = answers(case, limit)
    except Inconclusive as e:
        return "inconclusive", {"why": str(e)}
    except Exception as e:  # the solver must answer every well-formed board
        info["case"] = case.describe()
        info["why"] = "the solver raised %s: %s" % (type(e).__name__, e)
        return "violation", info
    info["dup"] = len(got) - len(set(got))
    kept = {g for g in got if isinstance(g, str) or not spec.skip(case, g)}
    info["got"] = len(kept)
    extra = [g for g in kept if isinstance(g, str) or not case.accept(g)]
    missing = [] if case.secret is None or spec.sound_only or len(got) >= limit or case.secret in kept else [case.secret]
    if missing or extra:
        info["case"] = case.describe()
        info["data"] = repr(case.data)
        info["missing"] = [spec.show(case, s) for s in missing]
        info["extra"] = [spec.show(case, s) for s in sorted(extra, key=repr)[:3]]
        info["why"] = "%d permitted filling(s) not returned, %d returned filling(s) not permitted (large board)" % (
            len(missing), len(extra))
        return "violation", info
    case.expected |= kept
    return "ok", info


def one(spec, rng):
    """make and decide one random case; returns (status, info, case)"""
    from nx.spec import Retry, Unsound
    for _ in range(30):
        try:
            case = spec.make(rng, oracle=answers)
            st, info = check_case(spec, case, rng)
            return st, info, case
        except Retry:
            continue
        except Inconclusive as e:
            return "inconclusive", {"why": str(e)}, None
        except Unsound as u:
            info = {"case": u.case.describe(), "data": repr(u.case.data), "missing": [],
                    "extra": [spec.show(u.case, u.sol)], "expected": 0, "got": 1,
                    "why": "a returned filling is not permitted by the rules"}
            return "violation", info, u.case
    return "inconclusive", {"why": "no usable case in 30 attempts"}, None
