"""Running searches described by case documents."""
import json

from . import boot
from .boot import CLOCK, reset
from .gram import mk_pack, mk_start
from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.exception import (
    ExceededMaxtimeError,
    NoMoreClassesToExpandError,
    SpecificationNotFound,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy

MAXCLASSES = 160


class Violation(Exception):
    """the property is broken for this case"""


class Skip(Exception):
    """case does not exercise the property (counted as trivial)"""


def mk_db(name):
    return {
        "RuleDB": RuleDB,
        "Forget": RuleDBForgetStrategy,
        "Forest": lambda: RuleDBForest(reverse=True),
        "ForestNoRev": lambda: RuleDBForest(reverse=False),
    }[name]()


def start_and_pack(case):
    return mk_start(case), mk_pack(case["pack"])


def mk_searcher(case, ruledb=None, do_reset=True, pack=None):
    if do_reset:
        reset(case.get("steps", (1.0,)), case.get("stream", ()))
    start, own = start_and_pack(case)
    pack = own if pack is None else pack
    return CombinatorialSpecificationSearcher(
        start,
        pack,
        ruledb=ruledb if ruledb is not None else mk_db(case["db"]),
        expand_verified=bool(case.get("expand_verified", False)),
        debug=bool(case.get("debug", False)),
    )


class TooBig(Exception):
    pass


def limit_classes(css, maximum=MAXCLASSES):
    """make the class database raise TooBig beyond `maximum` labels (harness
    bound on the size of the universe; never reported)"""
    db = css.classdb
    orig = db.add

    def add(*a, **k):
        if len(list(db)) >= maximum:
            raise TooBig
        return orig(*a, **k)

    db.add = add
    return css


def _find(css, case, smallest):
    """the ways a user gets a specification from a searcher"""
    via = case.get("via", "auto")
    kw = {"smallest": smallest, "perc": case.get("perc", 1)}
    if via == "status":
        kw["status_update"] = 1
    elif via == "limit":
        for _ in range(12):
            try:
                return css.auto_search(max_expansion_time=0.002, **kw)
            except ExceededMaxtimeError:
                continue
    elif via in ("levels", "mixed"):
        for _ in range(2 if via == "mixed" else 400):
            try:
                return css.get_specification(
                    minimization_time_limit=case.get("steps", (1.0,))[0], smallest=smallest
                )
            except SpecificationNotFound:
                pass
            try:
                css.do_level()
            except NoMoreClassesToExpandError:
                break
    return css.auto_search(**kw)


def run_search(case, css=None, maximum=MAXCLASSES):
    """auto_search of a case -> (searcher, spec or None)"""
    if css is None:
        css = mk_searcher(case)
    limit_classes(css, maximum)
    smallest = bool(case.get("smallest", False))
    if css.strategy_pack.iterative or not hasattr(css.ruledb, "equivdb"):
        smallest = False
    try:
        spec = _find(css, case, smallest)
    except SpecificationNotFound:
        spec = None
    except TooBig as e:
        raise Skip("universe too big") from e
    finally:
        css.classdb.__dict__.pop("add", None)
    return css, spec


def more_levels(css, levels=1, maximum=MAXCLASSES):
    """keep expanding, level by level; True when the universe is exhausted"""
    limit_classes(css, maximum)
    try:
        for _ in range(levels):
            css.do_level()
    except NoMoreClassesToExpandError:
        return True
    except TooBig:
        return False
    finally:
        css.classdb.__dict__.pop("add", None)
    return False


def choose_n(cls, cap=400, top=8):
    """largest n <= top such that the number of objects up to n stays <= cap"""
    tot = 0
    n = -1
    for i in range(top + 1):
        tot += sum(cls.true_terms(i).values())
        if tot > cap and i > 2:
            break
        n = i
    return n


def key_of(case):
    return json.dumps(case, sort_keys=True)
