"""P02: LCMMax returns exactly the maximal frequent itemsets, each once, with exact support and tids."""
from mc import dbs, p01_lcm
from mc.core import Space

PROPERTY = "P02"
ASSUMPTIONS = p01_lcm.ASSUMPTIONS


def LCMMax(**kw):
    from skmine.itemsets.lcm import LCMMax as L
    return L(**kw)


def check_db(case, ctx):
    return p01_lcm.check_db(case, ctx, LCMMax, dbs.maximal_frequent)


def check_format(case, ctx):
    return p01_lcm.check_format(case, ctx, LCMMax, dbs.maximal_frequent)


def check_float(case, ctx):
    return p01_lcm.check_float(case, ctx, LCMMax)


def check_relative_db(case, ctx):
    return p01_lcm.check_relative_db(case, ctx, LCMMax, dbs.maximal_frequent)


def spaces(tier):
    q = tier == "quick"
    return p01_lcm.db_spaces(tier, check_db, "LCMMax") + [
        Space("relative", p01_lcm.float_cases(30 if q else 100), check_float,
              "every pair k<=n<=30 (100): relative thresholds k/n, k/n+-0.001 and two-decimal thresholds around k/n"),
        Space("relative-db", p01_lcm.relative_db_cases(q), check_relative_db,
              "every multiset of 2..4 (6) transactions over 3 items, of 2 (4) over 4 items and cyclic databases of 5..13 "
              "transactions; relative thresholds exactly on and halfway between consecutive supports"),
        Space("formats", p01_lcm.format_cases(2 if q else 3), check_format,
              "every sequence of <=2 (3) non-empty transactions over 3 items in 8 container formats x 17 item types"),
    ]
