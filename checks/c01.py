"""C01: exact rational arithmetic is exact in every operator form."""
from lib import *
import common

EXPLAIN = (
    "Value-flow analysis of every operator, sign test and comparison of the rational scalar: the MIR of each function is "
    "interpreted over symbolic rationals into a canonical polynomial/decision-diagram normal form and compared with the "
    "mathematical definition; all operator impls found in the crate (by value, by reference, assigning) are obligations."
)
RULES = [
    "operator impl returns the field operation of its operands (normal forms of rational functions equal)",
    "sign tests, equality, ordering and three-way comparison equal the sign of the difference, under every branch",
    "from_num_den(n, d) denotes n/d; zero is 0, one is 1, default is 0",
]
HEAD = "CgarRational"


def check(c):
    c.assumptions.append("rug's Rational arithmetic, comparison and sign functions are exact (trusted)")
    common.operator_forms(c, HEAD, floor=12)
    common.scalar_decisions(c, HEAD)
