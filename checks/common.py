"""Shared by the property checks: command line, standard assumptions."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
elif "--quick" in sys.argv or "VERIF_TIER" not in os.environ:
    os.environ["VERIF_TIER"] = "quick"
from engine.check import Check, Result          # noqa: E402

RAW_ASSUMPTIONS = [
    "operands are canonical (below the modulus), as the raw interface requires",
    "the encoder's instruction semantics are those of the processor; cross-checked on concrete runs of the natively "
    "executed build (traces_validated_against_impl)",
]
GMP = "GMP's low-level (mpn) and integer (mpz) functions meet their documentation; the calls are modelled, not encoded"
ELEM = "elements are well formed on entry: long values below q, the two halves of a short Montgomery element agree"
ALIASES = {"rab": ["", "ra", "rb", "ab", "rab"], "ra": ["", "ra"], "rai": ["", "ra"], "ab": ["", "ab"], "sw": ["", "ra"],
           "a": [""], "r": [""], "ri": [""], "ria": ["", "ra"]}


def primes(quick, thorough=()):
    return list(quick) + ([] if os.environ["VERIF_TIER"] == "quick" else [p for p in thorough if p not in quick])


def finish(c):
    sys.exit(c.main())
