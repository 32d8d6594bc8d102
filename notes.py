COMMON = ("Bounded: every value of the symbolic inputs within the bounds listed per harness in the evidence file. Floats are modelled as exact reals, "
          "so rounding error is outside the claim; trusted: z3, the symbolic interpreter in symex/ and its shims for math/numpy (every reported counterexample is replayed on the unmodified code).")
NOTE = {}
NOT_CLAIMED = {}
