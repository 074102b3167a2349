"""What a check file declares."""


class Sub:
    """One executable statement of (part of) a property.

    gen: Hypothesis strategy factory (called in the driver, CPython)
    run: oracle (called in the worker, PyPy) -> truthy when the case was non-trivial
    weight: share of the examples
    """

    def __init__(self, gen, run, weight=1.0, rule=""):
        self.gen = gen
        self.run = run
        self.weight = weight
        self.rule = rule
