class Result:
    """Outcome of one check."""

    def __init__(self):
        self.violations = []
        self.undecided = []
        self.coverage = {}
        self.assumptions = []
