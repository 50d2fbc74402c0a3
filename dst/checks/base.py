class Check:
    ID = None
    QUICK = 400
    THOROUGH = 20000
    RULE = ""
    STATES = "distinct model states reached (hash of all circuits' operations)"
    REAL = []
    STUB = []
    ASSUMPTIONS = []

    def prepare(self):
        """Imports shared by all runs (before forking)."""

    def run(self, ch, rec):
        raise NotImplementedError
