"""Result collection, evidence and known findings."""
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = []     # (rule, construct, status, detail)
        self.violations = []
        self.errors = []
        self.notes = []

    def ok(self, rule, construct, detail=""):
        self.obligations.append((rule, construct, "holds", detail))

    def undecided(self, rule, construct, detail=""):
        self.obligations.append((rule, construct, "undecided", detail))

    def bad(self, rule, construct, detail, loc="", key=None):
        """key: stable identity for known findings (function names, no line numbers)."""
        self.obligations.append((rule, construct, "violated", detail))
        self.violations.append(dict(rule=rule, construct=construct, detail=detail, location=loc,
                                    key=key or re.sub(r"\S+\.py:\d+ ?", "", construct).replace(" ", "_")))

    def check(self, cond, rule, construct, detail, loc=""):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail, loc)

    def error(self, msg):
        self.errors.append(msg)
