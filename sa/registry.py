from . import rules_state as s
from . import rules_random as rr
from . import rules_validate as rv
RULES = {"C01": s.rule_C01, "C02": s.rule_C02, "C03": s.rule_C03, "C04": s.rule_C04, "C05": rr.rule_C05, "C06": rv.rule_C06}
from . import conform
for _p in tuple("C%02d" % i for i in range(7, 24)):
    RULES[_p] = conform.rule(_p)
