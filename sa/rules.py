from . import rules_d, rules_ab, rules_c, rules_e, rules_b4, rules_g, rules_h, rules_f, rules_i, rules_j
RULES = {}; EXPL = {}
for m in (rules_d, rules_ab, rules_c, rules_e, rules_b4, rules_g, rules_h, rules_f, rules_i, rules_j):
    RULES.update(m.RULES); EXPL.update(getattr(m, 'EXPL', {}))
from . import rules_k
for k, f in rules_k.SMALLS.items(): RULES[k] = rules_k.with_small(k, RULES[k], f)
