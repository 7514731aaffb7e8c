"""Abstract interpretation of expectations declared with every subset of the clause kinds in every order; each clause's effect is compared with what was declared."""


def run(ck):
    ck.rule('limits, sequences, requirements, side effects and result all take effect once, in every order of declaration; registration happens when bound, not before')
    ck.irx('clauses')
