"""Abstract interpretation of one expectation with arbitrary user-supplied requirements, limits and sequences: the reported verdict against the conjunction of all answers."""


def run(ck):
    ck.rule('verdict and recorded answers against the conjunction of requirements, limits and sequences, all answers arbitrary')
    ck.irx('match', ['match_conjunction', 'match_sequences_lazy', 'match_sequences_mixed'])
