"""Abstract interpretation of attaching an expectation to every choice of sequences for every position, in one or several steps, for every order of their addresses."""


def run(ck):
    ck.rule('rejection exactly for duplicates; registration exactly once in each sequence')
    ck.irx('joins')
