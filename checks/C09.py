"""Abstract interpretation of the sequence destructor path over sequences of arbitrary length with elements in arbitrary states."""


def run(ck):
    ck.rule('one error exactly when some element from the cursor on is unsatisfied')
    ck.irx('seq', ['seq_end_complete', 'seq_end_incomplete_lazy', 'seq_end_incomplete_greedy'])
    ck.irx('ctl', ['ctl_sequence_lazy', 'ctl_sequence_greedy'])
    ck.rule('sequences of 140 elements that end')
    ck.irx('longseq', ['long_end_lazy', 'long_end_greedy'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
