"""Abstract interpretation of the priorities of lazy and greedy sequences of arbitrary length."""


def run(ck):
    ck.rule('priority order of the consumable elements of one sequence')
    ck.irx('seq', ['seq_priority_lazy', 'seq_priority_greedy', 'seq_priority_sound_lazy', 'seq_priority_sound_greedy'])
    ck.rule('sequences of 140 and 300 elements')
    ck.irx('longseq', ['long_order_lazy', 'long_order_greedy', 'long_far_lazy', 'long_far_greedy'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
    ck.rule('the full match with the highest priority is chosen: any five expectations with any priorities; one of 70 with any higher priority')
    ck.irx('long', ['few_priority', 'long_priority'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
