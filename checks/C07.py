"""Abstract interpretation of BasicSequence over sequences of arbitrary length with elements in arbitrary states (array summaries, interval/zone relations)."""


def run(ck):
    ck.rule('is_consumable/priority_of/consume/set_* against the order specification for every sequence, position and index')
    ck.irx('seq', ['seq_consumable_sound_lazy', 'seq_consumable_sound_greedy', 'seq_consumable_complete_lazy', 'seq_consumable_complete_greedy',
                   'seq_consume_passes_over', 'seq_consume_later_available', 'seq_consume_keeps_states', 'seq_consume_keeps_unsatisfied', 'seq_mark_satisfied', 'seq_mark_saturated'])
    ck.irx('ctl', ['ctl_sequence_lazy', 'ctl_sequence_greedy'])
    ck.rule('sequences of 140 elements, one of them, at any of 11 positions, unsatisfied')
    ck.irx('longseq', ['long_blocks_lazy', 'long_blocks_greedy', 'long_progress_lazy', 'long_progress_greedy'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
