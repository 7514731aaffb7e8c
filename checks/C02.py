"""Abstract interpretation of ExpectationCollection::handle_call over arbitrarily many live expectations with arbitrary verdicts (array summaries): exactly one outcome, one consumption."""


def run(ck):
    ck.rule('one outcome per call, for any set of live expectations')
    ck.irx('dispatch', ['dispatch_one_outcome', 'dispatch_full_exists', 'dispatch_inapplicable', 'dispatch_inapplicable_lists_no_other', 'dispatch_no_match'])
    ck.rule('70 live expectations, one of them, at any of 14 positions, different from the others')
    ck.irx('long', ['long_full_among_none', 'long_full_among_inapplicable', 'long_none', 'long_inapplicable', 'long_inapplicable_among_none', 'long_none_among_inapplicable'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
