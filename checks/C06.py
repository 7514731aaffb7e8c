"""Abstract interpretation of ExpectationCollection::handle_call: an observed full match behind which no other full match was created is the one consumed, for any number of expectations."""


def run(ck):
    ck.rule('the latest of the full matches without sequences is consumed')
    ck.irx('dispatch', ['dispatch_latest', 'dispatch_full_exists'])
    ck.rule('withdrawing any of four live expectations leaves the order of the others alone (at most four live at a time)')
    ck.irx('dispatch', ['dispatch_latest_after_removal'], args=['--unroll', '40', '--disj', '400000', '--entries', '100000'])
    ck.rule('70 live expectations, some withdrawn and added')
    ck.irx('long', ['long_latest', 'long_latest_after_removal'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
