"""Abstract interpretation of everything that makes texts, with the formatting backend, streams and strings replaced by a recorder of literal text and arguments: the recorded text and the
positions of the arguments in it are compared with the facts, which stay symbolic."""

NOTE = 'The words by which a fact is told (e.g. passed/failed, saturated) are those of the current texts; texts made by means the recorder does not follow are reported as undecided.'


def run(ck):
    ck.rule('each text has every fact exactly once, at the place that says so, and nothing else')
    ck.irx('wording', args=['--unroll', '4000', '--disj', '400000', '--entries', '100000'], incs=['harness/stubs_fmt'])
