"""Abstract interpretation of limits: ControlPolicy and the limit factories over all limits, and one expectation of a mock from the public interface over all limits and all histories of calls (inductive loop)."""


def run(ck):
    ck.rule('count, is_satisfied, state() and acceptance of calls against a specification counter for arbitrary (min,max) and arbitrarily many calls')
    ck.irx('c01')
    ck.irx('ctl', ['ctl_limits'])
    ck.rule('limits over long histories (up to 66000 calls), each call followed')
    ck.irx('longseq', ['long_history_exact', 'long_history_range', 'long_history_open', 'long_history_far'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
