"""Abstract interpretation of calls on a mock whose expectations carry side effects of every kind, over arbitrary arguments and histories."""


def run(ck):
    ck.rule('every side effect once per accepted call, in order, after counting and before the result; none otherwise')
    ck.irx('match', ['effects_in_order', 'effects_only_of_the_chosen', 'effects_before_throwing', 'effects_throwing'])
