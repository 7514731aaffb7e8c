"""Abstract interpretation of ExpectationCollection::handle_call over arbitrarily many live expectations any of which may throw while matching (exception edges of the IR are followed)."""


def run(ck):
    ck.rule('a throwing expectation is reported once with its exception and is otherwise unavailable')
    ck.irx('dispatch', ['dispatch_exception', 'dispatch_other_exception', 'dispatch_no_exception', 'dispatch_one_outcome'])
    ck.rule('70 live expectations, one or all but one of which throw')
    ck.irx('long', ['long_full_among_throwing', 'long_throwing_among_none', 'long_inapplicable_among_throwing'], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
    ck.rule('requirements of every kind (predicates, comparisons, plain values, custom matchers and policies, arguments, projections) that throw')
    ck.irx('match', ['throws_predicate', 'throws_inverted_predicate', 'throws_comparison', 'throws_less', 'throws_value', 'throws_own_matcher', 'throws_own_policy',
                     'throws_argument', 'throws_projection'])
