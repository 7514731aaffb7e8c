"""Abstract interpretation of finalisers over arbitrarily many accepted calls with symbolic values: configured values, references, callables and exceptions."""


def run(ck):
    ck.rule('every accepted call yields the configured value (never moved from), the very object, the result of exactly one invocation, or an equal exception')
    ck.irx('args', ['result_value', 'result_const_value', 'result_reference_to_stored', 'result_const_reference_to_stored', 'result_rvalue_reference_to_stored',
                    'result_value_from_lvalue', 'result_ref', 'result_cref', 'result_ref_as_const', 'result_ref_as_rvalue', 'result_ref_as_value', 'result_of',
                    'result_of_counts', 'result_of_stateful', 'result_of_reference', 'result_throws', 'result_throws_void', 'result_apply',
                    'result_of_throws', 'result_of_const_throws', 'result_apply_throws', 'result_apply_all_throws', 'result_copy_throws'])
