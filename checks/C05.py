"""Abstract interpretation of expectation handles ending in every way (scope exit, unwinding, assignment, throwing reports) with satisfied and unsatisfied expectations."""


def run(ck):
    ck.rule('withdrawal and report exactly once at the end of the handle; others unaffected')
    ck.irx('life', ['life_ends_012', 'life_ends_210', 'life_ends_102', 'life_throwing_report', 'life_unwinding', 'life_assign_handle', 'life_assign_handle_throwing_report'])
