"""Abstract interpretation of every special member function of watched objects with and without expectations on their watches."""


def run(ck):
    ck.rule('one call per death and per move on the watch the object carries; copies carry fresh ones')
    ck.irx('watch')
