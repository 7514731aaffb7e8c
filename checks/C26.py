"""Abstract interpretation of calls and destructions that report, with arbitrary limits, counts, verdicts and origins."""


def run(ck):
    ck.rule('each report carries exactly the call and the expectations it is about, with their locations, verdicts, limits and counts')
    ck.irx('reports')
