"""Abstract interpretation of every kind of report with arbitrary histories of reporter replacements, with and without another exception in flight;
the framework adapters are analysed against stand-ins of the frameworks' facilities, and have to be accepted with the real frameworks where those are installed."""
import os

KIND = 'both'
ADAPTERS = {'gtest': ('gtest/gtest.h', 'gtest', ()), 'catch2': ('catch2/catch_test_macros.hpp', 'Catch2', ()),
            'catch2_prefixed': ('catch2/catch_test_macros.hpp', 'Catch2', ('-DCATCH_CONFIG_PREFIX_ALL',)),
            'doctest': ('doctest/doctest.h', 'Doctest', ()), 'boost': (None, 'BoostTest', ())}


def run(ck):
    ck.rule('each report is one event at the most recently installed reporter; failures end in exactly one exception unless one is in flight; adapters use the matching facility once')
    ck.irx('reporting')
    for name, (header, adapter, flags) in ADAPTERS.items():
        if header and os.path.exists('/usr/include/' + header):
            ck.units('adapter', '', [(name, '#include "mimic++/adapters/%s.hpp"' % adapter, True)], flags, pch=False)
        ck.irx('adapter_' + name, incs=['harness/stubs'], soft=True)
