"""Abstract interpretation of requirements, side effects and finalisers selecting arguments (every selection of up to three of three equal-typed parameters, every
kind of parameter, every call operator), comparing object identities; compile witnesses for indices inside and outside of the parameter list."""
KIND = 'both'
PRE = 'using namespace mimicpp; constexpr auto act = [](auto&... a) { return 0; }; constexpr auto& _ = matches::_;'


def run(ck):
    ck.rule('every observer is shown exactly the selected arguments in the written order, as the objects the caller passed; other indices are rejected')
    ck.irx('args', ['arg_requirement_kinds', 'arg_positional_kinds', 'arg_apply_arg_kinds', 'arg_apply_args_kinds', 'arg_apply_all_kinds',
                    'arg_predicate_projection', 'arg_selections', 'arg_all_selection', 'arg_returned', 'arg_frontends'])
    cases = []
    for n in range(4):
        sig = 'int(%s)' % ', '.join(['int'] * n)
        exp = 'Mock<%s> m{}; void f() { ScopedExpectation e = m.expect_call(%s) and finally::returns(1) and ' % (sig, ', '.join(['_'] * n))
        fin = 'Mock<%s> m{}; void f() { ScopedExpectation e = m.expect_call(%s) and ' % (sig, ', '.join(['_'] * n))
        for i in (n - 1, n, n + 1):
            if i < 0:
                continue
            ok = i < n
            cases += [('arg%d_of_%d' % (i, n), exp + 'expect::arg<%d>(_); }' % i, ok),
                      ('apply_arg%d_of_%d' % (i, n), exp + 'then::apply_arg<%d>(act); }' % i, ok),
                      ('returns_arg%d_of_%d' % (i, n), fin + 'finally::returns_arg<%d>(); }' % i, ok),
                      ('returns_apply_result_of%d_of_%d' % (i, n), fin + 'finally::returns_apply_result_of<%d>(act); }' % i, ok)]
            if n:
                cases += [('apply_args0_%d_of_%d' % (i, n), exp + 'then::apply_args<0, %d>(act); }' % i, ok),
                          ('apply_args%d_0_of_%d' % (i, n), exp + 'then::apply_args<%d, 0>(act); }' % i, ok),
                          ('returns_apply_result_of0_%d_of_%d' % (i, n), fin + 'finally::returns_apply_result_of<0, %d>(act); }' % i, ok)]
        for k in (n - 1, n, n + 1):
            if k >= 0:
                cases.append(('positional%d_of_%d' % (k, n), 'Mock<%s> m{}; void f() { ScopedExpectation e = m.expect_call(%s) and finally::returns(1); }' % (sig, ', '.join(['_'] * k)), k == n))
    ck.units('indices', PRE, cases)
    # selected arguments keep their declared types: seen through the overload chosen by an action that only accepts the declared type
    D = ', '.join
    types = ['int', 'int&', 'const int&', 'int&&', 'const int&&', 'double', 'char*']
    ref = lambda t: t if t.endswith('&') and not t.endswith('&&') else (t[:-2] if t.endswith('&&') else t) + '&'
    pairs = [(a, b) for a in types for b in types]
    body = []
    for k, (a, b) in enumerate(pairs):
        # an action with exactly the lvalue reference parameters (non-deduced, so that another order of different types is not accepted)
        body.append('void p%d(Mock<int(%s, %s)>& m) { ' % (k, a, b)
                    + 'ScopedExpectation e = m.expect_call(_, _) and finally::returns_apply_result_of<1, 0>(Only<%s, %s>{}) and then::apply_args<0, 1, 0>(Only<%s, %s, %s>{}) and then::apply_all(Only<%s, %s>{}) '
                    % (ref(b), ref(a), ref(a), ref(b), ref(a), ref(a), ref(b))
                    + 'and then::apply_arg<1>(Only<%s>{}); }' % ref(b))
    only = PRE + '''
    template <class... Want> struct Only { template <class... T> requires (sizeof...(T) == sizeof...(Want)) int operator()(T&&...) const { static_assert(std::is_same_v<std::tuple<T&&...>, std::tuple<Want&&...>>); return 0; } };'''
    ck.units('declared-types', only, [('block%d' % (i // 7), '\n'.join(body[i:i + 7]), True) for i in range(0, len(body), 7)])
