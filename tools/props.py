#!/usr/bin/env python3
"""Single source of the property list; `python3 tools/props.py` rewrites properties.jsonl."""
import json, os
H = "include/mimic++/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=[f if "/" in f and f.startswith("include") else H + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Call limits are exact and invalid limits are rejected",
     """An expectation with limits (min, max) is satisfied exactly while its number of accepted calls lies within [min, max],
     accepts another call only while that number is below max (and its sequences allow it), counts every accepted call exactly once,
     and reports saturation exactly at max. Limits with a negative bound or max < min are rejected with an invalid_argument exception;
     exactly n, at least n, at most n, once and twice mean [n,n], [n,INT_MAX], [0,n], [1,1] and [2,2], and the default is once.""",
     ["inputs", "histories"], "all int pairs (min,max), all call histories of any length",
     "tests sample a few limit pairs and short histories; the core unit tests do not even run in this environment",
     ["ControlPolicy.hpp"],
     [("limit validation and counting", H + "ControlPolicy.hpp: TimesConfig, ControlPolicy")],
     [("min/max/count", "limits and number of accepted calls", H + "ControlPolicy.hpp: ControlPolicy")],
     ["ControlPolicy::is_satisfied/is_saturated/is_applicable/state()", "expect::times/at_least/at_most/once/twice"])

prop("C02", "Every call ends in exactly one outcome and one consumed expectation",
     """For any set of live expectations, a call ends in exactly one way: one fully matching, applicable expectation is reported as full match,
     then consumed once, then finalised once, and its result is what the caller gets, while no other expectation is consumed or finalised;
     or, if none matches fully but some match except for exhausted limits or sequence order, one inapplicable-match report is made and nothing is consumed;
     or else one no-match report is made and nothing is consumed. A call that has not been matched never returns normally to the caller.""",
     ["inputs", "histories"], "any number of live expectations, any verdict of each of them, any call",
     "tests use one to three expectations with hand-picked verdicts; the property ranges over every collection size and verdict vector",
     ["Expectation.hpp", "Reporter.hpp"],
     [("call dispatch", H + "Expectation.hpp: ExpectationCollection::handle_call"), ("report forwarding", H + "Reporter.hpp: detail::report_*")],
     [("expectation storage", "live expectations in creation order", H + "Expectation.hpp: ExpectationCollection")],
     ["ExpectationCollection::handle_call", "IReporter virtual functions", "Expectation virtual functions"])

prop("C03", "An expectation matches exactly when all its requirements accept",
     """An expectation's verdict on a call is no match if any attached requirement rejects the call, inapplicable if all requirements accept but its
     limits are exhausted or one of its sequences forbids it, and full otherwise; each attached requirement is asked about exactly that call and its answer
     is recorded unchanged and in order of attachment. The expectation counts as satisfied exactly when its limits and every attached requirement are satisfied.""",
     ["inputs", "programs"], "any list of requirements with any answers, any limit/sequence state",
     "tests instantiate a few policies with fixed answers; the conjunction must hold for every combination",
     ["Expectation.hpp", "Reports.hpp", "ControlPolicy.hpp"],
     [("matching", H + "Expectation.hpp: BasicExpectation::matches/is_satisfied"), ("classification", H + "Reports.hpp: evaluate_match_report")],
     (), ["BasicExpectation::matches", "BasicExpectation::is_satisfied", "evaluate_match_report"])

prop("C04", "Exceptions thrown while matching are reported and contained",
     """If deciding whether an expectation matches throws, exactly one unhandled-exception report carrying that very exception is made for that expectation,
     the expectation is treated as not available for this call (neither consumed nor listed in any report), and the remaining expectations are still considered.
     The exception itself does not reach the caller.""",
     ["inputs", "fault_sequences"], "any subset of expectations throwing, of any exception type, at any position",
     "tests cover a single throwing expectation",
     ["Expectation.hpp", "Reporter.hpp"],
     [("guarded matching", H + "Expectation.hpp: detail::make_match_report")], (),
     ["ExpectationCollection::handle_call", "IReporter::report_unhandled_exception"])

prop("C05", "Unfulfilled expectations are reported exactly once, when they end",
     """When the handle of an expectation is destroyed, that expectation is withdrawn from its mock exactly once and no other expectation is affected;
     if it is not satisfied at that time exactly one unfulfilled report is made, after the withdrawal, and none is made if it is satisfied.
     An exception raised by the reporter for it leaves the destructor to the surrounding code, with the expectation already withdrawn and the storage unlocked.""",
     ["histories", "fault_sequences"], "any number of live expectations, any satisfaction state, throwing or silent reporters",
     "tests destroy single expectations with fixed states",
     ["Expectation.hpp", "Reporter.hpp"],
     [("withdrawal", H + "Expectation.hpp: ExpectationCollection::remove, ScopedExpectation::~ScopedExpectation, Model::~Model")], (),
     ["ScopedExpectation lifetime", "IReporter::report_unfulfilled_expectation"])

prop("C06", "Without sequences the most recently created match is chosen",
     """If none of the live expectations that fully match a call is attached to a sequence, the most recently created one of them is consumed,
     whatever other expectations exist and whichever have been withdrawn before.""",
     ["inputs", "histories"], "any number of live expectations, any verdict vector, any removal history",
     "tests use two expectations",
     ["Expectation.hpp", "Sequence.hpp"],
     [("search order and tie break", H + "Expectation.hpp: handle_call, detail::pick_best_match; Sequence.hpp: detail::has_better_rating")], (),
     ["ExpectationCollection::handle_call"])

prop("C07", "A sequence is only ever consumed in order",
     """An element of a sequence can be matched only if every earlier element from the current position on is already satisfied, it has not been passed over,
     and it is not saturated itself; conversely such an element can always be matched.
     Matching an element makes it the current position, after which no earlier element can be matched any more, and it never changes the state of other elements.""",
     ["histories", "inputs"], "sequences of any length, any history of matches and completions",
     "tests use sequences of a few elements and fixed histories",
     ["Sequence.hpp", "ControlPolicy.hpp"],
     [("position and gating", H + "Sequence.hpp: BasicSequence::is_consumable/consume/set_satisfied/set_saturated"),
      ("expectation side", H + "ControlPolicy.hpp: ControlPolicy::is_applicable/consume/update_sequence_states")],
     [("cursor, entries", "current position and the state of every element", H + "Sequence.hpp: BasicSequence")],
     ["ControlPolicy", "BasicSequence public functions"])

prop("C08", "Lazy sequences make least, greedy sequences most progress",
     """Among elements of one sequence that can be matched at the same time, a lazy sequence gives strictly higher priority to the earlier element and a greedy
     sequence strictly higher priority to the later one, and an element that can not be matched has no priority.
     When all fully matching expectations of a call are attached to exactly the same single sequence, the one with the highest priority in it is consumed,
     independently of creation order.""",
     ["inputs", "histories"], "any sequence length, position and pair of elements",
     "tests use two elements at fixed positions",
     ["Sequence.hpp", "Expectation.hpp"],
     [("priorities", H + "Sequence.hpp: LazyStrategy, GreedyStrategy, BasicSequence::priority_of, detail::has_better_rating"),
      ("selection", H + "Expectation.hpp: detail::pick_best_match")], (),
     ["BasicSequence::priority_of", "ExpectationCollection::handle_call"])

prop("C09", "A sequence that ends incomplete is reported exactly once",
     """When a sequence ends while some element from its current position on has not reached its minimum, exactly one error is reported;
     when all of them have, none is reported.""",
     ["histories", "inputs"], "sequences of any length in any state",
     "tests use sequences of at most a few elements",
     ["Sequence.hpp"],
     [("end-of-life check", H + "Sequence.hpp: BasicSequence::~BasicSequence")], (),
     ["BasicSequence destruction", "IReporter::report_error"])

prop("C10", "An expectation joins each sequence at most once",
     """Attaching an expectation to the same sequence twice, in one step or in several, is rejected with an invalid_argument exception, wherever the duplicate
     stands among the attached sequences; attaching it to distinct sequences is never rejected and registers it exactly once with each of them.""",
     ["inputs", "programs"], "any number of sequences in any order, attached in any grouping",
     "tests cover particular pairs and triples",
     ["Sequence.hpp", "ControlPolicy.hpp"],
     [("duplicate test", H + "Sequence.hpp: detail::Config"), ("registration", H + "ControlPolicy.hpp: detail::make_sequence_entries")], (),
     ["expect::in_sequence/in_sequences", "builder operator &&"])

prop("C11", "A mock is callable exactly as its signatures say",
     """A mock accepts a call through an object of given constness and value category exactly when a member function declared with that signature would,
     is noexcept exactly when the signature is, returns the declared type, and the call reaches expectations together with the object's actual
     qualification (constness and value category of the signature). Mocks with several signatures resolve calls like an equivalent overload set.""",
     ["programs"], "all 12 cv/ref qualification forms with and without noexcept, all pairs of them, any parameter and return types",
     "tests instantiate a few signatures; the property is about every legal one",
     ["Mock.hpp"],
     [("call operators", H + "Mock.hpp: detail::BasicMockFrontend specialisations, Mock")], (),
     ["Mock<Signatures...>::operator()", "expect_call"])

prop("C12", "Signature traits and overload legality agree with the language",
     """For every function signature the library's traits deliver exactly the parts the language defines (return type, parameter list, constness, value category,
     noexcept), adding and removing parts are exact inverses leaving all other parts unchanged, and two non-variadic signatures are accepted as overloads of one
     mock exactly when the language accepts them as overloads of one member function (parameter lists of C-variadic signatures are outside the statement).""",
     ["programs"], "all 24 qualification forms and all pairs of them over equal and different parameter lists",
     "tests list hand-picked signatures",
     ["TypeTraits.hpp"],
     [("traits", H + "TypeTraits.hpp: signature_* traits, is_overloadable_with, is_overload_set")], (),
     ["signature traits", "Mock instantiation"])

prop("C13", "Arguments reach requirements and actions by reference and by index",
     """Requirements, actions and finalisers that select call arguments by index receive exactly the argument at that index, in the order the indices are
     written, and as the very object the caller passed (no copy), with the declared category of the parameter; an index that does not exist does not compile.""",
     ["programs", "inputs"], "any parameter list and any index selection",
     "tests select fixed indices on fixed types; copies and swapped equal-typed arguments need identities, not values, to be seen",
     ["ExpectationPolicies.hpp", "Call.hpp", "Mock.hpp"],
     [("selection", H + "ExpectationPolicies.hpp: expect::arg, then::apply_arg/apply_args/apply_all, finally::returns_arg/returns_apply_*, detail::apply_*")], (),
     ["user callables"])

prop("C14", "Side effects run exactly once per accepted call, in order",
     """For every accepted call each attached side effect runs exactly once, in order of attachment, after the call has been accepted and counted and before the
     result is produced; for calls that are not accepted, and for expectations that are not chosen, none runs. An exception raised by a side effect reaches the caller of a
     mock that may throw; the call stays counted, and neither later side effects nor the result run for it.""",
     ["programs", "histories"], "any number of side effects mixed with requirements",
     "tests attach one or two actions",
     ["Expectation.hpp", "ExpectationPolicies.hpp"],
     [("consumption order", H + "Expectation.hpp: BasicExpectation::consume, handle_call"), ("side effects", H + "ExpectationPolicies.hpp: SideEffectAction")], (),
     ["user callables attached with then::*"])

prop("C15", "A configured result is produced unchanged on every accepted call",
     """An expectation that returns a value yields the configured value on every accepted call, never a moved-from or earlier-consumed one; one that returns a reference yields
     that very object; one that returns the result of a callable invokes it exactly once per accepted call and yields its result; one that throws raises an
     exception equal to the configured one on every accepted call. An exception raised by the callable, or while producing the result, reaches the caller.""",
     ["histories", "programs"], "any value type, any number of calls",
     "tests call one or two times with trivially copyable values",
     ["ExpectationPolicies.hpp"],
     [("finalisers", H + "ExpectationPolicies.hpp: ReturnsResultOf, Throws, finally::*")], (),
     ["mock call results"])

prop("C16", "Invalid expectation declarations do not compile, valid ones do",
     """Specifying limits twice, specifying a result twice, omitting the result for a non-void signature, passing a requirement that can not be applied to the parameter,
     a result not convertible to the return type, or reusing a builder without moving it fails to compile; every combination and order of clauses that breaks none of these rules
     compiles. Mocks, builders and expectation handles can be moved but not copied.""",
     ["programs"], "all orders of the clause kinds (limits, sequences, requirement, side effect, result)",
     "a program that must not compile can not be a unit test, and tests use few clause orders",
     ["ExpectationBuilder.hpp", "ExpectationPolicies.hpp", "Mock.hpp", "Expectation.hpp"],
     [("builder typestate", H + "ExpectationBuilder.hpp: BasicExpectationBuilder::operator &&, finalize")], (),
     ["compiler acceptance"])

prop("C17", "Every declared clause takes effect, in any order of declaration",
     """Limits, sequences, requirements, side effects and the result attached to an expectation all take effect exactly once with the value given, regardless of the
     order they were attached in and of clauses attached later; the expectation is registered with the mock it was created from when, and only when, it is bound to its handle.""",
     ["programs", "inputs"], "all orders of clauses",
     "tests use few orders; a clause dropped when a later one is attached shows only in particular combinations",
     ["ExpectationBuilder.hpp", "Expectation.hpp", "Mock.hpp"],
     [("configuration hand-over", H + "ExpectationBuilder.hpp: BasicExpectationBuilder::operator &&, finalize")], (),
     ["behaviour of the resulting expectation"])

prop("C18", "Expectations stay bound to their mock through moves and destruction",
     """Moving a mock or an expectation handle transfers expectations without withdrawing, reporting, duplicating or losing any; destroying the mock before its
     expectation handles, or a sequence object before the expectations attached to it, is safe and reports are still made when those handles end.
     Assigning over a handle ends the expectation it held exactly as destroying that handle would.""",
     ["histories"], "any order of moves and destructions",
     "tests destroy in a few fixed orders",
     ["Expectation.hpp", "Mock.hpp", "Sequence.hpp"],
     [("shared ownership", H + "Expectation.hpp: ScopedExpectation, Model; Mock.hpp: BasicMockFrontend")], (),
     ["reports at scope end"])

prop("C19", "Reports reach the installed reporter with its control-flow contract",
     """Every report goes exactly once to the most recently installed reporter and to no other. The built-in reporters never return from unmatched-call reports, never throw from
     full-match reports, raise exactly one failure for unfulfilled expectations and errors unless another exception is already in flight (then none), and merely
     warn for unhandled exceptions; the framework adapters route failure, warning and success to the framework's failing, warning and succeeding facility.""",
     ["histories", "fault_sequences"], "all report kinds, with and without an exception in flight, all adapters",
     "tests check one call of each kind",
     ["Reporter.hpp", "adapters/gtest.hpp", "adapters/Catch2.hpp", "adapters/Doctest.hpp", "adapters/BoostTest.hpp"],
     [("reporters", H + "Reporter.hpp: BasicReporter, DefaultReporter, detail::report_*, install_reporter")], (),
     ["IReporter implementations"])

prop("C20", "Expectation storage is only touched under its lock",
     """Whenever the list of live expectations of a mock is read or changed its mutex is held by the acting thread, the mutex is never acquired twice by one operation,
     it is released on every exit including exceptions, and side effects and result callables run without it being held.""",
     ["schedules", "fault_sequences"], "every path of every operation on a mock, including exceptional ones",
     "tests are single threaded; a missing lock is invisible to them",
     ["Expectation.hpp"],
     [("lock scope", H + "Expectation.hpp: ExpectationCollection::push/remove/handle_call")], (),
     ["mutex operations vs. storage accesses"])

prop("C21", "Watched objects report relocation and death exactly once, to the right watcher",
     """Each destruction of a watched object that has not been moved from makes exactly one call on the death watch it carries, and each move from it one call on its relocation watch.
     Moving never counts as death: the watch moves along with the object, and what is left behind dies silently. A copied object starts with watches of its own and leaves those of the
     source untouched; a death watch that is overwritten by a copy ends as if its object died. A watch accepts at most one pending death expectation (a second one is rejected with a logic error).
     An error is reported if the object did not die although expected, or died without expectation.""",
     ["histories"], "all special member functions of watched objects in any order",
     "tests run fixed short histories",
     ["ObjectWatcher.hpp"],
     [("watchers", H + "ObjectWatcher.hpp: LifetimeWatcher, RelocationWatcher, Watched")], (),
     ["watcher expectations and reports"])

prop("C22", "Interface macros generate overriding, argument-preserving mocks",
     """A mock method generated for an interface overrides exactly the virtual function with the given name, return type, parameters and specifiers, and forwards every call to the associated mock
     exactly once with the arguments in order, keeping their value categories, and returns its result.""",
     ["programs"], "any arity, any parameter and return types including move-only, references and templates with commas, all specifiers",
     "tests use few interfaces",
     ["InterfaceMock.hpp"],
     [("generated members", H + "InterfaceMock.hpp: MIMICPP_MOCK_METHOD, MIMICPP_MOCK_OVERLOADED_METHOD, MIMICPP_MAKE_OVERLOAD*")], (),
     ["generated member functions"])

prop("C23", "Values are printed by the most specific printer available",
     """For every printable or non-printable type exactly one way of printing is selected, with precedence: a user supplied printer, then the library's own printer for the type,
     then element-wise printing of ranges, then the formatting library, then a placeholder; printing compiles for every type that can be a parameter (so every signature can be mocked), never prints a value by printing that same value again, and what is printed
     shows the value: every element of a range, tuple or engaged optional exactly once and in order, the text of a string itself, the address of a pointer; null character pointers are printed without reading through them.""",
     ["programs"], "any type, with any subset of the printing facilities available for it",
     "tests print sample types; precedence shows only for types with several facilities",
     ["Printer.hpp"],
     [("selection", H + "Printer.hpp: detail::PrintFn, detail::print overloads")], (),
     ["mimicpp::print overload selection"])

prop("C24", "Comparison and combinator matchers mean what they are named",
     """eq, ne, lt, le, gt and ge accept a value exactly when value-operator-expected holds in that operand order; negation inverts the verdict and nothing else; the wildcard accepts everything, the instance matcher exactly the given object;
     predicate matchers accept exactly when the predicate does. Range matchers accept exactly: equal element sequences, permutations, sorted ranges, empty ranges, ranges of the given size,
     ranges all or any of whose elements are accepted by the inner matcher.""",
     ["inputs"], "all values of types with arbitrary operators; ranges of any length for the element and size matchers, up to three arbitrary elements for the others",
     "tests compare a few ints and short ranges",
     ["Matcher.hpp"],
     [("matchers", H + "Matcher.hpp: PredicateMatcher, matches::*, matches::range::*")], (),
     ["matcher.matches(value)"])

prop("C25", "String matchers compare text, not pointers, under the chosen case mode",
     """The string matchers eq, contains, starts_with and ends_with decide on the character sequences of target and pattern as their names say, negated exactly when
     inverted; the case-insensitive variants fold both target and pattern the same way before comparing, and case-sensitive variants fold neither.
     Narrow characters with the high bit set are handled without undefined behaviour.""",
     ["inputs"], "arbitrary characters (NUL and negative ones included), texts of up to five characters, two or three when folded, with toupper an arbitrary function",
     "tests sample ASCII strings",
     ["Matcher.hpp", "String.hpp"],
     [("string matchers", H + "Matcher.hpp: matches::str::*; String.hpp: string_case_fold_converter")], (),
     ["matches::str::*"])

prop("C26", "Reports carry the facts of the call and of the expectations",
     """A call report lists every argument exactly once in parameter order with its declared type, and the call's return type, origin, constness and value category; the origin is the
     location of the caller's call expression. Match and expectation reports carry the location at which that expectation was declared and one entry per requirement in
     order of attachment, with its own verdict and description, and the match report's limits and count are the expectation's own. Reports about calls that no expectation matches list every
     expectation of the mock exactly once; reports about calls that only exhausted expectations match list exactly those, once each; an accepted call's report is about the chosen expectation.""",
     ["inputs", "programs"], "any signature and any set of expectations",
     "tests compare a few reports",
     ["Reports.hpp", "Expectation.hpp", "Mock.hpp"],
     [("report construction", H + "Reports.hpp: make_call_report; Expectation.hpp: BasicExpectation::report/matches")], (),
     ["IReporter arguments"])

prop("C27", "Headers are self-contained and keep to their macro prefix",
     """Every public header compiles on its own and together with any other in either order, in every supported configuration. The headers can be
     included by any number of translation units of one program: no symbol is defined twice, and state that outlives a call exists once per program (not once per translation unit).
     With the prefixed-macros-only configuration no macro outside the library's prefix is defined; without it each shorthand macro is the same as its prefixed original.""",
     ["programs", "configurations"], "every header, every order of two headers, every configuration switch",
     "tests include the headers in one order and one configuration",
     ["mimic++.hpp", "Fwd.hpp", "InterfaceMock.hpp", "ExpectationBuilder.hpp", "Printer.hpp"],
     [("include structure and configuration macros", H + "*.hpp")], (),
     ["compiler acceptance", "macro table"])

prop("C28", "Reports and descriptions state the facts they are made from",
     """The text made for a report states each fact it is made from, correctly, once and in order: of a call its location, constness, value category, return type and every argument with its
     index, type and printed value; of an expectation its location, its limits and its requirements' descriptions; of a match whether it matched, did not match or was inapplicable (and why),
     each requirement's description listed among the passed or the failed ones as its own verdict says; the text about limits tells the count and the limits, and whether the expectation is
     saturated, accepts further matches or still misses some, and how many sequences allow or forbid it. Reporters state the headline of the event, the call, every expectation concerned (and
     how many), and the thrown exception's message; that text is what is handed to the failing, warning or succeeding facility or thrown. The description of a matcher names its operation and
     shows the expected value, elements, size, address or inner matcher; after inversion it is the text of the opposite verdict, and after a second one the original again. The description of an
     argument requirement names the index of the argument.""",
     ["values, limits, counts, verdicts", "inversions"], "arbitrary limits, counts, values, verdicts, numbers of requirements and expectations up to three",
     "tests compare single texts", ["Reports.hpp", "Reporter.hpp", "Printer.hpp", "Matcher.hpp", "ExpectationPolicies.hpp", "Sequence.hpp"],
     [("text generation", H + "Reports.hpp, Reporter.hpp"), ("descriptions", H + "Matcher.hpp, ExpectationPolicies.hpp")], (), ["report text", "describe()"])

prop("C29", "Concurrent calls are accounted for exactly as in some serial order",
     """Calls made on one mock from several threads have the outcome and leave the counts some serial order of those calls would.""",
     ["schedules"], "all interleavings", "tests are single threaded",
     ["Expectation.hpp"], [("locking", H + "Expectation.hpp: handle_call")], (), ["call results, reports"])

prop("C30", "Unicode case folding follows the Unicode standard",
     """With the Unicode option enabled, case-insensitive comparison equals comparison after full Unicode default case folding for every valid string.""",
     ["inputs"], "all strings", "infinite input set",
     ["String.hpp"], [("fold", H + "String.hpp: string_case_fold_converter")], (), ["matches::str::*"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, s)
        print(len(P), "properties, schema ok")
    except ImportError:
        print(len(P), "properties")
