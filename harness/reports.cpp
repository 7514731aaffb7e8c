// C26: the facts in reports, from the public interface.
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
#include <optional>
using namespace mimicpp;

struct unmatched {};
enum Kind { None = 1, Inapp, Full, Unful, Exc, Err };
struct Told
{
	int kinds{}, times{};
	std::optional<CallReport> call{};
	std::vector<MatchReport> matches{};
	std::optional<ExpectationReport> expectation{};
};
static Told* told{};
struct Rec : IReporter
{
	static void take(Kind k) { told->kinds = k; ++told->times; }
	void report_no_matches(CallReport c, std::vector<MatchReport> m) override { take(None); told->call.emplace(std::move(c)); told->matches = std::move(m); throw unmatched{}; }
	void report_inapplicable_matches(CallReport c, std::vector<MatchReport> m) override { take(Inapp); told->call.emplace(std::move(c)); told->matches = std::move(m); throw unmatched{}; }
	void report_full_match(CallReport c, MatchReport m) noexcept override { take(Full); told->call.emplace(std::move(c)); told->matches.emplace_back(std::move(m)); }
	void report_unfulfilled_expectation(ExpectationReport e) override { take(Unful); told->expectation.emplace(std::move(e)); }
	void report_error(StringT) override { take(Err); }
	void report_unhandled_exception(CallReport c, ExpectationReport e, std::exception_ptr) override { take(Exc); told->call.emplace(std::move(c)); told->expectation.emplace(std::move(e)); }
};
struct A { int id{}; };
struct B { int id{}; };
static int n_printed{};
static const void* printed[8]{};
template <class T>
	requires std::same_as<T, A> || std::same_as<T, B>
class mimicpp::custom::Printer<T>
{
public:
	template <class Out> static Out print(Out out, const T& t) { printed[n_printed++] = &t; return out; }
};
// a user's own policy with a verdict and a description of its own
static bool verdict[4]{};
static StringT text[4]{};       // arbitrary texts, told apart by identity
static void name_texts() { for (StringT& t : text) t = StringT{"any"} + StringT{"text"}; }
template <int id>
struct Named
{
	static constexpr bool is_satisfied() noexcept { return true; }
	template <class R, class... P> bool matches(const call::Info<R, P...>&) const { return verdict[id]; }
	template <class R, class... P> void consume(const call::Info<R, P...>&) {}
	static StringT describe() { return text[id]; }
};
struct Silent
{
	static constexpr bool is_satisfied() noexcept { return true; }
	template <class R, class... P> static bool matches(const call::Info<R, P...>&) { return true; }
	template <class R, class... P> void consume(const call::Info<R, P...>&) {}
	static std::nullopt_t describe() { return std::nullopt; }
};
static bool described(const std::optional<StringT>& d, int id) { return d.has_value() && *d == text[id]; }
static bool same_loc(const std::source_location& a, const std::source_location& b)
{
	return a.line() == b.line() && a.column() == b.column() && a.file_name() == b.file_name() && a.function_name() == b.function_name();
}

// ---- call reports
ENTRY(report_call_arguments)
{
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<int(A, B&, const A&, B&&) const> m{};
	A a{}, c{}; B b{}, d{};
	const std::source_location one = std::source_location::current();
	const std::source_location two = std::source_location::current();
	const std::source_location& from = irx_bool() ? one : two;
	std::optional<ScopedExpectation> e{};
	const int setup = irx_int(0, 2);
	if (setup == 1) e.emplace(m.expect_call(matches::_, matches::_, matches::_, matches::_) and expect::times(0) and finally::returns(1));
	if (setup == 2) e.emplace(m.expect_call(matches::_, matches::_, matches::_, matches::_) and finally::returns(1));
	n_printed = 0;
	try { (void)m(a, b, c, std::move(d), from); irx_assert(setup == 2, "outcome"); } catch (const unmatched&) { irx_assert(setup != 2, "outcome"); }
	irx_assert(t.times == 1 && t.kinds == (setup == 0 ? None : setup == 1 ? Inapp : Full), "one-report");
	irx_assert(t.call.has_value(), "carries-a-call");
	const CallReport& r = *t.call;
	irx_assert(r.argDetails.size() == 4, "every-argument-once");
	irx_assert(r.argDetails[0].typeIndex == typeid(A) && r.argDetails[1].typeIndex == typeid(B&) && r.argDetails[2].typeIndex == typeid(const A&) && r.argDetails[3].typeIndex == typeid(B&&), "declared-types-in-order");
	irx_assert(n_printed == 4 && printed[0] != &a && printed[1] == &b && printed[2] == &c && printed[3] == &d, "every-argument-shown-in-order");
	irx_assert(r.returnTypeIndex == typeid(int), "return-type");
	irx_assert(same_loc(r.fromLoc, from), "origin");
	irx_assert(r.fromConstness == Constness::as_const && r.fromCategory == ValueCategory::any, "qualification");
	if (setup == 0) irx_reach("none");
	if (setup == 1) irx_reach("inapplicable");
	if (setup == 2) irx_reach("full");
	irx_stop();
}
ENTRY(report_call_origin)
{
	// the origin is the caller's call expression
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<void()> m{}; Mock<void(A) const> n{};
	ScopedExpectation e = m.expect_call(), f = n.expect_call(matches::_);
	std::source_location here = std::source_location::current(); m();
	irx_assert(t.call->fromLoc.line() == here.line() && t.call->fromLoc.function_name() == here.function_name() && t.call->fromLoc.file_name() == here.file_name(), "caller");
	here = std::source_location::current(); n(A{});
	irx_assert(t.call->fromLoc.line() == here.line() && t.call->fromLoc.function_name() == here.function_name() && t.call->fromLoc.file_name() == here.file_name(), "caller");
	irx_reach("done");
	irx_stop();
}
template <class Sig, class Obj>
static void qualified(Constness c, ValueCategory v)
{
	Told t{}; told = &t;
	Mock<Sig> m{};
	const std::source_location here = std::source_location::current();
	try { static_cast<Obj>(m)(here); irx_assert(false, "unmatched"); } catch (const unmatched&) {}
	irx_assert(t.kinds == None && t.call->fromConstness == c && t.call->fromCategory == v && same_loc(t.call->fromLoc, here), "qualification-of-the-signature");
	irx_assert(t.call->argDetails.empty() && t.matches.empty() && t.call->returnTypeIndex == typeid(void), "nothing-else");
}
#define FORM(Q, O, C, V) qualified<void() Q, Mock<void() Q> O>(Constness::C, ValueCategory::V)
ENTRY(report_call_qualification)
{
	install_reporter<Rec>();
	name_texts();
	FORM(, &, non_const, any); FORM(const, const&, as_const, any); FORM(&, &, non_const, lvalue); FORM(const&, const&, as_const, lvalue); FORM(&&, &&, non_const, rvalue); FORM(const&&, const&&, as_const, rvalue);
	irx_reach("done");
	irx_stop();
}
// ---- match reports
ENTRY(report_match_entries)
{
	// one entry per requirement, in the order of attachment, with its own verdict
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<void()> m{};
	for (bool& v : verdict) v = irx_bool();
	const std::source_location here = std::source_location::current(); ScopedExpectation e = m.expect_call() and Named<2>{} and expect::times(1, 4) and Silent{} and Named<0>{} and Named<3>{};
	irx_assert(e.from().line() == here.line() && e.from().function_name() == here.function_name(), "declared-here");
	const bool all = verdict[2] && verdict[0] && verdict[3];
	try { m(); irx_assert(all, "outcome"); } catch (const unmatched&) { irx_assert(!all, "outcome"); }
	irx_assert(t.times == 1 && t.matches.size() == 1 && t.kinds == (all ? Full : None), "one-report");
	const MatchReport& r = t.matches[0];
	irx_assert(r.sourceLocation.has_value() && same_loc(*r.sourceLocation, e.from()), "declaration");
	// the library's own policies come first: category and constness
	irx_assert(r.expectationReports.size() == 6, "one-entry-per-requirement");
	irx_assert(r.expectationReports[0].isMatching && r.expectationReports[1].isMatching && r.expectationReports[3].isMatching, "verdicts");
	irx_assert(r.expectationReports[2].isMatching == verdict[2] && r.expectationReports[4].isMatching == verdict[0] && r.expectationReports[5].isMatching == verdict[3], "verdicts");
	irx_assert(described(r.expectationReports[2].description, 2) && !r.expectationReports[3].description.has_value() && described(r.expectationReports[4].description, 0) && described(r.expectationReports[5].description, 3), "in-order");
	const state_applicable* s = std::get_if<state_applicable>(&r.controlReport);
	irx_assert(s && s->min == 1 && s->max == 4 && s->count == 0, "limits-and-count");
	if (all) irx_reach("full"); else irx_reach("none");
	irx_stop();
}
ENTRY(report_match_counts)
{
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<void()> m{};
	const int lo = irx_int(0, 1000), hi = irx_int(1, 1000000), before = irx_int(0, 1000000);
	irx_assume(lo <= hi);
	irx_assume(before <= hi);
	ScopedExpectation e = m.expect_call() and expect::times(lo, hi);
	for (int i = 0; i < before; ++i)
	{
		m();
		t.matches.clear();
		t.call.reset();
		t.times = 0;
	}
	try { m(); } catch (const unmatched&) {}
	irx_assert(t.matches.size() == 1, "one-report");
	if (before < hi)
	{
		const state_applicable* s = std::get_if<state_applicable>(&t.matches[0].controlReport);
		irx_assert(s && s->min == lo && s->max == hi && s->count == before, "limits-and-count");
		irx_reach("applicable");
	}
	else
	{
		const state_saturated* s = std::get_if<state_saturated>(&t.matches[0].controlReport);
		irx_assert(s && s->min == lo && s->max == hi && s->count == before, "limits-and-count");
		irx_reach("saturated");
	}
	irx_stop();
}
template <int id, class M> static ScopedExpectation expectation(M& m) { return m.expect_call() and Named<id>{} and expect::times(0, 1); }
// unmatched-call reports list each of the expectations that were considered exactly once
ENTRY(report_unmatched_lists_all)
{
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<void()> m{};
	for (bool& v : verdict) v = true;
	const bool order = irx_bool();
	std::optional<ScopedExpectation> e[3]{};
	if (order) { e[0].emplace(expectation<0>(m)); e[1].emplace(expectation<1>(m)); e[2].emplace(expectation<2>(m)); }
	else { e[2].emplace(expectation<2>(m)); e[0].emplace(expectation<0>(m)); e[1].emplace(expectation<1>(m)); }
	const int calls = irx_int(0, 3);
	for (int i = 0; i < calls; ++i) m();
	int bad = 0;
	for (int i = 0; i < 3; ++i) { verdict[i] = irx_bool(); bad += !verdict[i]; }
	bool saturated[3]{};
	// the most recent ones have been used up
	for (int i = 0; i < 3; ++i)
	{
		const int age = order ? 2 - i : (i == 2 ? 2 : 1 - i);       // 0: most recent
		saturated[i] = age < calls;
	}
	bool any_full = false, any_inapp = false;
	for (int i = 0; i < 3; ++i) { any_full = any_full || (verdict[i] && !saturated[i]); any_inapp = any_inapp || (verdict[i] && saturated[i]); }
	t = Told{};
	try { m(); irx_assert(any_full, "outcome"); } catch (const unmatched&) { irx_assert(!any_full, "outcome"); }
	irx_assert(t.times == 1 && t.kinds == (any_full ? Full : any_inapp ? Inapp : None), "one-report");
	int listed[3]{};
	for (const MatchReport& r : t.matches)
		for (int i = 0; i < 3; ++i)
			if (same_loc(*r.sourceLocation, e[i]->from()))
			{
				++listed[i];
				irx_assert(described(r.expectationReports.at(2).description, i), "described");
				irx_assert(r.expectationReports.at(2).isMatching == verdict[i], "verdicts");
			}
	const int total = static_cast<int>(t.matches.size());
	if (any_full)
	{
		irx_assert(total == 1, "the-chosen-one");
		irx_reach("full");
	}
	else if (any_inapp)
	{
		for (int i = 0; i < 3; ++i) irx_assert(listed[i] == (verdict[i] ? 1 : 0), "lists-each-inapplicable-once");
		irx_assert(total == 3 - bad, "lists-each-inapplicable-once");
		irx_reach("inapplicable");
	}
	else
	{
		irx_assert(listed[0] == 1 && listed[1] == 1 && listed[2] == 1 && total == 3, "lists-each-considered-once");
		irx_reach("none");
	}
	irx_stop();
}
// ---- expectation reports
ENTRY(report_unfulfilled)
{
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<void()> m{};
	std::source_location from{};
	{
		ScopedExpectation e = m.expect_call() and Named<1>{} and Silent{} and Named<3>{};
		from = e.from();
	}
	irx_assert(t.times == 1 && t.kinds == Unful && t.expectation.has_value(), "one-report");
	const ExpectationReport& r = *t.expectation;
	irx_assert(r.sourceLocation.has_value() && same_loc(*r.sourceLocation, from), "declaration");
	irx_assert(r.expectationDescriptions.size() == 5 && described(r.expectationDescriptions[2], 1) && !r.expectationDescriptions[3].has_value() && described(r.expectationDescriptions[4], 3), "one-entry-per-requirement");
	irx_assert(r.timesDescription.has_value(), "limits-described");
	irx_reach("done");
	irx_stop();
}
struct Throwing
{
	static constexpr bool is_satisfied() noexcept { return true; }
	template <class R, class... P> static bool matches(const call::Info<R, P...>&) { throw 5; }
	template <class R, class... P> void consume(const call::Info<R, P...>&) {}
	static StringT describe() { return {}; }
};
ENTRY(report_unhandled)
{
	Told t{}; told = &t;
	install_reporter<Rec>();
	name_texts();
	Mock<void(A)> m{};
	ScopedExpectation f = m.expect_call(matches::_);
	ScopedExpectation e = m.expect_call(matches::_) and Named<1>{} and Throwing{} and expect::times(0, 1);
	verdict[1] = true;
	t.expectation.reset();
	const std::source_location here = std::source_location::current();
	m(A{}, here);
	irx_assert(t.times == 2 && t.kinds == Full && t.expectation.has_value(), "both-reported");
	irx_assert(same_loc(*t.expectation->sourceLocation, e.from()) && described(t.expectation->expectationDescriptions.at(3), 1), "the-failing-expectation");
	irx_assert(same_loc(*t.matches[0].sourceLocation, f.from()), "the-chosen-expectation");
	irx_assert(t.call->argDetails.size() == 1 && same_loc(t.call->fromLoc, here), "the-call");
	irx_reach("done");
	irx_stop();
}
