// Arbitrarily many live expectations, each with an arbitrary verdict on the call.
#pragma once
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
using namespace mimicpp;
using Sig = int(int);
using Base = Expectation<Sig>;
using Coll = ExpectationCollection<Sig>;

enum Verdict { NONE, INAPP, FULL, THROWS };
struct user_error : std::exception {};
struct other_error {};
struct unmatched {};
struct Fake;

// what has been observed
inline int n_no_match{}, n_inapplicable{}, n_full{}, n_unfulfilled{}, n_error{};
inline bool any_exception{};
inline int consumed{}, finalised{};
inline const Fake* who{};             // consumed last
inline const Fake* fin{};             // finalised last
inline bool order_ok{true}, same_call{true}, facts_ok{true};
inline bool std_exceptions{true};       // what is thrown: derived from std::exception or not
inline const std::source_location* mark{};       // location of the expectation under observation
inline int mark_in_list{}, mark_full{}, mark_exception{};
inline const void* call_args{};

template <class T> const T& val(const T& t) { return t; }
template <class T> const T& val(const std::optional<T>& t) { return *t; }
inline const void* impl(const std::source_location& l) { return *reinterpret_cast<const void* const*>(&l); }
inline bool same(const std::source_location& a, const std::source_location& b) { return impl(a) == impl(b); }

struct DispatchReporter : IReporter
{
	static void list([[maybe_unused]] const std::vector<MatchReport>& r)
	{
		if (mark)
			for (auto& m : r)
				if (same(val(m.sourceLocation), *mark)) 
					++mark_in_list;
	}
	void report_no_matches(CallReport, std::vector<MatchReport> r) override { ++n_no_match; list(r); throw unmatched{}; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport> r) override { ++n_inapplicable; list(r); throw unmatched{}; }
	void report_full_match(CallReport, MatchReport m) noexcept override
	{
		++n_full;
		if (mark && same(val(m.sourceLocation), *mark))
			++mark_full;
	}
	void report_unfulfilled_expectation(ExpectationReport) override { ++n_unfulfilled; }
	void report_error(StringT) override { ++n_error; }
	void report_unhandled_exception(CallReport, ExpectationReport e, std::exception_ptr p) override
	{
		any_exception = true;
		if (mark && same(val(e.sourceLocation), *mark))
			++mark_exception;
		try
		{
			std::rethrow_exception(p);
		}
		catch (const user_error&)
		{
			if (!std_exceptions)
				facts_ok = false;
		}
		catch (const other_error&)
		{
			if (std_exceptions)
				facts_ok = false;
		}
		catch (...)
		{
			facts_ok = false;
		}
	}
};

struct Fake : Base
{
	Verdict verdict;
	std::optional<sequence::rating> prio{};
	int result{};
	std::source_location loc{};
	explicit Fake(Verdict v, int r = 0, std::source_location l = std::source_location::current()) : verdict{v}, result{r}, loc{l} {}
	ExpectationReport report() const override { ExpectationReport r{}; r.sourceLocation = loc; return r; }
	bool is_satisfied() const noexcept override { return true; }
	void call(const CallInfoT& c) const { same_call = same_call && &std::get<0>(c.args).get() == call_args; }
	MatchReport matches(const CallInfoT& c) const override
	{
		call(c);
		if (verdict == THROWS)
		{
			if (std_exceptions)
				throw user_error{};
			throw other_error{};
		}
		MatchReport rep{};
		rep.sourceLocation = loc;
		if (verdict == INAPP)
			rep.controlReport = state_inapplicable{};
		else
		{
			state_applicable st{};
			if (prio)
				st.sequenceRatings.emplace_back(*prio);
			rep.controlReport = std::move(st);
		}
		if (verdict == NONE)
			rep.expectationReports.emplace_back(false, std::nullopt);
		return rep;
	}
	void consume(const CallInfoT& c) override
	{
		call(c);
		order_ok = order_ok && n_full == consumed + 1 && finalised == consumed && irx_locks() == 0;
		++consumed;
		who = this;
	}
	int finalize_call(const CallInfoT& c) override
	{
		call(c);
		order_ok = order_ok && consumed == finalised + 1 && irx_locks() == 0;
		++finalised;
		fin = this;
		return result;
	}
	const std::source_location& from() const noexcept override { return loc; }
};

inline const Fake* fake_at(const Coll& c, int i)
{
	auto* e = static_cast<const std::shared_ptr<Base>*>(irx_elem(&c, sizeof c, i));
	return static_cast<const Fake*>(e->get());
}
inline std::source_location here(std::source_location l = std::source_location::current()) { return l; }
// the expectation at an arbitrary index, followed individually from here on
inline const Fake* observe(const Coll& c, int i, Verdict v)
{
	static std::source_location unique;
	unique = here();
	Fake* L = const_cast<Fake*>(fake_at(c, i));
	irx_landmark(L);
	irx_assume(L->verdict == v);
	irx_landmark(impl(unique));
	L->loc = unique;
	mark = &unique;
	return L;
}
inline int make_call(Coll& c, bool& threw)
{
	int arg = 0;
	call_args = &arg;
	const call::Info<int, int> info{.args = {std::ref(arg)}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
	threw = false;
	try
	{
		return c.handle_call(info);
	}
	catch (const unmatched&)
	{
		threw = true;
	}
	return -1;
}
inline int below(int n)
{
	const int l = irx_int(0, 2147483646);
	irx_assume(l < n);
	return l;
}
