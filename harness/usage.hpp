// broad use of the library by inline functions, so that all it brings along ends up in the unit
#pragma once
#include "mimic++/mimic++.hpp"
namespace usage
{
	using namespace mimicpp;
	constexpr auto& _ = mimicpp::matches::_;
	struct Interface { virtual ~Interface() = default; virtual int f(int, std::string) = 0; virtual void g() const noexcept = 0; };
	struct Implementation : Interface { MIMICPP_MOCK_METHOD(f, int, (int, std::string)); MIMICPP_MOCK_METHOD(g, void, (), const noexcept); };
	inline void act(int&) {}
	inline void all()
	{
		LazySequence lazy{};
		GreedySequence greedy{};
		Mock<int(int), int(double) const, void(std::string) noexcept> mock{};
		MIMICPP_SCOPED_EXPECTATION mock.expect_call(matches::gt(4)) and expect::times(1, 3) and expect::in_sequence(lazy) and then::apply_arg<0>(&act) and finally::returns(5);
		MIMICPP_SCOPED_EXPECTATION mock.expect_call(2.0) and expect::in_sequence(greedy) and finally::throws(1);
		MIMICPP_SCOPED_EXPECTATION mock.expect_call(matches::str::eq("a", case_insensitive)) and expect::once();
		(void)mock(5);
		Implementation i{};
		MIMICPP_SCOPED_EXPECTATION i.f_.expect_call(_, matches::str::eq("x")) and finally::returns_arg<0>();
		MIMICPP_SCOPED_EXPECTATION i.g_.expect_call();
		static_cast<Interface&>(i).g();
		Watched<Implementation, LifetimeWatcher, RelocationWatcher> w{};
		MIMICPP_SCOPED_EXPECTATION w.expect_destruct();
		MIMICPP_SCOPED_EXPECTATION w.expect_relocate() and expect::at_least(0);
	}
}
