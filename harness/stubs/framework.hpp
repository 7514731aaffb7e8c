// Stand-ins for the test frameworks' reporting facilities: they only record what was used.
#pragma once
enum Facility { Fail = 1, Warn, Succeed, Message };
inline int used{}, facility{};
struct test_failed {};
inline void use(Facility f) { ++used; facility = f; }
[[noreturn]] inline void failing() { use(Fail); throw test_failed{}; }
