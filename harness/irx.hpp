// Interface between the harnesses and the analyser (/verif/irx). None of these functions has a body: the analyser gives them meaning.
#pragma once
extern "C" {
bool irx_bool();                              // an arbitrary truth value
int irx_int(int lo, int hi);                  // an arbitrary value of the interval
long irx_long(long lo, long hi);
int irx_token();                              // an arbitrary value only compared for identity
void irx_assume(bool);                        // only executions satisfying this are considered
void irx_assert(bool, const char* id);        // proof obligation
void irx_reach(const char* label);            // must be reachable (guards against vacuous proofs)
void irx_may_terminate(bool);
void irx_vague();                             // a violation found from here on proves nothing
const char* irx_text(const void* string);    // the literal a std::string has been made from, if any
long irx_generalize(const void* obj, long size);   // the array owned by obj gets arbitrarily many elements, each like one of its present ones
int irx_kind(const void* obj, long size, long idx); // which of the prototypes an element was made from
void* irx_elem(const void* obj, long size, long idx);
void irx_assume_kinds(const void* obj, long size, long lo, long hi, unsigned mask);
void irx_landmark(const void* p);             // tracked individually although part of an array
int irx_locks();                              // number of mutexes held
void irx_guard(const void* obj, long size, const void* mutex);
void irx_merge();
void irx_keep(const void* p);               // p stays live up to here
void irx_keepi(long v);
[[noreturn]] void irx_stop();
}
#define ENTRY(name) extern "C" void irx_entry_##name()
