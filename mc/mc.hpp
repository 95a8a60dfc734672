// Stateless model-checking engine: a check is a deterministic body that makes nondeterministic choices
// through choose(); the engine runs the body once for every possible sequence of choices (depth-first,
// spread over forked worker processes), on the real code.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {
// --- nondeterminism ---
int choose(int n, const char *label = "");            // explores 0..n-1
inline bool flag(const char *label = "") { return choose(2, label) == 1; }
template <class T> const T &pick(const std::vector<T> &v, const char *label = "") { return v[choose((int)v.size(), label)]; }
// explicit-state pruning: true if a state with this hash was reached before at the frontier
bool revisit(uint64_t hash);
// --- verdicts ---
void fail(const std::string &key, const std::string &msg);   // property violated in this execution
bool failed();
void input(const std::string &key);    // names the input of this execution (part of the key of crashes and hangs)
void state(const std::string &obs);    // an observed state of the code (distinct ones are counted)
void validated(uint64_t n = 1);        // n comparisons of the code with the model were made
void slow(int seconds);                // time limit of the current execution (default 10 s)
// --- reporting ---
bool want_sample();
void sample(const std::string &text);
bool replaying();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // printed when replaying
// --- environment ---
int tier();                            // 0 quick, 1 thorough
template <class T> T by_tier(T quick, T thorough) { return tier() ? thorough : quick; }
const std::string &scratch();          // directory of this process, removed at the end
const char *prop();
// --- memory accounting (allocations made inside InLib, not inside OutLib) ---
struct InLib { InLib(); ~InLib(); bool old; };
struct OutLib { OutLib(); ~OutLib(); bool old; };
void push_out(); void pop_out();        // the same as a stack, for C callbacks
void leak_reset();
size_t leak_count();                   // live blocks allocated by the library since leak_reset
std::string leak_describe();
// --- main ---
struct Config {
    const char *prop;
    std::string assumptions;
    double capQuick = 200, capThorough = 780;
};
void scenario(const std::string &name, std::function<void()> body);
int run(int argc, char **argv, const Config &cfg);
uint64_t hash(const void *p, size_t n, uint64_t seed = 1469598103934665603ULL);
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace mc
