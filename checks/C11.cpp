// C11: the character arena never overlaps, loses or moves live text wrongly
// LINK: -Wl,--wrap=calloc -Wl,--wrap=malloc -Wl,--wrap=realloc
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include "mc.hpp"
extern "C" {
#include "CharAllocator.h"
void *__real_calloc(size_t, size_t);
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
}
// every allocation of the arena may fail (up to a number of failures per history)
static bool armed; static int faultsLeft, faults;
static bool faulty() {
    if(!armed || faultsLeft == 0) return false;
    armed = false;
    bool f = mc::flag("allocation fails");
    armed = true;
    if(f) { faultsLeft--; faults++; }
    return f;
}
extern "C" {
void *__wrap_calloc(size_t n, size_t s) { return faulty() ? nullptr : __real_calloc(n, s); }
void *__wrap_malloc(size_t n) { return faulty() ? nullptr : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return faulty() ? nullptr : __real_realloc(p, n); }
}
struct Block { char *p; std::vector<char> c; };
struct Guard { Guard() { armed = true; faults = 0; } ~Guard() { armed = false; } };
static char pat(size_t i, int op) { return (char)(1 + (i * 7 + op * 31) % 255); }
static void history(size_t initial, int depth, const std::vector<size_t> &sizes, int nfaults) {
    mc::leak_reset();
    faultsLeft = nfaults;
    CharArenaAllocator *a;
    { mc::InLib in; Guard g; a = CharArenaAllocator_new(initial); }
    std::string log = mc::fmt("new(%zu)%s ", initial, a ? "" : "=NULL");
    if(!a) {
        if(!faults) mc::fail("new-null", "CharArenaAllocator_new returned NULL without a failed allocation");
        if(mc::leak_count()) mc::fail("new-leak", "memory is lost when CharArenaAllocator_new fails");
        mc::validated();
        return;
    }
    if(faults) { mc::fail("new-not-null", "an allocation failed, but CharArenaAllocator_new returned an arena"); }
    std::vector<Block> b;
    for(int op = 0; op < depth; op++) {
        int k = mc::choose((int)sizes.size() * 2 + (op > 0), "operation");
        if(k == (int)sizes.size() * 2) break;
        size_t n = sizes[k / 2];
        bool re = k % 2;
        char *p;
        {
            mc::InLib in; Guard g;
            p = re ? CharArenaAllocator_realloc(a, n) : CharArenaAllocator_malloc(a, n);
        }
        log += mc::fmt("%s(%zu)%s ", re ? "realloc" : "malloc", n, p ? "" : "=NULL");
        mc::note("%s", log.c_str());
        bool huge = n > SIZE_MAX / 8;
        if(!p && !faults && !huge) { mc::fail("null", log + ": NULL without a failed allocation"); break; }
        if(p && huge) { mc::fail("huge", log + ": memory of impossible size"); break; }
        if(p && faults) { mc::fail("not-null", log + ": an allocation failed, but the result is not NULL"); break; }
        if(p) {
            size_t old = 0;
            if(re) {
                if(b.empty()) b.push_back({p, {}});
                old = b.back().c.size();
                b.back().p = p;
            } else b.push_back({p, {}});
            Block &x = b.back();
            for(size_t i = old; i < old + n; i++) if(p[i]) { mc::fail("not-zero", log + mc::fmt(": byte %zu of the result is not zero", i)); break; }
            for(size_t i = 0; i + 1 < b.size(); i++)
                if(p < b[i].p + b[i].c.size() && b[i].p < p + old + n && b[i].c.size() && old + n) mc::fail("overlap", log + mc::fmt(": overlaps block %zu", i));
            for(size_t i = 0; i < old; i++) if(p[i] != x.c[i]) { mc::fail("content-lost", log + mc::fmt(": byte %zu of the extended block changed", i)); break; }
            if(mc::failed()) break;
            x.c.resize(old + n);
            for(size_t i = old; i < old + n; i++) p[i] = x.c[i] = pat(i, op);
        }
        for(size_t i = 0; i < b.size(); i++) if(!b[i].c.empty() && memcmp(b[i].p, b[i].c.data(), b[i].c.size())) mc::fail("content-changed", log + mc::fmt(": block %zu changed", i));
        if(mc::failed()) break;
        mc::validated();
    }
    mc::state(log);
    if(mc::want_sample()) mc::sample(log);
    { mc::InLib in; CharArenaAllocator_delete(a); }
    if(!mc::failed() && mc::leak_count()) mc::fail("leak", log + mc::fmt(": %zu blocks are not freed by delete", mc::leak_count()));
    mc::leak_reset();
}
static void small() {
    size_t c = mc::pick(std::vector<size_t>{0, 1, 2, 8, 16, 17}, "initial");
    std::vector<size_t> s = {0, 1, c ? c - 1 : 3, c, c + 1, 2 * c + 3};
    if(c > 4) s[1] = c / 2;
    history(c, mc::by_tier(4, 5), s, 2);
}
// longer histories of small requests: the capacity is reached step by step
static void steps() {
    size_t c = mc::pick(std::vector<size_t>{4, 5, 6}, "initial");
    history(c, mc::by_tier(6, 8), {1, 2, 3}, mc::by_tier(1, 2));
}
// sizes as used by the loader, and impossible sizes
static void big() {
    size_t c = 1024 * 1024;
    history(c, 3, {10, c - 10, c, c + 1, 2 * c, SIZE_MAX, SIZE_MAX / 2 + 1, SIZE_MAX / 2 - 4}, 1);
}
int main(int argc, char **argv) {
    mc::scenario("small", small);
    mc::scenario("steps", steps);
    mc::scenario("loader-size", big);
    return mc::run(argc, argv, {"C11", "histories of up to 4 (thorough 5) requests around the capacity of arenas of size 0..17 with up to 2 failing allocations, 6 (8) small requests with 1 (2), 3 requests on an arena of 1 MiB"});
}
