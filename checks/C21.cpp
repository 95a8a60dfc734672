// C21: log messages reach the configured logger completely formatted
#include <cstdarg>
#include <cstring>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include "core.hpp"
extern "C" {
#include "InternalLogger.h"
}
using namespace model;

// what is written to stdout while f runs
static std::string captured(const std::function<void()> &f) {
    std::string p = mc::scratch() + "/stdout";
    fflush(stdout);
    int old = dup(1), fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    f();
    fflush(stdout);
    dup2(old, 1); close(old);
    std::string r; char b[4096]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
    close(fd);
    return r;
}
static const char *LEVEL[] = {"Debug", "Warning", "Error"};
static std::string line(int level, const std::string &text) { return std::string("NODESETLOADER: ") + LEVEL[level] + " : " + text; }
// is out the messages, one per line? (how many line breaks follow is not specified)
static bool sameLines(const std::string &out, const std::vector<core::Log> &logs) {
    size_t p = 0;
    for(auto &l : logs) {
        std::string w = line(l.level, l.text);
        if(out.compare(p, w.size(), w)) return false;
        p += w.size();
        while(p < out.size() && out[p] == '\n') p++;
    }
    return p == out.size();
}
static void direct() {
    int lvl = mc::choose(3, "level");
    int k = mc::choose(16, "message"), n = mc::choose(mc::by_tier(3, 6), "size");
    static const int N[] = {0, 1, 20, 300, 5000, 70000};
    std::string s = N[n] ? std::string(N[n], 'x') : "", want;
    auto out = captured([&] {
        mc::InLib in;
        NodesetLoader_Logger *l = InternalLogger_new();
        auto log = l->log; void *c = l->context;
        auto v = (enum NodesetLoader_LogLevel)lvl;
        #define LOG(...) log(c, v, __VA_ARGS__); { mc::OutLib o; want = mc::fmt(__VA_ARGS__); }
        switch(k) {
        case 0: LOG("plain") break;
        case 1: LOG("%s", s.c_str()) break;
        case 2: LOG("%s and %d", s.c_str(), 7) break;
        case 3: LOG("%d %d %d %s %d", 1, -2, 3, "four", 5) break;
        case 4: LOG("(%.*s)", N[n], s.c_str()) break;
        case 5: LOG("100%%") break;
        case 6: LOG("%zu %lu %llu", (size_t)1 << 40, 1UL << 50, 1ULL << 60) break;
        case 7: LOG("%c%c %x %o", 'a', 'b', 255, 8) break;
        case 8: LOG("%5.2f|%e|%g", 3.14159, 1e10, 0.5) break;
        case 9: LOG("%p", (void *)0x1234) break;
        case 10: LOG("%s%s%s%s%s%s%s%s", "1", "2", "3", "4", "5", "6", "7", s.c_str()) break;
        case 11: LOG("%f %d %f %s %f", 1.5, 2, 3.5, "x", 4.5) break;
        case 12: LOG("%-10s|%10s|%05d", "l", "r", 42) break;
        case 13: LOG("with\nnewline %s", "x") break;
        case 14: LOG("%1$s %2$s", "a", "b") break;
        case 15: LOG("%d %s", 5, "100%s%n") break;
        }
        InternalLogger_delete(l);
    });
    mc::state(out); mc::validated();
    mc::input(mc::fmt("message %d", k));
    if(!sameLines(out, {{lvl, want}})) mc::fail("builtin-format", "printed: " + out.substr(0, 300) + "\nexpected: " + line(lvl, want).substr(0, 300));
    else if(out.empty() || out.back() != '\n') mc::fail("builtin-newline", "the message does not end the line");
}
// histories of calls that report something
static const int NOPS = 12;
static const std::vector<std::string> IDS = {"ns=1;i=4711", "ns=1;s=a string %s %d %n id", "ns=1;g=00000001-0002-0003-0405-060708090a0b", "ns=1;b=AQIDBA=="};
static std::string fileOf(int op, int v) {
    Doc d; d.uris = {"u:a"};
    Node n = node(OBJECT, IDS[v], "1:N"), m = node(OBJECT, "ns=1;i=2", "1:M");
    if(v == 1) n.id += std::string(3000, 'y');
    switch(op) {
    case 0: d.nodes = {m}; break;                                      // good
    case 1: return xml(d).substr(0, 60);                              // truncated
    case 2: n.refs = {ref("ns=1;i=999", "ns=1;i=2")}; d.nodes = {n}; break;   // undefined reference type
    case 3: n.refs = {ref("i=47", "ns=1;i=2")}; m.refs = {ref("i=47", n.id)}; m.id = "ns=1;i=2"; d.nodes = {n, m}; break;   // cycle
    case 4: n.id = "ns=1;i=6"; d.nodes = {n, n, n}; break;             // duplicates
    case 5: n.refs = {ref("ns=1;i=998", "ns=1;i=2"), ref("ns=1;i=997", "i=1")}; m.id = "ns=1;i=77"; m.refs = n.refs; d.nodes = {m, n}; break;
    case 6: return "";
    case 7: return "<UANodeSet><UAObject NodeId='i=1'></UANodeSet>";
    }
    return xml(d);
}
static unsigned short ns(void *, const char *) { return 1; }
struct Step { int op, variant; };
struct Result { std::vector<bool> ok; std::vector<core::Log> logs; std::vector<size_t> upTo; std::string out; std::vector<int> expected; };
static Result play(const std::vector<Step> &h, bool custom) {
    Result r;
    core::Loader l(false);
    r.out = captured([&] {
        NodesetLoader *n;
        { mc::InLib in; n = NodesetLoader_new(custom ? &l.logger : nullptr, nullptr); }
        for(auto &s : h) {
            bool ok = false;
            NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.addNamespace = ns;
            std::string p;
            if(s.op < 8) { p = core::file(fileOf(s.op, s.variant), 0); fc.file = p.c_str(); mc::InLib in; ok = NodesetLoader_importFile(n, &fc); }
            else if(s.op == 8) { fc.file = "/nonexistent/%s"; mc::InLib in; ok = NodesetLoader_importFile(n, &fc); }
            else if(s.op == 9) { mc::InLib in; ok = NodesetLoader_importFile(n, nullptr); }
            else if(s.op == 10) { fc.addNamespace = nullptr; fc.file = "x"; mc::InLib in; ok = NodesetLoader_importFile(n, &fc); }
            else { mc::InLib in; ok = NodesetLoader_sort(n); }
            r.ok.push_back(ok);
            r.upTo.push_back(l.logs.size());
        }
        mc::InLib in;
        NodesetLoader_delete(n);
    });
    r.logs = l.logs;
    return r;
}
static void histories() {
    int n = mc::by_tier(4, 5);
    std::vector<Step> h;
    std::string name;
    for(int i = 0; i < n; i++) {
        int k = mc::choose(NOPS + 1, "call");
        if(k == NOPS) break;
        h.push_back({k, k == 2 || k == 3 || k == 5 ? mc::choose(i == n - 2 ? 4 : 1, "id") : 0});
        name += mc::fmt("%d ", k);
    }
    mc::input("calls " + name);
    core::checkLeak([&] {
        Result a = play(h, true), b = play(h, false);
        std::string st;
        for(auto &l : a.logs) st += mc::fmt("%d:", l.level) + l.text.substr(0, 60) + ";";
        mc::state(st); mc::validated();
        if(!a.out.empty()) { mc::fail("mixed", "a caller's logger is set, but this was printed: " + a.out.substr(0, 300)); return; }
        if(a.ok != b.ok) { mc::fail("results", "the results depend on the logger"); return; }
        if(!sameLines(b.out, a.logs)) { mc::fail("builtin-differs", "printed: " + b.out.substr(0, 500) + "\nthe caller's logger got: " + st); return; }
        size_t from = 0;
        for(size_t i = 0; i < h.size(); i++) {
            bool err = false;
            for(size_t k = from; k < a.upTo[i]; k++) { err |= a.logs[k].level == NODESETLOADER_LOGLEVEL_ERROR; if(a.logs[k].text.empty()) mc::fail("empty", "an empty message"); if(a.logs[k].level < 0 || a.logs[k].level > 2) mc::fail("level", "unknown level"); }
            if(!a.ok[i] && !err) { mc::fail("not-reported", mc::fmt("call %d (%d) returned false without an error message", (int)i, h[i].op)); return; }
            from = a.upTo[i];
        }
        // the whole message arrives: the affected node is named completely
        for(size_t i = 0; i < h.size(); i++) if((h[i].op == 2 || h[i].op == 5) && i + 1 < h.size() && h[i + 1].op == 11 && !a.ok[i + 1]) {
            std::string id = IDS[h[i].variant];
            if(h[i].variant == 1) id += std::string(3000, 'y');
            bool found = false;
            for(auto &l : a.logs) found |= l.text.find(id) != std::string::npos || (h[i].op == 5 && l.text.find("ns=1;i=77") != std::string::npos);   // one of the affected nodes
            bool before = false;                        // an earlier definition of the same node may be the one kept
            for(size_t k = 0; k < i; k++) before |= h[k].op == 2 || h[k].op == 3 || h[k].op == 5;
            if(!found && !before) { mc::fail("node-not-named", "the message does not name the node " + id.substr(0, 80)); return; }
        }
    });
}
// each logger of several loaders gets its own messages with its own context
static void contexts() {
    std::vector<std::unique_ptr<core::Loader>> ls;
    int n = 2 + mc::choose(2, "loaders");
    std::vector<int> ops;
    for(int i = 0; i < n; i++) { ls.emplace_back(new core::Loader(true)); ops.push_back(1 + mc::choose(9, "call")); }
    std::string out = captured([&] {
        for(int i = 0; i < n; i++) {
            NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.addNamespace = ns;
            std::string p = ops[i] < 8 ? core::file(fileOf(ops[i], 0), 0) : "/nonexistent/x";
            fc.file = p.c_str();
            std::vector<size_t> before; for(auto &l : ls) before.push_back(l->logs.size());
            { mc::InLib in; bool ok = NodesetLoader_importFile(ls[i]->l, ops[i] == 9 ? nullptr : &fc); if(ok) NodesetLoader_sort(ls[i]->l); }
            for(int k = 0; k < n; k++) if(k != i && ls[k]->logs.size() != before[k]) mc::fail("other-context", "a message arrived with the context of another loader");
        }
    });
    mc::validated();
    if(!out.empty()) mc::fail("mixed", "a caller's logger is set, but this was printed: " + out);
}
int main(int argc, char **argv) {
    mc::scenario("direct", direct);
    mc::scenario("histories", histories);
    mc::scenario("contexts", contexts);
    return mc::run(argc, argv, {"C21", "16 formats x 3 levels x argument lengths for the built-in logger; all call histories of length up to 4 (thorough: 5) over 12 calls with both loggers compared"});
}
