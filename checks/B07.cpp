// B07: a load that fails says so and leaves the address space untouched
#include <NodesetLoader/backendOpen62541.h>
#include <sys/stat.h>
#include <unistd.h>
#include "back.hpp"
using namespace model;
using back::base;

static Doc good(int which) {
    Doc d; d.uris = {"u:a", which ? "u:c" : "u:b"}; d.aliases = {{"HasSubtype", "i=45"}, {"H", "ns=1;i=50"}};
    std::string o = which ? "ns=2;" : "ns=1;";
    if(!which) d.nodes.push_back(back::under(REFERENCETYPE, "ns=1;i=50", "1:H", "i=35", "HasSubtype"));
    Node t = base(DATATYPE, o + "i=60", "1:T"); t.refs[0].target = "i=22";
    t.def.present = true; t.def.attrs = {{"Name", "T"}}; Field f; f.attrs = {{"Name", "a"}, {"DataType", "i=6"}}; t.def.fields = {f};
    d.nodes.push_back(t);
    d.nodes.push_back(base(OBJECTTYPE, o + "s=OT", "1:OT"));
    Node obj = base(OBJECT, o + "i=1", "1:O"); obj.dn = txt("object", "en"); obj.refs.push_back(ref("i=40", o + "s=OT"));
    d.nodes.push_back(obj);
    Node v = back::under(VARIABLE, o + "i=2", "1:V", o + "i=1", which ? "i=47" : "H");
    v.attrs = {{"DataType", "i=6"}}; v.hasValue = true; v.value = {elem("uax:Int32", "7")};
    d.nodes.push_back(v);
    d.nodes.push_back(back::under(METHOD, o + "i=3", "1:M", o + "i=1", "i=47"));
    return d;
}
// one load of something into a server, with the full verdict
struct Step { bool doc; Doc d; std::string xml; bool expect; int kind; };
static bool step(back::Server &s, const Doc *d, const std::string *raw, const char *path, bool nullServer, int slot, bool expect) {
    back::Space before = s.snapshot();
    int errs = s.errors();
    bool r;
    if(nullServer) { mc::InLib i; r = NodesetLoader_loadFile(nullptr, path, nullptr); }
    else if(raw) r = s.load(*raw, false, slot);
    else if(d) r = s.load(xml(*d), false, slot);
    else r = s.loadPath(path);
    back::Space after = s.snapshot();
    if(d && !raw) {
        back::Expect e = back::apply(before, *d, after);
        if(r != e.ok) { mc::fail(r ? "load-succeeds" : "load-fails", mc::fmt("loadFile returned %d, expected %d (cyclic=%d unresolved=%d)", r, e.ok, e.cyclic, e.unresolved)); return false; }
        if(!r && s.errors() == errs) { mc::fail("failure-not-reported", "loadFile returned false without an error message"); return false; }
        if(!r && !back::untouched(before, after)) return false;
        return back::compare(after, e.after);
    }
    if(r != expect) { mc::fail(r ? "load-succeeds" : "load-fails", mc::fmt("loadFile returned %d, expected %d", r, expect)); return false; }
    if(!r) {
        if((raw || path) && !nullServer && s.errors() == errs) { mc::fail("failure-not-reported", "loadFile returned false without an error message"); return false; }
        return back::untouched(before, after);
    }
    return true;
}
// the file cut off after every byte, or damaged at every byte; then a good load
static void damaged() {
    Doc d = good(0), g = good(1);
    std::string x = xml(d);
    if(mc::flag("second file first")) { std::swap(d, g); x = xml(d); g = good(0); }
    int kind = mc::choose(mc::by_tier(3, 4), "damage");
    size_t end = x.rfind('>') + 1;
    int at = mc::choose((int)end, "byte");
    if(kind == 0) x = x.substr(0, at);
    else if(kind == 1) x.insert(at, "<");
    else if(kind == 2) x.insert(at, "&");
    else { if(x[at] == '\x01') return; x[at] = '\x01'; }
    bool first = mc::tier() && mc::flag("good file before");
    core::checkLeak([&] {
        back::Server s;
        if(first && !step(s, &g, nullptr, nullptr, false, 1, true)) return;
        if(!step(s, nullptr, &x, nullptr, false, 0, false)) return;
        if(!first && !mc::tier()) { if(at % 16 == 0 && !step(s, &g, nullptr, nullptr, false, 1, true)) return; }
        else if(!step(s, first ? &d : &g, nullptr, nullptr, false, 1, true)) return;
        s.del();
    });
}
// cycles of hierarchical references and undefined reference types anywhere in a good file
static void semantic() {
    Doc d = good(0);
    size_t n = d.nodes.size();
    static const std::vector<std::string> T = {"i=35", "i=45", "i=47", "ns=1;i=50", "H", "i=41", "ns=1;i=51", "i=99999", "ns=1;s=none", "NoAlias", "i=33", "ns=1;i=1"};
    int refs = 1 + mc::choose(mc::by_tier(1, 2), "references");
    for(int i = 0; i < refs; i++) {
        size_t a = mc::choose((int)n, "node"), b = mc::choose((int)n + 1, "target");
        Ref r = ref(mc::pick(T, "type"), b == n ? "i=85" : d.nodes[b].id, !mc::flag("inverse"));
        auto &l = d.nodes[a].refs;
        l.insert(mc::flag("before the others") ? l.begin() : l.end(), r);
    }
    if(mc::flag("define another type")) d.nodes.push_back(back::under(REFERENCETYPE, "ns=1;i=51", "1:H2", "ns=1;i=50", "i=45"));
    bool rev = mc::flag("reverse browse results");
    core::checkLeak([&] {
        back::Server s;
        s.reverseBrowse(rev);
        if(!step(s, &d, nullptr, nullptr, false, 0, true)) return;
        Doc g = good(0);
        if(!step(s, &g, nullptr, nullptr, false, 1, true)) return;
        s.del();
    });
}
// cycles of every length through every pair of positions
static void cycles() {
    static const std::vector<int> L = {2, 3, 4, 9, 10, 11, 100};
    int len = mc::pick(L, "length"), tail = mc::choose(3, "nodes before");
    bool fwd = mc::flag("forward"), close = !mc::flag("open"), rev = mc::flag("reverse"), parents = mc::flag("ParentNodeId");
    Doc d; d.uris = {"u:a"};
    for(int i = 0; i < tail; i++) d.nodes.push_back(back::under(OBJECT, mc::fmt("ns=1;i=%d", 1000 + i), "1:T", i ? mc::fmt("ns=1;i=%d", 999 + i) : "i=85"));
    for(int i = 0; i < len; i++) {
        Node n = node(len <= 11 && (i & 1) ? VARIABLE : OBJECT, mc::fmt("ns=1;i=%d", i + 1), "1:N");
        std::string prev = mc::fmt("ns=1;i=%d", i ? i : len), next = mc::fmt("ns=1;i=%d", i + 1 < len ? i + 2 : 1);
        if(parents) { if(i || close) n.attrs.push_back({"ParentNodeId", prev}); else n.refs = {ref("i=35", "i=85", false)}; }
        else if(fwd) { n.refs = {ref("i=35", "i=85", false)}; if(i + 1 < len || close) n.refs.push_back(ref("i=47", next)); }
        else { n.refs = {ref("i=35", i ? prev : close ? prev : tail ? "ns=1;i=1000" : "i=85", false)}; }
        d.nodes.push_back(n);
    }
    if(rev) std::reverse(d.nodes.begin(), d.nodes.end());
    core::checkLeak([&] {
        back::Server s;
        if(!step(s, &d, nullptr, nullptr, false, 0, true)) return;
        Doc g = good(0);
        if(!step(s, &g, nullptr, nullptr, false, 1, true)) return;
        s.del();
    });
}
// all sequences of good and bad loads
static void histories() {
    int depth = mc::by_tier(3, 4);
    std::vector<int> ops;
    for(int i = 0; i < depth; i++) ops.push_back(mc::choose(12, "load"));
    Doc cyc = good(1), undef = good(1);
    cyc.nodes[2].refs.push_back(ref("i=35", "ns=2;i=3"));
    cyc.nodes[4].refs.push_back(ref("i=35", "ns=2;s=OT"));
    undef.nodes[3].refs.push_back(ref("ns=2;i=777", "i=85"));
    Doc g0 = good(0), g1 = good(1);
    std::string cut = xml(g1), empty, notXml = "not xml";
    cut = cut.substr(0, cut.size() - 30);
    std::string dir = mc::scratch() + "/dir";
    mkdir(dir.c_str(), 0700);
    std::string missing = mc::scratch() + "/missing.xml";
    core::checkLeak([&] {
        back::Server s;
        int k = 0;
        for(int op : ops) {
            bool ok = true;
            int slot = k++;
            switch(op) {
            case 0: ok = step(s, &g0, nullptr, nullptr, false, slot, true); break;
            case 1: ok = step(s, &g1, nullptr, nullptr, false, slot, true); break;
            case 2: ok = step(s, &cyc, nullptr, nullptr, false, slot, false); break;
            case 3: ok = step(s, &undef, nullptr, nullptr, false, slot, false); break;
            case 4: ok = step(s, nullptr, &cut, nullptr, false, slot, false); break;
            case 5: ok = step(s, nullptr, &empty, nullptr, false, slot, false); break;
            case 6: ok = step(s, nullptr, &notXml, nullptr, false, slot, false); break;
            case 7: ok = step(s, nullptr, nullptr, missing.c_str(), false, slot, false); break;
            case 8: ok = step(s, nullptr, nullptr, dir.c_str(), false, slot, false); break;
            case 9: ok = step(s, nullptr, nullptr, nullptr, false, slot, false); break;
            case 10: ok = step(s, nullptr, nullptr, missing.c_str(), true, slot, false); break;
            case 11: ok = step(s, nullptr, nullptr, "", false, slot, false); break;
            }
            if(!ok) return;
        }
        s.del();
    });
}
int main(int argc, char **argv) {
    mc::scenario("histories", histories);
    mc::scenario("damaged", damaged);
    mc::scenario("semantic", semantic);
    mc::scenario("cycles", cycles);
    return mc::run(argc, argv, {"B07", "a file with every node class cut off or damaged at every byte; a reference of every type between every pair of its nodes; cycles of up to 100 nodes; all histories of 3 (4) loads from 12 good and bad ones"});
}
