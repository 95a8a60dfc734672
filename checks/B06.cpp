// B06: imported data types have the memory layout a C compiler gives them
#include <algorithm>
#include "back.hpp"
using namespace model;
using back::base; using back::dataType; using back::field;

static const std::vector<std::string> BUILTIN = {"i=1", "i=2", "i=3", "i=4", "i=5", "i=6", "i=7", "i=8", "i=9", "i=10", "i=11", "i=12", "i=13", "i=14", "i=15", "i=16", "i=17", "i=18", "i=19", "i=20", "i=21", "i=22", "i=23", "i=24", "i=25"};
static const std::vector<std::string> SMALL = {"i=1", "i=4", "i=6", "i=8", "i=14", "i=12"};
static Doc doc() { Doc d; d.uris = {"u:a"}; d.aliases = {{"Al", "i=9"}}; return d; }
// types used as members: enumeration, subtype, structures of every alignment, empty ones, unions, with optional fields
static std::vector<Node> helpers() {
    std::vector<Node> v;
    v.push_back(dataType("ns=1;i=100", "1:Enum", "i=29"));
    v.push_back(dataType("ns=1;i=101", "1:MyInt16", "i=4"));
    v.push_back(dataType("ns=1;i=102", "1:S1")); field(v.back(), "a", "i=1");
    v.push_back(dataType("ns=1;i=103", "1:S9")); field(v.back(), "a", "i=8"); field(v.back(), "b", "i=1");
    v.push_back(dataType("ns=1;i=104", "1:S5")); field(v.back(), "a", "i=1"); field(v.back(), "b", "i=6");
    v.push_back(dataType("ns=1;i=105", "1:Empty"));
    v.push_back(dataType("ns=1;i=106", "1:NoFields")); v.back().def.present = true;
    v.push_back(dataType("ns=1;i=107", "1:Un", "i=12756")); v.back().def.attrs = {{"IsUnion", "true"}}; field(v.back(), "a", "i=1"); field(v.back(), "b", "i=4");
    v.push_back(dataType("ns=1;i=108", "1:Un8", "i=12756")); v.back().def.attrs = {{"IsUnion", "true"}}; field(v.back(), "a", "i=8"); field(v.back(), "b", "i=12");
    v.push_back(dataType("ns=1;i=109", "1:Opt")); field(v.back(), "a", "i=1", false, true); field(v.back(), "b", "i=1");
    v.push_back(dataType("ns=1;s=St r", "1:Arr")); field(v.back(), "a", "i=1", true);
    v.push_back(dataType("ns=1;i=111", "1:Abs", "i=22", true)); field(v.back(), "a", "i=1");
    v.push_back(dataType("ns=1;i=112", "1:Bits", "i=12755"));
    v.push_back(dataType("ns=1;i=113", "1:Num", "i=26"));
    return v;
}
static const std::vector<std::string> OWN = {"ns=1;i=100", "ns=1;i=101", "ns=1;i=102", "ns=1;i=103", "ns=1;i=104", "ns=1;i=105", "ns=1;i=106", "ns=1;i=107", "ns=1;i=108", "ns=1;i=109", "ns=1;s=St r", "ns=1;i=111", "ns=1;i=112", "ns=1;i=113"},
    NS0 = {"i=294", "i=290", "i=295", "i=257", "i=884", "i=887", "i=7594", "i=296", "i=12755", "i=26", "i=27", "i=28", "i=29", "i=30", "ns=1;i=999", "Al"};
static std::vector<std::string> all() { auto v = BUILTIN; v.insert(v.end(), OWN.begin(), OWN.end()); v.insert(v.end(), NS0.begin(), NS0.end()); return v; }
static void anyField(Node &n, const std::string &name, const std::vector<std::string> &types, bool un) {
    std::string t = mc::pick(types, "type");
    int f = mc::choose(un ? 2 : 4, "array, optional");
    field(n, name, t, f & 1, f & 2);
}
static void run(std::vector<Node> own, bool first) {
    Doc d = doc();
    auto h = helpers();
    d.nodes = own;
    d.nodes.insert(first ? d.nodes.end() : d.nodes.begin(), h.begin(), h.end());
    back::full(d);
}
// one member of any type between members of every alignment
static void oneMember() {
    bool un = mc::flag("union");
    Node n = dataType("ns=1;i=1", "1:T", un ? "i=12756" : "i=22");
    if(un) n.def.attrs = {{"IsUnion", "true"}};
    int b = mc::choose((int)SMALL.size() + 1, "before");
    if(b) field(n, "before", SMALL[b - 1]);
    anyField(n, "member", all(), un);
    int a = mc::choose(mc::by_tier(3, (int)SMALL.size() + 1), "after");
    if(a) field(n, "after", SMALL[a - 1]);
    run({n}, mc::flag("before its members' types"));
}
static void members() {
    bool un = mc::flag("union");
    Node n = dataType("ns=1;i=1", "1:T", un ? "i=12756" : "i=22");
    if(un) n.def.attrs = {{"IsUnion", "true"}};
    static const std::vector<std::string> Q = {"i=1", "i=4", "i=6", "i=8", "i=14", "i=12", "ns=1;i=102", "ns=1;i=103", "ns=1;i=107", "ns=1;i=108"};
    int k = mc::by_tier(2, 3);
    for(int i = 0; i < k; i++) anyField(n, std::string(1, (char)('a' + i)), Q, un);
    run({n}, true);
}
// every sequence of plain members, contained in another structure
static void nested() {
    static const std::vector<std::string> Q = {"i=1", "i=4", "i=6", "i=8", "i=14", "i=12"};
    Node n = dataType("ns=1;i=1", "1:T"), o = dataType("ns=1;i=2", "1:Outer");
    int k = 1 + mc::choose(mc::by_tier(3, 4), "members");
    for(int i = 0; i < k; i++) field(n, "m" + std::to_string(i), mc::pick(Q, "type"));
    int how = mc::choose(4, "how");
    if(mc::flag("leading")) field(o, "x", "i=1");
    field(o, "t", "ns=1;i=1", how & 1, how & 2);
    field(o, "t2", "ns=1;i=1");
    field(o, "y", "i=1");
    Doc d = doc();
    d.nodes = {n, o};
    if(mc::flag("outer first")) std::swap(d.nodes[0], d.nodes[1]);
    back::full(d);
}
// chains of supertypes, in any order in the file
static void inheritance() {
    static const std::vector<std::string> ROOT = {"i=22", "i=884", "i=296", "i=887", "i=12755"};
    int k = 1 + mc::choose(3, "levels");
    std::string sup = ROOT[mc::choose(k == 3 ? mc::by_tier(1, 5) : 5, "root")];
    std::vector<Node> v;
    for(int i = 0; i < k; i++) {
        std::string id = "ns=1;i=" + std::to_string(i + 1);
        Node n = dataType(id, "1:T" + std::to_string(i), sup, i == 0 && k > 1 && mc::flag("abstract"));
        int f = mc::choose(8, "fields");
        std::string nm = "l" + std::to_string(i);
        switch(f) {
        case 0: break;
        case 1: n.def.present = true; break;
        case 2: field(n, nm, "i=1"); break;
        case 3: field(n, nm, "i=8"); break;
        case 4: field(n, nm, "i=4", true); break;
        case 5: field(n, nm, "i=4", false, true); break;
        case 6: field(n, nm, "i=1"); field(n, nm + "x", "i=12"); break;
        case 7: field(n, nm, "i=4", true, true); field(n, nm + "x", "i=1"); break;
        }
        v.push_back(n);
        sup = id;
    }
    // another type contains the last one
    Node c = dataType("ns=1;i=50", "1:Container"); field(c, "b", "i=1"); field(c, "t", sup); field(c, "e", "i=1");
    v.push_back(c);
    std::vector<Node> o;
    while(!v.empty()) { int i = mc::choose(k == 3 && mc::by_tier(1, 0) ? std::min<int>(2, v.size()) : (int)v.size(), "order"); o.push_back(v[i]); v.erase(v.begin() + i); }
    Doc d = doc(); d.nodes = o;
    back::full(d);
}
// every containment relation of a few types, in any order
static void containment() {
    int k = mc::by_tier(3, 4);
    std::vector<Node> v;
    static const std::vector<std::string> PAD = {"i=1", "i=8", "i=6", "i=12"};
    for(int i = 0; i < k; i++) {
        Node n = dataType("ns=1;i=" + std::to_string(i + 1), "1:T" + std::to_string(i));
        field(n, "p", PAD[i]);
        for(int j = 0; j < k; j++) {
            // 0 no, 1 by value, 2 array, 3 optional; backwards and to itself not by value
            if(k == 4 && j < i) { if(mc::flag("array back")) field(n, "m" + std::to_string(j), "ns=1;i=" + std::to_string(j + 1), true); continue; }
            int c = mc::choose(j > i ? (k == 4 ? 2 : 4) : mc::by_tier(2, 3), "contains");
            if(!c) continue;
            int how = j > i ? c : c + 1;
            field(n, "m" + std::to_string(j), "ns=1;i=" + std::to_string(j + 1), how == 2, how == 3);
        }
        v.push_back(n);
    }
    std::vector<Node> o;
    while(!v.empty()) { int i = mc::choose((int)v.size(), "order"); o.push_back(v[i]); v.erase(v.begin() + i); }
    Doc d = doc(); d.nodes = o;
    back::full(d);
}
// types that contain themselves, or members of types that do not exist: the load ends, the others are right
static void recursive() {
    Doc d = doc();
    int len = 1 + mc::choose(3, "length");
    for(int i = 0; i < len; i++) {
        Node n = dataType("ns=1;i=" + std::to_string(i + 1), "1:T" + std::to_string(i));
        if(mc::flag("union")) n.def.attrs = {{"IsUnion", "true"}};
        field(n, "a", "i=1");
        int how = mc::choose(3, "how");
        field(n, "next", "ns=1;i=" + std::to_string((i + 1) % len + 1), how == 1, how == 2);
        d.nodes.push_back(n);
    }
    Node n = dataType("ns=1;i=20", "1:Good"); field(n, "a", "i=8"); field(n, "x", "ns=1;i=999"); field(n, "b", "i=12", true);
    d.nodes.insert(mc::flag("first") ? d.nodes.begin() : d.nodes.end(), n);
    if(mc::flag("user")) { Node u = dataType("ns=1;i=21", "1:User"); field(u, "a", "ns=1;i=1"); field(u, "b", "i=1"); d.nodes.insert(d.nodes.begin(), u); }
    back::full(d);
}
// subtypes of everything that is not a structure, one to three levels, and their use as members
static void subtypes() {
    static const std::vector<std::string> B = [] { auto v = BUILTIN; v.erase(v.begin() + 21); v.insert(v.end(), {"i=26", "i=27", "i=28", "i=29", "i=257", "i=294", "i=290", "i=295", "i=12755", "i=288"}); return v; }();
    std::string sup = mc::pick(B, "base");
    int k = 1 + mc::choose(3, "levels"), def = mc::choose(3, "definition");
    std::vector<Node> v;
    for(int i = 0; i < k; i++) {
        std::string id = i == 1 ? "ns=1;s=T1" : "ns=1;i=" + std::to_string(i + 1);
        Node n = dataType(id, "1:T" + std::to_string(i), sup);
        if(def) { n.def.present = true; if(def == 2) n.def.attrs = {{"IsOptionSet", "true"}}; for(int f = 0; f < 2; f++) n.def.fields.push_back({{{"Name", "e" + std::to_string(f)}, {"Value", std::to_string(f)}}}); }
        v.push_back(n);
        sup = id;
    }
    Node c = dataType("ns=1;i=50", "1:Container"); field(c, "b", "i=1"); field(c, "t", sup); field(c, "e", "i=1"); field(c, "r", sup, true);
    v.push_back(c);
    if(mc::flag("reverse")) std::reverse(v.begin(), v.end());
    Doc d = doc(); d.nodes = v;
    back::full(d);
}
// encodings, names and kinds of NodeIds
static void encodings() {
    static const std::vector<std::string> ID = {"ns=1;i=1", "ns=1;s=type", "ns=1;g=00000001-0002-0003-0405-060708090a0b", "ns=1;i=4294967295"}, ENC = {"ns=1;i=70", "ns=1;s=enc"}, NAME = {"Default Binary", "Default XML", "Default JSON"};
    std::string id = mc::pick(ID, "id");
    Node n = dataType(id, mc::flag("namespace") ? "1:My Type" : "T\xc3\xa4", mc::flag("enum") ? "i=29" : "i=22");
    field(n, "a", "i=1");
    std::vector<Node> v;
    int k = mc::choose(4, "encodings"), rot = mc::choose(3, "order");
    for(int i = 0; i < k; i++) {
        std::string eid = i == 0 ? mc::pick(ENC, "encoding id") : "ns=1;i=" + std::to_string(70 + i);
        Node e = base(OBJECT, eid, NAME[(i + rot) % 3]);
        e.refs = {ref("i=40", "i=76")};
        int st = mc::choose(3, "stated by");       // the object, the type, both
        if(st != 1) e.refs.push_back(ref("i=38", id, false));
        if(st != 0) n.refs.push_back(ref("i=38", eid));
        v.push_back(e);
    }
    v.insert(v.begin() + mc::choose((int)v.size() + 1, "place"), n);
    Node o = dataType("ns=1;i=60", "1:Other"); field(o, "t", id);
    v.push_back(o);
    Doc d = doc(); d.nodes = v;
    back::full(d);
}
// numbers of members, also inherited ones
static void counts() {
    static const std::vector<int> K = {0, 1, 2, 63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 600};
    int k = mc::pick(K, "members"), inh = mc::choose(5, "inherited") * 60, kind = mc::choose(3, "kind");
    Doc d = doc();
    Node p = dataType("ns=1;i=1", "1:P");
    for(int i = 0; i < inh; i++) field(p, "p" + std::to_string(i), i % 3 ? "i=1" : "i=6");
    Node n = dataType("ns=1;i=2", "1:T", "ns=1;i=1");
    n.def.present = true;
    if(kind == 2 && !inh) n.def.attrs = {{"IsUnion", "true"}};
    for(int i = 0; i < k; i++) field(n, "f" + std::to_string(i), i % 5 ? "i=1" : "i=12", kind == 1 && i % 7 == 3);
    Node c = dataType("ns=1;i=3", "1:C"); field(c, "t", "ns=1;i=2"); field(c, "b", "i=1");
    d.nodes = {c, n, p};
    back::full(d);
}
// numbers of data types, each using the one before or after it
static void manyTypes() {
    static const std::vector<int> K = {10, 99, 100, 101, 999, 1000, 1001};
    int k = mc::by_tier(0, 1) ? mc::choose(3, "more") ? 3000 : mc::pick(K, "types") : mc::pick(K, "types");
    int dir = mc::choose(3, "direction");
    mc::slow(60);
    Doc d = doc();
    for(int i = 0; i < k; i++) {
        Node n = dataType("ns=1;i=" + std::to_string(i + 1), "1:T" + std::to_string(i));
        field(n, "a", "i=1");
        int o = dir == 0 ? i : dir == 1 ? i + 2 : 0;
        if(o > 0 && o <= k && i % 50) field(n, "m", "ns=1;i=" + std::to_string(o));
        d.nodes.push_back(n);
    }
    back::full(d);
}
// incomplete fields and references besides HasSubtype
static void odd() {
    Doc d = doc();
    Node n = dataType("ns=1;i=1", "1:T");
    n.def.present = true;
    int k = 1 + mc::choose(2, "fields");
    for(int i = 0; i < k; i++) {
        Field f;
        if(mc::flag("name")) f.attrs.push_back({"Name", "f" + std::to_string(i)});
        int t = mc::choose(4, "type"); if(t) f.attrs.push_back({"DataType", t == 1 ? "i=1" : t == 2 ? "nonsense" : "ns=1;i=2"});
        int r = mc::choose(7, "rank"); if(r) f.attrs.push_back({"ValueRank", std::to_string(r - 4)});
        int o = mc::choose(3, "optional"); if(o) f.attrs.push_back({"IsOptional", o == 1 ? "1" : "false"});
        n.def.fields.push_back(f);
    }
    Node o = dataType("ns=1;i=2", "1:O"); field(o, "x", "i=4");
    int extra = mc::choose(3, "further reference");
    if(extra == 1) n.refs.insert(n.refs.begin(), ref("i=35", "i=884", false));
    if(extra == 2) n.refs.push_back(ref("i=47", "ns=1;i=2", false));
    d.nodes = {n, o};
    back::full(d);
}
int main(int argc, char **argv) {
    mc::scenario("one-member", oneMember);
    mc::scenario("members", members);
    mc::scenario("nested", nested);
    mc::scenario("inheritance", inheritance);
    mc::scenario("containment", containment);
    mc::scenario("recursive", recursive);
    mc::scenario("subtypes", subtypes);
    mc::scenario("encodings", encodings);
    mc::scenario("counts", counts);
    mc::scenario("many-types", manyTypes);
    mc::scenario("odd", odd);
    return mc::run(argc, argv, {"B06", "open62541's type conventions and type table are those of the stand-in (DESIGN.md); abstract namespace 0 members become Variants as in open62541's UA_TYPES; structures that contain themselves by value, inherit to or from unions, or exceed 255 members or 64 KiB have no C layout and are only checked for termination and memory safety"});
}
