// B01: loadFile creates every node in the server with the attributes of the file
#include <algorithm>
#include "back.hpp"
using namespace model;
using back::base;

struct AV { const char *name; std::vector<std::string> vals; };
static const std::vector<std::string> BOOL = {"true", "false", "1", "0"}, BYTE = {"0", "1", "3", "127", "128", "255"};
static const std::vector<AV> ATTRS[NCLS] = {
    {{"EventNotifier", BYTE}},
    {{"IsAbstract", BOOL}},
    {{"DataType", {"i=12", "i=6", "ns=1;i=77", "i=24", "Int32", "ns=1;s=x"}}, {"ValueRank", {"-1", "0", "1", "2", "-2", "-3", "3"}}, {"ArrayDimensions", {"", "0", "3", "1,2", "0,0,7", "4294967295,1"}},
     {"AccessLevel", BYTE}, {"UserAccessLevel", BYTE}, {"Historizing", BOOL}, {"MinimumSamplingInterval", {"0", "-1", "100", "0.5", "1e3"}}},
    {{"IsAbstract", BOOL}},
    {{"Executable", BOOL}, {"UserExecutable", BOOL}},
    {{"Symmetric", BOOL}, {"IsAbstract", BOOL}},
    {{"DataType", {"i=12", "i=6", "ns=1;i=77", "i=24", "Int32", "ns=1;s=x"}}, {"ValueRank", {"-1", "0", "1", "2", "-2", "-3", "3"}}, {"ArrayDimensions", {"", "0", "3", "1,2", "0,0,7"}}, {"IsAbstract", BOOL}},
    {{"ContainsNoLoops", BOOL}, {"EventNotifier", BYTE}}};
static Doc doc() { Doc d; d.uris = {"u:a", "u:b"}; d.aliases = {{"Int32", "i=6"}, {"HasComponent", "i=47"}}; return d; }
// every value of one attribute of a class against every presence of the others
static void attributes() {
    int c = mc::choose(NCLS, "class");
    Node n = base(c, "ns=1;i=1", "1:N");
    auto &av = ATTRS[c];
    int which = mc::choose((int)av.size(), "attribute");
    std::vector<Attr> at;
    for(int i = 0; i < (int)av.size(); i++) {
        if(i == which) { int v = mc::choose((int)av[i].vals.size() + 1, "value"); if(v) at.push_back({av[i].name, av[i].vals[v - 1]}); }
        else { int v = mc::choose(mc::by_tier(2, 3), "other"); if(v) at.push_back({av[i].name, av[i].vals[(v - 1) % av[i].vals.size()]}); }
    }
    if(mc::flag("reverse")) std::reverse(at.begin(), at.end());
    n.attrs = at;
    Doc d = doc(); d.nodes = {n};
    back::full(d);
}
static Txt text(const char *l) {
    switch(mc::choose(6, l)) { case 0: return Txt(); case 1: return txt("text"); case 2: return txt("text", "en-US"); case 3: return txt("", "de"); case 4: return txt(""); default: return txt("a <b> & \"c\" \xc3\xa4", ""); }
}
static void texts() {
    int c = mc::choose(NCLS, "class");
    Node n = base(c, "ns=1;i=1", "1:N");
    n.dn = text("DisplayName"); n.desc = text("Description");
    if(c == REFERENCETYPE) n.inv = text("InverseName");
    Doc d = doc(); d.nodes = {n};
    back::full(d);
}
static void names() {
    static const std::vector<std::string> ID = {"ns=1;i=1", "ns=1;s=str", "ns=1;g=00000001-0002-0003-0405-060708090a0b", "ns=1;b=AQID", "ns=2;i=4294967295", "ns=1;s=a b=;c", "ns=1;s=\xc3\xa4", "i=99999", "s=zero"},
        BN = {"1:N", "N", "2:N:M", "0:N", "1:", "1:a b", "x:y", "1:\xe2\x82\xac"};
    int c = mc::choose(NCLS, "class");
    Node n = base(c, mc::pick(ID, "id"), mc::pick(BN, "browse name"));
    Doc d = doc(); d.nodes = {n};
    back::full(d);
}
// texts and names of one or two arbitrary characters
static void characters() {
    std::string s = core::pickChars("character");
    int place = mc::choose(4, "place");
    if(s.find_first_not_of(" \t\n\r") == std::string::npos) return;   // texts of white space only: see C17
    Node n = base(OBJECT, place == 3 ? "ns=1;s=" + s : "ns=1;i=1", place == 0 ? "1:" + s : "1:N");
    if(place == 1) n.dn = txt(s);
    if(place == 2) n.desc = txt("x", s);
    Doc d = doc(); d.nodes = {n};
    back::full(d);
}
// type definitions: stated, absent, from the file, of the wrong class, missing
static void typeDefinitions() {
    Doc d = doc();
    int c = mc::flag("variable") ? VARIABLE : OBJECT;
    Node n = base(c, "ns=1;i=1", "1:N");
    static const std::vector<std::string> TO = {"", "i=61", "i=58", "ns=1;i=2", "ns=1;s=T", "i=2041"}, TV = {"", "i=68", "i=63", "ns=1;i=3", "ns=1;s=V", "i=62"};
    std::string t = mc::pick(c == OBJECT ? TO : TV, "type");
    bool first = mc::flag("type definition first");
    if(!t.empty()) n.refs.insert(first ? n.refs.begin() : n.refs.end(), ref(mc::flag("alias") ? "HasTD" : "i=40", t));
    d.aliases.push_back({"HasTD", "i=40"});
    std::vector<Node> v = {n, base(OBJECTTYPE, "ns=1;i=2", "1:OT"), base(VARIABLETYPE, "ns=1;i=3", "1:VT"), base(OBJECTTYPE, "ns=1;s=T", "1:OS"), base(VARIABLETYPE, "ns=1;s=V", "1:VS")};
    std::rotate(v.begin(), v.begin() + mc::choose(5, "rotate"), v.end());
    if(mc::flag("without types")) { std::vector<Node> w; for(auto &x : v) if(x.cls == c) w.push_back(x); v = w; }
    d.nodes = v;
    back::full(d);
}
// extension data becomes the node context
static void extensions() {
    Doc d = doc();
    bool use = mc::flag("interface");
    for(int i = 0; i < 3; i++) {
        Node n = base(mc::choose(NCLS, "class"), "ns=1;i=" + std::to_string(i + 1), "1:N");
        int k = mc::choose(3, "extension");
        if(k) { n.hasExt = true; n.exts = {{elem("e" + std::to_string(i), "text")}}; if(k == 2) n.exts.push_back({elem("second", {elem("x", "1"), elem("y", "2")})}); }
        d.nodes.push_back(n);
    }
    back::full(d, use);
}
// every mix of classes, nodes under each other
static void mixes() {
    Doc d = doc();
    int n = mc::by_tier(3, 4);
    for(int i = 0; i < n; i++) {
        int c = mc::choose(NCLS, "class");
        Node x = base(c, "ns=1;" + std::string(i & 1 ? "s=n" : "i=") + std::to_string(i + 1), "1:N" + std::to_string(i));
        x.dn = txt("d" + std::to_string(i));
        if(i && c == d.nodes.back().cls && mc::flag("below")) x.refs[0].target = d.nodes.back().id;
        d.nodes.push_back(x);
    }
    if(mc::flag("reverse")) std::reverse(d.nodes.begin(), d.nodes.end());
    back::full(d);
}
// numbers of nodes around the sizes of the containers involved
static void counts() {
    static const std::vector<int> N = {0, 1, 2, 9, 10, 11, 99, 100, 101, 199, 200, 201, 999, 1001};
    mc::slow(60);
    int n = mc::pick(N, "nodes"), c = mc::choose(NCLS, "class");
    if(n > 500 && c == DATATYPE && !mc::tier()) return;
    Doc d = doc();
    bool chain = n <= 201 && mc::flag("chain");
    for(int i = 0; i < n; i++) {
        Node x = base(c, "ns=1;i=" + std::to_string(i + 1), "1:N" + std::to_string(i));
        if(chain && i) x.refs[0].target = "ns=1;i=" + std::to_string(i);
        d.nodes.push_back(x);
    }
    if(mc::flag("reverse")) std::reverse(d.nodes.begin(), d.nodes.end());
    back::full(d);
}
// any number of dimensions
static void dimensions() {
    int c = mc::flag("type") ? VARIABLETYPE : VARIABLE;
    int n = mc::choose(mc::by_tier(70, 300), "dimensions") + 1;
    static const std::vector<std::string> V = {"0", "1", "10", "4294967295", "2147483648", "007"};
    int kind = mc::choose(3, "values");
    std::string t, first = mc::pick(V, "dimension");
    for(int i = 0; i < n; i++) t += (i ? "," : "") + (kind == 0 ? first : kind == 1 ? std::to_string(i) : i + 1 == n ? first : "5");
    Node x = base(c, "ns=1;i=1", "1:N");
    x.attrs = {{"DataType", "i=6"}, {"ValueRank", std::to_string(n)}, {"ArrayDimensions", t}};
    Doc d = doc(); d.nodes = {x};
    back::full(d);
}
// every value of the numbers
static void numbers() {
    int a = mc::choose(5, "attribute"), c = a < 2 ? (a ? VIEW : OBJECT) : VARIABLE;
    int v = mc::choose(a == 4 ? 40 : 256, "value");
    Node x = base(c, "ns=1;i=1", "1:N");
    static const char *N[] = {"EventNotifier", "EventNotifier", "AccessLevel", "UserAccessLevel", "ValueRank"};
    x.attrs = {{N[a], std::to_string(a == 4 ? v - 3 : v)}};
    Doc d = doc(); d.nodes = {x};
    back::full(d);
}
// texts of any length
static int by256() { return mc::by_tier(130, 600); }
static void lengths() {
    static const std::vector<int> L = {1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 70001};
    int k = mc::choose(by256() + (int)L.size(), "length"), n = k < by256() ? k + 1 : L[k - by256()];
    int place = mc::choose(6, "place");
    mc::slow(n > 5000 ? 20 : 5);
    std::string s;
    for(int i = 0; i < n; i++) s += (char)('a' + i % 26);
    Node x = base(place == 5 ? REFERENCETYPE : OBJECT, place == 4 ? "ns=1;s=" + s : "ns=1;i=1", place == 0 ? "1:" + s : "1:N");
    if(place == 1) x.dn = txt(s, "en");
    if(place == 2) x.desc = txt(s);
    if(place == 3) x.dn = txt("x", s);
    if(place == 5) x.inv = txt(s, "en");
    Doc d = doc(); d.nodes = {x};
    if(place == 4) { Node y = base(OBJECT, "ns=1;i=2", "1:M"); y.refs[0].target = x.id; d.nodes.push_back(y); }
    back::full(d);
}
int main(int argc, char **argv) {
    mc::scenario("dimensions", dimensions);
    mc::scenario("numbers", numbers);
    mc::scenario("lengths", lengths);
    mc::scenario("attributes", attributes);
    mc::scenario("texts", texts);
    mc::scenario("names", names);
    mc::scenario("characters", characters);
    mc::scenario("type-definitions", typeDefinitions);
    mc::scenario("extensions", extensions);
    mc::scenario("mixes", mixes);
    mc::scenario("counts", counts);
    return mc::run(argc, argv, {"B01", "every class; every value of one attribute against every presence of the others; text, name and NodeId alphabets; all mixes of 3 (4) nodes; up to 1001 nodes of a class; up to 70 (300) array dimensions; every value of the byte attributes; texts of every length up to 130 (600) and around the powers of two up to 65536"});
}
