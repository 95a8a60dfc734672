// C01: node attributes are delivered exactly as written, or with their default
#include "core.hpp"
using namespace model;

struct AttrSpec { const char *name; std::vector<std::string> values; };
static const std::vector<AttrSpec> SPEC[NCLS] = {
    /*OBJECT*/ {{"ParentNodeId", {"i=85"}}, {"EventNotifier", {"1", "0", "12"}}, {"SymbolicName", {"x"}}},
    /*OBJECTTYPE*/ {{"IsAbstract", {"true", "false"}}, {"WriteMask", {"1"}}},
    /*VARIABLE*/ {{"ParentNodeId", {"i=85", "ns=1;s=p"}}, {"DataType", {"i=12", "ns=1;i=77"}}, {"ValueRank", {"1", "-3", "-1"}}, {"ArrayDimensions", {"3", "0,0"}},
                  {"AccessLevel", {"3", "1"}}, {"UserAccessLevel", {"2", "1"}}, {"Historizing", {"true", "false"}}, {"MinimumSamplingInterval", {"250", "0.5", "-1"}}},
    /*DATATYPE*/ {{"IsAbstract", {"true", "false"}}, {"ReleaseStatus", {"Draft"}}},
    /*METHOD*/ {{"ParentNodeId", {"i=85"}}, {"Executable", {"false", "true"}}, {"UserExecutable", {"false", "true"}}, {"MethodDeclarationId", {"i=1"}}},
    /*REFERENCETYPE*/ {{"Symmetric", {"true", "false"}}, {"IsAbstract", {"true"}}},
    /*VARIABLETYPE*/ {{"DataType", {"i=12", "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28a"}}, {"ValueRank", {"1", "-2"}}, {"ArrayDimensions", {"3", "2,2"}}, {"IsAbstract", {"true", "false"}}},
    /*VIEW*/ {{"ParentNodeId", {"i=85"}}, {"ContainsNoLoops", {"true", "false"}}, {"EventNotifier", {"1", "4"}}},
};
static Txt chooseTxt(const char *base, const char *label) {
    switch(mc::choose(5, label)) {
    case 0: return Txt();
    case 1: return txt("");
    case 2: return txt(base);
    case 3: return txt(base, "en");
    default: return txt("", "de-DE");
    }
}
static Doc base() { Doc d; d.uris = {"http://a/"}; return d; }
static void run(const Doc &d) { core::checkLeak([&] { core::check({d}); }); }

// every class, every subset of its attributes, every value of a small domain
static void subsets() {
    int c = mc::choose(NCLS, "class");
    Node n = node(c, "ns=1;i=1", "1:N");
    for(auto &a : SPEC[c]) {
        int k = mc::choose((int)a.values.size() + 1, a.name);
        if(k) n.attrs.push_back({a.name, a.values[k - 1]});
    }
    n.dn = txt("N");
    Doc d = base(); d.nodes = {n};
    run(d);
}
static void texts() {
    int c = mc::choose(NCLS, "class");
    Node n = node(c, "ns=1;i=1", "1:N");
    n.dn = chooseTxt("Display", "dn"); n.desc = chooseTxt("Descr", "desc");
    n.inv = chooseTxt("Inverse", "inv");
    Doc d = base(); d.nodes = {n};
    // a neighbour before or behind must neither give nor take anything
    if(mc::tier() || mc::flag("neighbour")) {
        Node m = node(mc::choose(NCLS, "class2"), "ns=1;i=2", "1:M");
        if(mc::flag("bare")) { m.dn = txt("Other", "fr"); m.desc = txt("OtherDesc", "fr"); m.inv = txt("OtherInv", "fr"); for(auto &a : SPEC[m.cls]) m.attrs.push_back({a.name, a.values[0]}); }
        if(mc::flag("before")) d.nodes.insert(d.nodes.begin(), m); else d.nodes.push_back(m);
    }
    run(d);
}
// two adjacent nodes of all class pairs with all attributes / none
static void neighbours() {
    Doc d = base();
    int cnt = 2 + mc::choose(mc::by_tier(1, 2), "three");
    for(int i = 0; i < cnt; i++) {
        Node n = node(mc::choose(NCLS, "class"), mc::fmt("ns=1;i=%d", i + 1), mc::fmt("1:N%d", i));
        if(mc::flag("full")) {
            for(auto &a : SPEC[n.cls]) n.attrs.push_back({a.name, a.values.back()});
            n.dn = txt(mc::fmt("D%d", i), mc::fmt("l%d", i)); n.desc = txt(mc::fmt("E%d", i)); n.inv = txt(mc::fmt("I%d", i), "x");
        }
        d.nodes.push_back(n);
    }
    run(d);
}
static void permute(std::vector<Attr> &v) {
    for(size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[i + mc::choose((int)(v.size() - i), "perm")]);
}
static void attributeOrder() {
    int c = mc::choose(NCLS, "class");
    Node n = node(c, "ns=1;i=1", "1:N");
    n.hasId = n.hasBn = false;
    std::vector<Attr> a = {{"NodeId", "ns=1;i=1"}, {"BrowseName", "1:N"}};
    size_t maxA = mc::by_tier(3, 6);
    for(auto &s : SPEC[c]) if(a.size() < 2 + maxA) a.push_back({s.name, s.values[0]});
    permute(a);
    Doc d = base();
    // the model takes NodeId and BrowseName from their fields: move them there, keep the written order
    Node m = n; m.hasId = m.hasBn = true; m.id = "ns=1;i=1"; m.bn = "1:N";
    for(auto &x : a) if(x.first != "NodeId" && x.first != "BrowseName") m.attrs.push_back(x);
    n.attrs = a;
    Doc md = base(); md.nodes = {m};
    d.nodes = {n};
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        if(!l.importXml(xml(d))) mc::fail("import-fails", "import fails");
        o.import(md, [&](const std::string &u) { return l.ns.get(u); });
        o.sort();
        core::compare(l, o, l.sort());
    });
}
static const std::vector<std::string> ODD = {"", " ", "a b", " x ", "<&>\"'", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", "a:b:c", ":", "0:z", "1:z", "7:z", "-1:z", "1:", "x:1", "http://a/b", "i=1", "line\nbreak", "tab\there"};
static void values() {
    int c = mc::choose(NCLS, "class");
    Node n = node(c, "ns=1;i=1", "1:N");
    n.dn = txt("N");
    int where = mc::choose((int)SPEC[c].size() + 5, "where");
    std::string v = mc::pick(ODD, "value");
    if(where == 0) n.bn = v;
    else if(where == 1) n.dn = txt(v);
    else if(where == 2) n.desc = txt(v, v);
    else if(where == 3) n.inv = txt(v, v);
    else if(where == 4) n.id = mc::pick(std::vector<std::string>{"i=1", "ns=1;s=a b;c=1", "ns=1;g=09087e75-8E5E-499b-954f-f2a9603db28a", "ns=1;b=YWJj", "ns=0;i=5", "ns=2;i=5", "ns=1;s=", "ns=1;i=4294967295", "ns=1;s=\xc3\xa4<", "s=x", "b=YQ=="}, "id");
    else { const char *nm = SPEC[c][where - 5].name; n.attrs.push_back({nm, v}); }
    Doc d = base(); d.nodes = {n};
    run(d);
}
static std::string longText(size_t n) { std::string s(n, 'a'); for(size_t i = 0; i < n; i++) s[i] = (char)('a' + (i * 7 + i / 26) % 26); return s; }
static void lengths() {
    static const std::vector<size_t> L = {1, 2, 3, 7, 8, 9, 100, 255, 256, 300, 511, 512, 1000, 1020, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 65535, 65536, 100000,
        524287, 524288, 524289, 1048572, 1048573, 1048574, 1048575, 1048576, 1048577, 1048578, 1500000, 2097151, 2097152, 2097153, 3000000};
    mc::slow(60);
    size_t n = mc::pick(L, "length");
    std::string t = longText(n);
    Node a = node(VARIABLE, "ns=1;i=1", "1:N"), b = node(REFERENCETYPE, "ns=1;i=2", "1:M");
    a.attrs = {{"DataType", "i=12"}};
    a.dn = txt("dn"); a.desc = txt("desc"); b.dn = txt("dn2", "en"); b.inv = txt("inv2", "de");
    switch(mc::choose(7, "where")) {
    case 0: a.bn = "1:" + t; break;
    case 1: a.dn = txt(t, "en"); break;
    case 2: a.desc = txt(t); break;
    case 3: a.attrs.push_back({"ArrayDimensions", t}); break;
    case 4: b.inv = txt(t, "en"); break;
    case 5: b.dn = txt("x", t); break;
    case 6: a.id = "ns=1;s=" + t; break;
    }
    Doc d = base(); d.nodes = {a, b};
    run(d);
}
// the text arena is filled so that its 1 MB region ends anywhere inside the next nodes
static void arena() {
    mc::slow(60);
    int step = mc::by_tier(3, 1);
    int back = mc::choose(mc::by_tier(70, 420), "fill") * step;
    Node f = node(OBJECT, "ns=1;i=9", "1:F");
    f.desc = txt(longText(1048576 - 40 - back));
    Doc d = base(); d.nodes = {f};
    for(int c = 0; c < 3; c++) {
        Node n = node(c == 0 ? VARIABLE : c == 1 ? REFERENCETYPE : VIEW, mc::fmt("ns=1;i=%d", c + 1), mc::fmt("1:Node%d", c));
        for(auto &a : SPEC[n.cls]) n.attrs.push_back({a.name, a.values[0]});
        n.dn = txt(mc::fmt("Display%d", c), "en"); n.desc = txt(mc::fmt("Description%d", c), "de"); n.inv = txt(mc::fmt("Inv%d", c));
        d.nodes.push_back(n);
    }
    run(d);
}
// every character, alone and in pairs, in texts and attributes
static void characters() {
    int where = mc::choose(7, "where");
    std::string t = core::pickChars("text");
    Node n = node(where == 3 ? REFERENCETYPE : VARIABLE, "ns=1;i=1", "1:N");
    switch(where) {
    case 0: n.dn = txt(t); break;
    case 1: n.desc = txt(t, "en"); break;
    case 2: n.desc = txt("x", t); break;
    case 3: n.inv = txt(t, t); break;
    case 4: n.bn = "1:" + t; break;
    case 5: n.attrs = {{"ArrayDimensions", t}}; break;
    case 6: n.id = "ns=1;s=" + t; break;
    }
    Doc d = base(); d.nodes = {n, node(OBJECT, "ns=1;i=2", "1:M")};
    run(d);
}
int main(int argc, char **argv) {
    mc::scenario("attribute-subsets", subsets);
    mc::scenario("texts", texts);
    mc::scenario("neighbours", neighbours);
    mc::scenario("attribute-order", attributeOrder);
    mc::scenario("odd-values", values);
    mc::scenario("lengths", lengths);
    mc::scenario("arena-boundary", arena);
    mc::scenario("characters", characters);
    return mc::run(argc, argv, {"C01", "attribute domains, text lengths and combinations bounded as enumerated in checks/C01.cpp"});
}
