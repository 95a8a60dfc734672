// B03: namespaces of the file are mapped to the server's, in values too
#include <algorithm>
#include <cstring>
#include "batch.hpp"
using namespace model;
using back::Batch; using back::dataType; using back::field; using back::base;

typedef std::vector<Elem> EV;
static std::string N(int ns, const std::string &id) { return ns ? "ns=" + std::to_string(ns) + ";" + id : id; }
static Elem nid(const std::string &name, const std::string &id) { return elem(name, EV{elem("Identifier", id)}); }
static Elem qn(const std::string &name, int ns, const std::string &s) { return elem(name, EV{elem("NamespaceIndex", std::to_string(ns)), elem("Name", s)}); }
static Elem xo(const Elem &e) { return elem("ExtensionObject", EV{elem("TypeId", EV{elem("Identifier", "i=5")}), elem("Body", EV{e})}); }
// nodes that use namespace a for types and b for instances, and values with both
static void content(Doc &d, int a, int b, int tag) {
    std::string A = std::to_string(a), B = std::to_string(b);
    auto T = [&](int i) { return N(a, "i=" + std::to_string(tag * 1000 + i)); };
    auto I = [&](int i) { return N(b, "i=" + std::to_string(tag * 1000 + i)); };
    Node rt = base(REFERENCETYPE, T(1), A + ":Rel"); rt.refs[0].target = "i=47";
    Node ot = base(OBJECTTYPE, T(2), A + ":OT"), vt = base(VARIABLETYPE, T(3), B + ":VT"); vt.attrs.push_back({"DataType", T(6)});
    Node st = dataType(T(4), A + ":St"); field(st, "n", "i=17"); field(st, "q", "i=20"); field(st, "ln", "i=17", true); field(st, "lq", "i=20", true); field(st, "on", "i=17", false, true);
    Node un = dataType(T(5), B + ":Un", "i=12756"); un.def.attrs = {{"IsUnion", "true"}}; field(un, "n", "i=17"); field(un, "q", "i=20"); field(un, "s", T(4));
    Node sub = dataType(T(6), A + ":Sub", T(4)); field(sub, "in", T(4)); field(sub, "u", T(5), true);
    Node o = back::under(OBJECT, I(10), B + ":O", "i=85", "i=35"); o.refs.push_back(ref("i=40", T(2)));
    Node c = back::under(OBJECT, N(b, "s=child" + std::to_string(tag)), A + ":C", I(10), T(1)); c.refs.push_back(ref("i=40", T(2)));
    Node p = base(OBJECT, N(a, "g=00000001-0002-0003-0405-0607080900" + std::to_string(10 + tag)), B + ":P"); p.refs = {ref("i=40", T(2)), ref("i=47", I(10), false), ref("i=41", T(2))}; p.attrs.push_back({"ParentNodeId", I(10)});
    d.nodes.insert(d.nodes.end(), {rt, ot, vt, st, un, sub, o, c, p});
    Batch v; v.d.nodes.clear();
    v.n = tag * 100;
    auto S = [&](const std::string &name, int x, int y) { return elem(name, EV{nid("n", N(x, "i=7")), qn("q", y, "q"), elem("ln", EV{nid("NodeId", N(y, "s=x")), nid("NodeId", N(x, "i=8")), nid("NodeId", "i=9")}), elem("lq", EV{qn("QualifiedName", x, "l"), qn("QualifiedName", y, "m"), qn("QualifiedName", 0, "z")}), nid("on", N(y, "g=00000001-0002-0003-0405-060708090a0b"))}); };
    for(int s = 0; s < 2; s++) {
        int x = s ? b : a, y = s ? a : b;
        v.add("i=17", nid("NodeId", N(x, "s=val"))); v.add("i=20", qn("QualifiedName", x, "val"));
        v.add("i=17", elem("ListOfNodeId", EV{nid("NodeId", N(x, "i=1")), nid("NodeId", N(y, "b=AQID")), nid("NodeId", "i=3")}), 1);
        v.add("i=20", elem("ListOfQualifiedName", EV{qn("QualifiedName", x, "a"), qn("QualifiedName", y, "b"), qn("QualifiedName", 0, "c")}), 1);
        v.add(T(4), xo(S("St", x, y)));
        v.add(T(5), xo(elem("Un", EV{elem("SwitchField", "1"), nid("n", N(x, "i=7"))})));
        v.add(T(5), xo(elem("Un", EV{elem("SwitchField", "2"), qn("q", x, "u")})));
        Elem sub = S("Sub", x, y); sub.kids.push_back(S("in", y, x)); sub.kids.push_back(elem("u", EV{elem("Un", EV{elem("SwitchField", "3"), S("s", x, y)}), elem("Un", EV{elem("SwitchField", "1"), nid("n", N(y, "i=70"))})}));
        v.add(T(6), xo(sub)); v.add(T(6), elem("ListOfExtensionObject", EV{xo(sub), xo(S("Sub", y, x))}), 1);
        v.add("i=296", xo(elem("Argument", EV{elem("Name", "arg"), nid("DataType", N(x, "i=" + std::to_string(tag * 1000 + 4)))})));
    }
    for(auto &n : v.d.nodes) { n.id = N(b, n.id.substr(n.id.find(";") + 1)); n.bn = B + n.bn.substr(n.bn.find(':')); n.refs.push_back(ref("i=40", T(3))); n.refs.push_back(ref(T(1), I(10), false)); }
    d.nodes.insert(d.nodes.end(), v.d.nodes.begin(), v.d.nodes.end());
}
static const std::vector<std::string> U = {"u:a", "u:b", "http://c/", "u:a/"};
// the namespaces of the server before the load; the table of the file; which of them is used
static std::vector<std::string> pre(int max) {
    static const std::vector<std::string> P = {"u:x", "u:a", "u:b", "http://c/", "urn:y"};
    std::vector<std::string> v;
    int k = mc::choose(max + 1, "namespaces of the server");
    for(int i = 0; i < k; i++) v.push_back(mc::pick(P, "registered"));
    return v;
}
static void table() {
    auto pr = pre(2);
    Doc d;
    int k = 1 + mc::choose(mc::tier() || pr.size() < 2 ? 3 : 2, "uris");
    for(int i = 0; i < k; i++) d.uris.push_back(mc::pick(U, "uri"));
    int a = mc::choose(k + 1, "types"), b = mc::choose(k + 1, "instances");
    // namespace 0 items are delivered as they are; only instances
    if(a == 0) a = b;
    if(a == 0) return;
    if(b == 0 && mc::tier() == 0) return;
    content(d, a, b ? b : a, 5);
    back::full({d}, false, pr);
}
// several files with different tables
static void files() {
    auto pr = pre(1);
    std::vector<Doc> ds;
    int n = 2 + mc::choose(mc::by_tier(1, 2), "files");
    for(int f = 0; f < n; f++) {
        Doc d;
        int k = 1 + mc::choose(2, "uris");
        for(int i = 0; i < k; i++) d.uris.push_back(U[(size_t)mc::choose(n == 2 ? mc::by_tier(2, 3) : 2, "uri")]);
        if(k == 2 && mc::flag("uri of the first file again")) d.uris.push_back(ds.empty() ? "u:q" : ds[0].uris[0]);
        int a = 1 + mc::choose((int)d.uris.size(), "types"), b = (int)d.uris.size() + 1 - a;
        content(d, a, b, 5 + f);
        ds.push_back(d);
    }
    back::full(ds, false, pr);
}
// a later file refers to nodes, types and namespaces of the first one
static void across() {
    auto pr = pre(2);
    Doc a, b;
    std::vector<std::string> u = {"u:a", "u:b"};
    if(mc::flag("exchanged")) std::swap(u[0], u[1]);
    a.uris = u;
    content(a, 1, 2, 5);
    std::vector<std::string> w = {"u:b", "u:a", "u:new"};
    int perm = mc::choose(6, "order"); for(int i = 0; i < perm; i++) std::next_permutation(w.begin(), w.end());
    b.uris = w;
    auto at = [&](const std::string &x) { return (int)(std::find(w.begin(), w.end(), x) - w.begin()) + 1; };
    int t = at(u[0]), i = at(u[1]), n = at("u:new");
    Node v = back::under(VARIABLE, N(n, "i=1"), std::to_string(t) + ":V", N(i, "i=5010"), N(t, "i=5001"));
    v.attrs.push_back({"DataType", N(t, "i=5004")}); v.refs.push_back(ref("i=40", N(t, "i=5003")));
    v.hasValue = true; v.value = {xo(elem("St", EV{nid("n", N(i, "i=7")), qn("q", n, "q"), elem("ln", EV{nid("NodeId", N(t, "i=1")), nid("NodeId", N(n, "i=2")), nid("NodeId", N(i, "i=3"))})}))};
    Node s = dataType(N(n, "i=2"), std::to_string(n) + ":Sub", N(t, "i=5004")); field(s, "more", N(t, "i=5005"));
    Node o = back::under(OBJECT, N(n, "i=3"), std::to_string(i) + ":O", N(i, "s=child5"), "i=47"); o.refs.push_back(ref("i=40", N(t, "i=5002")));
    Node x = v; x.id = N(n, "i=4"); x.attrs = {{"DataType", N(n, "i=2")}}; x.value = {xo(elem("Sub", EV{qn("q", t, "inherited"), elem("more", EV{elem("SwitchField", "1"), nid("n", N(n, "s=m"))})}))};
    if(mc::flag("alias")) { b.aliases = {{"T", N(t, "i=5004")}, {"R", N(t, "i=5001")}}; v.attrs = {{"DataType", "T"}}; v.refs[0].type = "R"; }
    b.nodes = {v, s, o, x};
    content(b, n, t, 6);
    back::full({a, b}, false, pr);
}
// numbers of namespaces of the server and of the file
static void numbers() {
    static const std::vector<int> K = {0, 1, 2, 7, 8, 9, 10, 31, 32, 99, 100, 101, 253, 254, 255, 256, 257, 300, 1000};
    int p = mc::pick(K, "server"), f = mc::pick(K, "file");
    if(f == 0) return;
    std::vector<std::string> pr;
    for(int i = 0; i < p; i++) pr.push_back("u:p" + std::to_string(i));
    Doc d;
    bool shared = mc::flag("shared");
    for(int i = 0; i < f; i++) d.uris.push_back(shared && i % 2 && i < p ? "u:p" + std::to_string(p - 1 - i) : "u:f" + std::to_string(i));
    content(d, f, 1 + f / 2, 5);
    if(f > 1) { Doc e = d; e.nodes.clear(); content(e, 1, f - 1, 6); back::full({d, e}, false, pr); }
    else back::full({d}, false, pr);
}
// uris of one or two arbitrary characters, prefixes of each other, the one of namespace 0 or 1
static void uris() {
    std::string c = core::pickChars("character");
    if(c.find_first_not_of(" \t\n\r") == std::string::npos || strchr("\t\n\r ", c[0]) || strchr("\t\n\r ", c.back())) return;
    Doc d;
    d.uris = {"u" + c, c, "u"};
    content(d, 1, 2, 5); content(d, 3, 1, 6);
    back::full({d}, false, mc::flag("known") ? std::vector<std::string>{"u", c} : std::vector<std::string>{});
}
// an undeclared index: memory safety
static void undeclared() {
    static const std::vector<std::string> S = {"2", "3", "255", "65535", "65536", "4294967296", "-1", "", "x", "1.5"};
    Batch b;
    if(mc::flag("no table")) b.d.uris.clear();
    auto &s = mc::pick(S, "index");
    b.add("i=17", nid("NodeId", "ns=" + s + ";i=1")); b.add("i=20", elem("QualifiedName", EV{elem("NamespaceIndex", s), elem("Name", "n")}));
    b.add("i=17", elem("ListOfNodeId", EV{nid("NodeId", "ns=" + s + ";s=abc"), nid("NodeId", "i=1")}), 1);
    for(auto &n : b.d.nodes) n.id = n.id.substr(n.id.find(';') + 1), n.bn = n.bn.substr(n.bn.find(':') + 1);
    b.run();
}
int main(int argc, char **argv) {
    mc::scenario("table", table);
    mc::scenario("files", files);
    mc::scenario("across", across);
    mc::scenario("numbers", numbers);
    mc::scenario("uris", uris);
    mc::scenario("undeclared", undeclared);
    return mc::run(argc, argv, {"B03", "indexes that the file does not declare and uris with white space around them are not judged; namespaces are never removed from a server"});
}
