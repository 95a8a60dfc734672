// B09: loading is memory safe (AddressSanitizer) and leaves no memory behind (allocation hooks)
#include <algorithm>
#include <cstring>
#include "batch.hpp"
using namespace model;
using back::base; using back::dataType; using back::field; using back::under;

typedef std::vector<Elem> EV;
static Elem xo(const Elem &e) { return elem("ExtensionObject", EV{elem("TypeId", EV{elem("Identifier", "i=5")}), elem("Body", EV{e})}); }
struct Step { std::string xml; bool ext = false; bool path = false; };
static void drive(const std::vector<Step> &steps) {
    core::checkLeak([&] {
        back::Server s;
        for(size_t i = 0; i < steps.size(); i++) {
            bool r = steps[i].path ? s.loadPath(steps[i].xml.c_str(), steps[i].ext) : s.load(steps[i].xml, steps[i].ext, (int)i);
            mc::state((r ? "ok " : "failed ") + std::to_string(mc::hash(steps[i].xml)));
        }
        // every value is read: what the variables refer to must be valid
        back::Space sp = s.snapshot();
        mc::validated(sp.nodes.size());
        s.del();
    });
}
// builtin types and a valid value of each
struct BT { const char *id, *name; std::function<Elem(const std::string &)> v; };
static const std::vector<BT> &builtin() {
    auto t = [](const char *s) { return [s](const std::string &n) { return elem(n, s); }; };
    auto k = [](const char *c, const char *s) { return [c, s](const std::string &n) { return elem(n, EV{elem(c, s)}); }; };
    static const std::vector<BT> B = {{"i=1", "Boolean", t("true")}, {"i=2", "SByte", t("-7")}, {"i=3", "Byte", t("200")}, {"i=4", "Int16", t("-300")}, {"i=5", "UInt16", t("65535")}, {"i=6", "Int32", t("-70000")}, {"i=7", "UInt32", t("70000")},
        {"i=8", "Int64", t("-9999999999")}, {"i=9", "UInt64", t("9999999999")}, {"i=10", "Float", t("1.5")}, {"i=11", "Double", t("-2.25")}, {"i=12", "String", t("a string that is longer than a pointer")}, {"i=13", "DateTime", t("2020-02-29T12:13:14.5Z")},
        {"i=14", "Guid", k("String", "00000001-0002-0003-0405-060708090a0b")}, {"i=15", "ByteString", t("QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVo=")}, {"i=16", "XmlElement", k("x", "y")}, {"i=17", "NodeId", k("Identifier", "ns=1;s=a string identifier")},
        {"i=18", "ExpandedNodeId", k("Identifier", "ns=1;s=expanded")}, {"i=19", "StatusCode", k("Code", "2147483648")}, {"i=20", "QualifiedName", [](const std::string &n) { return elem(n, EV{elem("NamespaceIndex", "1"), elem("Name", "a qualified name")}); }},
        {"i=21", "LocalizedText", [](const std::string &n) { return elem(n, EV{elem("Locale", "en-US"), elem("Text", "a localized text")}); }}, {"i=22", "ExtensionObject", [](const std::string &) { return xo(elem("X", EV{elem("a", "1")})); }},
        {"i=23", "DataValue", [](const std::string &n) { return elem(n, EV{elem("Value", EV{elem("Int32", "1")})}); }}, {"i=24", "Variant", [](const std::string &n) { return elem(n, EV{elem("Value", EV{elem("Int32", "1")})}); }}, {"i=25", "DiagnosticInfo", k("SymbolicId", "1")},
        {"i=296", "Argument", [](const std::string &n) { return elem(n, EV{elem("Name", "arg"), elem("DataType", EV{elem("Identifier", "ns=1;s=t")}), elem("ValueRank", "1"), elem("ArrayDimensions", EV{elem("UInt32", "1"), elem("UInt32", "2")}), elem("Description", EV{elem("Text", "d")})}); }},
        {"i=887", "EUInformation", [](const std::string &n) { return elem(n, EV{elem("NamespaceUri", "u"), elem("UnitId", "1"), elem("DisplayName", EV{elem("Text", "d")})}); }},
        {"i=26", "Number", t("1")}, {"i=29", "Enumeration", t("A_1")}, {"i=294", "UtcTime", t("2020-02-29T12:13:14Z")}, {"i=12755", "OptionSet", [](const std::string &n) { return elem(n, EV{elem("Value", "QUI="), elem("ValidBits", "QUI=")}); }}};
    return B;
}
static bool isStruct(const BT &b) { return !strcmp(b.id, "i=296") || !strcmp(b.id, "i=887") || !strcmp(b.id, "i=12755"); }
// the contents of a value of the type
static Elem content(const BT &b, int k) {
    Elem v = b.v(b.name), e = elem(b.name);
    switch(k) {
    case 0: return v;
    case 1: return e;
    case 2: return elem(b.name, "garbage");
    case 3: return elem(b.name, EV{elem("Unknown", "x")});
    case 4: return elem("Other", v.kids.empty() ? EV{elem(b.name, v.text)} : v.kids);
    case 5: if(!v.kids.empty()) v.kids.insert(v.kids.end(), v.kids.begin(), v.kids.end()); else v.text += v.text; return v;
    case 6: for(auto &x : v.kids) { x.kids.clear(); x.text = ""; } v.text = v.kids.empty() ? " " : ""; return v;
    case 7: for(auto &x : v.kids) x = elem(x.name, EV{elem(x.name, x.text)}); if(v.kids.empty()) v = elem(v.name, EV{elem(v.name, v.text)}); return v;
    case 8: std::reverse(v.kids.begin(), v.kids.end()); v.text = v.kids.empty() ? "\t" + v.text + "\n" : ""; return v;
    case 9: if(!v.kids.empty()) v.kids.pop_back(); else v.text = std::string(3000, '1'); return v;
    }
    return v;
}
static const int CONTENTS = 10;
// every builtin type with every content in every place
static void values() {
    const BT &b = mc::pick(builtin(), "type");
    int place = mc::choose(10, "place"), k = mc::choose(CONTENTS, "content"), k2 = place == 1 || place == 4 ? mc::choose(mc::by_tier(3, CONTENTS), "second") : 0;
    Doc d; d.uris = {"u:a"};
    Elem v = content(b, k);
    auto wrap = [&](const Elem &e) { return isStruct(b) ? xo(e) : e; };
    Node n = base(VARIABLE, "ns=1;s=var", "1:V");
    std::string type = b.id;
    std::string nm = isStruct(b) ? "ExtensionObject" : b.name;
    Node st = dataType("ns=1;s=structure", "1:S"), un = dataType("ns=1;s=union", "1:U", "i=12756"), sub = dataType("ns=1;s=subtype", "1:T", b.id), out = dataType("ns=1;i=4", "1:Outer");
    un.def.attrs = {{"IsUnion", "true"}};
    field(st, "before", "i=12"); field(st, "m", b.id); field(st, "arr", b.id, true); field(st, "opt", b.id, false, true); field(st, "after", "i=12", false, true);
    field(un, "m", b.id); field(un, "arr", b.id, true); field(un, "s", "ns=1;s=structure");
    field(out, "in", "ns=1;s=structure"); field(out, "l", "ns=1;s=structure", true); field(out, "u", "ns=1;s=union", true); field(out, "o", "ns=1;s=structure", false, true);
    auto as = [&](const char *name) { Elem e = v; e.name = name; return e; };
    auto stru = [&](const char *name, int x) {
        Elem e = elem(name, EV{elem("before", "text before"), as("m"), elem("arr", EV{v, b.v(b.name)}), as("opt"), elem("after", "text after")});
        if(x & 1) e.kids.erase(e.kids.begin() + 3);
        if(x & 2) e.kids.erase(e.kids.begin() + 2);
        return e;
    };
    switch(place) {
    case 0: n.value = {wrap(v)}; break;
    case 1: n.value = {elem("ListOf" + nm, EV{wrap(b.v(b.name)), wrap(v), wrap(content(b, k2))})}; n.attrs.push_back({"ValueRank", "1"}); break;
    case 2: n.value = {xo(stru("S", 0))}; type = "ns=1;s=structure"; break;
    case 3: n.value = {xo(stru("S", 3))}; type = "ns=1;s=structure"; break;
    case 4: { Elem e = stru("S", 0); e.kids[2].kids = {v, content(b, k2), v}; n.value = {elem("ListOfExtensionObject", EV{xo(e), xo(stru("S", 1))})}; type = "ns=1;s=structure"; break; }
    case 5: n.value = {xo(elem("U", EV{elem("SwitchField", "1"), as("m")}))}; type = "ns=1;s=union"; break;
    case 6: n.value = {xo(elem("U", EV{elem("SwitchField", "2"), elem("arr", EV{v, v})}))}; type = "ns=1;s=union"; break;
    case 7: n.value = {wrap(v)}; type = "ns=1;s=subtype"; break;
    case 8: n.value = {xo(elem("Outer", EV{stru("in", 0), elem("l", EV{stru("S", 1), stru("S", 2)}), elem("u", EV{elem("U", EV{elem("SwitchField", "3"), stru("s", 0)}), elem("U", EV{elem("SwitchField", "1"), as("m")})}), stru("o", 3)}))}; type = "ns=1;i=4"; break;
    case 9: n.value = {elem("Wrong", EV{wrap(v)})}; break;
    }
    n.hasValue = true;
    n.attrs.push_back({"DataType", type});
    d.nodes = {st, un, sub, out, n};
    if(mc::flag("value before type")) std::rotate(d.nodes.begin(), d.nodes.end() - 1, d.nodes.end());
    drive({{xml(d)}});
}
// a file with something of everything
static Doc rich(const std::string &uri, int tag) {
    Doc d; d.uris = {uri, "u:second"};
    d.aliases = {{"HasComponent", "i=47"}, {"MyType", "ns=1;s=structure"}};
    Node st = dataType("ns=1;s=structure", "1:S"), un = dataType("ns=1;s=union", "1:U", "i=12756"), en = dataType("ns=1;g=00000001-0002-0003-0405-060708090a0b", "1:E", "i=29"), sub = dataType("ns=1;b=AQID", "1:Sub", "ns=1;s=structure"), by = dataType("ns=1;i=9", "1:Bytes", "i=15");
    un.def.attrs = {{"IsUnion", "true"}};
    field(st, "text", "i=12"); field(st, "id", "i=17"); field(st, "list", "i=12", true); field(st, "opt", "i=15", false, true); field(st, "e", en.id); field(un, "s", st.id); field(un, "l", "i=21", true); field(sub, "in", un.id, true); field(sub, "by", by.id);
    en.def.present = true; en.def.fields = {{{{"Name", "A"}, {"Value", "0"}}}, {{{"Name", "B"}, {"Value", "1"}}}};
    Node e = base(OBJECT, "ns=1;s=encoding", "Default Binary"); e.refs = {ref("i=38", st.id, false), ref("i=40", "i=76")};
    st.refs.push_back(ref("i=38", e.id));
    Node rt = base(REFERENCETYPE, "ns=1;s=reference", "1:R"); rt.refs[0].target = "i=33"; rt.inv = txt("inverse", "en");
    Node ot = base(OBJECTTYPE, "ns=1;s=objecttype", "1:OT"), vt = base(VARIABLETYPE, "ns=1;i=21", "1:VT"); vt.attrs = {{"DataType", "MyType"}, {"ValueRank", "1"}, {"ArrayDimensions", "2,3"}};
    Node o = under(OBJECT, "ns=1;i=30", "1:O", "i=85", rt.id); o.refs.push_back(ref("i=40", ot.id)); o.dn = txt("display", "en"); o.desc = txt("description", "de"); o.attrs = {{"ParentNodeId", "i=85"}, {"SymbolicName", "Sym"}};
    o.hasExt = true; o.exts = {{elem("Ext", EV{elem("a", "b"), elem("c", EV{elem("d", "e")})})}, {elem("Second", "text")}};
    o.exts[0][0].attrs = {{"attribute", "value"}};
    Node m = under(METHOD, "ns=1;s=method", "1:M", o.id, "HasComponent"), w = base(VIEW, "ns=1;s=view", "1:W");
    auto S = [&](const std::string &n, int k) { EV v{elem("text", "text " + std::to_string(k)), elem("id", EV{elem("Identifier", "ns=1;s=target")}), elem("list", EV{elem("String", "one"), elem("String", "two")}), elem("e", "B_1")}; if(k) v.push_back(elem("opt", "QUJD")); return elem(n, v); };
    auto V = [&](int k, const std::string &type, const Elem &v, bool arr) { Node n = under(VARIABLE, "ns=1;i=" + std::to_string(40 + k), "1:V" + std::to_string(k), o.id, "HasComponent"); n.attrs = {{"DataType", type}}; if(arr) n.attrs.push_back({"ValueRank", "1"}); n.hasValue = true; n.value = {v}; n.refs.push_back(ref("i=40", "i=63")); return n; };
    Elem U1 = elem("U", EV{elem("SwitchField", "1"), S("s", 1)}), U2 = elem("U", EV{elem("SwitchField", "2"), elem("l", EV{elem("LocalizedText", EV{elem("Locale", "en"), elem("Text", "t")})})});
    Elem SB = S("Sub", 1); SB.kids.push_back(elem("in", EV{U1, U2})); SB.kids.push_back(elem("by", "QUJD"));
    std::vector<Node> v = {V(0, "MyType", xo(S("S", tag)), false), V(1, sub.id, elem("ListOfExtensionObject", EV{xo(SB), xo(SB)}), true), V(2, un.id, xo(U2), false), V(3, "i=12", elem("ListOfString", EV{elem("String", "a"), elem("String", "b")}), true), V(4, by.id, elem("ByteString", "QUJD"), false), V(5, "i=17", elem("NodeId", EV{elem("Identifier", "ns=1;s=v")}), false), V(6, "i=296", elem("ListOfExtensionObject", EV{xo(elem("Argument", EV{elem("Name", "in"), elem("DataType", EV{elem("Identifier", "ns=1;s=structure")}), elem("ArrayDimensions", EV{elem("UInt32", "1")})}))}), true)};
    v[3].hasExt = true; v[3].exts = {{elem("OnVariable", "x")}};
    d.nodes = {v[1], o, m, sub, un, en, by, st, e, rt, ot, vt, w};
    for(int i : {0, 2, 3, 4, 5, 6}) d.nodes.push_back(v[i]);
    return d;
}
// the same in few elements, for pairs of changes
static Doc small() {
    Doc d; d.uris = {"u:a"};
    Node st = dataType("ns=1;s=st", "1:S"), un = dataType("ns=1;i=2", "1:U", "i=12756"); un.def.attrs = {{"IsUnion", "true"}};
    field(st, "t", "i=12"); field(st, "l", "i=12", true); field(st, "o", "ns=1;i=2", false, true); field(un, "n", "i=17"); field(un, "b", "i=15", true);
    Node v = base(VARIABLE, "ns=1;s=v", "1:V"); v.attrs = {{"DataType", "ns=1;s=st"}}; v.hasValue = true;
    v.value = {xo(elem("S", EV{elem("t", "text"), elem("l", EV{elem("String", "a")}), elem("o", EV{elem("SwitchField", "2"), elem("b", EV{elem("ByteString", "QUJD")})})}))};
    Node a = base(VARIABLE, "ns=1;i=4", "1:A"); a.attrs = {{"DataType", "i=21"}}; a.hasValue = true; a.value = {elem("ListOfLocalizedText", EV{elem("LocalizedText", EV{elem("Text", "x")})})};
    d.nodes = {st, un, v, a};
    return d;
}
static Doc cyclic() { Doc d; d.uris = {"u:a"}; Node t = dataType("ns=1;s=cyclictype", "1:T"); field(t, "s", "i=12"); Node a = under(OBJECT, "ns=1;s=a", "1:A", "ns=1;s=b", "i=47"), b = under(OBJECT, "ns=1;s=b", "1:B", "ns=1;s=a", "i=47"); a.dn = txt("a"); a.hasExt = true; a.exts = {{elem("E", "x")}}; d.nodes = {t, a, b}; return d; }
static Doc unresolved() { Doc d = rich("u:a", 2); d.nodes[1].refs.push_back(ref("ns=2;s=no such type", "ns=1;s=method")); return d; }
static Doc dependent() {
    Doc d; d.uris = {"u:dep", "u:a"};
    Node st = dataType("ns=1;s=dep", "1:D", "ns=2;s=structure"); field(st, "u", "ns=2;s=union", true); field(st, "o", "ns=2;s=structure", false, true);
    Node o = under(OBJECT, "ns=1;s=o", "1:O", "ns=2;i=30", "ns=2;s=reference"); o.refs.push_back(ref("i=40", "ns=2;s=objecttype"));
    Node v = under(VARIABLE, "ns=1;s=v", "1:V", "ns=1;s=o", "i=47"); v.attrs = {{"DataType", "ns=1;s=dep"}}; v.hasValue = true;
    v.value = {xo(elem("D", EV{elem("text", "x"), elem("u", EV{elem("U", EV{elem("SwitchField", "1"), elem("s", EV{elem("text", "y")})})}), elem("o", EV{elem("list", EV{elem("String", "z")})})}))};
    d.nodes = {v, o, st};
    return d;
}
static Step kind(int k) {
    Step s;
    switch(k) {
    case 0: s.xml = xml(rich("u:a", 1)); break;
    case 1: s.xml = xml(rich("u:b", 2)); break;
    case 2: s.xml = xml(dependent()); break;
    case 3: s.xml = xml(cyclic()); break;
    case 4: s.xml = xml(unresolved()); break;
    case 5: s.xml = xml(rich("u:a", 3)); s.xml = s.xml.substr(0, s.xml.size() / 2); break;
    case 6: s.path = true; s.xml = "/nonexistent/nodeset.xml"; break;
    case 7: { Doc d = rich("u:a", 4); auto n = d.nodes; d.nodes.insert(d.nodes.end(), n.begin(), n.end()); s.xml = xml(d); break; }
    case 8: { Doc d = rich("u:c", 5); for(auto &n : d.nodes) if(n.hasValue) { std::swap(n.attrs[0].second, d.nodes[0].attrs[0].second); } s.xml = xml(d); break; }   // values that do not fit their types
    case 9: s.xml = xml(Doc()); break;
    case 10: { Doc d = rich("u:a", 1); for(auto &n : d.nodes) n.id = n.id.substr(n.id.find(';') + 1); s.xml = xml(d); break; }       // nodes without types, references to nothing
    }
    return s;
}
static const int KINDS = 11;
static void sequences() {
    int len = 1 + mc::choose(mc::by_tier(3, 4), "length"), ext = mc::choose(len == 4 ? 2 : 3, "extensions");
    std::vector<Step> s;
    for(int i = 0; i < len; i++) { s.push_back(kind(mc::choose(KINDS, "file"))); s.back().ext = ext == 1 || (ext == 2 && i % 2); }
    drive(s);
}
// two servers, all interleavings of their loads and their deletion
static void servers() {
    static const std::vector<int> K = {0, 2, 3, 5};
    int a[2][2];
    for(auto &x : a) for(int &y : x) y = mc::pick(K, "file");
    std::vector<int> order;
    int left[2] = {3, 3};
    for(int i = 0; i < 6; i++) { int w = !left[0] ? 1 : !left[1] ? 0 : mc::choose(2, "server"); left[w]--; order.push_back(w); }
    core::checkLeak([&] {
        back::Server s[2];
        int at[2] = {0, 0};
        for(int w : order) {
            int k = at[w]++;
            if(k == 2) { s[w].del(); continue; }
            Step st = kind(a[w][k]);
            s[w].load(st.xml, w == 1, w);
            back::Space sp = s[w].snapshot();
            mc::validated(sp.nodes.size());
        }
    });
}
// cut off at every byte, then the whole file
static void truncated() {
    std::string x = xml(mc::flag("rich") ? rich("u:a", 1) : small());
    int hi = mc::choose((int)(x.size() / 64 + 1), "position / 64"), lo = mc::choose(64, "position");
    size_t p = (size_t)(hi * 64 + lo);
    if(p >= x.size()) return;
    std::vector<Step> s = {{x.substr(0, p), true}};
    if(mc::flag("whole file afterwards")) s.push_back({x, true});
    drive(s);
}
// ---- changes of the XML tree ----
struct X { std::string name; std::vector<Attr> attrs; std::vector<X> kids; std::string text; };
static X parse(const std::string &s, size_t &p) {       // as written by model::xml
    X x;
    p++;
    while(!strchr(" />\n", s[p])) x.name += s[p++];
    while(s[p] != '>' && s[p] != '/') {
        if(s[p] == ' ' || s[p] == '\n') { p++; continue; }
        Attr a;
        while(s[p] != '=') a.first += s[p++];
        p += 2;
        while(s[p] != '"') a.second += s[p++];
        p++;
        x.attrs.push_back(a);
    }
    if(s[p] == '/') { p += 2; return x; }
    p++;
    for(;;) {
        if(s[p] != '<') { x.text += s[p++]; continue; }
        if(s[p + 1] == '/') { p = s.find('>', p) + 1; return x; }
        x.kids.push_back(parse(s, p));
        x.text.clear();
    }
}
static void write(const X &x, std::string &o) {
    o += "<" + x.name;
    for(auto &a : x.attrs) o += " " + a.first + "=\"" + a.second + "\"";
    o += ">" + x.text;
    for(auto &k : x.kids) write(k, o);
    o += "</" + x.name + ">";
    if(x.kids.size()) o += "\n";
}
static void each(X &x, std::vector<std::pair<X *, int>> &v) { for(int i = 0; i < (int)x.kids.size(); i++) { v.push_back({&x, i}); each(x.kids[i], v); } }
static const int CHANGES = 13;
static bool change(X &root, int at, int how) {
    std::vector<std::pair<X *, int>> v; each(root, v);
    if(at >= (int)v.size()) return false;
    X *p = v[at].first; int i = v[at].second; X &e = p->kids[i];
    switch(how) {
    case 0: p->kids.erase(p->kids.begin() + i); return true;
    case 1: { X c = e; p->kids.insert(p->kids.begin() + i, c); return true; }
    case 2: if(e.kids.empty() && e.text.empty()) return false; e.kids.clear(); e.text.clear(); return true;
    case 3: e.name = "Unknown"; return true;
    case 4: e.kids.clear(); e.text = "garbage &amp; text"; return true;
    case 5: { if(e.kids.empty()) return false; std::vector<X> k = e.kids; p->kids.erase(p->kids.begin() + i); p->kids.insert(p->kids.begin() + i, k.begin(), k.end()); return true; }
    case 6: if(i + 1 >= (int)p->kids.size()) return false; std::swap(p->kids[i], p->kids[i + 1]); return true;
    case 7: { X c; c.name = e.name; c.kids = {e}; p->kids[i] = c; return true; }
    case 8: if(e.attrs.empty()) return false; e.attrs.erase(e.attrs.begin()); return true;
    case 9: if(e.attrs.empty()) return false; e.attrs.pop_back(); return true;
    case 10: if(e.attrs.empty()) return false; for(auto &a : e.attrs) a.second = ""; return true;
    case 11: if(e.attrs.empty()) return false; e.attrs.back().second = "ns=1;s=structure"; return true;
    case 12: if(e.attrs.empty()) return false; for(auto &a : e.attrs) a.second = "garbage"; return true;
    }
    return false;
}
static X tree(const Doc &d, std::string &head) { std::string s = xml(d); size_t p = s.find("<UANodeSet"); head = s.substr(0, p); return parse(s, p); }
static void runTree(const X &x, const std::string &head, bool twice) {
    std::string o = head; write(x, o);
    std::vector<Step> s = {{o, true}};
    if(twice) s.push_back(s[0]);
    drive(s);
}
static void changes() {
    std::string head;
    X x = tree(rich("u:a", 1), head);
    std::vector<std::pair<X *, int>> v; each(x, v);
    int hi = mc::choose((int)v.size() / 16 + 1, "element / 16"), at = hi * 16 + mc::choose(16, "element"), how = mc::choose(CHANGES, "change");
    if(!change(x, at, how)) return;
    runTree(x, head, mc::flag("loaded twice"));
}
static void pairs() {
    std::string head;
    X x = tree(small(), head);
    std::vector<std::pair<X *, int>> v; each(x, v);
    int n = (int)v.size();
    // quick: the second change is in the same or one of the next elements
    int a = mc::choose(n, "element"), h = mc::choose(CHANGES, "change");
    if(!change(x, a, h)) return;
    int b = a + mc::choose(mc::tier() ? n - a : std::min(3, n - a), "second element"), g = mc::choose(CHANGES, "second change");
    if(!change(x, b, g)) return;
    runTree(x, head, false);
}
// sizes: long identifiers, many types with string identifiers, large arrays, deep values
static void sizes() {
    static const std::vector<int> K = {0, 1, 99, 100, 101, 1000, 1023, 1024, 1025, 4000};
    int what = mc::choose(5, "what"), k = mc::pick(K, "size");
    mc::slow(60);
    Doc d; d.uris = {"u:a"};
    Node st = dataType("ns=1;s=st", "1:S"); field(st, "t", "i=12"); field(st, "l", "i=12", true); field(st, "next", "ns=1;s=st", true);
    Node v = base(VARIABLE, "ns=1;s=v", "1:V"); v.hasValue = true; v.attrs = {{"DataType", "ns=1;s=st"}};
    if(what == 0) { std::string id = "ns=1;s=" + std::string((size_t)k + 1, 'x'); st.id = id; v.attrs = {{"DataType", id}}; v.value = {xo(elem("S", EV{elem("t", std::string((size_t)k, 'y'))}))}; st.def.fields.pop_back(); v.id += id; v.bn = "1:" + std::string((size_t)k, 'z'); }
    if(what == 1) { for(int i = 0; i < k; i++) { Node t = dataType("ns=1;s=type" + std::to_string(i), "1:T"); field(t, "a", "i=12"); Node e = base(OBJECT, "ns=1;s=enc" + std::to_string(i), "Default Binary"); e.refs = {ref("i=38", t.id, false)}; d.nodes.push_back(t); if(i % 3) d.nodes.push_back(e); } v.value = {xo(elem("S"))}; }
    if(what == 2) { EV l; for(int i = 0; i < k; i++) l.push_back(elem("String", "s" + std::to_string(i))); v.value = {xo(elem("S", EV{elem("l", l)}))}; }
    if(what == 3) { EV l; for(int i = 0; i < k; i++) l.push_back(xo(elem("S", EV{elem("t", "s" + std::to_string(i))}))); v.value = {elem("ListOfExtensionObject", l)}; }
    if(what == 4) { Elem e = elem("S", EV{elem("t", "in")}); for(int i = 0; i < std::min(k, 100); i++) e = elem("S", EV{elem("t", "o"), elem("next", EV{e})}); v.value = {xo(e)}; }
    d.nodes.push_back(st); d.nodes.push_back(v);
    std::vector<Step> s = {{xml(d)}};
    if(mc::flag("twice")) s.push_back(s[0]);
    drive(s);
}
int main(int argc, char **argv) {
    mc::scenario("values", values);
    mc::scenario("sequences", sequences);
    mc::scenario("servers", servers);
    mc::scenario("truncated", truncated);
    mc::scenario("changes", changes);
    mc::scenario("pairs", pairs);
    mc::scenario("sizes", sizes);
    return mc::run(argc, argv, {"B09", "the loader is built with its clean-up function (USE_CLEANUP_CUSTOM_DATATYPES) as CMake does by default; accesses are checked by AddressSanitizer, leaks by counting the blocks the loader allocates; a failing allocation is out of scope (N02)"});
}
