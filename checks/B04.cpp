// B04: values of built-in types are stored as written
#include <algorithm>
#include <cstring>
#include "batch.hpp"
using namespace model;
using back::Batch; using back::dataType; using back::base;

struct BT { const char *id, *name; int bits; bool uns; };
static const std::vector<BT> INTS = {{"i=2", "SByte", 8, false}, {"i=3", "Byte", 8, true}, {"i=4", "Int16", 16, false}, {"i=5", "UInt16", 16, true}, {"i=6", "Int32", 32, false}, {"i=7", "UInt32", 32, true}, {"i=8", "Int64", 64, false}, {"i=9", "UInt64", 64, true}};
static const std::vector<std::string> NAMES = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName", "LocalizedText", "ExtensionObject", "DataValue", "Variant", "DiagnosticInfo"};
static std::string big(unsigned __int128 v) { if(!v) return "0"; std::string s; while(v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return s; }
// spellings: as is, white space around, leading zeros, plus sign
static std::string spell(const std::string &s, int how) {
    bool neg = !s.empty() && s[0] == '-';
    switch(how) {
    case 1: return " " + s;
    case 2: return "\n\t" + s + " \n";
    case 3: return neg ? "-00" + s.substr(1) : "00" + s;
    case 4: return neg ? s : "+" + s;
    }
    return s;
}
static void integers() {
    auto &t = mc::pick(INTS, "type");
    int how = mc::choose(5, "spelling");
    std::vector<std::string> v;
    unsigned __int128 max = ((unsigned __int128)1 << (t.uns ? t.bits : t.bits - 1)) - 1, lim = t.uns ? 0 : max + 1;
    for(int k = 0; k <= t.bits; k++) for(int o = -1; o <= 1; o++) {
        unsigned __int128 x = ((unsigned __int128)1 << k) + (unsigned __int128)o;
        if(x <= max) v.push_back(spell(big(x), how));
        if(x && x <= lim) v.push_back(spell("-" + big(x), how));
    }
    unsigned __int128 p = 1; for(int k = 0; k < 20; k++, p *= 10) if(p * 9 <= max) v.push_back(spell(big(p * 9), how));
    Batch b; b.texts(t.id, t.name, v); b.run();
}
// every value of the small types
static void all16() {
    auto &t = INTS[mc::choose(4, "type")];
    int lo = t.uns ? 0 : -(1 << (t.bits - 1)), hi = t.uns ? 1 << t.bits : 1 << (t.bits - 1);
    int part = t.bits == 8 ? 0 : mc::choose(16, "part");
    int from = t.bits == 8 ? lo : lo + part * 4096, to = t.bits == 8 ? hi : from + 4096;
    std::vector<Elem> a;
    for(int i = from; i < to; i++) a.push_back(elem(t.name, std::to_string(i)));
    Batch b; b.add(t.id, elem(std::string("ListOf") + t.name, a), 1); b.run();
}
static void booleans() {
    static const std::vector<std::string> B = {"true", "false", "1", "0", " true ", "\nfalse\n", "\t1", "0 ", ""};
    // every sequence of up to 3, or 4
    std::vector<Elem> a; Batch b;
    int k = mc::choose(mc::by_tier(4, 5), "length");
    for(int i = 0; i < k; i++) a.push_back(elem("Boolean", mc::pick(B, "value")));
    b.elems("i=1", "Boolean", a); b.run();
}
static void reals() {
    static const std::vector<std::string> M = {"0", "1", "1.5", "0.1", "3.4028234", "1.17549435", "1.7976931348623157", "2.2250738585072014", "4.9406564584124654", "123456789.123456789", ".5", "5.", "0.30000000000000004", "9007199254740993", "16777217"},
        E = {"", "E0", "e1", "e+38", "E-38", "e308", "e-308", "e-324", "E-45", "e-46"};
    bool dbl = mc::flag("Double");
    int how = mc::choose(4, "spelling");
    std::vector<std::string> v;
    for(auto &m : M) for(auto &e : E) for(const char *s : {"", "-"}) { std::string x = s + m + e; v.push_back(spell(x, how == 3 ? 4 : how)); }
    for(const char *x : {"INF", "-INF", "NaN", "", "-0"}) v.push_back(spell(x, how == 3 ? 0 : *x ? how : 0));
    Batch b; b.texts(dbl ? "i=11" : "i=10", dbl ? "Double" : "Float", v); b.run();
}
static void strings() {
    std::string c = core::pickChars("character");
    if(c.find_first_not_of(" \t\n\r") == std::string::npos) return;
    std::vector<std::string> v = {c, "a" + c, c + "b", "a" + c + "b", c + c};
    Batch b; b.texts("i=12", "String", v);
    std::vector<Elem> lt;
    for(auto &s : v) lt.push_back(elem("LocalizedText", std::vector<Elem>{elem("Locale", s), elem("Text", s + "t")}));
    b.elems("i=21", "LocalizedText", lt);
    b.run();
}
static void lengths() {
    static const std::vector<int> L = {0, 1, 2, 15, 16, 63, 64, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 100000};
    int l = mc::pick(L, "length");
    int kind = mc::choose(3, "kind");
    std::string s;
    for(int i = 0; i < l; i++) s += kind == 2 ? std::string("\xe2\x82\xac") : std::string(1, (char)(kind ? "<&>\"'"[i % 5] : 'a' + i % 26));
    Batch b; b.texts("i=12", "String", {s, "x", s + "y"}); b.run();
}
static void dates() {
    static const std::vector<std::string> T = {"00:00:00", "23:59:59", "12:34:56", "09:08:07"}, Z = {"", "Z", "+00:00", "-00:00", "+05:30", "-12:00", "+14:00", "-00:01"}, F = {"", ".0", ".5", ".1234567", ".0000001", ".9999999", ".12", ".12345678"};
    static const std::vector<int> Y = {1601, 1602, 1699, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2023, 2024, 2038, 2100, 2400, 9999};
    int y = mc::pick(Y, "year"), part = mc::choose(3, "what");
    std::vector<std::string> v;
    auto day = [&](int m, int d, const std::string &rest) { v.push_back(mc::fmt("%04d-%02d-%02d", y, m, d) + "T" + rest); };
    static const int DM[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    auto last = [&](int m) { return DM[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); };
    if(part == 0) for(int m = 1; m <= 12; m++) for(int d = 1; d <= last(m); d++) day(m, d, "12:00:00Z");
    if(part == 1) for(auto &t : T) for(auto &z : Z) for(auto &f : F) { if(y > 1601) day(1, 1, t + f + z); day(6, 30, t + f + z); if(y < 9999) day(12, 31, t + f + z); }
    if(part == 2) for(int h = 0; h < 24; h++) for(int i = 0; i < 60; i += 1) day(3, 1, mc::fmt("%02d:%02d:%02d", h, i, (h * 60 + i) % 60));
    v.push_back(""); v.push_back(" 2020-01-02T03:04:05Z "); v.push_back("\n2020-01-02T03:04:05.25+01:00\n");
    Batch b; b.texts(mc::flag("UtcTime") ? "i=294" : "i=13", "DateTime", v); b.run();
}
static Elem wrap(const std::string &name, const char *member, const std::string &text) { return elem(name, std::vector<Elem>{elem(member, text)}); }
static void guids() {
    std::vector<Elem> v;
    static const char *H = "0123456789abcdefABCDEF";
    int pos = mc::choose(36, "position");
    if(pos == 8 || pos == 13 || pos == 18 || pos == 23) return;
    for(int i = 0; i < 22; i++) for(const char *t : {"00000000-0000-0000-0000-000000000000", "12345678-9abc-def0-1234-56789abcdef0", "ffffffff-ffff-ffff-ffff-ffffffffffff"}) {
        std::string s = t; s[pos] = H[i];
        v.push_back(wrap("Guid", "String", s));
    }
    v.push_back(elem("Guid")); v.push_back(wrap("Guid", "String", "")); v.push_back(elem("Guid", std::vector<Elem>{elem("Other", "x"), elem("String", "12345678-9abc-def0-1234-56789abcdef0")}));
    Batch b; b.elems("i=14", "Guid", v); b.run();
}
static void nodeIds() {
    static const std::vector<std::string> ID = {"i=0", "i=1", "i=4294967295", "ns=0;i=5", "ns=1;i=7", "ns=1;s=a", "s=b", "ns=1;s=a=b;c d", "ns=1;s=\xc3\xa4\xe2\x82\xac", "ns=1;g=12345678-9abc-def0-1234-56789abcdef0", "g=12345678-9abc-def0-1234-56789abcdef0", "ns=1;b=AQID", "b=AQ==", ""};
    Batch b; std::vector<Elem> v;
    int k = mc::choose(mc::by_tier(3, 4), "length");
    for(int i = 0; i < k; i++) {
        int f = mc::choose((int)ID.size() + 2, "id");
        v.push_back(f < (int)ID.size() ? wrap("NodeId", "Identifier", ID[f]) : f == (int)ID.size() ? elem("NodeId") : wrap("NodeId", "Other", "i=5"));
    }
    b.elems("i=17", "NodeId", v); b.run();
}
// members in every order, present, empty or missing, with others in between
static Elem parts(const char *name, const std::vector<std::pair<const char *, std::vector<std::string>>> &m) {
    std::vector<Elem> k;
    for(auto &p : m) {
        int c = mc::choose((int)p.second.size() + 2, p.first);
        if(c == 0) continue;
        k.push_back(elem(p.first, c == 1 ? "" : p.second[c - 2]));
    }
    if(k.size() > 1 && mc::flag("reverse")) std::reverse(k.begin(), k.end());
    int o = mc::choose(3, "other element");
    if(o == 1) k.insert(k.begin(), elem("Other", "9"));
    if(o == 2) k.push_back(elem("Other", std::vector<Elem>{elem("Name", "no"), elem("Text", "no"), elem("Code", "1")}));
    return elem(name, k);
}
static void composites() {
    Batch b;
    int t = mc::choose(3, "type"), k = 1 + mc::choose(2, "length");
    std::vector<Elem> v;
    for(int i = 0; i < k; i++) switch(t) {
    case 0: v.push_back(parts("QualifiedName", {{"NamespaceIndex", {"0", "1"}}, {"Name", {"n", "1:x", " "}}})); if(i && mc::tier() == 0) v[1] = elem("QualifiedName", std::vector<Elem>{elem("Name", "z"), elem("NamespaceIndex", "1")}); break;
    case 1: v.push_back(parts("LocalizedText", {{"Locale", {"en"}}, {"Text", {"t", "\xc3\xa4"}}})); break;
    case 2: v.push_back(parts("StatusCode", {{"Code", {"0", "2147483648", "4294967295", " 5 "}}})); break;
    }
    const char *N[] = {"QualifiedName", "LocalizedText", "StatusCode"}, *I[] = {"i=20", "i=21", "i=19"};
    b.elems(I[t], N[t], v);
    b.run();
}
static void enums() {
    static const std::vector<std::string> T = {"Name_1", "A_B_3", "_7", "5", "-1", "Name_-2", "A_2147483647", "B_-2147483648", "", "a b_4", "1_2", "A__9", " 6 ", "X_08"};
    static const std::vector<std::string> DT = {"i=257", "i=510", "ns=1;i=1", "ns=1;i=2", "i=29"};
    std::string dt = mc::pick(DT, "type");
    Batch b;
    b.d.nodes = {dataType("ns=1;i=1", "1:E", "i=29"), dataType("ns=1;i=2", "1:Sub", "ns=1;i=1")};
    std::vector<std::string> v;
    int k = mc::choose(3, "length");
    for(int i = 0; i < k; i++) v.push_back(mc::pick(T, "text"));
    b.texts(dt, mc::flag("as Int32") ? "Int32" : "E", v); b.run();
}
static std::vector<Elem> samples(int t) {                // for each built-in type
    static const char *X[] = {"true", "-5", "200", "-300", "60000", "-70000", "4000000000", "-5000000000", "18000000000000000000", "1.5", "-2.25", "str", "2020-01-02T03:04:05.5Z", nullptr, "AQID", "<a/>", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
    const std::string &n = NAMES[t];
    std::vector<Elem> v;
    if(X[t]) { v.push_back(elem(n, X[t])); v.push_back(elem(n, t == 0 ? "false" : t < 11 ? "7" : t == 12 ? "2021-01-01T00:00:00Z" : t == 14 ? "BA==" : "second")); }
    else switch(t + 1) {
    case 14: v = {wrap(n, "String", "12345678-9abc-def0-1234-56789abcdef0"), wrap(n, "String", "00000000-0000-0000-0000-000000000001")}; break;
    case 17: case 18: v = {wrap(n, "Identifier", "ns=1;s=x"), wrap(n, "Identifier", "i=5")}; break;
    case 19: v = {wrap(n, "Code", "2147483648"), wrap(n, "Code", "1")}; break;
    case 20: v = {elem(n, std::vector<Elem>{elem("NamespaceIndex", "1"), elem("Name", "q")}), elem(n, std::vector<Elem>{elem("Name", "r")})}; break;
    case 21: v = {elem(n, std::vector<Elem>{elem("Locale", "en"), elem("Text", "l")}), elem(n, std::vector<Elem>{elem("Text", "m")})}; break;
    case 22: v = {elem(n, std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=297")}), elem("Body", std::vector<Elem>{elem("Argument", std::vector<Elem>{elem("Name", "x")})})})}; break;
    case 23: v = {elem(n, std::vector<Elem>{elem("Value", std::vector<Elem>{elem("Int32", "1")})})}; break;
    case 24: v = {elem(n, std::vector<Elem>{elem("Value", std::vector<Elem>{elem("Int32", "1")})})}; break;
    default: v = {elem(n, std::vector<Elem>{elem("SymbolicId", "1")})};
    }
    return v;
}
// every data type against values written for every type, in every form
static void shapes() {
    static const std::vector<std::string> MORE = {"i=257", "i=294", "i=290", "i=295", "i=288", "i=26", "i=27", "i=28", "i=29", "i=884", "i=296", "i=12755", "i=999999", "ns=1;i=1", "ns=1;i=2", "ns=1;i=3", "ns=1;i=4", "ns=1;i=999"};
    int t = mc::choose(25 + (int)MORE.size(), "type"), w = mc::choose(25, "written as");
    std::string dt = t < 25 ? "i=" + std::to_string(t + 1) : MORE[t - 25];
    Batch b;
    Node un = dataType("ns=1;i=3", "1:Un", "i=12756"); un.def.attrs = {{"IsUnion", "true"}}; back::field(un, "Name", "i=12"); back::field(un, "Text", "i=21");
    Node st = dataType("ns=1;i=1", "1:St"); back::field(st, "Name", "i=12"); back::field(st, "Text", "i=12", true); back::field(st, "Value", "i=24"); back::field(st, "Identifier", "i=17", false, true);
    b.d.nodes = {st, dataType("ns=1;i=2", "1:E", "i=29"), un, dataType("ns=1;i=4", "1:My", "i=12")};
    auto s = samples(w);
    std::string n = NAMES[w];
    for(auto &e : s) b.add(dt, e);
    b.add(dt, std::vector<Elem>{});
    b.add(dt, elem(n)); b.add(dt, elem(n, " \n")); b.add(dt, elem(n, "text")); b.add(dt, elem(n, std::vector<Elem>{elem("X", std::vector<Elem>{elem("Y", "z")})}));
    b.add(dt, elem(n, std::vector<Elem>{elem("String"), elem("Identifier"), elem("Code"), elem("Name"), elem("Text"), elem("NamespaceIndex"), elem("Locale"), elem("SwitchField")}));
    for(const char *m : {"String", "Identifier", "Code", "Name", "Text", "NamespaceIndex", "Locale", "SwitchField"}) b.add(dt, elem(n, std::vector<Elem>{elem(m, std::vector<Elem>{elem("Deep", "1")})}));
    b.add(dt, elem("ListOf" + n), 1); b.add(dt, elem("ListOf" + n, s), 1); b.add(dt, elem("ListOf" + n, std::vector<Elem>{s[0], elem(n), s[0], elem("Other", "o")}), 1);
    b.add(dt, elem("ListOf" + n, "text"), 1);
    b.add(dt, elem("ListOf" + n, std::vector<Elem>{elem("ListOf" + n, s)}), 2);
    auto xo = [&](std::vector<Elem> body) { return elem("ExtensionObject", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=5")}), elem("Body", body)}); };
    b.add(dt, xo({s[0]})); b.add(dt, xo({})); b.add(dt, elem("ExtensionObject")); b.add(dt, elem("ListOfExtensionObject", std::vector<Elem>{xo({s[0]}), xo({}), xo({elem(n)})}), 1);
    b.run();
}
// subtypes of every type, one to three levels, from this or an earlier file; the value has the subtype
static void subtypes() {
    int t = mc::choose(21, "type"), lv = 1 + mc::choose(3, "levels"), files = mc::choose(3, "files"), use = mc::choose(lv, "use");
    if(t == 15 || t == 17) return;
    std::vector<Node> ty;
    std::string sup = "i=" + std::to_string(t + 1);
    for(int i = 0; i < lv; i++) { std::string id = "ns=1;i=" + std::to_string(i + 1); ty.push_back(dataType(id, "1:T" + std::to_string(i), sup)); sup = id; }
    std::string dt = "ns=1;i=" + std::to_string(use + 1);
    Batch b;
    auto s = samples(t);
    b.elems(dt, NAMES[t], s); b.add(dt, elem("ListOf" + NAMES[t]), 1);
    if(files == 0) { bool rev = mc::flag("types last"); b.d.nodes.insert(rev ? b.d.nodes.end() : b.d.nodes.begin(), ty.begin(), ty.end()); b.run(); return; }
    Doc a; a.uris = {"u:a"};
    size_t k = files == 1 ? ty.size() : 1;
    a.nodes.assign(ty.begin(), ty.begin() + (long)k);
    b.d.nodes.insert(b.d.nodes.begin(), ty.begin() + (long)k, ty.end());
    back::full({a, b.d});
}
// arrays of any length, scalars with and without ValueRank and ArrayDimensions
static void arrays() {
    static const std::vector<int> L = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 4096};
    int t = mc::choose(21, "type"), l = mc::pick(L, "length"), rank = mc::choose(5, "rank") - 3;
    if(t == 15 || t == 17) return;
    auto s = samples(t);
    std::vector<Elem> a;
    for(int i = 0; i < l; i++) a.push_back(i % 7 == 5 ? elem(NAMES[t]) : s[(size_t)i % s.size()]);
    Batch b;
    Node &n = b.add("i=" + std::to_string(t + 1), elem("ListOf" + NAMES[t], a), rank);
    if(rank == 1) { int d = mc::choose(3, "dimensions"); if(d) n.attrs.push_back({"ArrayDimensions", d == 1 ? "0" : std::to_string(l)}); }
    b.add("i=" + std::to_string(t + 1), s[0]);
    b.run();
}
int main(int argc, char **argv) {
    mc::scenario("integers", integers);
    mc::scenario("all-16-bit", all16);
    mc::scenario("booleans", booleans);
    mc::scenario("reals", reals);
    mc::scenario("strings", strings);
    mc::scenario("lengths", lengths);
    mc::scenario("dates", dates);
    mc::scenario("guids", guids);
    mc::scenario("node-ids", nodeIds);
    mc::scenario("composites", composites);
    mc::scenario("enums", enums);
    mc::scenario("shapes", shapes);
    mc::scenario("subtypes", subtypes);
    mc::scenario("arrays", arrays);
    return mc::run(argc, argv, {"B04", "values that are not in the lexical space of their type, and values of XmlElement, ExpandedNodeId, ExtensionObject, DataValue, Variant and DiagnosticInfo, are only checked for memory safety; dates before 1601 and texts of white space only are not judged"});
}
