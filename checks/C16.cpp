// C16: DataType definitions deliver all fields in order with their properties
#include <algorithm>
#include <cstring>
#include "core.hpp"
using namespace model;

static const std::vector<std::string> NAME = {"a", "", "a b&<", "Value"}, DT = {"i=12", "ns=1;i=5", "Al", "Str", "unknown", "ns=1;s=x;y", "ns=1;g=00000001-0002-0003-0405-060708090a0b"}, VR = {"-1", "1", "0", "-3", "2", "-2", "010"}, OPT = {"true", "false", "1", "0"},
    EV = {"0", "1", "-1", "2147483647", "-2147483648", "42", "010", "08", "-007", "+5", "00", " 6 "};
static Doc doc(const Def &def) {
    Doc d; d.uris = {"u:a"}; d.aliases = {{"Al", "ns=1;i=9"}, {"Str", "i=12"}};
    Node n = node(DATATYPE, "ns=1;i=1", "1:T");
    n.refs = {ref("i=45", "i=22", false)};
    n.def = def; n.def.present = true;
    d.nodes = {n};
    return d;
}
// every combination of attributes of one field (thorough: two), in different orders
static Field field(bool isEnum, bool small) {
    Field f;
    auto opt = [&](const char *n, const std::vector<std::string> &v) {
        int k = mc::choose((int)(small && v.size() > 2 ? 2 : v.size()) + 1, n);
        if(k) f.attrs.push_back({n, v[k - 1]});
    };
    opt("Name", NAME);
    if(isEnum) { f.attrs.push_back({"Value", EV[mc::choose(small ? 2 : (int)EV.size(), "Value")]}); }
    else { opt("DataType", DT); opt("ValueRank", VR); opt("IsOptional", OPT); }
    return f;
}
static void oneField() {
    Def def;
    int order = mc::choose(4, "order");
    Field f = field(false, false);
    if(order == 1) std::reverse(f.attrs.begin(), f.attrs.end());
    if(order == 2 && f.attrs.size() > 1) std::swap(f.attrs[0], f.attrs[1]);
    if(order == 3) { f.attrs.insert(f.attrs.begin(), {"SymbolicName", "DataType"}); f.attrs.push_back({"Foo", "IsOptional"}); }
    def.fields = {f};
    if(mc::flag("union")) def.attrs = {{"Name", "1:T"}, {"IsUnion", "true"}};
    core::full(doc(def));
}
// every enumeration value, one or two fields, attributes in either order
static void enumFields() {
    Def def;
    bool rev = mc::flag("reverse");
    int n = 1 + mc::choose(2, "two fields");
    for(int i = 0; i < n; i++) { Field f = field(true, false); if(rev) std::reverse(f.attrs.begin(), f.attrs.end()); def.fields.push_back(f); }
    if(mc::flag("option set")) def.attrs = {{"Name", "1:T"}, {"IsOptionSet", "true"}};
    core::full(doc(def));
}
static void severalFields() {
    Def def;
    bool isEnum = mc::flag("enum");
    int n = mc::by_tier(2, 3);
    if(isEnum) n += mc::by_tier(0, 1);
    for(int i = 0; i < n; i++) { Field f = field(isEnum, true); def.fields.push_back(f); }
    core::full(doc(def));
}
static void flags() {
    static const std::vector<std::string> B = {"true", "false", "1", "0"};
    Def def;
    int order = mc::choose(2, "order");
    if(mc::flag("name")) def.attrs.push_back({"Name", "1:T"});
    int u = mc::choose(5, "IsUnion"), o = mc::choose(5, "IsOptionSet");
    if(u) def.attrs.push_back({"IsUnion", B[u - 1]});
    if(o) def.attrs.push_back({"IsOptionSet", B[o - 1]});
    if(order) std::reverse(def.attrs.begin(), def.attrs.end());
    bool isEnum = mc::flag("enum");
    int n = mc::choose(4, "fields");
    for(int i = 0; i < n; i++) def.fields.push_back({isEnum ? std::vector<Attr>{{"Name", "f" + std::to_string(i)}, {"Value", std::to_string(i * 3)}} : std::vector<Attr>{{"Name", "f" + std::to_string(i)}, {"DataType", "Str"}, {"IsOptional", i & 1 ? "true" : "false"}}});
    core::full(doc(def));
}
// any number of fields, followed by neighbours
static void counts() {
    int n = mc::choose(mc::by_tier(70, 600), "fields"), kind = mc::choose(3, "kind");
    Def def;
    for(int i = 0; i < n; i++) {
        if(kind == 0) def.fields.push_back({{{"Name", "f" + std::to_string(i)}, {"DataType", "ns=1;i=" + std::to_string(i)}, {"ValueRank", std::to_string(i % 4 - 1)}}});
        else if(kind == 1) def.fields.push_back({{{"Name", "f" + std::to_string(i)}, {"Value", std::to_string(i * 7)}}});
        else def.fields.push_back({{{"DataType", "ns=1;s=long identifier " + std::to_string(i)}, {"Name", std::string(i % 50, 'n')}}});
    }
    Doc d = doc(def);
    if(mc::flag("neighbour")) { Node m = d.nodes[0]; m.id = "ns=1;i=2"; std::reverse(m.def.fields.begin(), m.def.fields.end()); d.nodes.push_back(m); }
    core::full(d);
}
static void large() {
    static const std::vector<int> N = {127, 128, 254, 255, 256, 257, 512, 1000, 5000, 10001};
    mc::slow(60);
    int n = mc::pick(N, "fields");
    Def def;
    for(int i = 0; i < n; i++) def.fields.push_back({{{"Name", "f" + std::to_string(i)}, {"Value", std::to_string(i)}}});
    core::full(doc(def));
}
// definitions stay with their node: neighbours of every class with and without definition
static void neighbours() {
    Doc d; d.uris = {"u:a"}; d.aliases = {{"Str", "i=12"}};
    int n = mc::by_tier(3, 4);
    for(int i = 0; i < n; i++) {
        static const std::vector<int> CL = {DATATYPE, VARIABLE, OBJECTTYPE};
        Node x = node(mc::pick(CL, "class"), "ns=1;i=" + std::to_string(i + 1), "1:N");
        switch(mc::choose(6, "definition")) {
        case 0: break;
        case 1: x.def.present = true; break;
        case 2: x.def.present = true; x.def.fields = {{{{"Name", "s" + std::to_string(i)}, {"DataType", "Str"}}}, {{{"Name", "t"}}}}; break;
        case 3: x.def.present = true; x.def.fields = {{{{"Name", "e" + std::to_string(i)}, {"Value", "4"}}}}; break;
        case 4: x.def.present = true; x.def.attrs = {{"IsUnion", "true"}}; x.def.fields = {{{{"Name", "u"}, {"DataType", "ns=1;i=1"}, {"IsOptional", "true"}}}}; break;
        case 5: x.def.present = true; x.def.attrs = {{"IsOptionSet", "true"}}; x.def.fields = {{{{"Name", "o"}, {"Value", "1"}}}}; break;
        }
        d.nodes.push_back(x);
    }
    core::full(d);
}
// field texts (Description, DisplayName) are no texts of the node; the definition may stand at any place
static void places() {
    Def def;
    def.fields = {{{{"Name", "a"}, {"DataType", "Str"}}}, {{{"Name", "b"}}}};
    Doc d = doc(def); d.nodes[0].dn = txt("display"); d.nodes[0].desc = txt("description");
    if(mc::flag("without texts")) { d.nodes[0].dn = Txt(); d.nodes[0].desc = Txt(); }
    std::string s = xml(d);
    size_t b = s.find("<Definition"), e = s.find("</Definition>") + 13;
    std::string t = s.substr(b, e - b);
    s.erase(b, e - b);
    static const std::vector<std::string> IN = {"", "<Description>of the field</Description>", "<DisplayName Locale=\"l\">of the field</DisplayName>", "<Description/><Field Name=\"inner\"/>", "text"};
    std::string in = mc::pick(IN, "in field"), bet = mc::pick(IN, "between fields");
    if(bet.find("<Field") != std::string::npos) bet = "<Other><Field Name=\"no\"/></Other>";
    size_t p = t.find("</Field>"); t.insert(p + 8, bet); t.insert(p, in);
    static const std::vector<std::string> AT = {"BrowseName=\"1:T\">", "</DisplayName>", "</Description>", "</References>"};
    std::string a = mc::pick(AT, "place");
    p = s.find(a);
    if(p == std::string::npos) return;
    s.insert(p + a.size(), t);
    core::fullRaw({s}, {d});
}
int main(int argc, char **argv) {
    mc::scenario("one-field", oneField);
    mc::scenario("enumeration-fields", enumFields);
    mc::scenario("several-fields", severalFields);
    mc::scenario("flags", flags);
    mc::scenario("counts", counts);
    mc::scenario("large", large);
    mc::scenario("neighbours", neighbours);
    mc::scenario("places", places);
    return mc::run(argc, argv, {"C16", "every combination of attribute values of one field, of 2 (thorough: 3) fields over a reduced alphabet, all flag spellings, up to 70 (600) and 10001 fields, all triples of neighbouring definitions"});
}
