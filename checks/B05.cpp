// B05: structured values are stored member by member as written
#include <algorithm>
#include "batch.hpp"
using namespace model;
using back::Batch; using back::dataType; using back::field;

typedef std::vector<Elem> EV;
// a sample value of a type, different for each seed
struct Types {
    std::map<std::string, Node> def;
    std::vector<Node> nodes;
    Node &add(const std::string &id, const std::string &name, const std::string &super = "i=22", bool un = false) {
        Node n = dataType(id, "1:" + name, super);
        if(un) n.def.attrs = {{"IsUnion", "true"}};
        nodes.push_back(n);
        return nodes.back();
    }
    void done() { def.clear(); for(auto &n : nodes) def[n.id] = n; }
    std::vector<Field> fields(const std::string &id) const {
        auto it = def.find(id);
        if(it == def.end()) {
            auto F = [](std::vector<std::vector<std::string>> l) { std::vector<Field> r; for(auto &x : l) { Field f; f.attrs = {{"Name", x[0]}, {"DataType", x[1]}}; if(x.size() > 2) f.attrs.push_back({"ValueRank", "1"}); r.push_back(f); } return r; };
            if(id == "i=884") return F({{"Low", "i=11"}, {"High", "i=11"}});
            if(id == "i=887") return F({{"NamespaceUri", "i=12"}, {"UnitId", "i=6"}, {"DisplayName", "i=21"}, {"Description", "i=21"}});
            if(id == "i=7594") return F({{"Value", "i=8"}, {"DisplayName", "i=21"}, {"Description", "i=21"}});
            if(id == "i=296") return F({{"Name", "i=12"}, {"DataType", "i=17"}, {"ValueRank", "i=6"}, {"ArrayDimensions", "i=7", "a"}, {"Description", "i=21"}});
            if(id == "i=12755") return F({{"Value", "i=15"}, {"ValidBits", "i=15"}});
            return {};
        }
        std::vector<Field> r;
        for(auto &rf : it->second.refs) if(rf.type == "i=45") r = fields(rf.target);
        r.insert(r.end(), it->second.def.fields.begin(), it->second.def.fields.end());
        return r;
    }
    bool isStruct(const std::string &id) const { return id == "i=884" || id == "i=887" || id == "i=7594" || id == "i=296" || id == "i=12755" || (def.count(id) && !def.at(id).refs.empty() && (def.at(id).refs[0].target == "i=22" || def.at(id).refs[0].target == "i=12756" || isStruct(def.at(id).refs[0].target))); }
    Elem value(const std::string &id, const std::string &name, int seed, int depth = 0) const {
        std::string n = std::to_string(seed % 90 + 10);
        auto D = [&](std::vector<std::pair<const char *, std::string>> l) { EV v; for(auto &p : l) v.push_back(elem(p.first, p.second)); return elem(name, v); };
        if(id == "i=1") return elem(name, "true");
        if(id == "i=12") return elem(name, "s" + n);
        if(id == "i=13" || id == "i=294") return elem(name, "20" + n + "-01-02T03:04:05Z");
        if(id == "i=14") return D({{"String", "000000" + n + "-0002-0003-0405-060708090a0b"}});
        if(id == "i=15") return elem(name, "QU" + n);
        if(id == "i=17") return D({{"Identifier", seed % 2 ? "i=" + n : "ns=1;s=x" + n}});
        if(id == "i=19") return D({{"Code", "21474836" + n}});
        if(id == "i=20") return D({{"NamespaceIndex", "1"}, {"Name", "q" + n}});
        if(id == "i=21") return D({{"Locale", "l" + n}, {"Text", "t" + n}});
        if(id == "i=10" || id == "i=11" || id == "i=290") return elem(name, n + ".5");
        if(id == "i=295") return elem(name, "en" + n);
        if(id == "i=8" || id == "i=9") return elem(name, "90000000000" + n);
        if(def.count(id) && !def.at(id).refs.empty()) {
            auto &d = def.at(id);
            if(d.refs[0].target == "i=29") return elem(name, "E_x_" + n);
            if(isStruct(id)) {
                auto f = fields(id);
                auto isun = attr(d.def.attrs, "IsUnion");
                EV k;
                if(isun) {
                    if(f.empty()) return elem(name);
                    size_t i = (size_t)seed % f.size();
                    k = {elem("SwitchField", std::to_string(i + 1)), member(f[i], seed + 3, depth)};
                } else for(size_t i = 0; i < f.size(); i++) k.push_back(member(f[i], seed + (int)i * 7 + 1, depth));
                return elem(name, k);
            }
            return value(d.refs[0].target, name, seed, depth);
        }
        if(isStruct(id)) { EV k; auto f = fields(id); for(size_t i = 0; i < f.size(); i++) k.push_back(member(f[i], seed + (int)i * 7 + 1, depth)); return elem(name, k); }
        return elem(name, n);                              // numbers
    }
    Elem list(const std::string &id, const std::string &name, int n, int seed, int depth = 0) const { EV k; for(int i = 0; i < n; i++) k.push_back(value(id, "Item", seed + i * 5, depth + 1)); return elem(name, k); }
    Elem member(const Field &f, int seed, int depth) const {
        std::string name = *attr(f.attrs, "Name"), t = *attr(f.attrs, "DataType");
        return attr(f.attrs, "ValueRank") ? list(t, name, depth > 3 ? 1 : 1 + seed % 3, seed, depth) : value(t, name, seed, depth + 1);
    }
};
static Elem xo(const Elem &e, bool type = true) {
    EV k;
    if(type) k.push_back(elem("TypeId", EV{elem("Identifier", "ns=1;i=5001")}));
    k.push_back(elem("Body", EV{e}));
    return elem("ExtensionObject", k);
}
static Elem xlist(const EV &l) { EV k; for(auto &e : l) k.push_back(xo(e)); return elem("ListOfExtensionObject", k); }
static void helpers(Types &t) {
    t.add("ns=1;i=100", "Enum", "i=29");
    t.add("ns=1;i=101", "MyInt16", "i=4");
    { auto &n = t.add("ns=1;i=102", "S1"); field(n, "a", "i=1"); }
    { auto &n = t.add("ns=1;i=103", "S9"); field(n, "a", "i=8"); field(n, "b", "i=1"); }
    { auto &n = t.add("ns=1;i=104", "SStr"); field(n, "a", "i=12"); field(n, "b", "i=6", true); }
    t.add("ns=1;i=105", "Empty");
    { auto &n = t.add("ns=1;i=107", "Un", "i=12756", true); field(n, "a", "i=1"); field(n, "b", "i=4"); }
    { auto &n = t.add("ns=1;i=108", "Un8", "i=12756", true); field(n, "a", "i=12"); field(n, "b", "i=12", true); field(n, "c", "ns=1;i=104"); }
    { auto &n = t.add("ns=1;i=109", "Opt"); field(n, "a", "i=1", false, true); field(n, "b", "i=12", false, true); field(n, "c", "i=4"); }
    { auto &n = t.add("ns=1;s=Str", "Str"); field(n, "a", "i=2"); }
    { auto &n = t.add("ns=1;i=110", "SSub", "ns=1;i=104"); field(n, "c", "i=2"); }
}
static const std::vector<std::string> ALL = {"i=1", "i=2", "i=3", "i=4", "i=5", "i=6", "i=7", "i=8", "i=9", "i=10", "i=11", "i=12", "i=13", "i=14", "i=15", "i=17", "i=19", "i=20", "i=21", "i=294", "i=290", "i=295",
    "i=884", "i=887", "i=7594", "i=296", "i=12755", "ns=1;i=100", "ns=1;i=101", "ns=1;i=102", "ns=1;i=103", "ns=1;i=104", "ns=1;i=105", "ns=1;i=107", "ns=1;i=108", "ns=1;i=109", "ns=1;s=Str", "ns=1;i=110"};
static void finish(Types &t, Batch &b, bool typesLast) { b.d.nodes.insert(typesLast ? b.d.nodes.end() : b.d.nodes.begin(), t.nodes.begin(), t.nodes.end()); b.run(); }

// a member of every type between others; the member missing, empty, present; the others missing or present; any order
static void oneMember() {
    static const std::vector<std::string> N = {"i=1", "i=6", "i=12", "i=14"};
    Types t; helpers(t);
    std::string ty = mc::pick(ALL, "type"), bf = mc::pick(N, "before"), af = mc::pick(N, "after");
    int kind = mc::choose(4, "array, optional");
    auto &n = t.add("ns=1;i=1", "T");
    field(n, "bef", bf); field(n, "mem", ty, kind & 1, kind & 2); field(n, "aft", af);
    t.done();
    Batch b;
    int forms = kind & 1 ? 5 : 4;
    EV all;
    for(int m = 0; m < forms; m++) for(int o = 0; o < 4; o++) for(int rev = 0; rev < 2; rev++) {
        EV k;
        if(o & 1) k.push_back(t.value(bf, "bef", 3));
        switch(m) {
        case 1: k.push_back(elem("mem")); break;
        case 2: k.push_back(kind & 1 ? t.list(ty, "mem", 3, 5) : t.value(ty, "mem", 5)); break;
        case 3: k.push_back(kind & 1 ? t.list(ty, "mem", 1, 6) : t.value(ty, "mem", 8)); break;
        case 4: { EV l = {t.value(ty, "x", 1), elem("x"), t.value(ty, "x", 4)}; k.push_back(elem("mem", l)); break; }
        }
        if(o & 2) k.push_back(t.value(af, "aft", 9));
        if(rev) std::reverse(k.begin(), k.end());
        Elem e = elem("T", k);
        all.push_back(e);
        b.add("ns=1;i=1", xo(e, o != 2));
    }
    b.add("ns=1;i=1", xlist(all), 1);
    finish(t, b, false);
}
// several members, any subset present, in any order, with other elements in between
static void members() {
    static const std::vector<std::string> Q = {"i=1", "i=8", "i=12", "i=14", "ns=1;i=103", "ns=1;i=104", "ns=1;i=108", "ns=1;i=109"};
    Types t; helpers(t);
    auto &n = t.add("ns=1;i=1", "T");
    int k = mc::by_tier(2, 3);
    std::vector<std::pair<std::string, int>> f;
    for(int i = 0; i < k; i++) { f.push_back({mc::pick(Q, "type"), mc::choose(k == 3 ? 3 : 4, "array, optional")}); field(n, std::string(1, (char)('a' + i)), f.back().first, f.back().second & 1, f.back().second & 2); }
    t.done();
    bool other = mc::flag("others");
    Batch b;
    std::vector<int> p; for(int i = 0; i < k; i++) p.push_back(i);
    do for(int sub = 0; sub < 1 << k; sub++) {
        EV v;
        for(int i : p) if(sub >> i & 1) {
            std::string nm(1, (char)('a' + i));
            if(other) v.push_back(elem("aa", EV{elem("a", "5"), elem("b", "6")}));
            v.push_back(f[(size_t)i].second & 1 ? t.list(f[(size_t)i].first, nm, 2, i + 3) : t.value(f[(size_t)i].first, nm, i + 4));
        }
        if(other) v.push_back(elem("A", "no"));
        b.add("ns=1;i=1", xo(elem("T", v)));
    } while(std::next_permutation(p.begin(), p.end()));
    finish(t, b, false);
}
// structures in structures, arrays and optional members at any level
static void nested() {
    Types t; helpers(t);
    int depth = 2 + mc::choose(mc::by_tier(3, 4), "depth");
    static const std::vector<std::string> LEAF = {"i=1", "i=12", "i=20", "ns=1;i=108", "ns=1;i=109"};
    std::string in = mc::pick(LEAF, "leaf");
    for(int i = depth; i >= 1; i--) {
        int how = mc::choose(5, "how");                      // member, array, optional, both; union
        auto &n = t.add("ns=1;i=" + std::to_string(i), "L" + std::to_string(i), how == 4 ? "i=12756" : "i=22", how == 4);
        if(i % 2 == 0) field(n, "pre", "i=1");
        if(how == 4) { field(n, "in", in); field(n, "list", in, true); }
        else field(n, "in", in, how & 1, how & 2);
        if(i % 2) field(n, "post", "i=4");
        in = n.id;
    }
    t.done();
    Batch b;
    EV all;
    for(int s = 0; s < 4; s++) { all.push_back(t.value("ns=1;i=1", "L1", s)); b.add("ns=1;i=1", xo(all.back())); }
    // members missing at some level
    std::function<void(Elem &, int, int)> cut = [&](Elem &e, int level, int at) { if(level == at) { if(!e.kids.empty()) e.kids.erase(e.kids.begin()); return; } for(auto &k : e.kids) cut(k, level + 1, at); };
    for(int at = 0; at <= depth; at++) { Elem e = t.value("ns=1;i=1", "L1", at); cut(e, 0, at); b.add("ns=1;i=1", xo(e)); }
    b.add("ns=1;i=1", xlist(all), 1);
    finish(t, b, mc::flag("types last"));
}
// unions: every switch field, member missing or another one, any order, in structures and arrays
static void unions() {
    Types t; helpers(t);
    std::string x = mc::pick(ALL, "type");
    bool arr = mc::flag("array");
    int pos = mc::choose(3, "position");
    auto &n = t.add("ns=1;i=1", "U", "i=12756", true);
    for(int i = 0; i < 3; i++) { if(i == pos) field(n, "mem", x, arr); else field(n, "o" + std::to_string(i), i ? "i=12" : "i=1"); }
    auto &s = t.add("ns=1;i=2", "S"); field(s, "a", "i=1"); field(s, "u", "ns=1;i=1"); field(s, "z", "i=6"); field(s, "l", "ns=1;i=1", true); field(s, "e", "i=12");
    t.done();
    Batch b;
    EV all;
    Elem m = arr ? t.list(x, "mem", 2, 3) : t.value(x, "mem", 3);
    for(const char *sw : {"0", "1", "2", "3", "4", "255", "4294967295", "", (const char *)0}) for(int form = 0; form < 4; form++) {
        EV k;
        if(sw) k.push_back(elem("SwitchField", sw));
        if(form & 1) k.push_back(m); else k.push_back(elem(pos == 0 ? "o1" : "o0", pos == 0 ? "text" : "true"));
        if(form & 2) std::reverse(k.begin(), k.end());
        all.push_back(elem("U", k));
    }
    all.push_back(elem("U")); all.push_back(elem("U", EV{elem("SwitchField", std::to_string(pos + 1)), elem("other"), m})); all.push_back(elem("U", EV{elem("SwitchField", std::to_string(pos + 1)), elem("mem")}));
    for(auto &e : all) b.add("ns=1;i=1", xo(e));
    b.add("ns=1;i=1", xlist(all), 1);
    for(auto &e : all) { Elem u = e; u.name = "u"; b.add("ns=1;i=2", xo(elem("S", EV{elem("a", "true"), u, elem("z", "5"), elem("l", EV{e, all[4], e}), elem("e", "end")}))); }
    finish(t, b, false);
}
// chains of supertypes: members of all levels, in any order
static void inheritance() {
    static const std::vector<std::string> ROOT = {"i=22", "i=884", "i=296", "i=12755", "ns=1;i=104", "ns=1;i=109"};
    Types t; helpers(t);
    std::string sup = mc::pick(ROOT, "root");
    int k = 1 + mc::choose(mc::by_tier(3, 4), "levels");
    for(int i = 0; i < k; i++) {
        auto &n = t.add("ns=1;i=" + std::to_string(i + 1), "T" + std::to_string(i), sup);
        std::string nm = "l" + std::to_string(i);
        switch(mc::choose(5, "fields")) {
        case 0: break;
        case 1: field(n, nm, "i=1"); break;
        case 2: field(n, nm, "i=12", true); break;
        case 3: field(n, nm, "i=4", false, true); break;
        case 4: field(n, nm, "i=2"); field(n, nm + "x", "ns=1;i=103"); break;
        }
        sup = n.id;
    }
    t.done();
    Batch b; EV all;
    for(int lv = 0; lv < k; lv++) {
        std::string id = "ns=1;i=" + std::to_string(lv + 1);
        all.clear();
        for(int s = 0; s < 3; s++) {
            Elem e = t.value(id, "T", s);
            all.push_back(e);
            std::reverse(e.kids.begin(), e.kids.end()); all.push_back(e);
            if(!e.kids.empty()) { std::rotate(e.kids.begin(), e.kids.begin() + 1, e.kids.end()); e.kids.pop_back(); all.push_back(e); }
        }
        for(auto &e : all) b.add(id, xo(e));
        b.add(id, xlist(all), 1);
    }
    finish(t, b, mc::flag("types last"));
}
// structures of namespace 0
static void ns0() {
    static const std::vector<std::string> T = {"i=884", "i=887", "i=7594", "i=296", "i=12755"};
    Types t; t.done();
    std::string ty = mc::pick(T, "type");
    auto f = t.fields(ty);
    Batch b; EV all;
    int var = mc::choose(4, "values");
    std::vector<int> p; for(int i = 0; i < (int)f.size(); i++) p.push_back(i);
    if(var == 0) do { EV k; for(int i : p) k.push_back(t.member(f[(size_t)i], i + 1, 0)); all.push_back(elem("V", k)); } while(std::next_permutation(p.begin(), p.end()));
    else for(int sub = 0; sub < 1 << f.size(); sub++) { EV k; for(int i : p) { Elem m = t.member(f[(size_t)i], i + var, 0); if(sub >> i & 1) k.push_back(m); else if(var == 2) k.push_back(elem(m.name)); } if(var == 3) std::reverse(k.begin(), k.end()); all.push_back(elem("V", k)); }
    for(auto &e : all) b.add(ty, xo(e));
    b.add(ty, xlist(all), 1);
    b.run();
}
// lists of structures of any length, with empty ones, with and without TypeId
static void lists() {
    static const std::vector<int> L = {0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 99, 100, 101, 255, 256, 1000};
    static const std::vector<std::string> T = {"i=884", "i=296", "ns=1;i=102", "ns=1;i=103", "ns=1;i=104", "ns=1;i=107", "ns=1;i=108", "ns=1;i=109", "ns=1;i=110"};
    Types t; helpers(t); t.done();
    std::string ty = mc::pick(T, "type");
    int n = mc::pick(L, "length"), odd = mc::choose(4, "odd");
    Batch b; EV k;
    for(int i = 0; i < n; i++) {
        Elem e = t.value(ty, "V", i);
        if(odd == 1 && i % 3 == 0) e = elem("V");
        if(odd == 2 && i % 2 == 0 && !e.kids.empty()) e.kids.pop_back();
        k.push_back(xo(e, odd != 3));
    }
    b.add(ty, elem("ListOfExtensionObject", k), 1);
    b.add(ty, n ? k[0] : elem("ExtensionObject"));
    b.add(ty, elem("ExtensionObject", EV{elem("TypeId", EV{elem("Identifier", "i=1")}), elem("Body")}));
    finish(t, b, mc::flag("types last"));
}
// array members of any length; many members, one of them present
static void sizes() {
    static const std::vector<int> L = {0, 1, 2, 3, 15, 16, 17, 63, 64, 100, 255, 256, 257, 1000, 5000};
    static const std::vector<int> M = {1, 2, 63, 64, 65, 127, 128, 129, 254, 255};
    Types t; helpers(t);
    auto &n = t.add("ns=1;i=1", "T");
    Batch b;
    if(mc::flag("many members")) {
        int m = mc::pick(M, "members"), at = mc::choose(4, "which");
        for(int i = 0; i < m; i++) field(n, "m" + std::to_string(i), i % 3 ? "i=1" : "i=12");
        t.done();
        EV k;
        for(int i = 0; i < m; i++) if(at == 3 || i == (at == 0 ? 0 : at == 1 ? m / 2 : m - 1)) k.push_back(t.value(i % 3 ? "i=1" : "i=12", "m" + std::to_string(i), i));
        b.add("ns=1;i=1", xo(elem("T", k)));
        std::reverse(k.begin(), k.end());
        b.add("ns=1;i=1", xlist({elem("T", k), elem("T"), elem("T", k)}), 1);
    } else {
        int l = mc::pick(L, "length"); std::string ty = mc::pick(ALL, "type");
        field(n, "a", "i=1"); field(n, "l", ty, true, mc::flag("optional")); field(n, "e", "i=12");
        t.done();
        b.add("ns=1;i=1", xo(elem("T", EV{elem("a", "true"), t.list(ty, "l", l, 1), elem("e", "end")})));
    }
    finish(t, b, false);
}
// names of members: prefixes of others, names with a meaning elsewhere, the name of the type
static void memberNames() {
    static const std::vector<std::string> N = {"a", "ab", "A", "T", "V", "Body", "TypeId", "ExtensionObject", "ListOf", "ListOfInt32", "Value", "Identifier", "SwitchField", "Item", "String", "Name", "a.b", "_", "\xc3\xa4"};
    Types t;
    auto &n = t.add("ns=1;i=1", "T");
    std::string x = mc::pick(N, "name"), y = mc::pick(N, "name"), z = "a1";
    if(x == y) return;
    int kind = mc::choose(3, "kind");
    auto &in = n;
    field(in, x, kind == 1 ? "i=296" : "i=6", kind == 2); field(in, y, "i=12"); field(in, z, "i=1");
    auto &o = t.add("ns=1;i=2", "O"); field(o, y, "ns=1;i=1"); field(o, x, "ns=1;i=1", true); field(o, z, "i=6");
    t.done();
    Batch b;
    // the element of the structure has the name of a member
    for(const char *top : {"T", "a", "Value"}) { Elem e = t.value("ns=1;i=1", top, 3); b.add("ns=1;i=1", xo(e)); std::reverse(e.kids.begin(), e.kids.end()); b.add("ns=1;i=1", xo(e)); }
    b.add("ns=1;i=2", xo(t.value("ns=1;i=2", "O", 4)));
    b.add("ns=1;i=2", xlist({t.value("ns=1;i=2", "O", 4), t.value("ns=1;i=2", "O", 5)}), 1);
    finish(t, b, false);
}
// types of earlier files, in every distribution over up to three files
static void files() {
    Types t; helpers(t);
    auto &n = t.add("ns=1;i=1", "T", "ns=1;i=104"); field(n, "u", "ns=1;i=108"); field(n, "o", "ns=1;i=109", false, true); field(n, "l", "ns=1;i=103", true);
    t.done();
    Batch b; EV all;
    static const std::vector<std::string> Q = {"ns=1;i=1", "ns=1;i=104", "ns=1;i=108", "ns=1;i=109", "ns=1;i=103", "ns=1;i=110"};
    for(auto &q : Q) for(int s = 0; s < 3; s++) b.add(q, xo(t.value(q, "V", s)));
    b.add(Q[0], xlist({t.value(Q[0], "V", 1), t.value(Q[0], "V", 2)}), 1);
    std::vector<Doc> d(3);
    for(auto &x : d) x.uris = {"u:a"};
    int last = 0;
    for(auto &x : t.nodes) {
        int f = 0;
        if(x.id == "ns=1;i=1") f = last + mc::choose(3 - last, "file");
        else { f = mc::choose(mc::by_tier(2, 3), "file"); last = std::max(last, f); if(x.id == "ns=1;i=110" || x.id == "ns=1;i=108") f = last; }
        d[(size_t)f].nodes.push_back(x);
    }
    auto &v = d[2].nodes;
    v.insert(v.end(), b.d.nodes.begin(), b.d.nodes.end());
    back::full(d);
}
// builtin members with parts: every subset of the parts, empty parts, both orders, wherever they are
static std::vector<EV> partForms(const std::string &ty) {
    auto id = [](const char *s) { return EV{elem("Identifier", s)}; };
    if(ty == "i=21") { Elem l = elem("Locale", "de"), t = elem("Text", "word"); return {{}, {l}, {t}, {l, t}, {t, l}, {elem("Locale"), t}, {l, elem("Text")}}; }
    if(ty == "i=20") { Elem i = elem("NamespaceIndex", "1"), n = elem("Name", "qn"); return {{}, {i}, {n}, {i, n}, {n, i}, {i, elem("Name")}}; }
    if(ty == "i=17") return {{}, {elem("Identifier")}, id("i=77"), id("ns=1;s=abc"), id("ns=1;g=00000011-0002-0003-0405-060708090a0b"), id("b=YWI=")};
    if(ty == "i=14") return {{}, {elem("String")}, {elem("String", "00000011-0002-0003-0405-060708090a0b")}};
    return {{}, {elem("Code")}, {elem("Code", "2147483648")}, {elem("Code", "1")}};
}
static void parts() {
    static const std::vector<std::string> TY = {"i=21", "i=20", "i=17", "i=14", "i=19"};
    static const std::vector<std::string> BEF = {"i=1", "i=6", "i=12", "i=11", "i=21", "ns=1;i=103", "ns=1;i=104"};
    Types t; helpers(t);
    std::string ty = mc::pick(TY, "type"), bf = mc::pick(BEF, "before");
    int where = mc::choose(mc::by_tier(4, 5), "where");
    auto forms = partForms(ty);
    auto &n = t.add("ns=1;i=1", "T");
    field(n, "bef", bf);
    field(n, "mem", ty, where == 1, where == 2);
    field(n, "two", ty);
    if(where == 3) { auto &u = t.add("ns=1;i=2", "U", "i=12756", true); field(u, "bef", bf); field(u, "mem", ty); field(u, "lst", ty, true); }
    auto &o = t.add("ns=1;i=3", "O"); field(o, "z", "i=6"); field(o, "in", where == 3 ? "ns=1;i=2" : "ns=1;i=1"); field(o, "l", where == 3 ? "ns=1;i=2" : "ns=1;i=1", true, where == 4); field(o, "end", "i=12");
    t.done();
    std::string T = where == 3 ? "ns=1;i=2" : "ns=1;i=1";
    Batch b; EV all;
    int form = mc::choose((int)forms.size(), "form");
    for(size_t g = 0; g < forms.size(); g++) for(int others = 0; others < 2; others++) {
        EV k;
        Elem x = t.value(bf, "bef", 3), f = elem("mem", forms[(size_t)form]), y = elem("two", forms[g]);
        EV items = {elem("It", forms[(size_t)form]), elem("It", forms[g]), elem("It", forms[(size_t)form])};
        if(where == 3) {
            k.push_back(elem("SwitchField", others ? "3" : "2"));
            k.push_back(others ? elem("lst", items) : f);
        } else {
            if(others) k.push_back(x);
            k.push_back(where == 1 ? elem("mem", items) : f);
            k.push_back(y);
        }
        all.push_back(elem("T", k));
    }
    for(auto &e : all) b.add(T, xo(e));
    b.add(T, xlist(all), 1);
    for(size_t i = 0; i + 1 < all.size(); i += 2) {
        Elem in = all[i + 1]; in.name = "in";
        b.add("ns=1;i=3", xo(elem("O", EV{elem("z", "5"), in, elem("l", EV{all[i], all[0], all[i + 1]}), elem("end", "e")})));
    }
    finish(t, b, false);
}
int main(int argc, char **argv) {
    mc::scenario("one-member", oneMember);
    mc::scenario("members", members);
    mc::scenario("nested", nested);
    mc::scenario("unions", unions);
    mc::scenario("inheritance", inheritance);
    mc::scenario("namespace-0", ns0);
    mc::scenario("lists", lists);
    mc::scenario("sizes", sizes);
    mc::scenario("member-names", memberNames);
    mc::scenario("files", files);
    mc::scenario("parts", parts);
    return mc::run(argc, argv, {"B05", "members of abstract or unsupported types, a union whose switch field names a missing member and members given twice are only checked for memory safety; an ExtensionObject without Body is no value; its TypeId is not looked at"});
}
