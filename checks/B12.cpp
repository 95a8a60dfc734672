// B12: files loaded one after another: nodes and data types accumulate
#include <algorithm>
#include <cstring>
#include "back.hpp"
#include "real.hpp"
#include "mtypes.hpp"
#include <NodesetLoader/dataTypes.h>
using namespace model;
using back::base; using back::dataType; using back::field; using back::under;

typedef std::vector<Elem> EV;
struct Step { Doc d; std::string raw; bool bad = false; Step() {} Step(const Doc &x) : d(x) {} };
static Step bad(const std::string &raw) { Step s; s.raw = raw; s.bad = true; return s; }
static Elem xo(const Elem &e) { return elem("ExtensionObject", EV{elem("TypeId", EV{elem("Identifier", "i=5")}), elem("Body", EV{e})}); }

// data types a caller has registered
struct P1 { UA_Int16 a; UA_String b; };
struct P3 { UA_Boolean x; size_t lSize; P1 *l; P1 p; UA_Double *o; };
struct Preset {
    UA_DataTypeMember m1[2], m3[4];
    UA_DataType t[3];
    UA_DataTypeArray *arr;
    Preset(int ns, int n, bool encodings) {
        memset(m1, 0, sizeof m1); memset(m3, 0, sizeof m3); memset(t, 0, sizeof t);
        m1[0].memberName = "a"; m1[0].memberType = &UA_TYPES[UA_TYPES_INT16];
        m1[1].memberName = "b"; m1[1].memberType = &UA_TYPES[UA_TYPES_STRING]; m1[1].padding = offsetof(P1, b) - 2;
        t[0].typeName = "P1"; t[0].memSize = sizeof(P1); t[0].typeKind = UA_DATATYPEKIND_STRUCTURE; t[0].membersSize = 2; t[0].members = m1;
        t[1].typeName = "P2"; t[1].memSize = 4; t[1].typeKind = UA_DATATYPEKIND_ENUM; t[1].pointerFree = 1;
        m3[0].memberName = "x"; m3[0].memberType = &UA_TYPES[UA_TYPES_BOOLEAN];
        m3[1].memberName = "l"; m3[1].memberType = &t[0]; m3[1].isArray = 1; m3[1].padding = offsetof(P3, lSize) - 1;
        m3[2].memberName = "p"; m3[2].memberType = &t[0];
        m3[3].memberName = "o"; m3[3].memberType = &UA_TYPES[UA_TYPES_DOUBLE]; m3[3].isOptional = 1;
        t[2].typeName = "P3"; t[2].memSize = sizeof(P3); t[2].typeKind = UA_DATATYPEKIND_OPTSTRUCT; t[2].membersSize = 4; t[2].members = m3;
        for(int i = 0; i < 3; i++) { t[i].typeId = UA_NODEID_NUMERIC((UA_UInt16)ns, (UA_UInt32)(901 + i)); if(encodings && i != 1) t[i].binaryEncodingId = UA_NODEID_NUMERIC((UA_UInt16)ns, (UA_UInt32)(951 + i)); }
        UA_DataTypeArray a = {nullptr, (size_t)n, t, false};
        arr = (UA_DataTypeArray *)malloc(sizeof a); memcpy(arr, &a, sizeof a);
    }
    ~Preset() { free(arr); }
    void into(mtypes::Reg &r) const {
        std::string ns = std::to_string(t[0].typeId.namespaceIndex) + ":i=";
        for(size_t i = 0; i < arr->typesSize; i++) {
            mtypes::Type x; x.id = ns + std::to_string(901 + i); x.name = t[i].typeName; x.custom = true; x.kind = t[i].typeKind; x.size = t[i].memSize; x.align = i == 1 ? 4 : 8; x.pf = t[i].pointerFree;
            x.enc = core::nid(&t[i].binaryEncodingId);
            for(size_t k = 0; k < t[i].membersSize; k++) { mtypes::Member m; m.name = t[i].members[k].memberName; m.type = core::nid(&t[i].members[k].memberType->typeId); m.arr = t[i].members[k].isArray; m.opt = t[i].members[k].isOptional; m.pad = t[i].members[k].padding; x.m.push_back(m); }
            r.types[x.id] = x; r.customs++;
        }
    }
};
// loads all steps into one server; after each of them everything that was loaded so far must be there
struct Opt { int preset = 0, presetAt = 0; bool presetEnc = false; std::vector<std::string> pre; bool ext = false; };
static void history(const std::vector<Step> &steps, const Opt &o = Opt()) {
    core::checkLeak([&] {
        back::Server s;
        mtypes::Reg reg;
        for(auto &u : o.pre) UA_Server_addNamespace(s.s, u.c_str());
        Preset p(2, o.preset, o.presetEnc);
        std::map<std::string, const UA_DataType *> seen;
        bool good = true;
        for(size_t i = 0; i < steps.size() && good; i++) {
            if(o.preset && o.presetAt == (int)i) {
                UA_ServerConfig *c = UA_Server_getConfig(s.s);
                p.arr->next = c->customDataTypes; c->customDataTypes = p.arr; p.into(reg);
            }
            const Step &st = steps[i];
            back::Space before = s.snapshot();
            int errs = s.errors();
            if(st.bad) {
                bool r = st.raw.empty() ? s.loadPath("/nonexistent/file.xml") : s.load(st.raw, o.ext, (int)i);
                if(r) { mc::fail("bad-file-loads", st.raw); good = false; }
                else if(s.errors() == errs) { mc::fail("failure-not-reported", st.raw); good = false; }
                good = good && back::untouched(before, s.snapshot()) && reg.check(s.s, "after-failure-");
            } else {
                std::string x = xml(st.d);
                if(mc::want_sample()) mc::sample(x);
                bool r = s.load(x, o.ext, (int)i);
                back::Space after = s.snapshot();
                back::Expect e = back::apply(before, st.d, after, o.ext, &reg);
                if(r != e.ok) { mc::fail(r ? "load-succeeds" : "load-fails", mc::fmt("load %zu returned %d, expected %d", i, r, e.ok)); good = false; }
                else if(!r) good = back::untouched(before, after) && reg.check(s.s, "after-failure-");
                else good = back::compare(after, e.after) && reg.check(s.s);
            }
            // found by NodeId, at the place where they were found first
            for(auto &k : reg.types) if(good && k.second.custom) {
                UA_NodeId id; UA_NodeId_init(&id);
                mc::OutLib out;
                std::string v = "ns=" + k.first.substr(0, k.first.find(':')) + ";" + k.first.substr(k.first.find(':') + 1);
                UA_String u; u.length = v.size(); u.data = (UA_Byte *)v.data();
                if(UA_NodeId_parse(&id, u) != UA_STATUSCODE_GOOD) { UA_NodeId_clear(&id); continue; }
                const UA_DataType *t = NodesetLoader_getCustomDataType(s.s, &id);
                UA_NodeId_clear(&id);
                if(!t) { mc::fail("data-type-not-found", k.first); good = false; break; }
                auto f = seen.find(k.first);
                if(f == seen.end()) seen[k.first] = t;
                else if(f->second != t) { mc::fail("data-type-moved", k.first + " was registered by an earlier load and is found elsewhere now"); good = false; }
            }
            UA_NodeId none[] = {UA_NODEID_NUMERIC(0, 12), UA_NODEID_NUMERIC(2, 77777), UA_NODEID_NUMERIC(77, 1), UA_NODEID_NULL};
            for(auto &n : none) if(good && NodesetLoader_getCustomDataType(s.s, &n)) { mc::fail("unknown-data-type-found", core::nid(&n)); good = false; }
        }
        // the caller takes his own types out again
        UA_ServerConfig *c = UA_Server_getConfig(s.s);
        for(const UA_DataTypeArray **q = (const UA_DataTypeArray **)&c->customDataTypes; *q; q = (const UA_DataTypeArray **)(uintptr_t)&(*q)->next) if(*q == p.arr) { *q = p.arr->next; break; }
        s.del();
    });
}

// ---- types over several files ----
struct M; struct T {
    int uri; std::string ident, name; int kind = 0;     // 0 structure 1 union 2 enumeration 3 subtype 4 option set
    std::string sup; const T *super = nullptr; bool abstract = false;
    std::vector<M> m;
};
struct M { std::string name, ns0; const T *t = nullptr; bool arr = false, opt = false; };
static const std::vector<std::string> URI = {"u:a", "u:b", "u:c"};
static std::string rid(const Doc &d, const T &t) {
    int k = (int)(std::find(d.uris.begin(), d.uris.end(), URI[t.uri]) - d.uris.begin());
    return "ns=" + std::to_string(k + 1) + ";" + t.ident;
}
static std::vector<M> allMembers(const T &t) { std::vector<M> v; if(t.super) v = allMembers(*t.super); v.insert(v.end(), t.m.begin(), t.m.end()); return v; }
static int kindOf(const T &t) { return t.super ? (kindOf(*t.super) ? kindOf(*t.super) : t.kind) : t.kind; }
static std::string simple(const T &t) { return t.super ? simple(*t.super) : t.sup; }
static Elem valueOf(const std::string &name, const M &m, int seed, int depth);
static Elem valueOf(const std::string &name, const T &t, int seed, int depth = 0) {
    if(depth > 6) return elem(name);
    switch(kindOf(t)) {
    case 2: return elem(name, "E_" + std::to_string(seed % 3));
    case 3: return elem(name, simple(t) == "i=12" ? "text" + std::to_string(seed) : std::to_string(seed % 100));
    case 4: return elem(name, EV{elem("Value", "QUI="), elem("ValidBits", "/w==")});
    case 1: {
        int k = 1 + seed % (int)t.m.size();
        return elem(name, EV{elem("SwitchField", std::to_string(k)), valueOf(t.m[k - 1].name, t.m[k - 1], seed + 1, depth + 1)});
    }
    default: {
        Elem e = elem(name);
        for(auto &m : allMembers(t)) { if(m.opt && seed % 2) continue; e.kids.push_back(valueOf(m.name, m, seed + (int)e.kids.size() + 1, depth + 1)); }
        return e;
    }
    }
}
static Elem valueOf(const std::string &name, const M &m, int seed, int depth) {
    auto one = [&](const std::string &n, int s) {
        if(m.t) return m.t->abstract ? elem(n) : valueOf(n, *m.t, s, depth);
        if(m.ns0 == "i=1") return elem(n, s % 2 ? "true" : "false");
        if(m.ns0 == "i=12") return elem(n, "s" + std::to_string(s));
        return elem(n, std::to_string(s % 100));
    };
    if(!m.arr) return one(name, seed);
    Elem e = elem(name);
    for(int i = 0; i < seed % 3; i++) e.kids.push_back(one("El", seed + i));
    return e;
}
static Node typeNode(const Doc &d, const T &t) {
    static const char *SUP[] = {"i=22", "i=12756", "i=29", "", "i=12755"};
    std::string own = rid(d, t);
    Node n = dataType(own, own.substr(3, own.find(';') - 3) + ":" + t.name, t.super ? rid(d, *t.super) : t.kind == 3 ? t.sup : SUP[t.kind], t.abstract);
    if(t.kind == 1) n.def.attrs = {{"IsUnion", "true"}};
    if(t.kind == 2) { n.def.present = true; n.def.fields = {{{{"Name", "a"}, {"Value", "0"}}}, {{{"Name", "b"}, {"Value", "1"}}}}; }
    for(auto &m : t.m) field(n, m.name, m.t ? rid(d, *m.t) : m.ns0, m.arr, m.opt);
    return n;
}
// the types as new nodes, then variables of the types of this and other files
static Doc typeFile(const std::vector<std::string> &uris, const std::vector<const T *> &own, const std::vector<const T *> &used, int tag, bool first) {
    Doc d; d.uris = uris;
    std::vector<Node> t, v;
    for(auto x : own) t.push_back(typeNode(d, *x));
    int ns = (int)(std::find(d.uris.begin(), d.uris.end(), URI[own.empty() ? 0 : own[0]->uri]) - d.uris.begin()) + 1, k = 0;
    for(auto x : used) for(int a = 0; a < 3; a++) {
        Node n = base(VARIABLE, "ns=" + std::to_string(ns) + ";i=" + std::to_string(tag * 1000 + k), "V" + std::to_string(k));
        k++;
        n.attrs.push_back({"DataType", rid(d, *x)});
        if(x->abstract) { v.push_back(n); continue; }
        int kd = kindOf(*x); bool st = kd == 0 || kd == 1 || kd == 4;
        n.hasValue = true;
        static const char *NAMES[] = {"Int32", "X"};
        std::string nm = st ? x->name : kd == 2 ? NAMES[0] : simple(*x) == "i=12" ? "String" : "Int16";
        if(a < 2) { Elem e = valueOf(nm, *x, tag + 2 * k + a); n.value = {st ? xo(e) : e}; }
        else {
            n.attrs.push_back({"ValueRank", "1"});
            EV l; for(int i = 0; i < 2; i++) { Elem e = valueOf(nm, *x, tag + k + i); l.push_back(st ? xo(e) : e); }
            n.value = {elem(st ? "ListOfExtensionObject" : "ListOf" + nm, l)};
        }
        v.push_back(n);
    }
    d.nodes = first ? t : v;
    auto &rest = first ? v : t;
    d.nodes.insert(d.nodes.end(), rest.begin(), rest.end());
    return d;
}
// variants of the type of the first file
static const int KINDS = 11;
static T variant(int k, int uri, const std::string &ident, const std::string &name) {
    T t; t.uri = uri; t.ident = ident; t.name = name;
    auto m = [&](const char *n, const char *ty, bool arr = false, bool opt = false) { M x; x.name = name + n; x.ns0 = ty; x.arr = arr; x.opt = opt; t.m.push_back(x); };
    switch(k) {
    case 0: m("a", "i=1"); m("b", "i=4"); break;
    case 1: m("a", "i=12"); m("b", "i=8", true); m("c", "i=1"); break;
    case 2: m("a", "i=1"); m("b", "i=12", false, true); m("c", "i=6", false, true); break;
    case 3: t.kind = 1; m("a", "i=12"); m("b", "i=1"); m("c", "i=6", true); break;
    case 4: t.kind = 2; break;
    case 5: t.kind = 3; t.sup = "i=4"; break;
    case 6: t.abstract = true; m("a", "i=6"); break;
    case 7: break;
    case 8: t.kind = 4; break;
    case 9: t.kind = 3; t.sup = "i=12"; break;
    case 10: t.abstract = true; break;
    }
    return t;
}
// how a type of a later file uses an earlier one
static const int USES = 6;
static void use(T &t, const T &o, int how, const std::string &nm) {
    M x; x.name = nm; x.t = &o;
    int k = kindOf(o);
    switch(how) {
    case 0: break;
    case 1: t.super = &o; if(k) t.kind = k; break;
    case 2: t.m.push_back(x); break;
    case 3: x.arr = true; t.m.push_back(x); break;
    case 4: x.opt = true; t.m.push_back(x); break;
    case 5: t.kind = 1; t.m.push_back(x); x.arr = true; x.name += "l"; t.m.push_back(x); break;
    }
}
static void own(T &t, int how) {
    M x; x.name = t.name + "z"; x.ns0 = "i=1";
    if(t.kind > 1 || how == 0) return;
    if(how == 1) { t.m.insert(t.m.begin(), x); return; }
    x.ns0 = "i=12"; t.m.push_back(x);
}
static void types() {
    static const std::vector<std::string> IDENT = {"i=1", "s=Type", "g=00000001-0002-0003-0405-060708090a0b"};
    int k1 = mc::choose(KINDS, "first type"), u2 = mc::choose(2, "uri of the second");
    int id = mc::choose(mc::by_tier(2, 3), "ident");
    T a = variant(k1, 0, IDENT[id], "A");
    T b; b.uri = u2; b.ident = IDENT[id] == "i=1" ? "i=2" : IDENT[id] + "2"; if(id == 2) b.ident = "g=00000001-0002-0003-0405-060708090a0c"; b.name = "B";
    int how = 1 + mc::choose(USES - 1, "use");
    if(how == 1 && kindOf(a) == 1) return;                 // subtypes of unions: no members are inherited
    use(b, a, how, "u");
    own(b, how == 1 && (k1 == 4 || k1 == 5 || k1 == 8 || k1 == 9) ? 0 : mc::choose(3, "own member"));
    bool rev = mc::flag("uris exchanged"), first = !mc::flag("types last");
    std::vector<std::string> u = {"u:b", "u:a"}; if(rev) std::swap(u[0], u[1]);
    Step f1(typeFile({"u:a"}, {&a}, {&a}, 1, first)), f2(typeFile(u, {&b}, {&a, &b}, 2, first));
    std::vector<Step> s = {f1, f2};
    switch(mc::choose(4, "then")) {
    case 1: s.push_back(f1); break;
    case 2: s.push_back(f2); break;
    case 3: s.insert(s.begin() + 1, f1); s.push_back(f1); s.push_back(f2); break;
    }
    history(s);
}
static void threeFiles() {
    static const std::vector<int> K = {0, 2, 3, 4, 6, 1, 5, 7, 8};
    int k1 = K[mc::choose(mc::by_tier(5, 9), "first type")];
    T a = variant(k1, 0, "i=1", "A"), b, c;
    b.uri = 1; b.ident = "s=B"; b.name = "B"; c.uri = 2; c.ident = "i=3"; c.name = "C";
    int h1 = mc::choose(USES, "use of the first");
    if(h1 == 1 && k1 == 3) return;
    use(b, a, h1, "a");
    own(b, h1 == 1 && (k1 == 4 || k1 == 5 || k1 == 8) ? 0 : 1 + mc::choose(2, "own"));
    int h2 = mc::choose(USES, "use of the second");
    if(h2 == 1 && kindOf(b) == 1) return;
    use(c, b, h2, "b");
    int h3 = mc::choose(4, "use of the first");
    if(h3 == 1) { if(c.super || kindOf(a) == 1 || c.kind == 1 || (kindOf(a) && !c.m.empty())) return; use(c, a, 1, ""); }
    else if(h3) { if(c.kind > 1 || h2 == 1 && kindOf(b)) return; use(c, a, h3, "x"); }
    if(kindOf(c) < 2 && !(c.super && kindOf(c))) own(c, 1 + (h2 + h3) % 2);
    Step f1(typeFile({"u:a"}, {&a}, {&a}, 1, true)), f2(typeFile({"u:b", "u:a"}, {&b}, {&a, &b}, 2, true)), f3(typeFile({"u:a", "u:b", "u:c"}, {&c}, {&a, &b, &c}, 3, false));
    history({f1, f2, f3});
}
// types of the caller, before or between the loads, with or without nodes in the files
static void preset() {
    Opt o; o.preset = 1 + mc::choose(3, "types of the caller"); o.presetAt = mc::choose(2, "registered before load"); o.presetEnc = mc::flag("encodings");
    o.pre = {"u:a"};
    T p[3]; const char *NM[] = {"P1", "P2", "P3"};
    for(int i = 0; i < 3; i++) { p[i].uri = 0; p[i].ident = "i=" + std::to_string(901 + i); p[i].name = NM[i]; }
    auto m = [&](T &t, const char *n, const char *ty, const T *x = nullptr, bool arr = false, bool opt = false) { M k; k.name = n; k.ns0 = ty; k.t = x; k.arr = arr; k.opt = opt; t.m.push_back(k); };
    m(p[0], "a", "i=4"); m(p[0], "b", "i=12"); p[1].kind = 2; m(p[2], "x", "i=1"); m(p[2], "l", "", &p[0], true); m(p[2], "p", "", &p[0]); m(p[2], "o", "i=11", nullptr, false, true);
    int which = mc::choose(o.preset, "used type");
    T b; b.uri = mc::choose(2, "uri"); b.ident = "i=2"; b.name = "B";
    bool nodes = mc::flag("nodes in the file");
    int how = nodes ? 1 + mc::choose(USES - 1, "use") : 2 + mc::choose(USES - 2, "use");
    use(b, p[which], how, "u");
    if(!(how == 1 && which == 1)) own(b, mc::choose(3, "own"));
    std::vector<const T *> pn; if(nodes) for(int i = 0; i < o.preset; i++) pn.push_back(&p[i]);
    T other = variant(mc::choose(2, "other file") ? 1 : 4, 0, "i=50", "O");
    Step f0(typeFile({"u:a"}, {&other}, {&other}, 5, true));
    auto pb = pn; pb.push_back(&b);
    Step f1(typeFile({"u:b", "u:a"}, pb, {&p[which], &b}, 1, !mc::flag("types last")));
    if(o.presetAt) history({f0, f1, f0}, o);
    else history({f1, f0, f1}, o);
}
// all histories of a pool of files, in dependency order, with files that cannot be loaded in between
static Doc pool(int k) {
    Doc d;
    switch(k) {
    case 0: {                                            // types of every class and instances
        d.uris = {"u:a"};
        Node rt = base(REFERENCETYPE, "ns=1;i=1", "1:Rel"); rt.refs[0].target = "i=33";
        Node ot = base(OBJECTTYPE, "ns=1;i=2", "1:OT"), vt = base(VARIABLETYPE, "ns=1;i=3", "1:VT"), st = dataType("ns=1;i=4", "1:St"), en = dataType("ns=1;s=En", "1:En", "i=29");
        field(st, "a", "i=1"); field(st, "s", "i=12"); field(st, "e", "ns=1;s=En");
        Node o = under(OBJECT, "ns=1;i=10", "1:O"); o.refs.push_back(ref("i=40", "ns=1;i=2"));
        Node v = under(VARIABLE, "ns=1;s=v", "1:V", "ns=1;i=10", "ns=1;i=1"); v.refs.push_back(ref("i=40", "ns=1;i=3")); v.attrs = {{"DataType", "ns=1;i=4"}}; v.hasValue = true;
        v.value = {xo(elem("St", EV{elem("a", "true"), elem("s", "x"), elem("e", "1")}))};
        d.nodes = {v, o, st, en, vt, ot, rt};
        break;
    }
    case 1: {                                            // uses the first
        d.uris = {"u:b", "u:a"};
        Node rt = base(REFERENCETYPE, "ns=1;i=1", "1:Sub"); rt.refs[0].target = "ns=2;i=1";
        Node ot = base(OBJECTTYPE, "ns=1;i=2", "1:OT"); ot.refs[0].target = "ns=2;i=2";
        Node st = dataType("ns=1;i=4", "1:St2", "ns=2;i=4"); field(st, "in", "ns=2;i=4", true); field(st, "o", "ns=2;s=En", false, true);
        Node o = under(OBJECT, "ns=1;i=10", "1:O", "ns=2;i=10", "ns=1;i=1"); o.refs.push_back(ref("i=40", "ns=1;i=2")); o.refs.push_back(ref("i=47", "ns=2;s=v"));
        Node v = under(VARIABLE, "ns=1;s=v", "2:V", "ns=1;i=10", "ns=2;i=1"); v.refs.push_back(ref("i=40", "ns=2;i=3")); v.attrs = {{"DataType", "ns=1;i=4"}}; v.hasValue = true;
        v.value = {xo(elem("St2", EV{elem("a", "true"), elem("s", "y"), elem("e", "0"), elem("in", EV{elem("St", EV{elem("s", "inner")})}), elem("o", "2")}))};
        d.nodes = {o, st, v, ot, rt};
        break;
    }
    case 2: {                                            // uses both; adds to nodes that are there
        d.uris = {"u:a", "u:b", "u:c"};
        Node un = dataType("ns=3;i=4", "3:Un", "i=12756"); un.def.attrs = {{"IsUnion", "true"}}; field(un, "a", "ns=1;i=4"); field(un, "b", "ns=2;i=4", true);
        Node v = under(VARIABLE, "ns=3;i=11", "3:W", "ns=1;i=10", "ns=2;i=1"); v.attrs = {{"DataType", "ns=3;i=4"}}; v.hasValue = true;
        v.value = {xo(elem("Un", EV{elem("SwitchField", "2"), elem("b", EV{elem("St2", EV{elem("s", "z"), elem("o", "1")})})}))};
        Node o = under(OBJECT, "ns=1;i=10", "1:O"); o.refs.push_back(ref("i=40", "ns=1;i=2")); o.refs.push_back(ref("i=47", "ns=2;i=10")); o.refs.push_back(ref("ns=2;i=1", "ns=3;i=11"));
        d.nodes = {un, o, v};
        break;
    }
    case 3: {                                            // independent, same namespace and other nodes
        d.uris = {"u:a"};
        Node o = under(OBJECT, "ns=1;i=20", "1:P"), st = dataType("ns=1;i=24", "1:Own"); field(st, "d", "i=11");
        Node m = under(METHOD, "ns=1;i=21", "1:M", "ns=1;i=20", "i=47"), w = base(VIEW, "ns=1;i=22", "1:View");
        Node e = base(OBJECT, "ns=1;i=25", "Default Binary"); e.refs = {ref("i=38", "ns=1;i=24", false), ref("i=40", "i=76")};
        d.nodes = {m, o, st, e, w};
        break;
    }
    case 4: break;                                       // empty
    }
    return d;
}
static void histories() {
    int len = mc::by_tier(4, 5);
    std::vector<Step> s; bool have[5] = {};
    for(int i = 0; i < len; i++) {
        int k = mc::choose(11, "file");
        if(k == 10) break;
        if((k == 1 && !have[0]) || (k == 2 && !(have[0] && have[1]))) return;
        if(k < 5) { have[k] = true; s.push_back(Step(pool(k))); continue; }
        Doc c;
        c.uris = {"u:a", "u:b"};
        switch(k) {
        case 5: { Node a = under(OBJECT, "ns=1;i=70", "1:A", "ns=1;i=71", "i=47"), b = under(OBJECT, "ns=1;i=71", "1:B", "ns=1;i=70", "i=47"), t = dataType("ns=2;i=72", "1:T"); field(t, "x", "i=6"); c.nodes = {a, b, t}; s.push_back(Step(c)); break; }   // cyclic
        case 6: { Node a = under(OBJECT, "ns=1;i=70", "1:A"), t = dataType("ns=1;i=72", "1:T"); a.refs.push_back(ref("ns=2;i=777", "i=85")); field(t, "x", "i=6"); c.nodes = {t, a}; s.push_back(Step(c)); break; }       // unknown reference type
        case 7: { c.nodes = {under(OBJECT, "ns=1;i=70", "1:A")}; std::string x = xml(c); s.push_back(bad(x.substr(0, x.size() - 15))); break; }                             // not well-formed
        case 8: s.push_back(bad("")); break;             // no file
        case 9: s.push_back(bad(" \n")); break;
        }
    }
    history(s);
}
// nodes of every class loaded again and extended
static void again() {
    int c = mc::choose(NCLS, "class");
    Doc d; d.uris = {"u:a"};
    static const std::vector<std::string> ID = {"ns=1;i=1", "ns=1;s=x", "ns=1;b=AQID"};
    Node n = base(c, mc::pick(ID, "id"), "1:N");
    n.dn = txt("name", "en");
    int extra = mc::choose(4, "further references");
    if(extra == 1) n.refs.push_back(ref("i=47", "i=85", false));
    if(extra == 2) n.refs.push_back(ref("i=32", "i=2253"));
    Node k = under(OBJECT, "ns=1;i=2", "1:K", n.id, "i=47");
    if(extra == 3) { k.refs.erase(k.refs.begin()); n.refs.push_back(ref("i=47", "ns=1;i=2")); k.attrs.push_back({"ParentNodeId", n.id}); }
    d.nodes = {n}; if(mc::flag("child")) d.nodes.push_back(k); else if(extra == 3) return;
    Doc e = d; Node other = under(OBJECT, "ns=1;i=3", "1:L", n.id, "i=46");
    int what = mc::choose(5, "second file");
    if(what == 1) e.nodes = {other};
    if(what == 2) e.nodes.push_back(other);
    if(what == 3) { e.nodes[0].dn = txt("another"); e.nodes[0].refs.push_back(ref("i=33", "i=87")); e.nodes[0].refs.push_back(ref("i=47", other.id)); e.nodes.push_back(other); }
    if(what == 4) { e.nodes[0].refs = {e.nodes[0].refs[0]}; e.nodes[0].attrs.clear(); }
    std::vector<Step> s = {Step(d), Step(e)};
    int more = mc::choose(3, "then");
    if(more) s.push_back(Step(more == 1 ? d : e));
    history(s);
}
// numbers of data types in the files; types of the first and last of them used by the last file
static void counts() {
    static const std::vector<int> K = {0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001};
    int n = 2 + mc::choose(2, "files");
    std::vector<int> cnt;
    for(int i = 0; i + 1 < n; i++) cnt.push_back(n == 3 ? K[i ? mc::choose(mc::by_tier(4, 12), "types") : mc::choose(12, "types")] : mc::pick(K, "types"));
    mc::slow(60);
    std::vector<Step> s;
    std::vector<std::string> uris;
    for(int f = 0; f + 1 < n; f++) {
        uris.push_back(URI[f]);
        Doc d; d.uris = uris;
        std::string ns = "ns=" + std::to_string(f + 1) + ";i=";
        for(int i = 0; i < cnt[f]; i++) { Node t = dataType(ns + std::to_string(i + 1), "T" + std::to_string(i)); field(t, "a", "i=1"); field(t, "s", "i=12"); if(i % 7 == 3) field(t, "p", ns + std::to_string(i)); if(f && i == 0 && cnt[0]) field(t, "q", "ns=1;i=" + std::to_string(cnt[0])); d.nodes.push_back(t); }
        s.push_back(Step(d));
    }
    Doc d; d.uris = uris; d.uris.push_back("u:last");
    std::string ns = "ns=" + std::to_string(n) + ";i=";
    Node t = dataType(ns + "1", "T"); field(t, "b", "i=1");
    int k = 10;
    std::vector<Node> v;
    for(int f = 0; f + 1 < n; f++) for(int i : {1, cnt[f] / 2, cnt[f]}) if(i > 0 && i <= cnt[f]) {
        std::string id = "ns=" + std::to_string(f + 1) + ";i=" + std::to_string(i);
        field(t, "m" + std::to_string(k), id);
        Node x = base(VARIABLE, ns + std::to_string(k), "V" + std::to_string(k)); x.attrs.push_back({"DataType", id}); x.hasValue = true; x.value = {xo(elem("T", EV{elem("a", "true"), elem("s", "t" + std::to_string(k)), elem("p", EV{elem("s", "u")})}))};
        k++; v.push_back(x);
        Node sub = dataType(ns + std::to_string(k), "S" + std::to_string(k), id); field(sub, "z", "i=4"); k++; v.push_back(sub);
    }
    d.nodes = v; d.nodes.push_back(t);
    s.push_back(Step(d));
    history(s);
}
// many files
static void manyFiles() {
    static const std::vector<int> K = {1, 2, 5, 9, 10, 11, 20, 50, 101};
    int n = mc::pick(K, "files"), how = mc::choose(USES, "use");
    bool same = mc::flag("one namespace");
    mc::slow(60);
    std::vector<Step> s;
    for(int i = 0; i < n; i++) {
        Doc d; d.uris = {same ? "u:x" : "u:f" + std::to_string(i)};
        if(i && !same) d.uris.push_back("u:f" + std::to_string(i - 1));
        std::string last = (same ? "ns=1;i=" : "ns=2;i=") + std::to_string(100 + i - 1), id = "ns=1;i=" + std::to_string(100 + i), m = "m" + std::to_string(i);
        Node t = dataType(id, "1:T" + std::to_string(i), i && how == 1 && i % 40 ? last : "i=22");
        field(t, "b" + std::to_string(i), i % 2 ? "i=1" : "i=12");
        if(i && how > 1 && how < 5) { if(how != 2 || i % 10) field(t, m, last, how == 3, how == 4); }
        Node v = base(VARIABLE, "ns=1;i=" + std::to_string(1000 + i), "1:V"); v.attrs.push_back({"DataType", id}); v.hasValue = true; v.value = {xo(elem("T", EV{elem("b" + std::to_string(i), i % 2 ? "true" : "text")}))};
        Node o = under(OBJECT, "ns=1;i=" + std::to_string(2000 + i), "1:O", i ? (same ? "ns=1;i=" : "ns=2;i=") + std::to_string(2000 + i - 1) : "i=85", "i=47");
        d.nodes = {v, o, t};
        s.push_back(Step(d));
        if(how == 5 && i % 3 == 2) s.push_back(s[s.size() - 2]);
    }
    history(s);
}
// all ordered pairs of the repository's own documents, and each of them twice
static void repositoryDocuments() {
    auto &l = real::files(mc::by_tier(14000, 100000));
    int a = mc::choose((int)l.size(), "first file"), b = mc::choose((int)l.size(), "second file");
    std::vector<const real::File *> f = {&l[a], &l[b]};
    mc::input(l[a].name); mc::input(l[b].name);
    for(auto x : f) if(x->xml.find("ns=1;i=8002\" IsForward=\"true\">PropertyType") != std::string::npos) return;   // a subtype of HasTypeDefinition
    core::checkLeak([&] {
        back::Server s;
        mtypes::Reg reg;
        for(size_t i = 0; i < f.size(); i++) {
            back::Space before = s.snapshot();
            bool r = s.load(f[i]->xml, false, (int)i);
            back::Space after = s.snapshot();
            back::Expect e = back::apply(before, f[i]->doc, after, false, &reg);
            if(r != e.ok) { mc::fail(r ? "load-succeeds" : "load-fails", mc::fmt("%s: loadFile returned %d, expected %d (cyclic=%d unresolved=%d)", f[i]->name.c_str(), r, e.ok, e.cyclic, e.unresolved)); return; }
            if(!back::compare(after, e.after) || !reg.check(s.s)) return;
        }
        s.del();
    });
}
int main(int argc, char **argv) {
    mc::scenario("types", types);
    mc::scenario("three-files", threeFiles);
    mc::scenario("preset", preset);
    mc::scenario("histories", histories);
    mc::scenario("again", again);
    mc::scenario("counts", counts);
    mc::scenario("many-files", manyFiles);
    mc::scenario("repository-documents", repositoryDocuments);
    return mc::run(argc, argv, {"B12", "files are loaded after those they depend on; data types that the caller has registered stay his own and are in front of or behind those of the loader in the list; subtypes of unions are not judged; all ordered pairs of the documents in the repository"});
}
