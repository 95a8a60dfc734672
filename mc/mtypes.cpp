#include "mtypes.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <NodesetLoader/dataTypes.h>

using namespace model;
namespace mtypes {
static std::string S(const std::string &s) { return quote(s.c_str()); }
static unsigned up(unsigned n, unsigned a) { return (n + a - 1) / a * a; }
template <class T> static Type prim(const char *id, int kind, bool pf) { Type t; t.id = id; t.kind = kind; t.size = sizeof(T); t.align = alignof(T); t.pf = pf; return t; }
static bool layout(Reg &r, Type &t) {                // false: a member is missing
    bool un = t.kind == UA_DATATYPEKIND_UNION;
    unsigned off = 0, al = un ? 4 : 1, big = 0;
    for(auto &m : t.m) {
        unsigned a, s;
        if(m.arr) { a = 8; s = 16; t.pf = false; }
        else if(m.opt) { a = 8; s = 8; t.pf = false; }
        else {
            const Type *x = r.find(m.type);
            if(!x) return false;
            a = x->align; s = x->size; t.pf = t.pf && x->pf; t.judged = t.judged && x->judged;
        }
        al = std::max(al, a); big = std::max(big, s);
        if(un) continue;
        m.pad = up(off, a) - off;
        off = up(off, a) + s;
    }
    if(un) { unsigned o = up(4, al); for(auto &m : t.m) m.pad = o; off = o + big; }
    t.align = al; t.size = up(off, al);
    if(t.m.empty()) { t.size = 8; t.align = 8; }
    if(t.size > 65535 || t.m.size() > 255) t.judged = false;
    return true;
}
Reg::Reg() {
    auto P = [&](Type t) { types[t.id] = t; };
    P(prim<UA_Boolean>("0:i=1", UA_DATATYPEKIND_BOOLEAN, true)); P(prim<UA_SByte>("0:i=2", UA_DATATYPEKIND_SBYTE, true)); P(prim<UA_Byte>("0:i=3", UA_DATATYPEKIND_BYTE, true));
    P(prim<UA_Int16>("0:i=4", UA_DATATYPEKIND_INT16, true)); P(prim<UA_UInt16>("0:i=5", UA_DATATYPEKIND_UINT16, true)); P(prim<UA_Int32>("0:i=6", UA_DATATYPEKIND_INT32, true));
    P(prim<UA_UInt32>("0:i=7", UA_DATATYPEKIND_UINT32, true)); P(prim<UA_Int64>("0:i=8", UA_DATATYPEKIND_INT64, true)); P(prim<UA_UInt64>("0:i=9", UA_DATATYPEKIND_UINT64, true));
    P(prim<UA_Float>("0:i=10", UA_DATATYPEKIND_FLOAT, true)); P(prim<UA_Double>("0:i=11", UA_DATATYPEKIND_DOUBLE, true)); P(prim<UA_String>("0:i=12", UA_DATATYPEKIND_STRING, false));
    P(prim<UA_DateTime>("0:i=13", UA_DATATYPEKIND_DATETIME, true)); P(prim<UA_Guid>("0:i=14", UA_DATATYPEKIND_GUID, true)); P(prim<UA_ByteString>("0:i=15", UA_DATATYPEKIND_BYTESTRING, false));
    P(prim<UA_XmlElement>("0:i=16", UA_DATATYPEKIND_XMLELEMENT, false)); P(prim<UA_NodeId>("0:i=17", UA_DATATYPEKIND_NODEID, false)); P(prim<UA_ExpandedNodeId>("0:i=18", UA_DATATYPEKIND_EXPANDEDNODEID, false));
    P(prim<UA_StatusCode>("0:i=19", UA_DATATYPEKIND_STATUSCODE, true)); P(prim<UA_QualifiedName>("0:i=20", UA_DATATYPEKIND_QUALIFIEDNAME, false)); P(prim<UA_LocalizedText>("0:i=21", UA_DATATYPEKIND_LOCALIZEDTEXT, false));
    P(prim<UA_ExtensionObject>("0:i=22", UA_DATATYPEKIND_EXTENSIONOBJECT, false)); P(prim<UA_DataValue>("0:i=23", UA_DATATYPEKIND_DATAVALUE, false)); P(prim<UA_Variant>("0:i=24", UA_DATATYPEKIND_VARIANT, false));
    P(prim<UA_DiagnosticInfo>("0:i=25", UA_DATATYPEKIND_DIAGNOSTICINFO, false));
    P(prim<UA_DateTime>("0:i=294", UA_DATATYPEKIND_DATETIME, true)); P(prim<UA_Double>("0:i=290", UA_DATATYPEKIND_DOUBLE, true)); P(prim<UA_String>("0:i=295", UA_DATATYPEKIND_STRING, false));
    P(prim<UA_Int32>("0:i=257", UA_DATATYPEKIND_ENUM, true)); P(prim<UA_Int32>("0:i=510", UA_DATATYPEKIND_ENUM, true));
    auto ST = [&](const char *id, std::vector<Member> m) { Type t; t.id = id; t.kind = UA_DATATYPEKIND_STRUCTURE; t.m = m; layout(*this, t); types[id] = t; };
    ST("0:i=884", {{"Low", "0:i=11"}, {"High", "0:i=11"}});
    ST("0:i=887", {{"NamespaceUri", "0:i=12"}, {"UnitId", "0:i=6"}, {"DisplayName", "0:i=21"}, {"Description", "0:i=21"}});
    ST("0:i=7594", {{"Value", "0:i=8"}, {"DisplayName", "0:i=21"}, {"Description", "0:i=21"}});
    ST("0:i=296", {{"Name", "0:i=12"}, {"DataType", "0:i=17"}, {"ValueRank", "0:i=6"}, {"ArrayDimensions", "0:i=7", true}, {"Description", "0:i=21"}});
    ST("0:i=12755", {{"Value", "0:i=15"}, {"ValidBits", "0:i=15"}});
}
const Type *Reg::find(const std::string &id) const { auto it = types.find(id); return it == types.end() ? nullptr : &it->second; }
static bool ns0Base(const std::string &id) {         // the types every type is derived from in the end
    if(id == "0:i=12755") return true;
    return id.compare(0, 4, "0:i=") == 0 && atoi(id.c_str() + 4) <= 29;
}
static bool truth(const std::string *s) { return s && (*s == "true" || *s == "1"); }
void Reg::add(const Doc &d, const std::vector<XNode> &nodes, const std::vector<Bidi> &bidi, const back::Space &sp) {
    std::map<std::string, const XNode *> fresh;
    for(auto &n : nodes) if(n.cls == DATATYPE && !types.count(n.id) && !fresh.count(n.id)) fresh[n.id] = &n;
    auto super = [&](const std::string &id) -> std::string {
        auto f = fresh.find(id);
        if(f != fresh.end()) { for(auto &r : f->second->refs) if(!r.fwd && r.type == "0:i=45") return r.target; }
        for(auto &e : sp.refs) if(std::get<2>(e) == id && std::get<1>(e) == "0:i=45") return std::get<0>(e);
        return "";
    };
    auto base = [&](std::string id) {
        for(int i = 0; i < 1000 && !id.empty() && !ns0Base(id); i++) id = super(id);
        return id;
    };
    std::set<std::string> busy;
    std::function<void(const std::string &)> define = [&](const std::string &id) {
        auto f = fresh.find(id);
        if(f == fresh.end() || types.count(id)) return;
        const XNode &x = *f->second;
        const Node &n = d.nodes[x.index];
        busy.insert(id);
        Type t; t.id = id; t.name = x.bnName; t.custom = true;
        t.abstract = truth(attr(n.attrs, "IsAbstract"));
        std::string b = base(id);
        // the object that states it, else what the type states; never an encoding of another name
        auto other = [&](const std::string &e) { for(auto &k : nodes) if(k.cls == OBJECT && k.id == e && k.bnName != "Default Binary") return true; return false; };
        bool found = false;
        for(auto &e : bidi) if(e.source == id) { t.enc = e.target; found = true; break; }
        if(!found) {
            std::set<std::string> c;
            for(auto &r : x.refs) if(r.fwd && r.type == "0:i=38" && !other(r.target)) c.insert(r.target);
            if(c.size() == 1) t.enc = *c.begin(); else if(c.size() > 1) t.enc = "";
        }
        if(b == "0:i=29") { t.kind = UA_DATATYPEKIND_ENUM; t.size = 4; t.align = 4; t.enc = "0:i=0"; }
        else if(b == "0:i=22" || b == "0:i=12755") {
            bool un = n.def.present && truth(attr(n.def.attrs, "IsUnion"));
            t.kind = un ? UA_DATATYPEKIND_UNION : UA_DATATYPEKIND_STRUCTURE;
            std::string p = super(id);
            define(p);
            bool opt = false;
            if(p != "0:i=22" && p != "0:i=12756") if(const Type *pt = find(p)) {
                t.m = pt->m;
                if(pt->kind == UA_DATATYPEKIND_OPTSTRUCT) opt = true;
                if(!pt->judged || (!pt->m.empty() && (un || pt->kind == UA_DATATYPEKIND_UNION))) t.judged = false;
            }
            if(busy.count(p)) t.judged = false;
            if(b == "0:i=22") for(size_t i = 0; i < x.fieldTypes.size(); i++) {
                const Field &fd = n.def.fields[i];
                Member m;
                if(auto s = attr(fd.attrs, "Name")) m.name = *s;
                auto vr = attr(fd.attrs, "ValueRank");
                m.arr = vr && atoi(vr->c_str()) >= 0;
                m.opt = truth(attr(fd.attrs, "IsOptional"));
                if(m.opt) { opt = true; if(un) t.judged = false; }
                m.type = x.fieldTypes[i];
                bool own = fresh.count(m.type) != 0;
                bool abst = own ? truth(attr(d.nodes[fresh[m.type]->index].attrs, "IsAbstract")) : find(m.type) && find(m.type)->abstract;
                if((!own && !find(m.type)) || abst) m.type = "0:i=24";
                else if(own && !m.arr && !m.opt) {
                    if(busy.count(m.type)) { t.judged = false; m.type = "0:i=24"; }   // contains itself
                    else define(m.type);
                }
                t.m.push_back(m);
            }
            if(opt && !un) t.kind = UA_DATATYPEKIND_OPTSTRUCT;
            layout(*this, t);
        } else {
            const Type *bt = find(b);
            if(!bt) { bt = find("0:i=24"); if(b.empty()) t.judged = false; }
            t.kind = bt->kind; t.size = bt->size; t.align = bt->align; t.pf = bt->pf; t.enc = "";
        }
        busy.erase(id);
        types[id] = t;
        customs++;
    };
    for(auto &n : nodes) if(n.cls == DATATYPE) define(n.id);
}
static bool toId(const std::string &s, UA_NodeId *id) {  // "2:i=5"
    size_t c = s.find(':');
    std::string v = "ns=" + s.substr(0, c) + ";" + s.substr(c + 1);
    if(s[c + 1] == 'b') return false;
    if(s[c + 1] == 'g') { size_t g = v.find("g=") + 2; for(int k : {20, 16, 12, 8}) v.insert(g + k, "-"); }
    UA_String u; u.length = v.size(); u.data = (UA_Byte *)v.data();
    return UA_NodeId_parse(id, u) == UA_STATUSCODE_GOOD;
}
bool Reg::check(UA_Server *s, const std::string &px) const {
    size_t n = 0;
    for(const UA_DataTypeArray *a = UA_Server_getConfig(s)->customDataTypes; a; a = a->next) n += a->typesSize;
    if(n != customs) { mc::fail(px + "number-of-data-types", mc::fmt("%zu custom data types are registered, expected %zu", n, customs)); return false; }
    auto get = [&](const std::string &id) -> const UA_DataType * {
        UA_NodeId x; UA_NodeId_init(&x);
        if(!toId(id, &x)) return nullptr;
        const UA_DataType *t = id.compare(0, 2, "0:") == 0 ? UA_findDataType(&x) : nullptr;
        if(!t) t = NodesetLoader_getCustomDataType(s, &x);
        UA_NodeId_clear(&x);
        return t;
    };
    for(auto &k : types) if(k.second.custom) {
        const Type &t = k.second;
        UA_NodeId tmp; UA_NodeId_init(&tmp);
        if(!toId(t.id, &tmp)) continue;
        UA_NodeId_clear(&tmp);
        const UA_DataType *x = get(t.id);
        auto bad = [&](const char *key, const std::string &m) { mc::fail(px + key, "data type " + t.id + " " + t.name + ": " + m); return false; };
        if(!x) return bad("data-type-missing", "not registered");
        if(core::nid(&x->typeId) != t.id) return bad("data-type-id", "has the NodeId " + core::nid(&x->typeId));
        if(!x->typeName || t.name != x->typeName) return bad("data-type-name", "has the name " + quote(x->typeName));
        if(!t.enc.empty() && core::nid(&x->binaryEncodingId) != t.enc) return bad("data-type-encoding", "has the encoding " + core::nid(&x->binaryEncodingId) + " expected " + t.enc);
        if(!t.judged) continue;
        std::string have = mc::fmt("kind %u size %u pointerFree %u", x->typeKind, x->memSize, x->pointerFree), want = mc::fmt("kind %d size %u pointerFree %d", t.kind, t.size, t.pf);
        for(size_t i = 0; i < x->membersSize; i++) {
            const UA_DataTypeMember &m = x->members[i];
            have += "\n  " + quote(m.memberName) + " " + (m.memberType ? core::nid(&m.memberType->typeId) : std::string("none")) + mc::fmt(" array %d optional %d padding %u", m.isArray, m.isOptional, m.padding);
        }
        for(auto &m : t.m) want += "\n  " + S(m.name) + " " + m.type + mc::fmt(" array %d optional %d padding %u", m.arr, m.opt, m.pad);
        if(have != want) return bad("data-type-layout", have + "\nexpected\n" + want);
        for(size_t i = 0; i < x->membersSize; i++) if(const UA_DataType *mt = get(t.m[i].type)) if(mt != x->members[i].memberType) return bad("member-type-pointer", "the type of " + t.m[i].name + " is not the registered one");
        mc::state(have);
    }
    mc::validated(customs);
    return true;
}

// ---- values ----
struct Val {
    const Reg &r; const back::Space &sp; const Doc &d;
    static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
    static std::string no() { return "\x01"; }          // not judged: matches anything
    int ns(int i) { if(i == 0) return 0; if(i > 0 && i <= (int)d.uris.size()) for(size_t k = 0; k < sp.ns.size(); k++) if(sp.ns[k] == d.uris[i - 1]) return (int)k; return -1; }
    static const Elem *kid(const Elem &e, const char *n) { for(auto &k : e.kids) if(k.name == n) return &k; return nullptr; }
    std::string text(const Elem *e) {
        if(!e) return "";
        if(!e->kids.empty()) return no();
        if(!e->text.empty() && trim(e->text).empty()) return no();
        return e->text;
    }
    std::string str(const Elem *e) { std::string s = text(e); return s == no() ? s : S(s); }
    std::string integer(const std::string &raw, bool uns, int bits) {
        std::string s = trim(raw);
        if(s.empty()) return "0";
        bool neg = s[0] == '-';
        size_t i = s[0] == '-' || s[0] == '+' ? 1 : 0;
        if(i == s.size()) return no();
        unsigned long long v = 0;
        for(; i < s.size(); i++) {
            if(s[i] < '0' || s[i] > '9') return no();
            if(v > (~0ull - (s[i] - '0')) / 10) return no();
            v = v * 10 + (s[i] - '0');
        }
        unsigned long long max = uns ? (bits == 64 ? ~0ull : (1ull << bits) - 1) : (1ull << (bits - 1)) - (neg ? 0 : 1);
        if(v > max || (uns && neg && v)) return no();
        return (neg && v ? "-" : "") + std::to_string(v);
    }
    std::string real(const std::string &raw, bool flt) {
        std::string s = trim(raw);
        if(s.empty()) return "0";
        char *end; double v = strtod(s.c_str(), &end);
        if(*end) return no();
        if(flt) v = (float)v;
        return mc::fmt("%.17g", v);
    }
    std::string date(const std::string &raw) {       // xs:dateTime
        std::string s = trim(raw);
        if(s.empty()) return "0";
        int y, mo, dd, h, mi, se, n = 0;
        if(sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%n", &y, &mo, &dd, &h, &mi, &se, &n) != 6 || n != 19) return no();
        if(y < 1601 || mo < 1 || mo > 12 || dd < 1 || dd > 31 || h > 23 || mi > 59 || se > 59) return no();
        long long t = 0;
        static const int DM[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        auto leap = [](int k) { return (k % 4 == 0 && k % 100 != 0) || k % 400 == 0; };
        if(dd > DM[mo - 1] + (mo == 2 && leap(y))) return no();
        for(int k = 1601; k < y; k++) t += leap(k) ? 366 : 365;
        for(int k = 1; k < mo; k++) t += DM[k - 1] + (k == 2 && leap(y));
        t += dd - 1;
        t = ((t * 24 + h) * 60 + mi) * 60 + se;
        t *= 10000000;
        std::string rest = s.substr(n);
        if(!rest.empty() && rest[0] == '.') {
            size_t k = 1; long long f = 0, w = 1000000;
            if(k >= rest.size() || !isdigit((unsigned char)rest[k])) return no();
            for(; k < rest.size() && isdigit((unsigned char)rest[k]); k++) { f += (rest[k] - '0') * w; w /= 10; }
            t += f; rest = rest.substr(k);
        }
        if(!rest.empty() && rest != "Z") {
            int oh, om, m2 = 0;
            if((rest[0] != '+' && rest[0] != '-') || sscanf(rest.c_str() + 1, "%2d:%2d%n", &oh, &om, &m2) != 2 || m2 != 5 || rest.size() != 6 || oh > 14 || om > 59) return no();
            t -= (rest[0] == '-' ? -1 : 1) * (oh * 60 + om) * 60ll * 10000000;
        }
        return std::to_string(t);
    }
    std::string guid(const std::string &raw) {
        std::string s = trim(raw), h;
        if(s.empty()) return std::string(32, '0');
        if(s.size() != 36) return no();
        for(size_t i = 0; i < 36; i++) {
            bool dash = i == 8 || i == 13 || i == 18 || i == 23;
            if(dash != (s[i] == '-') || (!dash && !isxdigit((unsigned char)s[i]))) return no();
            if(!dash) h += (char)tolower(s[i]);
        }
        return h;
    }
    std::string nodeId(const std::string &raw) {
        if(raw.empty()) return "0:i=0";
        if(raw != trim(raw)) return no();
        NodeId id = parseId(raw);
        if(id.null() && raw != "i=0") return no();
        id.ns = ns(id.ns);
        return id.ns < 0 ? no() : id.str();
    }
    std::string array(const Type &t, const Elem &e, size_t *n = nullptr) {
        std::string o;
        if(n) *n = e.kids.size();
        if(e.kids.empty() && !trim(e.text).empty()) return no();
        for(size_t i = 0; i < e.kids.size(); i++) o += (i ? ";" : "") + scalar(t, e.kids[i]);
        return o;
    }
    std::string empty(const Type &t, int depth = 0) { if(depth > 50) return no(); Elem e; return scalar(t, e); }
    std::string scalar(const Type &t, const Elem &e) {
        if(!t.judged) return no();
        switch(t.kind) {
        case UA_DATATYPEKIND_BOOLEAN: { std::string s = trim(text(&e)); return s == "true" || s == "1" ? "true" : s == "false" || s == "0" || s.empty() ? "false" : no(); }
        case UA_DATATYPEKIND_SBYTE: return integer(text(&e), false, 8);
        case UA_DATATYPEKIND_BYTE: return integer(text(&e), true, 8);
        case UA_DATATYPEKIND_INT16: return integer(text(&e), false, 16);
        case UA_DATATYPEKIND_UINT16: return integer(text(&e), true, 16);
        case UA_DATATYPEKIND_INT32: return integer(text(&e), false, 32);
        case UA_DATATYPEKIND_UINT32: return integer(text(&e), true, 32);
        case UA_DATATYPEKIND_INT64: return integer(text(&e), false, 64);
        case UA_DATATYPEKIND_UINT64: return integer(text(&e), true, 64);
        case UA_DATATYPEKIND_FLOAT: return real(text(&e), true);
        case UA_DATATYPEKIND_DOUBLE: return real(text(&e), false);
        case UA_DATATYPEKIND_STRING: return str(&e);
        case UA_DATATYPEKIND_DATETIME: return date(text(&e));
        case UA_DATATYPEKIND_GUID: return e.kids.empty() && !trim(e.text).empty() ? no() : guid(text(kid(e, "String")));
        case UA_DATATYPEKIND_BYTESTRING: {
            std::string s = text(&e), o, c;
            for(char k : s) if(!strchr(" \t\r\n", k)) c += k;
            if(s == no()) return s;
            if(!unb64(c, o)) return "x";
            // unused bits of the last character must be 0
            size_t p = c.find('=');
            if(p != std::string::npos && p > 0) {
                static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                int v = (int)(strchr(A, c[p - 1]) - A);
                if(v & (c.size() - p == 2 ? 15 : 3)) return no();
            }
            return "x" + hex(o);
        }
        case UA_DATATYPEKIND_NODEID: return e.kids.empty() && !trim(e.text).empty() ? no() : nodeId(text(kid(e, "Identifier")));
        case UA_DATATYPEKIND_STATUSCODE: return e.kids.empty() && !trim(e.text).empty() ? no() : integer(text(kid(e, "Code")), true, 32);
        case UA_DATATYPEKIND_QUALIFIEDNAME: {
            if(e.kids.empty() && !trim(e.text).empty()) return no();
            std::string i = integer(text(kid(e, "NamespaceIndex")), true, 16);
            int x = i == no() ? -1 : ns(atoi(i.c_str()));
            return (x < 0 ? no() : std::to_string(x)) + ":" + str(kid(e, "Name"));
        }
        case UA_DATATYPEKIND_LOCALIZEDTEXT: return e.kids.empty() && !trim(e.text).empty() ? no() : str(kid(e, "Locale")) + "/" + str(kid(e, "Text"));
        case UA_DATATYPEKIND_ENUM: {
            std::string s = text(&e);
            size_t u = s.rfind('_');
            return integer(u == std::string::npos ? s : s.substr(u + 1), false, 32);
        }
        case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
            if(e.kids.empty() && !trim(e.text).empty()) return no();
            std::string o = "{";
            for(size_t i = 0; i < t.m.size(); i++) {
                const Member &m = t.m[i];
                const Elem *k = kid(e, m.name.c_str());
                const Type *mt = r.find(m.type);
                o += (i ? "," : "") + m.name + "=";
                if(!mt) return no();
                if(m.arr) o += "[" + (k ? array(*mt, *k) : std::string()) + "]";
                else if(m.opt) o += k ? "?" + scalar(*mt, *k) : std::string("~");
                else o += k ? scalar(*mt, *k) : empty(*mt);
            }
            return o + "}";
        }
        case UA_DATATYPEKIND_UNION: {
            if(e.kids.empty() && !trim(e.text).empty()) return no();
            const Elem *sw = kid(e, "SwitchField");
            std::string n = integer(text(sw), true, 32);
            if(n == no()) return n;
            unsigned long i = strtoul(n.c_str(), nullptr, 10);
            if(i == 0 || i > t.m.size()) return "<none>";
            const Member &m = t.m[i - 1];
            const Elem *k = kid(e, m.name.c_str());
            const Type *mt = r.find(m.type);
            if(!k || !mt) return no();
            return "<" + m.name + "=" + (m.arr ? "[" + array(*mt, *k) + "]" : scalar(*mt, *k)) + ">";
        }
        case UA_DATATYPEKIND_XMLELEMENT: case UA_DATATYPEKIND_EXPANDEDNODEID: case UA_DATATYPEKIND_EXTENSIONOBJECT: case UA_DATATYPEKIND_DATAVALUE: case UA_DATATYPEKIND_VARIANT: case UA_DATATYPEKIND_DIAGNOSTICINFO:
            // not supported; empty members are empty
            if(e.kids.empty() && e.text.empty()) switch(t.kind) {
            case UA_DATATYPEKIND_XMLELEMENT: return "\"\""; case UA_DATATYPEKIND_EXPANDEDNODEID: return "0:i=0|\"\"|0"; case UA_DATATYPEKIND_EXTENSIONOBJECT: return "EO none"; case UA_DATATYPEKIND_VARIANT: return "(none)";
            }
            return no();
        default: return no();
        }
    }
};
std::string Reg::value(const back::Space &sp, const Doc &d, const Node &n, const XNode &x) const {
    if(!n.hasValue || n.value.empty()) return "none";
    const Elem &e = n.value[0];
    // the type: namespace 0, imported, or the next known supertype in the server
    std::string id = x.dataType;
    for(int i = 0; i < 1000 && !find(id); i++) {
        std::string p;
        for(auto &r : sp.refs) if(std::get<2>(r) == id && std::get<1>(r) == "0:i=45") { p = std::get<0>(r); break; }
        id = p;
        if(id.empty()) return "?";
    }
    const Type &t = *find(id);
    Val v{*this, sp, d};
    auto unsup = [](const Type &t) { switch(t.kind) { case UA_DATATYPEKIND_XMLELEMENT: case UA_DATATYPEKIND_EXPANDEDNODEID: case UA_DATATYPEKIND_EXTENSIONOBJECT: case UA_DATATYPEKIND_DATAVALUE: case UA_DATATYPEKIND_VARIANT: case UA_DATATYPEKIND_DIAGNOSTICINFO: return true; } return t.abstract; };
    if(unsup(t)) return "?";
    bool str = t.kind == UA_DATATYPEKIND_STRUCTURE || t.kind == UA_DATATYPEKIND_OPTSTRUCT || t.kind == UA_DATATYPEKIND_UNION;
    std::string o;
    if(e.name.compare(0, 6, "ListOf") == 0) {
        Elem l = e;
        if(!l.kids.empty() && l.kids[0].name == "ExtensionObject") {
            if(!str) return "?";
            l.kids.clear();
            for(auto &k : e.kids) { const Elem *b = Val::kid(k, "Body"); if(!b || b->kids.empty()) return "?"; l.kids.push_back(b->kids[0]); }
        } else if(str && !l.kids.empty()) return "?";
        if(l.kids.empty()) return "none";
        o = id + "[" + std::to_string(l.kids.size()) + "] " + v.array(t, l);
    } else if(e.name == "ExtensionObject") {
        if(!str) return "?";
        const Elem *b = Val::kid(e, "Body");
        if(!b || b->kids.empty()) return "none";
        o = id + " " + v.scalar(t, b->kids[0]);
    } else {
        if(str) return "?";
        o = id + " " + v.scalar(t, e);
    }
    return o;
}
}  // namespace mtypes
