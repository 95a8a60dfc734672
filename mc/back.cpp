#include "back.hpp"
#include "mtypes.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>

using namespace model;
extern "C" void shim_enter(void) { mc::push_out(); }
extern "C" void shim_leave(void) { mc::pop_out(); }

namespace back {
static std::string S(const UA_String &s) { return quote(std::string((const char *)s.data, s.length).c_str()); }
static std::string L(const UA_LocalizedText &t) { return S(t.locale) + "/" + S(t.text); }
static int clsOf(UA_NodeClass c) {
    switch(c) {
    case UA_NODECLASS_OBJECT: return OBJECT; case UA_NODECLASS_VARIABLE: return VARIABLE; case UA_NODECLASS_METHOD: return METHOD;
    case UA_NODECLASS_OBJECTTYPE: return OBJECTTYPE; case UA_NODECLASS_VARIABLETYPE: return VARIABLETYPE; case UA_NODECLASS_REFERENCETYPE: return REFERENCETYPE;
    case UA_NODECLASS_DATATYPE: return DATATYPE; case UA_NODECLASS_VIEW: return VIEW; default: return -1;
    }
}
static std::string dimsOf(size_t n, const UA_UInt32 *d) {
    std::string r;
    for(size_t i = 0; i < n; i++) r += (i ? "," : "") + std::to_string(d[i]);
    return r;
}
static std::string num(double d) { return mc::fmt("%.17g", d); }

// ---- values in the server, read through the registered data types ----
std::string dumpData(const void *p, const UA_DataType *t, int depth) {
    if(depth > 100) return "too deep";
    switch(t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: { unsigned char c = *(const unsigned char *)p; return c == 0 ? "false" : c == 1 ? "true" : "bad bool"; }
    case UA_DATATYPEKIND_SBYTE: return std::to_string(*(const UA_SByte *)p);
    case UA_DATATYPEKIND_BYTE: return std::to_string(*(const UA_Byte *)p);
    case UA_DATATYPEKIND_INT16: return std::to_string(*(const UA_Int16 *)p);
    case UA_DATATYPEKIND_UINT16: return std::to_string(*(const UA_UInt16 *)p);
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: return std::to_string(*(const UA_Int32 *)p);
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: return std::to_string(*(const UA_UInt32 *)p);
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: return std::to_string(*(const UA_Int64 *)p);
    case UA_DATATYPEKIND_UINT64: return std::to_string(*(const UA_UInt64 *)p);
    case UA_DATATYPEKIND_FLOAT: return num(*(const UA_Float *)p);
    case UA_DATATYPEKIND_DOUBLE: return num(*(const UA_Double *)p);
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_XMLELEMENT: return S(*(const UA_String *)p);
    case UA_DATATYPEKIND_BYTESTRING: { auto s = (const UA_ByteString *)p; return "x" + hex(std::string((const char *)s->data, s->length)); }
    case UA_DATATYPEKIND_GUID: { auto g = (const UA_Guid *)p; std::string r = mc::fmt("%08x%04x%04x", g->data1, g->data2, g->data3); return r + hex(std::string((const char *)g->data4, 8)); }
    case UA_DATATYPEKIND_NODEID: return core::nid((const UA_NodeId *)p);
    case UA_DATATYPEKIND_EXPANDEDNODEID: { auto e = (const UA_ExpandedNodeId *)p; return core::nid(&e->nodeId) + "|" + S(e->namespaceUri) + "|" + std::to_string(e->serverIndex); }
    case UA_DATATYPEKIND_QUALIFIEDNAME: { auto q = (const UA_QualifiedName *)p; return std::to_string(q->namespaceIndex) + ":" + S(q->name); }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: return L(*(const UA_LocalizedText *)p);
    case UA_DATATYPEKIND_VARIANT: return "(" + dumpVariant(*(const UA_Variant *)p) + ")";
    case UA_DATATYPEKIND_EXTENSIONOBJECT: {
        auto e = (const UA_ExtensionObject *)p;
        if(e->encoding == UA_EXTENSIONOBJECT_ENCODED_NOBODY) return "EO none";
        if(e->encoding >= UA_EXTENSIONOBJECT_DECODED) return "EO " + core::nid(&e->content.decoded.type->typeId) + " " + dumpData(e->content.decoded.data, e->content.decoded.type, depth + 1);
        return "EO encoded";
    }
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        std::string r = "{";
        uintptr_t a = (uintptr_t)p;
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember &m = t->members[i];
            a += m.padding;
            r += (i ? "," : "") + std::string(m.memberName ? m.memberName : "~") + "=";
            if(m.isArray) {
                size_t n = *(size_t *)a; a += sizeof(size_t);
                const char *d = *(const char **)a; a += sizeof(void *);
                if(n == 0) r += "[]";
                else { r += "["; for(size_t k = 0; k < n; k++) r += (k ? ";" : "") + dumpData(d + k * m.memberType->memSize, m.memberType, depth + 1); r += "]"; }
            } else if(m.isOptional) {
                const void *d = *(const void **)a; a += sizeof(void *);
                r += d ? "?" + dumpData(d, m.memberType, depth + 1) : "~";
            } else { r += dumpData((const void *)a, m.memberType, depth + 1); a += m.memberType->memSize; }
        }
        return r + "}";
    }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sw = *(const UA_UInt32 *)p;
        if(sw == 0) return "<none>";
        if(sw > t->membersSize) return "<bad switch " + std::to_string(sw) + ">";
        const UA_DataTypeMember &m = t->members[sw - 1];
        uintptr_t a = (uintptr_t)p + m.padding;
        std::string r = "<" + std::string(m.memberName ? m.memberName : "~") + "=";
        if(m.isArray) {
            size_t n = *(size_t *)a;
            const char *d = *(const char **)(a + sizeof(size_t));
            r += "["; for(size_t k = 0; k < n; k++) r += (k ? ";" : "") + dumpData(d + k * m.memberType->memSize, m.memberType, depth + 1); r += "]";
        } else r += dumpData((const void *)a, m.memberType, depth + 1);
        return r + ">";
    }
    default: return mc::fmt("kind %u", t->typeKind);
    }
}
std::string dumpVariant(const UA_Variant &v) {
    if(!v.type) return "none";
    std::string r = core::nid(&v.type->typeId);
    if(v.arrayLength == 0 && v.data > UA_EMPTY_ARRAY_SENTINEL) return r + " " + dumpData(v.data, v.type);
    if(v.arrayLength == 0) return "none";                 // an empty array and no value are not distinguished
    r += "[" + std::to_string(v.arrayLength) + "] ";
    for(size_t i = 0; i < v.arrayLength; i++) r += (i ? ";" : "") + dumpData((const char *)v.data + i * v.type->memSize, v.type);
    if(v.arrayDimensionsSize) r += " dims " + dimsOf(v.arrayDimensionsSize, v.arrayDimensions);
    return r;
}

// ---- server ----
Server::Server() { core::extReset(); mc::OutLib o; s = UA_Server_new(); }
Server::~Server() { if(s) del(); }
void Server::reverseBrowse(bool on) { s->reverseBrowse = on; }
bool Server::loadPath(const char *path, bool ext) {
    mc::InLib i;
    bool r = NodesetLoader_loadFile(s, path, ext ? core::extInterface() : nullptr);
    { mc::OutLib o; mc::note("  loadFile -> %d", r); if(mc::replaying()) { for(auto &l : s->log) mc::note("    log[%d]: %s", l.first, l.second.c_str()); } }
    return r;
}
bool Server::load(const std::string &x, bool ext, int slot) {
    mc::note("--- file %d:\n%s---", slot, x.c_str());
    std::string p = core::file(x, slot);
    return loadPath(p.c_str(), ext);
}
int Server::errors() const { int n = 0; for(auto &l : s->log) n += l.first >= UA_LOGLEVEL_ERROR; return n; }
void Server::del() {
    const UA_DataTypeArray *t = s->config.customDataTypes;
    UA_Server_delete(s);
    s = nullptr;
    mc::InLib i;
    NodesetLoader_cleanupCustomDataTypes(t);
}
Space Server::snapshot(bool values) const {
    Space sp;
    sp.ns = s->namespaces;
    for(const UA_DataTypeArray *t = s->config.customDataTypes; t; t = t->next) sp.types += t->typesSize;
    for(auto &k : s->nodes) {
        const ShimNode *n = k.second;
        SNode x;
        x.cls = clsOf(n->cls);
        auto *c = (const UA_ObjectAttributes *)n->attr;   // the first members are common to all
        std::string a = "bn=" + std::to_string(n->bn.namespaceIndex) + ":" + S(n->bn.name) + " dn=" + L(c->displayName) + " desc=" + L(c->description);
        switch(x.cls) {
        case OBJECT: a += mc::fmt(" en=%u", c->eventNotifier); break;
        case VARIABLE: {
            auto v = (const UA_VariableAttributes *)n->attr;
            a += " dt=" + core::nid(&v->dataType) + mc::fmt(" vr=%d al=%u ual=%u hist=%d msi=", v->valueRank, v->accessLevel, v->userAccessLevel, v->historizing) + num(v->minimumSamplingInterval);
            x.dims = dimsOf(v->arrayDimensionsSize, v->arrayDimensions);
            if(values) x.value = dumpVariant(v->value);
            break;
        }
        case METHOD: { auto v = (const UA_MethodAttributes *)n->attr; a += mc::fmt(" ex=%d uex=%d", v->executable, v->userExecutable); break; }
        case OBJECTTYPE: { auto v = (const UA_ObjectTypeAttributes *)n->attr; a += mc::fmt(" ia=%d", v->isAbstract); x.abstract = v->isAbstract; break; }
        case VARIABLETYPE: {
            auto v = (const UA_VariableTypeAttributes *)n->attr;
            a += " dt=" + core::nid(&v->dataType) + mc::fmt(" vr=%d ia=%d", v->valueRank, v->isAbstract); x.abstract = v->isAbstract;
            x.dims = dimsOf(v->arrayDimensionsSize, v->arrayDimensions);
            if(values) x.value = dumpVariant(v->value);
            break;
        }
        case REFERENCETYPE: { auto v = (const UA_ReferenceTypeAttributes *)n->attr; a += mc::fmt(" ia=%d sym=%d inv=", v->isAbstract, v->symmetric) + L(v->inverseName); x.abstract = v->isAbstract; break; }
        case DATATYPE: { auto v = (const UA_DataTypeAttributes *)n->attr; a += mc::fmt(" ia=%d", v->isAbstract); x.abstract = v->isAbstract; break; }
        case VIEW: { auto v = (const UA_ViewAttributes *)n->attr; a += mc::fmt(" cnl=%d en=%u", v->containsNoLoops, v->eventNotifier); break; }
        }
        x.attrs = a;
        x.ctx = core::extLog(n->ctx);
        sp.nodes[k.first] = x;
        for(auto &r : n->out) sp.refs.insert(Edge(k.first, r.first, r.second));
    }
    return sp;
}
bool Space::tree(const std::string &leaf, const std::string &root) const {
    std::set<std::string> seen; std::vector<std::string> st{leaf};
    while(!st.empty()) {
        std::string x = st.back(); st.pop_back();
        if(x == root) return true;
        if(!seen.insert(x).second) continue;
        for(auto it = refs.begin(); it != refs.end(); ++it) if(std::get<2>(*it) == x && std::get<1>(*it) == "0:i=45") st.push_back(std::get<0>(*it));
    }
    return false;
}

// ---- model ----
static bool isTrue(const std::string *s, bool def = false) {
    if(!s) return def;
    std::string t = *s;
    size_t a = t.find_first_not_of(" \t\n\r"), b = t.find_last_not_of(" \t\n\r");
    t = a == std::string::npos ? "" : t.substr(a, b - a + 1);
    return t == "true" || t == "1";
}
static std::string expectedAttrs(const Node &n, const XNode &x, SNode &out) {
    auto Q = [](const std::string &s) { return quote(s.c_str()); };
    auto T = [&](const Txt &t) { return t.present ? Q(t.hasLocale ? t.locale : "") + "/" + Q(t.hasText ? t.text : "") : std::string("\"\"/\"\""); };
    auto A = [&](const char *k, const char *d) { const std::string *v = attr(n.attrs, k); return v ? *v : std::string(d); };
    auto I = [&](const char *k, const char *d) { return std::to_string(strtoll(A(k, d).c_str(), nullptr, 10)); };
    auto B = [&](const char *k, bool d) { return std::to_string(isTrue(attr(n.attrs, k), d)); };
    std::string a = "bn=" + std::to_string(x.bnNs) + ":" + Q(x.bnName) + " dn=" + T(n.dn) + " desc=" + T(n.desc);
    out.abstract = isTrue(attr(n.attrs, "IsAbstract"));
    auto dims = [&](int vr) {
        const std::string *d = attr(n.attrs, "ArrayDimensions");
        if(!d || d->empty()) { out.dims = vr == 1 || n.hasValue || (n.cls == VARIABLETYPE && vr >= 0) ? "*" : ""; return; }
        std::string r;
        for(size_t p = 0; p <= d->size();) {
            size_t c = d->find(',', p); if(c == std::string::npos) c = d->size();
            r += (p ? "," : "") + std::to_string(strtoul(d->substr(p, c - p).c_str(), nullptr, 10));
            p = c + 1;
        }
        out.dims = r;
    };
    switch(n.cls) {
    case OBJECT: a += " en=" + I("EventNotifier", "0"); break;
    case VARIABLE:
        a += " dt=" + x.dataType + " vr=" + I("ValueRank", "-1") + " al=" + I("AccessLevel", "1") + " ual=" + I("UserAccessLevel", "1") + " hist=" + B("Historizing", false) + " msi=" + num(atof(A("MinimumSamplingInterval", "-1").c_str()));
        dims(atoi(A("ValueRank", "-1").c_str()));
        break;
    case METHOD: a += " ex=" + B("Executable", true) + " uex=" + B("UserExecutable", true); break;
    case OBJECTTYPE: case DATATYPE: a += " ia=" + B("IsAbstract", false); break;
    case VARIABLETYPE: a += " dt=" + x.dataType + " vr=" + I("ValueRank", "-1") + " ia=" + B("IsAbstract", false); dims(atoi(A("ValueRank", "-1").c_str())); break;
    case REFERENCETYPE: a += " ia=" + B("IsAbstract", false) + " sym=" + B("Symmetric", false) + " inv=" + T(n.inv); break;
    case VIEW: a += " cnl=" + B("ContainsNoLoops", false) + " en=" + I("EventNotifier", "0"); break;
    }
    return a;
}
Expect apply(const Space &before, const Doc &d, const Space &actual, bool ext, mtypes::Reg *reg) {
    Expect e; e.after = before; e.cyclic = e.unresolved = false;
    Space &sp = e.after;
    sp.alts.clear();
    Oracle o; o.withExtensions = ext;
    o.import(d, [&](const std::string &u) {
        for(size_t i = 0; i < sp.ns.size(); i++) if(sp.ns[i] == u) return (int)i;
        sp.ns.push_back(u); return (int)sp.ns.size() - 1;
    });
    std::set<std::string> hier, fileTypes;
    for(auto &n : o.nodes) if(n.cls == REFERENCETYPE) fileTypes.insert(n.id);
    std::map<std::string, bool> memo;
    auto isH = [&](const std::string &t) {
        if(hier.count(t)) return true;
        auto it = memo.find(t);
        return it != memo.end() ? it->second : (memo[t] = before.tree(t, "0:i=33"));
    };
    for(bool ch = true; ch;) {
        ch = false;
        for(auto &n : o.nodes) if(n.cls == REFERENCETYPE && !isH(n.id))
            for(auto &r : n.refs) if(!r.fwd && r.type == "0:i=45" && isH(r.target)) { hier.insert(n.id); ch = true; }
    }
    std::vector<std::pair<std::string, std::string>> edges;
    for(auto &n : o.nodes) {
        bool any = false;
        for(auto &r : n.refs) {
            if(!fileTypes.count(r.type) && !before.tree(r.type, "0:i=31")) e.unresolved = true;
            if((n.cls == OBJECT || n.cls == VARIABLE) && r.type == "0:i=40") continue;
            if(isH(r.type)) { any = true; if(r.target != n.id) edges.push_back(r.fwd ? std::make_pair(n.id, r.target) : std::make_pair(r.target, n.id)); }
        }
        if(!any && !n.parent.empty() && n.parent != n.id) edges.push_back({n.parent, n.id});
    }
    std::map<std::string, std::vector<std::string>> adj; std::map<std::string, int> indeg;
    for(auto &x : edges) { adj[x.first].push_back(x.second); indeg[x.second]++; indeg[x.first] += 0; }
    std::vector<std::string> q; size_t done = 0;
    for(auto &k : indeg) if(!k.second) q.push_back(k.first);
    while(!q.empty()) { auto k = q.back(); q.pop_back(); done++; for(auto &t : adj[k]) if(--indeg[t] == 0) q.push_back(t); }
    e.cyclic = done != indeg.size();
    e.ok = !e.cyclic && !e.unresolved;
    if(!e.ok) { e.after.nodes = before.nodes; e.after.refs = before.refs; return e; }
    // nodes
    auto isType = [](int c) { return c == OBJECTTYPE || c == VARIABLETYPE || c == DATATYPE || c == REFERENCETYPE; };
    std::vector<int> state(o.nodes.size(), 0);           // 1 new in the server, 2 was there
    for(size_t i = 0; i < o.nodes.size(); i++) if(before.nodes.count(o.nodes[i].id)) state[i] = 2;
    auto refTypeOk = [&](const std::string &t) { auto it = sp.nodes.find(t); return it != sp.nodes.end() && it->second.cls == REFERENCETYPE && !it->second.abstract && isH(t); };
    // a node must be added if every parent candidate and its type are fine, and may be if the server took it
    auto must = [&](const XNode &n) {
        std::vector<XRef> inv;
        for(auto &r : n.refs) if(!r.fwd && isH(r.type) && !((n.cls == OBJECT || n.cls == VARIABLE) && r.type == "0:i=40")) inv.push_back(r);
        auto parentOk = [&](const std::string &p) { auto it = sp.nodes.find(p); return p != n.id && it != sp.nodes.end() && (!isType(n.cls) || it->second.cls == n.cls); };
        bool some = false;
        if(isType(n.cls)) {
            for(auto &r : inv) if(r.type == "0:i=45") { some = true; if(!parentOk(r.target)) return false; }
            if(!some) return false;
        } else {
            for(auto &r : inv) { some = true; if(!parentOk(r.target) || !refTypeOk(r.type)) return false; }
            if(!n.parent.empty()) { some = true; if(!parentOk(n.parent)) return false; }
            if(!some && n.cls != OBJECT && n.cls != VARIABLE) return false;
        }
        for(auto &r : n.refs) if((n.cls == OBJECT || n.cls == VARIABLE) && r.fwd && r.type == "0:i=40") {
            auto it = sp.nodes.find(r.target);
            if(it == sp.nodes.end() || it->second.cls != (n.cls == OBJECT ? OBJECTTYPE : VARIABLETYPE)) return false;
        }
        return true;
    };
    auto add = [&](size_t i) {
        const XNode &n = o.nodes[i];
        SNode x; x.cls = n.cls;
        x.attrs = expectedAttrs(d.nodes[n.index], n, x);
        x.ctx = n.ext;
        sp.nodes[n.id] = x;
        state[i] = 1;
        bool td = false;
        for(auto &r : n.refs) if(r.fwd && r.type == "0:i=40") td = true;
        if(!td && (n.cls == OBJECT || n.cls == VARIABLE)) sp.refs.insert(Edge(n.id, "0:i=40", n.cls == OBJECT ? "0:i=58" : "0:i=63"));
        // the server knows the types as soon as they are there
        for(auto &r : n.refs) if(!r.fwd && r.type == "0:i=45") sp.refs.insert(Edge(r.target, r.type, n.id));
    };
    for(bool ch = true; ch;) {
        ch = false;
        for(size_t i = 0; i < o.nodes.size(); i++) if(!state[i] && must(o.nodes[i])) { add(i); ch = true; }
        if(!ch) for(size_t i = 0; i < o.nodes.size(); i++) if(!state[i] && actual.nodes.count(o.nodes[i].id)) { add(i); ch = true; break; }
    }
    // references
    for(auto it = sp.refs.begin(); it != sp.refs.end();) { if(sp.nodes.count(std::get<0>(*it)) && sp.nodes.count(std::get<2>(*it))) ++it; else it = sp.refs.erase(it); }
    for(size_t i = 0; i < o.nodes.size(); i++) {
        const XNode &n = o.nodes[i];
        if(!sp.nodes.count(n.id)) continue;
        bool own = false;
        for(auto &r : n.refs) {
            if(!r.fwd && r.target == n.parent && isH(r.type)) own = true;
            auto t = sp.nodes.find(r.type);
            if(!sp.nodes.count(r.target) || t == sp.nodes.end() || t->second.cls != REFERENCETYPE) continue;
            if(state[i] == 2 && (n.cls == OBJECT || n.cls == VARIABLE) && r.type == "0:i=40") continue;   // the type of a node that is there does not change
            sp.refs.insert(r.fwd ? Edge(n.id, r.type, r.target) : Edge(r.target, r.type, n.id));
        }
        if(!n.parent.empty() && !own && sp.nodes.count(n.parent)) sp.alts.push_back({n.parent, n.id});
    }
    // data types and values
    if(reg) reg->add(d, o.nodes, o.bidi, sp);
    for(size_t i = 0; i < o.nodes.size(); i++) if(state[i] == 1 && o.nodes[i].cls == VARIABLE) {
        const Node &n = d.nodes[o.nodes[i].index];
        sp.nodes[o.nodes[i].id].value = reg ? reg->value(sp, d, n, o.nodes[i]) : n.hasValue ? "?" : "none";
    }
    return e;
}
static std::string show(const Edge &e) { return std::get<0>(e) + " -" + std::get<1>(e) + "-> " + std::get<2>(e); }
// expected values: "?" anything, \x01 any part
static bool matches(const std::string &v, const std::string &p) {
    if(p == "?") return true;
    size_t at = 0, from = 0;
    for(size_t w; (w = p.find('\x01', from)) != std::string::npos; from = w + 1) {
        std::string piece = p.substr(from, w - from);
        size_t f = from == 0 ? (v.compare(0, piece.size(), piece) == 0 ? 0 : std::string::npos) : v.find(piece, at);
        if(f == std::string::npos) return false;
        at = f + piece.size();
    }
    std::string last = p.substr(from);
    if(from == 0) return v == p;
    return v.size() >= at + last.size() && v.compare(v.size() - last.size(), last.size(), last) == 0;
}
bool compare(const Space &a, const Space &x, const std::string &px) {
    if(a.ns != x.ns) { std::string m; for(auto &s : a.ns) m += s + " "; m += "expected "; for(auto &s : x.ns) m += s + " "; mc::fail(px + "namespaces", m); return false; }
    for(auto &n : x.nodes) {
        auto it = a.nodes.find(n.first);
        if(it == a.nodes.end()) { mc::fail(px + "node-missing", "not in the server: " + n.first + " " + n.second.attrs); return false; }
        const SNode &s = it->second, &w = n.second;
        if(s.cls != w.cls || s.attrs != w.attrs) { mc::fail(px + "attributes-differ", "in the server: " + n.first + " " + CLS_ELEM[s.cls] + " " + s.attrs + "\nexpected: " + CLS_ELEM[w.cls] + " " + w.attrs); return false; }
        if(w.dims != "*" && s.dims != w.dims) { mc::fail(px + "array-dimensions", n.first + " has array dimensions [" + s.dims + "] expected [" + w.dims + "]"); return false; }
        if(s.ctx != w.ctx) { mc::fail(px + "node-context", n.first + " has context " + s.ctx + " expected " + w.ctx); return false; }
        if(!matches(s.value, w.value)) { mc::fail(px + "value-differs", n.first + " has the value\n" + s.value + "\nexpected\n" + w.value); return false; }
    }
    for(auto &n : a.nodes) if(!x.nodes.count(n.first)) { mc::fail(px + "extra-node", "in the server but in no file: " + n.first + " " + n.second.attrs); return false; }
    for(auto &r : x.refs) if(!a.refs.count(r)) { mc::fail(px + "reference-missing", "not in the server: " + show(r)); return false; }
    std::vector<bool> used(x.alts.size(), false);
    for(auto &r : a.refs) if(!x.refs.count(r)) {
        bool ok = false;
        for(size_t i = 0; i < x.alts.size() && !ok; i++) if(!used[i] && x.alts[i].a == std::get<0>(r) && x.alts[i].b == std::get<2>(r)) ok = used[i] = true;
        if(!ok) { mc::fail(px + "extra-reference", "in the server but not stated: " + show(r)); return false; }
    }
    std::string st;
    for(auto &n : a.nodes) st += n.first + n.second.attrs + n.second.value + n.second.dims;
    for(auto &r : a.refs) st += show(r);
    mc::state(st);
    mc::validated();
    return true;
}
bool untouched(const Space &b, const Space &a, const std::string &px) {
    for(auto &n : a.nodes) if(!b.nodes.count(n.first)) { mc::fail(px + "failed-load-adds-node", "after a failed load the server has the node " + n.first); return false; }
    for(auto &n : b.nodes) {
        auto it = a.nodes.find(n.first);
        if(it == a.nodes.end()) { mc::fail(px + "failed-load-removes-node", "after a failed load the server lacks " + n.first); return false; }
        if(it->second.attrs != n.second.attrs || it->second.value != n.second.value || it->second.ctx != n.second.ctx) { mc::fail(px + "failed-load-changes-node", n.first); return false; }
    }
    for(auto &r : a.refs) if(!b.refs.count(r)) { mc::fail(px + "failed-load-adds-reference", show(r)); return false; }
    for(auto &r : b.refs) if(!a.refs.count(r)) { mc::fail(px + "failed-load-removes-reference", show(r)); return false; }
    if(a.types != b.types) { mc::fail(px + "failed-load-adds-data-type", mc::fmt("%zu custom data types before, %zu after the failed load", b.types, a.types)); return false; }
    for(size_t i = 0; i < b.ns.size(); i++) if(i >= a.ns.size() || a.ns[i] != b.ns[i]) { mc::fail(px + "failed-load-changes-namespaces", b.ns[i]); return false; }
    mc::validated();
    return true;
}
void full(const std::vector<Doc> &docs, bool ext, const std::vector<std::string> &preNs) {
    core::checkLeak([&] {
        Server s;
        mtypes::Reg reg;
        for(auto &u : preNs) UA_Server_addNamespace(s.s, u.c_str());
        for(size_t i = 0; i < docs.size(); i++) {
            std::string x = xml(docs[i]);
            if(mc::want_sample()) mc::sample(x);
            Space before = s.snapshot();
            int errs = s.errors();
            bool r = s.load(x, ext, (int)i);
            Space after = s.snapshot();
            Expect e = apply(before, docs[i], after, ext, &reg);
            if(r != e.ok) { mc::fail(r ? "load-succeeds" : "load-fails", mc::fmt("loadFile returned %d, expected %d (cyclic=%d unresolved=%d)", r, e.ok, e.cyclic, e.unresolved)); return; }
            if(!r && s.errors() == errs) { mc::fail("failure-not-reported", "loadFile returned false without an error message"); return; }
            if(!r && !untouched(before, after)) return;
            if(!compare(after, e.after) || !reg.check(s.s)) return;
        }
        s.del();
    });
}
Node under(int cls, const std::string &id, const std::string &bn, const std::string &parent, const std::string &type) {
    Node n = node(cls, id, bn);
    n.refs = {ref(type, parent, false)};
    return n;
}
Node base(int cls, const std::string &id, const std::string &bn) {
    static const char *PARENT[NCLS] = {"i=85", "i=58", "i=85", "i=24", "i=85", "i=33", "i=63", "i=87"};
    bool type = cls == OBJECTTYPE || cls == VARIABLETYPE || cls == DATATYPE || cls == REFERENCETYPE;
    return under(cls, id, bn, PARENT[cls], type ? "i=45" : cls == VARIABLE || cls == METHOD ? "i=47" : "i=35");
}
Node dataType(const std::string &id, const std::string &bn, const std::string &super, bool abstract) {
    Node n = under(DATATYPE, id, bn, super, "i=45");
    if(abstract) n.attrs.push_back({"IsAbstract", "true"});
    return n;
}
void field(Node &n, const std::string &name, const std::string &type, bool array, bool optional) {
    Field f;
    f.attrs = {{"Name", name}, {"DataType", type}};
    if(array) f.attrs.push_back({"ValueRank", "1"});
    if(optional) f.attrs.push_back({"IsOptional", "true"});
    n.def.present = true;
    n.def.fields.push_back(f);
}
}  // namespace back
