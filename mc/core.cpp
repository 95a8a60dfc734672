#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>

using namespace model;
namespace core {
std::string file(const std::string &content, int slot) {
    std::string p = mc::scratch() + mc::fmt("/f%d.xml", slot);
    FILE *f = fopen(p.c_str(), "w");
    if(f) { fwrite(content.data(), 1, content.size(), f); fclose(f); }
    return p;
}
static std::string hexs(const UA_Byte *p, size_t n) {
    std::string r;
    for(size_t i = 0; i < n; i++) r += mc::fmt("%02x", p[i]);
    return r;
}
std::string nid(const UA_NodeId *id) {
    std::string r = std::to_string(id->namespaceIndex) + ":";
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return r + "i=" + std::to_string(id->identifier.numeric);
    case UA_NODEIDTYPE_STRING: return r + "s=" + std::string((char *)id->identifier.string.data, id->identifier.string.length);
    case UA_NODEIDTYPE_GUID: {
        const UA_Guid &g = id->identifier.guid;
        return r + mc::fmt("g=%08x%04x%04x", g.data1, g.data2, g.data3) + hexs(g.data4, 8);
    }
    case UA_NODEIDTYPE_BYTESTRING: return r + "b=" + hexs(id->identifier.byteString.data, id->identifier.byteString.length);
    }
    return r + "?";
}
static std::string tx(const NL_LocalizedText &t) { return quote(t.locale) + "/" + quote(t.text); }
static void addRefs(std::vector<XRef> &v, const NL_Reference *r) {
    int n = 0;
    for(; r && n < 1000000; r = r->next, n++) v.push_back({nid(&r->refType), nid(&r->target), r->isForward});
    if(r) mc::fail("endless-reference-list", "a reference list does not end");
}
static std::string dataDump(const NL_Data *d, int depth = 0) {
    if(!d) return "~";
    if(depth > 500) return "too deep";
    std::string r = d->name ? d->name : "~";
    if(d->type == DATATYPE_PRIMITIVE) return r + "=" + quote(d->val.primitiveData.value);
    r += "(";
    for(size_t i = 0; i < d->val.complexData.membersSize; i++) r += dataDump(d->val.complexData.members[i], depth + 1) + ",";
    return r + ")";
}
struct ExtData { std::string log; };
std::string dumpNode(const NL_Node *n, bool ext) {
    std::string s = mc::fmt("bn=%u:", n->browseName.nsIdx) + quote(n->browseName.name);
    s += " dn=" + tx(n->displayName) + " desc=" + tx(n->description);
    if(n->nodeClass == NODECLASS_OBJECT || n->nodeClass == NODECLASS_VARIABLE || n->nodeClass == NODECLASS_METHOD || n->nodeClass == NODECLASS_VIEW)
        s += " parent=" + nid(&((const NL_InstanceNode *)n)->parentNodeId);
    std::vector<XRef> h, nh, td;
    addRefs(h, n->hierachicalRefs);
    addRefs(nh, n->nonHierachicalRefs);
    if(n->unknownRefs) { std::vector<XRef> u; addRefs(u, n->unknownRefs); s += " UNKNOWN=" + refsDump(u); }
    std::string value = "~", def = "~";
    switch(n->nodeClass) {
    case NODECLASS_OBJECT: { auto o = (const NL_ObjectNode *)n; s += " en=" + quote(o->eventNotifier); addRefs(td, o->refToTypeDef); break; }
    case NODECLASS_VARIABLE: {
        auto o = (const NL_VariableNode *)n;
        s += " dt=" + nid(&o->datatype) + " vr=" + quote(o->valueRank) + " ad=" + quote(o->arrayDimensions) + " al=" + quote(o->accessLevel) +
             " ual=" + quote(o->userAccessLevel) + " h=" + quote(o->historizing) + " msi=" + quote(o->minimumSamplingInterval);
        addRefs(td, o->refToTypeDef);
        if(o->value) value = mc::fmt("arr=%d ext=%d type=", o->value->isArray, o->value->isExtensionObject) + quote(o->value->type) + " " + dataDump(o->value->data);
        break;
    }
    case NODECLASS_VARIABLETYPE: {
        auto o = (const NL_VariableTypeNode *)n;
        s += " dt=" + nid(&o->datatype) + " vr=" + quote(o->valueRank) + " ad=" + quote(o->arrayDimensions) + " ia=" + quote(o->isAbstract);
        break;
    }
    case NODECLASS_OBJECTTYPE: s += " ia=" + quote(((const NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_DATATYPE: {
        auto o = (const NL_DataTypeNode *)n;
        s += " ia=" + quote(o->isAbstract);
        if(o->definition) {
            def = mc::fmt("enum=%d union=%d os=%d", o->definition->isEnum, o->definition->isUnion, o->definition->isOptionSet);
            for(size_t i = 0; i < o->definition->fieldCnt; i++) {
                const NL_DataTypeDefinitionField &f = o->definition->fields[i];
                def += "[" + quote(f.name);
                if(o->definition->isEnum) def += mc::fmt(" v=%d", f.value);
                else def += " " + nid(&f.dataType) + mc::fmt(" vr=%d opt=%d", f.valueRank, f.isOptional);
                def += "]";
            }
        }
        break;
    }
    case NODECLASS_METHOD: { auto o = (const NL_MethodNode *)n; s += " ex=" + quote(o->executable) + " uex=" + quote(o->userExecutable); break; }
    case NODECLASS_REFERENCETYPE: { auto o = (const NL_ReferenceTypeNode *)n; s += " sym=" + quote(o->symmetric) + " inv=" + tx(o->inverseName); break; }
    case NODECLASS_VIEW: { auto o = (const NL_ViewNode *)n; s += " cnl=" + quote(o->containsNoLoops) + " en=" + quote(o->eventNotifier); break; }
    }
    std::string e = "~";
    if(n->extension) e = ext ? ((ExtData *)n->extension)->log : "EXTENSION";
    return std::string((unsigned)n->nodeClass < NCLS ? CLS_ELEM[n->nodeClass] : "?") + " " + nid(&n->id) + " " + s + "\n  hier=" + refsDump(h) +
           "\n  nonhier=" + refsDump(nh) + "\n  td=" + refsDump(td) + "\n  value=" + value + "\n  def=" + def + "\n  ext=" + e;
}

// ---- callbacks ----
static std::vector<std::unique_ptr<ExtData>> extPool;
static int liveLoaders;
static void logCb(void *ctx, enum NodesetLoader_LogLevel lvl, const char *m, ...) {
    mc::OutLib o;
    va_list a; va_start(a, m); int n = vsnprintf(nullptr, 0, m, a); va_end(a);
    std::string b(n > 0 ? n + 1 : 1, 0);
    va_start(a, m); vsnprintf(&b[0], b.size(), m, a); va_end(a);
    b.pop_back();
    ((Loader *)ctx)->logs.push_back({(int)lvl, b});
    mc::note("    log[%d]: %s", (int)lvl, b.c_str());
}
static unsigned short nsCb(void *ctx, const char *uri) {
    mc::OutLib o;
    NsTable *t = (NsTable *)ctx;
    t->calls.push_back(uri ? uri : "(null)");
    if(t->on) t->on();
    return (unsigned short)t->get(uri ? uri : "(null)");
}
static void *extNew() { mc::OutLib o; extPool.emplace_back(new ExtData); extPool.back()->log = "N"; return extPool.back().get(); }
static ExtData *ext(void *d) {
    for(auto &e : extPool) if(e.get() == d) return (ExtData *)d;
    mc::fail("extension-callback-data", "an extension callback got data that newExtension did not return");
    return nullptr;
}
std::vector<std::string> extLogs() { std::vector<std::string> r; for(auto &e : extPool) r.push_back(e->log); return r; }
static void extStart(void *d, const char *name, int n, const char **at) {
    mc::OutLib o;
    ExtData *e = ext(d);
    if(!e) return;
    e->log += std::string("S(") + name;
    for(int i = 0; i < n; i++) e->log += std::string(" ") + at[i * 5] + "=" + quote(std::string(at[i * 5 + 3], at[i * 5 + 4]).c_str());
    e->log += ")";
}
static void extEnd(void *d, const char *name, const char *v) { mc::OutLib o; ExtData *e = ext(d); if(e) e->log += std::string("E(") + name + "," + quote(v) + ")"; }
static void extFinish(void *d) { mc::OutLib o; ExtData *e = ext(d); if(e) e->log += "F"; }

NodesetLoader_ExtensionInterface *extInterface() {
    static NodesetLoader_ExtensionInterface i;
    i = {nullptr, extNew, extStart, extEnd, extFinish};
    return &i;
}
std::string extLog(void *d) {
    if(!d) return "~";
    for(auto &e : extPool) if(e.get() == d) return e->log;
    return "not extension data";
}
void extReset() { extPool.clear(); }
Loader::Loader(bool create, NL_ReferenceService *svc) {
    logger.context = this; logger.log = logCb;
    memset(&fc, 0, sizeof fc);
    extIf = {nullptr, extNew, extStart, extEnd, extFinish};
    if(liveLoaders++ == 0) extPool.clear();
    if(create) open(svc);
}
void Loader::open(NL_ReferenceService *svc) { mc::InLib i; l = NodesetLoader_new(&logger, svc); }
Loader::~Loader() { if(l) del(); liveLoaders--; }
bool Loader::importPath(const char *path, NsTable *t) {
    fc.userContext = t ? t : &ns; fc.file = path; fc.addNamespace = nsCb; fc.extensionHandling = withExt ? &extIf : nullptr;
    mc::InLib i;
    bool r = NodesetLoader_importFile(l, &fc);
    mc::note("  importFile -> %d", r);
    return r;
}
bool Loader::importXml(const std::string &x, NsTable *t, int slot) {
    mc::note("--- file %d:\n%s---", slot, x.c_str());
    std::string p = file(x, slot);
    return importPath(p.c_str(), t);
}
bool Loader::sort() { mc::InLib i; bool r = NodesetLoader_sort(l); mc::note("  sort -> %d", r); return r; }
void Loader::del() { mc::InLib i; NodesetLoader_delete(l); l = nullptr; }

struct EachCtx { Loader *l; std::vector<Delivered> *out; const void *tag; size_t calls; };
static void eachCb(void *c, NL_Node *n) {
    mc::OutLib o;
    EachCtx *e = (EachCtx *)c;
    e->calls++;
    e->out->push_back({nid(&n->id), dumpNode(n, e->l->withExt), (int)n->nodeClass});
}
std::map<int, std::vector<Delivered>> Loader::deliver() {
    std::map<int, std::vector<Delivered>> r;
    for(int c = 0; c < NCLS; c++) {
        EachCtx e{this, &r[c], nullptr, 0};
        size_t n;
        { mc::InLib i; n = NodesetLoader_forEachNode(l, (NL_NodeClass)c, &e, eachCb); }
        if(n != e.calls) mc::fail("forEachNode-count", mc::fmt("forEachNode returned %zu after %zu calls", n, e.calls));
        for(auto &d : r[c]) if(d.cls != c) mc::fail("forEachNode-class", "node " + d.id + " delivered in class " + CLS_ELEM[c] + " but has another nodeClass");
    }
    return r;
}
std::vector<Bidi> Loader::bidi() {
    std::vector<Bidi> r;
    const NL_BiDirectionalReference *b;
    { mc::InLib i; b = NodesetLoader_getBidirectionalRefs(l); }
    for(; b && r.size() < 100000; b = b->next) r.push_back({nid(&b->source), nid(&b->target), nid(&b->refType)});
    return r;
}
std::string dumpAll(Loader &l) {
    std::vector<std::string> v;
    for(auto &c : l.deliver()) for(auto &d : c.second) v.push_back(d.dump);
    std::sort(v.begin(), v.end());
    std::string r;
    for(auto &s : v) r += s + "\n";
    std::vector<std::string> b;
    for(auto &x : l.bidi()) b.push_back("bidi " + x.source + " " + x.target + " " + x.type + "\n");
    std::sort(b.begin(), b.end());
    for(auto &s : b) r += s;
    return r;
}
bool compareNodes(Loader &l, Oracle &o, const std::string &px) {
    auto del = l.deliver();
    std::string all;
    size_t n = 0;
    std::map<std::string, int> seen;
    for(auto &c : del) {
        std::vector<std::string> order;
        for(auto &d : c.second) {
            n++; order.push_back(d.id); all += d.dump + "\n";
            int idx = -1;
            if(o.find(d.id)) for(auto r = o.byId.equal_range(d.id); r.first != r.second; ++r.first) if(o.nodes[r.first->second].cls == c.first) idx = (int)r.first->second;
            if(idx < 0) { mc::fail(px + "extra-node", "delivered but not in the documents (or in another class): " + d.dump); return false; }
            if(seen[d.id]++) { mc::fail(px + "node-twice", "delivered twice: " + d.dump); return false; }
            if(!o.dumps[idx].count(d.dump)) {
                mc::fail(px + "node-differs", "delivered:\n" + d.dump + "\nexpected:\n" + *o.dumps[idx].begin());
                return false;
            }
        }
        std::string why;
        if(!orderOk(order, o.edges, &why)) { mc::fail(px + "order", why); return false; }
    }
    mc::state(all);
    if(n != o.nodes.size()) {
        for(auto &x : o.nodes) if(!seen.count(x.id)) { mc::fail(px + "node-missing", "not delivered: " + x.id); return false; }
    }
    auto key = [](const Bidi &b) { return b.source + " " + b.target + " " + b.type; };
    std::vector<std::string> a, b;
    for(auto &x : l.bidi()) a.push_back(key(x));
    for(auto &x : o.bidi) b.push_back(key(x));
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if(a != b) {
        std::string m = "delivered:"; for(auto &s : a) m += " [" + s + "]"; m += " expected:"; for(auto &s : b) m += " [" + s + "]";
        mc::fail(px + "bidirectional-refs", m);
        return false;
    }
    mc::validated();
    return !mc::failed();
}
bool compare(Loader &l, Oracle &o, bool sortResult, const std::string &px) {
    if(sortResult != o.sortOk) {
        mc::fail(px + (sortResult ? "sort-succeeds" : "sort-fails"), mc::fmt("sort returned %d, expected %d (cyclic=%d unresolved=%d)", sortResult, o.sortOk, o.cyclic, o.unresolved));
        return false;
    }
    if(!sortResult) {
        mc::state("sort failed");
        mc::validated();
        if(l.errors() == 0) { mc::fail(px + "sort-failure-not-reported", "sort returned false without an error message"); return false; }
        return true;
    }
    return compareNodes(l, o, px);
}
void check(const std::vector<Doc> &docs, const std::string &px) {
    Loader l; Oracle o;
    NsTable ns2;
    bool ok = true;
    for(size_t i = 0; i < docs.size(); i++) {
        std::string x = xml(docs[i]);
        if(mc::want_sample()) mc::sample(x);
        if(!l.importXml(x, nullptr, (int)i)) { mc::fail(px + "import-fails", "importFile returned false for a well-formed file"); ok = false; break; }
        o.import(docs[i], [&](const std::string &u) { return l.ns.get(u); });
    }
    if(ok) {
        o.sort();
        bool r = l.sort();
        compare(l, o, r, px);
    }
    l.del();
}
void fullRaw(const std::vector<std::string> &xmls, const std::vector<Doc> &docs, bool withExt) {
    checkLeak([&] {
        Loader l; Oracle o;
        l.withExt = o.withExtensions = withExt;
        for(size_t i = 0; i < docs.size(); i++) {
            if(mc::want_sample()) mc::sample(xmls[i].substr(0, 2500));
            if(!l.importXml(xmls[i], nullptr, (int)i)) { mc::fail("import-fails", "importFile returned false for a well-formed file:\n" + xmls[i].substr(0, 3000)); return; }
            std::vector<std::string> calls = l.ns.calls;
            o.import(docs[i], [&](const std::string &u) { return l.ns.get(u); });
        }
        size_t k = 0;
        for(auto &d : docs) for(auto &u : d.uris) { if(k >= l.ns.calls.size() || l.ns.calls[k] != u) { mc::fail("uri-differs", "addNamespace got " + (k < l.ns.calls.size() ? l.ns.calls[k] : "nothing") + " expected " + u); return; } k++; }
        o.sort();
        bool r = l.sort();
        compare(l, o, r);
    });
}
void checkLeak(const std::function<void()> &run, const std::string &px) {
    mc::leak_reset();
    run();
    if(mc::failed() || mc::leak_count() == 0) { mc::leak_reset(); return; }
    mc::leak_reset();
    run();                                      // one-time initialisations do not count
    if(mc::leak_count()) mc::fail(px + "leak", mc::fmt("%zu blocks are not freed: ", mc::leak_count()) + mc::leak_describe());
    mc::leak_reset();
}
std::string pickChars(const char *label) {
    static std::vector<std::string> all, few;
    if(all.empty()) {
        for(char c : std::string("\t\n\r")) all.push_back(std::string(1, c));
        for(int c = 32; c < 128; c++) all.push_back(std::string(1, (char)c));
        for(const char *u : {"\xc2\x80", "\xc2\x85", "\xc2\xa0", "\xc2\xad", "\xc3\x9f", "\xc3\xa4", "\xc4\xb0", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x80\x83", "\xe2\x80\x8b",
            "\xe2\x80\xa8", "\xe2\x82\xac", "\xe3\x80\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xf0\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf"}) all.push_back(u);
        for(const char *u : {"a", " ", "\n", "0", "%", "\\", "&", "<", "\"", "\xc2\xa0", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}) few.push_back(u);
    }
    auto &two = mc::tier() ? all : few;
    if(!mc::flag("two characters")) return mc::pick(all, label);
    std::string a = mc::pick(two, label);
    return a + mc::pick(two, label);
}
}  // namespace core
