// complete histories of a loader: new, two imports, sort, iterations, delete; shared by C19 and C25
#pragma once
#include <algorithm>
#include <memory>
#include "core.hpp"
namespace clients {
using namespace model;
// file sets that contradict each other: same NodeIds, reference types, aliases and namespace indexes
static const int NSETS = 7;
static std::vector<std::string> files(int set, std::vector<Doc> *docs) {
    Doc a, b;
    auto T = [](const char *id, const char *super) { Node t = node(REFERENCETYPE, id, "1:T"); t.refs = {ref("i=45", super, false)}; return t; };
    Node o = node(OBJECT, "ns=1;i=1", "1:O"), v = node(VARIABLE, "ns=1;i=2", "1:V"), e = node(OBJECT, "ns=1;i=3", "Default Binary");
    v.hasValue = true;
    e.refs = {ref("HasEncoding", "ns=1;i=9", false)};
    switch(set) {
    case 0:   // type hierarchical, alias A = HasComponent
        a.uris = {"u:x", "u:y"}; a.aliases = {{"A", "i=47"}, {"HasEncoding", "i=38"}};
        o.refs = {ref("i=35", "i=85", false), ref("ns=1;i=500", "ns=1;i=2")}; v.value = {elem("Int32", "1")};
        a.nodes = {o, T("ns=1;i=500", "i=47"), e}; b = a; b.nodes = {v}; b.nodes[0].refs = {ref("A", "ns=1;i=1", false)};
        break;
    case 1:   // the same type is not hierarchical, alias A = HasTypeDefinition, other URIs at the same index
        a.uris = {"u:y", "u:x"}; a.aliases = {{"A", "i=40"}, {"HasEncoding", "i=35"}};
        o.refs = {ref("ns=1;i=500", "ns=1;i=2"), ref("A", "i=61")}; v.value = {elem("String", "two")};
        a.nodes = {T("ns=1;i=500", "i=32"), o, e}; b = a; b.nodes = {v}; b.nodes[0].refs = {ref("A", "i=63")};
        break;
    case 2:   // uses the type without defining it
        a.uris = {"u:x"}; a.aliases = {{"HasEncoding", "i=38"}}; o.refs = {ref("ns=1;i=500", "ns=1;i=2")}; a.nodes = {o, e}; b.uris = a.uris; v.value = {elem("Int32", "3")}; b.nodes = {v};
        break;
    case 3:   // cycle
        a.uris = {"u:x"}; o.refs = {ref("i=47", "ns=1;i=2")}; v.refs = {ref("i=47", "ns=1;i=1")}; v.value = {elem("Int32", "4")}; a.nodes = {o}; b.uris = a.uris; b.nodes = {v};
        break;
    case 4:   // damaged second file
        a.uris = {"u:z"}; o.dn = txt("only"); a.nodes = {o, T("ns=1;i=500", "i=33")}; b.uris = {"u:x"}; v.value = {elem("Int32", "5")}; b.nodes = {v};
        break;
    case 5:   // many types and nodes, types below each other, extensions of the other set's types
        a.uris = {"u:x", "u:y"};
        for(int i = 0; i < 60; i++) a.nodes.push_back(T(("ns=1;i=" + std::to_string(500 + i)).c_str(), i ? ("ns=1;i=" + std::to_string(499 + i)).c_str() : "i=33"));
        o.refs = {ref("ns=1;i=559", "ns=1;i=2"), ref("ns=1;i=530", "ns=1;i=3")}; a.nodes.push_back(o); b = a; v.value = {}; b.nodes = {v};
        break;
    case 6:   // ParentNodeId and duplicate
        a.uris = {"u:y"}; v.value = {elem("ListOfInt32", std::vector<Elem>{elem("Int32", "7")})}; v.attrs = {{"ParentNodeId", "ns=1;i=1"}}; a.nodes = {v, o}; b.uris = a.uris; Node m = node(METHOD, "ns=1;i=4", "1:M"); m.attrs = {{"ParentNodeId", "ns=1;i=2"}}; b.nodes = {m};
        break;
    }
    if(set >= NSETS) {   // small ones, for enumerations at a fine grain
        static const char *TYPE[] = {"i=33", "i=32"};
        a = Doc(); a.uris = {set == NSETS ? "u:x" : "u:y"};
        a.aliases = {{"A", set == NSETS ? "i=47" : "i=40"}};
        Node t = T("ns=1;i=500", TYPE[set - NSETS]); Node m = node(set == NSETS ? OBJECT : METHOD, "ns=1;s=m", "1:M"); m.refs = {ref("ns=1;i=500", "ns=1;s=t"), ref("A", "i=61")};
        a.nodes = {m, t}; b = Doc(); b.uris = a.uris; b.nodes = {node(set == NSETS ? METHOD : OBJECT, "ns=1;s=t", "1:T")};
    }
    std::vector<std::string> r = {xml(a), xml(b)};
    if(set == 4) r[1] = r[1].substr(0, r[1].size() - 20);
    if(docs) *docs = {a, b};
    return r;
}
struct Client {
    int id, set, step = 0;
    bool service, ext;
    std::unique_ptr<core::Loader> l;
    Oracle o;
    core::NsTable ns;
    NL_ReferenceService svc;
    int svcCalls = 0;
    std::set<std::string> hier, known;
    std::string trace;
    std::vector<std::string> xmls; std::vector<Doc> docs;
};
static thread_local Client *active;
static void (*serviceHook)();                    // called by the reference services
static void entered(void *c) { if(serviceHook) serviceHook(); Client *k = (Client *)c; k->svcCalls++; if(k != active) mc::fail("foreign-service", "the reference service of another loader is called"); }
static bool isH(void *c, const NL_Reference *r) { mc::OutLib o; entered(c); std::string t = core::nid(&r->refType); Client *k = (Client *)c; return nsHier(parseId(t.substr(0, 2) == "0:" ? t.substr(2) : "i=0")) || k->hier.count(t); }
static bool isNH(void *c, const NL_Reference *r) { mc::OutLib o; entered(c); std::string t = core::nid(&r->refType); Client *k = (Client *)c; if(k->known.count(t)) return !k->hier.count(t); return t.substr(0, 2) == "0:" && !nsHier(parseId(t.substr(2))); }
static bool isTD(void *c, const NL_Reference *r) { mc::OutLib o; entered(c); return core::nid(&r->refType) == "0:i=40"; }
static void add(void *c, const NL_ReferenceTypeNode *n) {
    mc::OutLib o; entered(c); Client *k = (Client *)c; k->known.insert(core::nid(&n->id));
    for(const NL_Reference *r = n->hierachicalRefs; r; r = r->next) { NL_Reference t = *r; std::string id = core::nid(&r->target); if(!r->isForward && (k->hier.count(id) || (id.substr(0, 2) == "0:" && nsHier(parseId(id.substr(2)))))) k->hier.insert(core::nid(&n->id)); }
}
// one call of a client's sequence: new, import, import, sort, deliver, delete
static const int STEPS = 6;
static void step(Client &c) {
    active = &c;
    switch(c.step++) {
    case 0:
        c.svc = {&c, isH, isNH, isTD, add};
        c.l.reset(new core::Loader(false));
        c.l->withExt = c.ext; c.o.withExtensions = c.ext;
        c.l->open(c.service ? &c.svc : nullptr);
        break;
    case 1: case 2: {
        int f = c.step - 2;
        std::string p = core::file(c.xmls[f], c.id * 2 + f);
        bool r = c.l->importPath(p.c_str(), &c.ns), want = !(c.set == 4 && f == 1);
        if(r != want) { mc::fail("import", mc::fmt("importFile returned %d", r)); return; }
        if(want) { auto uris = c.ns.calls; c.o.import(c.docs[f], [&](const std::string &u) { return c.ns.get(u); }); }
        break;
    }
    case 3: {
        bool r = c.l->sort();
        c.trace = mc::fmt("%d", r);
        if(c.set == 4) break;                       // contents after a failed import are not specified
        c.o.sort();
        if(r != c.o.sortOk) { mc::fail("sort", mc::fmt("sort of file set %d returned %d, expected %d", c.set, r, c.o.sortOk)); return; }
        break;
    }
    case 4:
        if(c.set != 4 && c.o.sortOk) core::compareNodes(*c.l, c.o, mc::fmt("set%d-", c.set));
        else c.l->deliver();
        break;
    case 5:
        c.trace += mc::fmt(" %zu logs %d errors %zu namespaces", c.l->logs.size(), c.l->errors(), c.ns.calls.size());
        c.l->del();
        break;
    }
    active = nullptr;
}
static void start(Client &c, int id, int set, bool service, bool ext) {
    c.id = id; c.set = set; c.service = service; c.ext = ext;
    c.xmls = files(set, &c.docs);
    c.ns.next = 1 + id * 10;
    if(mc::want_sample()) mc::sample(c.xmls[0]);
}
// what a loader reports when it runs alone
static const std::string &solo(int set, bool service) {
    static std::string cache[NSETS + 2][2];
    std::string &s = cache[set][service];
    if(s.empty()) { Client c; start(c, 7, set, service, false); while(c.step < STEPS) step(c); s = c.trace; }
    return s;
}
}  // namespace clients
