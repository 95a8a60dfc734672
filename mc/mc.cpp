#include "mc.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <set>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
extern "C" void __sanitizer_print_stack_trace(void) __attribute__((weak));

namespace mc {
static const int MAXD = 600, QCAP = 8192, MAXW = 32, MAXV = 64;
static const size_t HISTCAP = 1 << 18;           // uint16 units per worker
static const uint64_t SETCAP = 1ULL << 23;

struct Item { uint16_t len; uint16_t c[MAXD]; uint16_t b[MAXD]; };
struct Slot {
    volatile int pid;
    volatile int resume;                          // stack below is to be continued
    volatile int inExec;
    volatile uint64_t startNs;
    volatile int limit;
    volatile int pos;                             // choices made by the current execution
    int depth;                                    // length of the forced part of the stack
    int base;                                     // may not backtrack below
    int newFrom;
    uint16_t c[MAXD], b[MAXD];
    uint16_t t[MAXD];                             // alternatives below this one are explored here, the others elsewhere
    char input[400];
    char key[200];
    uint64_t execs;
    uint32_t histLen;                             // units used
    uint16_t hist[HISTCAP];
};
struct Viol {
    int kind;                                     // 0 fail, 1 crash, 2 hang
    char key[300];
    char msg[6000];
    int len;
    uint16_t c[MAXD];
    char histFile[300];
    volatile int confirmed;
};
struct Shared {
    volatile int lock;
    volatile int stop, capHit;
    volatile int qn;
    volatile int pending;
    Item q[QCAP];
    Slot slot[MAXW];
    volatile int nv;
    Viol v[MAXV];
    uint64_t execs, edges, validated, states, overflow, maxDepth, prunes, nondet;
    volatile int nsamples;
    char samples[4][3000];
    char confirmKey[300];
    char confirmMsg[6000];
    volatile int confirmHit;
    uint64_t set[SETCAP];
    uint64_t seen[SETCAP];
};
static Shared *S;
static Slot *me;                // slot of this process (worker or confirm)
static int wid = -1, nworkers = 8;
static bool isReplay = false, quietConfirm = false;
static std::string scratchDir, scratchMine;
static Config conf;
static int theTier = 0;
static std::vector<std::pair<std::string, std::function<void()>>> scenarios;
static bool execFailed;
static std::string execFailKey, execFailMsg;
static uint64_t wexecs;

static uint64_t nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ULL + t.tv_nsec; }
static void lockS() { while(__sync_lock_test_and_set(&S->lock, 1)) usleep(20); }
static void unlockS() { __sync_lock_release(&S->lock); }

uint64_t hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *s = (const unsigned char *)p;
    for(size_t i = 0; i < n; i++) h = (h ^ s[i]) * 1099511628211ULL;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}
std::string fmt(const char *f, ...) {
    va_list a; va_start(a, f);
    char *p = nullptr; int n = vasprintf(&p, f, a);
    va_end(a);
    std::string r(p, n > 0 ? n : 0); free(p);
    return r;
}
// 1: new, 0: there already, -1: no room (counted)
static int insertSet(uint64_t *set, uint64_t h) {
    if(!h) h = 1;
    uint64_t i = h & (SETCAP - 1);
    for(int k = 0; k < 256; k++, i = (i + 1) & (SETCAP - 1)) {
        uint64_t v = set[i];
        if(v == h) return 0;
        if(v == 0) {
            uint64_t o = __sync_val_compare_and_swap(&set[i], 0, h);
            if(o == 0) return 1;
            if(o == h) return 0;
        }
    }
    __sync_fetch_and_add(&S->overflow, 1);
    return -1;
}

struct Restore { bool o; Restore(); ~Restore(); };
static __thread bool tl_in = false;
Restore::Restore() { o = tl_in; tl_in = false; }
Restore::~Restore() { tl_in = o; }

int choose(int n, const char *label) {
    Restore r;
    if(n <= 0) { fprintf(stderr, "mc: choose(%d) at %s\n", n, label); _exit(3); }
    int p = me->pos;
    if(p >= MAXD) { fprintf(stderr, "mc: more than %d choices\n", MAXD); _exit(3); }
    if(p < me->depth) {
        if(me->b[p] != n) {
            if(me->b[p] != 0) { __sync_fetch_and_add(&S->nondet, 1); fprintf(stderr, "mc: nondeterminism at choice %d (%s): %d vs %d\n", p, label, me->b[p], n); }
            me->b[p] = me->t[p] = (uint16_t)n;
            if(me->c[p] >= n) me->c[p] = (uint16_t)(n - 1);
        }
    } else {
        me->c[p] = 0;
        me->b[p] = me->t[p] = (uint16_t)n;
        me->depth = p + 1;
    }
    me->pos = p + 1;
    if(isReplay) printf("  choice %d: %s = %d of %d\n", p, label, me->c[p], n);
    return me->c[p];
}
bool revisit(uint64_t h) {
    if(isReplay || quietConfirm) return false;
    if(me->pos <= me->newFrom) return false;     // still on the path to the new part
    if(insertSet(S->seen, h) != 0) return false;
    __sync_fetch_and_add(&S->prunes, 1);
    return true;
}
void input(const std::string &k) { Restore r; snprintf(me->input, sizeof me->input, "%s", k.c_str()); }
void fail(const std::string &key, const std::string &msg) {
    Restore r;
    if(isReplay) { printf("FAIL key=%s\n%s\n", key.c_str(), msg.c_str()); fflush(stdout); }
    if(execFailed) return;
    execFailed = true; execFailKey = key; execFailMsg = msg;
}
bool failed() { return execFailed; }
void state(const std::string &o) { if(insertSet(S->set, hash(o)) == 1) __sync_fetch_and_add(&S->states, 1); }
static uint64_t localValidated;
void validated(uint64_t n) { localValidated += n; }
void slow(int s) { me->limit = s; }
bool want_sample() { return S->nsamples < 3 && (wid < 0 || wexecs % 50 == 7 || wexecs == 0); }
void sample(const std::string &t) {
    Restore r;
    int i = __sync_fetch_and_add(&S->nsamples, 1);
    if(i < 4) snprintf(S->samples[i], sizeof S->samples[i], "%s", t.c_str());
}
bool replaying() { return isReplay; }
void note(const char *f, ...) {
    if(!isReplay) return;
    va_list a; va_start(a, f); vprintf(f, a); va_end(a); printf("\n"); fflush(stdout);
}
int tier() { return theTier; }
const std::string &scratch() { return scratchMine; }
const char *prop() { return conf.prop; }

// ---- leak accounting: open-addressing set of live pointers, no allocation of its own ----
static const size_t LCAP = 1 << 20;
static uintptr_t *live; static uint32_t *liveSize;
static size_t liveN;
static void onMalloc(const volatile void *p, size_t n) {
    if(!tl_in || !p || !live) return;
    size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 44;
    while(live[i] > 1) i = (i + 1) & (LCAP - 1);
    live[i] = (uintptr_t)p; liveSize[i] = (uint32_t)n; liveN++;
}
static void onFree(const volatile void *p) {
    if(!liveN || !p || !live) return;
    size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 44;
    while(live[i]) {
        if(live[i] == (uintptr_t)p) {
            if(live[(i + 1) & (LCAP - 1)] == 0) {
                live[i] = 0;
                for(size_t k = (i - 1) & (LCAP - 1); live[k] == 1; k = (k - 1) & (LCAP - 1)) live[k] = 0;
            } else live[i] = 1;
            liveN--; return;
        }
        i = (i + 1) & (LCAP - 1);
    }
}
InLib::InLib() : old(tl_in) { tl_in = true; }
InLib::~InLib() { tl_in = old; }
OutLib::OutLib() : old(tl_in) { tl_in = false; }
OutLib::~OutLib() { tl_in = old; }
static thread_local bool outStack[64]; static thread_local int outDepth;
void push_out() { if(outDepth < 64) outStack[outDepth] = tl_in; outDepth++; tl_in = false; }
void pop_out() { outDepth--; if(outDepth >= 0 && outDepth < 64) tl_in = outStack[outDepth]; }
void leak_reset() {
    if(!live) return;
    if(liveN) memset(live, 0, LCAP * sizeof *live);
    liveN = 0;
}
size_t leak_count() { return liveN; }
std::string leak_describe() {
    std::string r; int k = 0;
    for(size_t i = 0; i < LCAP && k < 6 && liveN; i++) if(live[i] > 1) { r += fmt("%u-byte block", liveSize[i]);
        const unsigned char *p = (const unsigned char *)live[i]; r += " \"";
        for(unsigned q = 0; q < liveSize[i] && q < 24; q++) r += p[q] >= 32 && p[q] < 127 ? (char)p[q] : '.';
        r += "\" "; k++; }
    return r;
}

void scenario(const std::string &n, std::function<void()> b) { scenarios.push_back({n, b}); }

static void body() {
    execFailed = false; execFailKey.clear(); execFailMsg.clear();
    me->pos = 0; me->limit = 10; me->input[0] = 0;
    size_t s = scenarios.size() > 1 ? choose((int)scenarios.size(), "scenario") : 0;
    input(scenarios[s].first);
    if(isReplay) printf("scenario %s\n", scenarios[s].first.c_str());
    tl_in = false;
    scenarios[s].second();
    tl_in = false;
}

static void writeHist(Slot *s, char *out, size_t outn) {
    static int cnt = 0;
    std::string f = scratchDir + fmt("/hist-%d-%d", (int)getpid(), cnt++);
    FILE *h = fopen(f.c_str(), "w");
    if(!h) { out[0] = 0; return; }
    fwrite(s->hist, 2, s->histLen, h);
    fclose(h);
    snprintf(out, outn, "%s", f.c_str());
}
// --first (tools/mutate.py): mixed order, stop at the first violation
static bool firstOnly;
static void addViol(Slot *s, int kind, const std::string &key, const std::string &msg, int len) {
    lockS();
    for(int i = 0; i < S->nv; i++) if(key == S->v[i].key) { unlockS(); return; }
    if(S->nv >= MAXV) { S->stop = 1; unlockS(); return; }
    Viol *v = &S->v[S->nv];
    memset(v, 0, sizeof *v);
    v->kind = kind;
    snprintf(v->key, sizeof v->key, "%s", key.c_str());
    snprintf(v->msg, sizeof v->msg, "%s", msg.c_str());
    v->len = len;
    memcpy(v->c, s->c, sizeof(uint16_t) * (len < 0 ? 0 : len));
    writeHist(s, v->histFile, sizeof v->histFile);
    __sync_synchronize();
    S->nv++;
    if(firstOnly) S->stop = 1;
    unlockS();
}

static void worker() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = &S->slot[wid];
    uint64_t t0 = nowNs();
    bool have = me->resume;
    me->resume = 0;
    me->histLen = 0;
    for(;;) {
        if(!have) {
            if(S->stop) _exit(0);
            lockS();
            if(S->qn > 0) {
                if(firstOnly) std::swap(S->q[S->qn - 1], S->q[rand() % S->qn]);
                Item *it = &S->q[--S->qn];
                me->base = me->depth = it->len; me->newFrom = it->len ? it->len - 1 : 0;
                memcpy(me->c, it->c, it->len * 2); memcpy(me->b, it->b, it->len * 2);
                unlockS();
                have = true;
            } else {
                int p = S->pending;
                unlockS();
                if(p == 0) _exit(0);
                usleep(500);
                continue;
            }
        }
        for(;;) {
            if(S->stop) _exit(0);
            wexecs = me->execs;
            me->limit = 10;
            me->startNs = nowNs();
            __sync_synchronize();
            me->inExec = 1;
            body();
            me->inExec = 0;
            int len = me->pos;
            me->execs++;
            if(execFailed) addViol(me, 0, execFailKey, execFailMsg, len);
            __sync_fetch_and_add(&S->execs, 1);
            __sync_fetch_and_add(&S->edges, (uint64_t)(len > me->newFrom ? len - me->newFrom : 0));
            if(localValidated) { __sync_fetch_and_add(&S->validated, localValidated); localValidated = 0; }
            if((uint64_t)len > S->maxDepth) S->maxDepth = len;
            bool refork = false;
            if(me->histLen + len + 1 < HISTCAP) {
                me->hist[me->histLen++] = (uint16_t)len;
                memcpy(me->hist + me->histLen, me->c, 2 * len); me->histLen += len;
            } else refork = true;
            // donate the shallowest alternatives when others starve
            if(S->qn < (firstOnly ? 200 : nworkers) && S->qn < QCAP - 1024) {
                int lim = len < MAXD ? len : MAXD;
                for(int i = me->base; i < lim; i++) if(me->c[i] + 1 < me->t[i]) {
                    lockS();
                    int k = 0;
                    for(int a = me->t[i] - 1; a > me->c[i] && S->qn < QCAP; a--, k++) {
                        Item *it = &S->q[S->qn];
                        it->len = (uint16_t)(i + 1);
                        memcpy(it->c, me->c, 2 * (i + 1)); memcpy(it->b, me->b, 2 * (i + 1));
                        it->c[i] = (uint16_t)a;
                        S->qn++; __sync_fetch_and_add(&S->pending, 1);
                    }
                    unlockS();
                    if(me->c[i] + 1 + k == me->t[i]) me->base = i + 1;
                    else me->t[i] = (uint16_t)(me->t[i] - k);   // more alternatives than capacity
                    break;
                }
            }
            int i = len - 1;
            while(i >= me->base && me->c[i] + 1 >= me->t[i]) i--;
            if(i < me->base) { __sync_fetch_and_sub(&S->pending, 1); have = false; }
            else { me->c[i]++; me->depth = i + 1; me->newFrom = i; }
            if(!have && nowNs() - t0 < 20000000000ULL && !refork) break;
            if(refork || nowNs() - t0 > 20000000000ULL) {
                me->resume = have;
                _exit(77);
            }
        }
    }
}

static std::string readTail(const std::string &f, size_t max) {
    std::string r; FILE *h = fopen(f.c_str(), "r");
    if(!h) return r;
    char b[4096]; size_t n;
    while((n = fread(b, 1, sizeof b, h)) > 0 && r.size() < max) r.append(b, n);
    fclose(h);
    return r.substr(0, max);
}
// "heap-use-after-free" etc. out of an ASan report
static std::string crashKind(const std::string &err, int st) {
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if(p != std::string::npos) {
        p += strlen("ERROR: AddressSanitizer: ");
        size_t e = err.find_first_of(" \n:", p);
        return err.substr(p, e - p);
    }
    if(err.find("Assertion") != std::string::npos) return "assertion";
    if(WIFSIGNALED(st)) return fmt("signal%d", WTERMSIG(st));
    return fmt("exit%d", WEXITSTATUS(st));
}
static void redirectErr(const std::string &f) {
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
    if(!isReplay) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
}
static pid_t spawnWorker(int w) {
    fflush(stdout);
    pid_t p = fork();
    if(p == 0) {
        wid = w;
        scratchMine = scratchDir + fmt("/w%d", w);
        mkdir(scratchMine.c_str(), 0700);
        redirectErr(scratchDir + fmt("/w%d.err", w));
        worker();
        _exit(0);
    }
    S->slot[w].pid = p;
    return p;
}
// executes one trace (after its history, if any) in a fresh process; returns key of what happened
static std::string runOnce(const uint16_t *c, int len, const std::string &histFile, int timeout, std::string *msg, std::string *errOut, bool verbose) {
    S->confirmHit = 0; S->confirmKey[0] = 0; S->confirmMsg[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if(p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        wid = MAXW - 1; me = &S->slot[wid];
        scratchMine = scratchDir + "/confirm";
        mkdir(scratchMine.c_str(), 0700);
        redirectErr(scratchDir + "/confirm.err");
        quietConfirm = true;
        me->base = 0;
        bool rep = isReplay; isReplay = false;
        if(!histFile.empty()) {
            FILE *h = fopen(histFile.c_str(), "r");
            if(h) {
                uint16_t n;
                while(fread(&n, 2, 1, h) == 1 && n < MAXD) {
                    if(n && fread(me->c, 2, n, h) != n) break;
                    memset(me->b, 0, sizeof me->b);
                    me->depth = n;
                    body();
                    if(execFailed) break;
                }
                fclose(h);
            }
        }
        isReplay = rep;
        if(!execFailed) {
            memcpy(me->c, c, 2 * len); memset(me->b, 0, sizeof me->b);
            me->depth = len;
            body();
        }
        if(execFailed) {
            snprintf(S->confirmKey, sizeof S->confirmKey, "%s", execFailKey.c_str());
            snprintf(S->confirmMsg, sizeof S->confirmMsg, "%s", execFailMsg.c_str());
            S->confirmHit = 1;
        }
        fflush(stdout);
        _exit(0);
    }
    int st = 0; uint64_t t0 = nowNs(); bool hung = false;
    for(;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if(r == p) break;
        if(nowNs() - t0 > (uint64_t)timeout * 1000000000ULL) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(1000);
    }
    std::string err = readTail(scratchDir + "/confirm.err", 20000);
    if(errOut) *errOut = err;
    if(hung) { if(msg) *msg = "does not terminate"; return "hang:" + std::string(S->slot[MAXW - 1].input); }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 3) return "engine-error";
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        if(msg) *msg = err.substr(0, 5500);
        return "crash:" + crashKind(err, st) + ":" + S->slot[MAXW - 1].input;
    }
    if(S->confirmHit) { if(msg) *msg = S->confirmMsg; return S->confirmKey; }
    return "";
}

static std::string jsonEsc(const std::string &s) {
    std::string r;
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if(ch == '\n') r += "\\n";
        else if(ch < 32 || ch >= 127) r += fmt("\\u%04x", ch);
        else r += (char)ch;
    }
    return r;
}
static void rmTree(const std::string &d) {
    DIR *h = opendir(d.c_str());
    if(!h) return;
    while(dirent *e = readdir(h)) {
        if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string f = d + "/" + e->d_name;
        struct stat st;
        if(lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(f); else unlink(f.c_str());
    }
    closedir(h);
    rmdir(d.c_str());
}

int run(int argc, char **argv, const Config &cfg) {
    conf = cfg;
    std::string replay, verif = "/verif", only;
    double cap = 0;
    const char *te = getenv("VERIF_TIER");
    theTier = te && !strcmp(te, "thorough");
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--tier" && i + 1 < argc) theTier = !strcmp(argv[++i], "thorough");
        else if(a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if(a == "--verif" && i + 1 < argc) verif = argv[++i];
        else if(a == "--cap" && i + 1 < argc) cap = atof(argv[++i]);
        else if(a == "--workers" && i + 1 < argc) nworkers = atoi(argv[++i]);
        else if(a == "--first") firstOnly = true;
        else if(a == "--only" && i + 1 < argc) only = argv[++i];
    }
    if(!cap) cap = theTier ? cfg.capThorough : cfg.capQuick;
    if(nworkers > MAXW - 2) nworkers = MAXW - 2;
    if(!only.empty()) {
        std::vector<std::pair<std::string, std::function<void()>>> k;
        for(auto &s : scenarios) if(s.first.find(only) != std::string::npos) k.push_back(s);
        scenarios = k;
    }
    if(scenarios.empty()) { fprintf(stderr, "no scenario\n"); return 2; }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(S == MAP_FAILED) { perror("mmap"); return 2; }
    live = (uintptr_t *)mmap(nullptr, LCAP * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    liveSize = (uint32_t *)mmap(nullptr, LCAP * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::string tmpl = "/dev/shm/mcXXXXXX";
    if(access("/dev/shm", W_OK)) tmpl = "/tmp/mcXXXXXX";
    std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
    if(!mkdtemp(tb.data())) {
        tmpl = "/tmp/mcXXXXXX"; tb.assign(tmpl.begin(), tmpl.end()); tb.push_back(0);
        if(!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
    }
    scratchDir = tb.data();
    scratchMine = scratchDir + "/main"; mkdir(scratchMine.c_str(), 0700);
    uint64_t t0 = nowNs();

    if(!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if(!f) { perror(replay.c_str()); rmTree(scratchDir); return 2; }
        std::vector<uint16_t> c; char line[200000]; std::string hist;
        while(fgets(line, sizeof line, f)) {
            if(!strncmp(line, "choices:", 8)) { char *p = line + 8; int v, n; while(sscanf(p, "%d%n", &v, &n) == 1) { c.push_back((uint16_t)v); p += n; } }
            if(!strncmp(line, "history:", 8)) {
                hist = scratchDir + "/hist-replay"; FILE *h = fopen(hist.c_str(), "w");
                char *p = line + 8; int v, n; while(sscanf(p, "%d%n", &v, &n) == 1) { uint16_t u = (uint16_t)v; fwrite(&u, 2, 1, h); p += n; }
                fclose(h);
            }
            if(!strncmp(line, "tier: thorough", 14)) theTier = 1;
        }
        fclose(f);
        isReplay = true;
        std::string msg, err;
        std::string k = runOnce(c.data(), (int)c.size(), hist, 120, &msg, &err, true);
        if(!err.empty()) printf("stderr:\n%s\n", err.c_str());
        if(k.empty()) printf("replay: no violation\n");
        else printf("replay: %s\n%s\n", k.c_str(), msg.c_str());
        rmTree(scratchDir);
        return k.empty() ? 0 : 1;
    }

    S->q[0].len = 0; S->qn = 1; S->pending = 1;
    int alive = 0, engineErr = 0, crashes = 0;
    for(int w = 0; w < nworkers; w++) { spawnWorker(w); alive++; }
    while(alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if(p <= 0) {
            uint64_t n = nowNs();
            if(!S->stop && (n - t0) / 1e9 > cap) { S->capHit = 1; S->stop = 1; }
            for(int w = 0; w < nworkers; w++) {
                Slot *s = &S->slot[w];
                if(s->pid && s->inExec && n > s->startNs && n - s->startNs > (uint64_t)s->limit * 1000000000ULL) {
                    kill(s->pid, SIGKILL);
                    waitpid(s->pid, &st, 0);
                    addViol(s, 2, std::string("hang:") + s->input, "execution does not terminate", s->pos);
                    s->inExec = 0;
                    p = s->pid;
                    goto died;
                }
            }
            usleep(2000);
            continue;
        }
    died:
        int w = -1;
        for(int i = 0; i < nworkers; i++) if(S->slot[i].pid == p) w = i;
        if(w < 0) continue;
        Slot *s = &S->slot[w];
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) { s->pid = 0; alive--; continue; }
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { spawnWorker(w); continue; }
        if(WIFEXITED(st) && WEXITSTATUS(st) == 3) {
            fprintf(stderr, "%s\n", readTail(scratchDir + fmt("/w%d.err", w), 2000).c_str());
            engineErr = 1; S->stop = 1; s->pid = 0; alive--; continue;
        }
        if(s->inExec) {
            std::string err = readTail(scratchDir + fmt("/w%d.err", w), 6000);
            addViol(s, 1, "crash:" + crashKind(err, st) + ":" + s->input, err.substr(0, 5500), s->pos);
            crashes++;
        }
        s->inExec = 0;
        // continue behind the execution that died
        int len = s->pos, i = len - 1;
        s->execs++; __sync_fetch_and_add(&S->execs, 1);
        while(i >= s->base && s->c[i] + 1 >= s->b[i]) i--;
        if(i < s->base) { __sync_fetch_and_sub(&S->pending, 1); s->resume = 0; }
        else { s->c[i]++; s->depth = i + 1; s->newFrom = i; s->resume = 1; }
        if(crashes > 400) { S->stop = 1; S->capHit = 1; }
        if(S->stop) { s->pid = 0; alive--; continue; }
        spawnWorker(w);
    }
    // confirm what was found, each in a fresh process
    std::map<std::string, std::string> known;
    {
        FILE *f = fopen((verif + "/known_findings.txt").c_str(), "r");
        char line[2000];
        while(f && fgets(line, sizeof line, f)) {
            // finding: property=<id> key=<key> :: <what fails>
            std::string l = line;
            if(l.compare(0, 9, "finding: ")) continue;
            while(!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
            std::string pk = std::string("property=") + cfg.prop + " key=";
            size_t a = l.find(pk), b = l.find(" :: ");
            if(a == std::string::npos || b == std::string::npos) continue;
            a += pk.size();
            known[l.substr(a, b - a)] = l.substr(b + 4);
        }
        if(f) fclose(f);
    }
    std::set<std::string> knownHit, reported;
    int nviol = 0, unconfirmed = 0;
    mkdir((verif + "/evidence").c_str(), 0755);
    mkdir((verif + "/evidence/replays").c_str(), 0755);
    for(int i = 0; i < S->nv && nviol < 12; i++) {
        Viol *v = &S->v[i];
        std::string msg, err, key, hist;
        key = runOnce(v->c, v->len, "", 60, &msg, &err, false);
        if(key.empty() || key == "engine-error") {
            hist = v->histFile;
            key = runOnce(v->c, v->len, hist, 120, &msg, &err, false);
            if(key.empty() || key == "engine-error") { unconfirmed++; fprintf(stderr, "unconfirmed: %s\n%s\n", v->key, v->msg); continue; }
            key = "after-history:" + key;
        }
        if(known.count(key)) { knownHit.insert(key); continue; }
        if(reported.count(key)) continue;
        reported.insert(key);
        std::string rf = verif + "/evidence/replays/" + cfg.prop + fmt("-%d.txt", nviol);
        FILE *f = fopen(rf.c_str(), "w");
        if(f) {
            fprintf(f, "property: %s\ntier: %s\nkey: %s\n", cfg.prop, theTier ? "thorough" : "quick", key.c_str());
            if(!hist.empty()) {
                fprintf(f, "history:");
                FILE *h = fopen(hist.c_str(), "r"); uint16_t u;
                while(h && fread(&u, 2, 1, h) == 1) fprintf(f, " %u", u);
                if(h) fclose(h);
                fprintf(f, "\n");
            }
            fprintf(f, "choices:");
            for(int k = 0; k < v->len; k++) fprintf(f, " %u", v->c[k]);
            fprintf(f, "\nmessage:\n%s\n", msg.c_str());
            fclose(f);
        }
        printf("VIOLATION property=%s replay=%s\n", cfg.prop, rf.c_str());
        printf("  key=%s\n  %s\n", key.c_str(), msg.substr(0, 1500).c_str());
        nviol++;
    }
    for(auto &k : knownHit) printf("KNOWN-FINDING: property=%s %s\n", cfg.prop, known[k].c_str());
    double wall = (nowNs() - t0) / 1e9;
    bool exhaustive = !S->capHit && !engineErr && S->nv < MAXV;
    printf("%s %s: executions=%llu states=%llu transitions=%llu validated=%llu pruned=%llu maxdepth=%llu exhaustive=%d violations=%d known=%d unconfirmed=%d crashes=%d nondet=%llu wall=%.1fs\n",
           cfg.prop, theTier ? "thorough" : "quick", (unsigned long long)S->execs, (unsigned long long)S->states,
           (unsigned long long)S->edges, (unsigned long long)S->validated, (unsigned long long)S->prunes, (unsigned long long)S->maxDepth,
           exhaustive, nviol, (int)knownHit.size(), unconfirmed, crashes, (unsigned long long)S->nondet, wall);
    {
        std::string ev = verif + "/evidence/" + cfg.prop + ".json";
        FILE *f = fopen(ev.c_str(), "w");
        if(f) {
            const char *seed = getenv("VERIF_SEED");
            fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{", cfg.prop, theTier ? "thorough" : "quick", seed ? atoi(seed) : 0);
            fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"executions\":%llu,\"pruned\":%llu,\"max_choices\":%llu,\"exhaustive\":%s,\"samples\":[",
                    (unsigned long long)S->states, (unsigned long long)S->edges, (unsigned long long)S->validated, (unsigned long long)S->execs,
                    (unsigned long long)S->prunes, (unsigned long long)S->maxDepth, exhaustive ? "true" : "false");
            int n = S->nsamples > 4 ? 4 : S->nsamples;
            for(int i = 0; i < n; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(S->samples[i]).c_str());
            fprintf(f, "],\"scenarios\":[");
            for(size_t i = 0; i < scenarios.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(scenarios[i].first).c_str());
            fprintf(f, "],\"explanation\":\"states: distinct observations of the real code; transitions: edges of the choice tree; traces: executions of the real code compared with the model\"},");
            fprintf(f, "\"assumptions\":[\"%s\"],\"wall_s\":%.2f,\"violations\":%d}\n", jsonEsc(cfg.assumptions).c_str(), wall, nviol);
            fclose(f);
        }
    }
    rmTree(scratchDir);
    if(nviol) return 1;
    if(engineErr || unconfirmed > 0 || S->nondet) return engineErr ? 2 : 0;
    return 0;
}
}  // namespace mc
