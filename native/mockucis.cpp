// A small native UCIS library, according to the C header of the standard.
// It keeps what it is told, so that the monitor can compare it with what the program said.
// Control functions: mock_dump() (state as JSON), mock_fail(n) (the n-th call from now fails),
// mock_reset().
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

typedef struct { void *filehandle; int line; int token; } ucisSourceInfoT;
typedef union { uint64_t int64; uint32_t int32; unsigned char *bytevector; } ucisCoverDataValueT;
typedef struct {
    uint64_t type; uint32_t flags; ucisCoverDataValueT data; int goal; int weight; int limit; int bitlen;
} ucisCoverDataT;
typedef struct {
    int teststatus; double simtime; const char *timeunit; const char *runcwd; double cputime; const char *seed;
    const char *cmd; const char *args; int compulsory; const char *date; const char *username; double cost;
    const char *toolcategory;
} ucisTestDataT;
typedef struct { int msgno; int severity; const char *msgstr; } ucisErrorT;

struct Str {
    bool null = true; std::string s;
    void set(const char *p) { null = !p; s = p ? p : ""; }
};
struct Src { bool null = true; int file = -1, line = 0, token = 0; };
struct Item { Str name; Src src; uint64_t type; uint32_t flags; uint64_t data; std::string vec; int goal, weight, limit, bitlen; };
struct Obj {
    uint32_t magic; int id; int db; char kind;      // D database, S scope, I instance, X cross, T toggle, H history, F file
    int parent = -1;
    Str name, name2; Src src; int weight = 0, source = 0; uint64_t type = 0; long flags = 0; int du = -1;
    int t1 = 0, t2 = 0, t3 = 0;
    std::vector<int> points, kids;
    std::vector<Item> items;
    std::map<std::pair<int, int>, int> ip;
    std::map<std::pair<int, int>, Str> sp;
    bool has_td = false;
    int status = 0, compulsory = 0; double simtime = 0, cputime = 0, cost = 0;
    Str td[8];
    int closed = 0;
};
struct Iter { uint32_t magic; std::vector<Obj *> l; size_t i; char kind; };
struct Write { int db; Str file; int scope; int recurse; uint64_t cover; };

static const uint32_t OBJ = 0x0b1ec7ed, ITER = 0x17e7a70e;
static std::vector<Obj *> objs;
static std::vector<Write> writes;
static std::vector<std::string> errors;
static long muts, fail_at, live_iters, calls;
static void (*handler)(void *, ucisErrorT *);

static bool failing() {
    if (fail_at <= 0 || --fail_at) return false;
    if (handler) { ucisErrorT e = {42, 1, "rejected"}; handler(nullptr, &e); }
    return true;
}
static void error(const std::string &s) { if (errors.size() < 20) errors.push_back(s); }
static Obj *obj(void *p, const char *what, bool null_ok = false) {
    if (!p) { if (!null_ok) error(std::string("NULL as ") + what); return nullptr; }
    Obj *o = (Obj *)p;
    if (o->magic != OBJ) { error(std::string("not a handle: ") + what); return nullptr; }
    return o;
}
static Obj *mk(char kind, int db) {
    Obj *o = new Obj(); o->magic = OBJ; o->kind = kind; o->id = objs.size(); o->db = db < 0 ? o->id : db;
    objs.push_back(o); muts++; return o;
}
static void src(Src &s, ucisSourceInfoT *p) {
    s.null = !p;
    if (!p) return;
    Obj *f = obj(p->filehandle, "file handle", true);
    if (f && f->kind != 'F') error("file handle is not a file");
    s.file = f ? f->id : -1; s.line = p->line; s.token = p->token;
}
static int db_of(void *db) { calls++; Obj *d = obj(db, "db"); if (d && d->kind != 'D') error("not a database"); return d ? d->id : -2; }
static Obj *scope_of(void *db, void *s, const char *what) {      // NULL: the database itself
    return obj(s ? s : db, what);
}

extern "C" {
void *ucis_Open(const char *file) {
    calls++;
    if (failing()) return nullptr;
    Obj *o = mk('D', -1); o->name.set(file); return o;
}
int ucis_Close(void *db) { db_of(db); Obj *d = obj(db, "db"); if (d) d->closed++; muts++; return 0; }
int ucis_Write(void *db, const char *file, void *scope, int recurse, uint64_t covertype) {
    Write w; w.db = db_of(db); w.file.set(file); Obj *s = obj(scope, "scope", true); w.scope = s ? s->id : -1;
    w.recurse = recurse; w.cover = covertype;
    if (failing()) return -1;
    writes.push_back(w); muts++; return 0;
}
void *ucis_CreateHistoryNode(void *db, void *parent, const char *ln, const char *pn, int kind) {
    int d = db_of(db); Obj *p = obj(parent, "parent history node", true);
    if (p && p->kind != 'H') error("parent is not a history node");
    if (failing()) return nullptr;
    Obj *o = mk('H', d); o->parent = p ? p->id : -1; o->name.set(ln); o->name2.set(pn); o->type = (uint64_t)(int64_t)kind; return o;
}
static Obj *create(char kind, void *db, void *parent, const char *name, ucisSourceInfoT *si) {
    int d = db_of(db); Obj *p = scope_of(db, parent, "parent");
    Src s; src(s, si);
    if (p && (p->kind == 'H' || p->kind == 'F')) error("parent is not a scope");
    if (failing() || !p) return nullptr;
    Obj *o = mk(kind, d); o->parent = p->id; o->name.set(name); o->src = s; p->kids.push_back(o->id); return o;
}
void *ucis_CreateScope(void *db, void *parent, const char *name, ucisSourceInfoT *si, int weight, int source, uint64_t type, int flags) {
    Obj *o = create('S', db, parent, name, si); if (!o) return nullptr;
    o->weight = weight; o->source = source; o->type = type; o->flags = (uint32_t)flags; return o;
}
void *ucis_CreateInstance(void *db, void *parent, const char *name, ucisSourceInfoT *si, int weight, int source, uint64_t type, void *du, int flags) {
    Obj *d = obj(du, "design unit", true);
    Obj *o = create('I', db, parent, name, si); if (!o) return nullptr;
    o->weight = weight; o->source = source; o->type = type; o->flags = (uint32_t)flags; o->du = d ? d->id : -1; return o;
}
void *ucis_CreateCross(void *db, void *parent, const char *name, ucisSourceInfoT *si, int weight, int source, int n, void **points) {
    Obj *o = create('X', db, parent, name, si); if (!o) return nullptr;
    o->weight = weight; o->source = source; o->type = 0x8000;
    for (int i = 0; i < n; i++) { Obj *p = obj(points[i], "crossed coverpoint"); o->points.push_back(p ? p->id : -1); }
    return o;
}
void *ucis_CreateToggle(void *db, void *parent, const char *name, const char *canon, unsigned flags, int metric, int type, int dir) {
    Obj *o = create('T', db, parent, name, nullptr); if (!o) return nullptr;
    o->name2.set(canon); o->flags = flags; o->t1 = metric; o->t2 = type; o->t3 = dir; o->type = 1; return o;
}
int ucis_CreateNextCover(void *db, void *parent, const char *name, ucisCoverDataT *data, ucisSourceInfoT *si) {
    db_of(db); Obj *p = scope_of(db, parent, "parent of a cover item");
    if (failing() || !p) return -1;
    Item i; i.name.set(name); src(i.src, si);
    i.type = data->type; i.flags = data->flags; i.data = 0;
    if (data->flags & 1) i.data = data->data.int32;
    else if (data->flags & 2) i.data = data->data.int64;
    else if (data->flags & 4) i.vec.assign((char *)data->data.bytevector, (data->bitlen + 7) / 8);
    i.goal = data->goal; i.weight = data->weight; i.limit = data->limit; i.bitlen = data->bitlen;
    p->items.push_back(i); muts++; return (int)p->items.size() - 1;
}
void ucis_SetIntProperty(void *db, void *o_, int idx, int prop, int value) {
    db_of(db); Obj *o = scope_of(db, o_, "object of a property"); if (!o) return;
    o->ip[std::make_pair(idx, prop)] = value; muts++;
}
int ucis_GetIntProperty(void *db, void *o_, int idx, int prop) {
    db_of(db); Obj *o = scope_of(db, o_, "object of a property"); if (!o) return -1;
    auto it = o->ip.find(std::make_pair(idx, prop)); return it == o->ip.end() ? -1 : it->second;
}
void ucis_SetStringProperty(void *db, void *o_, int idx, int prop, const char *v) {
    db_of(db); Obj *o = scope_of(db, o_, "object of a property"); if (!o) return;
    o->sp[std::make_pair(idx, prop)].set(v); muts++;
}
const char *ucis_GetStringProperty(void *db, void *o_, int idx, int prop) {
    db_of(db); Obj *o = scope_of(db, o_, "object of a property"); if (!o) return nullptr;
    auto it = o->sp.find(std::make_pair(idx, prop)); return it == o->sp.end() ? nullptr : it->second.s.c_str();
}
void *ucis_CreateFileHandle(void *db, const char *name, const char *wd) {
    int d = db_of(db); if (failing()) return nullptr;
    Obj *o = mk('F', d); o->name.set(name); o->name2.set(wd); return o;
}
const char *ucis_GetFileName(void *db, void *fh) {
    db_of(db); Obj *o = obj(fh, "file handle", true); return o ? o->name.s.c_str() : nullptr;
}
void ucis_RegisterErrorHandler(void (*cb)(void *, ucisErrorT *), void *) { handler = cb; calls++; }
int ucis_SetTestData(void *db, void *h, ucisTestDataT *t) {
    db_of(db); Obj *o = obj(h, "history node"); if (!o || o->kind != 'H') { error("not a history node"); return -1; }
    o->has_td = true; o->status = t->teststatus; o->simtime = t->simtime; o->cputime = t->cputime; o->compulsory = t->compulsory; o->cost = t->cost;
    const char *s[8] = {t->timeunit, t->runcwd, t->seed, t->cmd, t->args, t->date, t->username, t->toolcategory};
    for (int i = 0; i < 8; i++) o->td[i].set(s[i]);
    muts++; return 0;
}
int ucis_GetTestData(void *db, void *h, ucisTestDataT *t) {
    db_of(db); Obj *o = obj(h, "history node"); if (!o || o->kind != 'H') { error("not a history node"); return -1; }
    t->teststatus = o->status; t->simtime = o->simtime; t->cputime = o->cputime; t->compulsory = o->compulsory; t->cost = o->cost;
    const char **s[8] = {&t->timeunit, &t->runcwd, &t->seed, &t->cmd, &t->args, &t->date, &t->username, &t->toolcategory};
    for (int i = 0; i < 8; i++) *s[i] = o->td[i].null ? nullptr : o->td[i].s.c_str();
    return 0;
}
static Iter *iter(char k) { Iter *i = new Iter(); i->magic = ITER; i->i = 0; i->kind = k; live_iters++; return i; }
static Iter *it_of(void *p, char k) {
    Iter *i = (Iter *)p;
    if (!i || i->magic != ITER || i->kind != k) { error("not an iterator"); return nullptr; }
    return i;
}
void *ucis_HistoryIterate(void *db, void *h, int kind) {
    int d = db_of(db); Iter *i = iter('H'); (void)h;
    for (Obj *o : objs) if (o->db == d && o->kind == 'H' && (kind == 0 || (int)o->type == kind)) i->l.push_back(o);
    return i;
}
void *ucis_HistoryScan(void *db, void *p) { db_of(db); Iter *i = it_of(p, 'H'); return i && i->i < i->l.size() ? i->l[i->i++] : nullptr; }
void *ucis_ScopeIterate(void *db, void *s, uint64_t mask) {
    db_of(db); Obj *o = scope_of(db, s, "scope of an iteration"); Iter *i = iter('S');
    if (o) for (int k : o->kids) if (objs[k]->type & mask) i->l.push_back(objs[k]);
    return i;
}
void *ucis_ScopeScan(void *db, void *p) { db_of(db); Iter *i = it_of(p, 'S'); return i && i->i < i->l.size() ? i->l[i->i++] : nullptr; }
void ucis_FreeIterator(void *db, void *p) {
    db_of(db); Iter *i = (Iter *)p;
    if (!i || i->magic != ITER) { error("freeing what is not an iterator"); return; }
    i->magic = 0; live_iters--; delete i;
}
int ucis_GetScopeSourceInfo(void *db, void *s, ucisSourceInfoT *si) {
    db_of(db); Obj *o = scope_of(db, s, "scope"); if (!o) return -1;
    si->filehandle = o->src.null || o->src.file < 0 ? nullptr : objs[o->src.file]; si->line = o->src.line; si->token = o->src.token; return 0;
}

// --- control ---
static std::string out;
static void str(const Str &s) {
    if (s.null) { out += "null"; return; }
    char b[4]; out += '"'; for (unsigned char c : s.s) { snprintf(b, 4, "%02x", c); out += b; } out += '"';
}
static void num(long long v) { out += std::to_string(v); }
static void dbl(double v) { char b[64]; snprintf(b, 64, "\"%a\"", v); out += b; }
static void srco(const Src &s) { if (s.null) { out += "null"; return; } out += '['; num(s.file); out += ','; num(s.line); out += ','; num(s.token); out += ']'; }
const char *mock_dump() {
    out = "{\"objs\":[";
    for (Obj *o : objs) {
        if (o->id) out += ',';
        out += "{\"kind\":\""; out += o->kind; out += "\",\"db\":"; num(o->db); out += ",\"parent\":"; num(o->parent);
        out += ",\"name\":"; str(o->name); out += ",\"name2\":"; str(o->name2); out += ",\"src\":"; srco(o->src);
        out += ",\"weight\":"; num(o->weight); out += ",\"source\":"; num(o->source); out += ",\"type\":"; num((long long)o->type);
        out += ",\"flags\":"; num(o->flags); out += ",\"du\":"; num(o->du); out += ",\"t\":["; num(o->t1); out += ','; num(o->t2); out += ','; num(o->t3);
        out += "],\"points\":["; for (size_t i = 0; i < o->points.size(); i++) { if (i) out += ','; num(o->points[i]); }
        out += "],\"kids\":["; for (size_t i = 0; i < o->kids.size(); i++) { if (i) out += ','; num(o->kids[i]); }
        out += "],\"items\":[";
        for (size_t i = 0; i < o->items.size(); i++) {
            Item &t = o->items[i]; if (i) out += ',';
            out += "{\"name\":"; str(t.name); out += ",\"src\":"; srco(t.src); out += ",\"type\":"; num((long long)t.type); out += ",\"flags\":"; num(t.flags);
            Str v; v.null = false; v.s = t.vec; out += ",\"vec\":"; str(v); out += ",\"data\":"; out += std::to_string(t.data);
            out += ",\"goal\":"; num(t.goal); out += ",\"weight\":"; num(t.weight); out += ",\"limit\":"; num(t.limit); out += ",\"bitlen\":"; num(t.bitlen); out += '}';
        }
        out += "],\"ip\":{"; bool c = false;
        for (auto &p : o->ip) { if (c) out += ','; c = true; out += "\"" + std::to_string(p.first.first) + ":" + std::to_string(p.first.second) + "\":"; num(p.second); }
        out += "},\"sp\":{"; c = false;
        for (auto &p : o->sp) { if (c) out += ','; c = true; out += "\"" + std::to_string(p.first.first) + ":" + std::to_string(p.first.second) + "\":"; str(p.second); }
        out += "},\"closed\":"; num(o->closed); out += ",\"td\":";
        if (!o->has_td) out += "null";
        else {
            out += '['; num(o->status); out += ','; dbl(o->simtime); out += ','; dbl(o->cputime); out += ','; num(o->compulsory); out += ','; dbl(o->cost);
            for (int i = 0; i < 8; i++) { out += ','; str(o->td[i]); } out += ']';
        }
        out += '}';
    }
    out += "],\"writes\":[";
    for (size_t i = 0; i < writes.size(); i++) {
        Write &w = writes[i]; if (i) out += ',';
        out += '['; num(w.db); out += ','; str(w.file); out += ','; num(w.scope); out += ','; num(w.recurse); out += ','; out += std::to_string(w.cover); out += ']';
    }
    out += "],\"errors\":[";
    for (size_t i = 0; i < errors.size(); i++) { if (i) out += ','; out += "\"" + errors[i] + "\""; }
    out += "],\"muts\":"; num(muts); out += ",\"calls\":"; num(calls); out += ",\"iters\":"; num(live_iters); out += ",\"handler\":"; num(handler != nullptr); out += '}';
    return out.c_str();
}
void mock_fail(int n) { fail_at = n; }
void mock_reset() { for (Obj *o : objs) { o->magic = 0; delete o; } objs.clear(); writes.clear(); errors.clear(); muts = calls = fail_at = live_iters = 0; }
}
