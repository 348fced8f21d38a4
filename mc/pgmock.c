#include "postgres.h"
#include "fmgr.h"
#include "funcapi.h"
#include "miscadmin.h"
#include "access/htup_details.h"
#include "catalog/pg_type.h"
#include "nodes/memnodes.h"
#include "nodes/execnodes.h"
#include "utils/builtins.h"
#include "utils/hsearch.h"
#include "utils/memutils.h"
#include "common/hashfn.h"
#include <stdarg.h>
#include "pgmock.h"
#undef snprintf
#undef vsnprintf
#undef sprintf
#undef vsprintf
#undef printf
#undef fprintf
#undef vfprintf
#undef vprintf
#undef strerror

/* ------------------------------------------------------------ faults */

static char fault[400];
static void misuse(const char *what) { if (!fault[0]) snprintf(fault, sizeof fault, "%s", what); }
const char *pgm_fault(void) { return fault; }

/* ------------------------------------------------------------ memory */

#define MAGIC 0x5ca1ab1e
typedef struct Chunk { struct Chunk *prev, *next; struct Ctx *ctx; uint64 size; uint64 magic, pad; } Chunk;
typedef struct Ctx { MemoryContextData h; int alive, permanent; Chunk *chunks; struct Ctx *nextFree; } Ctx;

static Ctx *freeCtx;        /* contexts are used again, the last deleted first */
static long alive;
static Ctx topCtx, errCtx;
MemoryContext CurrentMemoryContext, TopMemoryContext, ErrorContext, PostmasterContext, CacheMemoryContext, MessageContext, TopTransactionContext, CurTransactionContext, PortalContext;

static void setup(void)
{
    if (TopMemoryContext) return;
    topCtx.h.type = errCtx.h.type = T_AllocSetContext;
    topCtx.h.name = "TopMemoryContext"; errCtx.h.name = "ErrorContext";
    topCtx.alive = errCtx.alive = topCtx.permanent = errCtx.permanent = 1;
    TopMemoryContext = &topCtx.h;
    CacheMemoryContext = MessageContext = TopTransactionContext = CurTransactionContext = PostmasterContext = PortalContext = TopMemoryContext;
    ErrorContext = &errCtx.h;
    CurrentMemoryContext = TopMemoryContext;
}
static Ctx *C(MemoryContext m, const char *what)
{
    Ctx *c = (Ctx *) m;
    if (!m) { misuse(what); abort(); }
    if (!c->alive) { misuse(what); fprintf(stderr, "use of a deleted memory context: %s\n", what); abort(); }
    return c;
}
/* allocations of the function that is called, and the one that fails */
static int inside;
static long asked, failing;
static void full(void);
long pgm_asked(void) { return asked; }
int pgm_inside(void) { return inside; }
void pgm_fail(long n) { failing = n; }
void *MemoryContextAllocExtended(MemoryContext m, Size n, int flags)
{
    Ctx *c = C(m, "MemoryContextAlloc");
    Chunk *k;
    if (!(flags & MCXT_ALLOC_NO_OOM)) full();
    k = malloc(sizeof(Chunk) + n);
    k->ctx = c; k->size = n; k->magic = MAGIC;
    k->prev = NULL; k->next = c->chunks; if (c->chunks) c->chunks->prev = k; c->chunks = k;
    c->h.isReset = false;
    memset(k + 1, flags & MCXT_ALLOC_ZERO ? 0 : 0xA5, n);
    return k + 1;
}
void *MemoryContextAlloc(MemoryContext m, Size n) { return MemoryContextAllocExtended(m, n, 0); }
void *MemoryContextAllocZero(MemoryContext m, Size n) { return MemoryContextAllocExtended(m, n, MCXT_ALLOC_ZERO); }
void *MemoryContextAllocZeroAligned(MemoryContext m, Size n) { return MemoryContextAllocExtended(m, n, MCXT_ALLOC_ZERO); }
void *MemoryContextAllocHuge(MemoryContext m, Size n) { return MemoryContextAllocExtended(m, n, 0); }
char *MemoryContextStrdup(MemoryContext m, const char *s) { char *r = MemoryContextAlloc(m, strlen(s) + 1); strcpy(r, s); return r; }
void *palloc(Size n) { return MemoryContextAlloc(CurrentMemoryContext, n); }
void *palloc0(Size n) { return MemoryContextAllocZero(CurrentMemoryContext, n); }
void *palloc_extended(Size n, int f) { return MemoryContextAllocExtended(CurrentMemoryContext, n, f); }
char *pstrdup(const char *s) { return MemoryContextStrdup(CurrentMemoryContext, s); }
char *pnstrdup(const char *s, Size n) { Size k = strnlen(s, n); char *r = palloc(k + 1); memcpy(r, s, k); r[k] = 0; return r; }
char *pchomp(const char *s) { Size n = strlen(s); while (n > 0 && s[n-1] == '\n') n--; return pnstrdup(s, n); }
static Chunk *K(void *p)
{
    Chunk *k = (Chunk *) p - 1;
    if (k->magic != MAGIC) { misuse("pfree of something else"); fprintf(stderr, "not a chunk of the server\n"); abort(); }
    return k;
}
void pfree(void *p)
{
    Chunk *k = K(p);
    if (!k->ctx->alive) misuse("pfree in a deleted context");
    if (k->prev) k->prev->next = k->next; else k->ctx->chunks = k->next;
    if (k->next) k->next->prev = k->prev;
    k->magic = 0;
    free(k);
}
void *repalloc(void *p, Size n) { Chunk *k = K(p); void *r = MemoryContextAlloc(&k->ctx->h, n); memcpy(r, p, k->size < n ? k->size : n); pfree(p); return r; }
MemoryContext GetMemoryChunkContext(void *p) { return &K(p)->ctx->h; }
Size GetMemoryChunkSpace(void *p) { return K(p)->size; }
MemoryContext MemoryContextGetParent(MemoryContext m) { return C(m, "MemoryContextGetParent")->h.parent; }
bool MemoryContextIsEmpty(MemoryContext m) { Ctx *c = C(m, "MemoryContextIsEmpty"); return !c->chunks && !m->firstchild; }
void MemoryContextSetIdentifier(MemoryContext m, const char *id) { C(m, "MemoryContextSetIdentifier")->h.ident = id; }
static void unlinkCtx(MemoryContext m)
{
    if (m->parent) {
        if (m->prevchild) m->prevchild->nextchild = m->nextchild; else m->parent->firstchild = m->nextchild;
        if (m->nextchild) m->nextchild->prevchild = m->prevchild;
    }
    m->parent = m->prevchild = m->nextchild = NULL;
}
static void linkCtx(MemoryContext m, MemoryContext p)
{
    m->parent = p; m->prevchild = NULL; m->nextchild = NULL;
    if (p) { C(p, "parent of a context"); m->nextchild = p->firstchild; if (p->firstchild) p->firstchild->prevchild = m; p->firstchild = m; }
}
void MemoryContextSetParent(MemoryContext m, MemoryContext p) { C(m, "MemoryContextSetParent"); unlinkCtx(m); linkCtx(m, p); }
MemoryContext AllocSetContextCreateInternal(MemoryContext parent, const char *name, Size a, Size b, Size c)
{
    Ctx *x;
    full();
    x = freeCtx;
    if (x) freeCtx = x->nextFree; else x = malloc(sizeof(Ctx));
    memset(x, 0, sizeof *x);
    x->h.type = T_AllocSetContext; x->h.isReset = true; x->h.name = name; x->alive = 1;
    linkCtx(&x->h, parent);
    alive++;
    return &x->h;
}
static void callbacks(MemoryContext m) { MemoryContextCallback *cb; while ((cb = m->reset_cbs) != NULL) { m->reset_cbs = cb->next; cb->func(cb->arg); } }
static void dropChunks(Ctx *c) { while (c->chunks) pfree(c->chunks + 1); }
void MemoryContextRegisterResetCallback(MemoryContext m, MemoryContextCallback *cb) { C(m, "MemoryContextRegisterResetCallback"); cb->next = m->reset_cbs; m->reset_cbs = cb; m->isReset = false; }
void MemoryContextDeleteChildren(MemoryContext m) { C(m, "MemoryContextDeleteChildren"); while (m->firstchild) MemoryContextDelete(m->firstchild); }
void MemoryContextDelete(MemoryContext m)
{
    Ctx *c = C(m, "MemoryContextDelete");
    if (c->permanent) { misuse("a permanent context is deleted"); return; }
    if (m == CurrentMemoryContext) misuse("the current context is deleted");
    MemoryContextDeleteChildren(m);
    callbacks(m);
    unlinkCtx(m);
    dropChunks(c);
    c->alive = 0;
    alive--;
    c->nextFree = freeCtx; freeCtx = c;
}
void MemoryContextResetOnly(MemoryContext m) { Ctx *c = C(m, "MemoryContextResetOnly"); if (!m->isReset) { callbacks(m); dropChunks(c); m->isReset = true; } }
void MemoryContextReset(MemoryContext m) { C(m, "MemoryContextReset"); MemoryContextDeleteChildren(m); MemoryContextResetOnly(m); }
void MemoryContextResetChildren(MemoryContext m) { MemoryContext k; for (k = m->firstchild; k; k = k->nextchild) { MemoryContextResetChildren(k); MemoryContextResetOnly(k); } }

long pgm_contexts(void) { return alive; }
long pgm_permanent_chunks(void) { long n = 0; Chunk *k; for (k = topCtx.chunks; k; k = k->next) n++; for (k = errCtx.chunks; k; k = k->next) n++; return n; }

/* ------------------------------------------------------------ printing */

char *psprintf(const char *f, ...)
{
    va_list a; int n; char *r;
    va_start(a, f); n = vsnprintf(NULL, 0, f, a); va_end(a);
    r = palloc(n + 1);
    va_start(a, f); vsnprintf(r, n + 1, f, a); va_end(a);
    return r;
}
int pg_vsnprintf(char *s, size_t n, const char *f, va_list a) { return vsnprintf(s, n, f, a); }
int pg_snprintf(char *s, size_t n, const char *f, ...) { va_list a; int r; va_start(a, f); r = vsnprintf(s, n, f, a); va_end(a); return r; }
int pg_vsprintf(char *s, const char *f, va_list a) { return vsprintf(s, f, a); }
int pg_sprintf(char *s, const char *f, ...) { va_list a; int r; va_start(a, f); r = vsprintf(s, f, a); va_end(a); return r; }
int pg_fprintf(FILE *o, const char *f, ...) { va_list a; int r; va_start(a, f); r = vfprintf(o, f, a); va_end(a); return r; }
int pg_vfprintf(FILE *o, const char *f, va_list a) { return vfprintf(o, f, a); }
int pg_printf(const char *f, ...) { va_list a; int r; va_start(a, f); r = vprintf(f, a); va_end(a); return r; }
char *pg_strerror(int e) { return strerror(e); }

/* ------------------------------------------------------------ errors */

sigjmp_buf *PG_exception_stack;
ErrorContextCallback *error_context_stack;
volatile sig_atomic_t InterruptPending;
void ProcessInterrupts(void) {}
static char message[2000];
static int level;
const char *pgm_message(void) { return message; }
bool errstart(int elevel, const char *domain) { level = elevel; if (elevel >= ERROR) { message[0] = 0; return true; } return false; }
bool errstart_cold(int elevel, const char *domain) { return errstart(elevel, domain); }
#define FORMATS(name) int name(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(message, sizeof message, f, a); va_end(a); return 0; }
FORMATS(errmsg)
FORMATS(errmsg_internal)
int errdetail(const char *f, ...) { return 0; }
int errdetail_internal(const char *f, ...) { return 0; }
int errhint(const char *f, ...) { return 0; }
int errcontext_msg(const char *f, ...) { return 0; }
int errcode(int c) { return 0; }
void pg_re_throw(void) { if (!PG_exception_stack) abort(); siglongjmp(*PG_exception_stack, 1); }
void errfinish(const char *file, int line, const char *fn) { if (level >= ERROR) pg_re_throw(); }
void FlushErrorState(void) {}
static void full(void)
{
    if (!inside || ++asked != failing) return;
    level = ERROR;
    strcpy(message, "out of memory");
    pg_re_throw();
}

/* ------------------------------------------------------------ hash table */

typedef struct HE { struct HE *next; } HE;
struct HTAB { Size key, entry; HashValueFunc hash; HashCompareFunc match; bool strings; HE *list; long n; };
static long entries;
static HE *lastRemoved;
long pgm_hash_entries(void) { return entries; }
HTAB *hash_create(const char *name, long n, const HASHCTL *i, int flags)
{
    HTAB *h = MemoryContextAllocZero(flags & HASH_CONTEXT ? i->hcxt : TopMemoryContext, sizeof(HTAB));
    if (!(flags & HASH_ELEM)) misuse("hash table without sizes");
    h->key = i->keysize; h->entry = i->entrysize;
    h->hash = flags & HASH_FUNCTION ? i->hash : NULL;
    h->strings = (flags & HASH_STRINGS) != 0;
    h->match = flags & HASH_COMPARE ? i->match : NULL;
    return h;
}
static bool same(HTAB *h, const void *a, const void *b)
{
    if (h->hash && h->hash(a, h->key) != h->hash(b, h->key)) return false;
    if (h->match) return h->match(a, b, h->key) == 0;
    return h->strings ? strncmp(a, b, h->key - 1) == 0 : memcmp(a, b, h->key) == 0;
}
void *hash_search(HTAB *h, const void *key, HASHACTION act, bool *found)
{
    HE **p = &h->list, *e;
    while (*p && !same(h, *p + 1, key)) p = &(*p)->next;
    e = *p;
    if (found) *found = e != NULL;
    switch (act) {
        case HASH_FIND: return e ? e + 1 : NULL;
        case HASH_REMOVE:
            if (!e) return NULL;
            *p = e->next; h->n--; entries--;
            /* the entry stays readable until the next call, as in the server */
            e->next = NULL;
            if (lastRemoved) free(lastRemoved);
            lastRemoved = e;
            return e + 1;
        default:
            if (e) return e + 1;
            if (act != HASH_ENTER_NULL) full();
            e = malloc(sizeof(HE) + h->entry);
            memset(e + 1, 0x5A, h->entry);
            if (h->strings) strncpy((char *) (e + 1), key, h->key - 1); else memcpy(e + 1, key, h->key);
            e->next = h->list; h->list = e; h->n++; entries++;
            return e + 1;
    }
}
long hash_get_num_entries(HTAB *h) { return h->n; }
void hash_destroy(HTAB *h) { if (!h) return; while (h->list) { HE *e = h->list; h->list = e->next; free(e); entries--; } pfree(h); }
void hash_seq_init(HASH_SEQ_STATUS *s, HTAB *h) { s->hashp = h; s->curEntry = (HASHELEMENT *) h->list; }
void *hash_seq_search(HASH_SEQ_STATUS *s) { HE *e = (HE *) s->curEntry; if (!e) return NULL; s->curEntry = (HASHELEMENT *) e->next; return e + 1; }
void hash_seq_term(HASH_SEQ_STATUS *s) {}
uint32 hash_bytes(const unsigned char *k, int n) { uint32 h = 2166136261u; int i; for (i = 0; i < n; i++) h = (h ^ k[i]) * 16777619u; return h; }
uint32 hash_bytes_uint32(uint32 k) { return hash_bytes((unsigned char *) &k, 4); }
uint64 hash_bytes_extended(const unsigned char *k, int n, uint64 seed) { return hash_bytes(k, n) + seed; }
uint32 tag_hash(const void *k, Size n) { return hash_bytes(k, n); }
uint32 string_hash(const void *k, Size n) { return hash_bytes(k, strnlen(k, n - 1)); }
uint32 uint32_hash(const void *k, Size n) { return hash_bytes(k, 4); }

/* ------------------------------------------------------------ text */

text *cstring_to_text_with_len(const char *s, int n) { text *t = palloc(n + VARHDRSZ); SET_VARSIZE(t, n + VARHDRSZ); memcpy(VARDATA(t), s, n); return t; }
text *cstring_to_text(const char *s) { return cstring_to_text_with_len(s, strlen(s)); }
struct varlena *pg_detoast_datum_packed(struct varlena *d) { return d; }
struct varlena *pg_detoast_datum(struct varlena *d)
{
    if (VARATT_IS_SHORT(d)) return (struct varlena *) cstring_to_text_with_len(VARDATA_SHORT(d), VARSIZE_SHORT(d) - VARHDRSZ_SHORT);
    return d;
}
struct varlena *pg_detoast_datum_copy(struct varlena *d) { return (struct varlena *) cstring_to_text_with_len(VARDATA_ANY(d), VARSIZE_ANY_EXHDR(d)); }
char *text_to_cstring(const text *t) { return pnstrdup(VARDATA_ANY(t), VARSIZE_ANY_EXHDR(t)); }
void text_to_cstring_buffer(const text *t, char *b, size_t n) { size_t k = VARSIZE_ANY_EXHDR(t); if (k >= n) k = n - 1; memcpy(b, VARDATA_ANY(t), k); b[k] = 0; }

/* ------------------------------------------------------------ tuples */

typedef struct Row { HeapTupleHeaderData h; uint64 magic; int n; char *val[]; } Row;

struct PgmQuery { MemoryContext portal, ctx; struct PgmSite *sites; };
struct PgmSite { PgmQuery *q; FmgrInfo f; int ncols, types[64], set; MemoryContext args, row; FunctionCallInfo fc; struct PgmSite *next; };

static PgmSite *current;
TupleDesc CreateTemplateTupleDesc(int n) { TupleDesc d = palloc0(offsetof(struct TupleDescData, attrs) + n * sizeof(FormData_pg_attribute)); d->natts = n; d->tdrefcount = -1; d->tdtypeid = RECORDOID; d->tdtypmod = -1; return d; }
TupleDesc CreateTupleDescCopy(TupleDesc t) { TupleDesc d = CreateTemplateTupleDesc(t->natts); memcpy(d->attrs, t->attrs, t->natts * sizeof(FormData_pg_attribute)); return d; }
void FreeTupleDesc(TupleDesc d) { pfree(d); }
void DecrTupleDescRefCount(TupleDesc d) {}
TypeFuncClass get_call_result_type(FunctionCallInfo fcinfo, Oid *t, TupleDesc *d)
{
    static const Oid oid[] = { TEXTOID, INT4OID, FLOAT8OID };
    int i;
    if (t) *t = current->ncols ? RECORDOID : TEXTOID;
    if (!current->ncols) { if (d) *d = NULL; return TYPEFUNC_SCALAR; }
    if (d) {
        *d = CreateTemplateTupleDesc(current->ncols);
        for (i = 0; i < current->ncols; i++) { Form_pg_attribute a = TupleDescAttr(*d, i); a->atttypid = oid[current->types[i]]; a->attnum = i + 1; a->attlen = current->types[i] == PGM_TEXT ? -1 : current->types[i] == PGM_INT4 ? 4 : 8; a->attbyval = current->types[i] != PGM_TEXT; }
    }
    return TYPEFUNC_COMPOSITE;
}
TupleDesc BlessTupleDesc(TupleDesc d) { d->tdtypmod = 0; return d; }
AttInMetadata *TupleDescGetAttInMetadata(TupleDesc d) { AttInMetadata *a = palloc0(sizeof *a); a->tupdesc = BlessTupleDesc(d); return a; }
static HeapTuple newRow(TupleDesc d, Row **r)
{
    HeapTuple t = palloc0(sizeof(HeapTupleData));
    if (d->tdtypmod < 0) misuse("a row of a descriptor that is not blessed");
    *r = palloc0(sizeof(Row) + d->natts * sizeof(char *));
    (*r)->magic = MAGIC; (*r)->n = d->natts;
    t->t_data = &(*r)->h; t->t_len = sizeof(Row);
    return t;
}
HeapTuple BuildTupleFromCStrings(AttInMetadata *a, char **v)
{
    Row *r; HeapTuple t = newRow(a->tupdesc, &r); int i;
    for (i = 0; i < r->n; i++) r->val[i] = v[i] ? pstrdup(v[i]) : NULL;
    return t;
}
HeapTuple heap_form_tuple(TupleDesc d, Datum *v, bool *nulls)
{
    Row *r; HeapTuple t = newRow(d, &r); int i;
    for (i = 0; i < r->n; i++) {
        if (nulls[i]) continue;
        switch (TupleDescAttr(d, i)->atttypid) {
            case INT4OID: r->val[i] = psprintf("%d", DatumGetInt32(v[i])); break;
            case FLOAT8OID: r->val[i] = psprintf("%.17g", DatumGetFloat8(v[i])); break;
            default: r->val[i] = text_to_cstring(DatumGetTextPP(v[i]));
        }
    }
    return t;
}
void heap_freetuple(HeapTuple t) { pfree(t); }
Datum HeapTupleHeaderGetDatum(HeapTupleHeader h) { return PointerGetDatum(h); }

/* ------------------------------------------------------------ sets */

FuncCallContext *init_MultiFuncCall(FunctionCallInfo fcinfo)
{
    FuncCallContext *f; MemoryContext m;
    if (fcinfo->resultinfo == NULL || !IsA(fcinfo->resultinfo, ReturnSetInfo)) misuse("a set returning function called for no set");
    if (fcinfo->flinfo->fn_extra) misuse("init_MultiFuncCall twice");
    m = AllocSetContextCreateInternal(fcinfo->flinfo->fn_mcxt, "SRF multi-call context", 0, 0, 0);
    f = MemoryContextAllocZero(m, sizeof *f);
    f->multi_call_memory_ctx = m;
    fcinfo->flinfo->fn_extra = f;
    return f;
}
FuncCallContext *per_MultiFuncCall(PG_FUNCTION_ARGS) { return (FuncCallContext *) fcinfo->flinfo->fn_extra; }
void end_MultiFuncCall(PG_FUNCTION_ARGS, FuncCallContext *f) { fcinfo->flinfo->fn_extra = NULL; MemoryContextDelete(f->multi_call_memory_ctx); }

/* ------------------------------------------------------------ calls */

extern Datum as_standardize(PG_FUNCTION_ARGS);
extern Datum as_parse(PG_FUNCTION_ARGS);
extern Datum as_match(PG_FUNCTION_ARGS);
extern Datum as_compile_lexicon(PG_FUNCTION_ARGS);

PgmQuery *pgm_query(void)
{
    PgmQuery *q = malloc(sizeof *q);
    setup();
    q->portal = AllocSetContextCreateInternal(TopMemoryContext, "portal", 0, 0, 0);
    q->ctx = AllocSetContextCreateInternal(q->portal, "ExecutorState", 0, 0, 0);
    q->sites = NULL;
    return q;
}
static void dropSite(PgmSite *s) { MemoryContextDelete(s->args); MemoryContextDelete(s->row); }
void pgm_end(PgmQuery *q, int how)
{
    PgmSite *s;
    CurrentMemoryContext = TopMemoryContext;
    if (how == 1) MemoryContextReset(q->ctx);
    if (how != 2) MemoryContextDelete(q->ctx);
    MemoryContextDelete(q->portal);
    while ((s = q->sites) != NULL) { q->sites = s->next; dropSite(s); free(s->fc); free(s); }
    free(q);
}
PgmSite *pgm_site(PgmQuery *q, const char *symbol, int ncols, const int *types, int set)
{
    PgmSite *s = calloc(1, sizeof *s); int i;
    s->q = q; s->next = q->sites; q->sites = s;
    s->f.fn_addr = !strcmp(symbol, "as_standardize") ? as_standardize : !strcmp(symbol, "as_parse") ? as_parse : !strcmp(symbol, "as_match") ? as_match : !strcmp(symbol, "as_compile_lexicon") ? as_compile_lexicon : NULL;
    if (!s->f.fn_addr) misuse("a function that is not there");
    s->f.fn_mcxt = q->ctx; s->f.fn_strict = true; s->f.fn_retset = set;
    s->ncols = ncols; for (i = 0; i < ncols; i++) s->types[i] = types[i];
    s->set = set;
    s->args = AllocSetContextCreateInternal(TopMemoryContext, "arguments", 0, 0, 0);
    s->row = AllocSetContextCreateInternal(TopMemoryContext, "per tuple", 0, 0, 0);
    return s;
}
int pgm_busy(const PgmSite *s) { return s->fc != NULL; }

static int nvals; static char *vals[64];
int pgm_nvals(void) { return nvals; }
const char *pgm_val(int i) { return i >= 0 && i < nvals ? vals[i] : NULL; }

int pgm_call(PgmSite *s, int nargs, const char **args, int shorthdr)
{
    sigjmp_buf here, *was = PG_exception_stack;
    ReturnSetInfo rsi;
    volatile int r = PGM_ROW;
    Datum d; int i;
    while (nvals) free(vals[--nvals]);
    current = s;
    if (!s->fc) {
        CurrentMemoryContext = s->args;
        s->fc = calloc(1, SizeForFunctionCallInfo(nargs));
        s->fc->flinfo = &s->f;
        s->fc->nargs = nargs;
        for (i = 0; i < nargs; i++) {
            size_t n = strlen(args[i]);
            if (shorthdr && n + 1 <= VARATT_SHORT_MAX) {
                char *p = palloc(n + 1);
                SET_VARSIZE_SHORT(p, n + 1);
                memcpy(p + 1, args[i], n);
                s->fc->args[i].value = PointerGetDatum(p);
            }
            else s->fc->args[i].value = PointerGetDatum(cstring_to_text(args[i]));
            s->fc->args[i].isnull = false;
        }
    }
    if (s->set) {
        memset(&rsi, 0, sizeof rsi);
        rsi.type = T_ReturnSetInfo; rsi.allowedModes = SFRM_ValuePerCall; rsi.returnMode = SFRM_ValuePerCall; rsi.isDone = ExprSingleResult;
        s->fc->resultinfo = (Node *) &rsi;
    }
    s->fc->isnull = false;
    CurrentMemoryContext = s->row;
    if (sigsetjmp(here, 0) == 0) {
        PG_exception_stack = &here;
        asked = 0; inside = 1;
        d = s->f.fn_addr(s->fc);
        inside = 0;
        PG_exception_stack = was;
        if (CurrentMemoryContext != s->row) misuse("the current memory context is not restored");
        if (s->set && rsi.isDone == ExprEndResult) r = PGM_DONE;
        else if (s->set && rsi.isDone != ExprMultipleResult) misuse("a set without an end");
        else if (s->fc->isnull) r = PGM_NULL;
        else if (s->ncols) {
            Row *row = (Row *) DatumGetPointer(d);
            if (!row || row->magic != MAGIC) misuse("the result is not a row");
            else { nvals = row->n; for (i = 0; i < nvals; i++) vals[i] = row->val[i] ? strdup(row->val[i]) : NULL; }
        }
        else {
            text *t = DatumGetTextPP(d); size_t n = VARSIZE_ANY_EXHDR(t);
            nvals = 1; vals[0] = malloc(n + 1); memcpy(vals[0], VARDATA_ANY(t), n); vals[0][n] = 0;
        }
    }
    else { PG_exception_stack = was; inside = 0; r = PGM_ERROR; }
    CurrentMemoryContext = TopMemoryContext;
    MemoryContextReset(s->row);
    if (!s->set || r == PGM_DONE || r == PGM_ERROR) { MemoryContextReset(s->args); free(s->fc); s->fc = NULL; }
    return r;
}

void pgm_trim(void)
{
    while (nvals) free(vals[--nvals]);
    while (freeCtx) { Ctx *c = freeCtx; freeCtx = c->nextFree; free(c); }
    if (lastRemoved) { free(lastRemoved); lastRemoved = NULL; }
}
