/* A stand-in for the parts of the database server that the extension uses. */
#ifndef PGMOCK_H
#define PGMOCK_H
#ifdef __cplusplus
extern "C" {
#endif

enum { PGM_TEXT, PGM_INT4, PGM_FLOAT8 };
enum { PGM_ROW, PGM_NULL, PGM_ERROR, PGM_DONE };

typedef struct PgmQuery PgmQuery;       /* one executing statement: owns memory */
typedef struct PgmSite PgmSite;         /* one call of a function in its text */

/* how 0: delete the context, 1: reset it and delete it, 2: delete its parent */
PgmQuery *pgm_query(void);
void pgm_end(PgmQuery *q, int how);
PgmSite *pgm_site(PgmQuery *q, const char *symbol, int ncols, const int *types, int set);

/* one call, or the next call of a set returning function, which keeps its
   arguments until it is done; on PGM_ERROR pgm_message() tells what */
int pgm_call(PgmSite *s, int nargs, const char **args, int shorthdr);
int pgm_nvals(void);
const char *pgm_val(int i);             /* NULL for a null */
const char *pgm_message(void);
int pgm_busy(const PgmSite *s);         /* a set is being returned */

long pgm_contexts(void);                /* alive, other than the permanent ones */
long pgm_permanent_chunks(void);        /* chunks in the permanent contexts */
long pgm_hash_entries(void);
void pgm_trim(void);                    /* give back what the stand-in keeps for itself */
long pgm_asked(void);                   /* allocations the last call asked the server for */
void pgm_fail(long n);                  /* the n-th of a call fails with an error, 0: none */
int pgm_inside(void);                   /* the function that is called is running */
const char *pgm_fault(void);            /* misuse of the server, "" if none */

#ifdef __cplusplus
}
#endif
#endif
