/*
 * Core layer driver: descriptors, iterators, buffers, journals and the chunk
 * allocator. One scenario per input line, one JSON list of results per line.
 *
 *   desc ND {n {tag %name}*}* NE {n {number %name}*}* NO {d n idx*}*  query*
 *     query: t d tag | n d %name | e E number | m E %name | x base ext | i kind k ops
 *   buf <kind> <alloc> <hex> op*
 *     kind: copy empty zero jcopy jempty jzero bad jbad;  alloc: d (default) f (counting) k<cap> (chunk allocator)
 *     op: [?n] p off byte | g hex | w start end hex | c start end | jw origin start end hex | jc origin start end | d
 *   chunk <cap> [!n] op*
 *     op: [?n] a i size | r i size | f i | D
 *
 * "?n": the n-th allocation or resize request of the operation fails; if the
 * operation then reports an error it is repeated without failure.
 */
#include <assert.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include "schema.h"
#include <protobluff/core.h>
#include <protobluff/message.h>
#include <protobluff/util.h>
#include "core/allocator.h"
#include "core/buffer.h"
#include "message/buffer.h"
#include "message/journal.h"

static void puthex(const uint8_t *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { putchar_unlocked(d[p[i] >> 4]); putchar_unlocked(d[p[i] & 15]); }
}

/* ---- requests to the system allocator (link with --wrap) ----------------- */
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int inlib; static long fail_in, hits, live;
static int should_fail(void) { if (fail_in > 0 && --fail_in == 0) { hits++; return 1; } return 0; }
void *__wrap_malloc(size_t n) {
  if (inlib && should_fail()) return NULL;
  void *p = __real_malloc(n); if (inlib && p) live++; return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (inlib && should_fail()) return NULL;
  void *p = __real_realloc(q, n); if (inlib && p && !q) live++; return p;
}
void __wrap_free(void *p) { if (inlib && p) live--; __real_free(p); }

/* ---- allocator handed to the library -------------------------------------- */
static void *f_alloc(void *d, size_t n) { (void)d; if (should_fail()) return NULL; live++; return __real_malloc(n); }
typedef struct { size_t n; } hdr_t;
static void *f_resize(void *d, void *p, size_t n) {
  (void)d; if (should_fail()) return NULL;
  if (!p) live++;
  void *q = __real_malloc(n);                 /* always move: stale pointers become visible */
  if (p) { extern size_t malloc_usable_size(void *); size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); __real_free(p); }
  return q;
}
static void f_free(void *d, void *p) { (void)d; live--; __real_free(p); }
static pb_allocator_t fault_alloc = { { f_alloc, f_resize, f_free }, NULL };

/* ---- tokens ---------------------------------------------------------------- */
static char *tok[8192]; static int nt, at;
static char *nextt(void) { return at < nt ? tok[at++] : (char *)""; }
static long num(void) { return atol(nextt()); }
static size_t big(void) {                     /* M-k: largest size minus k */
  char *s = nextt();
  if (*s == 'M') return SIZE_MAX - (s[1] ? strtoul(s + 2, 0, 10) : 0);
  return strtoul(s, 0, 10);
}
static int outs; static void sep(void) { if (outs++) putchar(','); }

/* ---- descriptors ------------------------------------------------------------ */
static void *exact(const void *p, size_t n) { void *q = __real_malloc(n ? n : 1); memcpy(q, p, n); return q; }
static char *namecpy(const char *s) { return exact(s + 1, strlen(s)); }
static void desc(void) {
  static pb_descriptor_t *D[64]; static pb_enum_descriptor_t *E[64]; static pb_oneof_descriptor_t *O[64];
  int nd = num();
  for (int d = 1; d <= nd; d++) {
    int n = num(); pb_field_descriptor_t *a = __real_malloc(sizeof *a * (n + 1));
    for (int i = 0; i < n; i++) {
      pb_tag_t tag = strtoul(nextt(), 0, 10);
      pb_field_descriptor_t f = { tag, namecpy(nextt()), PB_TYPE_INT32, PB_LABEL_OPTIONAL, NULL, NULL, 0 };
      memcpy((void *)&a[i], &f, sizeof f);
    }
    pb_descriptor_t t = { { n ? exact(a, sizeof *a * n) : NULL, n }, NULL }; __real_free(a);
    D[d] = exact(&t, sizeof t);
  }
  int ne = num();
  for (int e = 1; e <= ne; e++) {
    int n = num(); pb_enum_value_descriptor_t *a = __real_malloc(sizeof *a * (n + 1));
    for (int i = 0; i < n; i++) {
      pb_enum_t k = (pb_enum_t)strtol(nextt(), 0, 10);
      pb_enum_value_descriptor_t v = { k, namecpy(nextt()) };
      memcpy((void *)&a[i], &v, sizeof v);
    }
    pb_enum_descriptor_t t = { { n ? exact(a, sizeof *a * n) : NULL, n } }; __real_free(a);
    E[e] = exact(&t, sizeof t);
  }
  int no = num();
  for (int o = 1; o <= no; o++) {
    int d = num(), n = num(); size_t *idx = __real_malloc(sizeof *idx * (n + 1));
    for (int i = 0; i < n; i++) idx[i] = big();
    pb_oneof_descriptor_t t = { D[d], { exact(idx, sizeof *idx * n), n } }; __real_free(idx);
    O[o] = exact(&t, sizeof t);
  }
  while (at < nt) {
    char *q = nextt(); sep();
    if (*q == 't' || *q == 'n') {
      int d = num(); char *s = nextt();
      const pb_field_descriptor_t *f = *q == 't' ? pb_descriptor_field_by_tag(D[d], strtoul(s, 0, 10)) : pb_descriptor_field_by_name(D[d], s + 1);
      int o = 0, i = 0;
      if (f) { o = -1; for (int k = 1; k <= nd; k++) if (f >= D[k]->field.data && f < D[k]->field.data + D[k]->field.size) { o = k; i = (int)(f - D[k]->field.data) + 1; } }
      printf("[%d,%d]", o, i);
    } else if (*q == 'e') {
      int e = num(); pb_enum_t k = (pb_enum_t)num();
      const struct pb_enum_value_descriptor_t *v = pb_enum_descriptor_value_by_number(E[e], k);
      if (!v) printf("[0,0]"); else if (v < E[e]->value.data || v >= E[e]->value.data + E[e]->value.size) printf("[-1,0]");
      else printf("[1,%d]", pb_enum_value_descriptor_number(v));
    } else if (*q == 'm') {
      int e = num(); char *s = nextt();
      const struct pb_enum_value_descriptor_t *v = pb_enum_descriptor_value_by_name(E[e], s + 1);
      printf("%d", !v ? 0 : v < E[e]->value.data || v >= E[e]->value.data + E[e]->value.size ? -1 : (int)(v - E[e]->value.data) + 1);
    } else if (*q == 'x') { int a = num(), b = num(); pb_descriptor_extend(D[a], D[b]); printf("0"); }
    else if (*q == 'i') {
      char kind = *nextt(); int k = num(); char *ops = nextt();
      putchar('['); int first = 1;
#define RUN(T, W, BASE, CUR) { T##_iter_t it = T##_iter_create(W); printf("[%zu,%d]", (size_t)T##_size(W), !!T##_empty(W)); first = 0; \
        for (char *o = ops; *o; o++) { int rc = *o == 'b' ? T##_iter_begin(&it) : *o == 'e' ? T##_iter_end(&it) : *o == 'n' ? T##_iter_next(&it) : T##_iter_prev(&it); \
          printf("%s[%d", first ? "" : ",", !!rc); first = 0; \
          if (it.pos != SIZE_MAX) printf(",%zu,%ld", (size_t)T##_iter_pos(&it) + 1, (long)(T##_iter_current(&it) - (BASE)) + 1); else printf(",0,0"); \
          printf("]"); } T##_iter_destroy(&it); }
      if (kind == 'd') RUN(pb_descriptor, D[k], D[k]->field.data, 0)
      else if (kind == 'e') RUN(pb_enum_descriptor, E[k], E[k]->value.data, 0)
      else RUN(pb_oneof_descriptor, O[k], O[k]->descriptor->field.data, 0)
      putchar(']');
    } else { fprintf(stderr, "unknown query %s\n", q); exit(3); }
  }
}

/* ---- buffers and journals ------------------------------------------------------ */
static void buf(void) {
  char *kind = nextt(), *al = nextt(); uint8_t *src; size_t n = vp_hex(nextt(), &src); long rc = 0;
  int J = *kind == 'j'; char *k = kind + J; pb_buffer_t B; pb_journal_t j; pb_allocator_t ch;
  pb_allocator_t *A = *al == 'f' ? &fault_alloc : &allocator_default;
  live = 0; hits = 0; fail_in = 0;
  int wrap = *al == 'd'; inlib = *al != 'f';
  if (*al == 'k') { ch = pb_chunk_allocator_create_with_capacity(atol(al + 1)); A = &ch; }
  if (!strcmp(k, "bad")) fail_in = 1;
  if (J) {
    if (!strcmp(k, "empty")) j = *al == 'd' ? pb_journal_create_empty() : pb_journal_create_empty_with_allocator(A);
    else if (!strcmp(k, "zero")) j = pb_journal_create_zero_copy(src, n);
    else j = *al == 'd' ? pb_journal_create(src, n) : pb_journal_create_with_allocator(A, src, n);
  } else {
    if (!strcmp(k, "empty")) B = *al == 'd' ? pb_buffer_create_empty() : pb_buffer_create_empty_with_allocator(A);
    else if (!strcmp(k, "zero")) B = n ? pb_buffer_create_zero_copy(src, n) : pb_buffer_create_empty();
    else B = *al == 'd' ? pb_buffer_create(src, n) : pb_buffer_create_with_allocator(A, src, n);
  }
  fail_in = 0; inlib = 0;
#define BUF (J ? pb_journal_buffer(&j) : &B)
#define SHOW(rc) { const pb_buffer_t *b = BUF; int ok = J ? pb_journal_valid(&j) : pb_buffer_valid(b); \
    size_t z = J ? pb_journal_size(&j) : pb_buffer_size(b); const uint8_t *p = J ? pb_journal_data(&j) : pb_buffer_data(b); \
    printf("[%ld,%d,\"", (long)(rc), !!ok); if (ok) puthex(p, z); \
    printf("\",%d,%d,\"", ok ? !!(J ? pb_journal_empty(&j) : pb_buffer_empty(b)) : -1, ok && z ? p == src : -1); puthex(src, n); printf("\",%d]", J ? pb_journal_error(&j) : pb_buffer_error(b)); }
  sep(); SHOW(0);
  while (at < nt) {
    long fail = 0; if (*tok[at] == '?') fail = atol(nextt() + 1);
    int op = at; sep(); if (fail) printf("[");
    for (int attempt = 0; attempt < 2; attempt++) {
      at = op; char *o = nextt(); rc = 0;
      hits = 0; fail_in = attempt ? 0 : fail; 
      uint8_t *p = NULL; size_t m, a, b, c;
      if (*o == 'p') { a = big(); src[a] = (uint8_t)num(); }
      else if (*o == 'g') { m = vp_hex(nextt(), &p); inlib = wrap || *al == 'k'; uint8_t *q = pb_buffer_grow(BUF, m); inlib = 0; rc = q ? 0 : -1; if (q) memcpy(q, p, m); }
      else if (*o == 'w') { a = big(); b = big(); m = vp_hex(nextt(), &p); inlib = wrap || *al == 'k'; rc = pb_buffer_write(BUF, a, b, p, m); inlib = 0; }
      else if (*o == 'c') { a = big(); b = big(); inlib = wrap || *al == 'k'; rc = pb_buffer_clear(BUF, a, b); inlib = 0; }
      else if (!strcmp(o, "jw")) { c = big(); a = big(); b = big(); m = vp_hex(nextt(), &p); inlib = wrap || *al == 'k'; rc = pb_journal_write(&j, c, a, b, p, m); inlib = 0; }
      else if (!strcmp(o, "jc")) { c = big(); a = big(); b = big(); inlib = wrap || *al == 'k'; rc = pb_journal_clear(&j, c, a, b); inlib = 0; }
      else if (*o == 'd') { inlib = wrap || *al == 'k'; if (J) pb_journal_destroy(&j); else pb_buffer_destroy(&B); inlib = 0; }
      else { fprintf(stderr, "unknown op %s\n", o); exit(3); }
      if (p) memset(p, 0xEE, 1);
      free(p);
      if (fail && !attempt) printf("%ld,", hits);
      SHOW(rc);
      if (!fail) break;
      if (!attempt && !(hits && rc)) { printf("]"); break; }
      if (attempt) printf("]"); else printf(",");
    }
  }
  fail_in = 0; inlib = wrap || *al == 'k';
  if (J) pb_journal_destroy(&j); else pb_buffer_destroy(&B);
  if (J) pb_journal_destroy(&j); else pb_buffer_destroy(&B);      /* destroying twice is harmless */
  if (*al == 'k') { inlib = 1; pb_chunk_allocator_destroy(&ch); }
  inlib = 0; sep(); printf("[\"live\",%ld,\"", live); puthex(src, n); printf("\"]");
  free(src);
}

/* ---- chunk allocator -------------------------------------------------------------- */
#define MAXB 16
static void runs(const uint8_t *p, size_t n) {
  putchar('[');
  for (size_t i = 0, k; i < n; i = k) { for (k = i; k < n && p[k] == p[i]; k++) ; printf("%s[%d,%zu]", i ? "," : "", p[i], k - i); }
  putchar(']');
}
static void chunk(void) {
  size_t cap = big(); struct { uint8_t *p; size_t n; } b[MAXB] = { { 0 } }; int stamp = 0, dead = 0;
  live = 0; hits = 0; fail_in = 0;
  if (at < nt && *tok[at] == '!') fail_in = atol(nextt() + 1);
  inlib = 1; pb_allocator_t A = cap ? pb_chunk_allocator_create_with_capacity(cap) : pb_chunk_allocator_create(); inlib = 0; fail_in = 0;
  while (at < nt) {
    long fail = 0; if (*tok[at] == '?') fail = atol(nextt() + 1);
    char o = *nextt(); int i = o != 'D' ? (int)num() : 0; size_t n = o == 'a' || o == 'r' ? big() : 0; uint8_t *q = NULL; int ok = 1; size_t old = b[i].n;
    sep(); if (fail) printf("[");
    if (o == 'a' || o == 'r') stamp++;
    for (int attempt = 0; attempt < 2; attempt++) {
      hits = 0; fail_in = attempt ? 0 : fail; inlib = 1;
      if (o == 'a') q = pb_allocator_allocate(&A, n);
      else if (o == 'r') q = pb_allocator_resize(&A, b[i].p, n);
      else if (o == 'f') { pb_allocator_free(&A, b[i].p); b[i].p = NULL; b[i].n = 0; }
      else { pb_chunk_allocator_destroy(&A); dead = 1; }
      inlib = 0; fail_in = 0;
      if (o == 'a' || o == 'r') {
        ok = !!q;
        if (q && n < (size_t)1 << 40) {
          if (o == 'a') old = 0;
          b[i].p = q; b[i].n = n;
          for (size_t k = old; k < n; k++) q[k] = (uint8_t)stamp;       /* the new bytes */
        }
      }
      int overlap = 0;
      for (int x = 0; x < MAXB && !dead; x++) for (int y = x + 1; y < MAXB; y++)
        if (b[x].p && b[y].p && b[x].p < b[y].p + b[y].n && b[y].p < b[x].p + b[x].n) overlap = 1;
      if (fail && !attempt) printf("%ld,", hits);
      printf("[%d,%d,[", ok, overlap);
      for (int x = 0; x < MAXB && !dead; x++) { if (x) putchar(','); runs(b[x].p, b[x].p ? b[x].n : 0); }
      printf("]]");
      if (!fail) break;
      if (attempt || !(hits && !ok)) { printf("]"); break; }
      printf(",");
    }
    if (dead) break;
  }
  if (!dead) { inlib = 1; pb_chunk_allocator_destroy(&A); inlib = 0; }
  sep(); printf("[\"live\",%ld]", live);
}

static void on_alarm(int sig) { (void)sig; static const char m[] = "SUMMARY: no progress within 5 s of CPU time\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }

int main(int argc, char **argv) {
  (void)argc; (void)argv;
  signal(SIGPROF, on_alarm);
  setvbuf(stdout, NULL, _IOLBF, 1 << 20);
  char *line = NULL; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    struct itimerval tv = { { 0, 0 }, { 5, 0 } }; setitimer(ITIMER_PROF, &tv, NULL);
    nt = 0; at = 0; outs = 0;
    for (char *p = strtok(line, " \n"); p && nt < 8192; p = strtok(NULL, " \n")) tok[nt++] = p;
    if (!nt) continue;
    char *o = nextt(); putchar('[');
    if (!strcmp(o, "desc")) desc();
    else if (!strcmp(o, "buf")) buf();
    else if (!strcmp(o, "chunk")) chunk();
    else return 3;
    printf("]\n");
  }
  free(line);
  return 0;
}
