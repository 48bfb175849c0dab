/*
 * Message layer driver: executes operation scripts on the real library and
 * reports, after every operation, the return code, the value read, every byte
 * of every journal and a non-destructive probe of every handle.
 *
 * "?n operation": the n-th allocation request of the operation fails.
 *
 * Probes work on shallow copies of the handles (all handles are plain public
 * structs), so the lazily synchronised state of the originals is untouched.
 */
#include <assert.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include "schema.h"
#include "message/common.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/nested.h"
#include "message/oneof.h"
#include "message/part.h"
#include <protobluff/message.h>
#include <protobluff/util/validator.h>

#define MAXH 256
#define MAXJ 8
enum { K_NONE, K_MSG, K_FLD, K_CUR, K_ONE };
typedef struct { int k; int type; pb_message_t m; pb_field_t f; pb_cursor_t c; pb_oneof_t o; int dead; } H;
static H h[MAXH]; static int maxh;
static struct { int used, zc; pb_journal_t j; uint8_t *mem; size_t n; } J[MAXJ];

/* ---- fault injecting, accounting allocator ------------------------------ */
static long fail_in = -1, reqs = 0, live = 0, failed = 0;
static int should_fail(void) {
  reqs++;
  if (fail_in > 0 && --fail_in == 0) { fail_in = -1; failed++; return 1; }
  return 0;
}
static void *f_alloc(void *d, size_t n) { (void)d; if (should_fail()) return NULL; live++; return malloc(n); }
static void *f_resize(void *d, void *p, size_t n) {
  (void)d; if (should_fail()) return NULL;
  if (!p) live++;
  void *q = malloc(n);                        /* always move: stale pointers become visible */
  if (p) { extern size_t malloc_usable_size(void *); size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); }
  return q;
}
static void f_free(void *d, void *p) { (void)d; live--; free(p); }
static pb_allocator_t fault_alloc = { { f_alloc, f_resize, f_free }, NULL };

/* ---- output ------------------------------------------------------------- */
static void puthex(const uint8_t *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { putchar_unlocked(d[p[i] >> 4]); putchar_unlocked(d[p[i] & 15]); }
}
static const pb_field_descriptor_t *fd(const pb_descriptor_t *d, pb_tag_t tag) { return pb_descriptor_field_by_tag(d, tag); }
static int isstr(int t) { return t == PB_TYPE_STRING || t == PB_TYPE_BYTES || t == PB_TYPE_MESSAGE; }

typedef union { uint8_t raw[16]; pb_string_t s; uint64_t align; } val_t;
static void putval(int type, const val_t *v) {
  if (isstr(type)) puthex(v->s.data, v->s.size);
  else puthex(v->raw, pb_field_descriptor_type_size_map[type]);
}
static uint8_t *tofree; 
static void mkval(int type, const char *hex, val_t *v) {
  uint8_t *p; size_t n = vp_hex(hex, &p);
  memset(v, 0, sizeof *v);
  if (isstr(type)) { v->s = n ? pb_string_init(p, n) : pb_string_init_empty(); tofree = p; }
  else { memcpy(v->raw, p, n < 8 ? n : 8); free(p); tofree = NULL; }
}

/* the debug output of a handle goes nowhere: it must neither fail nor change anything */
static void dump(const H *x) {
  static FILE *nowhere;
  if (!nowhere && !(nowhere = fopen("/dev/null", "w"))) return;
  const pb_journal_t *j = x->k == K_MSG ? pb_message_journal(&x->m) : x->k == K_FLD ? pb_field_journal(&x->f) : pb_cursor_journal(&x->c);
  if (pb_journal_size(j) > 2048) return;
  FILE *err = stderr; stderr = nowhere;
  if (x->k == K_MSG) pb_message_dump(&x->m);
  if (x->k == K_FLD) pb_field_dump(&x->f);
  pb_journal_dump(j);
  stderr = err;
}

/* error kinds are reported as numbers */
static void probe(int i) {
  H *x = &h[i];
  switch (x->k) {
    case K_MSG: {
      pb_message_t c = x->m;
      if (!pb_message_valid(&c) || pb_message_align(&c)) { printf("x"); break; }
      printf("v");
      puthex(pb_journal_data(pb_message_journal(&c)) + pb_message_start(&c), pb_message_size(&c));
      dump(x);
      break;
    }
    case K_FLD: {
      pb_field_t c = x->f;
      if (!pb_field_valid(&c) || pb_field_align(&c)) { printf("x"); break; }
      val_t v; memset(&v, 0, sizeof v);
      int t = pb_field_descriptor_type(pb_field_descriptor(&c));
      pb_error_t e = pb_field_get(&c, &v);
      if (e) printf("e%d", e); else { printf("v"); putval(t, &v); }
      dump(x);
      break;
    }
    case K_CUR: {
      pb_cursor_t c = x->c;
      if (!pb_cursor_valid(&c)) { printf("e%d", pb_cursor_error(&c)); break; }
      const pb_field_descriptor_t *d = pb_cursor_descriptor(&c);
      int t = pb_field_descriptor_type(d);
      if (t == PB_TYPE_MESSAGE) {
        pb_message_t m = pb_message_create_from_cursor(&c);
        if (!pb_message_valid(&m)) printf("x");
        else { printf("v"); puthex(pb_journal_data(pb_message_journal(&m)) + pb_message_start(&m), pb_message_size(&m)); }
      } else {
        val_t v; memset(&v, 0, sizeof v);
        pb_error_t e = pb_cursor_get(&c, &v);
        if (e == PB_ERROR_INVALID) printf("x"); else if (e) printf("E%d", e); else { printf("v"); putval(t, &v); }
      }
      printf("@%zu", x->c.pos);
      break;
    }
    case K_ONE: {
      pb_oneof_t c = x->o;
      printf("t%u", pb_oneof_case(&c));
      break;
    }
  }
}

/* ---- locations: what every handle shows, as JSON records (see spec/BadTrace.tla) ---- */
static int locs;
static void putbytes(const uint8_t *p, size_t n) {
  printf("["); for (size_t i = 0; i < n; i++) printf("%s%u", i ? "," : "", p[i]); printf("]");
}
static void putnative(int type, const val_t *v) {
  if (isstr(type)) putbytes(v->s.data, v->s.size); else putbytes(v->raw, pb_field_descriptor_type_size_map[type]);
}
static void show(int ok, long rc, size_t s, size_t e, int type, const val_t *v) {
  printf("{\"ok\":%d,\"rc\":%ld,\"s\":%zu,\"e\":%zu,\"v\":", ok, rc, s, e);
  if (v) putnative(type, v); else printf("[]");
  printf("}");
}
static void locate(int i) {
  H *x = &h[i];
  val_t v; memset(&v, 0, sizeof v);
  if (x->k == K_MSG) {
    pb_message_t c = x->m;
    if (!pb_message_valid(&c) || pb_message_align(&c)) show(0, 2, 0, 0, 0, NULL);
    else { show(1, 0, pb_message_start(&c), pb_message_end(&c), 0, NULL); dump(x); }
  } else if (x->k == K_FLD) {
    pb_field_t c = x->f;
    if (!pb_field_valid(&c) || pb_field_align(&c)) { show(0, 2, 0, 0, 0, NULL); return; }
    int t = pb_field_descriptor_type(pb_field_descriptor(&c));
    long rc = pb_field_get(&c, &v);
    show(1, rc, 0, 0, t, rc ? NULL : &v); dump(x);
  } else if (x->k == K_CUR) {
    pb_cursor_t c = x->c;
    if (!pb_cursor_valid(&c)) { show(0, pb_cursor_error(&c), 0, 0, 0, NULL); return; }
    int t = pb_field_descriptor_type(pb_cursor_descriptor(&c));
    if (t == PB_TYPE_MESSAGE) {
      pb_message_t m = pb_message_create_from_cursor(&c);
      if (!pb_message_valid(&m)) show(1, 2, 0, 0, 0, NULL);
      else show(1, 0, pb_message_start(&m), pb_message_end(&m), 0, NULL);
    } else {
      long rc = pb_cursor_get(&c, &v);
      show(1, rc, 0, 0, t, rc ? NULL : &v);
    }
  } else {
    pb_oneof_t c = x->o;
    show(1, pb_oneof_case(&c), 0, 0, 0, NULL);
  }
}
static void report_locs(long rc, int type, const val_t *v) {
  printf("{\"rc\":%ld,\"val\":", rc);
  if (v) putnative(type, v); else printf("[]");
  printf(",\"b\":");
  if (J[1].zc) putbytes(J[1].mem, J[1].n); else putbytes(pb_journal_data(&J[1].j), pb_journal_size(&J[1].j));
  printf(",\"h\":[");
  for (int i = 1; i <= maxh; i++) { if (i > 1) printf(","); locate(i); }
  printf("]}");
}

static void report(long rc, int type, const val_t *v) {
  if (locs) { report_locs(rc, type, v); return; }
  printf("{\"rc\":%ld,\"v\":\"", rc);
  if (v) putval(type, v);
  printf("\",\"j\":[");
  int first = 1;
  for (int i = 0; i < MAXJ; i++) if (J[i].used) {
    printf("%s\"", first ? "" : ","); first = 0;
    if (J[i].zc) puthex(J[i].mem, J[i].n);
    else if (pb_journal_valid(&J[i].j)) puthex(pb_journal_data(&J[i].j), pb_journal_size(&J[i].j));
    else printf("!");
    printf("\"");
  }
  printf("],\"h\":{");
  first = 1;
  for (int i = 1; i <= maxh; i++) if (h[i].k && !h[i].dead) {
    printf("%s\"%d\":\"", first ? "" : ",", i); first = 0;
    probe(i); printf("\"");
  }
  printf("}}");
}

static char *tok[64]; static int nt;
static int arg(int i) { return i < nt ? atoi(tok[i]) : 0; }
static H *newh(int i, int k) { if (i > maxh) maxh = i; memset(&h[i], 0, sizeof h[i]); h[i].k = k; return &h[i]; }
static size_t tags(int from, pb_tag_t *t) { size_t n = 0; for (int i = from; i < nt; i++) t[n++] = (pb_tag_t)strtoul(tok[i], 0, 10); return n; }
/* handles created invalid may carry no descriptor, or one of an enclosing message */
static int ftype(const pb_message_t *m, pb_tag_t tag) {
  const pb_field_descriptor_t *f = m->descriptor ? fd(m->descriptor, tag) : NULL;
  return f ? (int)pb_field_descriptor_type(f) : PB_TYPE_STRING;
}
static int leaftype(const pb_descriptor_t *d, const pb_tag_t *t, size_t n) {
  const pb_field_descriptor_t *f = NULL;
  for (size_t i = 0; i < n; i++) {
    if (!d || !(f = fd(d, t[i]))) return PB_TYPE_STRING;
    d = pb_field_descriptor_type(f) == PB_TYPE_MESSAGE ? pb_field_descriptor_nested(f) : NULL;
  }
  return pb_field_descriptor_type(f);
}
static void reset(void) {
  for (int i = 1; i <= maxh; i++) if (h[i].k && !h[i].dead) {
    if (h[i].k == K_MSG) pb_message_destroy(&h[i].m);
    if (h[i].k == K_FLD) pb_field_destroy(&h[i].f);
    if (h[i].k == K_CUR) pb_cursor_destroy(&h[i].c);
    if (h[i].k == K_ONE) pb_oneof_destroy(&h[i].o);
  }
  memset(h, 0, sizeof h); maxh = 0;
  for (int i = 0; i < MAXJ; i++) if (J[i].used) { pb_journal_destroy(&J[i].j); free(J[i].mem); }
  memset(J, 0, sizeof J); fail_in = -1;
}

/* executes the tokenised operation */
static void run(const char *o, long *rc, int *vt, int *has, val_t *out) {
  H *a = nt > 1 ? &h[arg(1) & 255] : NULL; val_t v;
  *rc = 0; *vt = 0; *has = 0; memset(out, 0, sizeof *out); free(tofree); tofree = NULL;
  /* journal <j> <mode> <hex> */
  if (!strcmp(o, "journal")) {
    int j = arg(1); uint8_t *p; size_t n = vp_hex(tok[3], &p);
    J[j].used = 1; J[j].mem = p; J[j].n = n;
    switch (tok[2][0]) {
      case 'e': J[j].j = pb_journal_create_empty(); break;
      case 'c': J[j].j = pb_journal_create(p, n); memset(p, 0xEE, n); break;
      case 'z': J[j].zc = 1; J[j].j = pb_journal_create_zero_copy(p, n); break;
      case 'f': J[j].j = n ? pb_journal_create_with_allocator(&fault_alloc, p, n)
                           : pb_journal_create_empty_with_allocator(&fault_alloc); break;
    }
    *rc = pb_journal_error(&J[j].j);
  }
  else if (!strcmp(o, "msg"))    { H *x = newh(arg(1), K_MSG); x->m = pb_message_create(vp_types[arg(3)].desc, &J[arg(2)].j); *rc = pb_message_error(&x->m); }
  else if (!strcmp(o, "within")) { H *s = &h[arg(2)]; H *x = newh(arg(1), K_MSG); x->m = pb_message_create_within(&s->m, arg(3)); *rc = pb_message_error(&x->m); }
  else if (!strcmp(o, "mnested")){ pb_tag_t t[32]; size_t n = tags(3, t); H *s = &h[arg(2)]; H *x = newh(arg(1), K_MSG); x->m = pb_message_create_nested(&s->m, t, n); *rc = pb_message_error(&x->m); }
  else if (!strcmp(o, "mfromcur")){ H *s = &h[arg(2)]; H *x = newh(arg(1), K_MSG); x->m = pb_message_create_from_cursor(&s->c); *rc = pb_message_error(&x->m); }
  else if (!strcmp(o, "mfromfld")){ H *s = &h[arg(2)]; H *x = newh(arg(1), K_MSG); x->m = pb_message_create_from_field(vp_types[arg(3)].desc, &s->f); *rc = pb_message_error(&x->m); }
  else if (!strcmp(o, "mhas"))   *rc = pb_message_has(&a->m, arg(2));
  else if (!strcmp(o, "mget"))   { *vt = ftype(&a->m, arg(2)); *rc = pb_message_get(&a->m, arg(2), out); *has = !*rc; }
  else if (!strcmp(o, "mput"))   { mkval(ftype(&a->m, arg(2)), tok[3], &v); *rc = pb_message_put(&a->m, arg(2), &v); }
  else if (!strcmp(o, "mputm"))  *rc = pb_message_put(&a->m, arg(2), &h[arg(3)].m);
  else if (!strcmp(o, "mmatch")) { mkval(ftype(&a->m, arg(2)), tok[3], &v); *rc = pb_message_match(&a->m, arg(2), &v); }
  else if (!strcmp(o, "merase")) *rc = pb_message_erase(&a->m, arg(2));
  else if (!strcmp(o, "mclear")) *rc = pb_message_clear(&a->m);
  else if (!strcmp(o, "nhas"))   { pb_tag_t t[32]; size_t n = tags(2, t); *rc = pb_message_nested_has(&a->m, t, n); }
  else if (!strcmp(o, "nget"))   { pb_tag_t t[32]; size_t n = tags(2, t); *vt = leaftype(a->m.descriptor, t, n); *rc = pb_message_nested_get(&a->m, t, n, out); *has = !*rc; }
  else if (!strcmp(o, "nput"))   { pb_tag_t t[32]; size_t n = tags(3, t); mkval(leaftype(a->m.descriptor, t, n), tok[2], &v); *rc = pb_message_nested_put(&a->m, t, n, &v); }
  else if (!strcmp(o, "nputm"))  { pb_tag_t t[32]; size_t n = tags(3, t); *rc = pb_message_nested_put(&a->m, t, n, &h[arg(2)].m); }
  else if (!strcmp(o, "nmatch")) { pb_tag_t t[32]; size_t n = tags(3, t); mkval(leaftype(a->m.descriptor, t, n), tok[2], &v); *rc = pb_message_nested_match(&a->m, t, n, &v); }
  else if (!strcmp(o, "nerase")) { pb_tag_t t[32]; size_t n = tags(2, t); *rc = pb_message_nested_erase(&a->m, t, n); }
  else if (!strcmp(o, "fcreate")){ H *s = &h[arg(2)]; H *x = newh(arg(1), K_FLD); x->f = pb_field_create(&s->m, arg(3)); *rc = pb_field_error(&x->f); }
  else if (!strcmp(o, "fnested")){ pb_tag_t t[32]; size_t n = tags(3, t); H *s = &h[arg(2)]; H *x = newh(arg(1), K_FLD); x->f = pb_field_create_nested(&s->m, t, n); *rc = pb_field_error(&x->f); }
  else if (!strcmp(o, "ffromcur")){ H *s = &h[arg(2)]; H *x = newh(arg(1), K_FLD); x->f = pb_field_create_from_cursor(&s->c); *rc = pb_field_error(&x->f); }
  else if (!strcmp(o, "fget"))   { *vt = a->f.descriptor ? (int)pb_field_descriptor_type(a->f.descriptor) : 0; *rc = pb_field_get(&a->f, out); *has = !*rc; }
  else if (!strcmp(o, "fput"))   { mkval(a->f.descriptor ? (int)pb_field_descriptor_type(a->f.descriptor) : 1, tok[2], &v); *rc = pb_field_put(&a->f, &v); }
  else if (!strcmp(o, "fmatch")) { mkval(a->f.descriptor ? (int)pb_field_descriptor_type(a->f.descriptor) : 1, tok[2], &v); *rc = pb_field_match(&a->f, &v); }
  else if (!strcmp(o, "fclear")) *rc = pb_field_clear(&a->f);
  else if (!strcmp(o, "ccreate")){ H *s = &h[arg(2)]; H *x = newh(arg(1), K_CUR); x->c = pb_cursor_create(&s->m, arg(3)); *rc = pb_cursor_error(&x->c); }
  else if (!strcmp(o, "cnested")){ pb_tag_t t[32]; size_t n = tags(3, t); H *s = &h[arg(2)]; H *x = newh(arg(1), K_CUR); x->c = pb_cursor_create_nested(&s->m, t, n); *rc = pb_cursor_error(&x->c); }
  else if (!strcmp(o, "cnext"))  *rc = pb_cursor_next(&a->c);
  else if (!strcmp(o, "crewind"))*rc = pb_cursor_rewind(&a->c);
  else if (!strcmp(o, "cseek"))  { mkval(a->c.current.descriptor ? (int)pb_field_descriptor_type(a->c.current.descriptor) : 1, tok[2], &v); *rc = pb_cursor_seek(&a->c, &v); }
  else if (!strcmp(o, "cmatch")) { mkval(a->c.current.descriptor ? (int)pb_field_descriptor_type(a->c.current.descriptor) : 1, tok[2], &v); *rc = pb_cursor_match(&a->c, &v); }
  else if (!strcmp(o, "cget"))   { *vt = a->c.current.descriptor ? (int)pb_field_descriptor_type(a->c.current.descriptor) : 0; *rc = pb_cursor_get(&a->c, out); *has = !*rc; }
  else if (!strcmp(o, "cput"))   { mkval(a->c.current.descriptor ? (int)pb_field_descriptor_type(a->c.current.descriptor) : 1, tok[2], &v); *rc = pb_cursor_put(&a->c, &v); }
  else if (!strcmp(o, "cputm"))  *rc = pb_cursor_put(&a->c, &h[arg(2)].m);
  else if (!strcmp(o, "cerase")) *rc = pb_cursor_erase(&a->c);
  else if (!strcmp(o, "oneof"))  { H *s = &h[arg(2)]; H *x = newh(arg(1), K_ONE); x->o = pb_oneof_create(vp_types[arg(3)].oneofs[arg(4)], &s->m); }
  else if (!strcmp(o, "ocase"))  *rc = pb_oneof_case(&a->o);
  else if (!strcmp(o, "oclear")) *rc = pb_oneof_clear(&a->o);
  else if (!strcmp(o, "destroy")) {
    if (a->k == K_MSG) { pb_message_destroy(&a->m); *rc = pb_message_error(&a->m); }
    if (a->k == K_FLD) { pb_field_destroy(&a->f); *rc = pb_field_error(&a->f); }
    if (a->k == K_CUR) { pb_cursor_destroy(&a->c); *rc = pb_cursor_error(&a->c); }
    if (a->k == K_ONE) pb_oneof_destroy(&a->o);
    a->dead = 1;
  }
  else if (!strcmp(o, "drop")) { a->dead = 1; }
  else if (!strcmp(o, "validate")) {
    /* validate <j> <type>: verdict of the validator on the journal's bytes */
    pb_validator_t val = pb_validator_create(vp_types[arg(2)].desc);
    size_t zn = pb_journal_size(&J[arg(1)].j);
    pb_buffer_t b = zn ? pb_buffer_create_zero_copy(pb_journal_data(&J[arg(1)].j), zn) : pb_buffer_create_empty();
    *rc = pb_validator_check(&val, &b);
    pb_validator_destroy(&val);
  }
  else { fprintf(stderr, "unknown op %s\n", o); exit(3); }
  free(tofree); tofree = NULL;
}

/* a session that burns more than 5 s of CPU time does not terminate */
static void on_alarm(int sig) { (void)sig; static const char m[] = "SUMMARY: no progress within 5 s of CPU time\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
static void arm(void) { struct itimerval t = { { 0, 0 }, { 5, 0 } }; setitimer(ITIMER_PROF, &t, NULL); }

int main(int argc, char **argv) {
  if (argc < 2) return 3;
  signal(SIGPROF, on_alarm);
  setvbuf(stdout, NULL, _IOLBF, 1 << 20);
  vp_schema_load(argv[1]);
  char *line = NULL; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    nt = 0;
    for (char *p = strtok(line, " \n"); p && nt < 64; p = strtok(NULL, " \n")) tok[nt++] = p;
    if (!nt) continue;
    const char *o = tok[0]; long rc = 0; val_t out; int vt = 0, has = 0; static int stop;
    if (*o == '#') continue;
    if (!strcmp(o, "session")) { reset(); arm(); stop = 0; live = 0; locs = nt > 2 && !strcmp(tok[2], "loc"); printf("{\"session\":%d}\n", arg(1)); fflush(stdout); continue; }
    if (!strcmp(o, "end")) { long l0; reset(); l0 = live; live = 0; printf("{\"end\":%ld}\n", l0); fflush(stdout); continue; }
    if (stop) { printf("{\"skip\":1}\n"); continue; }
    if (*o == '?') {
      /* the n-th request fails; an operation that reports this and changed no byte is repeated */
      int n = atoi(o + 1), same = 1; uint8_t *was[MAXJ] = { 0 }; size_t size[MAXJ] = { 0 };
      for (int i = 0; i < MAXJ; i++) if (J[i].used && pb_journal_valid(&J[i].j)) {
        size[i] = pb_journal_size(&J[i].j); was[i] = malloc(size[i] + 1);
        if (size[i]) memcpy(was[i], pb_journal_data(&J[i].j), size[i]);
      }
      memmove(tok, tok + 1, sizeof *tok * --nt); o = tok[0];
      failed = 0; fail_in = n; run(o, &rc, &vt, &has, &out); fail_in = -1;
      for (int i = 0; i < MAXJ; i++) if (J[i].used) {
        if (pb_journal_valid(&J[i].j) != !!was[i] || (was[i] && (size[i] != pb_journal_size(&J[i].j) ||
            (size[i] && memcmp(was[i], pb_journal_data(&J[i].j), size[i]))))) same = 0;
        free(was[i]);
      }
      printf("{\"hit\":%ld,\"same\":%d,\"a\":", failed, same);
      if (failed && rc && !same) { stop = 1; printf("{\"rc\":%ld}}\n", rc); continue; }
      report(rc, vt, has ? &out : NULL);
      if (failed && rc) { run(o, &rc, &vt, &has, &out); printf(",\"b\":"); report(rc, vt, has ? &out : NULL); }
      printf("}\n");
      continue;
    }
    run(o, &rc, &vt, &has, &out);
    report(rc, vt, has ? &out : NULL); putchar('\n');
  }
  reset();
  free(line);
  return 0;
}
