/*
 * Wire layer driver: one command per line, one JSON line per command.
 *
 *   dec <type> <failat> <code> <hex>    decode; handler fails at its failat-th call
 *   val <type> <hex> [<first>]          validate, right after validating <first>
 *   cuts <type> <mode> <hex>            decode (mode d) or validate (v) every prefix
 *   enc <type> <program>                encode; program: n (tag count value*)*, a submessage value is { program }
 *   encf <type> <pattern> <program>     the same on a fault injecting allocator: digit i of the pattern (cyclic) names the
 *                                       request of the i-th call that fails; failed calls are repeated without failure
 *   rt <type> <tag> <hex>               encode, decode and write and read through a message
 *
 * Inputs live in exactly sized heap blocks, so that a sanitizer sees every over-read.
 */
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include "schema.h"
#include <protobluff/core.h>
#include <protobluff/message.h>
#include <protobluff/util.h>
#include "message/journal.h"

static void puthex(const uint8_t *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { putchar_unlocked(d[p[i] >> 4]); putchar_unlocked(d[p[i] & 15]); }
}
static int isstr(int t) { return t == PB_TYPE_STRING || t == PB_TYPE_BYTES; }

/* ---- decoding ----------------------------------------------------------- */
typedef struct { int depth; long *left; int code; int quiet; long *calls; } ctx_t;
static int first;
static pb_error_t handler(const pb_field_descriptor_t *f, const void *value, void *user) {
  ctx_t *c = user; int t = pb_field_descriptor_type(f);
  ++*c->calls;
  if (!c->quiet) {
    printf("%s[%d,%u,\"", first ? "" : ",", c->depth, pb_field_descriptor_tag(f)); first = 0;
    if (isstr(t)) puthex(((const pb_string_t *)value)->data, ((const pb_string_t *)value)->size);
    else if (t != PB_TYPE_MESSAGE) {
      uint8_t v[8]; memcpy(v, value, pb_field_descriptor_type_size(f)); puthex(v, pb_field_descriptor_type_size(f));
    }
    printf("\"]");
  } else if (isstr(t)) {                     /* touch every byte */
    volatile uint8_t s = 0; const pb_string_t *p = value;
    for (size_t i = 0; i < p->size; i++) s ^= p->data[i];
  }
  if (*c->left > 0 && --*c->left == 0) return (pb_error_t)c->code;
  if (t == PB_TYPE_MESSAGE) {
    ctx_t sub = *c; sub.depth++;
    return pb_decoder_decode(value, handler, &sub);
  }
  return PB_ERROR_NONE;
}
static int decode(int type, uint8_t *p, size_t n, long left, int code, int quiet, long *calls) {
  pb_buffer_t b = n ? pb_buffer_create_zero_copy(p, n) : pb_buffer_create_empty();
  pb_decoder_t d = pb_decoder_create(vp_types[type].desc, &b);
  ctx_t c = { 0, &left, code, quiet, calls };
  int rc = pb_decoder_decode(&d, handler, &c);
  pb_decoder_destroy(&d); pb_buffer_destroy(&b);
  return rc;
}
static int validate(int type, uint8_t *p, size_t n) {
  pb_buffer_t b = n ? pb_buffer_create_zero_copy(p, n) : pb_buffer_create_empty();
  pb_validator_t v = pb_validator_create(vp_types[type].desc);
  int rc = pb_validator_check(&v, &b);
  pb_validator_destroy(&v); pb_buffer_destroy(&b);
  return rc;
}

/* ---- encoding ----------------------------------------------------------- */
static char *next(char **s) {
  char *p = *s; while (*p == ' ') p++;
  char *q = p; while (*q && *q != ' ' && *q != '\n') q++;
  *s = *q ? q + 1 : q; *q = 0; return p;
}
static const char *pat; static long fail_in, hits, live; static int pati;
static int should_fail(void) { if (fail_in > 0 && --fail_in == 0) { hits++; return 1; } return 0; }
static void *f_alloc(void *d, size_t n) { (void)d; if (should_fail()) return NULL; live++; return malloc(n); }
static void *f_resize(void *d, void *p, size_t n) {
  (void)d; if (should_fail()) return NULL;
  if (!p) live++;
  void *q = malloc(n);
  if (p) { extern size_t malloc_usable_size(void *); size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); }
  return q;
}
static void f_free(void *d, void *p) { (void)d; live--; free(p); }
static pb_allocator_t fault_alloc = { { f_alloc, f_resize, f_free }, NULL };

static void putbuf(const pb_encoder_t *e) {
  const pb_buffer_t *b = pb_encoder_buffer(e);
  putchar('"'); if (pb_buffer_size(b)) puthex(pb_buffer_data(b), pb_buffer_size(b)); putchar('"');
}
static int call(pb_encoder_t *e, pb_tag_t tag, const void *values, size_t n) {
  if (!pat) return pb_encoder_encode(e, tag, values, n);
  if (!pat[pati]) pati = 0;
  printf("%s[", first ? "" : ","); first = 0; putbuf(e);
  hits = 0; fail_in = pat[pati] ? pat[pati++] - '0' : 0;
  int rc = pb_encoder_encode(e, tag, values, n); long hit = hits; fail_in = 0;
  printf(",%ld,%d,", hit, rc); putbuf(e);
  if (hit && rc && n == 1) rc = pb_encoder_encode(e, tag, values, n);
  printf(",%d,", rc); putbuf(e); printf("]");
  return rc;
}
/* a string value, made by any of the functions that make them */
static pb_string_t string(uint8_t **p, size_t n) {
  if (!n) return pb_string_init_empty();
  if (memchr(*p, 0, n)) return pb_string_init(*p, n);
  *p = realloc(*p, n + 1); (*p)[n] = 0;
  return pb_string_init_from_chars((char *)*p);
}
static pb_encoder_t create(const pb_descriptor_t *d) { return pat ? pb_encoder_create_with_allocator(&fault_alloc, d) : pb_encoder_create(d); }
static int encode(pb_encoder_t *e, char **s) {
  int n = atoi(next(s)), rc = 0;
  for (int i = 0; i < n; i++) {
    pb_tag_t tag = (pb_tag_t)strtoul(next(s), 0, 10);
    int cnt = atoi(next(s));
    const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(pb_encoder_descriptor(e), tag);
    int t = pb_field_descriptor_type(f);
    if (t == PB_TYPE_MESSAGE) {
      pb_encoder_t *sub = malloc(sizeof *sub * cnt);
      for (int k = 0; k < cnt; k++) {
        sub[k] = create(pb_field_descriptor_nested(f));
        next(s); rc |= encode(&sub[k], s); next(s);
      }
      rc |= call(e, tag, sub, cnt);
      for (int k = 0; k < cnt; k++) pb_encoder_destroy(&sub[k]);
      free(sub);
    } else {
      size_t sz = pb_field_descriptor_type_size(f);
      uint8_t *vals = malloc(sz * cnt), **mem = calloc(cnt, sizeof *mem);
      for (int k = 0; k < cnt; k++) {
        size_t m = vp_hex(next(s), &mem[k]);
        if (isstr(t)) { pb_string_t str = m ? pb_string_init(mem[k], m) : pb_string_init_empty(); memcpy(vals + k * sz, &str, sz); }
        else memcpy(vals + k * sz, mem[k], sz);
      }
      rc |= call(e, tag, vals, cnt);
      for (int k = 0; k < cnt; k++) free(mem[k]);
      free(mem); free(vals);
    }
  }
  return rc;
}

static void on_alarm(int sig) { (void)sig; static const char m[] = "SUMMARY: no progress within 5 s of CPU time\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }

int main(int argc, char **argv) {
  if (argc < 2) return 3;
  signal(SIGPROF, on_alarm);
  setvbuf(stdout, NULL, _IOLBF, 1 << 20);
  vp_schema_load(argv[1]);
  char *line = NULL; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    struct itimerval tv = { { 0, 0 }, { 5, 0 } }; setitimer(ITIMER_PROF, &tv, NULL);
    char *s = line, *o = next(&s); uint8_t *p, *orig; size_t n;
    if (!*o) continue;
    int type = atoi(next(&s));
    if (!strcmp(o, "dec")) {
      long fail = atol(next(&s)); int code = atoi(next(&s)); long calls = 0;
      n = vp_hex(next(&s), &p); orig = malloc(n + 1); memcpy(orig, p, n);
      first = 1; printf("{\"e\":[");
      int rc = decode(type, p, n, fail, code, 0, &calls);
      printf("],\"rc\":%d,\"n\":%ld,\"same\":%d}\n", rc, calls, !memcmp(orig, p, n));
      free(p); free(orig);
    } else if (!strcmp(o, "val")) {
      int rc;
      n = vp_hex(next(&s), &p); orig = malloc(n + 1); memcpy(orig, p, n);
      /* the verdict depends on nothing an earlier one left behind */
      char *q = next(&s);
      if (*q) { uint8_t *r; size_t m = vp_hex(q, &r); validate(type, r, m); rc = validate(type, p, n); free(r); }
      else rc = validate(type, p, n);
      printf("{\"rc\":%d,\"same\":%d}\n", rc, !memcmp(orig, p, n)); free(p); free(orig);
    } else if (!strcmp(o, "cuts")) {
      char *mode = next(&s);
      n = vp_hex(next(&s), &p);
      printf("{\"c\":[");
      for (size_t k = 0; k < n; k++) {
        uint8_t *q = malloc(k ? k : 1); memcpy(q, p, k); long calls = 0;
        if (*mode == 'v') printf("%s%d", k ? "," : "", validate(type, q, k));
        else { int rc = decode(type, q, k, 0, 0, 1, &calls); printf("%s[%d,%ld]", k ? "," : "", rc, calls); }
        free(q);
      }
      printf("]}\n"); free(p);
    } else if (!strcmp(o, "enc")) {
      pb_encoder_t e = pb_encoder_create(vp_types[type].desc);
      int rc = encode(&e, &s); long calls = 0;
      const pb_buffer_t *b = pb_encoder_buffer(&e);
      n = pb_buffer_size(b); p = malloc(n ? n : 1); if (n) memcpy(p, pb_buffer_data(b), n);
      printf("{\"rc\":%d,\"b\":\"", rc); puthex(p, n); printf("\",\"e\":[");
      first = 1; int drc = decode(type, p, n, 0, 0, 0, &calls);
      printf("],\"drc\":%d}\n", drc);
      pb_encoder_destroy(&e); free(p);
    } else if (!strcmp(o, "encf")) {
      pat = next(&s); pati = 0; first = 1; live = 0;
      pb_encoder_t e = create(vp_types[type].desc);
      printf("["); encode(&e, &s); pb_encoder_destroy(&e);
      printf("%s%ld]\n", first ? "" : ",", live); pat = NULL;
    } else if (!strcmp(o, "rt")) {
      pb_tag_t tag = (pb_tag_t)strtoul(next(&s), 0, 10); n = vp_hex(next(&s), &p);
      const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(vp_types[type].desc, tag);
      union { uint8_t raw[16]; pb_string_t str; uint64_t a; } v, out;
      int t = pb_field_descriptor_type(f), rep = pb_field_descriptor_label(f) == PB_LABEL_REPEATED; memset(&v, 0, sizeof v); memset(&out, 0, sizeof out);
      if (isstr(t)) v.str = string(&p, n); else memcpy(v.raw, p, n);
      pb_encoder_t e = pb_encoder_create(vp_types[type].desc);
      int rc1 = pb_encoder_encode(&e, tag, &v, 1); long calls = 0;
      size_t m = pb_buffer_size(pb_encoder_buffer(&e)); uint8_t *q = malloc(m ? m : 1);
      memcpy(q, pb_buffer_data(pb_encoder_buffer(&e)), m);
      printf("{\"rc\":%d,\"enc\":\"", rc1); puthex(q, m); printf("\",\"dec\":[");
      first = 1; int rc2 = decode(type, q, m, 0, 0, 0, &calls);
      pb_journal_t j = pb_journal_create_empty(); pb_message_t msg = pb_message_create(vp_types[type].desc, &j);
      int rc3 = pb_message_put(&msg, tag, &v), rc4;
      pb_journal_t j2 = pb_journal_create_zero_copy(q, m); pb_message_t msg2 = pb_message_create(vp_types[type].desc, &j2);
      if (rep) { pb_cursor_t c = pb_cursor_create(&msg2, tag); rc4 = pb_cursor_get(&c, &out); }
      else rc4 = pb_message_get(&msg2, tag, &out);
      printf("],\"drc\":%d,\"prc\":%d,\"put\":\"", rc2, rc3);
      puthex(pb_journal_data(&j), pb_journal_size(&j));
      printf("\",\"grc\":%d,\"get\":\"", rc4);
      if (!rc4) { if (isstr(t)) puthex(out.str.data, out.str.size); else puthex(out.raw, pb_field_descriptor_type_size(f)); }
      /* writing the value over itself changes nothing, and matches */
      int rc5 = rep ? 0 : pb_message_put(&msg2, tag, &v), rc6 = pb_message_match(&msg2, tag, &v);
      printf("\",\"orc\":%d,\"match\":%d,\"over\":\"", rc5, rc6); puthex(q, m); printf("\"}\n");
      pb_message_destroy(&msg); pb_message_destroy(&msg2); pb_journal_destroy(&j); pb_journal_destroy(&j2);
      pb_encoder_destroy(&e); free(p); free(q);
    } else { fprintf(stderr, "unknown command %s\n", o); return 3; }
  }
  free(line);
  return 0;
}
