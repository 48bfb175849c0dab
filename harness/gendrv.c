#include <stdio.h>
#include <stdlib.h>
#include "gendrv.h"

static const char *TYPES[18], *LABELS[5];
static unsigned long checks;
unsigned long long handled;

static const char *name_of(const void *p, int k) {
  if (!p) return "";
  for (const sym_t *s = syms; s->n; s++) if (s->p == p && s->k == k) return s->n;
  return "?";
}
static void quote(const char *s) {
  putchar('"');
  for (; *s; s++) if (*s == '"' || *s == '\\') printf("\\%c", *s); else putchar(*s);
  putchar('"');
}

static void row(const pb_field_descriptor_t *f) {
  printf("{\"tag\":%u,\"name\":", f->tag); quote(f->name);
  printf(",\"type\":\"%s\",\"label\":\"%s\",\"packed\":%d,", f->type <= PB_TYPE_MESSAGE ? TYPES[f->type] : "?", LABELS[f->label],
    (f->flags & PB_FLAG_PACKED) != 0);
  printf("\"refer\":\"%s\",", f->type == PB_TYPE_MESSAGE ? name_of(f->refer, 1) : f->type == PB_TYPE_ENUM ? name_of(f->refer, 2) : f->refer ? "?" : "");
  printf("\"oneof\":\"%s\",\"value\":\"", f->label == PB_LABEL_ONEOF ? name_of(f->value, 3) : "");
  if (f->label == PB_LABEL_ONEOF || !f->value) printf("none");
  else if (f->type == PB_TYPE_ENUM) printf("enum %d", *(const pb_enum_t *)f->value);
  else {
    const uint8_t *d = f->value; size_t n = 0;
    switch (f->type) {
      case PB_TYPE_STRING: case PB_TYPE_BYTES: n = ((const pb_string_t *)f->value)->size; d = ((const pb_string_t *)f->value)->data; break;
      case PB_TYPE_BOOL: n = 1; break;
      case PB_TYPE_INT64: case PB_TYPE_UINT64: case PB_TYPE_SINT64: case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: n = 8; break;
      default: n = 4;
    }
    printf("hex ");
    for (size_t i = 0; i < n; i++) printf("%02x", d[i]);
  }
  printf("\"}");
}

static void dump(void) {
  for (const sym_t *s = syms; s->n; s++) {
    if (s->k == 1) {
      const pb_descriptor_t *d = s->p;
      int sorted = 1;
      printf("{\"k\":\"m\",\"sym\":\"%s\",\"own\":[", s->n);
      for (size_t i = 0; i < d->field.size; i++) { if (i) printf(","); row(&d->field.data[i]); }
      printf("],\"ext\":[");
      int first = 1;
      for (const pb_descriptor_t *x = d->extension; x; x = x->extension)
        for (size_t i = 0; i < x->field.size; i++) {
          if (i && x->field.data[i - 1].tag >= x->field.data[i].tag) sorted = 0;
          if (!first) printf(",");
          first = 0;
          row(&x->field.data[i]);
        }
      printf("],\"sorted\":%d}\n", sorted);
    } else if (s->k == 2) {
      const pb_enum_descriptor_t *d = s->p;
      printf("{\"k\":\"e\",\"sym\":\"%s\",\"v\":[", s->n);
      for (size_t i = 0; i < d->value.size; i++) { printf("%s{\"num\":%d,\"name\":", i ? "," : "", d->value.data[i].number); quote(d->value.data[i].name); printf("}"); }
      printf("]}\n");
    } else {
      const pb_oneof_descriptor_t *d = s->p;
      printf("{\"k\":\"o\",\"sym\":\"%s\",\"m\":\"%s\",\"x\":[", s->n, name_of(d->descriptor, 1));
      for (size_t i = 0; i < d->index.size; i++) printf("%s%zu", i ? "," : "", d->index.data[i]);
      printf("]}\n");
    }
  }
  for (const const_t *k = consts; k->n; k++) printf("{\"k\":\"c\",\"sym\":\"%s\",\"v\":%lld}\n", k->n, k->v);
}

static void fail(const char *fn, const char *why, long long a, long long b) {
  printf("{\"fail\":\"%s\",\"why\":\"%s: %lld instead of %lld\"}\n", fn, why, a, b);
}
void expect(const char *fn, const char *what, long long a, long long b) {
  checks++;
  if (a != b) {
    if (!strcmp(what, "descriptor")) printf("{\"fail\":\"%s\",\"why\":\"descriptor %s instead of %s\"}\n", fn, name_of((const void *)(intptr_t)a, 1), name_of((const void *)(intptr_t)b, 1));
    else fail(fn, what, a, b);
  }
}

/* ------------------------------------------------------------------------- */

const pb_field_descriptor_t *own_field(pb_descriptor_t *d, pb_tag_t t) {
  for (const pb_descriptor_t *x = d; x; x = x->extension)
    for (size_t i = 0; i < x->field.size; i++) if (x->field.data[i].tag == t) return &x->field.data[i];
  printf("{\"fail\":\"%s\",\"why\":\"field %u is missing\"}\n", name_of(d, 1), t);
  fflush(stdout);
  exit(0);
}

static char strs[16][16];
void value_of(const pb_field_descriptor_t *f, int salt, value_t *v) {
  unsigned long long x = (unsigned long long)f->tag * 2654435761u + (unsigned)salt * 40503u + 17;
  memset(v, 0, sizeof(*v));
  switch (f->type) {
    case PB_TYPE_STRING: case PB_TYPE_BYTES: {
      char *s = strs[salt & 15];
      snprintf(s, 16, "v%u-%d", f->tag % 1000000, salt);
      v->s = pb_string_init_from_chars(s);
      break;
    }
    case PB_TYPE_BOOL: v->b = x & 1; break;
    case PB_TYPE_ENUM: {
      const pb_enum_descriptor_t *e = f->refer;
      v->i = e && e->value.size ? e->value.data[(unsigned)(salt + f->tag) % e->value.size].number : 1;
      break;
    }
    case PB_TYPE_FLOAT: v->f = (float)(x % 100000); break;
    case PB_TYPE_DOUBLE: v->d = (double)(x % 10000000); break;
    default: v->l = (int64_t)x; break;
  }
}

static void fill(pb_message_t *m, const pb_descriptor_t *d, int salt, int depth) {
  for (const pb_descriptor_t *x = d; x; x = x->extension)
    for (size_t i = 0; i < x->field.size; i++) {
      const pb_field_descriptor_t *f = &x->field.data[i];
      if (salt > 1 && (f->tag + (unsigned)salt) % 3 == 0) continue;
      if (f->type == PB_TYPE_MESSAGE) {
        if (!depth) continue;
        pb_message_t s = pb_message_create_within(m, f->tag);
        if (pb_message_valid(&s)) fill(&s, f->refer, salt, depth - 1);
        pb_message_destroy(&s);
      } else {
        value_t v; value_of(f, salt, &v);
        if (pb_message_put(m, f->tag, &v)) {}
        if (f->label == PB_LABEL_REPEATED) { value_of(f, salt + 1, &v); if (pb_message_put(m, f->tag, &v)) {} }
      }
    }
}

static struct { pb_descriptor_t *d; int s; uint8_t *b; size_t n; } cache[4096];
static size_t cached;
const uint8_t *sample_bytes(pb_descriptor_t *d, int sample, size_t *size) {
  for (size_t i = 0; i < cached; i++) if (cache[i].d == d && cache[i].s == sample) { *size = cache[i].n; return cache[i].b; }
  pb_journal_t j = pb_journal_create_empty();
  pb_message_t m = pb_message_create(d, &j);
  if (sample) fill(&m, d, sample, sample == 1 ? 1 : 2);
  *size = pb_journal_size(&j);
  uint8_t *b = malloc(*size + 1);
  if (*size) memcpy(b, pb_journal_data(&j), *size);
  pb_message_destroy(&m);
  pb_journal_destroy(&j);
  if (cached < 4096) { cache[cached].d = d; cache[cached].s = sample; cache[cached].b = b; cache[cached++].n = *size; }
  return b;
}

void begin(probe_t *p, const char *fn, pb_descriptor_t *d, const pb_tag_t *path, size_t n, int sample) {
  memset(p, 0, sizeof *p);
  if (!sample) { printf("{\"run\":\"%s\"}\n", fn); fflush(stdout); }
  p->fn = fn;
  pb_descriptor_t *x = d;
  for (size_t i = 0; i < n; i++) { p->f = own_field(x, path[i]); x = (pb_descriptor_t *)p->f->refer; }
  size_t size; const uint8_t *b = sample_bytes(d, sample, &size);
  p->j1 = size ? pb_journal_create(b, size) : pb_journal_create_empty();
  p->m1 = pb_message_create(d, &p->j1);
  /* the last sample surely has the field */
  if (sample == SAMPLES - 1 && n && p->f->type != PB_TYPE_MESSAGE) {
    value_t v; value_of(p->f, 3, &v);
    if (g_put(&p->m1, path, n, &v)) {}
  }
  p->j2 = pb_journal_empty(&p->j1) ? pb_journal_create_empty() : pb_journal_create(pb_journal_data(&p->j1), pb_journal_size(&p->j1));
  p->m2 = pb_message_create(d, &p->j2);
}

void end(probe_t *p) {
  checks++;
  if (p->a != p->b) fail(p->fn, "result", p->a, p->b);
  else if (p->f && (p->f->type == PB_TYPE_STRING || p->f->type == PB_TYPE_BYTES)) {
    if (p->v1.s.size != p->v2.s.size || (p->v1.s.size && memcmp(p->v1.s.data, p->v2.s.data, p->v1.s.size))) fail(p->fn, "value", p->v1.s.size, p->v2.s.size);
  } else if (memcmp(&p->v1, &p->v2, sizeof p->v1)) fail(p->fn, "value", p->v1.l, p->v2.l);
  if (pb_journal_size(&p->j1) != pb_journal_size(&p->j2) ||
      (pb_journal_size(&p->j1) && memcmp(pb_journal_data(&p->j1), pb_journal_data(&p->j2), pb_journal_size(&p->j1))))
    fail(p->fn, "message", pb_journal_size(&p->j1), pb_journal_size(&p->j2));
  pb_message_destroy(&p->m1); pb_message_destroy(&p->m2);
  pb_journal_destroy(&p->j1); pb_journal_destroy(&p->j2);
}

int g_has(pb_message_t *m, const pb_tag_t *path, size_t n) { return n == 1 ? pb_message_has(m, path[0]) : pb_message_nested_has(m, path, n); }
pb_error_t g_get(pb_message_t *m, const pb_tag_t *path, size_t n, void *v) { return n == 1 ? pb_message_get(m, path[0], v) : pb_message_nested_get(m, path, n, v); }
pb_error_t g_put(pb_message_t *m, const pb_tag_t *path, size_t n, const void *v) { return n == 1 ? pb_message_put(m, path[0], v) : pb_message_nested_put(m, path, n, v); }
int g_match(pb_message_t *m, const pb_tag_t *path, size_t n, const void *v) { return n == 1 ? pb_message_match(m, path[0], v) : pb_message_nested_match(m, path, n, v); }
pb_error_t g_erase(pb_message_t *m, const pb_tag_t *path, size_t n) { return n == 1 ? pb_message_erase(m, path[0]) : pb_message_nested_erase(m, path, n); }
pb_message_t g_create(pb_message_t *m, const pb_tag_t *path, size_t n) { return n == 1 ? pb_message_create_within(m, path[0]) : pb_message_create_nested(m, path, n); }
pb_cursor_t g_cursor(pb_message_t *m, const pb_tag_t *path, size_t n) { return n == 1 ? pb_cursor_create(m, path[0]) : pb_cursor_create_nested(m, path, n); }

void enc_begin(const char *fn, pb_descriptor_t *d, pb_encoder_t *e1, pb_encoder_t *e2) {
  printf("{\"run\":\"%s\"}\n", fn); fflush(stdout);
  *e1 = pb_encoder_create(d);
  *e2 = pb_encoder_create(d);
}
void enc_end(const char *fn, pb_encoder_t *e1, pb_encoder_t *e2, long long a, long long b) {
  checks++;
  if (a != b) fail(fn, "result", a, b);
  const pb_buffer_t *x = pb_encoder_buffer(e1), *y = pb_encoder_buffer(e2);
  if (pb_buffer_size(x) != pb_buffer_size(y) || (pb_buffer_size(x) && memcmp(pb_buffer_data(x), pb_buffer_data(y), pb_buffer_size(x)))) fail(fn, "bytes", pb_buffer_size(x), pb_buffer_size(y));
  pb_encoder_destroy(e1); pb_encoder_destroy(e2);
}

pb_error_t count_handler(const pb_field_descriptor_t *descriptor, const void *value, void *user) {
  handled = handled * 31 + descriptor->tag;
  return PB_ERROR_NONE;
}

int main(void) {
  TYPES[PB_TYPE_INT32] = "INT32"; TYPES[PB_TYPE_INT64] = "INT64"; TYPES[PB_TYPE_UINT32] = "UINT32"; TYPES[PB_TYPE_UINT64] = "UINT64";
  TYPES[PB_TYPE_SINT32] = "SINT32"; TYPES[PB_TYPE_SINT64] = "SINT64"; TYPES[PB_TYPE_FIXED32] = "FIXED32"; TYPES[PB_TYPE_FIXED64] = "FIXED64";
  TYPES[PB_TYPE_SFIXED32] = "SFIXED32"; TYPES[PB_TYPE_SFIXED64] = "SFIXED64"; TYPES[PB_TYPE_BOOL] = "BOOL"; TYPES[PB_TYPE_ENUM] = "ENUM";
  TYPES[PB_TYPE_FLOAT] = "FLOAT"; TYPES[PB_TYPE_DOUBLE] = "DOUBLE"; TYPES[PB_TYPE_STRING] = "STRING"; TYPES[PB_TYPE_BYTES] = "BYTES"; TYPES[PB_TYPE_MESSAGE] = "MESSAGE";
  LABELS[PB_LABEL_REQUIRED] = "REQUIRED"; LABELS[PB_LABEL_OPTIONAL] = "OPTIONAL"; LABELS[PB_LABEL_REPEATED] = "REPEATED"; LABELS[PB_LABEL_ONEOF] = "ONEOF";
  dump();
  fflush(stdout);
  run();
  printf("{\"checks\":%lu}\n", checks);
  return 0;
}
