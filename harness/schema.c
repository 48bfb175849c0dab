#include "schema.h"
vp_type_t vp_types[MAXTYPES];
int vp_ntypes;

static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* hex text ("-" is empty) to exactly sized heap memory (so that a sanitizer sees any over-read) */
size_t vp_hex(const char *s, uint8_t **out) {
  size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0;
  *out = malloc(n ? n : 1);
  for (size_t i = 0; i < n; i++)
    (*out)[i] = (uint8_t)(hv(s[2 * i]) * 16 + hv(s[2 * i + 1]));
  return n;
}

static void *dup_const(const void *p, size_t n) { void *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }

/* One enum descriptor shared by all enum fields: the library only consults it in debug builds. */
static const pb_enum_value_descriptor_t evs[] = { {INT32_MIN, "N3"}, {-128, "N2"}, {-1, "N1"}, {0, "V0"}, {1, "V1"},
  {2, "V2"}, {127, "V3"}, {128, "V4"}, {300, "V5"}, {INT32_MAX, "V6"} };
static const pb_enum_descriptor_t edesc = { { evs, sizeof evs / sizeof *evs }, };

static pb_descriptor_t *mkdesc(vp_type_t *t, int ext, int *first, int *count) {
  int n = 0; *first = -1;
  for (int i = 0; i < t->nf; i++) if (t->f[i].ext == ext) { if (*first < 0) *first = i; n++; }
  *count = n;
  pb_descriptor_t tmp = { { NULL, 0 }, NULL };
  return dup_const(&tmp, sizeof tmp);
}

void vp_schema_load(const char *path) {
  FILE *fp = fopen(path, "r"); if (!fp) { perror(path); exit(3); }
  char kw[16];
  while (fscanf(fp, "%15s", kw) == 1) {
    if (!strcmp(kw, "type")) {
      vp_type_t *t = &vp_types[++vp_ntypes]; memset(t, 0, sizeof *t);
      if (fscanf(fp, "%d", &t->nf) != 1) exit(3);
      t->f = calloc(t->nf + 1, sizeof *t->f);
      for (int i = 0; i < t->nf; i++) {
        vp_field_t *f = &t->f[i]; char def[4096];
        if (fscanf(fp, " f %u %d %d %d %d %d %d %31s %4095s", &f->tag, &f->type, &f->label,
              &f->nested, &f->packed, &f->oneof, &f->ext, f->name, def) != 9) exit(3);
        if (strcmp(def, "none")) { f->hasdef = 1; f->deflen = vp_hex(def, &f->def); }
        if (f->oneof > t->noneof) t->noneof = f->oneof;
        if (f->ext > t->next) t->next = f->ext;
      }
    }
  }
  fclose(fp);
  int a, b;
  for (int k = 1; k <= vp_ntypes; k++) {
    vp_types[k].desc = mkdesc(&vp_types[k], 0, &a, &b);
    for (int e = 1; e <= vp_types[k].next; e++) vp_types[k].extdesc[e - 1] = mkdesc(&vp_types[k], e, &a, &b);
  }
  for (int k = 1; k <= vp_ntypes; k++) {
    vp_type_t *t = &vp_types[k];
    for (int o = 1; o <= t->noneof; o++) {
      size_t *idx = calloc(t->nf + 1, sizeof *idx), n = 0, pos = 0;
      for (int i = 0; i < t->nf; i++) if (!t->f[i].ext) { if (t->f[i].oneof == o) idx[n++] = pos; pos++; }
      pb_oneof_descriptor_t tmp = { t->desc, { idx, n } };
      t->oneofs[o] = dup_const(&tmp, sizeof tmp);
    }
    for (int e = 0; e <= t->next; e++) {
      int n = 0;
      pb_field_descriptor_t *arr = malloc(sizeof *arr * (t->nf + 1));
      for (int i = 0; i < t->nf; i++) {
        vp_field_t *f = &t->f[i];
        if (f->ext != e) continue;
        const void *refer = f->type == PB_TYPE_MESSAGE ? (const void *)vp_types[f->nested].desc
                          : f->type == PB_TYPE_ENUM ? (const void *)&edesc : NULL;
        const void *value = NULL;
        if (f->label == PB_LABEL_ONEOF) value = t->oneofs[f->oneof];
        else if (f->hasdef) {
          if (f->type == PB_TYPE_STRING || f->type == PB_TYPE_BYTES) {
            pb_string_t s = pb_string_init(f->def, f->deflen);
            value = dup_const(&s, sizeof s);
          } else value = f->def;
        }
        pb_field_descriptor_t tmp = { f->tag, f->name, (pb_type_t)f->type, (pb_label_t)f->label, refer, value,
          f->packed ? PB_FLAG_PACKED : 0 };
        memcpy((void *)&arr[n++], &tmp, sizeof tmp);
      }
      /* exactly sized copy: over-reads of the field table become visible */
      pb_field_descriptor_t *ex = dup_const(arr, sizeof *arr * n); free(arr);
      pb_descriptor_t tmp = { { ex, n }, NULL };
      memcpy((void *)(e ? t->extdesc[e - 1] : t->desc), &tmp, sizeof tmp);
    }
  }
  for (int k = 1; k <= vp_ntypes; k++)
    for (int e = 0; e < vp_types[k].next; e++)
      pb_descriptor_extend(vp_types[k].desc, vp_types[k].extdesc[e]);
}
