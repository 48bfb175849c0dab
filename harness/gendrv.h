/* Support for generated code under test: descriptor dumps, and functions compared with generic operations. */
#ifndef GENDRV_H
#define GENDRV_H
#include <protobluff.h>
#include <protobluff/descriptor.h>
#include <string.h>

typedef struct { const char *n; const void *p; int k; } sym_t;
typedef struct { const char *n; long long v; } const_t;
extern const sym_t syms[];
extern const const_t consts[];
extern void run(void);

typedef union { int32_t i; int64_t l; float f; double d; uint8_t b; pb_string_t s; unsigned char raw[32]; } value_t;

typedef struct {
  const char *fn;
  pb_journal_t j1, j2;
  pb_message_t m1, m2;
  const pb_field_descriptor_t *f;
  long long a, b;
  value_t v1, v2;
} probe_t;

#define SAMPLES 5
extern void begin(probe_t *p, const char *fn, pb_descriptor_t *d, const pb_tag_t *path, size_t n, int sample);
extern void end(probe_t *p);
extern void expect(const char *fn, const char *what, long long a, long long b);

extern int g_has(pb_message_t *m, const pb_tag_t *path, size_t n);
extern pb_error_t g_get(pb_message_t *m, const pb_tag_t *path, size_t n, void *v);
extern pb_error_t g_put(pb_message_t *m, const pb_tag_t *path, size_t n, const void *v);
extern int g_match(pb_message_t *m, const pb_tag_t *path, size_t n, const void *v);
extern pb_error_t g_erase(pb_message_t *m, const pb_tag_t *path, size_t n);
extern pb_message_t g_create(pb_message_t *m, const pb_tag_t *path, size_t n);
extern pb_cursor_t g_cursor(pb_message_t *m, const pb_tag_t *path, size_t n);
extern void enc_begin(const char *fn, pb_descriptor_t *d, pb_encoder_t *e1, pb_encoder_t *e2);
extern void enc_end(const char *fn, pb_encoder_t *e1, pb_encoder_t *e2, long long a, long long b);
extern void value_of(const pb_field_descriptor_t *f, int salt, value_t *v);
extern const pb_field_descriptor_t *own_field(pb_descriptor_t *d, pb_tag_t t);
extern pb_error_t count_handler(const pb_field_descriptor_t *descriptor, const void *value, void *user);
extern const uint8_t *sample_bytes(pb_descriptor_t *d, int sample, size_t *size);
extern unsigned long long handled;

#define P(...) (const pb_tag_t []){ __VA_ARGS__ }, sizeof((const pb_tag_t []){ __VA_ARGS__ }) / sizeof(pb_tag_t)
#define EACH(fn, D, ...) for (int s_ = 0; s_ < SAMPLES; s_++) \
  for (probe_t p_, *q_ = (begin(&p_, #fn, D, __VA_ARGS__, s_), &p_); q_; end(q_), q_ = 0)

#define HAS(fn, D, ...)     EACH(fn, D, __VA_ARGS__) { p_.a = fn(&p_.m1) != 0; p_.b = g_has(&p_.m2, __VA_ARGS__) != 0; }
#define GET(fn, D, ...)     EACH(fn, D, __VA_ARGS__) { p_.a = fn(&p_.m1, (void *)&p_.v1); p_.b = g_get(&p_.m2, __VA_ARGS__, &p_.v2); }
#define PUT(fn, D, ...)     EACH(fn, D, __VA_ARGS__) { value_t v_; value_of(p_.f, s_ + 7, &v_); p_.a = fn(&p_.m1, (const void *)&v_); p_.b = g_put(&p_.m2, __VA_ARGS__, &v_); }
#define ERASE(fn, D, ...)   EACH(fn, D, __VA_ARGS__) { p_.a = fn(&p_.m1); p_.b = g_erase(&p_.m2, __VA_ARGS__); }
#define CREATE(fn, D, ...)  EACH(fn, D, __VA_ARGS__) { \
  pb_message_t x_ = fn(&p_.m1), y_ = g_create(&p_.m2, __VA_ARGS__); \
  p_.a = pb_message_valid(&x_); p_.b = pb_message_valid(&y_); \
  if (p_.a && p_.b) expect(#fn, "descriptor", (long long)(intptr_t)pb_message_descriptor(&x_), (long long)(intptr_t)pb_message_descriptor(&y_)); \
  pb_message_destroy(&x_); pb_message_destroy(&y_); }
#define CURSOR(fn, D, ...)  EACH(fn, D, __VA_ARGS__) { \
  pb_cursor_t x_ = fn(&p_.m1), y_ = g_cursor(&p_.m2, __VA_ARGS__); \
  do { expect(#fn, "cursor", pb_cursor_valid(&x_), pb_cursor_valid(&y_)); \
       if (pb_cursor_valid(&x_) && pb_cursor_valid(&y_)) expect(#fn, "field", (long long)(intptr_t)pb_cursor_descriptor(&x_), (long long)(intptr_t)pb_cursor_descriptor(&y_)); } \
  while (pb_cursor_next(&x_) & pb_cursor_next(&y_)); \
  expect(#fn, "end", pb_cursor_error(&x_), pb_cursor_error(&y_)); \
  pb_cursor_destroy(&x_); pb_cursor_destroy(&y_); }
/* P(...) is two arguments, the value comes after it */
#define MATCH(fn, D, A, V)  EACH(fn, D, A) { pb_enum_t v_ = V; p_.a = fn(&p_.m1) != 0; p_.b = g_match(&p_.m2, A, &v_) != 0; }
#define PUTV(fn, D, A, V)   EACH(fn, D, A) { pb_enum_t v_ = V; p_.a = fn(&p_.m1); p_.b = g_put(&p_.m2, A, &v_); }

#define ENC(fn, D, T, call1, N) for (int s_ = 0; s_ < 2; s_++) { \
  pb_encoder_t e1_, e2_, sub_[2]; value_t v_; const void *u_ = &v_; char many_[2 * sizeof(value_t)]; size_t k_ = 0; \
  enc_begin(#fn, D, &e1_, &e2_); \
  const pb_field_descriptor_t *f_ = own_field(D, T); \
  if (f_->type == PB_TYPE_MESSAGE) { for (; k_ < 2; k_++) sub_[k_] = pb_encoder_create(f_->refer); u_ = sub_; } \
  else { size_t z_ = pb_field_descriptor_type_size(f_); for (int i_ = 0; i_ < 2; i_++) { value_of(f_, s_ + i_, &v_); memcpy(many_ + i_ * z_, &v_, z_); } u_ = many_; } \
  long long a_ = call1; \
  long long b_ = pb_encoder_encode(&e2_, T, u_, N); \
  enc_end(#fn, &e1_, &e2_, a_, b_); \
  while (k_) pb_encoder_destroy(&sub_[--k_]); }
#define ENCN(fn, D, T, t) ENC(fn, D, T, fn(&e1_, u_, 2), 2)
#define ENC1(fn, D, T, t) ENC(fn, D, T, fn(&e1_, u_), 1)
#define ENCV(fn, D, T, t, V) { pb_encoder_t e1_, e2_; pb_enum_t w_ = V; enc_begin(#fn, D, &e1_, &e2_); \
  long long a_ = fn(&e1_); long long b_ = pb_encoder_encode(&e2_, T, &w_, 1); enc_end(#fn, &e1_, &e2_, a_, b_); }

#define CASE(fn, D, O) for (int s_ = 0; s_ < SAMPLES; s_++) { \
  probe_t p_; begin(&p_, #fn, D, 0, 0, s_); p_.a = fn(&p_.m1); \
  pb_oneof_t o_ = pb_oneof_create(O, &p_.m2); p_.b = pb_oneof_case(&o_); pb_oneof_destroy(&o_); end(&p_); }

#define CODEC(m, D) for (int s_ = 0; s_ < SAMPLES; s_++) { \
  size_t n_; const uint8_t *b_ = sample_bytes(D, s_, &n_); \
  pb_buffer_t B_ = n_ ? pb_buffer_create(b_, n_) : pb_buffer_create_empty(); \
  handled = 0; pb_decoder_t d_ = m##_decoder_create(&B_); long long r1_ = m##_decode(&d_, count_handler, 0); m##_decoder_destroy(&d_); \
  unsigned long long h_ = handled; \
  handled = 0; d_ = pb_decoder_create(D, &B_); long long r2_ = pb_decoder_decode(&d_, count_handler, 0); pb_decoder_destroy(&d_); \
  expect(#m "_decode", "result", r1_, r2_); expect(#m "_decode", "events", h_, handled); \
  pb_buffer_destroy(&B_); \
  pb_encoder_t e_ = m##_encoder_create(); expect(#m "_encoder_create", "descriptor", (long long)(intptr_t)pb_encoder_descriptor(&e_), (long long)(intptr_t)(D)); \
  m##_encoder_destroy(&e_); }
#define MSGFN(m, D) for (int s_ = 0; s_ < SAMPLES; s_++) { \
  size_t n_; const uint8_t *b_ = sample_bytes(D, s_, &n_); \
  pb_journal_t j_ = n_ ? pb_journal_create(b_, n_) : pb_journal_create_empty(); pb_message_t m_ = m##_create(&j_); \
  expect(#m "_create", "descriptor", (long long)(intptr_t)pb_message_descriptor(&m_), (long long)(intptr_t)(D)); \
  expect(#m "_create", "validity", pb_message_valid(&m_), 1); m##_destroy(&m_); expect(#m "_destroy", "validity", pb_message_valid(&m_), 0); pb_journal_destroy(&j_); }
#endif
