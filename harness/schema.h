/* Dynamic descriptors for the harness, read from a line based schema file. */
#ifndef VP_SCHEMA_H
#define VP_SCHEMA_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <protobluff/core/common.h>
#include <protobluff/core/string.h>
#include <protobluff/core/descriptor.h>

#define MAXTYPES 64
#define MAXONEOF 8
typedef struct {
  pb_tag_t tag; int type, label, nested, packed, oneof, ext; char name[32];
  int hasdef; uint8_t *def; size_t deflen;
} vp_field_t;
typedef struct { int32_t number; char name[32]; } vp_ev_t;
typedef struct {
  int nf; vp_field_t *f;
  int noneof;
  int next;                               /* number of extension descriptors */
  pb_descriptor_t *desc;                  /* heap allocated */
  pb_descriptor_t *extdesc[8];
  pb_oneof_descriptor_t *oneofs[MAXONEOF + 1];
} vp_type_t;

extern vp_type_t vp_types[MAXTYPES];
extern int vp_ntypes;
void vp_schema_load(const char *path);
size_t vp_hex(const char *s, uint8_t **out);
#endif
