// stand-in for the ldns library: just what libmy/zonefile.c uses; the records are inputs (see harness/zone.c)
#ifndef VF_LDNS_H
#define VF_LDNS_H
#include <stdint.h>
#include <stdio.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
typedef struct ldns_struct_rdf { uint32_t v; } ldns_rdf;
typedef struct ldns_struct_rr { int type, id; ldns_rdf *owner, *serial; } ldns_rr;
typedef enum { LDNS_STATUS_OK, LDNS_STATUS_ERR = 100, LDNS_STATUS_SYNTAX_EMPTY, LDNS_STATUS_SYNTAX_TTL, LDNS_STATUS_SYNTAX_ORIGIN, LDNS_STATUS_SYNTAX_ERR } ldns_status;
typedef int ldns_rr_type;
#define LDNS_RR_TYPE_A 1
#define LDNS_RR_TYPE_SOA 6
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line);
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev);
ldns_rr_type ldns_rr_get_type(const ldns_rr *rr);
ldns_rdf *ldns_rr_owner(const ldns_rr *rr);
ldns_rdf *ldns_rr_rdf(const ldns_rr *rr, size_t n);
ldns_rdf *ldns_rdf_clone(const ldns_rdf *r);
uint32_t ldns_rdf2native_int32(const ldns_rdf *r);
void ldns_rr_free(ldns_rr *rr);
void ldns_rdf_deep_free(ldns_rdf *r);
void ldns_rdf_free(ldns_rdf *r);
#endif
