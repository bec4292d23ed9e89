#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#include <stdint.h>
#include <stddef.h>
#include "strophe.h"
// digests; alg: 0 sha1, 1 sha256, 2 sha512, 3 md5
void *shim_dig_new(int alg);
void shim_dig_update(int alg, void *c, const uint8_t *d, size_t n);
void shim_dig_final(int alg, void *c, uint8_t *out);   // also frees
int shim_dig_oneshot(int alg, const uint8_t *d, size_t n, uint8_t *out); // 0 if there is none
// SCRAM helpers; alg index into scram_algs by name
int shim_scram(const char *name, const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen, uint32_t it,
               const uint8_t *msg, size_t msglen, uint8_t *key, uint8_t *sign, uint8_t *proof);
// resolver
typedef struct { unsigned prio, weight, port; const char *target; size_t target_cap; } shim_srv_t;
int shim_srv_lookup_buf(xmpp_ctx_t *ctx, const unsigned char *buf, size_t len, void **list); // 1 found
int shim_srv_count(void *list);
void shim_srv_get(void *list, int i, shim_srv_t *out);
void shim_srv_free(xmpp_ctx_t *ctx, void *list);
int shim_srv_lookup(xmpp_ctx_t *ctx, const char *domain, void **list);
// parser
typedef void (*shim_start)(char *name, char **attrs, void *u);
typedef void (*shim_end)(char *name, void *u);
typedef void (*shim_stanza)(xmpp_stanza_t *s, void *u);
void *shim_parser_new(xmpp_ctx_t *ctx, shim_start, shim_end, shim_stanza, void *u);
void shim_parser_free(void *p);
int shim_parser_reset(void *p);
int shim_parser_feed(void *p, char *chunk, int len);
#ifdef __cplusplus
}
#endif
