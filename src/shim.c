/* Neutral C access to the internal functions that the shipped tests also use. */
#include <stdlib.h>
#include <string.h>
#include "strophe.h"
#include "common.h"
#include "resolver.h"
#include "parser.h"
#include "scram.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
#include "md5.h"
#include "shim.h"

void *shim_dig_new(int alg)
{
    switch (alg) {
    case 0: { SHA1_CTX *c = malloc(sizeof *c); crypto_SHA1_Init(c); return c; }
    case 1: { sha256_context *c = malloc(sizeof *c); sha256_init(c); return c; }
    case 2: { sha512_context *c = malloc(sizeof *c); sha512_init(c); return c; }
    default: { struct MD5Context *c = malloc(sizeof *c); MD5Init(c); return c; }
    }
}
void shim_dig_update(int alg, void *c, const uint8_t *d, size_t n)
{
    switch (alg) {
    case 0: crypto_SHA1_Update(c, d, n); break;
    case 1: sha256_process(c, d, n); break;
    case 2: sha512_process(c, d, n); break;
    default: MD5Update(c, d, (uint32_t)n); break;
    }
}
void shim_dig_final(int alg, void *c, uint8_t *out)
{
    switch (alg) {
    case 0: crypto_SHA1_Final(c, out); break;
    case 1: sha256_done(c, out); break;
    case 2: sha512_done(c, out); break;
    default: MD5Final(out, c); break;
    }
    free(c);
}
int shim_dig_oneshot(int alg, const uint8_t *d, size_t n, uint8_t *out)
{
    switch (alg) {
    case 0: crypto_SHA1(d, n, out); return 1;
    case 1: sha256_hash(d, n, out); return 1;
    case 2: sha512_hash(d, n, out); return 1;
    default: return 0;
    }
}
int shim_scram(const char *name, const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen, uint32_t it,
               const uint8_t *msg, size_t msglen, uint8_t *key, uint8_t *sign, uint8_t *proof)
{
    size_t i;
    for (i = 0; i < scram_algs_num; i++) {
        if (strcmp(scram_algs[i]->scram_name, name) != 0) continue;
        SCRAM_ClientKey(scram_algs[i], pw, pwlen, salt, saltlen, it, key);
        SCRAM_ClientSignature(scram_algs[i], key, msg, msglen, sign);
        SCRAM_ClientProof(scram_algs[i], key, sign, proof);
        return (int)scram_algs[i]->digest_size;
    }
    return 0;
}
int shim_srv_lookup_buf(xmpp_ctx_t *ctx, const unsigned char *buf, size_t len, void **list)
{
    resolver_srv_rr_t *l = (resolver_srv_rr_t *)(uintptr_t)0x10; /* the callee sets it in every case */
    int r = resolver_srv_lookup_buf(ctx, buf, len, &l);
    *list = l;
    return r == XMPP_DOMAIN_FOUND ? 1 : r == XMPP_DOMAIN_NOT_FOUND ? 0 : -1;
}
int shim_srv_lookup(xmpp_ctx_t *ctx, const char *domain, void **list)
{
    resolver_srv_rr_t *l = NULL;
    int r = resolver_srv_lookup(ctx, "xmpp-client", "tcp", domain, &l);
    *list = l;
    return r == XMPP_DOMAIN_FOUND ? 1 : r == XMPP_DOMAIN_NOT_FOUND ? 0 : -1;
}
int shim_srv_count(void *list)
{
    int n = 0;
    resolver_srv_rr_t *r;
    for (r = list; r; r = r->next) n++;
    return n;
}
void shim_srv_get(void *list, int i, shim_srv_t *o)
{
    resolver_srv_rr_t *r = list;
    while (i-- > 0) r = r->next;
    o->prio = r->priority;
    o->weight = r->weight;
    o->port = r->port;
    o->target = r->target;
    o->target_cap = sizeof r->target;
}
void shim_srv_free(xmpp_ctx_t *ctx, void *list) { resolver_srv_free(ctx, list); }
void *shim_parser_new(xmpp_ctx_t *ctx, shim_start s, shim_end e, shim_stanza st, void *u)
{
    return parser_new(ctx, s, e, st, u);
}
void shim_parser_free(void *p) { parser_free(p); }
int shim_parser_reset(void *p) { return parser_reset(p); }
int shim_parser_feed(void *p, char *c, int n) { return parser_feed(p, c, n); }
