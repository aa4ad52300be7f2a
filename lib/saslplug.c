/* Two authentication mechanisms for a SASL-protected server under test.
   VPONE: the client sends user NUL password at once.
   VPTWO: the client names the user, is challenged with "prove <user>", and sends the password.
   Without first data the client is asked for it with an empty challenge.
   Passwords are checked by the server itself where it can (VP_CHECKPASS), else against VP_USERS ("user:password,..."). */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sasl/sasl.h>
#include <sasl/saslplug.h>

struct ctx { int two; int phase; char user[256]; char out[300]; };

static int good(sasl_server_params_t *p, const char *user, const char *pass)
{
    if (getenv("VP_CHECKPASS"))
        return p->utils->checkpass(p->utils->conn, user, strlen(user), pass, strlen(pass)) == SASL_OK;
    const char *l = getenv("VP_USERS");
    size_t un = strlen(user), pn = strlen(pass);
    while (l && *l) {
        const char *e = strchr(l, ',');
        size_t n = e ? (size_t)(e - l) : strlen(l);
        if (n == un + 1 + pn && !memcmp(l, user, un) && l[un] == ':' && !memcmp(l + un + 1, pass, pn)) return 1;
        l = e ? e + 1 : NULL;
    }
    return 0;
}

static int fresh(void *glob, sasl_server_params_t *p, const char *ch, unsigned chlen, void **c)
{
    struct ctx *x = calloc(1, sizeof(*x));
    if (!x) return SASL_NOMEM;
    x->two = glob != NULL;
    *c = x;
    return SASL_OK;
}

static int finish(struct ctx *x, sasl_server_params_t *p, const char *user, const char *pass, sasl_out_params_t *o)
{
    x->phase = 9;
    if (!*user) return SASL_BADPARAM;
    if (!good(p, user, pass)) return SASL_BADAUTH;
    int r = p->canon_user(p->utils->conn, user, strlen(user), SASL_CU_AUTHID | SASL_CU_AUTHZID | SASL_CU_EXTERNALLY_VERIFIED, o);
    if (r != SASL_OK) return r;
    o->doneflag = 1; o->maxoutbuf = 0; o->param_version = 0;
    return SASL_OK;
}

static int step(void *c, sasl_server_params_t *p, const char *in, unsigned n, const char **out, unsigned *outn, sasl_out_params_t *o)
{
    struct ctx *x = c;
    char b[512];
    *out = NULL; *outn = 0;
    if (!x || x->phase == 9) return SASL_FAIL;
    if (n > 250) { x->phase = 9; return SASL_BADPROT; }
    if (n) memcpy(b, in, n);
    b[n] = 0;
    if (!x->two) {
        char *z = memchr(b, 0, n);
        if (!z) { x->phase = 9; return SASL_BADPROT; }
        return finish(x, p, b, z + 1, o);
    }
    if (x->phase == 0) {
        memcpy(x->user, b, n + 1);
        x->phase = 1;
        *outn = snprintf(x->out, sizeof(x->out), "prove %s", x->user);
        *out = x->out;
        return SASL_CONTINUE;
    }
    return finish(x, p, x->user, b, o);
}

static void dispose(void *c, const sasl_utils_t *u) { free(c); }

static sasl_server_plug_t plugs[] = {
    { .mech_name = "VPONE", .features = SASL_FEAT_WANT_CLIENT_FIRST, .mech_new = fresh, .mech_step = step, .mech_dispose = dispose },
    { .mech_name = "VPTWO", .features = SASL_FEAT_WANT_CLIENT_FIRST, .glob_context = (void *)1, .mech_new = fresh, .mech_step = step, .mech_dispose = dispose },
};

__attribute__((visibility("default")))
int sasl_server_plug_init(const sasl_utils_t *utils, int maxversion, int *version, sasl_server_plug_t **list, int *n)
{
    if (maxversion < SASL_SERVER_PLUG_VERSION) return SASL_BADVERS;
    *version = SASL_SERVER_PLUG_VERSION; *list = plugs; *n = 2;
    return SASL_OK;
}
