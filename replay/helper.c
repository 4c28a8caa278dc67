/* Accessors the replay driver needs; linked with the library under test. */
#include <stddef.h>
#include <errno.h>
#include <pthread.h>
#include "armas.h"

/* creating a thread fails after so many more (negative: never) */
int vp_threads_left = -1;
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p)
{
    if (vp_threads_left == 0)
        return EAGAIN;
    if (vp_threads_left > 0)
        vp_threads_left--;
    return pthread_create(t, a, f, p);
}

armas_conf_t vp_conf;
armas_conf_t *vp_conf_get(int which) { return which ? &vp_conf : armas_conf_default(); }
void vp_conf_reset(int which, int optflags)
{
    if (which) {
        vp_conf = *armas_conf_default();
    }
    armas_conf_t *c = vp_conf_get(which);
    c->error = 0;
    c->optflags = optflags;
    c->tolmult = 1;
}
int vp_conf_int(int which, int f)
{
    armas_conf_t *c = vp_conf_get(which);
    switch (f) {
    case 0: return c->error;
    case 1: return c->optflags;
    case 2: return c->tolmult;
    case 3: return c->maxiter;
    case 4: return c->gmres_m;
    case 5: return c->numiters;
    }
    return 0;
}
void vp_env_cmem(long cmem)
{
    static size_t dflt;
    armas_env_t *e = armas_getenv();
    if (!dflt)
        dflt = e->cmem;
    e->cmem = cmem < 0 ? dflt : (size_t)cmem;
}

void vp_env_set(int mb, int nb, int kb, int lb, int b1, int b2)
{
    static int init;
    static armas_env_t dflt;
    armas_env_t *e = armas_getenv();
    if (!init) {
        dflt = *e;
        init = 1;
    }
    e->mb = mb < 0 ? dflt.mb : mb;
    e->nb = nb < 0 ? dflt.nb : nb;
    e->kb = kb < 0 ? dflt.kb : kb;
    e->lb = lb < 0 ? dflt.lb : lb;
    e->blas1min = b1 < 0 ? dflt.blas1min : b1;
    e->blas2min = b2 < 0 ? dflt.blas2min : b2;
}
