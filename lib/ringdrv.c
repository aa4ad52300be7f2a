/* Drives cluster_config.c: one command per line on stdin, one answer per line on stdout.
     i <who> <name>               a member comes up that calls itself <name>
     r <who> <name>...            it is told the list of nodes
     l <who> <key>...             it looks keys up: ret:mine:key_id:self_id for each
     f <n>                        the n-th allocation from now on fails (0: none)
     x <who> <rounds> <ms> <key>... / <list> / <list>
                                  it is told the lists in turns while threads look the keys up;
                                  answer: what was ever seen for each key, as owner index/self index pairs
     e <who>                      it goes away */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <pthread.h>
#include "cluster_config.h"

static int failing;
void *__real_malloc(size_t n);
void *__real_realloc(void *p, size_t n);
void *__real_calloc(size_t a, size_t n);
static int fails(void) { return failing > 0 && --failing == 0; }
void *__wrap_malloc(size_t n) { return fails() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { return fails() ? NULL : __real_calloc(a, n); }
void *__wrap_realloc(void *p, size_t n) { return fails() ? NULL : __real_realloc(p, n); }

static void quiet(EXTENSION_LOG_LEVEL s, const void *c, const char *fmt, ...) { }
static EXTENSION_LOGGER_DESCRIPTOR logger = { .log = quiet };
static struct cluster_config *cf[8];

#define W 4096
static char *w[W];
static int words(char *l)
{
    int n = 0;
    for (char *p = strtok(l, " \n"); p && n < W; p = strtok(NULL, " \n")) w[n++] = p;
    return n;
}

struct job { struct cluster_config *c; char **keys; int nk; char *seen; int *none; };
static volatile int over;
static int tell(struct cluster_config *c, char **list, int n, int *a, int *r)
{
    char *copy[W];
    for (int i = 0; i < n; i++) copy[i] = strdup(list[i]);
    int ret = cluster_config_reconfigure(c, copy, n, a, r);
    for (int i = 0; i < n; i++) free(copy[i]);
    return ret;
}
#define SEEN(j, k, o, s) ((j)->seen[((k) * 64 + (o)) * 65 + (s) + 1])
static void *look(void *v)
{
    struct job *j = v;
    while (!over)
        for (int k = 0; k < j->nk; k++) {
            bool mine = false; uint32_t o = 0, s = 0;
            if (cluster_config_key_is_mine(j->c, j->keys[k], strlen(j->keys[k]), &mine, &o, &s)) { j->none[k]++; continue; }
            if (o > 63 || (int)s < -1 || (int)s > 63 || mine != (o == s)) { j->none[k] += 1000000; continue; }
            SEEN(j, k, o, (int)s) = 1;
        }
    return NULL;
}
#include <time.h>
static void storm(struct cluster_config *c, int n)
{
    int rounds = atoi(w[2]), nk = 0, n1 = 0, n2 = 0;
    char **keys = w + 4, **l1, **l2;
    while (strcmp(keys[nk], "/")) nk++;
    l1 = keys + nk + 1;
    while (strcmp(l1[n1], "/")) n1++;
    l2 = l1 + n1 + 1; n2 = n - (l2 - w);
    struct job j[3]; pthread_t t[3];
    over = 0;
    tell(c, l1, n1, NULL, NULL);
    for (int i = 0; i < 3; i++) {
        j[i] = (struct job){ c, keys, nk, calloc(nk, 64 * 65), calloc(nk, sizeof(int)) };
        pthread_create(&t[i], NULL, look, &j[i]);
    }
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int i = 0; i < rounds; i++) {
        tell(c, l2, n2, NULL, NULL);
        tell(c, l1, n1, NULL, NULL);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 > atoi(w[3])) break;
    }
    over = 1;
    for (int i = 0; i < 3; i++) pthread_join(t[i], NULL);
    for (int k = 0; k < nk; k++) {
        int none = 0;
        for (int i = 0; i < 3; i++) none += j[i].none[k];
        printf("%s%d", k ? " " : "", none);
        for (int o = 0; o < 64; o++) for (int s = -1; s < 64; s++)
            if (SEEN(&j[0], k, o, s) || SEEN(&j[1], k, o, s) || SEEN(&j[2], k, o, s)) printf(",%d:%d", o, s);
    }
    printf("\n");
    for (int i = 0; i < 3; i++) { free(j[i].seen); free(j[i].none); }
}

int main(void)
{
    static char line[1 << 20];
    while (fgets(line, sizeof(line), stdin)) {
        int n = words(line), a = -7, r = -7;
        if (n == 0) continue;
        int who = n > 1 ? atoi(w[1]) : 0;
        switch (w[0][0]) {
        case 'i': cf[who] = cluster_config_init(w[2], &logger, 0); printf("%d\n", cf[who] != NULL); break;
        case 'f': failing = who; printf("ok\n"); break;
        case 'r': {
            char *copy[W];
            int ret;
            for (int i = 2; i < n; i++) { char *p = __real_malloc(strlen(w[i]) + 1); strcpy(p, w[i]); copy[i - 2] = p; }
            ret = cluster_config_reconfigure(cf[who], copy, n - 2, &a, &r);
            int f = failing; failing = 0;
            for (int i = 2; i < n; i++) free(copy[i - 2]);
            printf("%d %d %d %d %d\n", ret, a, r, cluster_config_get_self_id(cf[who]), f);
            break;
        }
        case 'l':
            for (int i = 2; i < n; i++) {
                bool mine = false; uint32_t o = 0, s = 0;
                int ret = cluster_config_key_is_mine(cf[who], w[i], strlen(w[i]), &mine, &o, &s);
                if (ret) printf("%s-", i > 2 ? " " : ""); else printf("%s%d:%d:%d", i > 2 ? " " : "", mine, (int)o, (int)s);
            }
            printf("\n");
            break;
        case 'x': storm(cf[who], n); break;
        case 'e': cluster_config_final(cf[who]); cf[who] = NULL; printf("ok\n"); break;
        }
        fflush(stdout);
    }
    return 0;
}
