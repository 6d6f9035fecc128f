#include <pthread.h>
#include <stdio.h>
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t ready = PTHREAD_COND_INITIALIZER;
static pthread_once_t once = PTHREAD_ONCE_INIT;
static pthread_key_t key;
static int sum, turns, inits, freed;
static void drop(void *p) { pthread_mutex_lock(&lock); freed += *(int *)p; pthread_mutex_unlock(&lock); }
static void init(void) { inits++; pthread_key_create(&key, drop); }
static int values[4];
static void *work(void *arg) {
    int *n = arg;
    pthread_once(&once, init);
    pthread_setspecific(key, n);
    for (int i = 0; i < 100; i++) {
        pthread_mutex_lock(&lock);
        sum += *n;
        pthread_mutex_unlock(&lock);
    }
    pthread_mutex_lock(&lock);
    turns++;
    pthread_cond_broadcast(&ready);
    while (turns < 4) pthread_cond_wait(&ready, &lock);
    pthread_mutex_unlock(&lock);
    return pthread_getspecific(key);
}
int mod_threads(int x) {
    pthread_t t[4];
    int back = 0;
    for (int i = 0; i < 4; i++) { values[i] = x + i; if (pthread_create(&t[i], 0, work, &values[i])) return -1; }
    for (int i = 0; i < 4; i++) { void *r; pthread_join(t[i], &r); back += r == &values[i]; }
    printf("threads %d %d %d %d\n", sum, inits, back, freed);
    return sum + turns;
}
