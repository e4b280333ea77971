/*
 * Stopping all other threads of a cluster, and letting them go on.
 */
#include <errno.h>
#include <stdbool.h>
#include <stddef.h>

#include "cluster.h"
#include "exec.h"
#include "suspend.h"
#include "timeutil.h"

void parked(struct cluster *c);

/*
 * The last thread to park wakes the one that wants all to stop.  The last
 * one to go on ends the resumption.
 */
void
ref_parked__0(struct cluster *c) NO_THREAD_SAFETY_ANALYSIS
{
        c->nparked++;
        if (c->nparked + 1 == c->nrunners) {
                toywasm_cv_broadcast(&c->stop_cv, &c->lock);
        }
        while (c->suspend_state == SUSPEND_STATE_STOPPING) {
                toywasm_cv_wait(&c->stop_cv, &c->lock);
        }
        c->nparked--;
        if (c->nparked == 0) {
                c->suspend_state = SUSPEND_STATE_NONE;
                toywasm_cv_broadcast(&c->stop_cv, &c->lock);
        }
}

void
ref_suspend_parked__0(struct cluster *c)
{
        if (c != NULL && c->suspend_state == SUSPEND_STATE_STOPPING) {
                toywasm_mutex_lock(&c->lock);
                parked(c);
                toywasm_mutex_unlock(&c->lock);
        }
}

/*
 * One at a time: another thread's stop is obeyed first, and its resumption
 * has to be complete.
 */
void
ref_suspend_threads__0(struct cluster *c) NO_THREAD_SAFETY_ANALYSIS
{
        toywasm_mutex_lock(&c->lock);
        while (true) {
                if (c->suspend_state == SUSPEND_STATE_STOPPING) {
                        parked(c);
                } else if (c->suspend_state == SUSPEND_STATE_RESUMING) {
                        toywasm_cv_wait(&c->stop_cv, &c->lock);
                } else {
                        break;
                }
        }
        c->suspend_state = SUSPEND_STATE_STOPPING;
        while (c->nparked + 1 != c->nrunners) {
                toywasm_cv_wait(&c->stop_cv, &c->lock);
        }
        toywasm_mutex_unlock(&c->lock);
}

void
ref_resume_threads__0(struct cluster *c)
{
        toywasm_mutex_lock(&c->lock);
        c->suspend_state = c->nparked > 0 ? SUSPEND_STATE_RESUMING
                                          : SUSPEND_STATE_NONE;
        toywasm_cv_broadcast(&c->stop_cv, &c->lock);
        toywasm_mutex_unlock(&c->lock);
}
