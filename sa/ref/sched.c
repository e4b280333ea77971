/*
 * The scheduler of threads without host threads.
 */
#include <errno.h>
#include <stdbool.h>
#include <stddef.h>
#include <time.h>

#include "exec.h"
#include "instance.h"
#include "timeutil.h"
#include "usched.h"

/* what can go on goes to the end of the queue */
void
ref_sched_enqueue__0(struct sched *s, struct exec_context *ctx)
{
        SLIST_INSERT_TAIL(&s->runq, ctx, rq);
}

void
ref_sched_run__0(struct sched *s, struct exec_context *caller)
{
        struct exec_context *ctx;
        while ((ctx = SLIST_FIRST(&s->runq)) != NULL) {
                int ret;
                SLIST_REMOVE_HEAD(&s->runq, ctx, rq);
                abstime_from_reltime_ms(CLOCK_MONOTONIC, &s->next_resched,
                                        100);
                ret = instance_execute_continue(ctx);
                if (IS_RESTARTABLE(ret) && ret != ETOYWASMUSERINTERRUPT) {
                        SLIST_INSERT_TAIL(&s->runq, ctx, rq);
                        continue;
                }
                ctx->exec_ret = ret;
                if (ctx == caller) {
                        return;
                }
                ctx->exec_done(ctx);
        }
}

void
ref_sched_init__0(struct sched *s)
{
        SLIST_HEAD_INIT(&s->runq);
}

/* a turn ends when its time is over and another thread waits */
bool
ref_sched_need_resched__0(struct sched *s)
{
        struct timespec now;
        if (SLIST_FIRST(&s->runq) == NULL) {
                return false;
        }
        if (timespec_now(CLOCK_MONOTONIC, &now) != 0) {
                return true;
        }
        return timespec_cmp(&s->next_resched, &now) <= 0;
}

bool
ref_sched_need_resched__1(struct sched *s)
{
        struct timespec now;
        if (SLIST_FIRST(&s->runq) == NULL) {
                return false;
        }
        if (timespec_now(CLOCK_MONOTONIC, &now) != 0) {
                return true;
        }
        return timespec_cmp(&now, &s->next_resched) >= 0;
}
