/* Preloaded into the client: solana-ledger refuses to open a ledger unless it
 * can raise the limit of open files to a million, which a sandbox may not
 * allow. Nothing here needs more than a few dozen. */
#define _GNU_SOURCE
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

int getrlimit(__rlimit_resource_t r, struct rlimit *l)
{
    long rc = syscall(SYS_prlimit64, 0, r, (void *)0, l);
    if (rc == 0 && r == RLIMIT_NOFILE)
        l->rlim_cur = l->rlim_max = 1048576;
    return (int)rc;
}

int setrlimit(__rlimit_resource_t r, const struct rlimit *l)
{
    if (r == RLIMIT_NOFILE)
        return 0;
    return (int)syscall(SYS_prlimit64, 0, r, l, (void *)0);
}

int getrlimit64(__rlimit_resource_t r, struct rlimit64 *l) { return getrlimit(r, (struct rlimit *)l); }
int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l) { return setrlimit(r, (const struct rlimit *)l); }
