/* peak PROGRAM ARGS...: runs it and writes its peak resident set (KiB) to descriptor 9. A small parent matters:
 * the kernel counts the parent's pages, as they are at fork, towards the child's peak. */
#include <stdio.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
    pid_t p = fork();
    if (p == 0) {
        close(9);
        execv(argv[1], argv + 1);
        _exit(127);
    }
    int st;
    struct rusage ru;
    if (wait4(p, &st, 0, &ru) < 0) return 126;
    dprintf(9, "%ld\n", ru.ru_maxrss);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 125;
}
