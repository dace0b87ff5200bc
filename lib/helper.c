/* A command which reports how it was run, and behaves as told.
 *
 * It is known by the path P it was run from (/proc/self/exe).  P.ctl tells it
 * what to do: "<read stdin> <bytes of output> <bytes of error> <status>
 * <signal>".  A record is appended to P.rep: one line for each argument,
 * the directory, the variables and what it was given to read.
 *
 * With IPKGV_DIR=D, reports of all commands go to D/rep instead, and the Nth
 * run (from 0) does what D/ctl.N tells (if it exists), then runs the shell
 * script D/do.N (if it exists).
 */
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern char **environ;

static void hex(FILE *f, char kind, const char *data, size_t n)
{
    fputc(kind, f);
    for (size_t i = 0; i < n; i++)
        fprintf(f, "%02x", (unsigned char)data[i]);
    fputc('\n', f);
}

static void put(int fd, char base, long n)
{
    char buf[4096];
    long done = 0;
    while (done < n) {
        long m = n - done > 4096 ? 4096 : n - done, w;
        for (long i = 0; i < m; i++)
            buf[i] = (done + i) % 61 == 60 ? '\n' : base + (done + i) % 23;
        w = write(fd, buf, m);
        if (w <= 0)
            _exit(99);
        done += w;
    }
}

int main(int argc, char **argv)
{
    char path[PATH_MAX + 1], cwd[PATH_MAX], name[PATH_MAX + 8];
    int reads = 0, status = 0, sig = 0;
    long out = 0, err = 0;
    ssize_t n = readlink("/proc/self/exe", path, PATH_MAX);
    if (n < 0)
        return 98;
    path[n] = 0;
    const char *dir = getenv("IPKGV_DIR");
    int nth = 0;
    if (dir) {
        int c, last = '\n';
        snprintf(name, sizeof name, "%s/rep", dir);
        FILE *r = fopen(name, "r");
        while (r && (c = getc(r)) != EOF) {
            if (last == '\n' && c == '.')
                nth++;
            last = c;
        }
        if (r)
            fclose(r);
        snprintf(name, sizeof name, "%s/ctl.%d", dir, nth);
    } else
        snprintf(name, sizeof name, "%s.ctl", path);
    FILE *f = fopen(name, "r");
    if (f) {
        if (fscanf(f, "%d %ld %ld %d %d", &reads, &out, &err, &status,
                   &sig) != 5)
            return 97;
        fclose(f);
    }
    char *data = NULL, *text = NULL;
    size_t size = 0, got = 0;
    f = open_memstream(&text, &size);
    for (int i = 0; i < argc; i++)
        hex(f, 'A', argv[i], strlen(argv[i]));
    if (getcwd(cwd, sizeof cwd))
        hex(f, 'C', cwd, strlen(cwd));
    for (char **e = environ; *e; e++)
        hex(f, 'E', *e, strlen(*e));
    if (reads) {
        size_t room = 1 << 16;
        ssize_t r;
        data = malloc(room);
        while ((r = read(0, data + got, room - got)) > 0)
            if ((got += r) == room)
                data = realloc(data, room *= 2);
        hex(f, 'I', data, got);
    }
    fputs(".\n", f);
    fclose(f);
    if (dir)
        snprintf(name, sizeof name, "%s/rep", dir);
    else
        snprintf(name, sizeof name, "%s.rep", path);
    int fd = open(name, O_WRONLY | O_CREAT | O_APPEND, 0666);
    if (fd < 0 || write(fd, text, size) != (ssize_t)size)
        return 96;
    close(fd);
    if (dir) {
        char command[PATH_MAX + 64];
        snprintf(command, sizeof command, "%s/do.%d", dir, nth);
        if (access(command, F_OK) == 0) {
            snprintf(command, sizeof command, "/bin/sh '%s/do.%d' </dev/null",
                     dir, nth);
            if (system(command))
                return 95;
        }
    }
    put(1, 'a', out);
    put(2, 'A', err);
    if (sig) {
        /* whatever was inherited, such as from nohup */
        sigset_t all;
        signal(sig, SIG_DFL);
        sigfillset(&all);
        sigprocmask(SIG_UNBLOCK, &all, NULL);
        kill(getpid(), sig);
    }
    return status;
}
