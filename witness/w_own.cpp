// Positive controls for the ownership rules: each function must be reported.
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <Lintel/AssertBoost.hpp>

namespace wit {
    int bad_leak(const char *n, int x) {
        FILE *f = fopen(n, "r");
        if (f == NULL) return -1;
        if (x > 3) return 2;
        fclose(f);
        return 0;
    }
    int bad_throw(const char *n) {
        FILE *f = fopen(n, "r");
        if (f == NULL) return -1;
        int c = fgetc(f);
        INVARIANT(c != EOF, "empty");
        fclose(f);
        return c;
    }
    int bad_twice(const char *n, int x) {
        FILE *f = fopen(n, "r");
        if (f == NULL) return -1;
        if (x > 3) fclose(f);
        fclose(f);
        return 0;
    }
    int bad_use(const char *n) {
        FILE *f = fopen(n, "r");
        if (f == NULL) return -1;
        fclose(f);
        return fgetc(f);
    }
    int bad_fd(const char *n, int x) {
        int fd = open(n, O_RDONLY);
        if (fd < 0) return -1;
        if (x > 3) return 1;
        close(fd);
        return 0;
    }
    int good_fd(const char *n, int x) {
        int fd = open(n, O_RDONLY);
        if (fd < 0) return -1;
        if (x > 3) { close(fd); return 1; }
        close(fd);
        return 0;
    }
}
