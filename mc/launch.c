// launch SPEC: SPEC holds "argc envc\n" then that many NUL-terminated strings: executes the first with exactly these arguments
// and environment entries.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int c, char **v) {
    FILE *f = fopen(v[1], "rb");
    static char buf[8 << 20];
    size_t n = fread(buf, 1, sizeof buf, f);
    (void)n;
    int a, e, k;
    sscanf(buf, "%d %d%n", &a, &e, &k);
    char *p = buf + k + 1;
    char **argv = calloc(a + 1, sizeof *argv), **envp = calloc(e + 1, sizeof *envp);
    for (int i = 0; i < a; i++) { argv[i] = p; p += strlen(p) + 1; }
    for (int i = 0; i < e; i++) { envp[i] = p; p += strlen(p) + 1; }
    fclose(f);
    execve(v[2], argv, envp);
    perror("execve");
    return 126;
}
