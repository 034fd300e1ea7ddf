// Stands in for castxml, gccxml and typelib-clang-tlb-importer: prints what was prepared for a header, and records how it was called
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int copy(const char* name)
{
    FILE* f = fopen(name, "r");
    if (!f)
        return 1;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
        fwrite(b, 1, n, stdout);
    fclose(f);
    return fflush(stdout) ? 1 : 0;
}
int main(int argc, char** argv)
{
    const char* log = getenv("CASTXML_LOG");
    if (log) {
        char line[16384];
        size_t n = 0;
        for (int i = 1; i < argc && n + strlen(argv[i]) + 2 < sizeof line; ++i)
            n += sprintf(line + n, "%s%c", argv[i], i + 1 < argc ? '\t' : '\n');
        FILE* f = fopen(log, "a");
        if (f) {
            setvbuf(f, 0, _IOFBF, sizeof line);
            fwrite(line, 1, n, f);
            fclose(f);
        }
    }
    const char* delay = getenv("CASTXML_DELAY");
    if (delay)
        usleep((unsigned) (atoi(delay) + getpid() % 7 * 300));
    for (int i = 1; i < argc; ++i)
        if (!strcmp(argv[i], "-E") || !strcmp(argv[i], "--preprocess"))
            return copy(argv[argc - 1]);
    // as the clang importer
    const char* result = getenv("CLANG_RESULT");
    if (result) {
        for (int i = 1; i < argc; ++i)
            if (!strncmp(argv[i], "-opaquePath=", 12)) {
                if (!freopen(getenv("CLANG_OPAQUES"), "w", stdout) || copy(argv[i] + 12))
                    return 1;
            }
        for (int i = 1; i < argc; ++i)
            if (!strncmp(argv[i], "-tlbSavePath=", 13))
                if (!freopen(argv[i] + 13, "w", stdout) || copy(result))
                    return 1;
        return atoi(getenv("CLANG_STATUS"));
    }
    char name[8192];
    // as gccxml
    if (!strncmp(argv[argc - 1], "-fxml=", 6)) {
        if (!freopen(argv[argc - 1] + 6, "w", stdout))
            return 1;
        --argc;
    }
    snprintf(name, sizeof name, "%s.castxml", argv[argc - 1]);
    return copy(name);
}
