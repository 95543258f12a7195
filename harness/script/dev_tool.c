#define _GNU_SOURCE
// Stand-in for clang-format, clang-tidy-19 and cmake (chosen by the name it is run under), for the check of the commit hook.
// Formatting: runs of spaces become one space, trailing spaces go, the text ends with a newline. A file that contains BAD_TIDY
// gets a warning. cmake creates the compilation database of its -B directory, or fails if STANDIN_CMAKE is "fail".
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

static char* slurp(FILE* f, size_t* n) {
  size_t cap = 1 << 16;
  char* b = malloc(cap);
  *n = 0;
  for (;;) {
    size_t r = fread(b + *n, 1, cap - *n, f);
    if (r == 0) return b;
    *n += r;
    if (*n == cap) b = realloc(b, cap *= 2);
  }
}

static size_t format(char* b, size_t n) {
  size_t o = 0;
  for (size_t i = 0; i < n; ++i) {
    if (b[i] == ' ' && o > 0 && b[o - 1] == ' ') continue;
    if (b[i] == '\n' && o > 0 && b[o - 1] == ' ') --o;
    b[o++] = b[i];
  }
  if (o > 0 && b[o - 1] == ' ') --o;
  if (o > 0 && b[o - 1] != '\n') b[o++] = '\n';  // slurp leaves room
  return o;
}

int main(int argc, char** argv) {
  const char* me = strrchr(argv[0], '/');
  me = me ? me + 1 : argv[0];
  int rc = 0, files = 0, in_place = 0;
  if (strncmp(me, "cmake", 5) == 0) {
    const char* e = getenv("STANDIN_CMAKE");
    if (e && strcmp(e, "fail") == 0) return 1;
    for (int i = 1; i < argc; ++i) {
      const char* d = strncmp(argv[i], "-B", 2) ? 0 : argv[i][2] ? argv[i] + 2 : i + 1 < argc ? argv[i + 1] : 0;
      if (!d) continue;
      char p[4096];
      mkdir(d, 0777);
      snprintf(p, sizeof p, "%s/compile_commands.json", d);
      FILE* f = fopen(p, "w");
      if (!f) return 1;
      fputs("[]\n", f);
      fclose(f);
    }
    return 0;
  }
  int tidy = strncmp(me, "clang-tidy", 10) == 0;
  for (int i = 1; i < argc; ++i) in_place |= strcmp(argv[i], "-i") == 0;
  for (int i = 1; i < argc; ++i) {
    if (tidy && strcmp(argv[i], "-p") == 0) {
      ++i;
      continue;
    }
    if (argv[i][0] == '-') continue;
    ++files;
    FILE* f = fopen(argv[i], "rb");
    if (!f) {
      fprintf(stderr, "%s: cannot open %s\n", me, argv[i]);
      rc = 1;
      continue;
    }
    size_t n;
    char* b = slurp(f, &n);
    fclose(f);
    if (tidy) {
      fprintf(stderr, "8123 warnings generated.\nSuppressed 8123 warnings (8123 in non-user code).\n");
      if (memmem(b, n, "BAD_TIDY", 8)) printf("%s:1:1: warning: something is bad [bugprone-something]\n", argv[i]);
    } else {
      size_t o = format(b, n);
      FILE* g = in_place ? fopen(argv[i], "wb") : stdout;
      if (!g) return 1;
      fwrite(b, 1, o, g);
      if (in_place) fclose(g);
    }
    free(b);
  }
  if (!tidy && files == 0 && !in_place) {
    size_t n;
    char* b = slurp(stdin, &n);
    fwrite(b, 1, format(b, n), stdout);
  }
  return rc;
}
