/* Stand-in for btree_benchmark: records its arguments and plays back a
   prepared run.  FAKE_DIR/run.<n>: first byte-line "<exit code or -signal>",
   the rest is written to standard output. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char** argv) {
  const char* d = getenv("FAKE_DIR");
  if (!d) return 99;
  char path[4096];
  snprintf(path, sizeof path, "%s/log", d);
  FILE* f = fopen(path, "r");
  long n = 0;
  if (f) {
    for (int c; (c = fgetc(f)) != EOF;) n += c == '\n';
    fclose(f);
  }
  f = fopen(path, "a");
  for (int i = 1; i < argc; ++i) fprintf(f, "%s\x1f", argv[i]);
  fputc('\n', f);
  fclose(f);
  snprintf(path, sizeof path, "%s/run.%ld", d, n);
  f = fopen(path, "rb");
  if (!f) {
    fprintf(stderr, "more runs than asked for\n");
    return 98;
  }
  int code = 0;
  if (fscanf(f, "%d", &code) != 1) return 97;
  fgetc(f);
  char buf[65536];
  size_t k;
  while ((k = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, k, stdout);
  fclose(f);
  fflush(stdout);
  if (code) fprintf(stderr, "benchmark went wrong\n");
  if (code < 0) {
    kill(getpid(), -code);
    pause();
  }
  return code;
}
