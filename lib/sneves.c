/* Drives the benchmark's C implementation under sanitizers and between inaccessible pages.
 *   serve            requests "function place offset length\n" + message on standard input
 *   big F FILE LEN   one message of LEN bytes: FILE's contents over and over (mapped, not copied) */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

int blake2b(uint8_t *, const uint8_t *, size_t);
int blake2bp(uint8_t *, const uint8_t *, size_t);
int blake2sp(uint8_t *, const uint8_t *, size_t);

static void die(const char *w) { perror(w); exit(3); }

static int call(const char *f, uint8_t *out, const uint8_t *in, size_t n) {
  if (!strcmp(f, "blake2b")) return blake2b(out, in, n);
  if (!strcmp(f, "blake2bp")) return blake2bp(out, in, n);
  if (!strcmp(f, "blake2sp")) return blake2sp(out, in, n);
  fprintf(stderr, "function %s\n", f);
  exit(3);
}

static size_t round_up(size_t n) { return (n + 4095) / 4096 * 4096; }

/* n bytes with an inaccessible page before and after, flush with the end ('e') or the start ('s') */
static uint8_t *fenced(size_t n, int at_end, uint8_t **base, size_t *len) {
  size_t m = round_up(n ? n : 1);
  *len = m + 8192;
  *base = mmap(0, *len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (*base == MAP_FAILED) die("mmap");
  if (mprotect(*base + 4096, m, PROT_READ | PROT_WRITE)) die("mprotect");
  return at_end ? *base + 4096 + m - n : *base + 4096;
}

static void serve(void) {
  char line[200], f[20], place;
  unsigned long off, n;
  while (fgets(line, sizeof line, stdin)) {
    if (sscanf(line, "%19s %c %lu %lu", f, &place, &off, &n) != 4) { fprintf(stderr, "request %s\n", line); exit(3); }
    size_t outlen = f[6] == 'b' ? 64 : 32;
    uint8_t *copy = malloc(n + 1), *in, *out, *b1 = 0, *b2 = 0, *raw = 0, *oraw = 0;
    size_t l1 = 0, l2 = 0;
    if (n && fread(copy, 1, n, stdin) != n) die("message");
    if (place == 'm') {
      raw = malloc(off + n ? off + n : 1);
      in = raw + off;
      memcpy(in, copy, n);
      oraw = malloc(off % 8 + outlen);
      out = oraw + off % 8;
#ifndef MSAN
      memset(out, 0x5a, outlen);
#endif
    } else {
      in = fenced(n, place == 'e', &b1, &l1);
      memcpy(in, copy, n);
      if (mprotect(b1, l1, PROT_NONE) || mprotect(b1 + 4096, l1 - 8192, PROT_READ)) die("mprotect");
      out = fenced(outlen, place == 'e', &b2, &l2);
      memset(b2 + 4096, 0x5a, l2 - 8192);
    }
    int r = call(f, out, in, n);
    int spoiled = n && memcmp(in, copy, n) != 0, spilt = 0;
    if (b2) {
      for (uint8_t *p = b2 + 4096; p < b2 + l2 - 4096; p++)
        if ((p < out || p >= out + outlen) && *p != 0x5a) spilt = 1;
    }
#ifdef MSAN
    __msan_check_mem_is_initialized(out, outlen);
#endif
    for (size_t i = 0; i < outlen; i++) printf("%02x", out[i]);
    printf(" %d %d %d\n", r, spoiled, spilt);
    fflush(stdout);
    free(copy); free(raw); free(oraw);
    if (b1) munmap(b1, l1);
    if (b2) munmap(b2, l2);
  }
}

static void big(const char *f, const char *file, size_t n) {
  int fd = open(file, O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) die(file);
  size_t p = st.st_size, k = (n + p - 1) / p, total = k * p + 8192;
  uint8_t *b = mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) die("mmap");
  /* the message ends flush with an inaccessible page when n is a multiple of the page size */
  for (size_t i = 0; i < k; i++)
    if (mmap(b + 4096 + i * p, p, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap fixed");
  if (round_up(n) < k * p && mprotect(b + 4096 + round_up(n), k * p - round_up(n), PROT_NONE)) die("mprotect");
  uint8_t out[64];
  int r = call(f, out, b + 4096, n);
  for (size_t i = 0; i < (f[6] == 'b' ? 64 : 32); i++) printf("%02x", out[i]);
  printf(" %d 0 0\n", r);
}

int main(int argc, char **argv) {
  if (argc == 2 && !strcmp(argv[1], "serve")) serve();
  else if (argc == 5 && !strcmp(argv[1], "big")) big(argv[2], argv[3], strtoull(argv[4], 0, 0));
  else return 3;
  return 0;
}
