/* Fork server around the compiler: its main (renamed wcpl_main) runs in a
   child for every request, so that a case costs a fork and not an exec.
   request:  u32 argc, argc x (u32 len, bytes), u32 cpu seconds
   answer:   u32 wait status, u32 1 if new coverage, u32 number of edges seen in total, u32 length of stderr, bytes */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

#undef main
extern int wcpl_main(int argc, char **argv);

static uint8_t *cov0, *cov1, *shm;
static uint8_t *virgin;
static size_t ncov;

void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b)
{
  /* one region per object file; the linker lays them out contiguously */
  if (!cov0 || a < cov0) cov0 = a;
  if (b > cov1) cov1 = b;
}

static void savecov(void)
{
  if (shm && ncov) memcpy(shm, cov0, ncov);
}

static int rd(void *p, size_t n)
{
  char *q = p;
  while (n) {
    ssize_t k = read(0, q, n);
    if (k <= 0) return 0;
    q += k; n -= (size_t)k;
  }
  return 1;
}

static void wr(const void *p, size_t n)
{
  const char *q = p;
  while (n) {
    ssize_t k = write(1, q, n);
    if (k <= 0) _exit(3);
    q += k; n -= (size_t)k;
  }
}

static uint32_t r32(void)
{
  uint32_t v;
  if (!rd(&v, 4)) exit(0);
  return v;
}

static uint8_t bucket(uint8_t v)
{
  if (v == 0) return 0;
  if (v == 1) return 1;
  if (v == 2) return 2;
  if (v == 3) return 4;
  if (v < 8) return 8;
  if (v < 16) return 16;
  if (v < 32) return 32;
  if (v < 128) return 64;
  return 128;
}

int main(int argc, char **argv)
{
  const char *errname = argc > 1 ? argv[1] : "stderr.txt";
  static char ebuf[65536];
  ncov = cov0 ? (size_t)(cov1 - cov0) : 0;
  if (ncov) {
    shm = mmap(NULL, ncov, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    virgin = calloc(1, ncov);
  }
  for (;;) {
    uint32_t n = r32(), i, len, secs, st32, fresh = 0, edges = 0;
    char **av = calloc(n + 1, sizeof *av);
    int st = 0, fd;
    size_t j;
    pid_t pid;
    for (i = 0; i < n; ++i) {
      len = r32();
      av[i] = malloc(len + 1);
      if (!rd(av[i], len)) exit(0);
      av[i][len] = 0;
    }
    secs = r32();
    if (ncov) memset(shm, 0, ncov);
    pid = fork();
    if (pid == 0) {
      struct rlimit rl;
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0); dup2(nul, 1);
      fd = open(errname, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 2);
      rl.rlim_cur = secs; rl.rlim_max = secs + 1; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      if (ncov) { memset(cov0, 0, ncov); atexit(savecov); }
      alarm(secs * 4);
      exit(wcpl_main((int)n, av));
    }
    while (waitpid(pid, &st, 0) < 0) ;
    for (j = 0; j < ncov; ++j) if (shm[j]) {
      uint8_t b = bucket(shm[j]);
      if (b & ~virgin[j]) { virgin[j] |= b; fresh = 1; }
    }
    for (j = 0; j < ncov; ++j) if (virgin[j]) ++edges;
    st32 = (uint32_t)st;
    wr(&st32, 4); wr(&fresh, 4); wr(&edges, 4);
    fd = open(errname, O_RDONLY);
    len = 0;
    if (fd >= 0) {
      ssize_t k;
      while (len < sizeof ebuf && (k = read(fd, ebuf + len, sizeof ebuf - len)) > 0) len += (uint32_t)k;
      close(fd);
    }
    wr(&len, 4); wr(ebuf, len);
    for (i = 0; i < n; ++i) free(av[i]);
    free(av);
  }
}
