/* Development only (LATTESIM_COV=1): which places of LattE's code were reached, in a file shared by all processes. */
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern char __executable_start, etext;
static unsigned char *map;
__attribute__((constructor(101))) static void start(void)
{
  const char *f = getenv("LATTESIM_COVFILE");
  size_t n = (size_t)(&etext - &__executable_start) + 4096;
  if (!f) return;
  int fd = syscall(SYS_open, f, O_RDWR | O_CREAT, 0666);
  if (fd < 0) return;
  if (syscall(SYS_ftruncate, fd, n)) return;
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (p != MAP_FAILED) map = p;
}
void __sanitizer_cov_trace_pc(void)
{
  if (map) map[(char *)__builtin_return_address(0) - &__executable_start] = 1;
}
