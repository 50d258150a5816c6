// Heap of one execution: bump allocation, memory is never reused while an execution is active, so that every access to a
// freed block is seen in the shadow memory.
#include "rt_core.h"
#include <new>
#include <stdlib.h>
#include <malloc.h>

namespace mcrt
{
void heap_redzone(void* ptr);
struct Hdr
{
  size_t size;      // user size
  uint32_t magic;
  uint32_t arena;   // 0 coordinator, 1 execution
};
static_assert(sizeof(Hdr) == 16, "");
constexpr uint32_t MAGIC = 0x5ca10b05;
static char* base[2];
static char* pos[2];
static char* lim[2];
static volatile int lk;
struct Free { Free* next; };
static Free* bins[64];
static size_t live_blocks;

static void lock()
{
  while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {}
}
static void unlock() { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
static int bin_of(size_t n)
{
  int b = 5;
  while ((size_t(1) << b) < n) b++;
  return b;
}
static void* alloc(size_t n, size_t align, void*)
{
  int ar = on() ? 1 : 0;
  if (align < 16) align = 16;
  if (n > (size_t(1) << 33))
    return nullptr;
  lock();
  if (base[ar] == nullptr)
  {
    size_t sz = size_t(1) << 36;
    base[ar] = (char*)rsys(SYS_mmap, ar ? 0x100000000000L : 0x200000000000L, (long)sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pos[ar] = base[ar];
    lim[ar] = base[ar] + sz;
  }
  if (ar == 0 && align == 16)
  {
    int b = bin_of(n + 16);
    if (b < 64 && bins[b] != nullptr)
    {
      Free* f = bins[b];
      bins[b] = f->next;
      unlock();
      ((Hdr*)f)[-1] = { n, MAGIC, 0 };
      return f;
    }
  }
  uintptr_t p = (uintptr_t)pos[ar] + 32;
  p = (p + align - 1) & ~(align - 1);
  size_t span = ar == 0 && align == 16 ? (size_t(1) << bin_of(n + 16)) : ((n + 7) & ~size_t(7)) + 8;
  pos[ar] = (char*)(((p + span) + 15) & ~uintptr_t(15));
  if (pos[ar] > lim[ar])
  {
    unlock();
    return nullptr;
  }
  unlock();
  ((Hdr*)p)[-1] = { n, MAGIC, (uint32_t)ar };
  if (ar == 1)
  {
    heap_redzone((void*)(p + ((n + 7) & ~size_t(7))));
    live_blocks++;
  }
  return (void*)p;
}
static void dealloc(void* p, void* pc)
{
  if (p == nullptr)
    return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != MAGIC)
  {
    if (on() && h->magic == ~MAGIC)
    {
      G.slot->pcs[0] = (uint64_t)pc;
      violate("double-free", "free of memory already freed, by T%d", self->id);
    }
    if (on())
      violate("bad-free", "free of a pointer that was not allocated, by T%d", self->id);
    return;
  }
  if (h->arena == 1)
  {
    if (on())
    {
      heap_freed(p, h->size ? h->size : 1, pc);
      h->magic = ~MAGIC;
      live_blocks--;
    }
    return;
  }
  if (on())
    return;
  int b = bin_of(h->size + 16);
  lock();
  Free* f = (Free*)p;
  f->next = bins[b];
  bins[b] = f;
  unlock();
}
}  // namespace mcrt
using namespace mcrt;
#define PC __builtin_return_address(0)
extern "C" {
void* malloc(size_t n)
{
  void* p = alloc(n, 16, PC);
  if (p == nullptr) errno = ENOMEM;
  return p;
}
void free(void* p) { dealloc(p, PC); }
void* calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = alloc(n, 16, PC);
  if (p != nullptr)
    memset(p, 0, n);
  else
    errno = ENOMEM;
  return p;
}
void* realloc(void* p, size_t n)
{
  if (p == nullptr)
    return alloc(n, 16, PC);
  size_t o = ((Hdr*)p)[-1].size;
  void* q = alloc(n, 16, PC);
  if (q == nullptr) { errno = ENOMEM; return nullptr; }
  memcpy(q, p, o < n ? o : n);
  dealloc(p, PC);
  return q;
}
void* memalign(size_t a, size_t n) { return alloc(n, a, PC); }
void* aligned_alloc(size_t a, size_t n) { return alloc(n, a, PC); }
int posix_memalign(void** o, size_t a, size_t n)
{
  *o = alloc(n, a, PC);
  return *o ? 0 : ENOMEM;
}
void* valloc(size_t n) { return alloc(n, 4096, PC); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p)[-1].size : 0; }
}
static void* newx(size_t n, size_t a, void* pc)
{
  void* p = alloc(n, a, pc);
  if (p == nullptr)
    throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return newx(n, 16, PC); }
void* operator new[](size_t n) { return newx(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return newx(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return newx(n, (size_t)a, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16, PC); }
void operator delete(void* p) noexcept { dealloc(p, PC); }
void operator delete[](void* p) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, PC); }
namespace mc
{
size_t live_heap_blocks() { return live_blocks; }
}
