// An allocator that hands freed blocks out again at once, lowest address first, so that an object built the same way
// as one just destroyed gets the same addresses. (The sanitizers' allocator delays reuse, which would hide state kept per address.)
// Only freed blocks are ever handed out again, so anything the library legitimately keeps stays intact.
#pragma once
#include <cstdlib>
#include <new>
#include <cstddef>
namespace mon {
struct Recycler {
  enum { CLASSES = 256, BYTES = 8 << 20 };  // blocks of up to 4 KiB, in steps of 16 bytes
  struct Free { Free *next; };
  bool on = false;
  Free *head[CLASSES] = {};
  size_t used = 0;
  unsigned long reused = 0;
  alignas(64) char mem[BYTES];
  bool owns(void *p) const { return (char *) p >= mem && (char *) p < mem + BYTES; }
  void *take(size_t n) {
    size_t k = (n + 15) / 16 + 1;  // one unit in front for the class
    if (k >= CLASSES) return nullptr;
    char *b;
    if (head[k]) { b = (char *) head[k]; head[k] = head[k]->next; reused++; }
    else { if (used + k * 16 > BYTES) return nullptr; b = mem + used; used += k * 16; }
    *(size_t *) b = k;
    return b + 16;
  }
  void give(void *p) {
    char *b = (char *) p - 16;
    size_t k = *(size_t *) b;
    Free **at = &head[k];
    while (*at && (char *) *at < b) at = &(*at)->next;
    Free *f = (Free *) b;
    f->next = *at;
    *at = f;
  }
};
inline Recycler &recycler() { static Recycler *r = (Recycler *) std::calloc(1, sizeof(Recycler)); return *r; }
/// recycling while in scope
struct Recycling {
  Recycling() { recycler().on = true; }
  ~Recycling() { recycler().on = false; }
};
}  // namespace mon
#if defined(RECYCLE_MAIN)
void *operator new(std::size_t n) {
  void *p = mon::recycler().on ? mon::recycler().take(n ? n : 1) : nullptr;
  if (!p) p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { if (p && mon::recycler().owns(p)) mon::recycler().give(p); else std::free(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
#endif
