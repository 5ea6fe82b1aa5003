// counts the array blocks that the extension holds (linked into the AddressSanitizer build only)
#include <atomic>
#include <cstdlib>
#include <new>
static std::atomic<long> live{0};
void *operator new[](std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete[](void *p) noexcept { if (p) { live--; std::free(p); } }
void operator delete[](void *p, std::size_t) noexcept { operator delete[](p); }
extern "C" __attribute__((visibility("default"))) long verif_live_blocks() { return live; }
