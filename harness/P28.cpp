// P28: one step of the memory pool from every state (and short histories): blocks are inside, aligned and disjoint from live bytes
#include "sx.h"
#include "MemoryPool.hpp"
using namespace SpMP;
typedef unsigned long long u64;
#define sx_u64(nm) (u64)sx_long(nm, 0, size)
static u64 up(u64 x, u64 a) { return a == 1 ? x : (x + a - 1) / a * a; }
static u64 down(u64 x, u64 a) { return a == 1 ? x : x / a * a; }
static int live(u64 h, u64 t, u64 b) { return ((t >= h) & (b >= h) & (b < t)) | ((t < h) & ((b >= h) | (b < t))); }
extern "C" void sx_main(void) {
  u64 size = sx_param("size", 4096); int steps = sx_param("steps", 1);
  MemoryPool *P = new MemoryPool(size);
  // every state can be reached: head <= tail by giving back the front, tail < head by allocating at the other end
  u64 t = sx_u64("t"); sx_assume(t < size); char *base = (char *)P->allocate(t, 1);
  if (sx_pick("wrapped", 0, 1)) { u64 h = sx_u64("h"); sx_assume(h > t && h < size); char *p = (char *)P->allocateFront(size - h, 1); sx_assert(p == base + h, "a block at the far end"); sx_assert(P->getHead() == h && P->getTail() == t, "head and tail after allocating at both ends"); }
  else { u64 h = sx_u64("h"); sx_assume(h <= t); P->setHead(h); sx_assert(P->getHead() == h && P->getTail() == t, "head and tail after freeing the front"); }
  u64 b = sx_u64("b"); sx_assume(b < size); // any byte of the pool
  for (int q = 0; q < steps; q++) {
    u64 H = P->getHead(), L = P->getTail(); int was = live(H, L, b);
    sx_assert(P->contains(base + b) == was, "contains tells live bytes");
    int op = sx_pick(sx_nm("op", q), sx_param("op0", 0), sx_param("op1", 4));
    if (op < 2) {
      static const int AL[4] = {64, 1, 8, 256}; int al = AL[sx_pick(sx_nm("al", q), 0, sx_param("aligns", 4) - 1)]; u64 sz = sx_u64(sx_nm("sz", q)); sx_assume(sz <= size); u64 S = up(sz, al); u64 p;
      if (op == 0) {
        u64 at = up(L, al); if (L >= H) sx_assume((at + S < size) | (S < H)); else sx_assume(at + S < H);
        p = (char *)P->allocate(sz, al) - base;
        sx_assert(P->getHead() == H, "allocate leaves the head alone");
        int gap = p >= L ? (b >= L) & (b < p) : (b >= L) | (b < p);
        int now = live(P->getHead(), P->getTail(), b); sx_assert(!(now & !was) | ((b >= p) & (b < p + S)) | gap, "only the block and padding before it become live");
      } else {
        if (L >= H) sx_assume((S <= H) | ((S <= size) & (down(size - S, al) > L))); else sx_assume((S <= H) & (down(H - S, al) > L));
        p = (char *)P->allocateFront(sz, al) - base;
        sx_assert(P->getTail() == L, "allocateFront leaves the tail alone");
        int gap = p + S <= H ? (b >= p + S) & (b < H) : (b >= p + S) | (b < H);
        int now = live(P->getHead(), P->getTail(), b); sx_assert(!(now & !was) | ((b >= p) & (b < p + S)) | gap, "only the block and padding after it become live");
      }
      sx_assert((p < size) & (p + sz <= size), "the block is inside the pool");
      sx_assert(down(p, al) == p, "the block is aligned");
      int in = (b >= p) & (b < p + sz), now = live(P->getHead(), P->getTail(), b);
      sx_assert(!(in & was), "the block overlaps no live byte"); sx_assert(!in | now, "the block is live"); sx_assert(!was | now, "live bytes stay live");
    } else if (op < 4) {
      u64 o = sx_u64(sx_nm("o", q)); sx_assume(o < size); if (L >= H) sx_assume((o >= H) & (o <= L)); else sx_assume((o >= H) | (o <= L));
      if (op == 2) P->setHead(o); else P->setTail(o);
      sx_assert(P->getHead() == (op == 2 ? o : H) && P->getTail() == (op == 3 ? o : L), "head and tail are set"); sx_assert(!live(P->getHead(), P->getTail(), b) | was, "freeing only shrinks");
    } else { P->deallocateAll(); sx_assert(!live(P->getHead(), P->getTail(), b), "nothing is live"); }
    sx_observe_i("head", P->getHead()); sx_observe_i("tail", P->getTail());
    sx_assert((P->getHead() < size) & (P->getTail() < size), "head and tail are offsets");
    sx_assert(P->contains(base + b) == live(P->getHead(), P->getTail(), b), "contains tells live bytes");
  }
  u64 off = sx_long("off", size, 1L << 40); sx_assert(!P->contains(base + off) && !P->contains(base - 1) && !P->contains(0), "nothing outside is contained");
  P->finalize(); sx_assert(!P->contains(base + b), "nothing is contained after finalize"); sx_reach("checked");
  delete P;
}
