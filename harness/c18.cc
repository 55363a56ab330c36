// C18: the arena hands out disjoint, aligned memory and destroys each object once.
#include <map>
#include <memory>
#include "arena.h"
#include "common/vr.h"
#include "exec_engine.h"
using jitfusion::Arena;
using vr::Ctx;

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void*);
}

// Every heap block obtained while a call into the arena is under way.
namespace {
bool g_in_arena = false;
struct Log {
  // fixed storage: the hooks must not allocate
  static constexpr size_t kMax = 1 << 16;
  struct E {
    uintptr_t p;
    size_t n;
  };
  E e[kMax];
  size_t n = 0;
  uint64_t mallocs = 0, frees = 0, foreign = 0;
  void Add(uintptr_t p, size_t s) {
    ++mallocs;
    if (n < kMax) e[n++] = {p, s};
  }
  void Del(uintptr_t p) {
    for (size_t i = n; i-- > 0;) {
      if (e[i].p == p) {
        ++frees;
        e[i] = e[--n];
        return;
      }
    }
    ++foreign;
  }
  size_t Live() const {
    size_t t = 0;
    for (size_t i = 0; i < n; ++i) t += e[i].n;
    return t;
  }
  // is [p,p+s) inside one block?
  bool Inside(uintptr_t p, size_t s) const {
    for (size_t i = 0; i < n; ++i) {
      if (p >= e[i].p && s <= e[i].n && p - e[i].p <= e[i].n - s) return true;
    }
    return false;
  }
} g_log;

void OnMalloc(const volatile void* p, size_t n) {
  if (g_in_arena) g_log.Add(reinterpret_cast<uintptr_t>(p), n);
}
void OnFree(const volatile void* p) {
  if (g_in_arena && p) g_log.Del(reinterpret_cast<uintptr_t>(p));
}
struct In {
  In() { g_in_arena = true; }
  ~In() { g_in_arena = false; }
};
struct NotIn {
  bool was = g_in_arena;
  NotIn() { g_in_arena = false; }
  ~NotIn() { g_in_arena = was; }
};

// ---- objects ----
struct ObjLog {
  uint64_t next = 1;
  std::vector<uint64_t> live;  // in order of completed construction
  std::vector<std::string> wrong;
  uint64_t born = 0, died = 0;
} g_obj;

void Wrong(const std::string& s) {
  NotIn n;
  if (g_obj.wrong.size() < 5) g_obj.wrong.push_back(s);
}

template <size_t A, size_t N>
struct alignas(A) Obj {
  uint64_t id;
  uint64_t magic;
  Obj* self;
  std::string* heap;
  uint8_t pad[N];
  struct Thrown {};
  explicit Obj(bool fail, Arena* nested = nullptr);
  ~Obj();
};
struct Leaf : Obj<8, 24> {
  Leaf() : Obj<8, 24>(false) {}
};

template <size_t A, size_t N>
Obj<A, N>::Obj(bool fail, Arena* nested) {
  if (reinterpret_cast<uintptr_t>(this) % A != 0) Wrong("an object of alignment " + std::to_string(A) + " was built at a misaligned address");
  if (fail) throw Thrown();
  if (nested) nested->Create<Leaf>();
  NotIn n;
  id = g_obj.next++;
  magic = id * 0x9e3779b97f4a7c15ULL;
  self = this;
  heap = new std::string(40 + id % 30, static_cast<char>('a' + id % 26));
  for (size_t i = 0; i < N; ++i) pad[i] = static_cast<uint8_t>(id * 7 + i);
  g_obj.live.push_back(id);
  ++g_obj.born;
}

template <size_t A, size_t N>
Obj<A, N>::~Obj() {
  NotIn n;
  ++g_obj.died;
  if (self != this || magic != id * 0x9e3779b97f4a7c15ULL) {
    Wrong("a destructor ran on memory that does not hold the object");
    return;
  }
  for (size_t i = 0; i < N; ++i) {
    if (pad[i] != static_cast<uint8_t>(id * 7 + i)) {
      Wrong("object " + std::to_string(id) + " was overwritten before its destructor ran");
      break;
    }
  }
  if (*heap != std::string(40 + id % 30, static_cast<char>('a' + id % 26))) Wrong("the object's own heap state changed");
  delete heap;
  magic = 0;
  if (g_obj.live.empty()) {
    Wrong("a destructor ran although no object is alive");
  } else if (g_obj.live.back() != id) {
    Wrong("object " + std::to_string(id) + " destroyed while " + std::to_string(g_obj.live.back()) + " is the youngest alive");
    for (size_t i = 0; i < g_obj.live.size(); ++i) {
      if (g_obj.live[i] == id) {
        g_obj.live.erase(g_obj.live.begin() + i);
        break;
      }
    }
  } else {
    g_obj.live.pop_back();
  }
}

struct Plain {
  double d[3];
};
struct alignas(64) Wide {
  uint8_t b[64];
};

struct Block {
  size_t size;
  uint64_t pat;
};

uint8_t Pat(uint64_t p, size_t i) { return static_cast<uint8_t>((p >> (8 * (i & 7))) + i); }

struct Op {
  int kind;  // 0 raw, 1 object, 2 reset, 3 zero size, 4 throwing object, 5 plain object, 6 impossible size
  size_t size = 0, align = 8;
  int which = 0;
};

std::string Show(const Op& o) {
  switch (o.kind) {
    case 0: return "A(" + std::to_string(o.size) + "," + std::to_string(o.align) + ") ";
    case 1: return "C" + std::to_string(o.which) + " ";
    case 2: return "Reset ";
    case 3: return "A(0," + std::to_string(o.align) + ") ";
    case 4: return "Cthrow" + std::to_string(o.which) + " ";
    case 5: return "P" + std::to_string(o.which) + " ";
    default: return "A(huge) ";
  }
}

struct World {
  Ctx& c;
  Arena* a;
  std::map<uintptr_t, Block> live;
  size_t sum = 0, handed = 0, slack = 0, most = 0;  // most: blocks handed out at one time, ever
  size_t ops = 0;

  void Look(const std::string& after) {
    if (!g_obj.wrong.empty()) c.Fail("object", after + ": " + g_obj.wrong[0]);
    if (a->avail_bytes() > a->total_bytes()) {
      c.Fail("accounting", after + ": available " + std::to_string(a->avail_bytes()) + " of " + std::to_string(a->total_bytes()));
    }
    if (a->total_bytes() > g_log.Live()) {
      c.Fail("accounting", after + ": the arena says it holds " + std::to_string(a->total_bytes()) + " bytes, the heap gave it " + std::to_string(g_log.Live()));
    }
    if (a->total_bytes() < sum) {
      c.Fail("accounting", after + ": " + std::to_string(sum) + " bytes are handed out, total_bytes is " + std::to_string(a->total_bytes()));
    }
    // what is not in total_bytes is bookkeeping: chunk records and finalizer records
    most = std::max(most, handed);
    size_t book = g_log.Live() - a->total_bytes();
    if (book > 4096 + 64 * (g_log.n + most)) {
      c.Fail("accounting", after + ": the heap gave the arena " + std::to_string(g_log.Live()) + " bytes, total_bytes says " + std::to_string(a->total_bytes()));
    }
    c.Count("accounting snapshots compared with the heap");
  }
  void Take(uint8_t* p, size_t size, size_t align, const std::string& what, bool fill) {
    auto u = reinterpret_cast<uintptr_t>(p);
    if (p == nullptr) c.Fail("null", what + " returned null");
    if (u % align != 0) c.Fail("alignment", what + " is not aligned");
    if (!g_log.Inside(u, size)) c.Fail("outside", what + " does not lie inside one block the heap gave to the arena");
    auto it = live.upper_bound(u);
    if (it != live.end() && it->first < u + size) c.Fail("overlap", what + " overlaps a later live block");
    if (it != live.begin()) {
      --it;
      if (it->first + it->second.size > u) c.Fail("overlap", what + " overlaps a live block of " + std::to_string(it->second.size) + " bytes");
    }
    if (fill) {
      uint64_t pat = c.rng.Next();
      for (size_t i = 0; i < size; ++i) p[i] = Pat(pat, i);
      live[u] = {size, pat};
    } else {
      live[u] = {size, 0};
    }
    sum += size;
    ++handed;
    slack += align - 1;
    c.Count("blocks handed out and checked");
  }
  void Verify(const std::string& when) {
    for (auto& [u, b] : live) {
      if (!b.pat) continue;
      auto* p = reinterpret_cast<uint8_t*>(u);
      for (size_t i = 0; i < b.size; ++i) {
        if (p[i] != Pat(b.pat, i)) c.Fail("contents", when + ": byte " + std::to_string(i) + " of a live block of " + std::to_string(b.size) + " changed");
      }
    }
    c.Count("blocks whose contents were verified", live.size());
  }
  template <class T>
  void Obj1(const std::string& what, bool nested) {
    size_t before = g_obj.born;
    T* t;
    {
      In in;
      t = a->Create<T>(false, nested ? a : nullptr);
    }
    if (g_obj.born != before + 1 + (nested ? 1 : 0)) c.Fail("construction", what + ": the constructor ran a wrong number of times");
    Take(reinterpret_cast<uint8_t*>(t), sizeof(T), alignof(T), what, false);
    c.Count("objects created");
  }
  template <class T>
  void Throwing(const std::string& what) {
    bool thrown = false;
    {
      In in;
      try {
        a->Create<T>(true, nullptr);
      } catch (const typename T::Thrown&) {
        thrown = true;
      }
    }
    if (!thrown) c.Fail("construction", what + ": the constructor's exception was lost");
    c.Count("constructors that threw");
  }
  void Do(const Op& o) {
    ++ops;
    std::string what = Show(o);
    switch (o.kind) {
      case 0: {
        uint8_t* p;
        {
          In in;
          p = o.align == 8 && (o.which & 1) ? a->Allocate(o.size) : a->Allocate(o.size, o.align);
        }
        Take(p, o.size, o.align, what, true);
        break;
      }
      case 1:
        switch (o.which % 7) {
          case 0: Obj1<Obj<8, 8>>(what, false); break;
          case 1: Obj1<Obj<16, 100>>(what, false); break;
          case 2: Obj1<Obj<64, 1>>(what, false); break;
          case 3: Obj1<Obj<256, 3>>(what, false); break;
          case 4: Obj1<Obj<8, 5000>>(what, false); break;
          case 5: Obj1<Obj<8, 40>>(what, true); break;
          default: Obj1<Obj<1024, 7>>(what, false); break;
        }
        break;
      case 2: Reset(); break;
      case 3: {
        size_t t = a->total_bytes(), v = a->avail_bytes();
        uint8_t* p;
        {
          In in;
          p = a->Allocate(size_t{0}, o.align);
        }
        if (p) c.Fail("zero", "a request of zero bytes returned a block");
        if (t != a->total_bytes() || v != a->avail_bytes()) c.Fail("zero", "a request of zero bytes changed the arena");
        c.Count("zero-size requests");
        break;
      }
      case 4:
        switch (o.which % 3) {
          case 0: Throwing<Obj<8, 8>>(what); break;
          case 1: Throwing<Obj<64, 1>>(what); break;
          default: Throwing<Obj<8, 5000>>(what); break;
        }
        break;
      case 5: {
        uint8_t* p;
        size_t s, al;
        {
          In in;
          if (o.which % 2) {
            p = reinterpret_cast<uint8_t*>(a->Create<Plain>());
            s = sizeof(Plain);
            al = alignof(Plain);
          } else {
            p = reinterpret_cast<uint8_t*>(a->Create<Wide>());
            s = sizeof(Wide);
            al = alignof(Wide);
          }
        }
        Take(p, s, al, what, true);
        break;
      }
      case 6: {
        size_t t = a->total_bytes();
        uint8_t* p;
        {
          In in;
          p = a->Allocate(o.size, o.align);
        }
        if (p) c.Fail("impossible", what + " returned a block");
        if (t != a->total_bytes()) c.Fail("impossible", what + ": the refused request was counted");
        c.Count("requests the heap refuses");
        break;
      }
    }
    Look(what);
  }
  void Reset() {
    Verify("before Reset");
    size_t alive = g_obj.live.size(), died = g_obj.died;
    {
      In in;
      a->Reset();
    }
    if (!g_obj.wrong.empty()) c.Fail("object", "Reset: " + g_obj.wrong[0]);
    if (!g_obj.live.empty() || g_obj.died - died != alive) {
      c.Fail("object", "Reset destroyed " + std::to_string(g_obj.died - died) + " of " + std::to_string(alive) + " live objects");
    }
    if (a->avail_bytes() != a->total_bytes()) c.Fail("reset", "after Reset only " + std::to_string(a->avail_bytes()) + " of " + std::to_string(a->total_bytes()) + " bytes are available");
    live.clear();
    sum = handed = slack = 0;
    c.Count("resets");
    c.Count("objects destroyed in the right order", alive);
  }
};

size_t SomeSize(vr::Rng& r, size_t chunk) {
  switch (r.Below(8)) {
    case 0: return 1 + r.Below(4);
    case 1: return 1 + r.Below(64);
    case 2: return 8 * (1 + r.Below(32));
    case 3: return chunk > 16 ? chunk - 16 + r.Below(32) : 1 + r.Below(32);
    case 4: return chunk + 1 + r.Below(chunk + 1);
    case 5: return 1 + chunk / 2 + r.Below(8);
    case 6: return 1 + r.Below(3000);
    default: return 16 * (1 + r.Below(8)) - 1 + r.Below(3);
  }
}
size_t SomeAlign(vr::Rng& r) {
  if (r.P(.5)) return 8;
  return size_t{1} << r.Below(13);
}
}  // namespace

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C18";
  p.quick_cases = 3000000;
  p.thorough_cases = 300000000;
  p.quick_secs = 18;
  p.thorough_secs = 600;
  p.rule = "random histories of Allocate, Create (with over-aligned, nested and throwing objects) and Reset over one arena with chunk sizes 0 to 64 KiB, every block checked against the heap blocks the arena holds; distinct = sequence of operations";
  p.worker_init = [] { __sanitizer_install_malloc_and_free_hooks(&OnMalloc, &OnFree); };
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    static const std::vector<size_t> kChunks = {0, 1, 7, 8, 16, 63, 64, 100, 256, 1000, 4096, 4096, 65536};
    size_t chunk = c.rng.Pick(kChunks);
    g_log.n = 0;
    g_log.foreign = 0;
    g_obj = ObjLog();
    std::string d = "Arena(" + std::to_string(chunk) + ") ";
    alignas(Arena) static unsigned char room[sizeof(Arena)];
    bool deflt = chunk == 4096 && c.rng.P(.3);
    Arena* a;
    {
      In in;
      a = deflt ? new (room) Arena() : new (room) Arena(chunk);
    }
    World w{c, a};
    bool cyclic = c.rng.P(.3);
    auto some = [&](bool resets) {
      Op o;
      uint64_t k = c.rng.Below(100);
      o.which = static_cast<int>(c.rng.Below(64));
      o.align = SomeAlign(c.rng);
      if (k < 62) {
        o.kind = 0;
        o.size = SomeSize(c.rng, chunk);
      } else if (k < 78) {
        o.kind = 1;
      } else if (k < 84) {
        o.kind = resets ? 2 : 1;
      } else if (k < 88) {
        o.kind = 3;
      } else if (k < 91) {
        o.kind = 4;
      } else if (k < 97) {
        o.kind = 5;
      } else {
        o.kind = 6;
        o.size = (size_t{1} << (40 + c.rng.Below(20))) + c.rng.Below(100);
      }
      return o;
    };
    uint64_t h = chunk;
    auto step = [&](const Op& o) {
      d += Show(o);
      c.Desc(d);
      h = vr::Mix(h ^ vr::Hash(Show(o)));
      w.Do(o);
    };
    if (!cyclic) {
      int n = static_cast<int>(1 + c.rng.Below(c.thorough ? 120 : 60));
      for (int i = 0; i < n; ++i) {
        step(some(true));
        if (c.rng.P(.0005)) {  // a crowd
          uint64_t m = 300 + c.rng.Below(3000);
          d += std::to_string(m) + " objects ";
          c.Desc(d);
          Op o;
          o.kind = 1;
          o.align = 1;
          for (uint64_t k = 0; k < m; ++k) {
            o.which = static_cast<int>(c.rng.Below(64));
            w.Do(o);
          }
          c.Count("crowds of objects");
        }
        if (c.rng.P(.05)) w.Verify("in between");
      }
      if (n < 12) c.Sample(d);
    } else {
      // the same work again and again: the footprint must not grow
      std::vector<Op> seq;
      int n = static_cast<int>(1 + c.rng.Below(12));
      for (int i = 0; i < n; ++i) seq.push_back(some(false));
      size_t first = 0, peak_heap = 0, slack = 0;
      bool simple = true;
      for (auto& o : seq) simple &= o.kind != 4 && o.kind != 6;
      int cycles = static_cast<int>(3 + c.rng.Below(30));
      for (int k = 0; k < cycles; ++k) {
        size_t pk = 0, ph = 0;
        uint64_t m0 = g_log.mallocs;
        for (auto& o : seq) {
          if (k == 0) {
            step(o);
          } else {
            w.Do(o);
          }
          pk = std::max(pk, a->total_bytes());
          ph = std::max(ph, g_log.Live());
        }
        if (k == 0) {
          first = pk;
          peak_heap = ph;
          slack = w.slack + 2048 * seq.size();
        }
        // the retained first chunk may be one that the sequence could not have used, so twice the
        // first cycle's peak plus a chunk plus the alignment slack bounds every later cycle
        size_t bound = 2 * first + chunk + slack + 64;
        if (pk > bound) c.Fail("footprint", "cycle " + std::to_string(k) + " of the same requests holds " + std::to_string(pk) + " bytes, the first one " + std::to_string(first));
        if (ph > 2 * peak_heap + chunk + slack + 4096 + 256 * seq.size()) c.Fail("footprint", "cycle " + std::to_string(k) + " of the same requests takes " + std::to_string(ph) + " heap bytes, the first one " + std::to_string(peak_heap));
        if (simple && k > 0 && w.sum > 0 && chunk >= 4096 && w.sum + w.slack < 2000 && first <= chunk && g_log.mallocs - m0 > 4) {
          c.Fail("reuse", "the requests fit one chunk, yet cycle " + std::to_string(k) + " went back to the heap");
        }
        w.Reset();
        if (a->total_bytes() > bound) c.Fail("footprint", "after a reset the arena holds " + std::to_string(a->total_bytes()) + " bytes");
        c.Count("cycles whose footprint was compared with the first");
      }
      if (n < 8) c.Sample(d + "x" + std::to_string(cycles));
    }
    w.Verify("before the arena's end");
    size_t alive = g_obj.live.size(), died = g_obj.died;
    {
      In in;
      a->~Arena();
    }
    if (!g_obj.wrong.empty()) c.Fail("object", "destruction of the arena: " + g_obj.wrong[0]);
    if (!g_obj.live.empty() || g_obj.died - died != alive || g_obj.born != g_obj.died) {
      c.Fail("object", "the arena's end destroyed " + std::to_string(g_obj.died - died) + " of " + std::to_string(alive) + " live objects");
    }
    if (g_log.n != 0) c.Fail("leak", std::to_string(g_log.n) + " heap blocks (" + std::to_string(g_log.Live()) + " bytes) survive the arena");
    if (g_log.foreign != 0) c.Fail("free", "the arena freed a block it had not obtained");
    c.Count("arenas destroyed with everything accounted for");
    c.Count("objects destroyed in the right order", alive);
    c.Nontrivial(h);
  });
}
