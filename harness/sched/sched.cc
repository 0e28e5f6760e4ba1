#include "sched.h"

#include <sys/mman.h>
#include <ucontext.h>

#include "absl/log/shim.h"

namespace sched {
namespace {

constexpr size_t kStack = 256 << 10;
std::vector<char*> free_stacks;

struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr;
  std::function<void()> body;
  enum { READY, BLOCKED, DONE } state = READY;
  const void* key = nullptr;
  bool cv = false;
  bool last = false;  // runs only when nothing else can
};

std::vector<std::unique_ptr<Fiber>> fibers;
ucontext_t outside;
int current = -1;
Policy* policy = nullptr;
long steps_left = 0;
Outcome outcome;
int leftover = 0;
struct Stop {};

void Leave(Outcome o) {
  // The execution is given up; its fibers are never resumed.
  outcome = o;
  setcontext(&outside);
}

void Entry() {
  Fiber& f = *fibers[current];
  unwatched = 0;
  if (current > 0) HbAcquire(thread::Key(current + 1000000));
  try {
    f.body();
  } catch (const absl_shim::Fatal& e) {
    failure = e.what();
    Leave(ABORTED);
  } catch (const std::exception& e) {
    failure = std::string("exception: ") + e.what();
    Leave(ABORTED);
  }
  HbRelease(thread::Key(current));
  ++unwatched;
  f.state = Fiber::DONE;
  f.body = nullptr;
  if (current == 0) {
    leftover = 0;
    for (auto& g : fibers) leftover += g->state != Fiber::DONE;
    Leave(FINISHED);
  }
  Wake(thread::Key(current), true);
  Point();
  std::abort();
}

// Moves to some runnable fiber.  force: not the current one, if there is
// another.
void Switch(bool force) {
  Unwatched no;
  if (--steps_left < 0) Leave(LIVELOCK);
  if (policy->Spurious()) {
    for (auto& g : fibers) {
      if (g->state == Fiber::BLOCKED && g->cv) {
        g->state = Fiber::READY;
        break;
      }
    }
  }
  static std::vector<int> ids;
  ids.clear();
  int cur = -1, patient = -1;
  for (int i = 0; i < int(fibers.size()); ++i) {
    if (fibers[i]->state != Fiber::READY) continue;
    if (fibers[i]->last) {
      patient = i;
      continue;
    }
    if (i == current) cur = int(ids.size());
    ids.push_back(i);
  }
  if (force && cur >= 0 && ids.size() > 1) {
    ids.erase(ids.begin() + cur);
    cur = -1;
  }
  if (ids.empty() && patient >= 0) {
    ids.push_back(patient);
    fibers[patient]->last = false;
  }
  if (ids.empty()) Leave(DEADLOCK);
  const int k = ids.size() == 1 ? 0 : policy->Pick(int(ids.size()), cur, ids.data());
  const int next = ids[k];
  if (next == current) return;
  const int from = current, u = unwatched;
  current = next;
  swapcontext(&fibers[from]->ctx, &fibers[next]->ctx);
  unwatched = u;
}

}  // namespace

std::string failure;
unsigned hardware = 8;

bool Active() { return current >= 0; }
int Self() { return current < 0 ? 1000000 : current; }
int Leftover() { return leftover; }
void Point() {
  if (current >= 0) Switch(false);
}
void YieldPoint() {
  if (current >= 0) Switch(true);
}
void WaitQuiet() {
  if (current < 0) return;
  fibers[current]->last = true;
  Switch(false);
}
void Fail(const std::string& why) {
  failure = why;
  if (current < 0) {
    std::fprintf(stderr, "FATAL %s\n", why.c_str());
    std::abort();
  }
  Leave(ABORTED);
}
void Block(const void* key) {
  if (current < 0) std::abort();
  Fiber& f = *fibers[current];
  f.state = Fiber::BLOCKED;
  f.key = key;
  f.cv = false;
  Switch(false);
}
void BlockCv(const void* key) {
  if (current < 0) std::abort();
  Fiber& f = *fibers[current];
  f.state = Fiber::BLOCKED;
  f.key = key;
  f.cv = true;
  Switch(false);
}
void Wake(const void* key, bool all) {
  if (current < 0) return;
  Unwatched no;
  static std::vector<int> w;
  w.clear();
  for (int i = 0; i < int(fibers.size()); ++i)
    if (fibers[i]->state == Fiber::BLOCKED && fibers[i]->key == key) w.push_back(i);
  if (w.empty()) return;
  if (all) {
    for (int i : w) fibers[i]->state = Fiber::READY;
  } else {
    const int k = w.size() == 1 ? 0 : policy->Pick(int(w.size()), -1, w.data());
    fibers[w[k]]->state = Fiber::READY;
  }
}
bool Done(int fiber) { return fibers[fiber]->state == Fiber::DONE; }

int Spawn(std::function<void()> body) {
  Unwatched u;
  auto f = std::make_unique<Fiber>();
  if (free_stacks.empty()) {
    char* p = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) std::abort();
    mprotect(p, 4096, PROT_NONE);
    free_stacks.push_back(p);
  }
  f->stack = free_stacks.back();
  free_stacks.pop_back();
  f->body = std::move(body);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = kStack;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, Entry, 0);
  fibers.push_back(std::move(f));
  HbRelease(thread::Key(int(fibers.size()) - 1 + 1000000));
  return int(fibers.size()) - 1;
}

Outcome Run(Policy* p, const std::function<void()>& main, long max_steps) {
  fibers.clear();
  policy = p;
  steps_left = max_steps;
  failure.clear();
  leftover = 0;
  absl_shim::throw_on_fatal = true;
  volatile bool started = false;
  getcontext(&outside);
  if (!started) {
    started = true;
    current = -1;
    Spawn(main);
    HbStart();
    current = 0;
    setcontext(&fibers[0]->ctx);
  }
  current = -1;
  HbEnd();
  const bool clean = outcome == FINISHED && leftover == 0;
  for (auto& f : fibers) {
    free_stacks.push_back(f->stack);
    // What an unfinished fiber refers to is left alone: it is never resumed.
    if (!clean && f->body) new std::function<void()>(std::move(f->body));
  }
  fibers.clear();
  return outcome;
}

}  // namespace sched
