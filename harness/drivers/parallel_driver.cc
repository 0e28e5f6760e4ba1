// Executes the threading layer of Ceres (thread pool, queue, tokens, parallel
// loops) under the cooperative scheduler, and records what its users can see.
//
//   loop SEED | queue SEED | pool SEED | token SEED | part SEED
//   enum KIND SEED BOUND MAX : every schedule with at most BOUND preemptions
//                              (at most MAX), one line per distinct trace
#include "sched/sched.h"
//
#include "sched/policies.h"

#include <iostream>

#include "absl/log/shim.h"
#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
#include "ceres/parallel_utils.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/scoped_thread_token.h"
#include "ceres/thread_pool.h"
#include "ceres/thread_token_provider.h"
#include "drivers/drv.h"

namespace {

using drv::Arr;
using drv::I;
using drv::Ints;
using drv::Obj;
using drv::Rng;
using drv::S;
namespace ci = ceres::internal;

std::vector<std::string> events;
void Emit(Obj& o) {
  sched::Unwatched no;
  events.push_back(o.str());
}
Obj Ev(const char* k) {
  sched::Unwatched no;
  Obj o;
  o.add("k", S(k)).add("f", I(sched::Self()));
  return o;
}

// A door which can be opened once.
struct Gate {
  bool open = false;
  void Pass() { sched::Unwatched no; while (!open) sched::Block(this); }
  void Open() { sched::Unwatched no; open = true; sched::Wake(this, true); }
};

// ---------------------------------------------------------------- loops
struct LoopWorld {
  Rng r;
  ci::ContextImpl context;
  int next_call = 0;
  int budget = 6;
  explicit LoopWorld(uint64_t s) : r(s) {}
  void Call(int parent, int depth);
};

// What one loop does is fixed before it starts: the schedule must not change
// the scenario.
struct LoopPlan {
  int start, end, nt, flavour, cut, mb = 1;
  std::vector<int> parts, costs;
  int nest_at;      // index that runs a nested loop
  std::shared_ptr<LoopPlan> nested;
  int points;
};

bool small;
std::shared_ptr<LoopPlan> MakePlan(Rng& r, int depth) {
  auto p = std::make_shared<LoopPlan>();
  if (small) {
    // few choices, so that every schedule can be tried
    p->nt = r.range(2, 3);
    p->cut = 0;
    p->start = r.below(2);
    p->end = p->start + r.range(1, 3);
    p->flavour = r.below(2) * 2 + 1;
    p->points = r.below(2);
    p->nest_at = -1000;
    if (depth == 0 && r.chance(30)) {
      p->end = p->start + 2;
      p->nest_at = p->start;
      p->nested = MakePlan(r, 1);
    }
    return p;
  }
  p->nt = r.chance(15) ? 1 : r.range(2, depth ? 4 : 5);
  const int n = r.chance(8) ? 0 : r.range(1, depth ? 6 : r.chance(25) ? 24 : 9);
  p->cut = r.below(4);
  p->start = r.chance(60) || p->cut == 3 ? 0 : r.range(p->cut == 2 ? -3 : -2, 5);
  if (p->cut == 3 && r.chance(40)) p->start = r.range(1, 3);
  p->end = p->start + n;
  if (n == 0 && r.chance(30)) p->end -= 1;
  p->flavour = r.below(4);
  if (p->cut == 1) p->mb = r.range(1, 4);
  if (p->cut == 2) {
    p->parts.push_back(p->start);
    int at = p->start;
    while (at < p->end) {
      at = std::min(p->end, at + r.range(1, 3));
      p->parts.push_back(at);
    }
    if (n <= 0) p->parts = {p->start, p->end};
  }
  if (p->cut == 3) {
    int sum = 0;
    for (int i = 0; i < std::max(p->end, 1); ++i) {
      sum += r.chance(30) ? 0 : r.range(1, 5);
      p->costs.push_back(sum);
    }
  }
  p->points = r.below(3);
  p->nest_at = -1000;
  if (depth < 2 && r.chance(depth ? 25 : 40) && n > 0) {
    p->nest_at = r.range(p->start, p->end - 1);
    p->nested = MakePlan(r, depth + 1);
  }
  return p;
}

int next_call;
int NextCall() {
  sched::Unwatched no;
  return next_call++;
}
void RunPlan(ci::ContextImpl* context, const std::shared_ptr<LoopPlan>& p, int parent) {
  const int c = NextCall();
  const bool range = p->flavour >= 2, tid = p->flavour & 1;
  Obj call = Ev("call");
  call.add("c", I(c)).add("par", I(parent)).add("s", I(p->start)).add("e", I(p->end)).add("nt", I(p->nt));
  call.add("mb", I(p->cut == 1 && range ? p->mb : 1)).add("tid", drv::B(tid));
  Emit(call);
  // What an invocation writes the caller may read after the loop, without
  // more ado.
  std::vector<int> marks(std::max(0, p->end - p->start), 0);
  auto work = [&, c](int t, int lo, int hi) {
    Obj b = Ev("b");
    b.add("c", I(c)).add("t", I(t)).add("lo", I(lo)).add("hi", I(hi));
    Emit(b);
    for (int i = lo; i < hi; ++i)
      if (p->start <= i && i < p->end) marks[i - p->start] += 1;
    for (int i = 0; i < p->points; ++i) sched::Point();
    if (p->nested && lo <= p->nest_at && p->nest_at < hi) RunPlan(context, p->nested, c);
    Obj e = Ev("e");
    e.add("c", I(c)).add("t", I(t)).add("lo", I(lo));
    Emit(e);
    sched::Point();
  };
  auto go = [&](auto&& f) {
    switch (p->cut) {
      case 0: ci::ParallelFor(context, p->start, p->end, p->nt, f); break;
      case 1: ci::ParallelFor(context, p->start, p->end, p->nt, f, p->mb); break;
      case 2: ci::ParallelFor(context, p->start, p->end, p->nt, f, p->parts); break;
      default:
        ci::ParallelFor(context, p->start, p->end, p->nt, f, p->costs.data(), [](const int& x) { return x; });
    }
  };
  switch (p->flavour) {
    case 0: go([&](int i) { work(-1, i, i + 1); }); break;
    case 1: go([&](int t, int i) { work(t, i, i + 1); }); break;
    case 2: go([&](std::tuple<int, int> g) { work(-1, std::get<0>(g), std::get<1>(g)); }); break;
    default: go([&](int t, std::tuple<int, int> g) { work(t, std::get<0>(g), std::get<1>(g)); });
  }
  int marked = 0;
  for (int m : marks) marked += m;
  Obj ret = Ev("r");
  ret.add("c", I(c)).add("n", I(marked));
  Emit(ret);
}

std::function<void()> Loop(uint64_t seed) {
  Rng r(seed);
  const int pool = small ? r.range(1, 2) : r.below(5), callers = small ? 1 + r.chance(20) : r.chance(65) ? 1 : r.range(2, 3),
            late = !small && r.chance(25) ? r.range(1, 4) : 0;
  sched::hardware = r.chance(10) ? r.below(3) : 8;
  std::vector<std::vector<std::shared_ptr<LoopPlan>>> plans(callers);
  for (auto& v : plans)
    for (int k = small || r.chance(70) ? 1 : 2; k > 0; --k) v.push_back(MakePlan(r, 0));
  return [=] {
    { sched::Unwatched no; next_call = 0; }
    {
      ci::ContextImpl context;
      context.EnsureMinimumThreads(pool);
      std::vector<sched::thread> others;
      for (int i = 1; i < callers; ++i)
        others.emplace_back([&, i] { for (auto& p : plans[i]) RunPlan(&context, p, -1); });
      if (late) others.emplace_back([&] { context.EnsureMinimumThreads(late); });
      for (auto& p : plans[0]) RunPlan(&context, p, -1);
      for (auto& t : others) t.join();
      if (seed % 3 == 0) sched::WaitQuiet();
    }
    Obj o = Ev("gone");
    Emit(o);
  };
}

// ---------------------------------------------------------------- queue
std::function<void()> Queue(uint64_t seed) {
  Rng r(seed);
  struct Op { int kind, v; };
  const int nth = small ? r.range(2, 3) : r.range(2, 4);
  std::vector<std::vector<Op>> prog(nth);
  int next = 1;
  const bool stops = r.chance(50);
  for (auto& p : prog) {
    const int role = r.below(3);  // producer, consumer, both
    for (int n = r.range(1, small ? 2 : 4); n > 0; --n) {
      int k = role == 0 ? 0 : role == 1 ? (r.chance(75) ? 2 : 1) : r.below(3);
      if (stops && r.chance(12)) k = r.chance(60) ? 3 : 4;
      p.push_back({k, k == 0 ? next++ : 0});
    }
  }
  const bool quiet2 = !small && r.chance(50);
  return [=] {
    auto q = std::make_unique<ci::ConcurrentQueue<int>>();
    static const char* name[] = {"push", "pop", "wait", "stop", "enable"};
    auto run = [&](const Op& op) {
      Obj i = Ev("inv");
      i.add("op", S(name[op.kind])).add("v", I(op.v));
      Emit(i);
      int v = -7;
      bool ok = true;
      switch (op.kind) {
        case 0: q->Push(op.v); break;
        case 1: ok = q->Pop(&v); break;
        case 2: ok = q->Wait(&v); break;
        case 3: q->StopWaiters(); break;
        case 4: q->EnableWaiters(); break;
      }
      Obj o = Ev("res");
      o.add("ok", drv::B(ok)).add("v", I(v));
      Emit(o);
    };
    std::vector<sched::thread> t;
    for (auto& p : prog) t.emplace_back([&, p] { for (auto& op : p) run(op); });
    sched::WaitQuiet();
    { Obj o = Ev("quiet"); Emit(o); }
    if (quiet2) {
      run({0, 100});
      sched::WaitQuiet();
      { Obj o = Ev("quiet"); Emit(o); }
    }
    // Let everybody go: a consumer may re-arm the queue after this, so repeat.
    for (int k = 0; k < 12; ++k) {
      run({3, 0});
      sched::WaitQuiet();
      { Obj o = Ev("quiet"); Emit(o); }
      int done = 0;
      for (int i = 0; i < nth; ++i) done += sched::Done(i + 1);
      if (done == nth) break;
    }
    for (auto& x : t) x.join();
    for (int k = 0; k < 30; ++k) {
      int v;
      run({1, 0});
      if (events.back().find("\"ok\":false") != std::string::npos) break;
    }
    Obj o = Ev("gone");
    Emit(o);
  };
}

// ---------------------------------------------------------------- pool
std::function<void()> Pool(uint64_t seed) {
  Rng r(seed);
  struct Task { int id, points, gate; std::vector<int> adds; };
  const int first = small ? r.range(1, 2) : r.below(4), ntask = small ? r.range(1, 3) : r.range(1, 7), gates = r.below(3);
  sched::hardware = r.chance(25) ? r.below(4) : 6;
  std::vector<Task> task;
  for (int i = 0; i < ntask; ++i) task.push_back({i, r.below(3), gates && r.chance(35) ? r.below(gates) : -1, {}});
  std::vector<char> owned(ntask, 0);
  for (int i = 0; i < ntask; ++i)
    for (int j = i + 1; j < ntask; ++j)
      if (!owned[j] && r.chance(20)) { task[i].adds.push_back(j); owned[j] = 1; }
  const int adders = small ? r.chance(40) : r.range(0, 2);
  // What main does: 0 add, 1 resize, 2 size, 3 quiet, 4 open a gate.
  struct Op { int kind, v; };
  std::vector<Op> ops;
  std::vector<std::vector<int>> others(adders);
  for (int i = 0; i < ntask; ++i) {
    if (owned[i]) continue;
    if (adders && r.chance(50)) others[r.below(adders)].push_back(i);
    else ops.push_back({0, i});
  }
  for (int n = r.below(small ? 2 : 5); n > 0; --n) {
    const int k = r.chance(40) ? 1 : r.chance(50) ? 2 : 3;
    ops.insert(ops.begin() + r.below(int(ops.size()) + 1), {k, r.range(-1, 5)});
  }
  if (r.chance(60)) ops.push_back({3, 0});
  const bool wait_before_end = r.chance(50);
  return [=] {
    std::vector<Gate> gate(3);
    { Obj o = Ev("new"); o.add("n", I(first)).add("hw", I(sched::hardware)); Emit(o); }
    auto pool = first == 0 && seed % 2 ? std::make_unique<ci::ThreadPool>() : std::make_unique<ci::ThreadPool>(first);
    ci::ThreadPool* raw = pool.get();
    std::function<void(int)> add = [&](int id) {
      { Obj o = Ev("add"); o.add("id", I(id)); Emit(o); }
      raw->AddTask([&, id] {
        { Obj o = Ev("start"); o.add("id", I(id)); Emit(o); }
        for (int i = 0; i < task[id].points; ++i) sched::Point();
        for (int a : task[id].adds) add(a);
        if (task[id].gate >= 0) gate[task[id].gate].Pass();
        sched::Point();
        { Obj o = Ev("end"); o.add("id", I(id)); Emit(o); }
      });
      { Obj o = Ev("added"); o.add("id", I(id)); Emit(o); }
    };
    std::vector<sched::thread> t;
    for (auto& v : others) t.emplace_back([&, v] { for (int id : v) add(id); });
    auto quiet = [&] { sched::WaitQuiet(); Obj o = Ev("quiet"); Emit(o); };
    for (auto& op : ops) {
      switch (op.kind) {
        case 0: add(op.v); break;
        case 1: {
          { Obj o = Ev("resize"); o.add("n", I(op.v)); Emit(o); }
          pool->Resize(op.v);
          { Obj o = Ev("resized"); Emit(o); }
          break;
        }
        case 2: {
          const int n = pool->Size();
          Obj o = Ev("size");
          o.add("n", I(n));
          Emit(o);
          break;
        }
        case 3: quiet(); break;
      }
    }
    for (auto& x : t) x.join();
    if (wait_before_end) quiet();
    for (auto& g : gate) g.Open();
    { Obj o = Ev("destroy"); Emit(o); }
    pool.reset();
    { Obj o = Ev("gone"); Emit(o); }
  };
}

// ---------------------------------------------------------------- tokens
std::function<void()> Token(uint64_t seed) {
  Rng r(seed);
  const int n = r.range(1, small ? 2 : 4), nth = r.range(1, small ? 3 : 5);
  std::vector<std::vector<int>> prog(nth);
  for (auto& p : prog)
    for (int k = r.range(1, small ? 2 : 3); k > 0; --k) p.push_back(r.chance(20) ? 10 : r.below(small ? 2 : 3));
  const bool scoped = r.chance(50);
  return [=] {
    ci::ThreadTokenProvider provider(n);
    Gate gate;
    { Obj o = Ev("tokens"); o.add("n", I(n)); Emit(o); }
    std::vector<sched::thread> t;
    for (auto& p : prog) {
      t.emplace_back([&, p] {
        for (int what : p) {
          { Obj o = Ev("want"); Emit(o); }
          auto use = [&](int token) {
            { Obj o = Ev("got"); o.add("t", I(token)); Emit(o); }
            for (int i = 0; i < what && what < 10; ++i) sched::Point();
            if (what == 10) gate.Pass();
            { Obj o = Ev("give"); o.add("t", I(token)); Emit(o); }
          };
          if (scoped) {
            ci::ScopedThreadToken token(&provider);
            use(token.token());
          } else {
            const int token = provider.Acquire();
            use(token);
            provider.Release(token);
          }
        }
      });
    }
    sched::WaitQuiet();
    { Obj o = Ev("quiet"); Emit(o); }
    gate.Open();
    for (auto& x : t) x.join();
    { Obj o = Ev("gone"); Emit(o); }
  };
}

// ---------------------------------------------------------------- no threads
std::string Partition(uint64_t seed) {
  Rng r(seed);
  Obj o;
  if (r.chance(25)) {
    const int n = r.range(1, 12);
    Arr a;
    for (int k = 0; k < n * (n + 1) / 2; ++k) {
      int i = -1, j = -1;
      ci::LinearIndexToUpperTriangularIndex(k, n, &i, &j);
      a.add("[" + I(i) + "," + I(j) + "]");
    }
    o.add("k", S("tri")).add("n", I(n)).add("ij", a.str());
    return o.str();
  }
  if (r.chance(3)) {
    // Vector operations, with the pool running for real under a schedule.
    const int n = (1 << 16) * r.range(1, 2) + r.range(-2, 2), nt = r.range(1, 4), pool = r.below(4);
    int bad = 0;
    sched::RandomPolicy policy(seed + 1, 50, 0);
    auto out = sched::Run(&policy, [&] {
      ci::ContextImpl context;
      context.EnsureMinimumThreads(pool);
      ceres::Vector x(n), y(n), z(n);
      auto no = std::make_unique<sched::Unwatched>();
      for (int i = 0; i < n; ++i) { x[i] = i % 1000; y[i] = 1; z[i] = 5; }
      no.reset();
      ci::ParallelAssign(&context, nt, y, 2.0 * x);
      ci::ParallelSetZero(&context, nt, z);
      sched::Unwatched no2;
      for (int i = 0; i < n; ++i) bad += (y[i] != 2 * x[i]) + (z[i] != 0);
    });
    o.add("k", S("vec")).add("n", I(n)).add("nt", I(nt)).add("bad", I(bad)).add("out", I(out));
    return o.str();
  }
  const int first = r.chance(40) ? r.below(4) : 0, n = r.range(1, 9), parts = r.range(1, 6);
  std::vector<int> cum;
  int sum = 0;
  const int style = r.below(4);
  for (int i = 0; i < first + n; ++i) {
    sum += style == 0 ? r.below(2) : style == 1 ? r.range(1, 9) : style == 2 ? (r.chance(20) ? 20 : r.below(3)) : 0 + (r.chance(50) ? 1 : 0);
    cum.push_back(sum);
  }
  const std::vector<int> p = ci::PartitionRangeForParallelFor(first, first + n, parts, cum.data(), [](const int& x) { return x; });
  o.add("k", S("part")).add("s", I(first)).add("e", I(first + n)).add("max", I(parts)).add("cum", Ints(cum)).add("p", Ints(p));
  return o.str();
}

// ---------------------------------------------------------------- running
std::function<void()> Make(std::string kind, uint64_t seed) {
  small = kind[0] == 's';
  if (small) kind = kind.substr(1);
  if (kind == "loop") return Loop(seed);
  if (kind == "queue") return Queue(seed);
  if (kind == "pool") return Pool(seed);
  if (kind == "token") return Token(seed);
  std::abort();
}

std::string Execute(sched::Policy* policy, const std::string& kind, const std::function<void()>& main) {
  events.clear();
  const sched::Outcome out = sched::Run(policy, main);
  static const char* name[] = {"end", "deadlock", "livelock", "abort"};
  Obj last;
  last.add("k", S(name[out])).add("f", I(0)).add("left", I(out == sched::FINISHED ? sched::Leftover() : 0)).add("why", S(sched::failure));
  Emit(last);
  Arr a;
  for (auto& e : events) a.add(e);
  Obj o;
  o.add("kind", S(small ? kind.substr(1) : kind)).add("ev", a.str());
  return o.str();
}

std::unique_ptr<sched::Policy> AnyPolicy(uint64_t seed) {
  Rng r(seed * 31 + 5);
  switch (r.below(4)) {
    case 0: return std::make_unique<sched::RandomPolicy>(seed, 0, 10);
    case 1: return std::make_unique<sched::RandomPolicy>(seed, 80, 5);
    case 2: return std::make_unique<sched::RandomPolicy>(seed, 95, 0);
    default: return std::make_unique<sched::PctPolicy>(seed, r.range(1, 6), r.pick(std::vector<int>{40, 120, 300}));
  }
}

}  // namespace

int main() {
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string kind;
    in >> kind;
    uint64_t seed = 0;
    if (kind == "enum") {
      int bound = 2;
      long max = 1000;
      in >> kind >> seed >> bound >> max;
      auto main = Make(kind, seed);
      sched::EnumPolicy policy(bound);
      std::set<size_t> seen;
      long runs = 0;
      Arr a;
      bool more = true;
      while (more && runs < max) {
        ++runs;
        const std::string t = Execute(&policy, kind, main);
        if (seen.insert(std::hash<std::string>()(t)).second) a.add(t);
        more = policy.Next();
      }
      Obj o;
      o.add("runs", I(runs)).add("all", drv::B(!more)).add("traces", a.str());
      std::cout << o.str() << "\n" << std::flush;
      continue;
    }
    in >> seed;
    if (kind == "part") {
      absl_shim::throw_on_fatal = true;
      std::cout << "{\"kind\":\"part\",\"ev\":[" << Partition(seed) << "]}\n" << std::flush;
      continue;
    }
    auto policy = AnyPolicy(seed);
    // The scenario is chosen by seed / 4: four schedules of each.
    std::cout << Execute(policy.get(), kind, Make(kind, seed / 4)) << "\n" << std::flush;
  }
  return 0;
}
