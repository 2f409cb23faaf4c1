// C02: the blocking queue between producers and consumers.
#include <atomic>
#include <chrono>
#include <deque>
#include <map>
#include <mutex>
#include <thread>

#include "cartographer/common/internal/blocking_queue.h"
#include "pbt.h"

namespace {
using Queue = cartographer::common::BlockingQueue<std::unique_ptr<int>>;
using cartographer::common::FromMilliseconds;
using cartographer::common::FromSeconds;

void Pause(int us) {
  if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us));
}
}  // namespace

PBT_FACET(sequential, o.weight = 1; o.rule =
    "single-threaded histories against a bounded-deque model, including timeouts on full and empty queues; "
    "non-trivial: >=3 values passed through and the queue was full or timed out once") {
  const int capacity = s.Bits(5);  // 0 is unbounded
  std::unique_ptr<Queue> q = capacity == 0 && s.Bits(1) ? std::make_unique<Queue>() : std::make_unique<Queue>(capacity);
  std::deque<int> model;
  const int ops = s.Len(1, 60);
  int serial = 0, popped = 0, special = 0;
  for (int op = 0; op != ops; ++op) {
    const bool full = capacity != 0 && model.size() >= static_cast<size_t>(capacity);
    const auto timeout = s.Chance(0.03) ? FromSeconds(0.0005) : FromMilliseconds(0);
    switch (s.Weighted({full ? 0. : 4., 3., model.empty() ? 0. : 3., 2., 2., 1.})) {
      case 0:
        q->Push(std::make_unique<int>(++serial));
        model.push_back(serial);
        break;
      case 1: {
        const bool ok = q->PushWithTimeout(std::make_unique<int>(++serial), timeout);
        PBT_CHECK_EQ(ok, !full) << "push with timeout";
        if (ok) model.push_back(serial);
        else ++special;
        break;
      }
      case 2: {
        auto v = q->Pop();
        PBT_CHECK(v != nullptr);
        PBT_CHECK_EQ(*v, model.front());
        model.pop_front();
        ++popped;
        break;
      }
      case 3: {
        auto v = q->PopWithTimeout(timeout);
        PBT_CHECK_EQ(v == nullptr, model.empty()) << "pop with timeout";
        if (v) {
          PBT_CHECK_EQ(*v, model.front());
          model.pop_front();
          ++popped;
        } else {
          ++special;
        }
        break;
      }
      case 4: {
        const int* p = q->Peek<int>();
        PBT_CHECK_EQ(p == nullptr, model.empty());
        if (p) PBT_CHECK_EQ(*p, model.front());
        break;
      }
      case 5: {
        int* p = q->PeekWithTimeout<int>(timeout);
        PBT_CHECK_EQ(p == nullptr, model.empty());
        if (p) PBT_CHECK_EQ(*p, model.front());
        break;
      }
    }
    PBT_CHECK_EQ(q->Size(), model.size());
  }
  if (model.empty()) q->WaitUntilEmpty();
  if (popped >= 3 && special > 0) s.NonTrivial();
  if (s.Sampling()) s.Describe("capacity " + std::to_string(capacity) + ", " + std::to_string(ops) + " ops, " +
                               std::to_string(popped) + " popped");
}

PBT_FACET(concurrent, o.weight = 0.05; o.nondeterministic = true; o.hang_is_violation = true; o.case_timeout_s = 30; o.rule =
    "several producers and consumers with generated pauses; non-trivial: >=2 producers or consumers and a bounded queue") {
  const int capacity = s.Bits(4);
  const int producers = 1 + s.Bits(3), consumers = 1 + s.Bits(3);
  Queue q(capacity);
  std::vector<int> counts;
  std::vector<std::vector<int>> pauses(producers), cpauses(consumers);
  int total = 0;
  for (int p = 0; p != producers; ++p) {
    counts.push_back(s.Len(0, 40));
    total += counts.back();
    for (int i = 0; i != 4; ++i) pauses[p].push_back(s.Weighted({5, 1}) * static_cast<int>(s.Bits(80)));
  }
  for (int c = 0; c != consumers; ++c)
    for (int i = 0; i != 4; ++i) cpauses[c].push_back(s.Weighted({5, 1}) * static_cast<int>(s.Bits(80)));
  const bool timed = s.Bits(1);
  std::mutex m;
  std::string problem;
  std::map<int, std::vector<std::vector<int>>> received;  // per consumer, per producer
  // Tickets: [begin, end] of every pop, to check order across consumers.
  std::atomic<uint64_t> clock{1};
  struct Popped {
    int value;
    uint64_t begin, end;
  };
  std::vector<Popped> log;
  std::atomic<int> remaining{total};
  std::vector<std::thread> threads;
  for (int p = 0; p != producers; ++p) {
    threads.emplace_back([&, p]() {
      for (int i = 0; i != counts[p]; ++i) {
        Pause(pauses[p][i % 4]);
        if (timed && i % 3 == 0) {
          while (true) {
            auto v = std::make_unique<int>(p * 1000 + i);
            if (q.PushWithTimeout(std::move(v), FromSeconds(0.0002))) break;
          }
        } else {
          q.Push(std::make_unique<int>(p * 1000 + i));
        }
      }
    });
  }
  for (int c = 0; c != consumers; ++c) {
    threads.emplace_back([&, c]() {
      int i = 0;
      while (remaining.load() > 0) {
        Pause(cpauses[c][i++ % 4]);
        const uint64_t begin = clock.fetch_add(1);
        auto v = q.PopWithTimeout(FromSeconds(0.0005));
        const uint64_t end = clock.fetch_add(1);
        if (!v) continue;
        remaining.fetch_sub(1);
        std::lock_guard<std::mutex> l(m);
        log.push_back({*v, begin, end});
      }
    });
  }
  // The capacity holds at any moment.
  size_t max_size = 0;
  while (remaining.load() > 0) {
    max_size = std::max(max_size, q.Size());
    std::this_thread::yield();
  }
  q.WaitUntilEmpty();
  for (auto& t : threads) t.join();
  if (capacity > 0) PBT_CHECK(max_size <= static_cast<size_t>(capacity)) << "queue exceeded its capacity: " << max_size;
  PBT_CHECK_EQ(q.Size(), 0u);
  std::map<int, int> seen;
  for (const auto& l : log) ++seen[l.value];
  PBT_CHECK_EQ(log.size(), static_cast<size_t>(total));
  for (const auto& v : seen) PBT_CHECK_EQ(v.second, 1) << "value " << v.first << " delivered twice";
  for (size_t i = 0; i != log.size(); ++i)
    for (size_t j = 0; j != log.size(); ++j)
      if (log[i].value / 1000 == log[j].value / 1000 && log[i].value < log[j].value)
        PBT_CHECK(!(log[j].end < log[i].begin)) << "values of one producer overtook each other";
  if (capacity > 0 && producers + consumers > 2 && total > 3) s.NonTrivial();
  if (s.Sampling()) s.Describe(std::to_string(producers) + " producers, " + std::to_string(consumers) +
                               " consumers, capacity " + std::to_string(capacity) + ", " + std::to_string(total) + " values");
}

PBT_FACET(blocking, o.weight = 0.02; o.nondeterministic = true; o.hang_is_violation = true; o.case_timeout_s = 30; o.rule =
    "a push on a full queue and a pop on an empty queue block until the other side acts; every case is non-trivial") {
  const int capacity = 1 + s.Bits(3);
  Queue q(capacity);
  std::atomic<bool> acted{false}, through{false}, early{false};
  const int pause = s.Bits(300);
  const bool pop_side = s.Bits(1);
  if (!pop_side)
    for (int i = 0; i != capacity; ++i) q.Push(std::make_unique<int>(i));
  std::thread blocked([&]() {
    if (pop_side) {
      auto v = q.Pop();
      if (!acted.load()) early = true;
      if (!v || *v != 7) early = true;
    } else {
      q.Push(std::make_unique<int>(capacity));
      if (!acted.load()) early = true;
    }
    through = true;
  });
  Pause(pause);
  acted = true;
  if (pop_side) {
    q.Push(std::make_unique<int>(7));
    blocked.join();
  } else {
    auto v = q.Pop();
    blocked.join();
    PBT_CHECK(v && *v == 0);
    for (int i = 1; i <= capacity; ++i) PBT_CHECK_EQ(*q.Pop(), i);
  }
  PBT_CHECK(!early.load()) << "did not block";
  PBT_CHECK(through.load());
  PBT_CHECK_EQ(q.Size(), 0u);
  s.NonTrivial();
}
