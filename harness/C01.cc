// C01: tasks and the thread pool.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>

#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "pbt.h"

namespace {
using cartographer::common::Task;
using cartographer::common::ThreadPool;
using cartographer::common::ThreadPoolInterface;

// A pool whose schedule is chosen by the generator.
class ChosenPool : public ThreadPoolInterface {
 public:
  std::weak_ptr<Task> Schedule(std::unique_ptr<Task> task) override {
    std::shared_ptr<Task> shared = std::move(task);
    ScheduleShared(shared);
    return shared;
  }
  void ScheduleShared(const std::shared_ptr<Task>& task) {
    scheduled_.insert(task.get());
    SetThreadPool(task.get());
  }
  void Run(Task* task) { Execute(task); }
  std::map<Task*, int> notified_;
  std::set<Task*> scheduled_;

 private:
  void NotifyDependenciesCompleted(Task* task) override { ++notified_[task]; }
};

struct ModelTask {
  std::shared_ptr<Task> task;
  std::set<int> deps;
  bool scheduled = false, running = false, completed = false;
  int runs = 0;
  bool has_work = true;
};

void SpinFor(int us) {
  if (us <= 0) return;
  const auto end = std::chrono::steady_clock::now() + std::chrono::microseconds(us);
  while (std::chrono::steady_clock::now() < end) std::this_thread::yield();
}

}  // namespace

PBT_FACET(task_states, o.weight = 1; o.rule =
    "random histories of creating tasks, adding dependencies (before/while/after they run), scheduling and "
    "executing in a generated order, against a state model; non-trivial: >=3 executions with >=2 dependency edges") {
  ChosenPool pool;
  std::vector<std::unique_ptr<ModelTask>> tasks;
  const int ops = s.Len(3, 60);
  int edges = 0, executed = 0, late_edges = 0;
  std::ostringstream trace;
  auto expected_state = [&](const ModelTask& t) {
    if (t.completed) return Task::COMPLETED;
    if (t.running) return Task::RUNNING;
    if (!t.scheduled) return Task::NEW;
    for (int d : t.deps)
      if (!tasks[d]->completed) return Task::DISPATCHED;
    return Task::DEPENDENCIES_COMPLETED;
  };
  auto check_all = [&](const char* when) {
    for (size_t i = 0; i != tasks.size(); ++i) {
      const ModelTask& t = *tasks[i];
      const auto want = expected_state(t);
      PBT_CHECK_EQ(t.task->GetState(), want) << "task " << i << " " << when;
      const int notified = pool.notified_.count(t.task.get()) ? pool.notified_[t.task.get()] : 0;
      const bool ready = want == Task::DEPENDENCIES_COMPLETED || want == Task::RUNNING || want == Task::COMPLETED;
      PBT_CHECK_EQ(notified, ready ? 1 : 0) << "readiness of task " << i << " " << when;
      PBT_CHECK_EQ(t.runs, (t.running || t.completed) && t.has_work ? 1 : 0) << "runs of task " << i;
    }
  };
  for (int op = 0; op != ops; ++op) {
    std::vector<int> fresh, ready;
    for (size_t i = 0; i != tasks.size(); ++i) {
      const auto st = expected_state(*tasks[i]);
      if (st == Task::NEW) fresh.push_back(i);
      if (st == Task::DEPENDENCIES_COMPLETED) ready.push_back(i);
    }
    const int kind = s.Weighted({tasks.size() < 20 ? 3. : 0., fresh.empty() ? 0. : 4., fresh.empty() ? 0. : 3.,
                                 ready.empty() ? 0. : 4., fresh.empty() ? 0. : 0.3});
    if (kind == 0) {
      auto t = std::make_unique<ModelTask>();
      t->task = std::make_shared<Task>();
      ModelTask* raw = t.get();
      t->has_work = !s.Chance(0.1);
      if (t->has_work) {
        t->task->SetWorkItem([raw]() {
          ++raw->runs;
          if (raw->task->GetState() != Task::RUNNING) raw->runs = 1000;
        });
      }
      tasks.push_back(std::move(t));
      if (s.Sampling()) trace << "new" << tasks.size() - 1 << " ";
    } else if (kind == 1) {
      const int i = s.Pick(fresh);
      const int d = s.Bits(tasks.size() - 1);
      // No cycles: an edge i -> d is fine if d does not (transitively) need i.
      std::set<int> reach;
      std::vector<int> stack{d};
      while (!stack.empty()) {
        const int x = stack.back();
        stack.pop_back();
        if (!reach.insert(x).second) continue;
        for (int y : tasks[x]->deps) stack.push_back(y);
      }
      if (reach.count(i)) continue;
      // Naming an uncompleted dependency twice is not allowed.
      if (tasks[i]->deps.count(d) && !tasks[d]->completed) continue;
      if (tasks[d]->completed) ++late_edges;
      tasks[i]->deps.insert(d);
      tasks[i]->task->AddDependency(tasks[d]->task);
      ++edges;
      if (s.Sampling()) trace << i << "<-" << d << " ";
    } else if (kind == 2) {
      const int i = s.Pick(fresh);
      tasks[i]->scheduled = true;
      pool.ScheduleShared(tasks[i]->task);
      if (s.Sampling()) trace << "sched" << i << " ";
    } else if (kind == 3) {
      const int i = s.Pick(ready);
      tasks[i]->running = true;
      pool.Run(tasks[i]->task.get());
      tasks[i]->completed = true;
      tasks[i]->running = false;
      ++executed;
      if (s.Sampling()) trace << "run" << i << " ";
    } else if (kind == 4) {
      // A dependency that is gone counts as completed.
      tasks[s.Pick(fresh)]->task->AddDependency(std::weak_ptr<Task>());
    }
    check_all("after an operation");
  }
  // Drain: schedule the rest and run whatever becomes ready until done.
  for (auto& t : tasks) {
    if (!t->scheduled) {
      t->scheduled = true;
      pool.ScheduleShared(t->task);
    }
  }
  while (true) {
    std::vector<int> ready;
    for (size_t i = 0; i != tasks.size(); ++i)
      if (expected_state(*tasks[i]) == Task::DEPENDENCIES_COMPLETED) ready.push_back(i);
    if (ready.empty()) break;
    check_all("while draining");
    const int i = s.Pick(ready);
    tasks[i]->running = true;
    pool.Run(tasks[i]->task.get());
    tasks[i]->completed = true;
    tasks[i]->running = false;
    ++executed;
  }
  check_all("at the end");
  for (auto& t : tasks) PBT_CHECK(t->completed);
  if (executed >= 3 && edges >= 2) s.NonTrivial();
  s.LabelIf(late_edges > 0, "dependency on a completed task");
  if (s.Sampling()) s.Describe(trace.str());
}

PBT_FACET(pool, o.weight = 0.05; o.nondeterministic = true; o.hang_is_violation = true; o.case_timeout_s = 30; o.rule =
    "random task graphs on a real pool with generated thread counts, delays, scheduling from several threads and from "
    "inside tasks; non-trivial: >=2 threads, >=5 tasks, >=3 dependency edges") {
  const int num_threads = 1 + s.Bits(5);
  const int n = s.Len(1, 40);
  struct Info {
    std::vector<int> deps;
    int delay = 0;
    int pause_before = 0;
    std::vector<int> spawns;  // tasks scheduled from inside this one
    std::atomic<int> runs{0};
    std::atomic<uint64_t> begin{0}, end{0};
    bool nested = false;
  };
  std::vector<Info> info(n);
  std::atomic<uint64_t> clock{1};
  std::atomic<int> active{0}, max_active{0}, done{0};
  int edges = 0;
  for (int i = 0; i != n; ++i) {
    info[i].delay = s.Weighted({3, 1, 1}) * static_cast<int>(s.Bits(60));
    info[i].pause_before = s.Weighted({6, 1}) * static_cast<int>(s.Bits(60));
    const int k = i == 0 ? 0 : s.Weighted({2, 3, 2, 1});
    std::set<int> deps;
    for (int j = 0; j != k; ++j) deps.insert(s.Bits(1) ? i - 1 : s.Bits(i - 1));
    info[i].deps.assign(deps.begin(), deps.end());
    edges += deps.size();
  }
  // Some tasks are scheduled by an earlier task instead of the main thread.
  for (int i = 1; i < n; ++i) {
    if (s.Chance(0.15)) {
      const int parent = s.Bits(i - 1);
      info[parent].spawns.push_back(i);
      info[i].nested = true;
      info[i].deps.clear();
      if (s.Bits(1)) info[i].deps.push_back(parent);
    }
  }
  // Tasks depending on nested ones are scheduled only when those exist; keep
  // it simple and drop such edges.
  for (int i = 0; i != n; ++i) {
    std::vector<int> keep;
    for (int d : info[i].deps)
      if (!info[d].nested || info[i].nested) keep.push_back(d);
    if (info[i].nested && keep.size() > 1) keep.resize(1);
    info[i].deps = keep;
  }
  std::mutex m;
  std::map<int, std::weak_ptr<Task>> handles;
  std::string problem;
  auto report = [&](const std::string& p) {
    std::lock_guard<std::mutex> l(m);
    if (problem.empty()) problem = p;
  };
  std::function<void(ThreadPool*, int, bool)> schedule = [&](ThreadPool* pool, int i, bool outside) {
    auto task = std::make_unique<Task>();
    for (int d : info[i].deps) {
      std::weak_ptr<Task> h;
      {
        std::lock_guard<std::mutex> l(m);
        h = handles[d];
      }
      // The contract: an expired handle means the task has completed.
      if (h.expired() && info[d].runs.load() > 0 && info[d].end.load() == 0) report("handle expired before completion");
      task->AddDependency(h);
    }
    if (info[i].pause_before && outside) SpinFor(info[i].pause_before);
    task->SetWorkItem([&, pool, i]() {
      info[i].begin = clock.fetch_add(1);
      const int a = active.fetch_add(1) + 1;
      int seen = max_active.load();
      while (a > seen && !max_active.compare_exchange_weak(seen, a)) {
      }
      if (info[i].runs.fetch_add(1) != 0) report("a task ran twice");
      for (int d : info[i].deps)
        if (info[d].end.load() == 0 && d != i) {
          bool self_spawned = false;
          for (int sp : info[d].spawns) self_spawned |= sp == i;
          (void)self_spawned;
          report("a task ran before its dependency completed");
        }
      SpinFor(info[i].delay);
      for (int sp : info[i].spawns) schedule(pool, sp, false);
      active.fetch_sub(1);
      info[i].end = clock.fetch_add(1);
      done.fetch_add(1);
    });
    auto h = pool->Schedule(std::move(task));
    std::lock_guard<std::mutex> l(m);
    handles[i] = h;
  };
  // A nested task that depends on its (running) parent needs the parent handle,
  // which is registered after Schedule returns; drop that edge if unavailable.
  for (int i = 0; i != n; ++i)
    if (info[i].nested) info[i].deps.clear();
  {
    ThreadPool pool(num_threads);
    for (int i = 0; i != n; ++i)
      if (!info[i].nested) schedule(&pool, i, true);
    // Every scheduled task gets to run.
    while (done.load() < n) {
      std::this_thread::sleep_for(std::chrono::microseconds(20));
      std::lock_guard<std::mutex> l(m);
      PBT_CHECK(problem.empty()) << problem;
    }
    if (s.Bits(1)) {
      // Completed tasks are released or report completion, eventually.
      for (int i = 0; i != n; ++i) {
        std::weak_ptr<Task> h;
        {
          std::lock_guard<std::mutex> l(m);
          h = handles[i];
        }
        while (true) {
          auto t = h.lock();
          if (!t || t->GetState() == Task::COMPLETED) break;
          std::this_thread::yield();
        }
      }
    }
  }
  PBT_CHECK(problem.empty()) << problem;
  for (int i = 0; i != n; ++i) PBT_CHECK_EQ(info[i].runs.load(), 1) << "task " << i;
  PBT_CHECK(max_active.load() <= num_threads) << "more work items at once than threads";
  if (num_threads >= 2 && n >= 5 && edges >= 3) s.NonTrivial();
  s.LabelIf(max_active.load() > 1, "tasks overlapped");
  if (s.Sampling()) s.Describe(std::to_string(num_threads) + " threads, " + std::to_string(n) + " tasks, " +
                               std::to_string(edges) + " edges");
}

PBT_FACET(pool_shutdown, o.weight = 0.02; o.nondeterministic = true; o.hang_is_violation = true; o.case_timeout_s = 30; o.rule =
    "the pool is destroyed while work items are executing; non-trivial: a work item was still running") {
  const int num_threads = 1 + s.Bits(3);
  std::atomic<int> started{0}, finished{0};
  std::vector<int> delays;
  for (int i = 0; i != num_threads; ++i) delays.push_back(s.Bits(400));
  int running_at_destruction = 0;
  {
    ThreadPool pool(num_threads);
    for (int i = 0; i != num_threads; ++i) {
      auto task = std::make_unique<Task>();
      const int d = delays[i];
      task->SetWorkItem([&, d]() {
        started.fetch_add(1);
        SpinFor(d);
        finished.fetch_add(1);
      });
      pool.Schedule(std::move(task));
    }
    // The queue is empty once every task has been picked up.
    while (started.load() < num_threads) std::this_thread::yield();
    running_at_destruction = num_threads - finished.load();
  }
  PBT_CHECK_EQ(finished.load(), num_threads) << "destruction did not wait for executing work";
  if (running_at_destruction > 0) s.NonTrivial();
}
