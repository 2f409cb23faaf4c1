// A thread pool whose schedule is chosen by the generator: tasks run only when told to, in any order their dependencies allow.
#pragma once
#include <map>
#include <memory>
#include <vector>

#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"

namespace pool {
class StepPool : public cartographer::common::ThreadPoolInterface {
 public:
  std::weak_ptr<cartographer::common::Task> Schedule(std::unique_ptr<cartographer::common::Task> task) override {
    std::shared_ptr<cartographer::common::Task> shared = std::move(task);
    waiting_[shared.get()] = shared;
    SetThreadPool(shared.get());
    return shared;
  }
  size_t ready() const { return ready_.size(); }
  size_t waiting() const { return waiting_.size(); }
  // Runs the task at this position among the ready ones.
  void Run(size_t i) {
    const auto task = ready_[i];
    ready_.erase(ready_.begin() + i);
    ++executed_;
    Execute(task.get());
  }
  int executed() const { return executed_; }

 private:
  void NotifyDependenciesCompleted(cartographer::common::Task* task) override {
    const auto it = waiting_.find(task);
    ready_.push_back(it->second);
    waiting_.erase(it);
  }
  std::map<cartographer::common::Task*, std::shared_ptr<cartographer::common::Task>> waiting_;
  std::vector<std::shared_ptr<cartographer::common::Task>> ready_;
  int executed_ = 0;
};
}  // namespace pool
