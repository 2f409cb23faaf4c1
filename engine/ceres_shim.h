// The pinned Ceres (2.2) dropped the LocalParameterization API that five of the
// repository's sources still use, so the repository's own build leaves them
// out.  Force-including this header maps the removed names onto the manifolds
// that replaced them, which lets the harnesses compile those sources unchanged.
#pragma once
#include <memory>
#include "ceres/ceres.h"
#include "ceres/jet.h"
#include "ceres/manifold.h"
#include "ceres/product_manifold.h"

namespace ceres {
using LocalParameterization = Manifold;
using QuaternionParameterization = QuaternionManifold;
using SubsetParameterization = SubsetManifold;

template <typename Functor, int kGlobalSize, int kLocalSize>
class AutoDiffLocalParameterization : public Manifold {
 public:
  AutoDiffLocalParameterization() : functor_(new Functor()) {}
  explicit AutoDiffLocalParameterization(Functor* functor) : functor_(functor) {}
  int AmbientSize() const override { return kGlobalSize; }
  int TangentSize() const override { return kLocalSize; }
  bool Plus(const double* x, const double* delta, double* x_plus_delta) const override {
    return (*functor_)(x, delta, x_plus_delta);
  }
  bool PlusJacobian(const double* x, double* jacobian) const override {
    using J = Jet<double, kLocalSize>;
    J xs[kGlobalSize], deltas[kLocalSize], out[kGlobalSize];
    for (int i = 0; i != kGlobalSize; ++i) xs[i] = J(x[i]);
    for (int i = 0; i != kLocalSize; ++i) deltas[i] = J(0., i);
    if (!(*functor_)(xs, deltas, out)) return false;
    for (int r = 0; r != kGlobalSize; ++r)
      for (int c = 0; c != kLocalSize; ++c) jacobian[r * kLocalSize + c] = out[r].v[c];
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }

 private:
  std::unique_ptr<Functor> functor_;
};
}  // namespace ceres
