// A simulated building, a robot driving in it, and what its sensors report.
#pragma once
#include <cmath>
#include <string>
#include <vector>

#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/mapping/map_builder_interface.h"
#include "cartographer/mapping/proto/map_builder_options.pb.h"
#include "cartographer/mapping/proto/trajectory_builder_options.pb.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/landmark_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "geo.h"

namespace world {
using namespace cartographer;
using transform::Rigid3d;
using Eigen::Vector3d;

struct Box {
  Vector3d low, high;
};
struct Building {
  Vector3d low, high;  // the outer walls
  std::vector<Box> boxes;
  // Distance along a ray to the first surface.
  double Cast(const Vector3d& from, const Vector3d& direction) const {
    double best = 1e9;
    for (int k = 0; k != 3; ++k) {
      if (direction[k] > 1e-12) best = std::min(best, (high[k] - from[k]) / direction[k]);
      if (direction[k] < -1e-12) best = std::min(best, (low[k] - from[k]) / direction[k]);
    }
    for (const Box& b : boxes) {
      double enter = 0., leave = 1e9;
      bool miss = false;
      for (int k = 0; k != 3; ++k) {
        if (std::abs(direction[k]) < 1e-12) {
          if (from[k] < b.low[k] || from[k] > b.high[k]) miss = true;
          continue;
        }
        double t0 = (b.low[k] - from[k]) / direction[k], t1 = (b.high[k] - from[k]) / direction[k];
        if (t0 > t1) std::swap(t0, t1);
        enter = std::max(enter, t0);
        leave = std::min(leave, t1);
      }
      if (!miss && enter < leave) best = std::min(best, enter);
    }
    return best;
  }
  // Distance of a point from the nearest surface.
  double Surface(const Vector3d& p) const {
    double best = 1e9;
    for (int k = 0; k != 3; ++k) best = std::min({best, std::abs(p[k] - low[k]), std::abs(high[k] - p[k])});
    for (const Box& b : boxes) {
      Vector3d outside;
      double inside = 1e9;
      for (int k = 0; k != 3; ++k) {
        outside[k] = std::max({b.low[k] - p[k], 0., p[k] - b.high[k]});
        inside = std::min({inside, p[k] - b.low[k], b.high[k] - p[k]});
      }
      best = std::min(best, outside.norm() > 0. ? outside.norm() : std::abs(inside));
    }
    return best;
  }
};

// A room of about 9 to 14 m with furniture at the walls; the middle is free.
inline Building GenBuilding(pbt::Source& s) {
  Building b;
  const double x = s.Real(4.5, 7.), y = s.Real(4.5, 7.);
  b.low = Vector3d(-x, -y, -1.);
  b.high = Vector3d(x, y, 2.);
  const int n = s.Int(4, 7);
  for (int i = 0; i != n; ++i) {
    // At one of the four walls, at different places.
    const double depth = s.Real(0.4, 1.2), width = s.Real(0.5, 1.5), height = s.Real(1.2, 2.8);
    const int wall = i % 4;
    const double extent = wall < 2 ? y : x;
    const double at = s.Real(-extent + 1., extent - 1.);
    Box box;
    if (wall < 2) {
      const double side = wall == 0 ? -x : x;
      box.low = Vector3d(std::min(side, side - std::copysign(depth, side)), at - width / 2, -1.);
      box.high = Vector3d(std::max(side, side - std::copysign(depth, side)), at + width / 2, -1. + height);
    } else {
      const double side = wall == 2 ? -y : y;
      box.low = Vector3d(at - width / 2, std::min(side, side - std::copysign(depth, side)), -1.);
      box.high = Vector3d(at + width / 2, std::max(side, side - std::copysign(depth, side)), -1. + height);
    }
    b.boxes.push_back(box);
  }
  return b;
}

struct Motion {
  double rx, ry, phase, rate, heading, tilt, bob;
  bool turning;
  // Starts at rest.
  double Angle(double t) const { return phase + rate * (t <= 0. ? 0. : t * t / (t + 1.)); }
  Rigid3d At(double t) const {
    const double a = Angle(t);
    const Vector3d p(rx * std::cos(a), ry * std::sin(a), bob * std::sin(3. * a) - bob * std::sin(3. * phase));
    const double yaw = heading + (turning ? a : 0.3 * std::sin(2. * a));
    const double w = t <= 0. ? 0. : t * t / (t + 1.);
    return Rigid3d(p, Eigen::AngleAxisd(yaw, Vector3d::UnitZ()) * Eigen::AngleAxisd(tilt * std::sin(0.9 * w), Vector3d::UnitY()) *
                          Eigen::AngleAxisd(tilt * std::sin(1.1 * w), Vector3d::UnitX()));
  }
  Vector3d AngularVelocity(double t) const {
    const double h = 1e-4;
    const Eigen::Quaterniond d = At(t - h).rotation().conjugate() * At(t + h).rotation();
    const Eigen::AngleAxisd a(d.w() < 0. ? Eigen::Quaterniond(-d.coeffs()) : d);
    return a.axis() * (a.angle() / (2. * h));
  }
  // What an accelerometer feels, in the frame of the robot.
  Vector3d Acceleration(double t) const {
    const double h = 1e-3;
    const Vector3d a = (At(t + h).translation() - 2. * At(t).translation() + At(t - h).translation()) / (h * h);
    return At(t).rotation().conjugate() * (a + Vector3d(0., 0., 9.806));
  }
};
inline Motion GenMotion(pbt::Source& s, bool three_d) {
  Motion m;
  m.rx = s.Real(1., 3.);
  m.ry = s.Real(1., 3.);
  m.phase = s.Real(-3.1, 3.1);
  m.rate = (s.Chance(0.5) ? 1. : -1.) * s.Real(0.15, 0.35);
  m.heading = s.Real(-3.1, 3.1);
  m.turning = s.Chance(0.7);
  m.tilt = three_d && s.Chance(0.6) ? s.Real(0.01, 0.08) : 0.;
  m.bob = three_d && s.Chance(0.5) ? s.Real(0., 0.15) : 0.;
  return m;
}

// A scan ending at 'time' (seconds since the start), each point at its own time.
struct Scanner {
  Vector3d mount;
  double from, to;  // angles
  int rays;
  int rows;         // elevations, 1: horizontal
  double duration;  // of one scan
  double jitter = 0.;  // of the directions, between scans and rays
};
inline sensor::TimedPointCloudData Scan(const Building& b, const Motion& m, const Scanner& c, double seconds, common::Time time, double noise, uint64_t* random) {
  sensor::TimedPointCloudData out;
  out.time = time;
  out.origin = c.mount.cast<float>();
  for (int i = 0; i != c.rays; ++i) {
    const float when = c.duration == 0. ? 0.f : static_cast<float>(-c.duration * (c.rays - 1 - i) / c.rays);
    const Rigid3d pose = m.At(seconds + when);
    const auto draw = [&]() {
      if (c.jitter == 0.) return 0.;
      *random = *random * 6364136223846793005ull + 1442695040888963407ull;
      return c.jitter * (static_cast<double>(*random >> 40) / (1 << 23) - 1.);
    };
    for (int k = 0; k != c.rows; ++k) {
      const double a = c.from + (c.to - c.from) * i / c.rays + draw();
      const double e = c.rows == 1 ? 0. : -0.45 + 0.9 * k / (c.rows - 1) + draw();
      const Vector3d direction(std::cos(a) * std::cos(e), std::sin(a) * std::cos(e), std::sin(e));
      double range = b.Cast(pose * c.mount, pose.rotation() * direction);
      *random = *random * 6364136223846793005ull + 1442695040888963407ull;
      range += noise * (static_cast<double>(*random >> 40) / (1 << 23) - 1.);
      out.ranges.push_back({(c.mount + range * direction).cast<float>(), when});
    }
  }
  return out;
}

inline std::unique_ptr<common::LuaParameterDictionary> Load(const std::string& code) {
  return absl::make_unique<common::LuaParameterDictionary>(code, absl::make_unique<common::ConfigurationFileResolver>(std::vector<std::string>{}));
}
}  // namespace world
