// T01: rigid transforms against 4x4 homogeneous matrices in extended precision.
#include "geo.h"

#include "absl/memory/memory.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/common/math.h"
#include "cartographer/common/port.h"
#include "cartographer/transform/timestamped_transform.h"
#include "cartographer/transform/transform.h"

namespace {
using namespace cartographer;
using namespace geo;
using transform::Rigid2d;
using transform::Rigid3d;

struct Matrix {
  long double m[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
};
Matrix FromQuaternion(long double w, long double x, long double y, long double z) {
  const long double n = w * w + x * x + y * y + z * z;
  Matrix r;
  r.m[0][0] = 1 - 2 * (y * y + z * z) / n; r.m[0][1] = 2 * (x * y - w * z) / n; r.m[0][2] = 2 * (x * z + w * y) / n;
  r.m[1][0] = 2 * (x * y + w * z) / n; r.m[1][1] = 1 - 2 * (x * x + z * z) / n; r.m[1][2] = 2 * (y * z - w * x) / n;
  r.m[2][0] = 2 * (x * z - w * y) / n; r.m[2][1] = 2 * (y * z + w * x) / n; r.m[2][2] = 1 - 2 * (x * x + y * y) / n;
  return r;
}
Matrix M(const Rigid3d& t) {
  Matrix r = FromQuaternion(t.rotation().w(), t.rotation().x(), t.rotation().y(), t.rotation().z());
  for (int i = 0; i != 3; ++i) r.m[i][3] = t.translation()[i];
  return r;
}
Matrix M(const Rigid2d& t) {
  Matrix r;
  const long double a = t.rotation().angle();
  r.m[0][0] = r.m[1][1] = cosl(a);
  r.m[0][1] = -sinl(a);
  r.m[1][0] = sinl(a);
  r.m[0][3] = t.translation().x();
  r.m[1][3] = t.translation().y();
  return r;
}
Matrix operator*(const Matrix& a, const Matrix& b) {
  Matrix r;
  for (int i = 0; i != 4; ++i)
    for (int j = 0; j != 4; ++j) {
      r.m[i][j] = 0;
      for (int k = 0; k != 4; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
    }
  return r;
}
Matrix AxisRotation(int axis, long double a) {
  Matrix r;
  const int i = (axis + 1) % 3, j = (axis + 2) % 3;
  r.m[i][i] = r.m[j][j] = cosl(a);
  r.m[i][j] = -sinl(a);
  r.m[j][i] = sinl(a);
  return r;
}
double Distance(const Matrix& a, const Matrix& b) {
  long double d = 0;
  for (int i = 0; i != 4; ++i)
    for (int j = 0; j != 4; ++j) d = std::max(d, fabsl(a.m[i][j] - b.m[i][j]));
  return static_cast<double>(d);
}
class NoFiles : public common::FileResolver {
  std::string GetFullPathOrDie(const std::string&) override { abort(); }
  std::string GetFileContentOrDie(const std::string&) override { abort(); }
};
double Wrapped(double a) { return std::remainder(a, 2 * M_PI); }
}  // namespace

PBT_FACET(group, o.weight = 1; o.rule =
    "random 2D and 3D transforms and points, composed, inverted and applied, compared with 4x4 matrices in extended "
    "precision; non-trivial: both rotations are neither zero nor half turns") {
  const double r = s.Chance(0.1) ? 1e5 : 50.;
  const double tol = 1e-13 * (1 + r) * 50;
  const Rigid3d a = GenRigid3(s, r), b = GenRigid3(s, r), c = GenRigid3(s, r);
  const double aa = GetAngle(a), ba = GetAngle(b);
  if (aa > 0.01 && aa < M_PI - 0.01 && ba > 0.01 && ba < M_PI - 0.01) s.NonTrivial();
  if (s.Sampling()) s.Describe(a.DebugString() + " * " + b.DebugString());
  PBT_CHECK(Distance(M(a * b), M(a) * M(b)) < tol) << "3D composition";
  PBT_CHECK(Distance(M(a.inverse()) * M(a), Matrix()) < tol) << "3D inverse";
  PBT_CHECK(Distance(M(a * a.inverse()), Matrix()) < tol) << "3D inverse product";
  PBT_CHECK(Distance(M((a * b) * c), M(a * (b * c))) < tol * 10) << "3D associativity";
  PBT_CHECK(std::abs((a * b).rotation().norm() - 1.) < 1e-12) << "composition must stay normalized";
  {
    // Rotations that are valid but not quite normalized (after rounding, from files) do not wear out when composed.
    const Rigid3d worn(a.translation(), Eigen::Quaterniond(a.rotation().coeffs() * (1. + s.Real(-5e-4, 5e-4))));
    PBT_CHECK(worn.IsValid()) << "within the accepted deviation";
    Rigid3d chain = worn;
    for (int i = s.Int(1, 8); i > 0; --i) {
      chain = i % 2 ? chain * worn : worn * chain;
      PBT_CHECK(std::abs(chain.rotation().norm() - 1.) < 1e-9) << "composition must stay normalized";
    }
  }
  PBT_CHECK(Distance(M(Rigid3d::Identity() * a), M(a)) < tol);
  PBT_CHECK(Distance(M(a * Rigid3d::Identity()), M(a)) < tol);
  const Eigen::Vector3d p = GenVector(s, r);
  {
    const Eigen::Vector3d q = a * p;
    const Matrix m = M(a);
    for (int i = 0; i != 3; ++i) {
      long double want = m.m[i][3];
      for (int j = 0; j != 3; ++j) want += m.m[i][j] * p[j];
      PBT_CHECK(std::abs(static_cast<double>(want - q[i])) < tol) << "3D point";
    }
    const transform::Rigid3f af = a.cast<float>();
    PBT_CHECK((af.cast<double>() * p - q).norm() < 1e-6 * (1 + r) * 20) << "float cast";
    PBT_CHECK(((af * p.cast<float>()).cast<double>() - q).norm() < 1e-6 * (1 + r) * 20) << "float point";
  }
  const Rigid2d d = GenRigid2(s, r, 3 * M_PI), e = GenRigid2(s, r, 3 * M_PI);
  PBT_CHECK(Distance(M(d * e), M(d) * M(e)) < tol) << "2D composition";
  PBT_CHECK(Distance(M(d.inverse()) * M(d), Matrix()) < tol) << "2D inverse";
  const Eigen::Vector2d p2 = p.head<2>();
  const Matrix m2 = M(d);
  const Eigen::Vector2d q2 = d * p2;
  PBT_CHECK(std::abs(static_cast<double>(m2.m[0][0] * p2.x() + m2.m[0][1] * p2.y() + m2.m[0][3] - q2.x())) < tol) << "2D point";
  PBT_CHECK(std::abs(static_cast<double>(m2.m[1][0] * p2.x() + m2.m[1][1] * p2.y() + m2.m[1][3] - q2.y())) < tol) << "2D point";
  PBT_CHECK(((d.cast<float>() * p2.cast<float>()).cast<double>() - q2).norm() < 1e-6 * (1 + r) * 20) << "2D float";
  PBT_CHECK(Distance(M(Rigid3d::Translation(p)) * M(Rigid3d::Rotation(a.rotation())), M(Rigid3d(p, a.rotation()))) < tol);
  PBT_CHECK(Distance(M(Rigid2d::Translation(p2)) * M(Rigid2d::Rotation(d.rotation())), M(Rigid2d(p2, d.rotation()))) < tol);
  PBT_CHECK(Distance(M(Rigid3d::FromArrays({{a.rotation().w(), a.rotation().x(), a.rotation().y(), a.rotation().z()}},
                                           {{p.x(), p.y(), p.z()}})), M(Rigid3d(p, a.rotation()))) < tol);
}

PBT_FACET(angles, o.weight = 1; o.rule =
    "random rotations (near zero and near half turns included): rotation angle, yaw, projection and embedding, angle "
    "axis vectors, roll/pitch/yaw, angle normalization; non-trivial: rotation off the z axis") {
  const Eigen::Quaterniond q = GenRotation(s);
  const Rigid3d a(GenVector(s, 20.), q);
  if (q.x() != 0. || q.y() != 0.) s.NonTrivial();
  const Matrix m = M(a);
  // Rotation angle from the trace and the skew part.
  long double sx = m.m[2][1] - m.m[1][2], sy = m.m[0][2] - m.m[2][0], sz = m.m[1][0] - m.m[0][1];
  const double want_angle = static_cast<double>(atan2l(sqrtl(sx * sx + sy * sy + sz * sz), m.m[0][0] + m.m[1][1] + m.m[2][2] - 1));
  PBT_CHECK(std::abs(transform::GetAngle(a) - want_angle) < 1e-7) << transform::GetAngle(a) << " vs " << want_angle;
  PBT_CHECK(transform::GetAngle(a) >= 0. && transform::GetAngle(a) <= M_PI + 1e-12);
  // Yaw.
  if (std::abs(m.m[0][0]) + std::abs(m.m[1][0]) > 1e-6) {
    const double yaw = static_cast<double>(atan2l(m.m[1][0], m.m[0][0]));
    PBT_CHECK(std::abs(Wrapped(transform::GetYaw(q) - yaw)) < 1e-8) << "yaw";
    PBT_CHECK(std::abs(Wrapped(transform::GetYaw(a) - yaw)) < 1e-8) << "yaw of transform";
    const Rigid2d flat = transform::Project2D(a);
    PBT_CHECK(flat.translation() == a.translation().head<2>());
    PBT_CHECK(std::abs(Wrapped(flat.rotation().angle() - yaw)) < 1e-8) << "projection";
  }
  const Rigid2d d = GenRigid2(s, 20., 4 * M_PI);
  PBT_CHECK(Distance(M(transform::Embed3D(d)), M(d)) < 1e-12) << "embedding";
  PBT_CHECK(Distance(M(transform::Project2D(transform::Embed3D(d))), M(d)) < 1e-12) << "projection undoes embedding";
  // Angle axis vectors.
  const Eigen::Vector3d v = transform::RotationQuaternionToAngleAxisVector(q);
  PBT_CHECK(v.norm() <= M_PI + 1e-9);
  PBT_CHECK(std::abs(v.norm() - want_angle) < 1e-6) << "length of the angle axis vector";
  const Eigen::Quaterniond back = transform::AngleAxisVectorToRotationQuaternion(v);
  PBT_CHECK(RotationDistance(q, back) < 1e-7) << "angle axis round trip " << RotationDistance(q, back);
  PBT_CHECK(std::abs(back.norm() - 1.) < 1e-8) << "angle axis norm";
  const double angle = GenAngle(s, 5.);
  const Eigen::Vector3d axis = GenAxis(s);
  {
    // Small turns keep their relative precision.
    const double small = s.LogReal(1e-9, 1.);
    const Eigen::Vector3d tiny = transform::RotationQuaternionToAngleAxisVector(Eigen::Quaterniond(
        std::cos(small / 2), axis.x() * std::sin(small / 2), axis.y() * std::sin(small / 2), axis.z() * std::sin(small / 2)));
    PBT_CHECK((tiny - small * axis).norm() <= 1e-9 * small) << "turn by " << small << " is off by " << (tiny - small * axis).norm();
  }
  const Eigen::Quaterniond direct = transform::AngleAxisVectorToRotationQuaternion(Eigen::Vector3d(axis * angle));
  PBT_CHECK(RotationDistance(direct, Eigen::Quaterniond(Eigen::AngleAxisd(angle, axis))) < 1e-8) << "from angle axis vector";
  // Roll, pitch, yaw.
  const double roll = GenAngle(s), pitch = GenAngle(s), yaw = GenAngle(s);
  const Eigen::Quaterniond rpy = transform::RollPitchYaw(roll, pitch, yaw);
  PBT_CHECK(Distance(M(Rigid3d::Rotation(rpy)), AxisRotation(2, yaw) * AxisRotation(1, pitch) * AxisRotation(0, roll)) < 1e-12)
      << "roll pitch yaw";
  // Angle normalization.
  const double any = s.Real(-60., 60.);
  const double n = common::NormalizeAngleDifference(any);
  PBT_CHECK(n >= -M_PI && n <= M_PI);
  PBT_CHECK(std::abs(Wrapped(n - any)) < 1e-12);
  PBT_CHECK(std::abs(Wrapped(Rigid2d::Rotation(any).normalized_angle() - any)) < 1e-12);
  if (std::abs(any) <= M_PI) PBT_CHECK_EQ(n, any);
  const double lo = s.Real(-5., 5.), hi = lo + std::abs(s.Real(-5., 5.)), x = s.Real(-12., 12.);
  PBT_CHECK_EQ(common::Clamp(x, lo, hi), std::min(hi, std::max(lo, x)));
  PBT_CHECK_EQ(common::RoundToInt(x), static_cast<int>(x < 0 ? -std::floor(-x + 0.5) : std::floor(x + 0.5)));
  PBT_CHECK(std::abs(common::RadToDeg(common::DegToRad(x)) - x) < 1e-12);
  PBT_CHECK(std::abs(common::DegToRad(180.) - M_PI) < 1e-15);
  {
    const double z[4] = {q.w(), q.x(), q.y(), q.z()}, w[4] = {rpy.w(), rpy.x(), rpy.y(), rpy.z()};
    double zw[4];
    common::QuaternionProduct(z, w, zw);
    PBT_CHECK(Distance(FromQuaternion(zw[0], zw[1], zw[2], zw[3]), M(Rigid3d::Rotation(q)) * M(Rigid3d::Rotation(rpy))) < 1e-12);
  }
}

PBT_FACET(conversions, o.weight = 1; o.rule =
    "random transforms, vectors and stamped transforms through their serialized form (exact), validity of transforms, "
    "transforms from configuration tables; non-trivial: rotation not the identity") {
  const Rigid3d a = GenRigid3(s, s.Chance(0.2) ? 1e6 : 30.);
  const Rigid2d d = GenRigid2(s, 30., 10.);
  if (std::abs(a.rotation().w()) < 1.) s.NonTrivial();
  const Rigid3d a2 = transform::ToRigid3(transform::ToProto(a));
  PBT_CHECK(a2.translation() == a.translation() && a2.rotation().coeffs() == a.rotation().coeffs()) << "3D proto";
  const Rigid2d d2 = transform::ToRigid2(transform::ToProto(d));
  PBT_CHECK(d2.translation() == d.translation() && d2.rotation().angle() == d.rotation().angle()) << "2D proto";
  const transform::Rigid3f af = a.cast<float>();
  const auto pf = transform::ToProto(af);
  PBT_CHECK(pf.translation().x() == af.translation().x() && pf.translation().y() == af.translation().y() &&
            pf.translation().z() == af.translation().z()) << "3f translation";
  PBT_CHECK(pf.rotation().w() == af.rotation().w() && pf.rotation().x() == af.rotation().x() &&
            pf.rotation().y() == af.rotation().y() && pf.rotation().z() == af.rotation().z()) << "3f rotation";
  const transform::Rigid2f df = d.cast<float>();
  const auto p2f = transform::ToProto(df);
  PBT_CHECK(p2f.translation().x() == df.translation().x() && p2f.translation().y() == df.translation().y() &&
            p2f.rotation() == df.rotation().angle()) << "2f";
  const Eigen::Vector3d v = GenVector(s, 1e3);
  PBT_CHECK(transform::ToEigen(transform::ToProto(v)) == v);
  const Eigen::Vector2d v2 = v.head<2>();
  PBT_CHECK(transform::ToEigen(transform::ToProto(v2)) == v2);
  const Eigen::Vector3f vf = v.cast<float>();
  PBT_CHECK(transform::ToEigen(transform::ToProto(vf)) == vf);
  const Eigen::Vector4f v4(vf.x(), vf.y(), vf.z(), s.Real(-3., 3.));
  PBT_CHECK(transform::ToEigen(transform::ToProto(v4)) == v4);
  PBT_CHECK(transform::ToEigen(transform::ToProto(a.rotation())).coeffs() == a.rotation().coeffs());
  const transform::TimestampedTransform t{TimeAt(s.Chance(0.3) ? s.IntEdge(-1000000000000ll, 1000000000000ll) : kEpoch + s.IntEdge(-1000000000000ll, 1000000000000ll)), a};
  const auto t2 = transform::FromProto(transform::ToProto(t));
  PBT_CHECK(t2.time == t.time && t2.transform.translation() == a.translation() &&
            t2.transform.rotation().coeffs() == a.rotation().coeffs()) << "stamped transform";
  // Validity.
  Eigen::Quaterniond scaled = a.rotation();
  const double scale = s.Chance(0.5) ? s.Real(0.9, 1.1) : 1. + s.Real(-3e-3, 3e-3);
  scaled.coeffs() *= scale;
  const double off = std::abs(1. - scaled.norm());
  if (std::abs(off - 1e-3) > 1e-9) PBT_CHECK_EQ(Rigid3d(a.translation(), scaled).IsValid(), off < 1e-3) << off;
  Eigen::Vector3d broken = a.translation();
  broken[s.Bits(2)] = std::numeric_limits<double>::quiet_NaN();
  PBT_CHECK(!Rigid3d(broken, a.rotation()).IsValid());
  // From a configuration table.
  char code[512];
  if (s.Bits(1)) {
    const Eigen::Quaterniond q = a.rotation().normalized();
    snprintf(code, sizeof code, "return { translation = { %.17g, %.17g, %.17g }, rotation = { w = %.17g, x = %.17g, y = %.17g, z = %.17g } }",
             v.x(), v.y(), v.z(), q.w(), q.x(), q.y(), q.z());
    common::LuaParameterDictionary dict(code, absl::make_unique<NoFiles>());
    const Rigid3d got = transform::FromDictionary(&dict);
    PBT_CHECK(got.translation() == v && got.rotation().coeffs() == q.coeffs()) << code;
  } else {
    const double roll = GenAngle(s), pitch = GenAngle(s), yaw = GenAngle(s);
    snprintf(code, sizeof code, "return { translation = { %.17g, %.17g, %.17g }, rotation = { %.17g, %.17g, %.17g } }",
             v.x(), v.y(), v.z(), roll, pitch, yaw);
    common::LuaParameterDictionary dict(code, absl::make_unique<NoFiles>());
    const Rigid3d got = transform::FromDictionary(&dict);
    PBT_CHECK(got.translation() == v) << code;
    PBT_CHECK(Distance(M(Rigid3d::Rotation(got.rotation())), AxisRotation(2, yaw) * AxisRotation(1, pitch) * AxisRotation(0, roll)) < 1e-12) << code;
  }
  if (s.Sampling()) s.Describe(code);
}

PBT_FACET(time_stamps, o.weight = 0.3; o.rule =
    "random time stamps and durations through their integer and second representations; non-trivial: negative or large") {
  const int64_t ticks = s.Chance(0.3) ? s.IntEdge(-1000, 1000) : s.IntEdge(-4000000000000000000ll, 4000000000000000000ll);
  PBT_CHECK_EQ(common::ToUniversal(common::FromUniversal(ticks)), ticks);
  if (std::abs(ticks) > 1000000000ll || ticks < 0) s.NonTrivial();
  const int64_t ms = s.IntEdge(-100000000000ll, 100000000000ll);
  PBT_CHECK_EQ(common::FromMilliseconds(ms).count(), ms * 10000);
  const int64_t small = s.IntEdge(-1000000000000ll, 1000000000000ll);  // 1e5 s
  const double seconds = common::ToSeconds(common::Duration(small));
  PBT_CHECK(std::abs(seconds - small * 1e-7) <= 1e-11 * (1. + std::abs(seconds))) << seconds;
  const int64_t back = common::FromSeconds(seconds).count();
  PBT_CHECK(std::abs(back - small) <= 1) << small << " -> " << back;
  if (s.Sampling()) s.Describe(std::to_string(ticks) + " " + std::to_string(seconds));
}
