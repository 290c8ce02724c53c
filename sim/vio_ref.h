// Conversions between the estimator's state and the reference integrator.
#pragma once
#include "refint.h"
#include "vio.h"
namespace sim {
inline Nav nav_of(const std::shared_ptr<ov_msckf::State> &st) {
  Nav n;
  n.R = R_from_jpl(st->_imu->quat());
  n.p = st->_imu->pos(), n.v = st->_imu->vel(), n.bg = st->_imu->bias_g(), n.ba = st->_imu->bias_a();
  n.dw = st->_calib_imu_dw->value(), n.da = st->_calib_imu_da->value(), n.tg = st->_calib_imu_tg->value();
  n.Rw = R_from_jpl(st->_calib_imu_GYROtoIMU->value()), n.Ra = R_from_jpl(st->_calib_imu_ACCtoIMU->value());
  n.model = st->_options.imu_model == ov_msckf::StateOptions::ImuModel::RPNG ? 1 : 0;
  return n;
}
inline RefErr referr_of(const std::shared_ptr<ov_msckf::State> &st) {
  RefErr e;
  e.imu_cal = st->_options.do_calib_imu_intrinsics;
  e.g_cal = st->_options.do_calib_imu_g_sensitivity;
  e.model = st->_options.imu_model == ov_msckf::StateOptions::ImuModel::RPNG ? 1 : 0;
  return e;
}
inline RefMethod method_of(const std::shared_ptr<ov_msckf::State> &st, bool mean) {
  using IM = ov_msckf::StateOptions::IntegrationMethod;
  auto m = st->_options.integration_method;
  if (m == IM::DISCRETE)
    return REF_DISCRETE;
  if (m == IM::RK4 && mean)
    return REF_LINEAR;
  return REF_CONST;
}
// accuracy that each method promises on these readings
struct MeanTol {
  double th = 1e-9, v = 1e-9, p = 1e-9, cov = 0;
  // prec: floating point resolution of the quantities themselves
  void add(const Nav &n0, const std::vector<ImuS> &k, ov_msckf::StateOptions::IntegrationMethod m) {
    using IM = ov_msckf::StateOptions::IntegrationMethod;
    double T = k.back().t - k.front().t, eth = 0, ev = 0, ep = 0;
    for (size_t i = 0; i + 1 < k.size(); i++) {
      V3 w0, a0, w1, a1;
      n0.correct(k[i].w, k[i].a, w0, a0);
      n0.correct(k[i + 1].w, k[i + 1].a, w1, a1);
      double dt = k[i + 1].t - k[i].t, w = std::max(w0.norm(), w1.norm()), a = std::max(a0.norm(), a1.norm()), x = w * dt;
      double wa = (0.5 * (w0 + w1)).norm();
      if (m == IM::RK4) {
        double y = (w1 - w0).norm() * dt, z = (a1 - a0).norm();
        eth += std::pow(x, 5) / 50 + y * y * x / 200 + y * x * x * x / 50;
        ev += a * dt * (std::pow(x, 4) + y * x * x + y * y) / 20 + z * dt * (x * x * x + x * y) / 20;
        ep += a * dt * dt * (x * x * x + y * x + y * y) / 20 + z * dt * dt * (x * x + y) / 20;
      } else if (m == IM::ANALYTICAL && wa < 0.009) {
        ev += a * dt * wa * dt;
        ep += a * dt * dt * wa * dt;
      }
      if (m != IM::DISCRETE && wa < 0.009)
        cov += a * dt * wa * dt * (1 + dt);
    }
    p += ep + T * v + ev * T + eth * 15 * T * T;
    v += ev + 15 * T * th + eth * 15 * T;
    th += eth;
  }
};
} // namespace sim
