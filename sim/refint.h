// Independent inertial integrator and error-state reference (nothing of /repo is used here).
#pragma once
#include "world.h"
#include <algorithm>

namespace sim {

// Everything the inertial prediction depends on.
struct Nav {
  M3 R = M3::Identity(); // R_GtoI
  V3 p = V3::Zero(), v = V3::Zero(), bg = V3::Zero(), ba = V3::Zero();
  Eigen::Matrix<double, 6, 1> dw, da;
  Eigen::Matrix<double, 9, 1> tg;
  M3 Rw = M3::Identity(), Ra = M3::Identity(); // gyro / accelerometer frame to IMU frame
  int model = 0;                               // 0: lower triangular (kalibr), 1: upper triangular (rpng)
  Nav() {
    tg.setZero();
    dw << 1, 0, 0, 1, 0, 1;
    da = dw;
  }
  M3 D(const Eigen::Matrix<double, 6, 1> &x) const {
    M3 m = M3::Zero();
    int k = 0;
    for (int c = 0; c < 3; c++) {
      if (model == 0)
        for (int r = c; r < 3; r++)
          m(r, c) = x(k++);
      else
        for (int r = 0; r <= c; r++)
          m(r, c) = x(k++);
    }
    return m;
  }
  M3 T() const {
    M3 m;
    for (int c = 0; c < 3; c++)
      for (int r = 0; r < 3; r++)
        m(r, c) = tg(3 * c + r);
    return m;
  }
  void correct(const V3 &wm, const V3 &am, V3 &w, V3 &a) const {
    a = Ra * D(da) * (am - ba);
    w = Rw * D(dw) * (wm - bg - T() * a);
  }
};

// Piecewise linear signal through the readings; knots of [t0,t1].
inline bool signal_at(const std::vector<ImuS> &m, double t, ImuS &o) {
  if (m.size() < 2)
    return false;
  size_t hi = std::lower_bound(m.begin(), m.end(), t, [](const ImuS &a, double x) { return a.t < x; }) - m.begin();
  if (hi < m.size() && m[hi].t == t) {
    o = m[hi];
    return true;
  }
  if (hi == 0 || hi == m.size())
    return false;
  const ImuS &a = m[hi - 1], &b = m[hi];
  double l = (t - a.t) / (b.t - a.t);
  o.t = t;
  o.w = (1 - l) * a.w + l * b.w;
  o.a = (1 - l) * a.a + l * b.a;
  return true;
}
inline bool knots(const std::vector<ImuS> &m, double t0, double t1, std::vector<ImuS> &out) {
  out.clear();
  ImuS a, b;
  if (!(t1 > t0) || !signal_at(m, t0, a) || !signal_at(m, t1, b))
    return false;
  out.push_back(a);
  for (auto &x : m)
    if (x.t > t0 + 1.5e-12 && x.t < t1 - 1.5e-12) // nothing to integrate over shorter intervals
      out.push_back(x);
  out.push_back(b);
  return true;
}

enum RefMethod { REF_DISCRETE, REF_CONST, REF_LINEAR };

// one interval of the given kind
inline void ref_step(Nav &n, const ImuS &m0, const ImuS &m1, double g, RefMethod how) {
  double dt = m1.t - m0.t;
  V3 w0, a0, w1, a1, G(0, 0, g);
  n.correct(m0.w, m0.a, w0, a0);
  n.correct(m1.w, m1.a, w1, a1);
  V3 w = 0.5 * (w0 + w1), a = 0.5 * (a0 + a1);
  M3 Rt = n.R.transpose();
  if (how == REF_DISCRETE) {
    n.p += n.v * dt + 0.5 * (Rt * a - G) * dt * dt;
    n.v += (Rt * a - G) * dt;
    n.R = so3_exp(-w * dt) * n.R;
  } else if (how == REF_CONST) { // constant rate and acceleration, exactly
    static const double x[5] = {0.046910077030668004, 0.23076534494715845, 0.5, 0.76923465505284155, 0.953089922969332};
    static const double c[5] = {0.11846344252809454, 0.23931433524968324, 0.28444444444444444, 0.23931433524968324, 0.11846344252809454};
    V3 dv = V3::Zero(), dp = V3::Zero();
    for (int i = 0; i < 5; i++) {
      V3 f = so3_exp(w * (x[i] * dt)) * a;
      dv += c[i] * dt * f;
      dp += c[i] * dt * (1 - x[i]) * dt * f;
    }
    n.p += n.v * dt + Rt * dp - 0.5 * G * dt * dt;
    n.v += Rt * dv - G * dt;
    n.R = so3_exp(-w * dt) * n.R;
  } else { // linearly varying rate and acceleration: many small steps (4th order Runge-Kutta on the rotation)
    const int N = 6;
    double h = dt / N;
    for (int i = 0; i < N; i++) {
      auto W = [&](double s) -> V3 { return w0 + (w1 - w0) * ((i + s) / N); };
      auto A = [&](double s) -> V3 { return a0 + (a1 - a0) * ((i + s) / N); };
      auto dR = [&](const M3 &R, const V3 &ww) -> M3 { return -skew(ww) * R; };
      M3 R0 = n.R;
      M3 k1 = dR(R0, W(0)), k2 = dR(R0 + 0.5 * h * k1, W(.5)), k3 = dR(R0 + 0.5 * h * k2, W(.5)), k4 = dR(R0 + h * k3, W(1));
      M3 Rm = R0 + h / 2 * (k1 + k2) / 2, R1 = R0 + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
      Rm = R0 + h * (5 * k1 + 4 * (k2 + k3) - k4) / 24; // dense output at the middle
      V3 f0 = R0.transpose() * A(0) - G, fm = Rm.transpose() * A(.5) - G, f1 = R1.transpose() * A(1) - G;
      n.p += n.v * h + h * h / 6 * (f0 + 2 * fm);
      n.v += h / 6 * (f0 + 4 * fm + f1);
      n.R = R1;
    }
    n.R = Eigen::Quaterniond(n.R).normalized().toRotationMatrix();
  }
}
inline void ref_mean(Nav &n, const std::vector<ImuS> &k, double g, RefMethod how) {
  for (size_t i = 0; i + 1 < k.size(); i++)
    if (k[i + 1].t - k[i].t > 0)
      ref_step(n, k[i], k[i + 1], g, how);
}

// error state: th p v bg ba [dw da [tg] (th_w | th_a)]; R_true = exp(-th) R_hat
struct RefErr {
  bool imu_cal = false, g_cal = false;
  int model = 0;
  int size() const { return 15 + (imu_cal ? 15 : 0) + (imu_cal && g_cal ? 9 : 0); }
};
inline Nav plus(const Nav &n, const RefErr &e, int j, double h) {
  Nav o = n;
  V3 d = V3::Zero();
  d(j % 3) = h;
  if (j < 3)
    o.R = so3_exp(-d) * n.R;
  else if (j < 6)
    o.p += d;
  else if (j < 9)
    o.v += d;
  else if (j < 12)
    o.bg += d;
  else if (j < 15)
    o.ba += d;
  else if (j < 21)
    o.dw(j - 15) += h;
  else if (j < 27)
    o.da(j - 21) += h;
  else if (e.g_cal && j < 36)
    o.tg(j - 27) += h;
  else {
    if (e.model == 0)
      o.Rw = so3_exp(-d) * n.Rw;
    else
      o.Ra = so3_exp(-d) * n.Ra;
  }
  return o;
}
inline Eigen::Matrix<double, 9, 1> diff9(const Nav &a, const Nav &ref) {
  Eigen::Matrix<double, 9, 1> d;
  d.head<3>() = -so3_log(a.R * ref.R.transpose());
  d.segment<3>(3) = a.p - ref.p;
  d.tail<3>() = a.v - ref.v;
  return d;
}
struct Noise_ {
  double w, a, wb, ab;
};
struct FejPt {
  bool use = false;
  M3 R;
  V3 p, v;
};
// Transition and noise of one interval by central differences of ref_step.
inline void ref_lin(const Nav &n0, const ImuS &m0, const ImuS &m1, double g, RefMethod how, const RefErr &e, const Noise_ &nz, const FejPt &fej,
                    const Nav &n1, bool closed, Eigen::MatrixXd &F, Eigen::MatrixXd &Q) {
  int N = e.size();
  double dt = m1.t - m0.t;
  F = Eigen::MatrixXd::Identity(N, N);
  Nav c = n0;
  ref_step(c, m0, m1, g, how);
  const double h = 1e-4;
  for (int j = 0; j < N; j++) {
    Nav a = plus(n0, e, j, h), b = plus(n0, e, j, -h);
    ref_step(a, m0, m1, g, how);
    ref_step(b, m0, m1, g, how);
    F.block(0, j, 9, 1) = (diff9(a, c) - diff9(b, c)) / (2 * h);
  }
  Eigen::MatrixXd G = Eigen::MatrixXd::Zero(N, 6);
  for (int j = 0; j < 6; j++) {
    V3 d = V3::Zero();
    d(j % 3) = h;
    ImuS p0 = m0, p1 = m1, q0 = m0, q1 = m1;
    (j < 3 ? p0.w : p0.a) += d, (j < 3 ? p1.w : p1.a) += d;
    (j < 3 ? q0.w : q0.a) -= d, (j < 3 ? q1.w : q1.a) -= d;
    Nav a = n0, b = n0;
    ref_step(a, p0, p1, g, how);
    ref_step(b, q0, q1, g, how);
    G.block(0, j, 9, 1) = (diff9(a, c) - diff9(b, c)) / (2 * h);
  }
  // First-estimate Jacobians: orientation, velocity and position of the interval start are taken at their first estimates.
  // The end point is always the actual propagated mean n1.
  M3 R0 = fej.use ? fej.R : n0.R;
  V3 p0 = fej.use ? fej.p : n0.p, v0 = fej.use ? fej.v : n0.v, G3(0, 0, g);
  if (fej.use || closed) {
    M3 A = (n1.R * R0.transpose()) * (c.R * n0.R.transpose()).transpose();
    M3 B = R0.transpose() * n0.R;
    auto adj = [&](Eigen::MatrixXd &M, int c0, int nc) {
      M.block(0, c0, 3, nc) = A * M.block(0, c0, 3, nc).eval();
      M.block(3, c0, 3, nc) = B * M.block(3, c0, 3, nc).eval();
      M.block(6, c0, 3, nc) = B * M.block(6, c0, 3, nc).eval();
    };
    adj(F, 9, N - 9);
    adj(G, 0, 6);
    F.block<3, 3>(0, 0) = n1.R * R0.transpose();
    F.block<3, 3>(3, 0) = -skew(n1.p - p0 - v0 * dt + 0.5 * G3 * dt * dt) * R0.transpose();
    F.block<3, 3>(6, 0) = -skew(n1.v - v0 + G3 * dt) * R0.transpose();
  }
  Q = Eigen::MatrixXd::Zero(N, N);
  Eigen::Matrix<double, 6, 6> Qc = Eigen::Matrix<double, 6, 6>::Zero();
  Qc.block<3, 3>(0, 0) = nz.w * nz.w / dt * M3::Identity();
  Qc.block<3, 3>(3, 3) = nz.a * nz.a / dt * M3::Identity();
  Q = G * Qc * G.transpose();
  Q.block<3, 3>(9, 9) += nz.wb * nz.wb * dt * M3::Identity();
  Q.block<3, 3>(12, 12) += nz.ab * nz.ab * dt * M3::Identity();
}
// whole interval
// mean: method that moves the estimate, how: method that is linearised
inline void ref_chain(Nav n, const std::vector<ImuS> &k, double g, RefMethod mean, RefMethod how, const RefErr &e, const Noise_ &nz, FejPt fej, Eigen::MatrixXd &Phi,
                      Eigen::MatrixXd &Q) {
  int N = e.size();
  Phi = Eigen::MatrixXd::Identity(N, N);
  Q = Eigen::MatrixXd::Zero(N, N);
  for (size_t i = 0; i + 1 < k.size(); i++) {
    if (!(k[i + 1].t - k[i].t > 0))
      continue;
    Eigen::MatrixXd F, Qi;
    Nav n1 = n;
    ref_step(n1, k[i], k[i + 1], g, mean);
    ref_lin(n, k[i], k[i + 1], g, how, e, nz, fej, n1, mean != how, F, Qi);
    Phi = F * Phi;
    Q = F * Q * F.transpose() + Qi;
    n = n1;
    fej.use = false; // later interval starts have no other estimate than the propagated one
  }
}
inline double max_rel(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, const Eigen::MatrixXd &tol, int &ri, int &ci) {
  double worst = 0;
  ri = ci = -1;
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) {
      double d = std::abs(a(i, j) - b(i, j)) / tol(i, j);
      if (!(d <= worst))
        worst = d, ri = i, ci = j;
    }
  return worst;
}
} // namespace sim
