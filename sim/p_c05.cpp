// C05: inertial-rate prediction against an independent integration from the current estimate.
#include "vio_common.h"
#include "vio_ref.h"
namespace sim {
using namespace ov_msckf;

static void c05_gen(Scenario &s, Rng &r) {
  gen_vio_params(s, r, 2.0, 4.5);
  if (r.chance(0.35)) {
    s.set("zupt", 1);
    s.set("zupt_vel", 0.3);
    s.set("zupt_disp", 1.5);
    s.set("sigma_pix", 0.5);
    double a = 10 + r.uni(0.2, 1.5);
    s.item("stop %.3f %.3f", a, a + r.uni(1.0, 2.0));
  }
  if (r.chance(0.2))
    s.set("dt", r.uni(-0.15, 0.15));
  int NI, NF;
  frames_of(s, NI, NF);
  s.set("every", r.chance(0.4) ? r.range(1, 20) : 0); // as the ROS layer does: one request per (n-th) inertial reading
  s.set("fine", r.chance(0.4) ? 1 : 0);
  for (int i = 0, n = r.range(0, 6); i < n; i++)
    s.item("lead %d %d", r.range(0, NF - 1), r.range(1, 40));
  gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(0, 6));
  int first = (int)(0.4 * s.num("imu_rate"));
  for (int i = 0, n = r.range(3, 30); i < n; i++) {
    // after reading a: request b back in time (in readings), n times, plus a fraction of a reading
    double fr = s.in("fine") && r.chance(0.6) ? r.uni(0.02, 0.98) : 0;
    s.item("ask %d %.4f %d", r.range(first, NI - 2), (r.chance(0.5) ? 0 : r.range(0, 12)) + fr, r.chance(0.2) ? 2 : 1);
  }
  for (int i = 0, n = r.range(0, 10); i < n; i++)
    s.item("askf %d %.4f", r.range(0, NF - 1), s.in("fine") ? r.uni(0, 3) : (double)r.range(0, 3));
}

static void c05_run(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  Plan p = Plan::from(s, w, &res);
  VioSim v(s, w, true);
  v.start(s.seed, 0.5);
  auto st = v.st();
  auto prop = v.sys->get_propagator();
  double g = v.opt.gravity_mag;
  bool cal = v.opt.state_options.do_calib_imu_intrinsics;
  std::multimap<int, std::pair<double, int>> asks;
  std::multimap<int, double> askf;
  for (auto &l : s.items) {
    Item it = parse_item(l);
    if (it.op == "ask")
      asks.insert({it.in(0), {it.at(1), it.in(2, 1)}});
    else if (it.op == "askf")
      askf.insert({it.in(0), it.at(1)});
  }
  int every = s.in("every");
  std::vector<ImuS> good;
  size_t fed = 0;
  bool stop = false;
  // since the last change of the estimate: were all requests at reading times?
  bool exact = true;
  Noise_ nz{v.opt.imu_noises.sigma_w, v.opt.imu_noises.sigma_a, v.opt.imu_noises.sigma_wb, v.opt.imu_noises.sigma_ab};
  RefErr e15;
  e15.model = st->_options.imu_model == StateOptions::ImuModel::RPNG ? 1 : 0;

  auto ask = [&](double tq) {
    if (stop || good.size() < 2)
      return;
    double t0 = st->_timestamp + v.dt_est();
    bool back = tq <= t0;
    if (tq > good.back().t)
      return;
    std::vector<ImuS> kn;
    bool ok_ref = !back && knots(good, t0, tq, kn);
    if (!back && !ok_ref)
      return; // the readings do not reach back to the estimate
    Eigen::Matrix<double, 13, 1> x;
    Eigen::Matrix<double, 12, 12> P;
    x.setConstant(-7);
    P.setConstant(-7);
    Snap b = snapshot(st);
    bool ok = prop->fast_state_propagate(st, tq, x, P);
    res.stat("requests");
    Snap a = snapshot(st);
    if (a.h != b.h) {
      res.fail("side-effect", "a prediction for %.6f changed the estimate: %s", tq, diff_snap(b, a).c_str());
      stop = true;
      return;
    }
    if (back) {
      res.stat("requests_before_estimate");
      if (ok) {
        res.fail("backwards", "a prediction for %.6f, before the estimate at %.6f (inertial clock), was answered", tq, t0);
        stop = true;
      }
      return;
    }
    if (tq - t0 < 1e-9)
      return;
    if (!ok) {
      res.fail("refused", "a prediction for %.6f was refused although readings cover %.6f to %.6f", tq, t0, good.back().t);
      stop = true;
      return;
    }
    res.hash.m(x);
    res.hash.m(P);
    Nav n0 = nav_of(st), nd = n0, nl = n0;
    ref_mean(nd, kn, g, REF_DISCRETE);
    ref_mean(nl, kn, g, REF_LINEAR);
    bool on_stamp = false;
    for (auto &m : good)
      on_stamp |= m.t == tq;
    bool tight = exact;
    auto dist = [&](const Nav &a, const Nav &b, double *d) {
      d[0] = so3_log(a.R * b.R.transpose()).norm();
      d[1] = (a.p - b.p).norm();
      d[2] = (a.R * a.v - b.R * b.v).norm();
    };
    double dm[3], er[3], tol[3];
    dist(nd, nl, dm);
    Nav o = n0;
    o.R = R_from_jpl(x.head<4>());
    o.p = x.segment<3>(4);
    o.v = o.R.transpose() * V3(x.segment<3>(7));
    dist(o, nd, er);
    for (int i = 0; i < 3; i++)
      tol[i] = 2e-8 * (1 + n0.p.norm() + n0.v.norm()) + (tight ? 0 : 1e-6 + 3 * dm[i]);
    const char *nm[3] = {"orientation", "position", "velocity"};
    for (int i = 0; i < 3; i++) {
      res.maxi(std::string(tight ? "tight_" : "loose_") + nm[i], er[i] / tol[i]);
      if (!(er[i] <= tol[i])) {
        res.fail("mean", "prediction for %.6f from the estimate at %.6f: %s off by %.3g (allowed %.3g)", tq, t0, nm[i], er[i], tol[i]);
        stop = true;
        return;
      }
    }
    V3 wl, al;
    n0.correct(kn.back().w, kn.back().a, wl, al);
    if (!((V3(x.tail<3>()) - wl).norm() <= 1e-9)) {
      res.fail("mean", "prediction for %.6f: angular velocity off by %.3g", tq, (V3(x.tail<3>()) - wl).norm());
      stop = true;
      return;
    }
    // covariance
    Eigen::MatrixXd P0 = StateHelper::get_marginal_covariance(st, {st->_imu}), Phi, Q;
    ref_chain(n0, kn, g, REF_DISCRETE, REF_DISCRETE, e15, nz, FejPt(), Phi, Q);
    Eigen::MatrixXd C = Phi * P0 * Phi.transpose() + Q;
    // the documented simplification: how the inertial intrinsics scale the bias errors may be left out of the covariance
    Nav ns;
    ns.R = n0.R;
    ns.p = n0.p;
    ns.v = n0.v;
    std::vector<ImuS> kc = kn;
    for (auto &m : kc)
      n0.correct(V3(m.w), V3(m.a), m.w, m.a);
    RefErr es = e15;
    es.model = 0;
    Eigen::MatrixXd Phis, Qs;
    ref_chain(ns, kc, g, REF_DISCRETE, REF_DISCRETE, es, nz, FejPt(), Phis, Qs);
    Eigen::MatrixXd Cs = Phis * P0 * Phis.transpose() + Qs;
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(9, 15);
    J.topLeftCorner(6, 6).setIdentity();
    J.block<3, 3>(6, 6) = nd.R;
    J.block<3, 3>(6, 0) = skew(nd.R * nd.v);
    C = (J * C * J.transpose()).eval();
    Cs = (J * Cs * J.transpose()).eval();
    Eigen::MatrixXd T(9, 9);
    double eps = tight ? 1e-4 : 0.02;
    for (int i = 0; i < 9; i++)
      for (int j = 0; j < 9; j++)
        T(i, j) = eps * std::sqrt(C(i, i) * C(j, j)) + 1.3 * std::abs(C(i, j) - Cs(i, j));
    int ri, ci;
    double rel = max_rel(P.topLeftCorner(9, 9), Cs, T, ri, ci);
    res.maxi(tight ? "cov_tight" : "cov_loose", rel);
    if (!(rel <= 1)) {
      res.fail("covariance", "prediction for %.6f from %.6f: covariance (%d,%d) is %.6g, expected %.6g (allowed difference %.2g)", tq, t0, ri, ci, P(ri, ci), C(ri, ci),
               T(ri, ci));
      stop = true;
      return;
    }
    if (P.block(0, 9, 9, 3).norm() != 0 || P.block(9, 0, 3, 9).norm() != 0 || !P.allFinite() || !(P(9, 9) > 0)) {
      res.fail("covariance", "prediction for %.6f: malformed angular velocity covariance", tq);
      stop = true;
      return;
    }
    if (!on_stamp)
      exact = false;
    Hash h;
    h.u64(kn.size());
    h.u64(tight * 2 + on_stamp);
    h.u64(st->_clones_IMU.size());
    res.states.insert(h.h);
  };
  Hooks h;
  h.after_imu = [&]() {
    int i = (int)fed++;
    if (!p.imu_drop.count(i))
      good.push_back(w.imu[i]);
    if (every > 0 && i % every == 0 && !p.imu_drop.count(i))
      ask(w.imu[i].t);
    auto rg = asks.equal_range(i);
    for (auto it = rg.first; it != rg.second; ++it) {
      double back = it->second.first;
      int kb = (int)back;
      double fr = back - kb;
      if ((int)good.size() < kb + 3)
        continue;
      double tq = good[good.size() - 1 - kb].t;
      if (fr > 0)
        tq = (1 - fr) * tq + fr * good[good.size() - 2 - kb].t;
      for (int n = 0; n < it->second.second; n++)
        ask(tq);
    }
  };
  h.after_frame = [&](int k, const Frame &f) {
    if (stop)
      return false;
    exact = true;
    res.hash.u64(snapshot(st).h);
    auto rg = askf.equal_range(k);
    for (auto it = rg.first; it != rg.second; ++it) {
      int kb = (int)it->second;
      double fr = it->second - kb;
      if ((int)good.size() < kb + 3)
        continue;
      double tq = good[good.size() - 1 - kb].t;
      if (fr > 0)
        tq = (1 - fr) * tq + fr * good[good.size() - 2 - kb].t;
      ask(tq);
    }
    return !stop;
  };
  play(v, s, p, h, res);
  res.nontrivial = res.stats["requests"] > 2;
}
void register_c05() { register_property("C05", {c05_gen, c05_run, 60}); }
} // namespace sim
