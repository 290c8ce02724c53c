// C10: zero-velocity handling holds still, is inert in motion, and hands over without losing or repeating inertial data.
#include "vio_common.h"
#include "vio_ref.h"
namespace sim {
using namespace ov_msckf;

static void c10_gen(Scenario &s, Rng &r) {
  int mode = r.pick(std::vector<int>{0, 0, 0, 1, 1, 2});
  s.set("mode", mode);
  gen_vio_params(s, r, 3.0, 5.0);
  s.set("zupt", 1);
  s.set("zupt_noise", r.pick(std::vector<double>{1, 10, 10, 50}));
  int NI, NF;
  if (mode == 0) { // stops with features
    s.set("sigma_pix", 0.2);
    s.set("num_pts", r.pick(std::vector<int>{40, 50, 60}));
    s.set("zupt_disp", 0.6);
    s.set("zupt_vel", r.pick(std::vector<double>{0.0, 0.1, 0.5}));
    s.set("zupt_chi2", r.pick(std::vector<double>{0, 1, 1, 1}));
    int ns = r.pick(std::vector<int>{1, 1, 2, 3});
    double t = 10 + r.uni(-2.0, 1.2);
    for (int i = 0; i < ns; i++) {
      double L = r.chance(0.15) ? r.uni(6, 20) : r.uni(1.0, 3.5);
      s.item("stop %.3f %.3f", t, t + L);
      t += L + r.uni(1.3, 2.5);
    }
    s.set("duration", std::round((t - 10 + r.uni(0, 1)) * 10) / 10);
    if (r.chance(0.5))
      s.set("track_break", 0.0);
    frames_of(s, NI, NF);
    gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(0, 10), true, true, false);
    if (r.chance(0.3)) { // a lost stretch of readings as long as several images
      int per = (int)(s.num("imu_rate") / s.num("cam_rate"));
      s.item("drop_imu %d %d", r.range((int)s.num("imu_rate"), NI - 5 * per), r.range(1, 3 * per));
    }
  } else if (mode == 1) { // motion
    bool begin = r.chance(0.35);
    s.set("zupt_begin", begin ? 1 : 0);
    s.set("how", r.range(0, 1)); // which of the two inertial conditions holds the update back
    if (begin && r.chance(0.8)) {
      double a = 10 + r.uni(1.5, 2.2);
      s.item("stop %.3f %.3f", a, a + r.uni(1.0, 2.0));
    }
    frames_of(s, NI, NF);
    gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(0, 6));
  } else { // images without observations: standstill is told from the inertial data alone, then motion
    s.set("calib_dt", 1);
    s.set("max_slam", 0);
    s.set("zupt_vel", r.uni(0.2, 2.0));
    s.set("zupt_disp", 0.5);
    s.set("zupt_chi2", r.pick(std::vector<double>{1, 1, 3, 20, 200}));
    s.set("zupt_begin", r.chance(0.2) ? 1 : 0);
    double t = 9, L = r.uni(1.5, 3.0);
    s.item("stop %.3f %.3f", t, t + L);
    t += L + r.uni(1.0, 2.0);
    if (r.chance(0.6)) {
      L = r.uni(1.0, 2.0);
      s.item("stop %.3f %.3f", t, t + L);
      t += L + r.uni(0.8, 1.5);
    }
    s.set("duration", std::round((t - 10) * 10) / 10);
    frames_of(s, NI, NF);
    gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(0, 6), true, true, false);
    for (int i = 0, n = r.range(0, 6); i < n; i++)
      s.item("setdt %d %.5f", r.range(1, NF - 2), r.uni(-0.02, 0.02));
  }
}

static bool c10_still(const World &w, double t0, double t1) {
  for (int i = 0; i <= 8; i++)
    if (!w.traj.still(t0 + (t1 - t0) * i / 8.0 + w.c.dt))
      return false;
  return true;
}

// ---- A, B, C: standstill
static void c10_hold(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  Plan p = Plan::from(s, w, &res);
  VioSim v(s, w, true);
  v.start(s.seed, 0.5);
  auto st = v.st();
  double last_t = st->_timestamp;
  std::set<std::pair<int, size_t>> last_ids;
  bool was_acc = false, last_still = false;
  int still_seq = 0, size = st->max_covariance_size(), acc_n = 0;
  Nav hold;
  Eigen::MatrixXd Ph;
  double t_hold = 0;
  std::vector<ImuS> good;
  size_t fed = 0;
  Nav n0 = nav_of(st);
  M3 Rfej = R_from_jpl(st->_imu->quat_fej());
  Eigen::MatrixXd P0 = StateHelper::get_full_covariance(st);
  double used = v.dt_est(), now = used;
  double sw = v.opt.imu_noises.sigma_w, sa = v.opt.imu_noises.sigma_a, swb = v.opt.imu_noises.sigma_wb, sab = v.opt.imu_noises.sigma_ab;
  Hooks h;
  h.after_imu = [&]() {
    int i = (int)fed++;
    if (!p.imu_drop.count(i))
      good.push_back(w.imu[i]);
  };
  // an accepted image must add the information "no rotation, gravity is the only force" of the readings since the last image, nothing else
  auto check_update = [&](int k, const Frame &f) {
    std::vector<ImuS> kn;
    if (!knots(good, last_t + used, f.t + now, kn))
      return true;
    const double S = 1.0 / v.opt.zupt_noise_multiplier;
    int iq = st->_imu->q()->id(), ig = st->_imu->bg()->id(), ia = st->_imu->ba()->id(), N = (int)P0.rows();
    Eigen::MatrixXd L = Eigen::MatrixXd::Zero(9, 9);
    Eigen::VectorXd y = Eigen::VectorXd::Zero(9);
    V3 gv(0, 0, v.opt.gravity_mag);
    for (size_t i = 0; i + 1 < kn.size(); i++) {
      double dt = kn[i + 1].t - kn[i].t;
      V3 wl, al;
      n0.correct(kn[i].w, kn[i].a, wl, al);
      // rotation: true rate 0 = wl - (bias error); force: 0 = al - (bias error) - R g with R = (I - [th]) R0
      double ww = dt / (sw * sw) * S, wa = dt / (sa * sa) * S;
      Eigen::Matrix<double, 3, 9> Hw = Eigen::Matrix<double, 3, 9>::Zero(), Ha = Hw;
      Hw.block<3, 3>(0, 3) = M3::Identity();
      Ha.block<3, 3>(0, 0) = skew((v.opt.state_options.do_fej ? Rfej : n0.R) * gv);
      Ha.block<3, 3>(0, 6) = M3::Identity();
      L += ww * Hw.transpose() * Hw + wa * Ha.transpose() * Ha;
      y += ww * Hw.transpose() * wl + wa * Ha.transpose() * (al - n0.R * gv);
    }
    double T = kn.back().t - kn.front().t;
    Eigen::MatrixXd P = P0;
    P.block<3, 3>(ig, ig) += swb * swb * T * M3::Identity();
    P.block<3, 3>(ia, ia) += sab * sab * T * M3::Identity();
    Eigen::MatrixXd B(N, 9);
    B << P.middleCols(iq, 3), P.middleCols(ig, 3), P.middleCols(ia, 3);
    Eigen::MatrixXd Ps(9, 9);
    Ps << B.middleRows(iq, 3), B.middleRows(ig, 3), B.middleRows(ia, 3);
    Eigen::MatrixXd A = (Eigen::MatrixXd::Identity(9, 9) + L * Ps);
    auto lu = A.fullPivLu();
    Eigen::VectorXd dx = B * lu.solve(y);
    Eigen::MatrixXd E = P - B * lu.solve(L * B.transpose());
    Eigen::MatrixXd C = StateHelper::get_full_covariance(st);
    if (C.rows() != N)
      return true; // reported as growth
    Eigen::MatrixXd Tm(N, N);
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++)
        Tm(i, j) = 1e-5 * std::sqrt(E(i, i) * E(j, j)) + 1e-10 * std::sqrt(P(i, i) * P(j, j));
    int ri, ci;
    double rel = max_rel(C, E, Tm, ri, ci);
    res.maxi("update_cov_over_tol", rel);
    if (!(rel <= 1)) {
      res.fail("update:covariance", "standstill image %d: covariance (%d,%d) is %.9g, expected %.9g from zero rotation and gravity-only force", k, ri, ci, C(ri, ci), E(ri, ci));
      return false;
    }
    Nav n1 = nav_of(st);
    int ii = st->_imu->id();
    double e = 0;
    auto cmp = [&](const V3 &got, const V3 &want, int at) {
      for (int i = 0; i < 3; i++)
        e = std::max(e, std::abs(got(i) - want(i)) / (1e-5 * std::sqrt(P(ii + at + i, ii + at + i)) + 1e-5 * std::abs(dx(ii + at + i)) + 1e-9));
    };
    M3 Rw = so3_exp(-V3(dx.segment<3>(ii))) * n0.R;
    double big = dx.segment<3>(ii).norm();
    V3 dr = so3_log(n1.R * Rw.transpose());
    e = std::max(e, dr.norm() / (1e-7 + 0.5 * big * big * big + 1e-4 * big));
    cmp(n1.p, n0.p + dx.segment<3>(ii + 3), 3);
    cmp(n1.v, n0.v + dx.segment<3>(ii + 6), 6);
    cmp(n1.bg, n0.bg + dx.segment<3>(ii + 9), 9);
    cmp(n1.ba, n0.ba + dx.segment<3>(ii + 12), 12);
    res.maxi("update_mean_over_tol", e);
    res.stat("updates_compared");
    if (!(e <= 1)) {
      res.fail("update:mean", "standstill image %d: the estimate differs from conditioning on zero rotation and gravity-only force (%.3g times the allowed difference)", k, e);
      return false;
    }
    return true;
  };
  h.after_frame = [&](int k, const Frame &f) {
    res.hash.u64(snapshot(st).h);
    if (st->_timestamp != f.t) {
      res.fail("time", "after image %d at %.6f the state is at %.6f", k, f.t, st->_timestamp);
      return false;
    }
    if (f.t == last_t)
      return true;
    std::set<std::pair<int, size_t>> ids;
    int common = 0;
    for (size_t c = 0; c < f.cams.size(); c++)
      for (auto &o : f.obs[c]) {
        ids.insert({f.cams[c], o.id});
        common += last_ids.count({f.cams[c], o.id});
      }
    bool still = c10_still(w, last_t, f.t);
    bool acc = !st->_clones_IMU.count(f.t);
    // landmarks in the state give their tracks to it: only the others tell standstill before the first image was handled so
    still_seq = still && common > 24 && (was_acc || common > 24 + v.opt.state_options.max_slam_features * w.c.ncams) ? still_seq + 1 : 0;
    Hash ah;
    ah.u64(still), ah.u64(acc), ah.u64(was_acc), ah.u64(st->_clones_IMU.size()), ah.u64(std::min(acc_n, 4)), ah.u64(common > 24);
    res.states.insert(ah.h);
    if (acc)
      res.stat("accepted");
    if (acc && !still && getenv("SIM_DBG"))
      fprintf(stderr, "accept in motion t %.3f\n", f.t);
    if (still_seq > 0 && was_acc && !acc) {
      res.fail("hold:missed", "image %d at %.4f: standing still, the last image was handled as standstill, %d tracks continue, but this one was not", k, f.t, common);
      return false;
    }
    if (still_seq > v.opt.state_options.max_clone_size + 5 && !acc) {
      res.fail("hold:missed", "image %d at %.4f: standing still for %d images with tracks and never handled as standstill", k, f.t, still_seq);
      return false;
    }
    int sz = st->max_covariance_size();
    if (acc && sz > size) {
      res.fail("hold:growth", "image %d at %.4f: handled as standstill but the state grew from %d to %d", k, f.t, size, sz);
      return false;
    }
    if (acc) {
      char wh[40];
      snprintf(wh, sizeof wh, "frame %d", k);
      if (!check_structure(st, v.opt, res, wh) || !check_update(k, f))
        return false;
    }
    Nav n = nav_of(st);
    if (acc && still && (!was_acc || !last_still)) {
      hold = n;
      t_hold = f.t;
      Ph = StateHelper::get_marginal_covariance(st, {st->_imu});
      acc_n = 0;
    } else if (acc && still) {
      acc_n++;
      // the update may still move the estimate within what was uncertain when the stop began
      double sp = std::sqrt(Ph.block<3, 3>(3, 3).trace()), sq = std::sqrt(Ph.block<3, 3>(0, 0).trace()), sv = std::sqrt(Ph.block<3, 3>(6, 6).trace());
      double dp = (n.p - hold.p).norm(), dq = so3_log(n.R * hold.R.transpose()).norm(), dv = (n.v - hold.v).norm();
      double T = f.t - t_hold;
      // (slow motion that was taken for standstill leaves the estimate overconfident, hence wide)
      double tp = 15 * sp + 0.1, tq = 40 * sq + 0.05, tv = 50 * sv + 0.1;
      res.maxi("hold_pos_over_bound", dp / tp);
      res.maxi("hold_ori_over_bound", dq / tq);
      res.maxi("hold_vel_over_bound", dv / tv);
      res.maxi("hold_pos", dp);
      res.maxi("hold_ori", dq);
      res.maxi("hold_seconds", T);
      if (!(dp <= tp && dq <= tq && dv <= tv)) {
        res.fail("hold:drift", "image %d: after %.2f s of standstill the pose moved by %.4f m (allowed %.4f) %.5f rad (%.5f), velocity by %.4f (%.4f)", k, T, dp, tp, dq, tq, dv, tv);
        return false;
      }
      res.maxi("hold_speed", n.v.norm());
      res.maxi("hold_speed_over_bound", n.v.norm() / (5 * sv + 0.05));
      Eigen::MatrixXd Pn = StateHelper::get_marginal_covariance(st, {st->_imu});
      // position and velocity uncertainty must not grow (nothing is propagated)
      double gp = Pn.block<3, 3>(3, 3).trace() / Ph.block<3, 3>(3, 3).trace(), gv = Pn.block<3, 3>(6, 6).trace() / Ph.block<3, 3>(6, 6).trace();
      res.maxi("hold_var_growth", std::max(gp, gv));
      if (!(gp <= 1 + 1e-6 && gv <= 1 + 1e-6)) {
        res.fail("hold:covariance", "image %d: position / velocity variance grew by %.8f / %.8f in standstill", k, gp, gv);
        return false;
      }
    }
    was_acc = acc;
    last_still = still;
    size = sz;
    last_t = f.t;
    last_ids = ids;
    used = now;
    now = v.dt_est();
    n0 = nav_of(st);
    Rfej = R_from_jpl(st->_imu->quat_fej());
    P0 = StateHelper::get_full_covariance(st);
    return true;
  };
  h.after_late = [&](int k, const Frame &, const Snap &b) {
    // C03 owns this; a changed state would make the bookkeeping above wrong
    if (snapshot(st).h != b.h) {
      res.fail("late", "a late image changed the estimate: %s", diff_snap(b, snapshot(st)).c_str());
      return false;
    }
    (void)k;
    return true;
  };
  play(v, s, p, h, res);
  res.nontrivial = res.stats["accepted"] > 3;
}

// ---- D: motion
static void c10_inert(const Scenario &s0, Result &res) {
  World w;
  make_world(s0, w);
  double vmin = 1e9;
  for (auto &f : w.frames) {
    M3 R;
    V3 p, v, om, a;
    w.truth(f.t + w.c.dt, R, p, v, om, a);
    if (!(s0.in("zupt_begin") && f.t > 11.4))
      vmin = std::min(vmin, v.norm());
  }
  Scenario s = s0;
  s.set("zupt_disp", 0.1);
  if (s.in("how")) {
    s.set("zupt_vel", 1e3);
    s.set("zupt_chi2", 0.0);
  } else {
    s.set("zupt_vel", 0.4 * vmin);
    s.set("zupt_chi2", 1e6);
  }
  Scenario off = s;
  off.set("zupt", 0);
  std::vector<Snap> ref;
  Plan p = Plan::from(s, w, &res);
  {
    VioSim v(off, w, true);
    v.start(s.seed, 0.5);
    Hooks h;
    h.after_frame = [&](int, const Frame &) {
      ref.push_back(snapshot(v.st()));
      return true;
    };
    play(v, off, p, h, res);
  }
  VioSim v(s, w, true);
  v.start(s.seed, 0.5);
  size_t i = 0;
  double speed = v.st()->_imu->vel().norm();
  Hooks h;
  h.after_frame = [&](int k, const Frame &f) {
    bool applicable = s.in("how") || s.in("zupt_begin") || speed > 1.02 * s.num("zupt_vel");
    if (!applicable)
      return false; // the estimate itself is slow
    Snap a = snapshot(v.st());
    res.hash.u64(a.h);
    if (i >= ref.size() || a.h != ref[i].h) {
      res.fail("inert", "image %d at %.4f (moving): estimates with and without zero-velocity handling differ: %s", k, f.t,
               i < ref.size() ? diff_snap(ref[i], a).c_str() : "missing");
      return false;
    }
    i++;
    abstract_state(v, v.st(), res);
    speed = v.st()->_imu->vel().norm();
    return true;
  };
  play(v, s, p, h, res);
  res.nontrivial = i > 10;
}

// ---- E: hand-over
static void c10_resume(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  Plan p = Plan::from(s, w, &res);
  for (int k = 0; k < (int)w.frames.size(); k++)
    p.blank.insert(k);
  std::map<int, double> setdt;
  for (auto &l : s.items) {
    Item it = parse_item(l);
    if (it.op == "setdt" && it.in(0) < (int)w.frames.size())
      setdt[it.in(0)] = it.at(1);
  }
  VioSim v(s, w, true);
  v.start(s.seed, 0.3);
  auto st = v.st();
  double g = v.opt.gravity_mag;
  std::vector<ImuS> good;
  size_t fed = 0;
  Nav n = nav_of(st);
  double last_t = st->_timestamp, used = v.dt_est();
  bool first = true, was_acc = false;
  Hooks h;
  h.after_imu = [&]() {
    int i = (int)fed++;
    if (!p.imu_drop.count(i))
      good.push_back(w.imu[i]);
  };
  double now = v.dt_est();
  h.after_frame = [&](int k, const Frame &f) {
    res.hash.u64(snapshot(st).h);
    if (st->_timestamp != f.t) {
      res.fail("time", "after image %d at %.6f the state is at %.6f", k, f.t, st->_timestamp);
      return false;
    }
    if (f.t == last_t)
      return true;
    bool acc = !st->_clones_IMU.count(f.t);
    Hash ah;
    ah.u64(acc), ah.u64(was_acc), ah.u64(st->_clones_IMU.size());
    res.states.insert(ah.h);
    if (acc) {
      res.stat("accepted");
      if (s.in("zupt_begin") && res.stats["left"] > 6) {
        res.fail("begin", "image %d: zero-velocity update after motion began although limited to the beginning", k);
        return false;
      }
    } else {
      res.stat(was_acc ? "left" : "propagated");
      std::vector<ImuS> kn;
      if (!first && knots(good, last_t + used, f.t + now, kn)) {
        MeanTol tol;
        Nav m = n;
        tol.add(m, kn, st->_options.integration_method);
        ref_mean(m, kn, g, method_of(st, true));
        Nav a = nav_of(st);
        double eth = so3_log(a.R * m.R.transpose()).norm(), ep = (a.p - m.p).norm(), ev = (a.v - m.v).norm();
        double tth = 2 * tol.th + 2e-8, tp = 2 * tol.p + 1e-7, tv = 2 * tol.v + 1e-7;
        res.maxi("resume_over_tol", std::max({eth / tth, ep / tp, ev / tv}));
        res.stat(was_acc ? "compared_after_stop" : "compared_moving");
        if (!(eth <= tth && ep <= tp && ev <= tv)) {
          res.fail("resume", "image %d at %.4f (last image %s): propagation over the inertial data since then off by %.3g rad (%.3g) %.3g m (%.3g) %.3g m/s (%.3g)", k, f.t,
                   was_acc ? "in standstill" : "in motion", eth, tth, ep, tp, ev, tv);
          return false;
        }
      }
    }
    first = false;
    used = now;
    // the caller may find a better clock offset at any time
    auto q = setdt.find(k);
    if (q != setdt.end()) {
      Eigen::VectorXd d(1);
      d(0) = w.c.dt + q->second;
      // (time does not run backwards between images)
      if (k + 1 < (int)w.frames.size())
        d(0) = std::max(d(0), now - 0.5 * (w.frames[k + 1].t - f.t));
      st->_calib_dt_CAMtoIMU->set_value(d);
      st->_calib_dt_CAMtoIMU->set_fej(d);
    }
    now = v.dt_est();
    n = nav_of(st);
    last_t = f.t;
    was_acc = acc;
    return true;
  };
  play(v, s, p, h, res);
  res.nontrivial = res.stats["accepted"] > 2 && res.stats["compared_after_stop"] > 0;
}

static void c10_run(const Scenario &s, Result &res) {
  switch (s.in("mode")) {
  case 0:
    return c10_hold(s, res);
  case 1:
    return c10_inert(s, res);
  default:
    return c10_resume(s, res);
  }
}
void register_c10() { register_property("C10", {c10_gen, c10_run, 60}); }
} // namespace sim
