// C11: errors stay bounded and consistent with the reported covariance, and recover after faults and outliers.
#include "vio_common.h"
namespace sim {

struct Acc {
  double so = 0, sp = 0, sv = 0, post_o = 0, post_p = 0, mo = 0, mp = 0;
  int n = 0, n2 = 0;
  std::map<std::string, double> cal; // normalised calibration error squared per degree of freedom at the end
  bool finite = true;
};

static double nees(const std::shared_ptr<ov_msckf::State> &st, const std::shared_ptr<ov_type::Type> &v, const Eigen::VectorXd &e) {
  Eigen::MatrixXd P = ov_msckf::StateHelper::get_marginal_covariance(st, {v});
  return e.dot(P.ldlt().solve(e)) / (double)e.size();
}
// normalised errors of everything that is calibrated online
static void calib_nees(VioSim &v, const World &w, std::map<std::string, double> &out) {
  auto st = v.st();
  auto &so = st->_options;
  auto put = [&](const char *k, double x) { out[k] = std::max(out.count(k) ? out[k] : 0.0, x); };
  if (so.do_calib_camera_timeoffset)
    put("dt", nees(st, st->_calib_dt_CAMtoIMU, Eigen::VectorXd::Constant(1, w.c.dt - st->_calib_dt_CAMtoIMU->value()(0))));
  for (int i = 0; i < so.num_cameras; i++) {
    if (so.do_calib_camera_pose) {
      auto c = st->_calib_IMUtoCAM.at(i);
      Eigen::VectorXd e(6);
      e.head(3) = -so3_log(w.cams[i].R_ItoC * R_from_jpl(c->quat()).transpose());
      e.tail(3) = w.cams[i].p_IinC - V3(c->pos());
      put("cam_pose", nees(st, c, e));
    }
    if (so.do_calib_camera_intrinsics) {
      Eigen::VectorXd k(8);
      auto &c = w.cams[i];
      k << c.fx, c.fy, c.cx, c.cy, c.k[0], c.k[1], c.k[2], c.k[3];
      put("cam_intr", nees(st, st->_cam_intrinsics.at(i), k - Eigen::VectorXd(st->_cam_intrinsics.at(i)->value())));
    }
  }
  if (so.do_calib_imu_intrinsics) {
    Eigen::VectorXd id(6);
    if (so.imu_model == ov_msckf::StateOptions::ImuModel::KALIBR)
      id << 1, 0, 0, 1, 0, 1;
    else
      id << 1, 0, 1, 0, 0, 1;
    put("imu_dw", nees(st, st->_calib_imu_dw, id - Eigen::VectorXd(st->_calib_imu_dw->value())));
    put("imu_da", nees(st, st->_calib_imu_da, id - Eigen::VectorXd(st->_calib_imu_da->value())));
  }
}

static void one_world(const Scenario &s, Result &res, Acc &a) {
  World w;
  make_world(s, w);
  Plan p = Plan::from(s, w, &res);
  VioSim v(s, w, true);
  v.start(s.seed, 1.0);
  Hooks h;
  double fault_end = 0;
  for (auto &q : p.fault_spans)
    fault_end = std::max(fault_end, q.second);
  h.after_frame = [&](int, const Frame &f) {
    res.hash.u64(snapshot(v.st()).h);
    Err e = truth_error(v.st(), w);
    if (!(std::isfinite(e.nees_o) && std::isfinite(e.nees_p) && std::isfinite(e.p.norm()))) {
      a.finite = false;
      return false;
    }
    a.so += e.nees_o, a.sp += e.nees_p, a.n++;
    a.mo = std::max(a.mo, e.th.norm()), a.mp = std::max(a.mp, e.p.norm());
    if (f.t > fault_end + 2.0)
      a.post_o += e.nees_o, a.post_p += e.nees_p, a.n2++;
    abstract_state(v, v.st(), res);
    return true;
  };
  play(v, s, p, h, res);
  if (a.finite)
    calib_nees(v, w, a.cal);
}

static void c11_faults(Scenario &s, Rng &r, int NI, int NF, int n) {
  int half = NF * 6 / 10, fi = (int)(s.num("imu_rate") * 1.5), cr = (int)s.num("cam_rate");
  for (int i = 0; i < n; i++) {
    int k = r.range(std::min(10, half / 2), half);
    switch (r.range(0, 5)) {
    case 0:
      s.item("drop_cam %d %d", k, r.range(1, cr / 2));
      break;
    case 1:
      s.item("blank %d %d", k, r.range(1, cr / 2));
      break;
    case 2:
    case 3:
      s.item("outlier %d %d %.1f %.2f", k, r.range(1, 5), r.uni(40, 250), r.uni(0.05, 0.3));
      break;
    case 4:
      s.item("drop_imu %d %d", r.range(fi, (int)(NI * 0.6)), r.range(1, 2));
      break;
    case 5:
      s.item("late_cam %d %d", k, r.range(1, 3));
      break;
    }
  }
}

static void c11_gen(Scenario &s, Rng &r) {
  bool ens = r.chance(0.5);
  gen_vio_params(s, r, ens ? 4 : 6, ens ? 5.5 : 9);
  // configurations for which the filter is expected to be consistent
  s.set("mode", ens ? 1 : 0);
  s.set("fej", 1);
  s.set("max_clones", r.pick(std::vector<int>{6, 8, 11, 11}));
  s.set("num_pts", r.pick(std::vector<int>{30, 40, 50}));
  s.set("max_msckf_upd", r.pick(std::vector<int>{30, 50, 1000}));
  s.set("cam_rate", r.pick(std::vector<int>{8, 10, 12, 15}));
  s.set("chi2", 1.0);
  s.set("imu_rate", r.pick(std::vector<int>{200, 250, 400}));
  s.set("refine", 1);
  s.set("calib_g", 0);
  if (ens) {
    s.set("worlds", 16);
    s.set("ncams", r.pick(std::vector<int>{1, 1, 2, 2, 2}));
    s.set("faults", r.chance(0.5) ? r.range(1, 2) : 0);
    s.set("slam_delay", 0.3);
    s.set("cam_rate", r.pick(std::vector<int>{8, 10}));
    if (s.in("faults") == 0 && r.chance(0.7)) // isolate one estimator feature at a time
      for (const char *k : {"calib_pose", "calib_intr", "calib_dt", "calib_imu"})
        s.set(k, 0);
    return;
  }
  int NI, NF;
  frames_of(s, NI, NF);
  if (r.chance(0.75))
    c11_faults(s, r, NI, NF, r.range(1, 5));
}

static double median(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n == 0 ? 0 : n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]);
}

static void c11_run(const Scenario &s, Result &res) {
  bool multi = s.in("ncams") > 1;
  if (s.in("mode") == 0) {
    Acc a;
    one_world(s, res, a);
    if (!a.finite) {
      res.fail("finite", "estimate or covariance not finite");
      return;
    }
    if (!a.n)
      return;
    res.nontrivial = a.n > 20;
    const char *g = multi ? (s.in("stereo_sync") ? "multi" : "staggered") : "mono";
    auto mx = [&](const char *k, double v) { res.maxi(std::string(g) + "." + k, v); };
    double no = a.so / a.n / 3, np = a.sp / a.n / 3;
    mx("nees_o", no), mx("nees_p", np), mx("err_o_deg", a.mo * 57.3), mx("err_p", a.mp);
    for (auto &c : a.cal)
      mx(("cal." + c.first).c_str(), c.second);
    double po = 0, pp = 0;
    if (a.n2 > 5) {
      po = a.post_o / a.n2 / 3, pp = a.post_p / a.n2 / 3;
      mx("post_nees_o", po), mx("post_nees_p", pp);
    }
    // with one camera (or staggered ones over a short window) rare worlds are barely observable: those are judged by ensembles
    if (multi && s.in("stereo_sync")) {
      if (no > 25 || np > 25 || po > 35 || pp > 35)
        res.fail("consistency", "normalised error squared per axis: orientation %.1f position %.1f, after the faults %.1f %.1f", no, np, po, pp);
      else if (a.mo * 57.3 > 20 || a.mp > 1.5)
        res.fail("bounded", "largest error %.1f deg %.2f m", a.mo * 57.3, a.mp);
      else
        for (auto &c : a.cal)
          if (c.second > 45)
            res.fail("calibration:" + c.first, "normalised error squared per axis of %s is %.1f at the end", c.first.c_str(), c.second);
    }
    return;
  }
  int W = s.in("worlds");
  std::vector<double> no, np, po, pp, mp;
  std::map<std::string, std::vector<double>> cal;
  for (int k = 0; k < W; k++) {
    Scenario q = s;
    q.seed = Rng::derive(s.seed + k * 1000003ULL, "world-of-ensemble");
    q.items.clear();
    if (s.in("faults")) {
      Rng r(Rng::derive(q.seed, "faults"));
      int NI, NF;
      frames_of(s, NI, NF);
      c11_faults(q, r, NI, NF, s.in("faults"));
    }
    Acc a;
    one_world(q, res, a);
    if (!a.finite) {
      res.fail("finite", "estimate or covariance not finite in world %d", k);
      return;
    }
    if (!a.n)
      continue;
    no.push_back(a.so / a.n / 3), np.push_back(a.sp / a.n / 3), mp.push_back(a.mp);
    if (a.n2 > 3)
      po.push_back(a.post_o / a.n2 / 3), pp.push_back(a.post_p / a.n2 / 3);
    for (auto &c : a.cal)
      cal[c.first].push_back(c.second);
  }
  res.nontrivial = (int)no.size() >= 4;
  if ((int)no.size() < 8)
    return;
  const char *g = multi ? "ens.multi" : "ens.mono";
  auto lohi = [&](const char *k, double v) { res.maxi(std::string(g) + "." + k, v), res.maxi(std::string(g) + ".-" + k, -v); };
  double mo = median(no), mpp = median(np);
  lohi("nees_o", mo), lohi("nees_p", mpp), lohi("err_p", median(mp));
  for (auto &c : cal)
    lohi(("cal." + c.first).c_str(), median(c.second));
  if (po.size() >= 8)
    lohi("post_o", median(po)), lohi("post_p", median(pp));
  double hi = multi ? 3.5 : 5.0, lo = 0.2;
  if (mo > hi || mpp > hi || mo < lo || mpp < lo)
    res.fail("consistency-ensemble", "median normalised error squared per axis over %d worlds: orientation %.2f position %.2f", (int)no.size(), mo, mpp);
  for (auto &c : cal)
    if (median(c.second) > 2 * hi)
      res.fail("calibration-ensemble:" + c.first, "median normalised error squared per axis of %s over %d worlds: %.2f", c.first.c_str(), (int)c.second.size(),
               median(c.second));
}
void register_c11() { register_property("C11", {c11_gen, c11_run, 120}); }
} // namespace sim
