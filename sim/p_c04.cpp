// C04: propagation against an independent integrator.
#include "vio_common.h"
#include "vio_ref.h"
namespace sim {
using namespace ov_msckf;

static Eigen::MatrixXd rand_spd(Rng &r, int n) {
  Eigen::MatrixXd A(n, n), P;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      A(i, j) = r.gauss();
  P = A * A.transpose() / n + 0.3 * Eigen::MatrixXd::Identity(n, n);
  for (int i = 0; i < n; i++) {
    double s = r.uni(0.5, 2);
    P.row(i) *= s;
    P.col(i) *= s;
  }
  return 0.5 * (P + P.transpose());
}
static std::vector<std::shared_ptr<ov_type::Type>> all_vars(const std::shared_ptr<State> &st) {
  std::map<int, std::shared_ptr<ov_type::Type>> m;
  m[st->_imu->id()] = st->_imu;
  auto add = [&](const std::shared_ptr<ov_type::Type> &t) {
    if (t && t->id() >= 0)
      m[t->id()] = t;
  };
  add(st->_calib_imu_dw), add(st->_calib_imu_da), add(st->_calib_imu_tg), add(st->_calib_imu_GYROtoIMU), add(st->_calib_imu_ACCtoIMU);
  add(st->_calib_dt_CAMtoIMU);
  for (int i = 0; i < st->_options.num_cameras; i++)
    add(st->_calib_IMUtoCAM.at(i)), add(st->_cam_intrinsics.at(i));
  for (auto &c : st->_clones_IMU)
    add(c.second);
  std::vector<std::shared_ptr<ov_type::Type>> v;
  for (auto &p : m)
    v.push_back(p.second);
  return v;
}

static void c04_gen(Scenario &s, Rng &r) {
  if (r.chance(0.35)) { // mode 1: the whole estimator on images without features
    gen_vio_params(s, r, 2.0, 4.0);
    s.set("mode", 1);
    double m = r.uni();
    s.set("dt", m < 0.3 ? 0.0 : m < 0.6 ? r.uni(-0.05, 0.05) : r.uni(-0.28, 0.28));
    s.set("duration", r.uni(2.0, 4.0));
    int NI, NF;
    frames_of(s, NI, NF);
    for (int i = 0, n = r.range(0, 6); i < n; i++)
      s.item("lead %d %d", r.range(0, NF - 1), r.range(1, 60));
    gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(1, 10), true, true, false);
    return;
  }
  s.set("mode", 0);
  s.set("imu_rate", r.pick(std::vector<int>{20, 50, 100, 200, 200, 400, 1000}));
  s.set("imu_jitter", r.chance(0.6) ? r.uni(0.05, 0.95) : 0.0);
  s.set("cam_rate", r.pick(std::vector<int>{4, 10, 20, 30}));
  s.set("cam_jitter", r.chance(0.5) ? r.uni(0, 0.5) : 0.0);
  s.set("steps", r.range(1, 5));
  s.set("dt", r.chance(0.7) ? r.uni(-0.2, 0.2) : 0.0);
  s.set("wmag", r.pick(std::vector<double>{0.0, 1e-3, 6e-3, 0.2, 1.0, 1.0, 3.0}));
  s.set("amag", r.pick(std::vector<double>{0.1, 2.0, 10.0}));
  s.set("noise_log", r.uni(-4, 0));
  s.set("pscale", r.pick(std::vector<double>{1e-3, 0.1, 1, 1}));
  s.set("fej", r.range(0, 1));
  s.set("integration", r.range(0, 2));
  s.set("imu_model", r.range(0, 1));
  s.set("calib_imu", r.range(0, 1));
  s.set("calib_g", r.range(0, 1));
  s.set("calib_dt", r.range(0, 1));
  s.set("calib_pose", r.range(0, 1));
  s.set("calib_intr", r.range(0, 1));
  s.set("ncams", r.range(1, 3));
  int K = s.in("steps");
  int NI = (int)(s.num("imu_rate") * ((K + 1) / s.num("cam_rate") + 0.9));
  for (int i = 0, n = r.range(0, 4); i < n; i++) {
    switch (r.range(0, 3)) {
    case 0:
      s.item("drop_imu %d %d", r.range(2, NI), r.range(1, std::max(1, (int)(s.num("imu_rate") * 0.045))));
      break;
    case 1:
      s.item("dup_imu %d", r.range(2, NI));
      break;
    case 2:
      s.item("old_imu %d %d", r.range(12, NI), r.range(0, 11));
      break;
    case 3:
      s.item("lead %d %d", r.range(0, K), r.range(1, 30));
      break;
    }
  }
  for (int i = 0, n = r.range(0, 3); i < n; i++)
    s.item("stamp %d %g", r.range(0, K), r.pick(std::vector<double>{0, 0, 1e-9, -1e-9, 1e-7, -1e-7, 5e-13, -5e-13, 1e-5, -1e-5}));
  for (int k = 0; k < K; k++)
    if (r.chance(0.7))
      s.item("update %d", k);
  if (s.in("calib_dt"))
    for (int k = 2; k <= K; k++)
      if (r.chance(0.5))
        s.item("setdt %d %.6f", k, s.num("dt") + r.uni(-0.02, 0.02));
}

static void c04_direct(const Scenario &s, Result &res) {
  Rng r(Rng::derive(s.seed, "c04"));
  StateOptions so;
  so.do_fej = s.in("fej");
  so.integration_method = (StateOptions::IntegrationMethod)s.in("integration");
  so.imu_model = s.in("imu_model") ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  so.do_calib_imu_intrinsics = s.in("calib_imu");
  so.do_calib_imu_g_sensitivity = s.in("calib_g");
  so.do_calib_camera_timeoffset = s.in("calib_dt");
  so.do_calib_camera_pose = s.in("calib_pose");
  so.do_calib_camera_intrinsics = s.in("calib_intr");
  so.num_cameras = s.in("ncams", 1);
  so.max_clone_size = 20;
  ov_core::Printer::setPrintLevel("SILENT");
  auto st = std::make_shared<State>(so);
  double nl = std::pow(10.0, s.num("noise_log", -3));
  NoiseManager nm;
  nm.sigma_w = nl * r.uni(0.3, 3), nm.sigma_a = nl * r.uni(0.3, 3), nm.sigma_wb = nl * r.uni(0.3, 3), nm.sigma_ab = nl * r.uni(0.3, 3);
  nm.sigma_w_2 = nm.sigma_w * nm.sigma_w, nm.sigma_a_2 = nm.sigma_a * nm.sigma_a;
  nm.sigma_wb_2 = nm.sigma_wb * nm.sigma_wb, nm.sigma_ab_2 = nm.sigma_ab * nm.sigma_ab;
  double g = r.uni(9.7, 9.9);
  Propagator prop(nm, g);
  Noise_ nz{nm.sigma_w, nm.sigma_a, nm.sigma_wb, nm.sigma_ab};

  // signal
  double wm = s.num("wmag", 1), am = s.num("amag", 5);
  V3 W0, W1, A0, A1;
  for (int i = 0; i < 3; i++)
    W0(i) = r.uni(-1, 1) * wm, W1(i) = r.uni(-1, 1) * wm, A0(i) = r.uni(-1, 1) * am, A1(i) = r.uni(-1, 1) * am;
  double f0 = r.uni(2, 25), f1 = r.uni(2, 25), q0 = r.uni(0, 6), q1 = r.uni(0, 6);
  V3 gb = V3(r.gauss(), r.gauss(), r.gauss()).normalized() * 9.8;
  auto sig = [&](double t) {
    ImuS m;
    m.t = t;
    m.w = W0 * std::sin(f0 * t + q0) + W1 * std::cos(f1 * t + q1);
    m.a = gb + A0 * std::sin(f1 * t + q0) + A1 * std::cos(f0 * t + q1);
    return m;
  };
  // times
  int K = s.in("steps", 3);
  double per = 1 / s.num("imu_rate", 200), cper = 1 / s.num("cam_rate", 10), t_begin = 10 + r.uni(0, 0.2), dt0 = s.num("dt");
  std::vector<double> tc{t_begin};
  for (int k = 1; k <= K; k++)
    tc.push_back(t_begin + cper * (k + r.uni(-0.5, 0.5) * s.num("cam_jitter")));
  std::vector<double> offs(K + 1, dt0);
  std::set<int> upd, drop, dup;
  std::multimap<int, int> old;
  std::map<int, int> lead;
  std::vector<std::pair<int, double>> stamps;
  for (auto &l : s.items) {
    Item it = parse_item(l);
    if (it.op == "drop_imu")
      for (int i = 0; i < it.in(1); i++)
        drop.insert(it.in(0) + i);
    else if (it.op == "dup_imu")
      dup.insert(it.in(0));
    else if (it.op == "old_imu")
      old.insert({it.in(0), it.in(1)});
    else if (it.op == "lead")
      lead[it.in(0)] += it.in(1);
    else if (it.op == "stamp")
      stamps.push_back({it.in(0), it.at(1)});
    else if (it.op == "update")
      upd.insert(it.in(0));
    else if (it.op == "setdt" && it.in(0) >= 2 && it.in(0) <= K)
      for (int k = it.in(0); k <= K; k++)
        offs[k] = it.at(1);
    else
      continue;
    res.stat("fault." + it.op);
  }
  // interval ends on the inertial clock: end k is tc[k]+offs[k]
  double ta = tc[0] + dt0 - std::max(0.12, 2.2 * per), tb = tc[K] + offs[K] + 0.25 + 2 * per;
  std::vector<ImuS> raw;
  for (int i = 0; ta + per * i < tb; i++)
    raw.push_back(sig(ta + per * (i + 0.5 * r.uni(-1, 1) * s.num("imu_jitter"))));
  for (auto &p : stamps)
    if (p.first >= 0 && p.first <= K) {
      double want = tc[p.first] + offs[p.first] + p.second;
      size_t b = 0;
      for (size_t i = 0; i < raw.size(); i++)
        if (std::abs(raw[i].t - want) < std::abs(raw[b].t - want))
          b = i;
      if ((b == 0 || raw[b - 1].t < want) && (b + 1 == raw.size() || raw[b + 1].t > want))
        raw[b] = sig(want);
    }
  // initial state
  auto rq = [&](double s_) -> Eigen::Vector4d { return jpl_from_R(so3_exp(V3(r.gauss(), r.gauss(), r.gauss()) * s_)); };
  auto randv = [&](int n, double s_) {
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; i++)
      v(i) = r.gauss() * s_;
    return v;
  };
  bool first_update = true;
  auto fake_update = [&](int k) {
    // move every estimate (not its first estimate), as a filter update does
    Eigen::VectorXd x = st->_imu->value();
    double sc = first_update ? 1.0 : 0.003;
    if (first_update) {
      x.segment(0, 4) = rq(1.0);
      x.segment(4, 3) = randv(3, 5);
      x.segment(7, 3) = randv(3, 2);
      x.segment(10, 3) = randv(3, 0.05);
      x.segment(13, 3) = randv(3, 0.3);
      st->_imu->set_value(x);
      st->_imu->set_fej(x);
    }
    x.segment(0, 4) = jpl_from_R(so3_exp(randv(3, 0.002)) * R_from_jpl(x.segment(0, 4)));
    x.segment(4, 3) += randv(3, 0.05);
    x.segment(7, 3) += randv(3, 0.1);
    x.segment(10, 3) += randv(3, 0.002);
    x.segment(13, 3) += randv(3, 0.01);
    st->_imu->set_value(x);
    if (first_update || so.do_calib_imu_intrinsics) {
      Eigen::VectorXd d(6), I(6);
      I << 1, 0, 0, 1, 0, 1;
      if (so.imu_model == StateOptions::ImuModel::RPNG)
        I << 1, 0, 1, 0, 0, 1;
      st->_calib_imu_dw->set_value(first_update ? Eigen::VectorXd(I + randv(6, 0.05)) : Eigen::VectorXd(st->_calib_imu_dw->value() + randv(6, sc)));
      st->_calib_imu_da->set_value(first_update ? Eigen::VectorXd(I + randv(6, 0.05)) : Eigen::VectorXd(st->_calib_imu_da->value() + randv(6, sc)));
      st->_calib_imu_tg->set_value(first_update ? Eigen::VectorXd(randv(9, 0.01)) : Eigen::VectorXd(st->_calib_imu_tg->value() + randv(9, sc)));
      st->_calib_imu_GYROtoIMU->set_value(rq(0.05));
      st->_calib_imu_ACCtoIMU->set_value(rq(0.05));
    }
    Eigen::MatrixXd dtv(1, 1);
    dtv(0, 0) = offs[std::min(k + 1, K)];
    (void)dtv;
    auto vars = all_vars(st);
    int n = 0;
    for (auto &v : vars)
      n += v->size();
    double ps = s.num("pscale", 1);
    StateHelper::set_initial_covariance(st, ps * ps * rand_spd(r, n), vars);
    first_update = false;
  };
  Eigen::MatrixXd dtv(1, 1);
  dtv(0, 0) = dt0;
  st->_calib_dt_CAMtoIMU->set_value(dtv);
  st->_timestamp = tc[0];
  fake_update(0);

  std::vector<ImuS> good; // what the reference may use: the accepted readings
  size_t ii = 0;
  auto feed = [&]() {
    int i = (int)ii++;
    double oldest = r.chance(0.5) ? -1.0 : st->_timestamp + offs[0] - r.uni(0.03, 0.3);
    if (drop.count(i) && i > 1)
      return;
    prop.feed_imu(to_imu(raw[i]), oldest);
    good.push_back(raw[i]);
    if (dup.count(i))
      prop.feed_imu(to_imu(raw[i]), oldest);
    auto rg = old.equal_range(i);
    for (auto it = rg.first; it != rg.second; ++it)
      if (it->second < i && it->second >= 0 && !drop.count(it->second))
        prop.feed_imu(to_imu(raw[it->second]), -1);
  };
  double last_off = dt0;
  double max_gap = 0;
  for (int k = 1; k <= K; k++) {
    if (k > 1 && upd.count(k - 1))
      fake_update(k - 1);
    dtv(0, 0) = offs[k];
    st->_calib_dt_CAMtoIMU->set_value(dtv);
    double t0 = tc[k - 1] + last_off, t1 = tc[k] + offs[k];
    if (!(t1 > t0) || !(tc[k] > tc[k - 1]))
      return;
    while (ii < raw.size() && (good.empty() || good.back().t < t1))
      feed();
    for (int n = 0; n < lead[k] && ii < raw.size(); n++)
      feed();
    std::vector<ImuS> kn;
    if (!knots(good, t0, t1, kn))
      return; // not covered
    for (size_t i = 0; i + 1 < kn.size(); i++)
      max_gap = std::max(max_gap, kn[i + 1].t - kn[i].t);

    Nav n0 = nav_of(st), nref = n0;
    FejPt fej;
    fej.use = so.do_fej;
    fej.R = st->_imu->Rot_fej(), fej.p = st->_imu->pos_fej(), fej.v = st->_imu->vel_fej();
    double dth = so3_log(n0.R * fej.R.transpose()).norm();
    Eigen::MatrixXd C0 = StateHelper::get_full_covariance(st);
    int D0 = (int)C0.rows();
    std::map<double, Eigen::VectorXd> clones0;
    for (auto &c : st->_clones_IMU)
      clones0[c.first] = c.second->value();
    std::vector<Eigen::VectorXd> other0;
    auto vars0 = all_vars(st);
    for (auto &v : vars0)
      other0.push_back(v->value());

    prop.propagate_and_clone(st, tc[k]);
    last_off = offs[k];
    res.stat("propagations");

    // ---- mean
    RefMethod rm = method_of(st, true);
    ref_mean(nref, kn, g, rm);
    Nav n1 = nav_of(st);
    MeanTol tol;
    tol.th = 1e-9, tol.v = 1e-9 * (1 + n0.v.norm()), tol.p = 1e-9 * (1 + n0.p.norm());
    tol.add(n0, kn, so.integration_method);
    double eth = so3_log(n1.R * nref.R.transpose()).norm(), ep = (n1.p - nref.p).norm(), ev = (n1.v - nref.v).norm();
    res.maxi("mean_err_over_tol", std::max({eth / tol.th, ep / tol.p, ev / tol.v}));
    Hash h;
    h.m(st->_imu->value());
    Eigen::MatrixXd C1 = StateHelper::get_full_covariance(st);
    h.m(C1);
    res.hash.u64(h.h);
    res.simtime += t1 - t0;
    if (!(eth <= tol.th && ep <= tol.p && ev <= tol.v)) {
      res.fail("mean", "step %d: orientation off by %.3g (allowed %.3g), position %.3g (%.3g), velocity %.3g (%.3g) over %.4f s, %d readings", k, eth, tol.th,
               ep, tol.p, ev, tol.v, t1 - t0, (int)kn.size());
      return;
    }
    if (st->_timestamp != tc[k]) {
      res.fail("time", "state time %.9f, wanted %.9f", st->_timestamp, tc[k]);
      return;
    }
    if (n1.bg != n0.bg || n1.ba != n0.ba) {
      res.fail("bias", "propagation moved the biases");
      return;
    }
    for (size_t i = 1; i < vars0.size(); i++)
      if (vars0[i]->value() != other0[i]) {
        res.fail("others", "propagation moved variable %d", (int)i);
        return;
      }
    for (auto &c : clones0)
      if (!st->_clones_IMU.count(c.first) || st->_clones_IMU.at(c.first)->value() != c.second) {
        res.fail("others", "propagation moved an old clone");
        return;
      }
    // ---- clone
    if (!st->_clones_IMU.count(tc[k]) || (int)C1.rows() != D0 + 6) {
      res.fail("clone", "no clone at the new time (covariance %d -> %d)", D0, (int)C1.rows());
      return;
    }
    auto cl = st->_clones_IMU.at(tc[k]);
    if (cl->value() != st->_imu->pose()->value() || cl->fej() != st->_imu->pose()->fej() || cl->id() != D0) {
      res.fail("clone", "clone differs from the propagated pose by %.3g", (cl->value() - st->_imu->pose()->value()).norm());
      return;
    }
    if (st->_imu->fej() != st->_imu->value()) {
      res.fail("fej", "after propagation the first estimate is not the propagated value");
      return;
    }
    // ---- covariance
    RefErr e = referr_of(st);
    int N = e.size(), id = st->_imu->id();
    RefMethod rc = method_of(st, false);
    auto expect = [&](RefMethod mean, RefMethod how, Eigen::MatrixXd &E) {
      Eigen::MatrixXd Phi, Q;
      ref_chain(n0, kn, g, mean, how, e, nz, fej, Phi, Q);
      Eigen::MatrixXd T = Eigen::MatrixXd::Identity(D0, D0);
      T.block(id, id, N, N) = Phi;
      Eigen::MatrixXd P = T * C0 * T.transpose();
      P.block(id, id, N, N) += Q;
      Eigen::MatrixXd M = Eigen::MatrixXd::Zero(D0 + 6, D0);
      M.topRows(D0).setIdentity();
      M.block(D0, id, 6, 6).setIdentity();
      if (so.do_calib_camera_timeoffset) {
        V3 w, a;
        n1.correct(kn.back().w, kn.back().a, w, a);
        int c = st->_calib_dt_CAMtoIMU->id();
        M.block(D0, c, 3, 1) = w;
        M.block(D0 + 3, c, 3, 1) = n1.v;
      }
      E = M * P * M.transpose();
    };
    Eigen::MatrixXd E;
    expect(rm, rc, E);
    Eigen::MatrixXd tolm(D0 + 6, D0 + 6);
    double amx = 0;
    for (auto &q : kn)
      amx = std::max(amx, q.a.norm() + q.w.norm());
    double extra = 1e-7 + 8 * tol.cov + (so.do_fej && rc == REF_DISCRETE ? dth * (kn[1].t - kn[0].t) * (4 + 2 * amx) : 0);
    for (int i = 0; i < D0 + 6; i++)
      for (int j = 0; j < D0 + 6; j++)
        tolm(i, j) = extra * std::sqrt(E(i, i) * E(j, j));
    if (so.integration_method == StateOptions::IntegrationMethod::RK4) {
      // the transition uses the propagated end point, hence its integration error
      for (int i = 0; i < D0 + 6; i++)
        for (int j = 0; j < D0 + 6; j++)
          tolm(i, j) += 20 * (tol.th + tol.v + tol.p) * std::sqrt(E(i, i) * E(j, j));
    }
    int ri, ci;
    double rel = max_rel(C1, E, tolm, ri, ci);
    res.maxi(rc == REF_DISCRETE ? "cov_over_tol_discrete" : so.integration_method == StateOptions::IntegrationMethod::RK4 ? "cov_over_tol_rk4" : "cov_over_tol_analytic", rel);
    if (!(rel <= 1)) {
      res.fail("covariance", "step %d: entry (%d,%d) is %.9g, expected %.9g (allowed difference %.3g), method %d", k, ri, ci, C1(ri, ci), E(ri, ci), tolm(ri, ci),
               s.in("integration"));
      return;
    }
    Hash ab;
    ab.u64(kn.size());
    ab.u64(so.integration_method);
    ab.u64(N);
    ab.u64(D0);
    res.states.insert(ab.h);
  }
  res.nontrivial = res.stats["propagations"] > 0;
}

// The whole estimator, images without any observation: every estimate must be the pure integration of what was delivered.
static void c04_blank(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  Plan p = Plan::from(s, w, &res);
  for (int k = 0; k < (int)w.frames.size(); k++)
    p.blank.insert(k);
  VioSim v(s, w, true);
  v.start(s.seed, 0.5);
  auto st = v.st();
  double g = v.opt.gravity_mag, last_t = st->_timestamp;
  double dt = v.dt_est();
  std::vector<ImuS> good;
  Nav n = nav_of(st);
  RefErr e = referr_of(st);
  std::vector<std::shared_ptr<ov_type::Type>> vars{st->_imu};
  for (auto &t : all_vars(st))
    if (t != st->_imu && t->id() < st->_imu->id() + e.size())
      vars.push_back(t);
  Eigen::MatrixXd P = StateHelper::get_marginal_covariance(st, vars);
  Noise_ nz{v.opt.imu_noises.sigma_w, v.opt.imu_noises.sigma_a, v.opt.imu_noises.sigma_wb, v.opt.imu_noises.sigma_ab};
  MeanTol tol;
  double cov_extra = 0;
  int frames = 0;
  // the delivered readings, strictly newer ones only
  Hooks h;
  size_t fed = 0;
  h.after_imu = [&]() {
    int i = (int)fed++;
    if (!p.imu_drop.count(i))
      good.push_back(w.imu[i]);
  };
  h.after_frame = [&](int k, const Frame &f) {
    if (f.t == last_t)
      return true;
    std::vector<ImuS> kn;
    if (!knots(good, last_t + dt, f.t + dt, kn))
      return false;
    std::vector<ImuS> tmp;
    if (!(nav_of(st).R.allFinite())) {
      res.fail("mean", "state not finite");
      return false;
    }
    FejPt fej; // value and first estimate agree: nothing ever updates
    Eigen::MatrixXd Phi, Q;
    if (P.size()) {
      ref_chain(n, kn, g, method_of(st, true), method_of(st, false), e, nz, fej, Phi, Q);
      P = Phi * P * Phi.transpose() + Q;
      MeanTol t2;
      t2.add(n, kn, st->_options.integration_method);
      cov_extra += t2.cov + 2e-5 * (f.t - last_t);
    }
    tol.add(n, kn, st->_options.integration_method);
    ref_mean(n, kn, g, method_of(st, true));
    last_t = f.t;
    frames++;
    res.stat("propagations");
    Nav a = nav_of(st);
    res.hash.m(st->_imu->value());
    double eth = so3_log(a.R * n.R.transpose()).norm(), ep = (a.p - n.p).norm(), ev = (a.v - n.v).norm();
    double tth = tol.th * 2 + 1e-9 * frames, tp = tol.p * 2 + 1e-8 * frames, tv = tol.v * 2 + 1e-8 * frames;
    res.maxi("blank_mean_over_tol", std::max({eth / tth, ep / tp, ev / tv}));
    if (st->_timestamp != f.t || !(eth <= tth && ep <= tp && ev <= tv)) {
      res.fail("mean", "frame %d: pure propagation off by %.3g rad (%.3g) %.3g m (%.3g) %.3g m/s (%.3g), state time %.6f of %.6f", k, eth, tth, ep, tp, ev, tv,
               st->_timestamp, f.t);
      return false;
    }
    Eigen::MatrixXd C = StateHelper::get_marginal_covariance(st, vars), T = C;
    for (int i = 0; i < C.rows(); i++)
      for (int j = 0; j < C.cols(); j++)
        T(i, j) = (1e-6 + 6 * cov_extra) * std::sqrt(P(i, i) * P(j, j));
    int ri, ci;
    double rel = max_rel(C, P, T, ri, ci);
    res.maxi(st->_options.integration_method == StateOptions::IntegrationMethod::RK4 ? "blank_cov_over_tol_rk4" : "blank_cov_over_tol", rel);
    if (!(rel <= 1)) {
      res.fail("covariance", "frame %d: marginal entry (%d,%d) is %.9g, expected %.9g (allowed difference %.3g)", k, ri, ci, C(ri, ci), P(ri, ci), T(ri, ci));
      return false;
    }
    abstract_state(v, st, res, (int)kn.size());
    return true;
  };
  play(v, s, p, h, res);
  res.nontrivial = frames > 5;
}
static void c04_run(const Scenario &s, Result &res) {
  if (s.in("mode"))
    c04_blank(s, res);
  else
    c04_direct(s, res);
}
void register_c04() { register_property("C04", {c04_gen, c04_run, 60}); }
} // namespace sim
