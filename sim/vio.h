// The real estimator (VioManager and everything under it) inside the simulated world.
#pragma once
#include "world.h"

#include "cam/CamEqui.h"
#include "cam/CamRadtan.h"
#include "core/VioManager.h"
#include "core/VioManagerOptions.h"
#include "state/Propagator.h"
#include "state/State.h"
#include "state/StateHelper.h"
#include "types/LandmarkRepresentation.h"
#include "utils/print.h"
#include "utils/sensor_data.h"

namespace sim {

using Rep = ov_type::LandmarkRepresentation::Representation;
static const Rep kReps[] = {Rep::GLOBAL_3D,
                            Rep::GLOBAL_FULL_INVERSE_DEPTH,
                            Rep::ANCHORED_3D,
                            Rep::ANCHORED_FULL_INVERSE_DEPTH,
                            Rep::ANCHORED_MSCKF_INVERSE_DEPTH,
                            Rep::ANCHORED_INVERSE_DEPTH_SINGLE};

// Draws a whole configuration (world + estimator) into the scenario.
inline void gen_vio_params(Scenario &s, Rng &r, double dur_lo = 3.5, double dur_hi = 6.5) {
  s.set("duration", std::round(r.uni(dur_lo, dur_hi) * 10) / 10);
  s.set("imu_rate", r.pick(std::vector<int>{100, 150, 200, 200, 250, 400}));
  s.set("cam_rate", r.pick(std::vector<int>{6, 8, 10, 10, 12, 15, 20}));
  s.set("imu_jitter", r.chance(0.3) ? r.uni(0.05, 0.6) : 0.0);
  s.set("cam_jitter", r.chance(0.3) ? r.uni(0.02, 0.3) : 0.0);
  int nc = r.pick(std::vector<int>{1, 1, 1, 2, 2, 3});
  s.set("ncams", nc);
  s.set("stereo_sync", nc == 1 || r.chance(0.6) ? 1 : 0);
  s.set("fisheye", r.chance(0.4) ? 1 : 0);
  s.set("dt", r.chance(0.5) ? r.uni(-0.04, 0.04) : 0.0);
  s.set("num_pts", r.pick(std::vector<int>{12, 20, 30, 40}));
  s.set("sigma_pix", r.pick(std::vector<double>{0.5, 1.0, 1.0, 1.5}));
  s.set("speed", r.uni(0.7, 1.3));
  s.set("rot", r.uni(0.6, 1.3));
  s.set("track_break", r.chance(0.5) ? r.uni(0.0, 0.08) : 0.0);
  // estimator
  s.set("fej", r.chance(0.7) ? 1 : 0);
  s.set("integration", r.range(0, 2));
  s.set("max_clones", r.pick(std::vector<int>{3, 4, 5, 6, 8, 11, 11}));
  s.set("max_slam", r.pick(std::vector<int>{0, 0, 5, 12, 25}));
  s.set("max_slam_upd", r.pick(std::vector<int>{2, 5, 25, 1000}));
  s.set("max_msckf_upd", r.pick(std::vector<int>{5, 20, 50, 1000}));
  s.set("slam_delay", r.pick(std::vector<double>{0.0, 0.5, 1.0}));
  s.set("rep_msckf", r.range(0, 5));
  s.set("rep_slam", r.range(0, 5));
  s.set("calib_pose", r.chance(0.4) ? 1 : 0);
  s.set("calib_intr", r.chance(0.3) ? 1 : 0);
  s.set("calib_dt", r.chance(0.4) ? 1 : 0);
  int ci = r.chance(0.25) ? 1 : 0;
  s.set("calib_imu", ci);
  s.set("calib_g", ci && r.chance(0.5) ? 1 : 0);
  s.set("imu_model", r.range(0, 1));
  s.set("chi2", r.pick(std::vector<double>{1.0, 1.0, 2.0, 5.0}));
  s.set("zupt", 0);
  s.set("refine", r.chance(0.8) ? 1 : 0);
  s.set("tri1d", r.chance(0.2) ? 1 : 0);
}

inline WorldCfg world_cfg(const Scenario &s) {
  WorldCfg c;
  c.duration = s.num("duration", 5);
  c.imu_rate = s.num("imu_rate", 200);
  c.cam_rate = s.num("cam_rate", 10);
  c.imu_jitter = s.num("imu_jitter");
  c.cam_jitter = s.num("cam_jitter");
  c.ncams = s.in("ncams", 1);
  c.stereo_sync = s.in("stereo_sync", 1);
  c.fisheye = s.in("fisheye");
  c.dt = s.num("dt");
  c.num_pts = s.in("num_pts", 30);
  c.sigma_pix = s.num("sigma_pix", 1);
  c.speed = s.num("speed", 1);
  c.rot = s.num("rot", 1);
  c.track_break = s.num("track_break");
  c.noise = s.num("noise", 1);
  return c;
}

inline std::vector<Stop_> world_stops(const Scenario &s) {
  std::vector<Stop_> v;
  for (auto &i : s.items) {
    Item it = parse_item(i);
    if (it.op == "stop")
      v.push_back({it.at(0), it.at(1)});
  }
  return v;
}

inline void make_world(const Scenario &s, World &w) {
  w.c = world_cfg(s);
  w.traj.stops = world_stops(s);
  w.make(Rng::derive(s.seed, "world"));
}

// perturb: draw calibration errors within the estimator's own priors (only for what is calibrated)
inline ov_msckf::VioManagerOptions make_options(const Scenario &s, const World &w, bool perturb) {
  using namespace ov_msckf;
  Rng r(Rng::derive(s.seed, "options"));
  VioManagerOptions o;
  StateOptions &so = o.state_options;
  so.do_fej = s.in("fej", 1);
  so.integration_method = (StateOptions::IntegrationMethod)s.in("integration", 1);
  so.do_calib_camera_pose = s.in("calib_pose");
  so.do_calib_camera_intrinsics = s.in("calib_intr");
  so.do_calib_camera_timeoffset = s.in("calib_dt");
  so.do_calib_imu_intrinsics = s.in("calib_imu");
  so.do_calib_imu_g_sensitivity = s.in("calib_g");
  so.imu_model = s.in("imu_model") ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  so.max_clone_size = s.in("max_clones", 11);
  so.max_slam_features = s.in("max_slam", 0);
  so.max_slam_in_update = s.in("max_slam_upd", 1000);
  so.max_msckf_in_update = s.in("max_msckf_upd", 1000);
  so.max_aruco_features = s.in("max_aruco", 8);
  so.num_cameras = w.c.ncams;
  so.feat_rep_msckf = kReps[s.in("rep_msckf", 0)];
  so.feat_rep_slam = kReps[s.in("rep_slam", 0)];
  so.feat_rep_aruco = kReps[s.in("rep_slam", 0)];
  o.dt_slam_delay = s.num("slam_delay", 1);
  o.try_zupt = s.in("zupt");
  o.zupt_max_velocity = s.num("zupt_vel", 0.1);
  o.zupt_noise_multiplier = s.num("zupt_noise", 10);
  o.zupt_max_disparity = s.num("zupt_disp", 0.5);
  o.zupt_only_at_beginning = s.in("zupt_begin");
  o.record_timing_information = s.in("record");
  o.record_timing_filepath = s.str("record_path", "/tmp/none.txt");
  double inflate = s.num("noise_inflate", 1);
  o.imu_noises.sigma_w = w.c.sigma_w * inflate;
  o.imu_noises.sigma_wb = w.c.sigma_wb * inflate;
  o.imu_noises.sigma_a = w.c.sigma_a * inflate;
  o.imu_noises.sigma_ab = w.c.sigma_ab * inflate;
  o.imu_noises.sigma_w_2 = o.imu_noises.sigma_w * o.imu_noises.sigma_w;
  o.imu_noises.sigma_wb_2 = o.imu_noises.sigma_wb * o.imu_noises.sigma_wb;
  o.imu_noises.sigma_a_2 = o.imu_noises.sigma_a * o.imu_noises.sigma_a;
  o.imu_noises.sigma_ab_2 = o.imu_noises.sigma_ab * o.imu_noises.sigma_ab;
  for (auto *u : {&o.msckf_options, &o.slam_options, &o.aruco_options}) {
    u->chi2_multipler = s.num("chi2", 1);
    u->sigma_pix = w.c.sigma_pix;
    u->sigma_pix_sq = w.c.sigma_pix * w.c.sigma_pix;
  }
  o.zupt_options.chi2_multipler = s.num("zupt_chi2", 1);
  o.gravity_mag = w.c.gravity;
  o.vec_dw << 1, 0, 0, 1, 0, 1;
  o.vec_da << 1, 0, 0, 1, 0, 1;
  o.vec_tg.setZero();
  o.q_ACCtoIMU << 0, 0, 0, 1;
  o.q_GYROtoIMU << 0, 0, 0, 1;
  if (so.imu_model == StateOptions::ImuModel::RPNG) { // columns of an upper triangular matrix
    o.vec_dw << 1, 0, 1, 0, 0, 1;
    o.vec_da << 1, 0, 1, 0, 0, 1;
  }
  if (perturb && so.do_calib_imu_intrinsics) {
    for (int i = 0; i < 6; i++)
      o.vec_dw(i) += 0.002 * r.gauss(), o.vec_da(i) += 0.003 * r.gauss();
  }
  o.calib_camimu_dt = w.c.dt + (perturb && so.do_calib_camera_timeoffset ? 0.006 * r.gauss() : 0.0);
  for (int i = 0; i < w.c.ncams; i++) {
    const Cam &c = w.cams[i];
    Eigen::VectorXd k(8);
    k << c.fx, c.fy, c.cx, c.cy, c.k[0], c.k[1], c.k[2], c.k[3];
    if (perturb && so.do_calib_camera_intrinsics) {
      for (int j = 0; j < 4; j++)
        k(j) += 0.7 * r.gauss();
      for (int j = 4; j < 8; j++)
        k(j) += (c.fisheye ? 0.0015 : (j < 6 ? 0.003 : 0.0006)) * r.gauss();
    }
    if (c.fisheye)
      o.camera_intrinsics.insert({(size_t)i, std::make_shared<ov_core::CamEqui>(c.w, c.h)});
    else
      o.camera_intrinsics.insert({(size_t)i, std::make_shared<ov_core::CamRadtan>(c.w, c.h)});
    o.camera_intrinsics.at(i)->set_value(k);
    M3 R = c.R_ItoC;
    V3 p = c.p_IinC;
    if (perturb && so.do_calib_camera_pose) {
      R = so3_exp(-V3(r.gauss(), r.gauss(), r.gauss()) * 0.004) * R;
      p += V3(r.gauss(), r.gauss(), r.gauss()) * 0.01;
    }
    Eigen::VectorXd e(7);
    e.head(4) = jpl_from_R(R);
    e.tail(3) = p;
    o.camera_extrinsics[i] = e;
  }
  o.use_stereo = false;
  o.use_klt = true;
  o.use_aruco = false;
  o.num_opencv_threads = 0;
  o.use_multi_threading_pubs = false;
  o.use_multi_threading_subs = false;
  o.num_pts = w.c.num_pts;
  o.featinit_options.refine_features = s.in("refine", 1);
  o.featinit_options.triangulate_1d = s.in("tri1d", 0);
  // initializer
  auto &io = o.init_options;
  io.sigma_w = o.imu_noises.sigma_w, io.sigma_wb = o.imu_noises.sigma_wb, io.sigma_a = o.imu_noises.sigma_a, io.sigma_ab = o.imu_noises.sigma_ab;
  io.sigma_pix = w.c.sigma_pix;
  io.gravity_mag = o.gravity_mag;
  io.num_cameras = w.c.ncams;
  io.use_stereo = false;
  io.calib_camimu_dt = o.calib_camimu_dt;
  io.camera_intrinsics = o.camera_intrinsics;
  io.camera_extrinsics = o.camera_extrinsics;
  io.init_dyn_mle_max_threads = 1;
  return o;
}

inline ov_core::ImuData to_imu(const ImuS &m) {
  ov_core::ImuData d;
  d.timestamp = m.t;
  d.wm = m.w;
  d.am = m.a;
  return d;
}

// Everything a user can see of the estimate.
struct Snap {
  double ts = -1;
  Eigen::VectorXd imu;
  Eigen::MatrixXd cov;
  uint64_t h = 0; // of everything below as well
  int nclones = 0, nslam = 0;
};

inline Snap snapshot(const std::shared_ptr<ov_msckf::State> &st, bool with_fej = true) {
  Snap s;
  Hash h;
  s.ts = st->_timestamp;
  h.d(s.ts);
  s.imu = st->_imu->value();
  h.m(s.imu);
  if (with_fej)
    h.m(st->_imu->fej());
  s.cov = ov_msckf::StateHelper::get_full_covariance(st);
  h.m(s.cov);
  for (auto &c : st->_clones_IMU) {
    h.d(c.first);
    h.m(c.second->value());
    if (with_fej)
      h.m(c.second->fej());
    h.u64(c.second->id());
  }
  s.nclones = (int)st->_clones_IMU.size();
  std::map<size_t, std::shared_ptr<ov_type::Landmark>> lm(st->_features_SLAM.begin(), st->_features_SLAM.end());
  for (auto &f : lm) {
    h.u64(f.first);
    h.m(f.second->value());
    h.u64(f.second->id());
    h.d(f.second->_anchor_clone_timestamp);
    h.u64(f.second->_anchor_cam_id);
  }
  s.nslam = (int)lm.size();
  h.m(st->_calib_dt_CAMtoIMU->value());
  for (int i = 0; i < st->_options.num_cameras; i++) {
    h.m(st->_calib_IMUtoCAM.at(i)->value());
    h.m(st->_cam_intrinsics.at(i)->value());
    h.m(st->_cam_intrinsics_cameras.at(i)->get_value());
  }
  h.m(st->_calib_imu_dw->value());
  h.m(st->_calib_imu_da->value());
  h.m(st->_calib_imu_tg->value());
  h.m(st->_calib_imu_GYROtoIMU->value());
  h.m(st->_calib_imu_ACCtoIMU->value());
  s.h = h.h;
  return s;
}

inline std::string diff_snap(const Snap &a, const Snap &b) {
  char t[400];
  double dv = a.imu.size() == b.imu.size() ? (a.imu - b.imu).cwiseAbs().maxCoeff() : -1;
  double dc = a.cov.rows() == b.cov.rows() ? (a.cov - b.cov).cwiseAbs().maxCoeff() : -1;
  snprintf(t, sizeof t, "t %.6f vs %.6f, |d imu| %.3g, |d cov| %.3g, clones %d vs %d, slam %d vs %d, size %d vs %d", a.ts, b.ts, dv, dc, a.nclones,
           b.nclones, a.nslam, b.nslam, (int)a.cov.rows(), (int)b.cov.rows());
  return t;
}

struct VioSim {
  const World &w;
  ov_msckf::VioManagerOptions opt;
  std::unique_ptr<ov_msckf::VioManager> sys;
  double newest_imu = -1;
  double t0; // camera clock start

  VioSim(const Scenario &s, const World &w_, bool perturb) : w(w_), opt(make_options(s, w_, perturb)) {
    ov_core::Printer::setPrintLevel("SILENT");
    sys.reset(new ov_msckf::VioManager(opt));
    t0 = w.c.t_begin;
  }
  // another estimator set up from the very same options object
  VioSim(const World &w_, ov_msckf::VioManagerOptions &shared) : w(w_), opt(shared) {
    sys.reset(new ov_msckf::VioManager(shared));
    t0 = w.c.t_begin;
  }
  std::shared_ptr<ov_msckf::State> st() { return sys->get_state(); }
  // start from the truth (optionally with an error drawn from the initial covariance the filter assumes)
  void start(uint64_t seed, double err_scale) {
    Rng r(Rng::derive(seed, "start"));
    M3 R;
    V3 p, v, om, a;
    w.truth(t0 + w.c.dt, R, p, v, om, a);
    Eigen::Matrix<double, 17, 1> x;
    auto g3 = [&](double s) -> V3 { return V3(r.gauss(), r.gauss(), r.gauss()) * s * err_scale; };
    R = so3_exp(-g3(0.017)) * R;
    x(0) = t0;
    x.segment(1, 4) = jpl_from_R(R);
    x.segment(5, 3) = p + g3(0.05);
    x.segment(8, 3) = v + g3(0.01);
    x.segment(11, 3) = w.bias_g(t0 + w.c.dt) + g3(0.02);
    x.segment(14, 3) = w.bias_a(t0 + w.c.dt) + g3(0.02);
    if (getenv("SIM_DBG")) std::cerr << "start " << x.transpose() << std::endl;
    sys->initialize_with_gt(x);
    // an empty observation set older than the state: only makes the estimator switch to its simulated tracker
    sys->feed_measurement_simulation(t0 - 1.0, {0}, {{}});
  }
  void imu(const ImuS &m) {
    newest_imu = std::max(newest_imu, m.t);
    sys->feed_measurement_imu(to_imu(m));
  }
  void frame(const Frame &f, double t_override = -1) {
    std::vector<int> ids;
    std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> feats;
    for (size_t i = 0; i < f.cams.size(); i++) {
      ids.push_back(f.cams[i]);
      std::vector<std::pair<size_t, Eigen::VectorXf>> v;
      for (auto &o : f.obs[i]) {
        Eigen::VectorXf uv(2);
        uv << o.u, o.v;
        v.push_back({o.id, uv});
      }
      feats.push_back(v);
    }
    sys->feed_measurement_simulation(t_override > 0 ? t_override : f.t, ids, feats);
  }
  double dt_est() { return st()->_calib_dt_CAMtoIMU->value()(0); }
  // an image may be handed over once an inertial reading newer than it (on the inertial clock) arrived
  bool covered(const Frame &f) { return newest_imu > f.t + dt_est(); }
};

// ---------------------------------------------------------------- structural invariants (C02)
inline bool check_structure(const std::shared_ptr<ov_msckf::State> &st, const ov_msckf::VioManagerOptions &o, Result &res, const char *where,
                            int max_aruco_alive = 0) {
  using namespace ov_type;
  auto bad = [&](const char *cls, const std::string &m) {
    res.fail(std::string("structure:") + cls, "%s at t=%.6f (%s)", m.c_str(), st->_timestamp, where);
    return false;
  };
  Eigen::MatrixXd C = ov_msckf::StateHelper::get_full_covariance(st);
  std::vector<std::pair<int, int>> ranges; // id,size
  std::vector<std::pair<std::string, std::shared_ptr<Type>>> vars;
  vars.push_back({"imu", st->_imu});
  auto &so = st->_options;
  if (so.do_calib_imu_intrinsics) {
    vars.push_back({"dw", st->_calib_imu_dw});
    vars.push_back({"da", st->_calib_imu_da});
    if (so.do_calib_imu_g_sensitivity)
      vars.push_back({"tg", st->_calib_imu_tg});
    if (so.imu_model == ov_msckf::StateOptions::ImuModel::KALIBR)
      vars.push_back({"R_gyro", st->_calib_imu_GYROtoIMU});
    else
      vars.push_back({"R_acc", st->_calib_imu_ACCtoIMU});
  }
  if (so.do_calib_camera_timeoffset)
    vars.push_back({"dt", st->_calib_dt_CAMtoIMU});
  for (int i = 0; i < so.num_cameras; i++) {
    if (so.do_calib_camera_pose)
      vars.push_back({"cam_pose", st->_calib_IMUtoCAM.at(i)});
    if (so.do_calib_camera_intrinsics)
      vars.push_back({"cam_intr", st->_cam_intrinsics.at(i)});
  }
  for (auto &c : st->_clones_IMU)
    vars.push_back({"clone", c.second});
  for (auto &f : st->_features_SLAM)
    vars.push_back({"landmark", f.second});
  int sum = 0;
  for (auto &v : vars) {
    if (v.second->id() < 0)
      return bad("index", v.first + " has no covariance index");
    ranges.push_back({v.second->id(), v.second->size()});
    sum += v.second->size();
    if (!v.second->value().allFinite())
      return bad("finite", v.first + " value not finite");
  }
  std::sort(ranges.begin(), ranges.end());
  int pos = 0;
  for (auto &q : ranges) {
    if (q.first != pos)
      return bad("tiling", "variables do not tile the covariance: expected index " + std::to_string(pos) + " got " + std::to_string(q.first));
    pos += q.second;
  }
  if (pos != C.rows() || C.rows() != C.cols() || st->max_covariance_size() != pos)
    return bad("size", "covariance is " + std::to_string(C.rows()) + " for " + std::to_string(sum) + " error states");
  if (!C.allFinite())
    return bad("finite", "covariance not finite");
  Eigen::VectorXd dg = C.diagonal();
  if (dg.minCoeff() < 0)
    return bad("psd", "negative variance");
  Eigen::VectorXd sc = dg.cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
  for (int i = 0; i < sc.size(); i++)
    if (dg(i) <= 1e-30)
      sc(i) = 0;
  Eigen::MatrixXd Cn = sc.asDiagonal() * C * sc.asDiagonal();
  double asym = (Cn - Cn.transpose()).cwiseAbs().maxCoeff();
  res.maxi("asymmetry", asym);
  if (asym > 1e-6)
    return bad("symmetry", "covariance not symmetric: " + std::to_string(asym));
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(0.5 * (Cn + Cn.transpose()), Eigen::EigenvaluesOnly);
  double mn = es.eigenvalues().minCoeff();
  res.maxi("neg_eig", -mn);
  if (mn < -1e-5)
    return bad("psd", "covariance not positive semi-definite: min eigenvalue of the correlation matrix " + std::to_string(mn));
  auto unit = [&](const Eigen::MatrixXd &q) { return std::abs(q.norm() - 1) < 1e-9; };
  if (!unit(st->_imu->quat()))
    return bad("quat", "IMU orientation is not a unit quaternion");
  for (auto &c : st->_clones_IMU) {
    if (!unit(c.second->quat()))
      return bad("quat", "clone orientation is not a unit quaternion");
    if (c.first > st->_timestamp)
      return bad("time", "a clone is newer than the state");
  }
  for (int i = 0; i < so.num_cameras; i++)
    if (!unit(st->_calib_IMUtoCAM.at(i)->quat()))
      return bad("quat", "camera orientation is not a unit quaternion");
  if (!unit(st->_calib_imu_GYROtoIMU->value()) || !unit(st->_calib_imu_ACCtoIMU->value()))
    return bad("quat", "inertial frame rotation is not a unit quaternion");
  if ((int)st->_clones_IMU.size() > o.state_options.max_clone_size)
    return bad("window", "window holds " + std::to_string(st->_clones_IMU.size()) + " clones, configured " + std::to_string(o.state_options.max_clone_size));
  if ((int)st->_features_SLAM.size() > o.state_options.max_slam_features + max_aruco_alive)
    return bad("landmarks", "state holds " + std::to_string(st->_features_SLAM.size()) + " landmarks, configured " + std::to_string(o.state_options.max_slam_features));
  for (auto &f : st->_features_SLAM) {
    if (f.first != f.second->_featid)
      return bad("landmark-id", "landmark stored under another id");
    if (LandmarkRepresentation::is_relative_representation(f.second->_feat_representation)) {
      if (st->_clones_IMU.find(f.second->_anchor_clone_timestamp) == st->_clones_IMU.end())
        return bad("anchor", "landmark anchored in a clone that is not in the window");
      if (f.second->_anchor_cam_id < 0 || f.second->_anchor_cam_id >= so.num_cameras)
        return bad("anchor", "landmark anchored in an unknown camera");
    }
  }
  // online calibration values used for projection are the ones in the state
  for (int i = 0; i < so.num_cameras; i++)
    if ((st->_cam_intrinsics.at(i)->value() - st->_cam_intrinsics_cameras.at(i)->get_value()).norm() != 0)
      return bad("calib", "camera model and state disagree on the intrinsics");
  return true;
}
} // namespace sim
