// C06: the filter's bookkeeping (StateHelper on the real State) against a plain dense Gaussian keyed by variable, over seeded operation histories.
#include "types/IMU.h"
#include "types/JPLQuat.h"
#include "types/Landmark.h"
#include "types/PoseJPL.h"
#include "types/Vec.h"
#include "vio_common.h"
namespace sim {
using namespace ov_msckf;
using namespace ov_type;
using TP = std::shared_ptr<Type>;

// leaf variables of a (composite) type with their offsets
static void leaves(const TP &t, std::vector<std::pair<TP, int>> &o, int at = 0) {
  if (auto i = std::dynamic_pointer_cast<IMU>(t)) {
    leaves(i->pose(), o, at);
    o.push_back({i->v(), at + 6}), o.push_back({i->bg(), at + 9}), o.push_back({i->ba(), at + 12});
  } else if (auto p = std::dynamic_pointer_cast<PoseJPL>(t)) {
    o.push_back({p->q(), at}), o.push_back({p->p(), at + 3});
  } else
    o.push_back({t, at});
}

// The reference: one Gaussian over leaf variables, nothing known about memory layout.
struct RefGauss {
  struct Var {
    TP key;
    bool rot = false;
    M3 R = M3::Identity(); // rotations
    Eigen::VectorXd x;     // everything else
    int at = 0, n = 0;
    double slack = 0; // third order terms of the rotation update are the code's own choice
  };
  std::vector<Var> v;
  Eigen::MatrixXd P;
  int find(const TP &t) const {
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].key == t)
        return (int)i;
    return -1;
  }
  // columns of a (composite) variable
  std::vector<int> cols(const TP &t) const {
    std::vector<std::pair<TP, int>> l;
    leaves(t, l);
    std::vector<int> c;
    for (auto &q : l) {
      int i = find(q.first);
      if (i < 0)
        return {};
      for (int k = 0; k < v[i].n; k++)
        c.push_back(v[i].at + k);
    }
    return c;
  }
  std::vector<int> cols(const std::vector<TP> &t) const {
    std::vector<int> c;
    for (auto &q : t) {
      auto d = cols(q);
      c.insert(c.end(), d.begin(), d.end());
    }
    return c;
  }
  static Var leaf(const TP &t) {
    Var r;
    r.key = t;
    r.n = t->size();
    if (std::dynamic_pointer_cast<JPLQuat>(t)) {
      r.rot = true;
      r.R = R_from_jpl(t->value());
    } else
      r.x = t->value();
    return r;
  }
  // new columns: cov with everything, own block
  void add(const TP &t, const Eigen::MatrixXd &cross, const Eigen::MatrixXd &own) {
    std::vector<std::pair<TP, int>> l;
    leaves(t, l);
    int n0 = (int)P.rows(), n = (int)own.rows();
    Eigen::MatrixXd Q(n0 + n, n0 + n);
    Q.topLeftCorner(n0, n0) = P;
    Q.topRightCorner(n0, n) = cross;
    Q.bottomLeftCorner(n, n0) = cross.transpose();
    Q.bottomRightCorner(n, n) = own;
    P = Q;
    for (auto &q : l) {
      Var x = leaf(q.first);
      x.at = n0 + q.second;
      v.push_back(x);
    }
  }
  void remove(const TP &t) {
    std::vector<std::pair<TP, int>> l;
    leaves(t, l);
    for (auto &q : l) {
      int i = find(q.first);
      if (i < 0)
        continue;
      int at = v[i].at, n = v[i].n;
      std::vector<int> keep;
      for (int k = 0; k < P.rows(); k++)
        if (k < at || k >= at + n)
          keep.push_back(k);
      P = Eigen::MatrixXd(P(keep, keep));
      v.erase(v.begin() + i);
      for (auto &q2 : v)
        if (q2.at > at)
          q2.at -= n;
    }
  }
  void retract(const Eigen::VectorXd &d) {
    for (auto &q : v) {
      if (q.rot) {
        q.R = so3_exp(-V3(d.segment<3>(q.at))) * q.R;
        q.slack += std::pow(d.segment<3>(q.at).norm(), 3) / 4;
      }
      else
        q.x += d.segment(q.at, q.n);
    }
  }
};

static Eigen::MatrixXd rnd(Rng &r, int n, int m, double s = 1) {
  Eigen::MatrixXd a(n, m);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++)
      a(i, j) = s * r.gauss();
  return a;
}

static void c06_gen(Scenario &s, Rng &r) {
  s.set("calib_pose", r.chance(0.5));
  s.set("calib_intr", r.chance(0.5));
  s.set("calib_dt", r.chance(0.5));
  s.set("calib_imu", r.chance(0.4));
  s.set("calib_g", s.in("calib_imu") && r.chance(0.5));
  s.set("imu_model", r.range(0, 1));
  s.set("ncams", r.range(1, 3));
  s.set("max_clones", r.range(2, 6));
  s.set("perm", r.chance(0.6));
  static const std::vector<std::string> ops = {"propagate", "propagate", "propsub", "augment", "augment", "update", "update", "update", "init",      "init",
                                               "initinv",   "clone",     "clonesub", "marg",   "margold", "margslam", "initcov", "marginal", "redundant"};
  int n = r.range(5, 70);
  for (int i = 0; i < n; i++)
    s.item("%s %d", r.pick(ops).c_str(), r.range(1, 1000000000));
}

static void c06_run(const Scenario &s, Result &res) {
  ov_core::Printer::setPrintLevel("SILENT");
  StateOptions so;
  so.do_fej = true;
  so.do_calib_camera_pose = s.in("calib_pose");
  so.do_calib_camera_intrinsics = s.in("calib_intr");
  so.do_calib_camera_timeoffset = s.in("calib_dt");
  so.do_calib_imu_intrinsics = s.in("calib_imu");
  so.do_calib_imu_g_sensitivity = s.in("calib_g");
  so.imu_model = s.in("imu_model") ? StateOptions::ImuModel::RPNG : StateOptions::ImuModel::KALIBR;
  so.num_cameras = s.in("ncams");
  so.max_clone_size = s.in("max_clones");
  so.max_aruco_features = 2;
  auto st = std::make_shared<State>(so);
  for (int i = 0; i < so.num_cameras; i++) {
    Eigen::VectorXd k(8);
    k << 400, 400, 320, 240, 0, 0, 0, 0;
    st->_cam_intrinsics_cameras[i] = std::make_shared<ov_core::CamRadtan>(640, 480);
    st->_cam_intrinsics_cameras[i]->set_value(k);
    st->_cam_intrinsics[i]->set_value(k);
    st->_cam_intrinsics[i]->set_fej(k);
  }
  Rng r0(Rng::derive(s.seed, "start"));
  std::vector<TP> top{st->_imu}; // variables of the state
  if (so.do_calib_imu_intrinsics) {
    top.push_back(st->_calib_imu_dw), top.push_back(st->_calib_imu_da);
    if (so.do_calib_imu_g_sensitivity)
      top.push_back(st->_calib_imu_tg);
    top.push_back(so.imu_model == StateOptions::ImuModel::KALIBR ? std::static_pointer_cast<Type>(st->_calib_imu_GYROtoIMU) : st->_calib_imu_ACCtoIMU);
  }
  if (so.do_calib_camera_timeoffset)
    top.push_back(st->_calib_dt_CAMtoIMU);
  for (int i = 0; i < so.num_cameras; i++) {
    if (so.do_calib_camera_pose)
      top.push_back(st->_calib_IMUtoCAM[i]);
    if (so.do_calib_camera_intrinsics)
      top.push_back(st->_cam_intrinsics[i]);
  }
  size_t fixed = top.size();
  // random start: values and a dense joint covariance
  {
    Eigen::VectorXd x = st->_imu->value();
    x.head<4>() = jpl_from_R(so3_exp(V3(r0.gauss(), r0.gauss(), r0.gauss())));
    x.tail(12) = rnd(r0, 12, 1);
    st->_imu->set_value(x);
    st->_imu->set_fej(x);
  }
  int D = st->max_covariance_size();
  {
    int sum = 0;
    for (auto &t : top)
      sum += t->size();
    if (sum != D) {
      res.fail("size", "a fresh state has %d error states, its variables %d", D, sum);
      return;
    }
    std::vector<TP> ord = top;
    for (size_t i = ord.size() - 1; i > 0; i--)
      std::swap(ord[i], ord[r0.range(0, (int)i)]);
    Eigen::MatrixXd A = rnd(r0, D, D, 0.3 / std::sqrt(D));
    Eigen::MatrixXd P = A * A.transpose() + 0.01 * Eigen::MatrixXd::Identity(D, D);
    StateHelper::set_initial_covariance(st, P, ord);
    // reference in that same shuffled order
  }
  RefGauss g;
  {
    // variables enter the reference in a shuffled order of their own
    std::vector<TP> ord = top;
    for (size_t i = ord.size() - 1; i > 0; i--)
      std::swap(ord[i], ord[r0.range(0, (int)i)]);
    Eigen::MatrixXd P0 = StateHelper::get_marginal_covariance(st, ord);
    int at = 0;
    for (auto &t : ord) {
      Eigen::MatrixXd cr = P0.block(0, at, at, t->size()), ow = P0.block(at, at, t->size(), t->size());
      g.add(t, cr, ow);
      at += t->size();
    }
  }
  double time = 100, tolc = 1e-6, tolm = 1e-7;
  size_t next_feat = 1;
  std::map<TP, Eigen::MatrixXd> fejs;
  st->_timestamp = time;

  auto subvars = [&](Rng &r) -> TP { // any variable, or a part of one
    TP t = r.pick(top);
    if (r.chance(0.5)) {
      std::vector<std::pair<TP, int>> l;
      leaves(t, l);
      if (std::dynamic_pointer_cast<IMU>(t) && r.chance(0.3))
        return std::dynamic_pointer_cast<IMU>(t)->pose();
      return r.pick(l).first;
    }
    return t;
  };
  auto disjoint = [&](Rng &r, int n) {
    std::vector<TP> o;
    std::set<int> used;
    for (int i = 0; i < n; i++) {
      TP t = subvars(r);
      auto c = g.cols(t);
      bool ok = !c.empty();
      for (int k : c)
        ok &= !used.count(k);
      if (!ok)
        continue;
      used.insert(c.begin(), c.end());
      o.push_back(t);
    }
    return o;
  };
  auto width = [](const std::vector<TP> &o) {
    int n = 0;
    for (auto &t : o)
      n += t->size();
    return n;
  };
  // batch conditioning of the reference on res = H dx + noise(r2); optionally a new unknown with Jacobian HL
  auto condition = [&](const std::vector<int> &c, const Eigen::MatrixXd &H, const Eigen::VectorXd &rs, const Eigen::MatrixXd &R) {
    Eigen::MatrixXd Hf = Eigen::MatrixXd::Zero(H.rows(), g.P.rows());
    for (size_t k = 0; k < c.size(); k++)
      Hf.col(c[k]) += H.col(k);
    // information form, so that a mistake in the gain form is not repeated here
    Eigen::LLT<Eigen::MatrixXd> lr(R);
    Eigen::MatrixXd L = Hf.transpose() * lr.solve(Hf);
    Eigen::VectorXd y = Hf.transpose() * lr.solve(rs);
    int N = (int)g.P.rows();
    Eigen::PartialPivLU<Eigen::MatrixXd> lu(Eigen::MatrixXd::Identity(N, N) + g.P * L);
    Eigen::VectorXd d = lu.solve(g.P * y);
    g.P = lu.solve(g.P);
    g.P = (0.5 * (g.P + g.P.transpose())).eval();
    g.retract(d);
  };
  auto check = [&](const char *op, int i) {
    // every variable still where it says it is, nothing missing, nothing extra
    Eigen::MatrixXd C = StateHelper::get_full_covariance(st);
    int sum = 0;
    for (auto &t : top)
      sum += t->size();
    if (sum != C.rows() || C.rows() != C.cols() || g.P.rows() != C.rows()) {
      res.fail("size", "op %d (%s): covariance has %d rows, the variables need %d", i, op, (int)C.rows(), sum);
      return false;
    }
    std::vector<int> where(C.rows(), -1);
    for (auto &q : g.v) {
      if (q.key->id() < 0 || q.key->id() + q.n > C.rows()) {
        res.fail("index", "op %d (%s): a variable points to %d..%d of %d", i, op, q.key->id(), q.key->id() + q.n, (int)C.rows());
        return false;
      }
      for (int k = 0; k < q.n; k++) {
        if (where[q.key->id() + k] >= 0) {
          res.fail("index", "op %d (%s): two variables share row %d", i, op, q.key->id() + k);
          return false;
        }
        where[q.key->id() + k] = q.at + k;
      }
    }
    double worst = 0;
    int wi = 0, wj = 0;
    for (int a = 0; a < C.rows(); a++)
      for (int b = 0; b < C.rows(); b++) {
        double e = g.P(where[a], where[b]), d = std::abs(C(a, b) - e) / (tolc * std::sqrt(g.P(where[a], where[a]) * g.P(where[b], where[b])) + 1e-14);
        if (!(d <= worst))
          worst = d, wi = a, wj = b;
      }
    res.maxi("cov_over_tol", worst);
    if (!(worst <= 1)) {
      res.fail("covariance", "op %d (%s): covariance (%d,%d) is %.10g, the plain Gaussian has %.10g", i, op, wi, wj, C(wi, wj), g.P(where[wi], where[wj]));
      return false;
    }
    double wm = 0;
    for (auto &q : g.v) {
      double d;
      if (q.rot)
        d = std::max(0.0, so3_log(R_from_jpl(q.key->value()) * q.R.transpose()).norm() - q.slack);
      else
        d = (q.key->value() - q.x).cwiseAbs().maxCoeff() / (1 + q.x.cwiseAbs().maxCoeff());
      if (!(d <= wm))
        wm = d;
      if (!(d <= tolm)) {
        res.fail("mean", "op %d (%s): a variable of size %d at row %d differs from the plain Gaussian by %.3g", i, op, q.n, q.key->id(), d);
        return false;
      }
      auto f = fejs.find(q.key);
      if (f != fejs.end() && f->second != q.key->fej()) {
        res.fail("fej", "op %d (%s): the first estimate of a variable changed", i, op);
        return false;
      }
      fejs[q.key] = q.key->fej();
    }
    res.maxi("mean_over_tol", wm / tolm);
    // sub-variables carry the indices of their place in the whole
    for (auto &t : top) {
      std::vector<std::pair<TP, int>> l;
      leaves(t, l);
      for (auto &q : l)
        if (q.first->id() != t->id() + q.second) {
          res.fail("index", "op %d (%s): part of a variable at %d has index %d, expected %d", i, op, t->id(), q.first->id(), t->id() + q.second);
          return false;
        }
    }
    res.hash.m(C);
    Hash ah;
    ah.s(op);
    ah.u64(top.size());
    ah.u64(C.rows());
    res.states.insert(ah.h);
    return true;
  };
  if (!check("start", -1))
    return;

  int oi = 0;
  for (auto &l : s.items) {
    Item it = parse_item(l);
    Rng r((uint64_t)it.at(0) * 77773 + 5);
    std::string op = it.op;
    bool perm = s.in("perm");
    if ((int)g.P.rows() > 150 && (op == "clone" || op == "clonesub" || op == "init" || op == "initinv"))
      op = "marg";
    if (op == "propagate" || op == "propsub") {
      // a run of neighbouring variables at the beginning of the state moves, driven by any variables
      std::vector<TP> nw, old;
      if (op == "propagate") {
        nw = {st->_imu};
        old = {st->_imu};
        if (so.do_calib_imu_intrinsics && r.chance(0.7))
          for (size_t k = 1; k < 4 && k < fixed; k++)
            if (top[k]->id() == nw.back()->id() + nw.back()->size())
              nw.push_back(top[k]), old.push_back(top[k]);
        if (r.chance(0.4)) {
          TP x = r.pick(top);
          if (std::find(old.begin(), old.end(), x) == old.end())
            old.push_back(x);
        }
      } else {
        if (r.chance(0.5))
          nw = {st->_imu->bg(), st->_imu->ba()};
        else
          nw = {r.pick(top)};
        old = disjoint(r, 3);
        if (old.empty())
          continue;
      }
      if (perm && r.chance(0.5))
        std::reverse(old.begin(), old.end());
      int n = width(nw), m = width(old);
      Eigen::MatrixXd Phi = rnd(r, n, m, 0.5 / std::sqrt(m));
      auto cn = g.cols(nw), co = g.cols(old);
      for (int a = 0; a < n; a++)
        for (int b = 0; b < m; b++)
          if (cn[a] == co[b])
            Phi(a, b) += 0.8;
      Eigen::MatrixXd A = rnd(r, n, n, 0.05), Q = A * A.transpose() + 1e-3 * Eigen::MatrixXd::Identity(n, n);
      StateHelper::EKFPropagation(st, nw, old, Phi, Q);
      Eigen::MatrixXd T = Eigen::MatrixXd::Identity(g.P.rows(), g.P.rows());
      for (int a = 0; a < n; a++)
        T.row(cn[a]).setZero();
      for (int a = 0; a < n; a++)
        for (int b = 0; b < m; b++)
          T(cn[a], co[b]) += Phi(a, b);
      g.P = (T * g.P * T.transpose()).eval();
      for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++)
          g.P(cn[a], cn[b]) += Q(a, b);
    } else if (op == "augment") {
      time += 0.1;
      st->_timestamp = time;
      V3 w(r.gauss(), r.gauss(), r.gauss());
      // the estimate may have moved since its first value
      auto ci = g.cols(st->_imu->pose());
      V3 vel = st->_imu->vel();
      StateHelper::augment_clone(st, w);
      if (!st->_clones_IMU.count(time)) {
        res.fail("clone", "op %d: no clone at the new time", oi);
        return;
      }
      auto cl = st->_clones_IMU.at(time);
      if (cl->value() != st->_imu->pose()->value() || cl->fej() != st->_imu->pose()->fej()) {
        res.fail("clone", "op %d: the new clone differs from the pose", oi);
        return;
      }
      Eigen::MatrixXd M = Eigen::MatrixXd::Zero(6, g.P.rows());
      for (int a = 0; a < 6; a++)
        M(a, ci[a]) = 1;
      if (so.do_calib_camera_timeoffset) {
        int c = g.cols(st->_calib_dt_CAMtoIMU)[0];
        M.block<3, 1>(0, c) = w;
        M.block<3, 1>(3, c) = vel;
      }
      g.add(cl, g.P * M.transpose(), M * g.P * M.transpose());
      top.push_back(cl);
    } else if (op == "clone" || op == "clonesub") {
      TP t = op == "clone" ? r.pick(top) : subvars(r);
      if (std::dynamic_pointer_cast<Landmark>(t))
        continue; // landmarks are never cloned
      auto c = g.cols(t);
      TP n = StateHelper::clone(st, t);
      if (n == t || n->size() != t->size() || n->value() != t->value()) {
        res.fail("clone", "op %d: a clone differs from its original", oi);
        return;
      }
      Eigen::MatrixXd cr(g.P.rows(), c.size()), ow(c.size(), c.size());
      for (size_t a = 0; a < c.size(); a++) {
        cr.col(a) = g.P.col(c[a]);
        for (size_t b = 0; b < c.size(); b++)
          ow(a, b) = g.P(c[a], c[b]);
      }
      g.add(n, cr, ow);
      top.push_back(n);
    } else if (op == "marg") {
      if (top.size() <= fixed)
        continue;
      size_t k = fixed + r.range(0, (int)(top.size() - fixed) - 1);
      TP t = top[k];
      StateHelper::marginalize(st, t);
      if (t->id() != -1) {
        res.fail("index", "op %d: a removed variable still claims row %d", oi, t->id());
        return;
      }
      for (auto q = st->_clones_IMU.begin(); q != st->_clones_IMU.end();)
        q = q->second == t ? st->_clones_IMU.erase(q) : std::next(q);
      for (auto q = st->_features_SLAM.begin(); q != st->_features_SLAM.end();)
        q = q->second == t ? st->_features_SLAM.erase(q) : std::next(q);
      g.remove(t);
      top.erase(top.begin() + k);
    } else if (op == "margold") {
      std::shared_ptr<PoseJPL> t;
      size_t n0 = st->_clones_IMU.size();
      if ((int)n0 > so.max_clone_size)
        t = st->_clones_IMU.begin()->second; // ordered by time
      for (auto &q : st->_clones_IMU)
        if (t && q.first < st->_clones_IMU.begin()->first)
          t = q.second;
      StateHelper::marginalize_old_clone(st);
      if (t) {
        bool gone = st->_clones_IMU.size() == n0 - 1;
        for (auto &q : st->_clones_IMU)
          gone &= q.second != t;
        if (!gone || t->id() != -1) {
          res.fail("clone", "op %d: the oldest clone was not the one removed", oi);
          return;
        }
        g.remove(t);
        top.erase(std::find(top.begin(), top.end(), t));
      } else if (st->_clones_IMU.size() != n0) {
        res.fail("clone", "op %d: a clone was removed although the window is not over its size", oi);
        return;
      }
    } else if (op == "margslam") {
      std::vector<std::shared_ptr<Landmark>> gone;
      int left = 0;
      for (auto &f : st->_features_SLAM) {
        f.second->should_marg = r.chance(0.5);
        if (f.second->should_marg && (int)f.first > 4 * so.max_aruco_features)
          gone.push_back(f.second);
        else
          left++;
      }
      StateHelper::marginalize_slam(st);
      if ((int)st->_features_SLAM.size() != left) {
        res.fail("landmark", "op %d: %d landmarks left, expected %d", oi, (int)st->_features_SLAM.size(), left);
        return;
      }
      for (auto &t : gone) {
        g.remove(t);
        top.erase(std::find(top.begin(), top.end(), std::static_pointer_cast<Type>(t)));
      }
    } else if (op == "update" || op == "redundant") {
      auto o = disjoint(r, r.range(1, 5));
      if (o.empty())
        continue;
      int n = width(o), m = r.range(1, 2 * n);
      Eigen::MatrixXd H = rnd(r, m, n);
      if (op == "redundant" && m > 1)
        for (int k = 1; k < m; k++)
          H.row(k) = r.chance(0.3) ? Eigen::RowVectorXd::Zero(n).eval() : (H.row(0) * r.uni(-1, 1)).eval();
      double sg = r.uni(0.05, 0.5);
      Eigen::MatrixXd R = sg * sg * Eigen::MatrixXd::Identity(m, m);
      if (r.chance(0.4)) {
        Eigen::MatrixXd A = rnd(r, m, m, 0.3 * sg / std::sqrt(m));
        R += A * A.transpose();
      }
      Eigen::VectorXd rs = rnd(r, m, 1, 0.1);
      auto c = g.cols(o);
      StateHelper::EKFUpdate(st, o, H, rs, R);
      condition(c, H, rs, R);
    } else if (op == "init" || op == "initinv") {
      auto o = disjoint(r, r.range(1, 4));
      if (o.empty())
        continue;
      TP nv;
      int n = 3;
      bool lm = r.chance(0.6);
      if (lm) {
        auto f = std::make_shared<Landmark>(3);
        f->_featid = next_feat;
        f->set_value(rnd(r, 3, 1));
        f->set_fej(f->value());
        nv = f;
      } else {
        n = r.range(1, 4);
        nv = std::make_shared<Vec>(n);
        nv->set_value(rnd(r, n, 1));
        nv->set_fej(nv->value());
      }
      int m = op == "initinv" ? n : n + r.range(0, 12), k = width(o);
      Eigen::MatrixXd HR = rnd(r, m, k, 0.5), HL = rnd(r, m, n);
      HL.topRows(n) += 3 * Eigen::MatrixXd::Identity(n, n);
      // a badly observed new variable would only measure rounding
      while (HL.jacobiSvd().singularValues()(n - 1) < 1)
        HL.topRows(n) += Eigen::MatrixXd::Identity(n, n);
      double sg = r.uni(0.05, 0.5);
      Eigen::MatrixXd R = sg * sg * Eigen::MatrixXd::Identity(m, m);
      Eigen::VectorXd rs = rnd(r, m, 1, r.chance(0.25) ? 6.0 : 0.1);
      auto c = g.cols(o);
      // independent gate value: project out the new variable
      Eigen::MatrixXd Pc = g.P(c, c);
      double chi = 0, mult = r.uni(0.5, 2);
      if (m > n) {
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(HL, Eigen::ComputeFullU);
        Eigen::MatrixXd N = svd.matrixU().rightCols(m - n).transpose();
        Eigen::MatrixXd S = N * (HR * Pc * HR.transpose() + R) * N.transpose();
        chi = (N * rs).dot(S.ldlt().solve(N * rs));
      }
      Eigen::MatrixXd HR2 = HR, HL2 = HL, R2 = R;
      Eigen::VectorXd rs2 = rs;
      bool ok = true;
      Snap before = snapshot(st);
      if (op == "initinv")
        StateHelper::initialize_invertible(st, nv, o, HR2, HL2, R2, rs2);
      else
        ok = StateHelper::initialize(st, nv, o, HR2, HL2, R2, rs2, mult);
      if (op == "init") {
        double q = m; // 95% quantile lies between m and m + 4 sqrt(m) + 4
        if ((ok && chi > mult * (q + 4 * std::sqrt(q) + 4)) || (!ok && chi < mult * std::max(0.0, std::max(1, m - n) - 2.0))) {
          res.fail("gate", "op %d: a variable with squared distance %.2f (%d rows, factor %.2f) was %s", oi, chi, m, mult, ok ? "accepted" : "rejected");
          return;
        }
      }
      if (!ok) {
        res.stat("rejected");
        if (snapshot(st).h != before.h || nv->id() != -1) {
          res.fail("reject", "op %d: a rejected variable changed the state: %s", oi, diff_snap(before, snapshot(st)).c_str());
          return;
        }
      } else {
        // a new unknown without prior: eliminate it, condition the rest, then place it
        Eigen::MatrixXd Rw = R;
        Eigen::MatrixXd W = HL.transpose() * HL;
        Eigen::MatrixXd Li = W.ldlt().solve(HL.transpose()); // left inverse
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(HL, Eigen::ComputeFullU);
        Eigen::MatrixXd N = svd.matrixU().rightCols(m - n).transpose();
        // x_new = Li (res - HR dx - noise): correlated with dx (after conditioning), independent noise part since Li N^T = 0
        Eigen::VectorXd x0 = nv->value(); // replaced below
        (void)x0;
        std::vector<RefGauss::Var> vb = g.v;
        int N0 = (int)g.P.rows();
        Eigen::VectorXd dtot = Eigen::VectorXd::Zero(N0);
        if (m > n) {
          // conditioning, keeping the correction for the new variable
          Eigen::MatrixXd H = N * HR, Rn = N * R * N.transpose();
          Eigen::MatrixXd Hf = Eigen::MatrixXd::Zero(m - n, N0);
          for (size_t a = 0; a < c.size(); a++)
            Hf.col(c[a]) += H.col(a);
          Eigen::MatrixXd L = Hf.transpose() * Rn.ldlt().solve(Hf);
          Eigen::VectorXd y = Hf.transpose() * Rn.ldlt().solve(N * rs);
          Eigen::PartialPivLU<Eigen::MatrixXd> lu(Eigen::MatrixXd::Identity(N0, N0) + g.P * L);
          dtot = lu.solve(g.P * y);
          g.P = lu.solve(g.P);
          g.P = (0.5 * (g.P + g.P.transpose())).eval();
          g.retract(dtot);
        }
        Eigen::VectorXd dc(c.size());
        for (size_t a = 0; a < c.size(); a++)
          dc(a) = dtot(c[a]);
        Eigen::MatrixXd M = Eigen::MatrixXd::Zero(n, N0);
        for (size_t a = 0; a < c.size(); a++)
          M.col(c[a]) -= Li * HR.col(a);
        Eigen::MatrixXd own = M * g.P * M.transpose() + Li * R * Li.transpose();
        g.add(nv, g.P * M.transpose(), own);
        // mean of the new variable: where it started + Li (res - HR dx)
        Rng rr((uint64_t)it.at(0) * 77773 + 5);
        g.v.back().x = nv->fej() + Li * (rs - HR * dc);
        top.push_back(nv);
        if (lm) {
          st->_features_SLAM[next_feat] = std::dynamic_pointer_cast<Landmark>(nv);
          next_feat++;
        }
      }
    } else if (op == "initcov") {
      auto o = disjoint(r, 2);
      if (o.empty())
        continue;
      // shrink a set of variables to a new joint covariance; what they shared with the rest must stay valid, so only scale
      auto c = g.cols(o);
      Eigen::MatrixXd B = g.P(c, c);
      Eigen::MatrixXd Bn = B + 0.02 * Eigen::MatrixXd::Identity(B.rows(), B.cols());
      StateHelper::set_initial_covariance(st, Bn, o);
      for (size_t a = 0; a < c.size(); a++)
        for (size_t b = 0; b < c.size(); b++)
          g.P(c[a], c[b]) = Bn(a, b);
    } else if (op == "marginal") {
      auto o = disjoint(r, r.range(1, 8));
      if (o.empty())
        continue;
      auto c = g.cols(o);
      Eigen::MatrixXd m = StateHelper::get_marginal_covariance(st, o), e = g.P(c, c);
      Snap b = snapshot(st);
      for (int a = 0; a < m.rows(); a++)
        for (int d = 0; d < m.cols(); d++)
          if (!(std::abs(m(a, d) - e(a, d)) <= tolc * std::sqrt(e(a, a) * e(d, d)) + 1e-14)) {
            res.fail("marginal", "op %d: queried block entry (%d,%d) is %.10g, the plain Gaussian has %.10g", oi, a, d, m(a, d), e(a, d));
            return;
          }
      if (snapshot(st).h != b.h) {
        res.fail("marginal", "op %d: a query changed the state", oi);
        return;
      }
    } else
      continue;
    res.stat("op." + op);
    if (!check(op.c_str(), oi))
      return;
    oi++;
  }
  res.nontrivial = oi >= 4;
}
void register_c06() { register_property("C06", {c06_gen, c06_run, 60}); }
} // namespace sim
