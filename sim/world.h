// The simulated physical world: trajectory, inertial sensor, landmarks, cameras. Written independently of /repo.
#pragma once
#include "core.h"
#include <Eigen/Dense>
#include <memory>

namespace sim {
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

inline M3 skew(const V3 &w) {
  M3 m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}
inline M3 so3_exp(const V3 &w) {
  double th = w.norm();
  M3 W = skew(w);
  if (th < 1e-9)
    return M3::Identity() + W + 0.5 * W * W;
  return M3::Identity() + std::sin(th) / th * W + (1 - std::cos(th)) / (th * th) * W * W;
}
inline V3 so3_log(const M3 &R) {
  Eigen::AngleAxisd aa(R);
  return aa.angle() * aa.axis();
}
// Passive (JPL) quaternion whose rotation matrix is R_GtoI: same coefficients as the Hamilton quaternion of R_ItoG.
inline Eigen::Vector4d jpl_from_R(const M3 &R_GtoI) {
  Eigen::Quaterniond q(R_GtoI.transpose());
  q.normalize();
  Eigen::Vector4d v(q.x(), q.y(), q.z(), q.w());
  if (v(3) < 0)
    v = -v;
  return v;
}
inline M3 R_from_jpl(const Eigen::Vector4d &q) {
  return Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix().transpose();
}

struct Cam {
  bool fisheye = false;
  double fx, fy, cx, cy, k[4];
  int w, h;
  M3 R_ItoC;
  V3 p_IinC;
  // own projection; returns false when outside image or behind
  bool project(const V3 &pC, double &u, double &v) const {
    if (pC(2) < 0.2)
      return false;
    double x = pC(0) / pC(2), y = pC(1) / pC(2);
    double r2 = x * x + y * y;
    double xd, yd;
    if (!fisheye) {
      if (r2 > 1.6)
        return false; // outside the range in which the radial polynomial is monotonic
      double cd = 1 + k[0] * r2 + k[1] * r2 * r2;
      xd = x * cd + 2 * k[2] * x * y + k[3] * (r2 + 2 * x * x);
      yd = y * cd + k[2] * (r2 + 2 * y * y) + 2 * k[3] * x * y;
    } else {
      double r = std::sqrt(r2), th = std::atan(r), t2 = th * th;
      double thd = th * (1 + k[0] * t2 + k[1] * t2 * t2 + k[2] * t2 * t2 * t2 + k[3] * t2 * t2 * t2 * t2);
      double s = r > 1e-9 ? thd / r : 1;
      xd = x * s, yd = y * s;
    }
    u = fx * xd + cx, v = fy * yd + cy;
    return u > 2 && v > 2 && u < w - 3 && v < h - 3;
  }
};

struct ImuS {
  double t;
  V3 w, a;
};
struct Obs {
  size_t id;
  float u, v;
};
struct Frame {
  double t; // camera clock
  std::vector<int> cams;
  std::vector<std::vector<Obs>> obs;
};

struct Stop_ {
  double t0, t1;
};

// Smooth motion: position and Euler angles are sums of sinusoids of a warped time s(t); ds/dt is 1 in motion and 0 in stops.
struct Traj {
  double amp[3], frq[3], ph[3], amp2[3], frq2[3], ph2[3];
  double ea[3], ef[3], ep[3], yaw_rate = 0;
  std::vector<Stop_> stops;
  double ramp = 0.6;
  void make(Rng &r, double speed, double rot) {
    for (int i = 0; i < 3; i++) {
      amp[i] = r.uni(0.6, 1.6) * (i == 2 ? 0.35 : 1.0);
      frq[i] = r.uni(0.5, 1.1) * speed;
      ph[i] = r.uni(0, 6.28);
      amp2[i] = r.uni(0.05, 0.25) * (i == 2 ? 0.6 : 1.0);
      frq2[i] = r.uni(1.6, 2.6) * speed;
      ph2[i] = r.uni(0, 6.28);
      ea[i] = r.uni(0.08, 0.25) * rot;
      ef[i] = r.uni(0.6, 1.8) * rot;
      ep[i] = r.uni(0, 6.28);
    }
    yaw_rate = r.uni(-0.25, 0.25) * rot;
  }
  static double sm(double x) { return x <= 0 ? 0 : x >= 1 ? 1 : x * x * x * (x * (6 * x - 15) + 10); }
  static double dsm(double x) { return x <= 0 || x >= 1 ? 0 : 30 * x * x * (x - 1) * (x - 1); }
  static double ism(double x) { return x <= 0 ? 0 : x >= 1 ? 0.5 + (x - 1) : x * x * x * x * (x * (x - 3) + 2.5); }
  // each stop: ds = 1 - [sm((t-t0)/ramp) - sm((t-t1)/ramp)]; motion is exactly zero in [t0+ramp, t1]
  void warp(double t, double &s, double &sd, double &sdd) const {
    s = t, sd = 1, sdd = 0;
    for (auto &p : stops) {
      double a = (t - p.t0) / ramp, b = (t - p.t1) / ramp;
      s -= ramp * (ism(a) - ism(b));
      sd -= sm(a) - sm(b);
      sdd -= (dsm(a) - dsm(b)) / ramp;
    }
  }
  bool still(double t, double margin = 0) const {
    for (auto &p : stops)
      if (t >= p.t0 + ramp + margin && t <= p.t1 - margin)
        return true;
    return false;
  }
  void at(double t, M3 &R_GtoI, V3 &p, V3 &v, V3 &w, V3 &acc) const {
    double s, sd, sdd;
    warp(t, s, sd, sdd);
    V3 ps, pss;
    for (int i = 0; i < 3; i++) {
      double a1 = frq[i] * s + ph[i], a2 = frq2[i] * s + ph2[i];
      p(i) = amp[i] * std::sin(a1) + amp2[i] * std::sin(a2);
      ps(i) = amp[i] * frq[i] * std::cos(a1) + amp2[i] * frq2[i] * std::cos(a2);
      pss(i) = -amp[i] * frq[i] * frq[i] * std::sin(a1) - amp2[i] * frq2[i] * frq2[i] * std::sin(a2);
    }
    v = ps * sd;
    acc = pss * sd * sd + ps * sdd;
    double e[3], ed[3];
    for (int i = 0; i < 3; i++) {
      e[i] = ea[i] * std::sin(ef[i] * s + ep[i]);
      ed[i] = ea[i] * ef[i] * std::cos(ef[i] * s + ep[i]) * sd;
    }
    e[2] += yaw_rate * s;
    ed[2] += yaw_rate * sd;
    double cr = std::cos(e[0]), sr = std::sin(e[0]), cp = std::cos(e[1]), sp = std::sin(e[1]);
    M3 Rz = Eigen::AngleAxisd(e[2], V3::UnitZ()).toRotationMatrix(), Ry = Eigen::AngleAxisd(e[1], V3::UnitY()).toRotationMatrix(),
       Rx = Eigen::AngleAxisd(e[0], V3::UnitX()).toRotationMatrix();
    R_GtoI = (Rz * Ry * Rx).transpose();
    // body rates of ZYX Euler angles
    w << ed[0] - sp * ed[2], cr * ed[1] + sr * cp * ed[2], -sr * ed[1] + cr * cp * ed[2];
  }
};

struct WorldCfg {
  double duration = 6, imu_rate = 200, cam_rate = 15, t_begin = 10.0;
  double imu_jitter = 0;  // fraction of the period
  double cam_jitter = 0;
  int ncams = 1;
  bool stereo_sync = true; // all cameras at the same instants, otherwise staggered
  double dt = 0;           // true t_imu = t_cam + dt
  double gravity = 9.81;
  double sigma_w = 1.7e-4, sigma_wb = 2e-5, sigma_a = 2e-3, sigma_ab = 3e-3, sigma_pix = 1.0;
  double noise = 1.0; // multiplies sensor noise actually added
  int num_pts = 40;   // observations per camera and frame
  int n_landmarks = 500;
  bool fisheye = false;
  double track_break = 0; // probability per observation that the track gets a new id
  int aruco = 0;          // number of landmarks with persistent tag ids (0..aruco-1)
  double speed = 1, rot = 1;
  double room = 6;
};

struct World {
  WorldCfg c;
  Traj traj;
  std::vector<Cam> cams;
  std::vector<V3> lms;
  std::vector<ImuS> imu;
  std::vector<Frame> frames;
  std::vector<V3> bg, ba; // bias per imu reading
  std::map<size_t, int> id2lm;

  void make_cams(Rng &r) {
    for (int i = 0; i < c.ncams; i++) {
      Cam k;
      k.fisheye = c.fisheye;
      k.w = 752, k.h = 480;
      k.fx = r.uni(380, 470), k.fy = k.fx * r.uni(0.99, 1.01), k.cx = 376 + r.uni(-10, 10), k.cy = 240 + r.uni(-10, 10);
      if (!k.fisheye)
        k.k[0] = r.uni(-0.28, 0.02), k.k[1] = r.uni(0.0, 0.07), k.k[2] = r.uni(-5e-4, 5e-4), k.k[3] = r.uni(-5e-4, 5e-4);
      else
        k.k[0] = r.uni(-0.02, 0.02), k.k[1] = r.uni(-0.01, 0.01), k.k[2] = r.uni(-0.01, 0.01), k.k[3] = r.uni(-0.003, 0.003);
      // camera looks along body +x (z_C = x_I), slightly rotated
      M3 base;
      base << 0, -1, 0, 0, 0, -1, 1, 0, 0;
      double yaw = i == 0 ? 0 : i == 1 ? r.uni(-0.1, 0.1) : r.uni(-1.2, 1.2);
      M3 pert = so3_exp(V3(r.uni(-0.05, 0.05), r.uni(-0.05, 0.05), r.uni(-0.05, 0.05)));
      k.R_ItoC = pert * base * Eigen::AngleAxisd(yaw, V3::UnitZ()).toRotationMatrix();
      V3 p_CinI(r.uni(-0.05, 0.05), (i % 2 ? -0.11 : 0.0) + r.uni(-0.03, 0.03), r.uni(-0.05, 0.05));
      k.p_IinC = -k.R_ItoC * p_CinI;
      cams.push_back(k);
    }
  }
  void truth(double t_imu, M3 &R, V3 &p, V3 &v, V3 &w, V3 &a) const { traj.at(t_imu, R, p, v, w, a); }
  V3 bias_g(double t) const { return interp(bg, t); }
  V3 bias_a(double t) const { return interp(ba, t); }
  V3 interp(const std::vector<V3> &b, double t) const {
    if (b.empty())
      return V3::Zero();
    double x = (t - imu.front().t) * c.imu_rate;
    int i = (int)std::floor(x);
    if (i < 0)
      i = 0;
    if (i >= (int)b.size())
      i = (int)b.size() - 1;
    return b[i];
  }
  void make(uint64_t seed) {
    Rng rt(Rng::derive(seed, "traj")), rc(Rng::derive(seed, "cams")), rl(Rng::derive(seed, "lms")), ri(Rng::derive(seed, "imu")),
        rf(Rng::derive(seed, "frames"));
    auto keep = traj.stops;
    traj.make(rt, c.speed, c.rot);
    traj.stops = keep;
    make_cams(rc);
    for (int i = 0; i < c.n_landmarks; i++) {
      V3 q(rl.uni(-1, 1), rl.uni(-1, 1), rl.uni(-1, 1));
      // on the shell of a room around the trajectory
      double scale = rl.uni(0.75, 1.15);
      int f = rl.range(0, 5);
      if (f < 4) {
        int ax = f / 2;
        q(ax) = (f % 2) ? 1 : -1;
      } else
        q(2) = (f % 2) ? 1 : -1;
      V3 p(q(0) * c.room * scale, q(1) * c.room * scale, q(2) * 0.6 * c.room * scale);
      lms.push_back(p);
    }
    // inertial readings: from before the start to after the end
    double t0 = c.t_begin - 0.5, t1 = c.t_begin + c.duration + 0.3;
    V3 b_g(ri.gauss() * 0.01, ri.gauss() * 0.01, ri.gauss() * 0.01), b_a(ri.gauss() * 0.05, ri.gauss() * 0.05, ri.gauss() * 0.05);
    double per = 1.0 / c.imu_rate;
    int n = (int)std::ceil((t1 - t0) / per);
    double sq = std::sqrt(per);
    for (int i = 0; i < n; i++) {
      ImuS m;
      m.t = t0 + per * (i + (c.imu_jitter > 0 ? ri.uni(-0.5, 0.5) * c.imu_jitter : 0.0));
      M3 R;
      V3 p, v, w, a;
      truth(m.t, R, p, v, w, a);
      m.w = w + b_g;
      m.a = R * (a + V3(0, 0, c.gravity)) + b_a;
      for (int k = 0; k < 3; k++) {
        m.w(k) += c.noise * c.sigma_w / sq * ri.gauss();
        m.a(k) += c.noise * c.sigma_a / sq * ri.gauss();
      }
      imu.push_back(m);
      bg.push_back(b_g);
      ba.push_back(b_a);
      for (int k = 0; k < 3; k++) {
        b_g(k) += c.noise * c.sigma_wb * sq * ri.gauss();
        b_a(k) += c.noise * c.sigma_ab * sq * ri.gauss();
      }
    }
    // camera frames (times on the camera clock)
    std::map<int, std::map<int, size_t>> cur_id; // landmark -> current id (per landmark, shared by cameras)
    std::map<int, size_t> lmid;
    std::map<int, std::set<int>> active; // per camera
    size_t next_id = 1000;
    double cper = 1.0 / c.cam_rate;
    int nf = (int)std::floor(c.duration / cper);
    for (int k = 1; k <= nf; k++) {
      double jit = c.cam_jitter > 0 ? rf.uni(-0.5, 0.5) * c.cam_jitter : 0;
      std::vector<std::vector<int>> groups;
      if (c.stereo_sync) {
        std::vector<int> g;
        for (int i = 0; i < c.ncams; i++)
          g.push_back(i);
        groups.push_back(g);
      } else
        for (int i = 0; i < c.ncams; i++)
          groups.push_back({i});
      for (size_t gi = 0; gi < groups.size(); gi++) {
        Frame f;
        f.t = c.t_begin + cper * (k + jit + (double)gi / std::max<size_t>(1, groups.size()));
        f.cams = groups[gi];
        M3 R;
        V3 p, v, w, a;
        truth(f.t + c.dt, R, p, v, w, a);
        for (int cam : f.cams) {
          std::vector<Obs> o;
          std::vector<std::pair<int, std::pair<double, double>>> vis;
          for (int l = 0; l < (int)lms.size(); l++) {
            V3 pC = cams[cam].R_ItoC * (R * (lms[l] - p)) + cams[cam].p_IinC;
            double u, vv;
            if (cams[cam].project(pC, u, vv))
              vis.push_back({l, {u, vv}});
          }
          std::set<int> now, &old = active[cam];
          // keep what was tracked, then add new ones up to the budget
          for (auto &q : vis)
            if (old.count(q.first) && (int)now.size() < c.num_pts)
              now.insert(q.first);
          for (auto &q : vis)
            if ((int)now.size() < c.num_pts)
              now.insert(q.first);
          for (auto &q : vis) {
            int l = q.first;
            if (!now.count(l))
              continue;
            bool anywhere = false;
            for (auto &ac : active)
              anywhere |= ac.second.count(l) > 0;
            size_t id;
            if (l < c.aruco)
              id = (size_t)l; // tag id
            else if (!lmid.count(l) || (!old.count(l) && !anywhere) || (c.track_break > 0 && rf.chance(c.track_break)))
              id = next_id++;
            else
              id = lmid[l];
            lmid[l] = id;
            id2lm[id] = l;
            Obs b;
            b.id = id;
            b.u = (float)(q.second.first + c.noise * c.sigma_pix * rf.gauss());
            b.v = (float)(q.second.second + c.noise * c.sigma_pix * rf.gauss());
            if (b.u < 0 || b.v < 0 || b.u > cams[cam].w - 1 || b.v > cams[cam].h - 1)
              continue;
            o.push_back(b);
          }
          old = now;
          f.obs.push_back(o);
        }
        frames.push_back(f);
      }
    }
    std::stable_sort(frames.begin(), frames.end(), [](const Frame &a, const Frame &b) { return a.t < b.t; });
  }
};
} // namespace sim
