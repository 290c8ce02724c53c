// Delivery plan (faults + schedule) and the driver that plays a world into an estimator.
#pragma once
#include "vio.h"

void sim_clock_jump(double s); // interpose.cpp
void sim_clock_set_step(int64_t ns);

namespace sim {

struct Plan {
  std::set<int> imu_drop, imu_dup;
  std::multimap<int, int> imu_old; // after feeding reading i, feed reading j again
  std::set<int> cam_drop, blank;
  std::multimap<int, int> late; // after frame k deliver frame j (first) (late)
  std::multimap<int, int> dup;  // after frame k deliver frame j again
  std::multimap<int, int> late_blank;
  struct Out {
    int k0, n;
    double mag, frac;
  };
  std::vector<Out> outl;
  std::map<int, int> lead;
  std::multimap<int, double> query; // before frame k, predict at newest imu + dt
  std::set<int> viz, twin;
  std::map<int, double> clock, slow;
  std::vector<std::pair<double, double>> fault_spans; // camera times with disturbed input

  static Plan from(const Scenario &s, const World &w, Result *res, bool schedule_only = false, bool faults_only = false) {
    Plan p;
    int NI = (int)w.imu.size(), NF = (int)w.frames.size();
    for (auto &l : s.items) {
      Item it = parse_item(l);
      const std::string &o = it.op;
      int a = it.in(0), n = it.in(1, 1);
      bool sched = o == "lead" || o == "query" || o == "viz" || o == "clock" || o == "twin" || o == "slow";
      if ((sched && faults_only) || (!sched && schedule_only))
        continue;
      bool known = true;
      if (o == "drop_imu") {
        for (int i = a; i < a + n && i < NI; i++)
          p.imu_drop.insert(i);
        if (a < NI)
          p.fault_spans.push_back({w.imu[a].t, w.imu[std::min(NI - 1, a + n)].t});
      } else if (o == "dup_imu")
        p.imu_dup.insert(a);
      else if (o == "old_imu")
        p.imu_old.insert({a, n});
      else if (o == "drop_cam") {
        for (int i = a; i < a + n && i < NF; i++)
          p.cam_drop.insert(i);
        if (a < NF)
          p.fault_spans.push_back({w.frames[a].t, w.frames[std::min(NF - 1, a + n)].t});
      } else if (o == "late_cam") {
        if (a < NF) {
          p.cam_drop.insert(a);
          p.late.insert({a + std::max(1, n), a});
          p.fault_spans.push_back({w.frames[a].t, w.frames[std::min(NF - 1, a + n)].t});
        }
      } else if (o == "late_blank")
        p.late_blank.insert({a, n});
      else if (o == "dup_cam")
        p.dup.insert({a + std::max(1, n), a});
      else if (o == "blank") {
        for (int i = a; i < a + n; i++)
          p.blank.insert(i);
        if (a < NF)
          p.fault_spans.push_back({w.frames[a].t, w.frames[std::min(NF - 1, a + n)].t});
      } else if (o == "outlier") {
        p.outl.push_back({a, n, it.at(2, 50), it.at(3, 0.2)});
        if (a < NF)
          p.fault_spans.push_back({w.frames[a].t, w.frames[std::min(NF - 1, a + n)].t});
      } else if (o == "lead")
        p.lead[a] = std::max(p.lead[a], n);
      else if (o == "query")
        p.query.insert({a, it.at(1)});
      else if (o == "viz")
        p.viz.insert(a);
      else if (o == "twin")
        p.twin.insert(a);
      else if (o == "clock")
        p.clock[a] = it.at(1);
      else if (o == "slow") {
        for (int i = 0; i < it.in(1); i++)
          p.slow[a + i] = it.at(2);
      }
      else
        known = false;
      if (known && res)
        res->stat("fault." + o);
    }
    return p;
  }
};

// random items of the message-fault kinds
inline void gen_faults(Scenario &s, Rng &r, int NI, int NF, double imu_rate, double cam_rate, int n, bool late_ok = true, bool imu_ok = true,
                       bool outl_ok = true) {
  int first_i = (int)(imu_rate * 0.7);
  for (int i = 0; i < n; i++) {
    switch (r.range(0, 8)) {
    case 0:
      if (imu_ok)
        s.item("drop_imu %d %d", r.range(first_i, NI - 20), 1);
      break;
    case 1:
      if (imu_ok)
        s.item("drop_imu %d %d", r.range(first_i, NI - 20), r.range(2, std::max(2, (int)(imu_rate * 0.06))));
      break;
    case 2:
      if (imu_ok)
        s.item("dup_imu %d", r.range(first_i, NI - 5));
      break;
    case 3:
      s.item("drop_cam %d %d", r.range(2, NF - 3), r.range(1, r.chance(0.2) ? std::max(1, (int)(cam_rate * 1.0)) : 3));
      break;
    case 4:
      if (late_ok)
        s.item("late_cam %d %d", r.range(3, NF - 6), r.range(1, 5));
      break;
    case 5:
      if (late_ok)
        s.item("dup_cam %d %d", r.range(3, NF - 6), r.range(1, 5));
      break;
    case 6:
      s.item("blank %d %d", r.range(3, NF - 3), r.range(1, 4));
      break;
    case 7:
      if (outl_ok)
        s.item("outlier %d %d %.1f %.2f", r.range(3, NF - 3), r.range(1, 4), r.uni(8, 200), r.uni(0.05, 0.6));
      break;
    case 8: {
      if (imu_ok) {
        int a = r.range(first_i + (int)(imu_rate * 2.5), NI - 5);
        int j = a - (int)(imu_rate * 2.4);
        if (j > 0 && a < NI)
          s.item("old_imu %d %d", a, j);
      }
      break;
    }
    }
  }
}

struct Hooks {
  std::function<bool(int k, const Frame &)> after_frame;                         // after an in-order frame; false stops
  std::function<bool(int k, const Frame &, const Snap &before)> after_late;      // after a late / repeated frame
  std::function<void(double t, bool ok, const Eigen::Matrix<double, 13, 1> &, const Eigen::Matrix<double, 12, 12> &)> on_query;
  std::function<void(int k)> on_twin; // let another instance run
  std::function<void()> after_imu;
};

inline Frame disturb(const Frame &f, int k, const Plan &p, uint64_t seed, const World &w) {
  Frame g = f;
  if (p.blank.count(k))
    for (auto &o : g.obs)
      o.clear();
  for (auto &q : p.outl)
    if (k >= q.k0 && k < q.k0 + q.n) {
      Rng r(Rng::derive(seed ^ (uint64_t)(k * 7919 + q.k0), "outlier"));
      for (size_t c = 0; c < g.obs.size(); c++)
        for (auto &o : g.obs[c])
          if (r.chance(q.frac)) {
            const Cam &cam = w.cams[g.cams[c]];
            o.u = (float)std::min(cam.w - 2.0, std::max(1.0, o.u + r.uni(-1, 1) * q.mag));
            o.v = (float)std::min(cam.h - 2.0, std::max(1.0, o.v + r.uni(-1, 1) * q.mag));
          }
    }
  return g;
}

inline void play(VioSim &v, const Scenario &s, const Plan &p, Hooks &h, Result &res) {
  const World &w = v.w;
  size_t ii = 0;
  auto feed_one = [&]() {
    int i = (int)ii++;
    if (!p.imu_drop.count(i))
      v.imu(w.imu[i]);
    if (p.imu_dup.count(i) && !p.imu_drop.count(i))
      v.imu(w.imu[i]);
    auto rg = p.imu_old.equal_range(i);
    for (auto it = rg.first; it != rg.second; ++it)
      if (it->second >= 0 && it->second < i) {
        v.sys->feed_measurement_imu(to_imu(w.imu[it->second]));
      }
    res.stat("imu_delivered");
    if (h.after_imu)
      h.after_imu();
  };
  std::vector<Frame> fr;
  for (int k = 0; k < (int)w.frames.size(); k++)
    fr.push_back(disturb(w.frames[k], k, p, s.seed, w));
  for (int k = 0; k < (int)w.frames.size(); k++) {
    const Frame &f = fr[k];
    auto jc = p.clock.find(k);
    if (jc != p.clock.end())
      sim_clock_jump(jc->second);
    auto sl = p.slow.find(k);
    sim_clock_set_step(sl != p.slow.end() ? (int64_t)(sl->second * 1e6) : 1700);
    if (!p.cam_drop.count(k)) {
      while (ii < w.imu.size() && !v.covered(f))
        feed_one();
      auto l = p.lead.find(k);
      if (l != p.lead.end())
        for (int n = 0; n < l->second && ii < w.imu.size(); n++)
          feed_one();
      if (!v.covered(f))
        break;
      auto rg = p.query.equal_range(k);
      for (auto it = rg.first; it != rg.second; ++it) {
        Eigen::Matrix<double, 13, 1> x;
        Eigen::Matrix<double, 12, 12> P;
        x.setZero();
        P.setZero();
        double tq = v.newest_imu + it->second;
        bool ok = v.sys->get_propagator()->fast_state_propagate(v.st(), tq, x, P);
        res.stat("queries");
        if (h.on_query)
          h.on_query(tq, ok, x, P);
      }
      if (p.viz.count(k)) {
        v.sys->get_features_SLAM();
        v.sys->get_features_ARUCO();
        v.sys->get_good_features_MSCKF();
        double t;
        cv::Mat im;
        std::unordered_map<size_t, Eigen::Vector3d> a, b;
        v.sys->get_active_image(t, im);
        v.sys->get_active_tracks(t, a, b);
        cv::Mat z = v.sys->get_historical_viz_image();
        ov_msckf::StateHelper::get_full_covariance(v.st());
        ov_msckf::StateHelper::get_marginal_covariance(v.st(), {v.st()->_imu});
        v.st()->margtimestep();
      }
      if (p.twin.count(k) && h.on_twin)
        h.on_twin(k);
      double dt0 = v.dt_est();
      v.frame(f);
      res.stat("frames_delivered");
      if (getenv("SIM_DBG"))
        fprintf(stderr, "frame %d t %.4f state %.4f dt %.6f (true %.6f) v %.4f clones %zu\n", k, f.t, v.st()->_timestamp, v.dt_est(), v.w.c.dt,
                v.st()->_imu->vel().norm(), v.st()->_clones_IMU.size());
      if (h.after_frame && !h.after_frame(k, f))
        return;
      // slow motion taken for standstill (the disparity threshold of the configuration allows it) can throw the clock offset far away: what follows
      // says nothing about the code any more
      if (v.opt.try_zupt && !v.st()->_clones_IMU.count(f.t) && !w.traj.still(f.t + w.c.dt) &&
          (std::abs(v.dt_est() - w.c.dt) > 0.05 || std::abs(v.dt_est() - dt0) > 0.3 / w.c.cam_rate)) {
        res.stat("abandoned");
        return;
      }
    }
    for (int pass = 0; pass < 3; pass++) {
      auto &m = pass == 0 ? p.late : pass == 1 ? p.dup : p.late_blank;
      auto rg = m.equal_range(k);
      for (auto it = rg.first; it != rg.second; ++it) {
        if (it->second < 0 || it->second >= (int)fr.size())
          continue;
        Frame g = fr[it->second];
        if (pass == 2)
          for (auto &o : g.obs)
            o.clear();
        if (!(g.t < v.st()->_timestamp))
          continue; // not late after all: the frames in between were dropped
        Snap b = snapshot(v.st());
        v.frame(g);
        res.stat("late_delivered");
        if (h.after_late && !h.after_late(it->second, g, b))
          return;
      }
    }
  }
  res.simtime += w.c.duration;
}

// error of the estimate against the truth
struct Err {
  V3 th, p, v, bg, ba;
  double nees_o = 0, nees_p = 0;
};
inline Err truth_error(const std::shared_ptr<ov_msckf::State> &st, const World &w) {
  Err e;
  M3 R;
  V3 p, v, om, a;
  double t = st->_timestamp + w.c.dt;
  w.truth(t, R, p, v, om, a);
  M3 Rh = R_from_jpl(st->_imu->quat());
  // R = (I - [th]) Rhat
  e.th = -so3_log(R * Rh.transpose());
  e.p = p - V3(st->_imu->pos());
  e.v = v - V3(st->_imu->vel());
  e.bg = w.bias_g(t) - V3(st->_imu->bias_g());
  e.ba = w.bias_a(t) - V3(st->_imu->bias_a());
  Eigen::MatrixXd P = ov_msckf::StateHelper::get_marginal_covariance(st, {st->_imu});
  e.nees_o = e.th.dot(P.block<3, 3>(0, 0).ldlt().solve(e.th));
  e.nees_p = e.p.dot(P.block<3, 3>(3, 3).ldlt().solve(e.p));
  return e;
}
} // namespace sim
