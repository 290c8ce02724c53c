#include "vio_common.h"
namespace sim {
// ---------------------------------------------------------------- C02
static void c02_gen(Scenario &s, Rng &r) {
  gen_vio_params(s, r, 2.5, 5);
  if (r.chance(0.3)) {
    s.set("zupt", 1);
    s.set("zupt_vel", 0.3);
    s.set("zupt_disp", 1.5);
    s.set("zupt_begin", r.chance(0.2) ? 1 : 0);
    if (r.chance(0.8)) {
      double a = 10 + r.uni(0.2, 1.5);
      s.item("stop %.3f %.3f", a, a + r.uni(1.0, 2.0));
    }
    if (r.chance(0.5))
      s.set("sigma_pix", 0.5);
  }
  int NI, NF;
  frames_of(s, NI, NF);
  gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(2, 12));
}
static void c02_run(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  Plan p = Plan::from(s, w, &res);
  VioSim v(s, w, true);
  v.start(s.seed, 0.5);
  double last_t = v.st()->_timestamp;
  Hooks h;
  auto common = [&](const char *where) {
    auto st = v.st();
    if (st->_timestamp < last_t) {
      res.fail("time", "state time went backwards from %.6f to %.6f (%s)", last_t, st->_timestamp, where);
      return false;
    }
    last_t = st->_timestamp;
    abstract_state(v, st, res);
    return check_structure(st, v.opt, res, where);
  };
  h.after_frame = [&](int k, const Frame &f) {
    auto st = v.st();
    res.hash.u64(snapshot(st).h);
    char wh[40];
    snprintf(wh, sizeof wh, "frame %d", k);
    if (st->_timestamp != f.t) {
      res.fail("time", "after frame %d at %.6f the state is at %.6f", k, f.t, st->_timestamp);
      return false;
    }
    // without online time offset the newest clone is the pose itself
    if (!v.opt.state_options.do_calib_camera_timeoffset && st->_clones_IMU.count(f.t)) {
      auto c = st->_clones_IMU.at(f.t);
      double d = (V3(c->pos()) - V3(st->_imu->pos())).norm();
      double dq = so3_log(R_from_jpl(c->quat()) * R_from_jpl(st->_imu->quat()).transpose()).norm();
      res.maxi("clone_vs_pose", std::max(d, dq));
      if (d > 1e-4 || dq > 1e-4) {
        res.fail("structure:clone-pose", "newest clone and pose differ by %.3g m %.3g rad at t=%.4f", d, dq, f.t);
        return false;
      }
    }
    return common(wh);
  };
  h.after_late = [&](int k, const Frame &, const Snap &) {
    char wh[40];
    snprintf(wh, sizeof wh, "late frame %d", k);
    res.hash.u64(snapshot(v.st()).h);
    return common(wh);
  };
  play(v, s, p, h, res);
  res.nontrivial = res.stats["frames_delivered"] >= 10;
}

// ---------------------------------------------------------------- C01
static void c01_gen(Scenario &s, Rng &r) {
  gen_vio_params(s, r, 2.5, 4.5);
  int NI, NF;
  frames_of(s, NI, NF);
  if (r.chance(0.3)) {
    s.set("zupt", 1);
    s.set("zupt_vel", 0.3);
    s.set("zupt_disp", 1.0);
    double a = 10 + r.uni(0.2, 1.5);
    s.item("stop %.3f %.3f", a, a + r.uni(1.0, 2.0));
  }
  gen_faults(s, r, NI, NF, s.num("imu_rate"), s.num("cam_rate"), r.range(0, 3), false, true, true);
  int n = r.range(3, 30);
  s.set("twin", r.chance(0.3) ? 1 : 0);
  s.set("share", s.in("twin") && r.chance(0.5) ? 1 : 0);
  for (int i = 0; i < n; i++) {
    int k = r.range(0, NF - 1);
    switch (r.range(0, 6)) {
    case 6: // every look at the clock costs this many milliseconds (slow machine, or a clock that is being set)
      s.item("slow %d %d %.3f", k, r.range(1, 20), r.chance(0.3) ? -r.uni(1, 1000) : std::exp(r.uni(0, 10)));
      break;
    case 0:
    case 1:
      s.item("lead %d %d", k, r.chance(0.3) ? r.range(1, (int)(s.num("imu_rate") * 1.0)) : r.range(1, 30));
      break;
    case 2:
      s.item("query %d %.5f", k, r.chance(0.5) ? 0.0 : r.uni(-0.05, 0.03));
      break;
    case 3:
      s.item("viz %d", k);
      break;
    case 4:
      s.item("clock %d %.3f", k, r.uni(-1e6, 1e6));
      break;
    case 5:
      if (s.in("twin"))
        s.item("twin %d", k);
      else
        s.item("query %d 0.0", k);
      break;
    }
  }
}
static void c01_run(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  std::vector<std::pair<double, Snap>> ref;
  {
    Plan p = Plan::from(s, w, &res, false, true);
    VioSim v(s, w, true);
    v.start(s.seed, 0.5);
    Hooks h;
    h.after_frame = [&](int, const Frame &f) {
      ref.push_back({f.t, snapshot(v.st())});
      return true;
    };
    play(v, s, p, h, res);
  }
  Plan p = Plan::from(s, w, nullptr);
  for (auto &l : s.items) {
    Item it = parse_item(l);
    if (it.op == "lead" || it.op == "query" || it.op == "viz" || it.op == "clock" || it.op == "slow" || it.op == "twin")
      res.stat(it.op == "twin" && s.in("share") ? "sched.twin_shared_options" : "sched." + it.op);
  }
  // the second execution lives at other addresses, with the heap in another state
  Rng hr(Rng::derive(s.seed, "heap"));
  std::vector<std::unique_ptr<char[]>> junk;
  for (int i = 0; i < 300; i++) {
    junk.emplace_back(new char[hr.range(16, 5000)]);
    if (hr.chance(0.5) && junk.size() > 3)
      junk.erase(junk.begin() + hr.range(0, (int)junk.size() - 2));
  }
  sim_clock_jump(hr.uni(-1e5, 1e5));
  Scenario s2 = s;
  s2.seed = s.seed ^ 0x5555;
  s2.items.clear();
  World w2;
  std::unique_ptr<VioSim> twin;
  size_t tf = 0, ti = 0;
  if (s.in("twin")) {
    s2.set("duration", 2.5);
    if (s.in("share"))
      w2 = w;
    else
      make_world(s2, w2);
  }
  VioSim v(s, w, true);
  if (s.in("twin")) {
    if (s.in("share"))
      twin.reset(new VioSim(w2, v.opt));
    else
      twin.reset(new VioSim(s2, w2, true));
    twin->start(s2.seed, 0.5);
  }
  v.start(s.seed, 0.5);
  size_t n = 0;
  Hooks h;
  h.on_twin = [&](int) {
    if (!twin)
      return;
    for (int c = 0; c < 4 && tf < w2.frames.size(); c++, tf++) {
      while (ti < w2.imu.size() && !twin->covered(w2.frames[tf]))
        twin->imu(w2.imu[ti++]);
      twin->frame(w2.frames[tf]);
      res.stat("twin_frames");
    }
  };
  h.after_frame = [&](int k, const Frame &f) {
    Snap b = snapshot(v.st());
    res.hash.u64(b.h);
    if (n >= ref.size() || ref[n].first != f.t) {
      res.fail("sequence", "frame %d at %.6f has no counterpart in the reference schedule", k, f.t);
      return false;
    }
    if (ref[n].second.h != b.h) {
      res.fail("differs", "after frame %d: %s", k, diff_snap(ref[n].second, b).c_str());
      return false;
    }
    abstract_state(v, v.st(), res);
    n++;
    return true;
  };
  play(v, s, p, h, res);
  if (!res.violated && n != ref.size())
    res.fail("sequence", "%zu frames processed, %zu in the reference schedule", n, ref.size());
  res.nontrivial = n >= 10 && !s.items.empty();
}

// ---------------------------------------------------------------- C03
static void c03_gen(Scenario &s, Rng &r) {
  gen_vio_params(s, r, 2.5, 4.5);
  int NI, NF;
  frames_of(s, NI, NF);
  s.set("mode", r.range(0, 1));
  if (r.chance(0.4)) {
    s.set("zupt", 1);
    s.set("zupt_vel", 0.3);
    s.set("zupt_disp", 1.5);
    double a = 10 + r.uni(0.2, 1.5);
    s.item("stop %.3f %.3f", a, a + r.uni(1.0, 2.5));
    if (r.chance(0.6))
      s.set("sigma_pix", 0.5);
  }
  double imu_rate = s.num("imu_rate");
  int n = r.range(2, 12), first_i = (int)(imu_rate * 0.7);
  for (int i = 0; i < n; i++) {
    if (s.in("mode") == 0) { // images that carry observations: no immediate effect
      switch (r.range(0, 2)) {
      case 0:
        s.item("late_cam %d %d", r.range(3, NF - 6), r.range(1, 6));
        break;
      case 1:
        s.item("dup_cam %d %d", r.range(3, NF - 6), r.range(1, 6));
        break;
      case 2:
        s.item("drop_cam %d 1", r.range(3, NF - 6));
        break;
      }
    } else { // messages that carry nothing new: no effect at all
      switch (r.range(0, 2)) {
      case 0: {
        int k = r.range(3, NF - 2);
        s.item("late_blank %d %d", k, std::max(0, k - r.range(1, 12)));
        break;
      }
      case 1:
        s.item("dup_imu %d", r.range(first_i, NI - 5));
        break;
      case 2: {
        int a = r.range(first_i + (int)(imu_rate * 1.5), NI - 5);
        int j = a - (int)(imu_rate * 2.2) - r.range(0, 50);
        if (j > 0)
          s.item("old_imu %d %d", a, j);
        break;
      }
      }
    }
  }
}
static void c03_run(const Scenario &s, Result &res) {
  World w;
  make_world(s, w);
  bool full = s.in("mode") == 1;
  std::vector<Snap> ref;
  if (full) {
    Scenario q = s;
    q.items.clear();
    for (auto &l : s.items)
      if (l.compare(0, 4, "stop") == 0)
        q.items.push_back(l);
    Plan p = Plan::from(q, w, nullptr);
    VioSim v(q, w, true);
    v.start(s.seed, 0.5);
    Hooks h;
    h.after_frame = [&](int, const Frame &) {
      ref.push_back(snapshot(v.st()));
      return true;
    };
    Result tmp;
    play(v, q, p, h, tmp);
  }
  Plan p = Plan::from(s, w, &res);
  VioSim v(s, w, true);
  v.start(s.seed, 0.5);
  Hooks h;
  size_t n = 0;
  // a repeated old reading is "older than everything needed" only once the window starts after it
  double oldest_ok = 1e18;
  (void)oldest_ok;
  h.after_frame = [&](int k, const Frame &f) {
    Snap b = snapshot(v.st());
    res.hash.u64(b.h);
    if (b.ts != f.t) {
      res.fail("stuck", "frame %d at %.6f not processed, state at %.6f", k, f.t, b.ts);
      return false;
    }
    if (full) {
      if (n >= ref.size() || ref[n].h != b.h) {
        res.fail("later-estimate", "after frame %d: %s", k, n < ref.size() ? diff_snap(ref[n], b).c_str() : "extra frame");
        return false;
      }
      n++;
    }
    abstract_state(v, v.st(), res, (int)res.stats["late_delivered"]);
    return true;
  };
  h.after_late = [&](int k, const Frame &f, const Snap &b) {
    Snap a = snapshot(v.st());
    res.hash.u64(a.h);
    if (a.h != b.h) {
      res.fail("late-effect", "late frame %d (t=%.6f, state at %.6f) changed the estimate: %s", k, f.t, b.ts, diff_snap(b, a).c_str());
      return false;
    }
    return true;
  };
  play(v, s, p, h, res);
  res.nontrivial = res.stats["late_delivered"] > 0 || !p.imu_dup.empty() || !p.imu_old.empty();
}

void register_vio_props() {
  register_property("C01", {c01_gen, c01_run, 60});
  register_property("C02", {c02_gen, c02_run, 60});
  register_property("C03", {c03_gen, c03_run, 60});
}
} // namespace sim
