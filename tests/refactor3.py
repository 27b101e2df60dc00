import sys
R=sys.argv[1]+"/"
bad=0
def ed(f,a,b,n=1):
    global bad
    s=open(R+f).read()
    if a not in s:
        print("NOT FOUND",f,repr(a[:60])); bad+=1; return
    open(R+f,"w").write(s.replace(a,b,n))
H="include/crocoddyl/core/"; S="src/core/solvers/"
# setCandidate: local copies, while loops
ed("src/core/solver-base.cpp","""    for (std::size_t t = 0; t < T; ++t) {
      const std::shared_ptr<ActionModelAbstract>& model = models[t];
      xs_[t] = model->get_state()->zero();
    }""","""    std::size_t t = 0;
    while (t < T) {
      xs_[t] = models[t]->get_state()->zero();
      ++t;
    }""")
ed("src/core/solver-base.cpp","""    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());""","""    for (std::size_t t = 0; t <= T; ++t) {
      xs_[t] = xs_warm[t];
    }""")
ed("src/core/solver-base.cpp","""    std::copy(us_warm.begin(), us_warm.end(), us_.begin());""","""    for (std::size_t t = 0; t < T; ++t) {
      us_[t] = us_warm[t];
    }""")
# ddp solve abort
ed(S+"ddp.cpp","""      increaseRegularization();
      if (preg_ == reg_max_) {
        STOP_PROFILER("SolverDDP::solve");
        return false;
      }
    }
    stoppingCriteria();""","""      increaseRegularization();
      const bool saturated = preg_ == reg_max_;
      if (saturated) {
        STOP_PROFILER("SolverDDP::solve");
        return false;
      }
    }
    stoppingCriteria();""")
ed(S+"ddp.cpp","""    const std::size_t n_callbacks = callbacks_.size();
    for (std::size_t c = 0; c < n_callbacks; ++c) {
      CallbackAbstract& callback = *callbacks_[c];
      callback(*this);
    }""","""    for (const std::shared_ptr<CallbackAbstract>& callback : callbacks_) {
      (*callback)(*this);
    }""")
ed(S+"fddp.cpp","""    const std::size_t n_callbacks = callbacks_.size();
    if (n_callbacks != 0) {
      for (std::size_t c = 0; c < n_callbacks; ++c) {
        CallbackAbstract& callback = *callbacks_[c];
        callback(*this);
      }
    }""","""    for (std::size_t c = 0; c < callbacks_.size(); ++c) {
      (*callbacks_[c])(*this);
    }""")
ed(S+"ddp.cpp","""  preg_ *= reg_incfactor_;
  if (preg_ > reg_max_) {
    preg_ = reg_max_;
  }""","""  preg_ = std::min(preg_ * reg_incfactor_, reg_max_);""")
ed(S+"ddp.cpp","""  preg_ /= reg_decfactor_;
  if (preg_ < reg_min_) {
    preg_ = reg_min_;
  }""","""  preg_ = std::max(preg_ / reg_decfactor_, reg_min_);""")
for l in open(R+S+"ddp.cpp"): pass
print("bad",bad)
ed(S+"fddp.cpp","""    const std::size_t n_callbacks = callbacks_.size();
    for (std::size_t c = 0; c < n_callbacks; ++c) {
      CallbackAbstract& callback = *callbacks_[c];
      callback(*this);
    }""","""    for (std::size_t c = 0; c < callbacks_.size(); ++c) {
      (*callbacks_[c])(*this);
    }""")
ed(S+"ddp.cpp","""  preg_ *= reg_incfactor_;
  if (preg_ < reg_min_) {
    preg_ = reg_min_;
  }
  if (preg_ > reg_max_) {
    preg_ = reg_max_;
  }
""","""  preg_ = std::min(std::max(preg_ * reg_incfactor_, reg_min_), reg_max_);
""")
# integrator, costs, numdiff, boxqp style edits
import re
def sub(f,pat,rep,n=1):
    global bad
    s=open(R+f).read(); s2,k=re.subn(pat,rep,s,count=n)
    if not k: print("NO MATCH",f,pat[:50]); bad+=1
    open(R+f,"w").write(s2)

ed(H+"optctrl/shooting.hxx","""  cost_ = Scalar(0.);
#ifdef CROCODDYL_WITH_MULTITHREADING
#pragma omp simd reduction(+ : cost_)
#endif
  for (std::size_t i = 0; i < T_; ++i) {
    cost_ += running_datas_[i]->cost;
  }
  cost_ += terminal_data_->cost;
  STOP_PROFILER("ShootingProblem::calc");
  return cost_;""","""  Scalar total = terminal_data_->cost;
  for (const std::shared_ptr<ActionDataAbstract>& data : running_datas_) {
    total += data->cost;
  }
  cost_ = total;
  STOP_PROFILER("ShootingProblem::calc");
  return total;""")
ed(H+"costs/cost-sum.hxx","""    if (active && !it->second->active) {
      nr_ += it->second->cost->get_activation()->get_nr();
      active_set_.insert(name);
      inactive_set_.erase(name);
      it->second->active = active;
    } else if (!active && it->second->active) {
      nr_ -= it->second->cost->get_activation()->get_nr();
      active_set_.erase(name);
      inactive_set_.insert(name);
      it->second->active = active;
    }
""","""    const std::shared_ptr<CostItem>& item = it->second;
    if (item->active == active) {
      return;
    }
    const std::size_t nr = item->cost->get_activation()->get_nr();
    item->active = active;
    if (active) {
      inactive_set_.erase(name);
      active_set_.insert(name);
      nr_ += nr;
    } else {
      active_set_.erase(name);
      inactive_set_.insert(name);
      nr_ -= nr;
    }
""")
ed(H+"integrator/euler.hxx","""  d->Lx.noalias() = time_step_ * d->differential->Lx;
  control_->multiplyJacobianTransposeBy(d->control, d->differential->Lu, d->Lu);
  d->Lu *= time_step_;
  d->Lxx.noalias() = time_step_ * d->differential->Lxx;
""","""  const std::shared_ptr<DifferentialActionDataAbstract>& diff = d->differential;
  const Scalar dt = time_step_;
  d->Lxx = diff->Lxx;
  d->Lxx *= dt;
  d->Lx = diff->Lx * dt;
  control_->multiplyJacobianTransposeBy(d->control, diff->Lu, d->Lu);
  d->Lu = dt * d->Lu;
""")
ed(H+"integ-action-base.hxx","""  time_step_ = dt;
  time_step2_ = dt * dt;""","""  time_step2_ = dt * dt;
  time_step_ = dt;""")
ed(H+"integ-action-base.hxx","""  if (dt < 0.) {
    throw_pretty("Invalid argument: " << "dt has positive value");
  }
  time_step2_""","""  const bool negative = dt < Scalar(0.);
  if (negative) {
    throw_pretty("Invalid argument: " << "dt has positive value");
  }
  time_step2_""")
ed(H+"numdiff/residual.hxx","""  for (std::size_t iu = 0; iu < model_->get_nu(); ++iu) {
    d->du(iu) = d->uh_jac;
    d->up = u + d->du;
""","""  const std::size_t nu = model_->get_nu();
  for (std::size_t iu = 0; iu < nu; ++iu) {
    d->up = u;
    d->up(iu) += d->uh_jac;
""")
ed(H+"numdiff/residual.hxx","""    d->Ru.col(iu) = (d->data_u[iu]->r - r0) / d->uh_jac;
    d->du(iu) = Scalar(0.);
""","""    d->Ru.col(iu) = d->data_u[iu]->r - r0;
    d->Ru.col(iu) /= d->uh_jac;
""")
ed(H+"optctrl/shooting.hxx","""  if (model->get_state()->get_nx() != nx_) {
    throw_pretty(
        "Invalid argument: " << "nx is not consistent with the other nodes")
  }
  if (model->get_state()->get_ndx() != ndx_) {
    throw_pretty("Invalid argument: "
                 << "ndx node is not consistent with the other nodes")
  }
  is_updated_ = true;
  for (std::size_t i = 0; i < T_ - 1; ++i) {
    running_models_[i] = running_models_[i + 1];
    running_datas_[i] = running_datas_[i + 1];
  }
  running_models_.back() = model;
  running_datas_.back() = model->createData();""","""  circularAppend(model, model->createData());""")
ed(H+"actions/lqr.hxx","""  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
  if (d != NULL) {
    return true;
  } else {
    return false;
  }""","""  return std::dynamic_pointer_cast<Data>(data) != nullptr;""")
ed(H+"actions/lqr.hxx","""  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
""","""  typedef typename ReturnType::VectorXs NewVector;
  const NewVector g_lb = this->g_lb_.template cast<NewScalar>();
  const NewVector g_ub = this->g_ub_.template cast<NewScalar>();
  ret.set_g_ub(g_ub);
  ret.set_g_lb(g_lb);
""")
ed(S+"box-ddp.cpp","""    if (!problem_->get_runningModels()[t]->get_has_control_limits() ||
        !is_feasible_) {
      // No control limits on this model: Use vanilla DDP
      SolverDDP::computeGains(t);
      STOP_PROFILER("SolverBoxDDP::computeGains");
      return;
    }

    du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
    du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
""","""    const std::shared_ptr<ActionModelAbstract>& model =
        problem_->get_runningModels()[t];
    const bool use_box = model->get_has_control_limits() && is_feasible_;
    if (!use_box) {
      SolverDDP::computeGains(t);
      STOP_PROFILER("SolverBoxDDP::computeGains");
      return;
    }
    const Eigen::VectorXd& u = us_[t];
    du_ub_[t] = model->get_u_ub() - u;
    du_lb_[t] = model->get_u_lb() - u;
""")
ed(S+"box-ddp.cpp","""    k_[t] = -boxqp_sol.x;
""","""    k_[t].noalias() = -1. * boxqp_sol.x;
""")
print("bad",bad)
