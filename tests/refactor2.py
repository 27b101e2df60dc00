import sys
import os; exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refactor1.py')).read().split("# 1 fddp")[0])
# cost-sum: one addCost delegating to the other + helper
ed(H+"costs/cost-sum.hxx","""  if (cost->get_nu() != nu_) {
    throw_pretty(
        name
        << " cost item doesn't have the same control dimension (it should be " +
               std::to_string(nu_) + ")");
  }
  std::pair<typename CostModelContainer::iterator, bool> ret =
      costs_.insert(std::make_pair(
          name, std::make_shared<CostItem>(name, cost, weight, active)));
  if (ret.second == false) {
    std::cerr << "Warning: we couldn't add the " << name
              << " cost item, it already existed." << std::endl;
  } else if (active) {
    nr_ += cost->get_activation()->get_nr();
    nr_total_ += cost->get_activation()->get_nr();
    active_set_.insert(name);
  } else if (!active) {
    nr_total_ += cost->get_activation()->get_nr();
    inactive_set_.insert(name);
  }""","""  addCost(std::make_shared<CostItem>(name, cost, weight, active));""",
"""  std::pair<typename CostModelContainer::iterator, bool> ret =
      costs_.insert(std::make_pair(cost_item->name, cost_item));
  if (ret.second == false) {
    std::cerr << "Warning: we couldn't add the " << cost_item->name
              << " cost item, it already existed." << std::endl;
  } else if (cost_item->active) {
    nr_ += cost_item->cost->get_activation()->get_nr();
    nr_total_ += cost_item->cost->get_activation()->get_nr();
    active_set_.insert(cost_item->name);
  } else {
    nr_total_ += cost_item->cost->get_activation()->get_nr();
    inactive_set_.insert(cost_item->name);
  }""","""  const std::size_t nr = cost_item->cost->get_activation()->get_nr();
  if (!costs_.insert(std::make_pair(cost_item->name, cost_item)).second) {
    std::cerr << "Warning: we couldn't add the " << cost_item->name
              << " cost item, it already existed." << std::endl;
    return;
  }
  nr_total_ += nr;
  if (cost_item->active) {
    nr_ += nr;
  }
  (cost_item->active ? active_set_ : inactive_set_).insert(cost_item->name);""")
ed(H+"actions/unicycle.hxx","""  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
  if (d != NULL) {
    return true;
  } else {
    return false;
  }""","""  return std::dynamic_pointer_cast<Data>(data) != nullptr;""",
"""  ReturnType ret;
  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
  ret.set_dt(scalar_cast<NewScalar>(dt_));""","""  ReturnType ret;
  const NewScalar dt = scalar_cast<NewScalar>(dt_);
  ret.set_dt(dt);
  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());""")
ed(H+"integrator/euler.hxx","""  if (d != NULL) {
    return differential_->checkData(d->differential);
  } else {
    return false;
  }""","""  return d && differential_->checkData(d->differential);""")
# shooting: helper methods
ed(H+"optctrl/shooting.hpp"," protected:\n"," protected:\n  void checkModel(const std::shared_ptr<ActionModelAbstract>& model) const;\n  void setNode(const std::size_t i, const std::shared_ptr<ActionModelAbstract>& model, const std::shared_ptr<ActionDataAbstract>& data);\n")
CM="""  if (model->get_state()->get_nx() != nx_) {
    throw_pretty(
        "Invalid argument: " << "nx is not consistent with the other nodes")
  }
  if (model->get_state()->get_ndx() != ndx_) {
    throw_pretty("Invalid argument: "
                 << "ndx node is not consistent with the other nodes")
  }
"""
CM2="""  if (model->get_state()->get_nx() != nx_) {
    throw_pretty(
        "Invalid argument: " << "nx is not consistent with the other nodes")
  }
  if (model->get_state()->get_ndx() != ndx_) {
    throw_pretty(
        "Invalid argument: " << "ndx is not consistent with the other nodes")
  }
"""
ed(H+"optctrl/shooting.hxx",CM,"  checkModel(model);\n",CM,"  checkModel(model);\n",CM,"  checkModel(model);\n",CM2,"  checkModel(model);\n",CM2,"  checkModel(model);\n",
"""  is_updated_ = true;
  if (i == T_) {
    terminal_model_ = model;
    terminal_data_ = data;
  } else {
    running_models_[i] = model;
    running_datas_[i] = data;
  }""","  setNode(i, model, data);",
"""  is_updated_ = true;
  if (i == T_) {
    terminal_model_ = model;
    terminal_data_ = terminal_model_->createData();
  } else {
    running_models_[i] = model;
    running_datas_[i] = model->createData();
  }""","  setNode(i, model, model->createData());",
"""template <typename Scalar>
ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
""","""template <typename Scalar>
ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}

template <typename Scalar>
void ShootingProblemTpl<Scalar>::checkModel(
    const std::shared_ptr<ActionModelAbstract>& model) const {
"""+CM2+"""}

template <typename Scalar>
void ShootingProblemTpl<Scalar>::setNode(
    const std::size_t i, const std::shared_ptr<ActionModelAbstract>& model,
    const std::shared_ptr<ActionDataAbstract>& data) {
  is_updated_ = true;
  if (i < T_) {
    running_models_[i] = model;
    running_datas_[i] = data;
    return;
  }
  terminal_model_ = model;
  terminal_data_ = data;
}
""")
# solver base: helpers
ed("include/crocoddyl/core/solver-base.hpp"," protected:\n"," protected:\n  void checkStates(const std::vector<Eigen::VectorXd>& xs) const;\n")
s=open(R+"src/core/solver-base.cpp").read()
i=s.index("    if (xs_warm.size() != T + 1) {"); j=s.index("  if (us_warm.size() != 0) {",i)
blk=s[i:j]; blk=blk[:blk.rindex("  }\n")]
s=s[:i]+"    checkStates(xs_warm);\n  }\n"+s[j:]
k=s.index("void SolverAbstract::setCandidate(")
s=s[:k]+"""void SolverAbstract::checkStates(
    const std::vector<Eigen::VectorXd>& xs_warm) const {
  const std::size_t T = problem_->get_T();
  const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
      problem_->get_runningModels();
"""+blk+"}\n\n"+s[k:]
open(R+"src/core/solver-base.cpp",'w').write(s)
ed("src/core/solver-base.cpp","""  if (0. >= th_acceptstep || th_acceptstep > 1) {
    throw_pretty(
        "Invalid argument: " << "th_acceptstep value should between 0 and 1.");
  }
  th_acceptstep_ = th_acceptstep;""","""  if (th_acceptstep > 0. && th_acceptstep <= 1.) {
    th_acceptstep_ = th_acceptstep;
  } else {
    throw_pretty(
        "Invalid argument: " << "th_acceptstep value should between 0 and 1.");
  }""")
# ddp
ed("include/crocoddyl/core/solvers/ddp.hpp"," protected:\n"," protected:\n  bool updateRegularization();\n  void initRegularization(const double init_reg);\n  void acceptCandidate(const bool feasible);\n")
ed("src/core/solvers/ddp.cpp","""    if (steplength_ > th_stepdec_) {
      decreaseRegularization();
    }
    if (steplength_ <= th_stepinc_) {
      increaseRegularization();
      if (preg_ == reg_max_) {
        STOP_PROFILER("SolverDDP::solve");
        return false;
      }
    }
""","""    if (!updateRegularization()) {
      STOP_PROFILER("SolverDDP::solve");
      return false;
    }
""","""  if (std::isnan(init_reg)) {
    preg_ = reg_min_;
    dreg_ = reg_min_;
  } else {
    preg_ = init_reg;
    dreg_ = init_reg;
  }
  was_feasible_ = false;
""","""  initRegularization(init_reg);
  was_feasible_ = false;
""","""          was_feasible_ = is_feasible_;
          setCandidate(xs_try_, us_try_, true);
          cost_ = cost_try_;
          recalcDiff = true;
          break;""","""          acceptCandidate(true);
          recalcDiff = true;
          break;""",
"""bool SolverDDP::solve(""","""bool SolverDDP::updateRegularization() {
  if (steplength_ > th_stepdec_) {
    decreaseRegularization();
  }
  if (steplength_ <= th_stepinc_) {
    increaseRegularization();
    return preg_ != reg_max_;
  }
  return true;
}

void SolverDDP::initRegularization(const double init_reg) {
  const double reg = std::isnan(init_reg) ? reg_min_ : init_reg;
  preg_ = reg;
  dreg_ = reg;
}

void SolverDDP::acceptCandidate(const bool feasible) {
  was_feasible_ = is_feasible_;
  setCandidate(xs_try_, us_try_, feasible);
  cost_ = cost_try_;
}

bool SolverDDP::solve(""",
"""    if (raiseIfNaN(Vx_[t].lpNorm<Eigen::Infinity>())) {
      STOP_PROFILER("SolverDDP::backwardPass");
      throw_pretty("backward_error");
    }
    if (raiseIfNaN(Vxx_[t].lpNorm<Eigen::Infinity>())) {""","""    if (raiseIfNaN(Vx_[t].lpNorm<Eigen::Infinity>()) ||
        raiseIfNaN(Vxx_[t].lpNorm<Eigen::Infinity>())) {""",
"""    Vx_[t].noalias() += Vxx_[t] * fs_[t];""","""    const Eigen::VectorXd& gap = fs_[t];
    Vx_[t].noalias() += Vxx_[t] * gap;""",
"""    Quu_[t] = data->Luu;
    Quu_[t].noalias() += FuTVxx_p_[t] * data->Fu;""","""    Quu_[t].noalias() = FuTVxx_p_[t] * data->Fu;
    Quu_[t] += data->Luu;""")
ed("src/core/solvers/fddp.cpp","""    if (steplength_ > th_stepdec_) {
      decreaseRegularization();
    }
    if (steplength_ <= th_stepinc_) {
      increaseRegularization();
      if (preg_ == reg_max_) {
        STOP_PROFILER("SolverFDDP::solve");
        return false;
      }
    }
""","""    if (!updateRegularization()) {
      STOP_PROFILER("SolverFDDP::solve");
      return false;
    }
""","""  if (std::isnan(init_reg)) {
    preg_ = reg_min_;
    dreg_ = reg_min_;
  } else {
    preg_ = init_reg;
    dreg_ = init_reg;
  }
""","  initRegularization(init_reg);\n",
"""      if (dVexp_ >= 0) {  // descend direction
        if (std::abs(d_[0]) < th_grad_ || dV_ > th_acceptstep_ * dVexp_) {
          was_feasible_ = is_feasible_;
          setCandidate(xs_try_, us_try_, (was_feasible_) || (steplength_ == 1));
          cost_ = cost_try_;
          recalcDiff = true;
          break;
        }
      } else {  // reducing the gaps by allowing a small increment in the cost
                // value
        if (!is_feasible_ && dV_ > th_acceptnegstep_ * dVexp_) {
          was_feasible_ = is_feasible_;
          setCandidate(xs_try_, us_try_, (was_feasible_) || (steplength_ == 1));
          cost_ = cost_try_;
          recalcDiff = true;
          break;
        }
      }""","""      bool accepted;
      if (dVexp_ >= 0) {  // descend direction
        accepted =
            std::abs(d_[0]) < th_grad_ || dV_ > th_acceptstep_ * dVexp_;
      } else {  // reducing the gaps by allowing a small increment in the cost
                // value
        accepted = !is_feasible_ && dV_ > th_acceptnegstep_ * dVexp_;
      }
      if (accepted) {
        acceptCandidate(is_feasible_ || steplength_ == 1);
        recalcDiff = true;
        break;
      }""")
# rk: factor
ed(H+"integrator/rk.hxx","""    d->dx = (d->ki[0] + Scalar(3.) * d->ki[2]) * time_step_ / Scalar(4.);""","""    const Scalar h4 = time_step_ / Scalar(4.);
    d->dx = h4 * d->ki[0] + Scalar(3.) * h4 * d->ki[2];""")
# manager
ed(H+"constraints/constraint-manager.hxx","""  if (ret.second == false) {
    std::cout << "Warning: we couldn't add the " << name
              << " constraint item, it already existed." << std::endl;
  } else if (active) {
    ng_ += constraint->get_ng();
    nh_ += constraint->get_nh();
    if (constraint->get_T_constraint()) {
      ng_T_ += constraint->get_ng();
      nh_T_ += constraint->get_nh();
    }
    active_set_.insert(name);
    lb_.resize(ng_);
    ub_.resize(ng_);
  } else if (!active) {
    inactive_set_.insert(name);
  }""","""  if (!ret.second) {
    std::cout << "Warning: we couldn't add the " << name
              << " constraint item, it already existed." << std::endl;
    return;
  }
  if (!active) {
    inactive_set_.insert(name);
    return;
  }
  const std::size_t ng = constraint->get_ng(), nh = constraint->get_nh();
  const bool terminal = constraint->get_T_constraint();
  active_set_.insert(name);
  ng_ += ng;
  nh_ += nh;
  ng_T_ += terminal ? ng : 0;
  nh_T_ += terminal ? nh : 0;
  lb_.resize(ng_);
  ub_.resize(ng_);""")
ed(H+"numdiff/residual.hxx","""    d->dx(ix) = d->xh_jac;
    model_->get_state()->integrate(x, d->dx, d->xp);
    // call the update function
    for (size_t i = 0; i < reevals_.size(); ++i) {
      reevals_[i](d->xp, u);
    }
    model_->calc(d->data_x[ix], d->xp, u);
    d->Rx.col(ix) = (d->data_x[ix]->r - r0) / d->xh_jac;
    d->dx(ix) = Scalar(0.);""","""    const std::shared_ptr<ResidualDataAbstract>& data_x = d->data_x[ix];
    d->dx[ix] = d->xh_jac;
    model_->get_state()->integrate(x, d->dx, d->xp);
    for (const auto& reeval : reevals_) {
      reeval(d->xp, u);
    }
    model_->calc(data_x, d->xp, u);
    d->dx[ix] = Scalar(0.);
    d->Rx.col(ix) = (data_x->r - r0) / d->xh_jac;""")
ed(H+"residuals/control.hxx","""  if (static_cast<std::size_t>(u.size()) != nu_) {
    throw_pretty(
        "Invalid argument: " << "u has wrong dimension (it should be " +
                                    std::to_string(nu_) + ")");
  }

  data->r = u - uref_;""","""  const std::size_t nu = static_cast<std::size_t>(u.size());
  if (nu != nu_) {
    throw_pretty(
        "Invalid argument: " << "u has wrong dimension (it should be " +
                                    std::to_string(nu_) + ")");
  }
  data->r = u;
  data->r -= uref_;""")
