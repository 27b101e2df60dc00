import sys,re
R=sys.argv[1]+"/"
H="include/crocoddyl/core/"
bad=0
def ed(f,*prs):
    global bad
    s=open(R+f).read()
    for i in range(0,len(prs),2):
        if prs[i] not in s: print("MISSING",f,prs[i][:60].replace("\n","|")); bad=1; continue
        s=s.replace(prs[i],prs[i+1],1)
    open(R+f,'w').write(s)
# 1 fddp: lambda accept
ed("src/core/solvers/fddp.cpp",
"  bool recalcDiff = true;\n","  bool recalcDiff = true;\n  const auto accept = [&]() {\n    was_feasible_ = is_feasible_;\n    setCandidate(xs_try_, us_try_, was_feasible_ || steplength_ == 1);\n    cost_ = cost_try_;\n    recalcDiff = true;\n  };\n",
"""          was_feasible_ = is_feasible_;
          setCandidate(xs_try_, us_try_, (was_feasible_) || (steplength_ == 1));
          cost_ = cost_try_;
          recalcDiff = true;
          break;""","          accept();\n          break;",
"""          was_feasible_ = is_feasible_;
          setCandidate(xs_try_, us_try_, (was_feasible_) || (steplength_ == 1));
          cost_ = cost_try_;
          recalcDiff = true;
          break;""","          accept();\n          break;",
"""    const std::size_t n_callbacks = callbacks_.size();
    for (std::size_t c = 0; c < n_callbacks; ++c) {
      CallbackAbstract& callback = *callbacks_[c];
      callback(*this);
    }
""","""    for (const std::shared_ptr<CallbackAbstract>& callback : callbacks_) {
      (*callback)(*this);
    }
""")
# 2 cost sum range for
ed(H+"costs/cost-sum.hxx","""  data->Lx.setZero();
  data->Lxx.setZero();

  typename CostModelContainer::iterator it_m, end_m;
  typename CostDataContainer::iterator it_d, end_d;
  for (it_m = costs_.begin(), end_m = costs_.end(), it_d = data->costs.begin(),
      end_d = data->costs.end();
       it_m != end_m || it_d != end_d; ++it_m, ++it_d) {
    const std::shared_ptr<CostItem>& m_i = it_m->second;
    if (m_i->active) {
      const std::shared_ptr<CostDataAbstract>& d_i = it_d->second;
      assert_pretty(it_m->first == it_d->first,
                    "it doesn't match the cost name between model and data ("
                        << it_m->first << " != " << it_d->first << ")");

      m_i->cost->calcDiff(d_i, x);
      data->Lx += m_i->weight * d_i->Lx;
      data->Lxx += m_i->weight * d_i->Lxx;
    }
  }""","""  data->Lxx.setZero();
  data->Lx.setZero();

  typename CostDataContainer::iterator it_d = data->costs.begin();
  for (const auto& named : costs_) {
    const std::shared_ptr<CostItem>& item = named.second;
    const std::shared_ptr<CostDataAbstract>& d_i = it_d->second;
    ++it_d;
    if (!item->active) {
      continue;
    }
    const Scalar w = item->weight;
    item->cost->calcDiff(d_i, x);
    data->Lx += w * d_i->Lx;
    data->Lxx += w * d_i->Lxx;
  }""",
"""      nr_ += it->second->cost->get_activation()->get_nr();
      active_set_.insert(name);
      inactive_set_.erase(name);
      it->second->active = active;""","""      it->second->active = true;
      inactive_set_.erase(name);
      active_set_.insert(name);
      nr_ += it->second->cost->get_activation()->get_nr();""")
# 3 manager
ed(H+"constraints/constraint-manager.hxx","""      data->Gx.block(ng_i, 0, ng, ndx) = d_i->Gx;
      data->Hx.block(nh_i, 0, nh, ndx) = d_i->Hx;
      ng_i += ng;
      nh_i += nh;""","""      data->Gx.middleRows(ng_i, ng) = d_i->Gx;
      data->Hx.middleRows(nh_i, nh) = d_i->Hx;
      nh_i = nh_i + nh;
      ng_i = ng_i + ng;""")
# 4 shooting
ed(H+"optctrl/shooting.hxx","""  for (std::size_t i = 0; i < T_ - 1; ++i) {
    running_models_[i] = running_models_[i + 1];
    running_datas_[i] = running_datas_[i + 1];
  }
  running_models_.back() = model;
  running_datas_.back() = model->createData();""","""  std::size_t i = 0;
  while (i + 1 < T_) {
    running_datas_[i] = running_datas_[i + 1];
    running_models_[i] = running_models_[i + 1];
    ++i;
  }
  running_models_[T_ - 1] = model;
  running_datas_[T_ - 1] = running_models_[T_ - 1]->createData();""",
"""  cost_ += terminal_data_->cost;
  STOP_PROFILER("ShootingProblem::calc");
  return cost_;""","""  cost_ = cost_ + terminal_data_->cost;
  const Scalar total = cost_;
  STOP_PROFILER("ShootingProblem::calc");
  return total;""",
"""  for (std::size_t i = 0; i < T_; ++i) {
    const std::shared_ptr<ActionDataAbstract>& data = running_datas_[i];
    running_models_[i]->calc(data, xs[i], us[i]);
    xs[i + 1] = data->xnext;
  }""","""  for (std::size_t t = 1; t <= T_; ++t) {
    running_models_[t - 1]->calc(running_datas_[t - 1], xs[t - 1], us[t - 1]);
    xs[t] = running_datas_[t - 1]->xnext;
  }""")
# 5 solver base
ed("src/core/solver-base.cpp","""      tmp_feas_ = fs_[0].lpNorm<1>();
      for (std::size_t t = 0; t < T; ++t) {
        tmp_feas_ += fs_[t + 1].lpNorm<1>();
      }""","""      tmp_feas_ = 0.;
      for (std::size_t t = 0; t <= T; ++t) {
        tmp_feas_ += fs_[t].lpNorm<1>();
      }""",
"""    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());""","""    for (std::size_t t = 0; t <= T; ++t) {
      xs_[t] = xs_warm[t];
    }""",
"""      us_[t] = Eigen::VectorXd::Zero(nu);""","""      us_[t].setZero(nu);""")
# 6 boxqp
ed("src/core/solvers/box-qp.cpp","""  for (std::size_t i = 0; i < nx_; ++i) {
    x_(i) = std::max(std::min(xinit(i), ub(i)), lb(i));
  }""","""  x_ = xinit.cwiseMin(ub).cwiseMax(lb);""")
# 7 poly
ed(H+"controls/poly-two-rk.hxx","""      out.topRows(nw_) -= d->c[0] * A;
      out.middleRows(nw_, nw_) -= d->c[1] * A;
      out.bottomRows(nw_) -= d->c[2] * A;""","""      for (std::size_t i = 0; i < 3; ++i) {
        out.middleRows(i * nw_, nw_) -= d->c[i] * A;
      }""")
# 9 ddp
ed("src/core/solvers/ddp.cpp","""  if (regfactor <= 1.) {
    throw_pretty(
        "Invalid argument: " << "reg_incfactor""","""  if (!(regfactor > 1.)) {
    throw_pretty(
        "Invalid argument: " << "reg_incfactor""",
"""  preg_ *= reg_incfactor_;
  if (preg_ < reg_min_) {
    preg_ = reg_min_;
  }
  if (preg_ > reg_max_) {
    preg_ = reg_max_;
  }
  dreg_ = preg_;""","""  dreg_ = std::min(std::max(preg_ * reg_incfactor_, reg_min_), reg_max_);
  preg_ = dreg_;""",
"""    const Eigen::ComputationInfo& info = Quu_llt_[t].info();
    if (info != Eigen::Success) {""","""    if (Quu_llt_[t].info() != Eigen::Success) {""",
"""    K_[t] = Qxu_[t].transpose();

    START_PROFILER("SolverDDP::Quu_inv_Qux");
    Quu_llt_[t].solveInPlace(K_[t]);
    STOP_PROFILER("SolverDDP::Quu_inv_Qux");
    k_[t] = Qu_[t];
    Quu_llt_[t].solveInPlace(k_[t]);""","""    const Eigen::LLT<Eigen::MatrixXd>& llt = Quu_llt_[t];
    START_PROFILER("SolverDDP::Quu_inv_Qux");
    K_[t] = Qxu_[t].transpose();
    llt.solveInPlace(K_[t]);
    STOP_PROFILER("SolverDDP::Quu_inv_Qux");
    k_[t] = llt.solve(Qu_[t]);""")
# unicycle
ed(H+"actions/unicycle.hxx","""  d->Fx(0, 2) = -s * u[0] * dt_;
  d->Fx(1, 2) = c * u[0] * dt_;
  d->Fu(0, 0) = c * dt_;
  d->Fu(1, 0) = s * dt_;""","""  const Scalar cdt = c * dt_;
  const Scalar sdt = s * dt_;
  d->Fu(0, 0) = cdt;
  d->Fu(1, 0) = sdt;
  d->Fx(0, 2) = -sdt * u[0];
  d->Fx(1, 2) = cdt * u[0];""")
# numdiff lambda
ed(H+"numdiff/diff-action.hxx","""    d->du(iu) = d->uh_hess;
    model_->calc(d->data_u[iu], x, u + d->du);
    const Scalar cp = d->data_u[iu]->cost;
    model_->calc(d->data_u[iu], x, u - d->du);
    const Scalar cm = d->data_u[iu]->cost;
    data->Luu(iu, iu) = (cp - 2 * c0 + cm) / d->uh_hess_pow2;""","""    const auto cost_at = [&](const Scalar sign) {
      model_->calc(d->data_u[iu], x, u + sign * d->du);
      return d->data_u[iu]->cost;
    };
    d->du(iu) = d->uh_hess;
    const Scalar cp = cost_at(Scalar(1.));
    const Scalar cm = cost_at(Scalar(-1.));
    data->Luu(iu, iu) = ((cp - c0) - (c0 - cm)) / d->uh_hess_pow2;""")
ed(H+"integ-action-base.hxx","  time_step2_ = dt * dt;\n","  time_step2_ = time_step_ * time_step_;\n")
ed(H+"costs/residual.hxx","""  const bool is_rq = residual_->get_q_dependent();
  const bool is_rv = residual_->get_v_dependent();
  if (!is_rq && !is_rv) {
    data->activation->a_value = 0.;
    data->cost = 0.;
    return;  // do nothing
  }

  // Compute the cost residual
  residual_->calc(data->residual, x);

  // Compute the cost
  activation_->calc(data->activation, data->residual->r);
  data->cost = data->activation->a_value;""","""  if (residual_->get_q_dependent() || residual_->get_v_dependent()) {
    residual_->calc(data->residual, x);
    activation_->calc(data->activation, data->residual->r);
  } else {
    data->activation->a_value = Scalar(0.);
  }
  data->cost = data->activation->a_value;""")
ed(H+"integrator/euler.hxx","""  const VectorXs& a = d->differential->xout;
  d->dx.head(nv).noalias() = v * time_step_ + a * time_step2_;
  d->dx.tail(nv).noalias() = a * time_step_;""","""  d->dx.tail(nv).noalias() = time_step_ * d->differential->xout;
  d->dx.head(nv).noalias() = time_step_ * v;
  d->dx.head(nv).noalias() += time_step2_ * d->differential->xout;""")
# kkt
ed("src/core/solvers/kkt.cpp","""    m->get_state()->integrate(xs_[t], steplength * dxs_[t], xs_try_[t]);
    if (m->get_nu() != 0) {
      us_try_[t] = us_[t];
      us_try_[t] += steplength * dus_[t];
    }""","""    if (m->get_nu() != 0) {
      us_try_[t] = us_[t] + steplength * dus_[t];
    }
    m->get_state()->integrate(xs_[t], steplength * dxs_[t], xs_try_[t]);""",
"""    const std::size_t n_callbacks = callbacks_.size();
    if (n_callbacks != 0) {
      for (std::size_t c = 0; c < n_callbacks; ++c) {
        CallbackAbstract& callback = *callbacks_[c];
        callback(*this);
      }
    }""","""    for (std::size_t c = 0; c < callbacks_.size(); ++c) {
      (*callbacks_[c])(*this);
    }""")
# box ddp
ed("src/core/solvers/box-ddp.cpp","""    if (!problem_->get_runningModels()[t]->get_has_control_limits() ||
        !is_feasible_) {""","""    const std::shared_ptr<ActionModelAbstract>& model =
        problem_->get_runningModels()[t];
    if (!(model->get_has_control_limits() && is_feasible_)) {""",
"""    du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
    du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
""","""    du_ub_[t] = model->get_u_ub() - us_[t];
    du_lb_[t] = model->get_u_lb() - us_[t];
""",
"""    for (std::size_t i = 0; i < boxqp_sol.clamped_idx.size(); ++i) {
      Qu_[t](boxqp_sol.clamped_idx[i]) = 0.;
    }""","""    for (const std::size_t i : boxqp_sol.clamped_idx) {
      Qu_[t](i) = 0.;
    }""")
# euclidean helper
ed(H+"states/euclidean.hxx","""  if (static_cast<std::size_t>(x.size()) != nx_) {
    throw_pretty(
        "Invalid argument: " << "x has wrong dimension (it should be " +
                                    std::to_string(nx_) + ")");
  }
  if (static_cast<std::size_t>(dx.size()) != ndx_) {
    throw_pretty(
        "Invalid argument: " << "dx has wrong dimension (it should be " +
                                    std::to_string(ndx_) + ")");
  }
  if (static_cast<std::size_t>(xout.size()) != nx_) {
    throw_pretty(
        "Invalid argument: " << "xout has wrong dimension (it should be " +
                                    std::to_string(nx_) + ")");
  }
  xout = x + dx;""","""  const auto check = [](const char* name, const Eigen::Index size,
                        const std::size_t expected) {
    if (static_cast<std::size_t>(size) != expected) {
      throw_pretty("Invalid argument: " << name
                                        << " has wrong dimension (it should be "
                                        << expected << ")");
    }
  };
  check("x", x.size(), nx_);
  check("dx", dx.size(), ndx_);
  check("xout", xout.size(), nx_);
  xout = dx + x;""")
