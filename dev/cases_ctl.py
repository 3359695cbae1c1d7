BC = 'trajectory_tracker/include/trajectory_tracker/basic_control.h'
FL = 'trajectory_tracker/include/trajectory_tracker/filter.h'
EL = 'trajectory_tracker/include/trajectory_tracker/eigen_line.h'
AV = 'trajectory_tracker/include/trajectory_tracker/average.h'
KF = 'track_odometry/include/track_odometry/kalman_filter1.h'
CASES = [
    # limiter
    ('lim-clip-asym', 'bug', BC, 'else if (v < -max)\n    return -max;', 'else if (v < -max)\n    return max;', ['T01']),
    ('lim-noclip', 'bug', BC, '    v = clip(v, vel);\n', '', ['T01']),
    ('lim-clip-after', 'bug', BC, ['    v = clip(v, vel);\n', '    if (!std::isfinite(v))'], ['', '    v = clip(v, vel);\n    if (!std::isfinite(v))'], ['T01']),
    ('lim-noprev', 'bug', BC, '    val_prev_ = v;\n    return v;', '    return v;', ['T01']),
    ('lim-dec-only', 'bug', BC, "    else if (v < val_prev_ - dt * acc)\n      v = val_prev_ - dt * acc;", "    else if (v < val_prev_ - dt * acc && v > 0)\n      v = val_prev_ - dt * acc;", ['T01']),
    ('lim-nan', 'bug', BC, 'if (!std::isfinite(v))', 'if (std::isnan(v))', ['T01']),
    ('lim-nan-prev', 'bug', BC, '    if (!std::isfinite(v))\n      v = 0;\n\n    val_prev_ = v;', '    val_prev_ = v;\n    if (!std::isfinite(v))\n      v = 0;\n', ['T01']),
    ('lim-incr', 'bug', BC, 'return set(val_prev_ + v, vel, acc, dt);', 'return set(val_prev_ + v * dt, vel, acc, dt);', ['T01']),
    ('ang-once', 'bug', BC, 'while (ang > M_PI)', 'if (ang > M_PI)', ['T01']),
    ('ang-pi', 'bug', BC, 'while (ang > M_PI)\n    ang -= 2.0 * M_PI;', 'while (ang > M_PI)\n    ang -= M_PI;', ['T01']),
    ('opt-sign', 'bug', BC, 'std::sqrt(std::abs(2 * angle * acc))', 'std::sqrt(std::max(0.0f, 2 * angle * acc))', ['T01']),
    ('opt-half', 'bug', BC, 'std::abs(2 * angle * acc)', 'std::abs(angle * acc)', ['T01']),
    ('lim-clear', 'bug', BC, '  inline void clear()\n  {\n    val_prev_ = 0;', '  inline void clear()\n  {\n    val_prev_ = std::min(val_prev_, 0.0f);', ['T01']),
    ('ok-lim-minmax', 'ok', BC, '    if (v > val_prev_ + dt * acc)\n      v = val_prev_ + dt * acc;\n    else if (v < val_prev_ - dt * acc)\n      v = val_prev_ - dt * acc;\n',
     '    const float dv = acc * dt;\n    const float upper = val_prev_ + dv;\n    const float lower = val_prev_ - dv;\n    v = v > upper ? upper : (v < lower ? lower : v);\n', ['T01']),
    ('ok-lim-fin', 'ok', BC, '    if (!std::isfinite(v))\n      v = 0;\n\n    val_prev_ = v;\n    return v;', '    val_prev_ = std::isfinite(v) ? v : 0.0f;\n    return val_prev_;', ['T01']),
    ('ok-clip', 'ok', BC, '  if (v > max)\n    return max;\n  else if (v < -max)\n    return -max;\n\n  return v;', '  if (v < -max)\n    return -max;\n  return v < max ? v : max;', ['T01']),
    ('ok-clip-helper', 'ok', BC, ['inline float clip(const float v, const float max)\n{\n  if (v > max)\n    return max;\n  else if (v < -max)\n    return -max;\n\n  return v;'],
     ['inline float limitTo(const float v, const float lo, const float hi)\n{\n  return v > hi ? hi : (v < lo ? lo : v);\n}\ninline float clip(const float v, const float max)\n{\n  return limitTo(v, -max, max);'], ['T01']),
    ('ok-ang', 'ok', BC, 'while (ang < -M_PI)\n    ang += 2.0 * M_PI;\n  while (ang > M_PI)\n    ang -= 2.0 * M_PI;', 'const double turn = 2.0 * M_PI;\n  while (ang > M_PI)\n    ang -= turn;\n  while (-M_PI > ang)\n    ang += turn;', ['T01']),
    ('ok-ang-rem', 'ok', BC, 'while (ang < -M_PI)\n    ang += 2.0 * M_PI;\n  while (ang > M_PI)\n    ang -= 2.0 * M_PI;\n  return ang;', 'return std::remainder(ang, 2.0 * M_PI);', ['T01']),
    ('ok-opt', 'ok', BC, 'return -std::copysign(1.0, angle) * std::sqrt(std::abs(2 * angle * acc));', 'const float speed = std::sqrt(2 * std::abs(angle * acc));\n  return angle < 0 ? speed : -speed;', ['T01']),
    ('ok-incr', 'ok', BC, 'return set(val_prev_ + v, vel, acc, dt);', 'const float target = get() + v;\n    return set(target, vel, acc, dt);', ['T01']),
    # filters
    ('fl-lpf-k0', 'bug', FL, 'k_[0] = -k_[1] - 1.0;', 'k_[0] = -k_[1] + 1.0;', ['T03']),
    ('fl-hpf-k2', 'bug', FL, 'k_[2] = -k_[3] * 2 * time_const_;', 'k_[2] = -k_[3] * time_const_;', ['T03']),
    ('fl-hpf-fall', 'bug', FL, ['        x_ = (1 - k_[2]) * out0 / k_[3];\n        break;\n      case FILTER_HPF:'], ['        x_ = (1 - k_[2]) * out0 / k_[3];\n      case FILTER_HPF:'], ['T03']),
    ('fl-set-x', 'bug', FL, '  void set(const float& out0)\n  {\n    x_ = (1 - k_[2]) * out0 / k_[3];', '  void set(const float& out0)\n  {\n    x_ = out0 / k_[3];', ['T03']),
    ('fl-set-out', 'bug', FL, '    x_ = (1 - k_[2]) * out0 / k_[3];\n    out_ = out0;\n  }', '    x_ = (1 - k_[2]) * out0 / k_[3];\n  }', ['T03']),
    ('fl-oldx', 'bug', FL, '    x_ = k_[0] * in + k_[1] * x_;\n    out_ = k_[2] * in + k_[3] * x_;', '    out_ = k_[2] * in + k_[3] * x_;\n    x_ = k_[0] * in + k_[1] * x_;', ['T03']),
    ('fl-ang-flag', 'bug', FL, 'in = out_ + remainder(in - out_, M_PI * 2.0);', 'in = out_ + remainder(in - out_, M_PI);', ['T03']),
    ('fl-ang-x', 'bug', FL, 'in = out_ + remainder(in - out_, M_PI * 2.0);', 'in = remainder(in - out_, M_PI * 2.0);', ['T03']),
    ('fl-ang-off', 'bug', FL, 'if (angle_)', 'if (angle_ && type_ == FILTER_HPF)', ['T03']),
    ('fl-thresh', 'bug', FL, '    x_ = k_[0] * in + k_[1] * x_;\n', '    if (std::fabs(in - out_) > 100.0f)\n      in = out_;\n    x_ = k_[0] * in + k_[1] * x_;\n', ['T03']),
    ('ok-fl-helper', 'ok', FL, ['        k_[2] = -k_[3];\n', '        k_[2] = -k_[3] * 2 * time_const_;\n'], ['        k_[2] = 1 / (1.0 + 2 * time_const_);\n', '        k_[2] = 1.0 - 1.0 / (1.0 + 2 * time_const_);\n'], ['T03']),
    ('ok-fl-if', 'ok', FL, ['    switch (type_)\n    {\n      case FILTER_LPF:', '        break;\n      case FILTER_HPF:', '        break;\n    }\n    out_ = out0;'], ['    if (type_ == FILTER_LPF)\n    {', '    }\n    else\n    {', '    }\n    out_ = out0;'], ['T03']),
    ('ok-fl-set', 'ok', FL, ['        x_ = (1 - k_[2]) * out0 / k_[3];\n        break;\n      case FILTER_HPF:', '        x_ = (1 - k_[2]) * out0 / k_[3];\n        break;\n    }\n    out_ = out0;'], ['        break;\n      case FILTER_HPF:', '        break;\n    }\n    set(out0);'], ['T03']),
    ('ok-fl-round', 'ok', FL, 'in = out_ + remainder(in - out_, M_PI * 2.0);', 'in -= 2.0 * M_PI * std::round((in - out_) / (2.0 * M_PI));', ['T03']),
    ('ok-fl-prev', 'ok', FL, '    out_ = k_[2] * in + k_[3] * x_;\n', '    const float direct = k_[2] * in;\n    out_ = direct + k_[3] * x_;\n', ['T03']),
    ('avg-int', 'bug', AV, 'num++;', 'num += (val != 0);', ['T03']),
    ('avg-div', 'bug', AV, 'return sum / num;', 'return sum / (num + 1);', ['T03']),
    ('avg-guard', 'bug', AV, 'if (num == 0)', 'if (num <= 1)', ['T03']),
    ('ok-avg', 'ok', AV, '    if (num == 0)\n      return 0;\n    return sum / num;', '    return num > 0 ? sum / num : T(0);', ['T03']),
    ('ok-avg2', 'ok', AV, '    sum += val;\n    num++;', '    ++num;\n    sum = sum + val;', ['T03']),
    # geometry
    ('el-curv-sign', 'bug', EL, 'b[0] * c[1] + c[0] * a[1] -', 'b[0] * c[1] - c[0] * a[1] -', ['T04']),
    ('el-curv-norm', 'bug', EL, '(b - a).squaredNorm() * (b - c).squaredNorm() * (c - a).squaredNorm()', '(b - a).squaredNorm() * (b - c).squaredNorm() * (b - a).squaredNorm()', ['T04']),
    ('el-cross', 'bug', EL, 'return a[0] * b[1] - a[1] * b[0];', 'return a[0] * b[1] + a[1] * b[0];', ['T04']),
    ('el-ld', 'bug', EL, 'return cross2((b - a), (c - a)) / (b - a).norm();', 'return cross2((b - a), (c - a)) / (b - a).squaredNorm();', ['T04']),
    ('el-strip-sign', 'bug', EL, 'return -(c - a).norm();', 'return (c - a).norm();', ['T04']),
    ('el-strip-end', 'bug', EL, 'if ((a - b).dot(c - b) <= 0)', 'if ((a - b).dot(c - a) <= 0)', ['T04']),
    ('el-strip-abs', 'bug', EL, 'return std::abs(lineDistance(a, b, c));', 'return lineDistance(a, b, c);', ['T04']),
    ('el-strip-swap', 'bug', EL, 'return (c - b).norm();', 'return (c - a).norm();', ['T04']),
    ('el-proj', 'bug', EL, 'return b * r + a * (1.0 - r);', 'return a * r + b * (1.0 - r);', ['T04']),
    ('el-proj2', 'bug', EL, '(b - a).dot(c - a) / (b - a).squaredNorm();', '(b - a).dot(c - a) / (b - a).norm();', ['T04']),
    ('ok-el-proj', 'ok', EL, 'return b * r + a * (1.0 - r);', 'return a + (b - a) * r;', ['T04']),
    ('ok-el-loc', 'ok', EL, '  if ((b - a).dot(c - a) <= 0)\n    return -(c - a).norm();\n  if ((a - b).dot(c - b) <= 0)\n    return (c - b).norm();', '  const Eigen::Vector2d ac = c - a;\n  const Eigen::Vector2d ab = b - a;\n  if (ab.dot(ac) <= 0)\n    return -ac.norm();\n  if (ab.dot(c - b) >= 0)\n    return (b - c).norm();', ['T04']),
    ('ok-el-curv', 'ok', EL, 'ret /= std::sqrt((b - a).squaredNorm() * (b - c).squaredNorm() * (c - a).squaredNorm());', 'ret /= (b - a).norm() * (b - c).norm() * (c - a).norm();', ['T04']),
    ('ok-el-curv2', 'ok', EL, 'ret = 2 * (a[0] * b[1] + b[0] * c[1] + c[0] * a[1] -\n             a[0] * c[1] - b[0] * a[1] - c[0] * b[1]);', 'ret = 2 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]));', ['T04']),
    ('ok-el-x', 'ok', EL, 'return a[0] * b[1] - a[1] * b[0];', 'return a.x() * b.y() - a.y() * b.x();', ['T04']),
    # kalman
    ('kf-gain', 'bug', KF, 'sigma_ * sigma_ / (sigma_ * sigma_ + sigma_in * sigma_in)', 'sigma_ / (sigma_ + sigma_in)', ['O01']),
    ('kf-order', 'bug', KF, '    x_ = x_ + kt * (x_in - x_);\n    sigma_ = (1.0 - kt) * sigma_;', '    sigma_ = (1.0 - kt) * sigma_;\n    x_ = x_ + sigma_ * (x_in - x_);', ['O01']),
    ('kf-inf', 'bug', KF, '      if (std::isinf(x_in))\n        x_ = 0;\n      else\n        x_ = x_in;', '      x_ = x_in;', ['O01']),
    ('kf-inf2', 'bug', KF, '    if (std::isinf(sigma_in))\n      return;\n', '', ['O01']),
    ('kf-pred', 'bug', KF, 'sigma_ += sigma_plus;', 'sigma_ = std::max(sigma_, sigma_plus);', ['O01']),
    ('kf-adopt', 'bug', KF, '      sigma_ = sigma_in;\n      return;', '      return;', ['O01']),
    ('ok-kf', 'ok', KF, '    double kt = sigma_ * sigma_ / (sigma_ * sigma_ + sigma_in * sigma_in);\n    x_ = x_ + kt * (x_in - x_);\n    sigma_ = (1.0 - kt) * sigma_;', '    const double v0 = sigma_ * sigma_;\n    const double v1 = sigma_in * sigma_in;\n    x_ = (x_ * v1 + x_in * v0) / (v0 + v1);\n    sigma_ *= v1 / (v0 + v1);', ['O01']),
    ('ok-kf-else', 'ok', KF, '    if (std::isinf(sigma_))\n    {\n      if (std::isinf(x_in))\n        x_ = 0;\n      else\n        x_ = x_in;\n      sigma_ = sigma_in;\n      return;', '    if (std::isinf(sigma_))\n    {\n      set(std::isinf(x_in) ? 0.0 : x_in, sigma_in);\n      return;', ['O01']),
]
