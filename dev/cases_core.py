A = 'planner_cspace/include/planner_cspace/grid_astar.h'
V = 'planner_cspace/include/planner_cspace/cyclic_vec.h'
G = 'planner_cspace/include/planner_cspace/blockmem_gridmap.h'
Q = 'planner_cspace/include/planner_cspace/reservable_priority_queue.h'
S = ['P01', 'P02', 'P03']
CASES = [
 # ---- search
 ('relax-ge', 'bug', A, 'if (g[u.getPos()] > u.getCost())', 'if (g[u.getPos()] >= 0)', S),
 ('relax-always', 'bug', A, 'if (g[u.getPos()] > u.getCost())', '', S),
 ('no-exceed', 'bug', A, 'if (next.isExceeded(g.size()))\n              continue;', '', S),
 ('no-cycle', 'bug', A, 'Vec next = p + *it;\n            next.cycleUnsigned(g.size());', 'Vec next = p + *it;', S),
 ('cost-neg-allowed', 'bug', A, 'if (cost < 0 || cost ==', 'if (cost ==', S),
 ('estim-neg-allowed', 'bug', A, 'if (cost_estim < 0 || cost_estim ==', 'if (cost_estim ==', S),
 ('cost-max-allowed', 'bug', A, 'if (cost < 0 || cost == std::numeric_limits<float>::max())', 'if (cost < 0)', S),
 ('parent-self', 'bug', A, 'parents_[u.getPos()] = u.getParentPos();', 'parents_[u.getPos()] = u.getPos();', S),
 ('no-parent', 'bug', A, 'parents_[u.getPos()] = u.getParentPos();', '', S),
 ('parent-rev', 'bug', A, 'parents_[u.getPos()] = u.getParentPos();', 'parents_[u.getParentPos()] = u.getPos();', S),
 ('prio-raw', 'bug', A, 'return PriorityVec(cost_estim_, cost_, p1_);', 'return PriorityVec(cost_, cost_, p1_);', S),
 ('prio-p0', 'bug', A, 'return PriorityVec(cost_estim_, cost_, p1_);', 'return PriorityVec(cost_estim_, cost_, p0_);', S),
 ('lt', 'bug', A, 'return p_ > b.p_;', 'return p_ < b.p_;', S),
 ('lt-raw', 'bug', A, 'return p_ > b.p_;', 'return p_raw_ > b.p_raw_;', S),
 ('stale', 'bug', A, 'if (c > gp)\n            continue;', '', S),
 ('cost-next-gp', 'bug', A, 'const float cost_next = c + cost;', 'const float cost_next = c + cost_estim;', S),
 ('limit-off', 'bug', A, 'if (queue_size_limit_ > 0 && open_.size() > queue_size_limit_)', 'if (open_.size() > queue_size_limit_)', S),
 ('limit-ge', 'bug', A, 'if (queue_size_limit_ > 0 && open_.size() > queue_size_limit_)', 'if (queue_size_limit_ > 0 && open_.size() >= queue_size_limit_)', S),
 ('limit-pop-top', 'bug', A, 'open_.pop_back();', 'open_.pop();', S),
 ('no-clear-parents', 'bug', A, 'open_.clear();\n    parents_.clear();', 'open_.clear();', S),
 ('no-clear-open', 'bug', A, 'open_.clear();\n    parents_.clear();', 'parents_.clear();', S),
 ('no-clear-g', 'bug', A, 'e.cycleUnsigned(g.size());\n    g.clear(std::numeric_limits<float>::max());', 'e.cycleUnsigned(g.size());', S),
 ('ret-true', 'bug', A, '      return false;\n    }\n    return findPath(ss_normalized, e, path);', '      return true;\n    }\n    return findPath(ss_normalized, e, path);', S),
 ('best-always', 'bug', A, 'if (return_best)\n      {\n        findPath(ss_normalized, better, path);\n      }', 'findPath(ss_normalized, better, path);', S),
 ('path-better', 'bug', A, 'return findPath(ss_normalized, e, path);', 'return findPath(ss_normalized, better, path);', S),
 ('abort-ignored', 'bug', A, '|| found || abort)', '|| found)', S),
 ('leave-p', 'bug', A, 'center.p_ - center.p_raw_ < cost_leave', 'center.p_ < cost_leave', S),
 ('leave-raw', 'bug', A, 'center.p_ - center.p_raw_ < cost_leave', 'center.p_raw_ < cost_leave', S),
 ('start-eq-goal', 'bug', A, 'if (st.v_ == en)\n        return false;', '', S),
 ('empty-ss', 'bug', A, 'if (sts.size() == 0)\n      return false;', '', S),
 ('find-noerase', 'bug', A, 'parents.erase(child);', '', S),
 ('find-missing', 'bug', A, 'if (parents.find(n) == parents.end())\n        return false;', 'if (parents.find(n) == parents.end())\n        return true;', S),
 ('find-back', 'bug', A, 'path.push_front(n);', 'path.push_back(n);', S),
 ('start-cost0', 'bug', A, 'g[s] = st.c_;', 'g[s] = 0;', S),
 ('start-unwrapped', 'bug', A, 'Vec s = st.v_;\n      s.cycleUnsigned(g.size());', 'Vec s = st.v_;', S),
 ('start-noq', 'bug', A, 'open_.emplace(cost_estim + st.c_, st.c_, s);', 'if (cost_estim < cost_estim_min) open_.emplace(cost_estim + st.c_, st.c_, s);', S),
 ('start-prio', 'bug', A, 'open_.emplace(cost_estim + st.c_, st.c_, s);', 'open_.emplace(cost_estim, st.c_, s);', S),
 ('goal-unwrapped', 'bug', A, 'Vec e = en;\n    e.cycleUnsigned(g.size());', 'Vec e = en;', S),
 ('dont-always', 'bug', A, 'if (!updated)\n            dont.push_back(p);', 'dont.push_back(p);', S),
 ('dont-invert', 'bug', A, 'if (!updated)\n            dont.push_back(p);', 'if (updated)\n            dont.push_back(p);', S),
 ('default-limit', 'bug', A, ': queue_size_limit_(0)', ': queue_size_limit_(1000)', S),
 ('pop-twice', 'bug', A, 'open_.pop();\n', 'open_.pop();\n            open_.pop();\n', S),
 ('q-clear-noop', 'bug', Q, 'this->c.clear();', 'this->c.reserve(0);', S),
 ('skip-better', 'bug', A, 'if (g[next] < gp)\n            {', 'if (g[next] < c + 10)\n            {', S),
 # ok
 ('ok-helper', 'ok', A, ['if (cost < 0 || cost == std::numeric_limits<float>::max())\n              continue;', 'protected:\n  bool searchImpl('],
  ['if (!usable(cost))\n              continue;', 'protected:\n  static bool usable(const float c)\n  {\n    return !(c < 0) && c != std::numeric_limits<float>::max();\n  }\n  bool searchImpl('], S),
 ('ok-invert', 'ok', A, 'if (g[next] > cost_next)\n            {\n              updated = true;', 'if (cost_next < g[next])\n            {\n              updated = true;', S),
 ('ok-while', 'ok', A, 'for (auto it = search_list.cbegin(); it < search_list.cend(); ++it)\n          {\n            Vec next = p + *it;', 'for (const Vec& d : search_list)\n          {\n            Vec next = p + d;', S),
 ('ok-index-loop', 'ok', A, 'for (const GridmapUpdate& u : updates)\n          {', 'for (size_t k = 0; k < updates.size(); ++k)\n          {\n            const GridmapUpdate& u = updates[k];', S),
 ('ok-order', 'ok', A, 'g[u.getPos()] = u.getCost();\n              parents_[u.getPos()] = u.getParentPos();', 'parents_[u.getPos()] = u.getParentPos();\n              g[u.getPos()] = u.getCost();', S),
 ('ok-local', 'ok', A, 'g[u.getPos()] = u.getCost();\n', 'const Vec& pos = u.getPos();\n              const float nc = u.getCost();\n              g[pos] = nc;\n', S),
 ('ok-empty', 'ok', A, 'if (sts.size() == 0)', 'if (sts.empty())', S),
 ('ok-insert', 'ok', A, 'parents_[u.getPos()] = u.getParentPos();', 'parents_.insert_or_assign(u.getPos(), u.getParentPos());', S),
 ('ok-helper-start', 'ok', A, ['Vec s = st.v_;\n      s.cycleUnsigned(g.size());', 'protected:\n  bool searchImpl('], ['const Vec s = wrapped(st.v_, g.size());', 'protected:\n  static Vec wrapped(Vec v, const Vec& size)\n  {\n    v.cycleUnsigned(size);\n    return v;\n  }\n  bool searchImpl('], S),
 ('ok-apply-helper', 'ok', A, ['g[u.getPos()] = u.getCost();\n              parents_[u.getPos()] = u.getParentPos();\n              open_.push(std::move(u.getPriorityVec()));\n              if (queue_size_limit_ > 0 && open_.size() > queue_size_limit_)\n                open_.pop_back();', 'protected:\n  bool searchImpl('],
  ['applyUpdate(g, u);', 'protected:\n  void applyUpdate(Gridmap<float>& g, const GridmapUpdate& u)\n  {\n    g[u.getPos()] = u.getCost();\n    parents_[u.getPos()] = u.getParentPos();\n    open_.push(u.getPriorityVec());\n    if (queue_size_limit_ > 0 && open_.size() > queue_size_limit_)\n      open_.pop_back();\n  }\n  bool searchImpl('], S),
 ('ok-continue', 'ok', A, 'if (g[u.getPos()] > u.getCost())\n            {', 'if (!(g[u.getPos()] > u.getCost()))\n              continue;\n            {', S),
 ('ok-noop', 'ok', A, 'if (c > gp)\n            continue;', '(void)c;\n          if (c > gp)\n            continue;', S),
 ('ok-findpath-anyof', 'ok', A, 'bool found(false);\n      for (const VecWithCost& s : ss)\n      {\n        if (n == s.v_)\n        {\n          found = true;\n          break;\n        }\n      }\n      if (found)\n        break;', 'bool found(false);\n      for (size_t i = 0; i < ss.size() && !found; ++i)\n        found = (ss[i].v_ == n);\n      if (found)\n        return true;', S),
 ('ok-findpath-it', 'ok', A, 'if (parents.find(n) == parents.end())\n        return false;\n\n      const Vec child = n;\n      n = parents[child];\n      parents.erase(child);', 'const auto it = parents.find(n);\n      if (it == parents.end())\n        return false;\n\n      n = Vec(it->second);\n      parents.erase(it);', S),
 ('ok-findpath-helper', 'ok', A, ['bool found(false);\n      for (const VecWithCost& s : ss)\n      {\n        if (n == s.v_)\n        {\n          found = true;\n          break;\n        }\n      }\n      if (found)\n        break;', '  bool findPath('], ['if (isStart(ss, n))\n        break;', '  static bool isStart(const std::vector<VecWithCost>& ss, const Vec& n)\n  {\n    for (const VecWithCost& s : ss)\n    {\n      if (n == s.v_)\n        return true;\n    }\n    return false;\n  }\n  bool findPath('], S),
 ('ok-fetch-while', 'ok', A, 'for (size_t i = 0; i < search_task_num_;)\n          {\n            if (open_.size() == 0)\n              break;', 'size_t i = 0;\n          while (i < search_task_num_ && open_.size() > 0)\n          {', S),
 ('ok-relax-lambda', 'ok', A, 'const float cost_next = c + cost;', 'const auto total = [c](const float add) { return c + add; };\n            const float cost_next = total(cost);', S),
 # ---- vec
 ('v-uns-neg', 'bug', V, 'e_[i] = e_[i] % res;\n    if (e_[i] < 0)\n      e_[i] += res;', 'e_[i] = e_[i] % res;', ['P05']),
 ('v-uns-if', 'bug', V, 'e_[i] = e_[i] % res;\n    if (e_[i] < 0)\n      e_[i] += res;', 'if (e_[i] < 0)\n      e_[i] += res;\n    else if (e_[i] >= res)\n      e_[i] -= res;', ['P05']),
 ('v-uns-le', 'bug', V, 'if (e_[i] < 0)\n      e_[i] += res;', 'if (e_[i] <= 0)\n      e_[i] += res;', ['P05']),
 ('v-cyc-gt', 'bug', V, 'else if (e_[i] >= res / 2)', 'else if (e_[i] > res / 2)', ['P05']),
 ('v-exceed-signed', 'bug', V, 'if (static_cast<unsigned int>((*this)[i]) >= static_cast<unsigned int>(v[i]))', 'if ((*this)[i] >= v[i])', ['P05']),
 ('v-exceed-gt', 'bug', V, '>= static_cast<unsigned int>(v[i])', '> static_cast<unsigned int>(v[i])', ['P05']),
 ('v-exceed-one', 'bug', V, 'for (int i = 0; i < NONCYCLIC; ++i)\n    {\n      if (static', 'for (int i = 0; i < 1; ++i)\n    {\n      if (static', ['P05']),
 ('v-eq-non', 'bug', V, 'for (int i = 0; i < DIM; i++)\n      if (v.e_[i] != e_[i])', 'for (int i = 0; i < NONCYCLIC; i++)\n      if (v.e_[i] != e_[i])', ['P05']),
 ('v-cyc-dim', 'bug', V, 'for (int i = NONCYCLIC; i < DIM; ++i)\n      cycleUnsignedElement(i, res[i]);', 'for (int i = NONCYCLIC; i < DIM; ++i)\n      cycleUnsignedElement(i, res[0]);', ['P05']),
 ('v-trunc', 'bug', V, 'ret = std::lround(val);', 'ret = static_cast<int>(val);', ['P05']),
 ('v-line', 'bug', V, 'if ((a - b).dot2d(to_b) <= 0)', 'if ((b - a).dot2d(to_b) <= 0)', ['P05']),
 ('v-abs', 'bug', V, 'return std::abs(distLine2d(a, b));', 'return distLine2d(a, b);', ['P05']),
 ('v-rot', 'bug', V, 'sin_v * tmp[0] + cos_v * tmp[1]', 'sin_v * e_[0] + cos_v * tmp[1]', ['P05']),
 ('v-norm', 'bug', V, 'val += 2 * M_PI;', 'val += M_PI;', ['P05']),
 ('ok-v-mod', 'ok', V, 'e_[i] = e_[i] % res;\n    if (e_[i] < 0)\n      e_[i] += res;', 'const int m = e_[i] % res;\n    e_[i] = m < 0 ? m + res : m;', ['P05']),
 ('ok-v-mod2', 'ok', V, 'e_[i] = e_[i] % res;\n    if (e_[i] < 0)\n      e_[i] += res;', 'e_[i] = ((e_[i] % res) + res) % res;', ['P05']),
 ('ok-v-ne', 'ok', V, 'return !(*this == v);', 'for (int i = 0; i < DIM; i++)\n    {\n      if (v.e_[i] != e_[i])\n        return true;\n    }\n    return false;', ['P05']),
 ('ok-v-exceed', 'ok', V, 'if (static_cast<unsigned int>((*this)[i]) >= static_cast<unsigned int>(v[i]))', 'if (e_[i] < 0 || e_[i] >= v[i])', ['P05']),
 # ---- grid
 ('g-addr', 'bug', G, 'baddr *= block_size_[i];', 'baddr *= block_size_[0];', ['P06']),
 ('g-mask', 'bug', G, 'block_bit_mask_ = (1 << block_bit_) - 1', 'block_bit_mask_ = (1 << (block_bit_ - 1)) - 1', ['P06']),
 ('g-width', 'bug', G, '(size_tmp[i] + width - 1) / width', 'size_tmp[i] / width', ['P06']),
 ('g-cyc', 'bug', G, 'addr *= size_[i];\n', 'addr *= block_size_[i];\n', ['P06']),
 ('g-realloc', 'bug', G, '|| ser_capacity_ < ser_size_)', ')', ['P06']),
 ('g-alloc', 'bug', G, 'c_.reset(new T[ser_size_]);', 'c_.reset(new T[block_ser_size_]);', ['P06']),
 ('g-partial', 'bug', G, 'p[1] <= max[1]; ++p[1])', 'p[1] < max[1]; ++p[1])', ['P06']),
 ('g-copy-swap', 'bug', G, '(*this)[p + offset] = src[p];', '(*this)[p] = src[p + offset];', ['P06']),
 ('g-assign-size', 'bug', G, 'ser_size_ * sizeof(T)', 'ser_size_', ['P06']),
 ('g-validate', 'bug', G, 'if (pos[i] < 0 || size_[i] <= pos[i])', 'if (pos[i] < 0 || size_[i] < pos[i])', ['P06']),
 ('g-const', 'bug', G, 'const T operator[](const CyclicVecInt<DIM, NONCYCLIC>& pos) const override\n  {\n    size_t baddr, addr;\n    block_addr(pos, baddr, addr);\n    const size_t a = baddr * block_ser_size_ + addr;', 'const T operator[](const CyclicVecInt<DIM, NONCYCLIC>& pos) const override\n  {\n    size_t baddr, addr;\n    block_addr(pos, baddr, addr);\n    const size_t a = addr * block_num_ + baddr;', ['P06']),
 ('g-clear', 'bug', G, 'for (size_t i = 0; i < ser_size_; i++)\n    {\n      c_[i] = zero;', 'for (size_t i = 0; i < block_ser_size_; i++)\n    {\n      c_[i] = zero;', ['P06']),
 ('g-size', 'bug', G, 'size_ = size;\n  }', 'size_ = size_tmp;\n  }', ['P06']),
 ('ok-g-fill', 'ok', G, 'for (size_t i = 0; i < ser_size_; i++)\n    {\n      c_[i] = zero;\n    }\n  }\n  void clear_partially', 'std::fill(c_.get(), c_.get() + ser_size_, zero);\n  }\n  void clear_partially', ['P06']),
 ('ok-g-mod', 'ok', G, 'baddr += pos[i] >> block_bit_;', 'baddr += pos[i] / BLOCK_WIDTH;', ['P06']),
 ('ok-g-down', 'ok', G, 'for (p[0] = min[0]; p[0] <= max[0]; ++p[0])\n    {\n      for (p[1] = min[1]; p[1] <= max[1]; ++p[1])', 'for (p[0] = max[0]; p[0] >= min[0]; --p[0])\n    {\n      for (p[1] = min[1]; p[1] <= max[1]; ++p[1])', ['P06']),
 ('ok-g-copyn', 'ok', G, 'memcpy(c_.get(), gm.c_.get(), ser_size_ * sizeof(T));', 'for (size_t i = 0; i < ser_size_; ++i)\n      c_[i] = gm.c_[i];', ['P06']),
 ('ok-g-helper', 'ok', G, ['const size_t a = baddr * block_ser_size_ + addr;\n    if (ENABLE_VALIDATION)\n    {\n      if (a >= ser_size_)\n        return dummy_;', 'public:\n  std::function'], ['const size_t a = serial(baddr, addr);\n    if (ENABLE_VALIDATION)\n    {\n      if (a >= ser_size_)\n        return dummy_;', '  size_t serial(const size_t baddr, const size_t addr) const\n  {\n    return addr + block_ser_size_ * baddr;\n  }\n\npublic:\n  std::function'], ['P06']),
]
