P = 'costmap_cspace/include/costmap_cspace/polygon.h'
S = 'safety_limiter/src/safety_limiter.cpp'
C = ['C01']
COND0 = '''if ((v1[1] <= a[1] && a[1] < v2[1]) ||
          (v2[1] <= a[1] && a[1] < v1[1]))'''
BODY0 = '''        float lx;
        lx = v1[0] + (v2[0] - v1[0]) * (a[1] - v1[1]) / (v2[1] - v1[1]);
        if (a[0] < lx)
          cn++;'''
cases = []
for F in (P, S):
    t = 'p' if F is P else 's'
    ind = lambda z: z if F is P else z.replace('\n', '\n  ')
    COND, BODY = ind(COND0), BODY0 if F is P else '  ' + ind(BODY0)
    def c(n, k, o, w, F=F, t=t):
        cases.append((n + '-' + t, k, F, o, w, C))
    c('le-both', 'bug', COND, COND.replace('a[1] < v2[1]', 'a[1] <= v2[1]').replace('a[1] < v1[1]', 'a[1] <= v1[1]'))
    c('lt-both', 'bug', COND, COND.replace('v1[1] <= a[1]', 'v1[1] < a[1]').replace('v2[1] <= a[1]', 'v2[1] < a[1]'))
    c('mixed-open', 'bug', COND, COND.replace('v2[1] <= a[1] && a[1] < v1[1]', 'v2[1] < a[1] && a[1] <= v1[1]'))
    c('other-half', 'ok', COND, COND.replace('v1[1] <= a[1] && a[1] < v2[1]', 'v1[1] < a[1] && a[1] <= v2[1]').replace('v2[1] <= a[1] && a[1] < v1[1]', 'v2[1] < a[1] && a[1] <= v1[1]'))
    c('xor-form', 'ok', COND, 'if ((v1[1] <= a[1]) != (v2[1] <= a[1]))')
    c('xor-form2', 'ok', COND, 'if ((v1[1] > a[1]) != (v2[1] > a[1]))')
    c('one-direction', 'bug', COND, 'if (v1[1] <= a[1] && a[1] < v2[1])')
    c('lx-dx', 'bug', '(v2[0] - v1[0]) * (a[1] - v1[1]) /', '(v2[0] - v1[0]) * (a[1] - v2[1]) /')
    c('lx-abs', 'bug', BODY, BODY.replace('(v2[1] - v1[1])', 'std::abs(v2[1] - v1[1])'))
    c('right-ray', 'ok', 'if (a[0] < lx)', 'if (a[0] > lx)')
    c('cross-form', 'ok', BODY, '''        const float cr = (v2[0] - v1[0]) * (a[1] - v1[1]) - (a[0] - v1[0]) * (v2[1] - v1[1]);
        if ((v2[1] > v1[1]) == (cr > 0))
          cn++;''')
    c('cross-form-nosign', 'bug', BODY, '''        const float cr = (v2[0] - v1[0]) * (a[1] - v1[1]) - (a[0] - v1[0]) * (v2[1] - v1[1]);
        if (cr > 0)
          cn++;''')
    c('both-y', 'bug', 'if (a[0] < lx)', 'if (a[1] < lx)')
    c('mod', 'ok', 'return ((cn & 1) == 1);', 'return cn % 2 != 0;')
    c('nonzero', 'bug', 'return ((cn & 1) == 1);', 'return cn != 0;')
    c('bit2', 'bug', 'return ((cn & 1) == 1);', 'return ((cn & 2) == 2);')
    c('break', 'bug', '          cn++;', '        {\n          cn++;\n          break;\n        }')
    INS = '''    int cn = 0;
    for (size_t i = 0; i < v.size() - 1; i++)
    {
      auto& v1 = v[i];
      auto& v2 = v[i + 1];
'''
    if F is S:
        INS = INS.replace('\n    ', '\n      ').replace('    int', '      int', 1)
    COND_ = COND
    def c2(n, k, o, w, F=F, t=t):
        if F is S:
            o = '\n'.join(('  ' + l if l.strip() else l) for l in o.split('\n'))
            w = '\n'.join(('  ' + l if l.strip() else l) for l in w.split('\n'))
        cases.append((n + '-' + t, k, F, o, w, C))
    WHOLE = '''    int cn = 0;
    for (size_t i = 0; i < v.size() - 1; i++)
    {
      auto& v1 = v[i];
      auto& v2 = v[i + 1];
      if ((v1[1] <= a[1] && a[1] < v2[1]) ||
          (v2[1] <= a[1] && a[1] < v1[1]))
      {
        float lx;
        lx = v1[0] + (v2[0] - v1[0]) * (a[1] - v1[1]) / (v2[1] - v1[1]);
        if (a[0] < lx)
          cn++;
      }
    }
    return ((cn & 1) == 1);'''
    c2('toggle', 'ok', WHOLE, WHOLE.replace('int cn = 0', 'bool in = false').replace('cn++', 'in = !in').replace('((cn & 1) == 1)', 'in'))
    c2('toggle-true', 'bug', WHOLE, WHOLE.replace('int cn = 0', 'bool in = false').replace('cn++', 'in = true').replace('((cn & 1) == 1)', 'in'))
    c2('from1', 'ok', WHOLE, WHOLE.replace('size_t i = 0; i < v.size() - 1', 'size_t i = 1; i < v.size()').replace('v[i]', 'v[i - 1]').replace('v[i + 1]', 'v[i]'))
    c2('from1-short', 'bug', WHOLE, WHOLE.replace('size_t i = 0; i < v.size() - 1', 'size_t i = 1; i < v.size() - 1').replace('v[i]', 'v[i - 1]').replace('v[i + 1]', 'v[i]'))
    c2('skip-first', 'bug', WHOLE, WHOLE.replace('size_t i = 0', 'size_t i = 1'))
    c2('skip-last', 'bug', WHOLE, WHOLE.replace('v.size() - 1', 'v.size() - 2'))
    c2('down', 'ok', WHOLE, WHOLE.replace('size_t i = 0; i < v.size() - 1; i++', 'int i = static_cast<int>(v.size()) - 2; i >= 0; i--'))
    c2('while', 'ok', WHOLE, WHOLE.replace('for (size_t i = 0; i < v.size() - 1; i++)\n    {', 'size_t i = 0;\n    while (i + 1 < v.size())\n    {').replace('      }\n    }', '      }\n      ++i;\n    }'))
    c2('jwrap', 'ok', WHOLE, WHOLE.replace('size_t i = 0; i < v.size() - 1; i++', 'size_t i = 0, j = v.size() - 1; i < v.size(); j = i++').replace('v[i]', 'v[j]').replace('v[i + 1]', 'v[i]'))
    c2('iter', 'ok', WHOLE, WHOLE.replace('size_t i = 0; i < v.size() - 1; i++', 'auto it = v.begin(); it + 1 != v.end(); ++it').replace('v[i]', '*it').replace('v[i + 1]', '*(it + 1)'))
    c2('bbox', 'ok', WHOLE, WHOLE.replace('if ((v1', 'const float y = a[1];\n      if ((v1').replace('a[1]', 'y').replace('y = y', 'y = a[1]'))
    c2('continue', 'ok', WHOLE, WHOLE.replace('''      if ((v1[1] <= a[1] && a[1] < v2[1]) ||
          (v2[1] <= a[1] && a[1] < v1[1]))
      {''', '''      if (!((v1[1] <= a[1] && a[1] < v2[1]) ||
            (v2[1] <= a[1] && a[1] < v1[1])))
        continue;
      {'''))
    # distance
    c('min-first', 'bug', 'if (d < dist)\n', 'if (dist > 0)\n')
    c('max', 'bug', 'if (d < dist)\n', 'if (d > dist)\n')
    c('stdmin', 'ok', '''if (d < dist)\n''', '''if (std::min<float>(d, dist) < dist)\n''')
    c('ls-end', 'bug', 'return this->dist(b);', 'return this->dist(a);')
    c('ls-abs', 'bug', 'return std::abs(this->dist_line(a, b));', 'return this->dist_line(a, b);')
    c('ls-sign', 'bug', 'if ((a - b).dot((*this) - b) <= 0)', 'if ((b - a).dot((*this) - b) <= 0)')
    c('ls-lt', 'ok', 'if ((b - a).dot((*this) - a) <= 0)', 'if ((b - a).dot((*this) - a) < 0)')
    c('hyp', 'ok', 'return std::hypot((*this)[0] - a[0], (*this)[1] - a[1]);', 'const auto d = (*this) - a;\n      return std::sqrt(d.dot(d));')
    c('hyp-bug', 'bug', 'return std::hypot((*this)[0] - a[0], (*this)[1] - a[1]);', 'const auto d = (*this) - a;\n      return std::abs(d[0]) + std::abs(d[1]);')
    # motion
    c('mv-sign', 'bug', 'p[0] = cos_v * tmp[0] - sin_v * tmp[1] + x;', 'p[0] = cos_v * tmp[0] + sin_v * tmp[1] + x;')
    c('mv-inplace', 'bug', 'p[1] = sin_v * tmp[0] + cos_v * tmp[1] + y;', 'p[1] = sin_v * p[0] + cos_v * tmp[1] + y;')
    c('mv-xx', 'bug', 'p[1] = sin_v * tmp[0] + cos_v * tmp[1] + y;', 'p[1] = sin_v * tmp[0] + cos_v * tmp[1] + x;')
    c('mv-index', 'ok', 'for (auto& p : v)\n', 'for (size_t k = 0; k < v.size(); ++k)\n')
cases = [x for x in cases if not x[0].startswith('mv-index')]
for F, t, q in ((P, 'p', 'auto tmp'), (S, 's', 'const auto tmp')):
    sp = '' if F is P else '  '
    old = '    for (auto& p : v)\n    {\n      %s = p;' % q
    new = '    for (size_t k = 0; k < v.size(); ++k)\n    {\n      auto& p = v[k];\n      %s = p;' % q
    short = new.replace('k = 0', 'k = 1')
    ad = lambda s: '\n'.join(sp + l if l.strip() else l for l in s.split('\n'))
    cases.append(('mv-index-' + t, 'ok', F, ad(old), ad(new), C))
    cases.append(('mv-short-' + t, 'bug', F, ad(old), ad(short), C))
cases += [
 ('rad-x', 'bug', P, 'const auto dist = std::hypot(p[0], p[1]);', 'const auto dist = std::abs(p[0]);', C),
 ('rad-min', 'bug', P, 'if (dist > radius)', 'if (dist < radius)', C),
 ('rad-max', 'ok', P, '      if (dist > radius)\n        radius = dist;', '      radius = std::max<float>(radius, dist);', C),
 ('ctor-noclose', 'bug', P, '    v.push_back(v.front());\n  }', '  }', C),
 ('ctor-closeback', 'bug', P, 'v.push_back(v.front());', 'v.push_back(v.back());', C),
 ('ctor-swap', 'bug', P, 'p[1] = static_cast<double>(footprint_xml[i][1]);', 'p[1] = static_cast<double>(footprint_xml[i][0]);', C),
 ('ctor-skip', 'bug', P, 'for (int i = 0; i < footprint_xml.size(); i++)', 'for (int i = 1; i < footprint_xml.size(); i++)', C),
 ('ctor-few', 'bug', P, 'footprint_xml.size() < 3', 'footprint_xml.size() < 2', C),
 ('ctor-copyclose', 'ok', P, 'v.push_back(v.front());', 'const Vec first = v[0];\n    v.push_back(first);', C),
]
CASES = cases
