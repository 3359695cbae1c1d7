G = 'planner_cspace/include/planner_cspace/grid_astar.h'
D = 'planner_cspace/src/distance_map.cpp'
P = ['P04']
BC = '''#pragma omp barrier
#pragma omp critical
        {
          for (const GridmapUpdate'''
BS = '''#pragma omp barrier
#pragma omp single
        {
          const size_t num'''
CASES = [
    ('no-critical', 'bug', G, BC, BC.replace('#pragma omp critical\n', ''), P),
    ('nowait', 'bug', G, ['#pragma omp for schedule(static)', BC], ['#pragma omp for schedule(static) nowait', BC.replace('#pragma omp barrier\n', '')], P),
    ('ok-nowait-barrier', 'ok', G, '#pragma omp for schedule(static)', '#pragma omp for schedule(static) nowait', P + ['P01', 'P02', 'P03']),
    ('ok-implicit', 'ok', G, BC, BC.replace('#pragma omp barrier\n', ''), P + ['P01', 'P02', 'P03']),
    ('no-top-barrier', 'bug', G, BS, BS.replace('#pragma omp barrier\n', ''), P),
    ('single-nowait', 'bug', G, '#pragma omp single\n', '#pragma omp single nowait\n', P),
    ('no-single', 'bug', G, '#pragma omp single\n', '', P),
    ('master', 'bug', G, '#pragma omp single\n', '#pragma omp master\n', P),
    ('master-barrier', 'ok', G, ['#pragma omp single\n', '        if (centers.size() < 1 || found || abort)'], ['#pragma omp master\n', '#pragma omp barrier\n        if (centers.size() < 1 || found || abort)'], P),
    ('shared-updates', 'bug', G, ['#pragma omp parallel\n    {\n      std::vector<GridmapUpdate> updates;\n'], ['    std::vector<GridmapUpdate> updates;\n#pragma omp parallel\n    {\n'], P),
    ('shared-dont', 'bug', G, ['#pragma omp parallel\n    {\n', '      std::vector<Vec> dont;\n'], ['    std::vector<Vec> dont;\n#pragma omp parallel\n    {\n', ''], P),
    ('static-dont', 'bug', G, '      std::vector<Vec> dont;\n', '      static std::vector<Vec> dont;\n', P),
    ('write-in-loop', 'bug', G, '            dont.push_back(p);', '          {\n            g[p] = -1;\n            dont.push_back(p);\n          }', P),
    ('num-outside', 'bug', G, '          if (!updated)\n', '          num_updates++;\n          if (!updated)\n', P),
    ('private-break', 'bug', G, '#pragma omp barrier\n#pragma omp critical', '        if (updates.empty())\n          break;\n#pragma omp barrier\n#pragma omp critical', P),
    ('thread-break', 'bug', G, '        if (centers.size() < 1 || found || abort)', '        if (centers.size() < 1 || found || abort || omp_get_thread_num() > 8)', P),
    ('ok-finished', 'ok', G, '        if (centers.size() < 1 || found || abort)\n', '        const bool finished = centers.empty() || found || abort;\n        if (finished)\n', P),
    ('names', 'bug', G, ['#pragma omp critical\n          {', '#pragma omp critical\n        {\n          for'], ['#pragma omp critical(best)\n          {', '#pragma omp critical(best)\n        {\n          for'], ['P01'] if False else ['P04'][:0] + ['P02'][:0] + P),
    ('late-stats', 'bug', G, '        }  // omp critical\n      }', '        }  // omp critical\n        if (open_.size() == 0)\n          num_updates = 0;\n      }', P),
    ('member-buffer', 'bug', [G, G, G], ['      std::vector<Vec> dont;\n', '          const std::vector<Vec> search_list = model->searchGrids(p, ss_normalized, e);\n', '  size_t search_task_num_;\n};'],
     ['      std::vector<Vec> dont;\n', '          search_list_ = model->searchGrids(p, ss_normalized, e);\n          const std::vector<Vec>& search_list = search_list_;\n', '  size_t search_task_num_;\n  std::vector<Vec> search_list_;\n};'], P),
    ('dm-edges', 'bug', D, 'edge_indexes.push_back(p[0] + p[1] * p_.size[0]);', 'edges_buf_[p[0] + p[1] * p_.size[0]] = true;', P),
    ('dm-nolock', 'bug', D, '#pragma omp critical\n', '', P),
    ('dm-flag', 'bug', D, '#pragma omp atomic write\n', '', P),
    ('dm-barrier', 'bug', D, '    while (true)\n    {\n#pragma omp barrier\n', '    while (true)\n    {\n', P),
    ('dm-push', 'bug', D, '            updates.emplace_back(p, next, cost_next, cost_next);', '            g_[next] = cost_next;\n            updates.emplace_back(p, next, cost_next, cost_next);', P),
    ('dm-open', 'bug', D, '#pragma omp barrier\n#pragma omp critical\n      {\n', '#pragma omp barrier\n      if (open.size() > 100)\n        updates.clear();\n#pragma omp critical\n      {\n', P),
]
CASES = [c for c in CASES if c[0] != 'names'] + [
    ('ok-names', 'ok', G, '#pragma omp critical\n          {', '#pragma omp critical(best)\n          {', P)]
