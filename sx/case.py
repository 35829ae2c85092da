"""Registry of harness functions."""
import itertools


def registry():
    cases = []

    def case(grid=None, grid_thorough=None, bounds='', max_paths=None,
             max_decisions=None, skip=None, thorough_only=False):
        def deco(fn):
            cases.append({'name': fn.__name__, 'fn': fn, 'grid': grid or {},
                          'grid_thorough': grid_thorough, 'bounds': bounds,
                          'max_paths': max_paths, 'skip': skip,
                          'max_decisions': max_decisions,
                          'thorough_only': thorough_only})
            return fn
        return deco
    return cases, case


def tasks(cases, tier):
    out = []
    for c in cases:
        if c['thorough_only'] and tier != 'thorough':
            continue
        grid = dict(c['grid'])
        if tier == 'thorough' and c['grid_thorough']:
            grid.update(c['grid_thorough'])
        keys = list(grid)
        for combo in itertools.product(*[grid[k] for k in keys]):
            params = dict(zip(keys, combo))
            if c['skip'] and c['skip'](**params):
                continue
            name = c['name']
            if params:
                name += '[%s]' % ','.join('%s=%s' % (k, params[k])
                                          for k in keys)
            out.append((c, name, params))
    return out
