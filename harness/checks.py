"""Which generators, design models and trace module decide each property."""


def gen(module, n, n_thorough, depth=200, big=0, **env):
    """scenarios on small grids and, where grids matter, some on larger ones"""
    out = [dict(module=module, n=n, n_thorough=n_thorough, depth=depth, env=env)]
    if big:
        out.append(dict(module=module, n=big, n_thorough=big * n_thorough // n, depth=depth, env=dict(env, BIG='1'), tag='b'))
    return out


# exhaustive or randomised model checking of the specification itself
ALGEBRA = [dict(module='MCAlgebra', cfg='MCAlgebra.cfg', cfg_thorough='MCAlgebra_deep.cfg', num='num_gf', workers=2, timeout=1800, args=['-seed', '{seed}'])]
SESSION = [dict(module='MCSession', cfg='MCSession.cfg', cfg_thorough='MCSession_deep.cfg', num='num_gf', workers=2, timeout=1800)]
REQUEST = SESSION + [dict(module='MCRequest', cfg='MCRequest.cfg', cfg_thorough='MCRequest_deep.cfg', num='num_gf', workers=2, timeout=1800)]
DESIGN = [dict(module='MCDesign', cfg='MCDesign.cfg', cfg_thorough='MCDesign_deep.cfg', num='num_f64', workers=2, timeout=1800),
          dict(module='MCDesign', cfg='', cfg_thorough='MCDesign_large.cfg', num='num_f64', workers=2, timeout=3600)]
GEOMETRY = [dict(module='MCGeometry', cfg='MCGeometry.cfg', cfg_thorough='MCGeometry_deep.cfg', num='num_f64', workers=4, timeout=1800)]
LOOP = [dict(module='MCLoop', cfg='MCLoop.cfg', cfg_thorough='MCLoop_deep.cfg', num='num_f64', workers=2, timeout=1800)]

CHECKS = {
    'C01': dict(gens=gen('GenC01', 120, 3000, big=24), models=ALGEBRA),
    'C02': dict(gens=gen('GenSession', 80, 1500, 80, 16, MAXOBJ='2', OPS='14'), models=SESSION),
    'C03': dict(gens=gen('GenC03', 80, 1500, big=16), models=ALGEBRA),
    'C04': dict(gens=gen('GenC04', 100, 2500, big=16), models=ALGEBRA),
    'C05': dict(gens=gen('GenC05', 120, 3000, big=8), models=ALGEBRA),
    'C06': dict(gens=gen('GenC06', 240, 5000, big=16), models=ALGEBRA),
    'C07': dict(gens=gen('GenC07', 160, 4000, big=16, NL='0'), models=ALGEBRA),
    'C08': dict(gens=gen('GenC07', 160, 4000, big=12, NL='1'), models=ALGEBRA),
    'C09': dict(gens=gen('GenC09', 300, 8000, big=24), models=DESIGN),
    'C10': dict(gens=gen('GenC10', 120, 2500, 60, 10, OPS='12'), models=REQUEST),
    'C11': dict(gens=gen('GenC11', 96, 2000, big=10, EXACT='0'), models=LOOP),
    'C12': dict(gens=gen('GenC11', 96, 2000, big=10, EXACT='1'), models=LOOP),
    'C13': dict(gens=gen('GenC13', 160, 3000, 70, 12)),
    'C14': dict(gens=gen('GenC14', 160, 4000)),
    'C15': dict(gens=gen('GenC15', 700, 10000), models=GEOMETRY),
    'C16': dict(gens=gen('GenC16', 200, 6000, big=12), models=ALGEBRA),
    'C17': dict(gens=gen('GenC17', 400, 12000, big=24), models=ALGEBRA),
    'C18': dict(gens=gen('GenC18', 350, 10000)),
    'C19': dict(gens=gen('GenC19', 250, 6000, big=16)),
    'C20': dict(gens=gen('GenC20', 250, 5000, big=12)),
    'C21': dict(gens=[dict(module='GenC21', n=0, bfs=True)]),
    'C22': dict(gens=gen('GenC22', 160, 2500)),
    'C23': dict(gens=gen('GenSession', 64, 1000, 80, 12, MAXOBJ='4', OPS='18') + gen('GenC23', 96, 1500, 80, OPS='18'), models=SESSION),
}
