"""What is run for each property: harness, sizes, bounds, reachability witnesses."""

class V:
    """One symbolic run. src: harness; defs: macros; cov: labels that must be
    reached; tags: checks that belong to the property (regular expression);
    tier: 'q' in both tiers, 't' thorough only; native: paths replayed natively."""
    def __init__(self, src, defs='', cov='', tags='', tier='q', secs=240, native=0, note=''):
        self.src, self.defs, self.tags, self.tier, self.secs, self.native, self.note = src, defs.split(), tags, tier, secs, native, note
        self.cov = [c for c in cov.split('|') if c]
        self.name = src.replace('.cpp', '') + (' ' + defs if defs else '')

def T(*a, **k):
    k['tier'] = 't'
    k.setdefault('secs', 800)
    return V(*a, **k)

# name -> (bounds text, variants)
C = {}

C['C01'] = ('sizes up to nx=3 nu=2 ny=1, prediction horizon up to 5, control horizon 1..prediction horizon; one solve; solver vector, measured state, scales in [1/4,4] and coefficients any real in [-3,3]', [
    V('nl_expand.cpp', '-DSCALE=0', 'end', native=2),
    V('nl_expand.cpp', '-DSCALE=1', 'end'),
    V('nl_expand.cpp', '-DSCALE=2 -DNU=2 -DREREG', 'end'),
    V('nl_expand.cpp', '-DSCALE=1 -DDYN=1 -DPH=2 -DCH=2 -DRNG=1e6', 'end'),
    V('nl_expand.cpp', '-DSCALE=1 -DPH=3 -DCH=1 -DNX=1 -DNU=2', 'end'),
    V('nl_expand.cpp', '-DSCALE=1 -DPH=8 -DCH=5 -DRNG=1e6', 'end'),
    T('nl_expand.cpp', '-DSCALE=1 -DPH=5 -DCH=3 -DNX=3 -DNU=2', 'end'),
    T('nl_expand.cpp', '-DSCALE=2 -DPH=5 -DCH=5 -DDYN=1', 'end'),
    T('nl_expand.cpp', '-DSCALE=1 -DPH=1 -DCH=1', 'end'),
    T('nl_expand.cpp', '-DSCALE=2 -DPH=15 -DCH=10 -DNX=4 -DNU=3', 'end'),
])
C['C02'] = ('up to 3 solves, each succeeding or failing, warm start on or off and slack free or fixed at each; bounds on every state and input of every step, or none; sizes as listed; every real in range', [
    V('nl_start.cpp', '-DSCALE=0', 'cold|warm|solved|failed', native=3),
    V('nl_start.cpp', '-DSCALE=3', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=1 -DDYN=1', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=2 -DPH=2 -DCH=2 -DNU=2', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=3 -DPH=3 -DCH=1', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=3 -DPH=7 -DCH=4 -DRNG=1e6', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=1 -DBND=1 -DNX=1 -DPH=2 -DCH=1 -DCALLS=2 -DRNG=1e6', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=1 -DBND=2 -DNX=1 -DPH=2 -DCH=2 -DCALLS=2', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=0 -DBND=3 -DNX=1 -DPH=1 -DCH=1 -DCALLS=2 -DDYN=1', 'cold|warm|solved|failed', native=1),
    T('nl_start.cpp', '-DSCALE=1 -DBND=3 -DNX=1 -DPH=2 -DCH=2 -DCALLS=2', 'cold|warm|solved|failed'),
    T('nl_start.cpp', '-DSCALE=0 -DBND=3 -DNX=2 -DPH=2 -DCH=1 -DCALLS=2 -DDYN=1 -DHARD', 'cold|warm|solved|failed'),
    V('nl_start.cpp', '-DSCALE=0 -DNX=1 -DPH=1 -DCH=1 -DHARD', 'cold|warm|solved|failed'),
    T('nl_start.cpp', '-DSCALE=3 -DBND=3 -DPH=3 -DCH=2 -DHARD', 'cold|warm|solved|failed'),
    T('nl_start.cpp', '-DSCALE=3 -DPH=5 -DCH=3 -DNX=3 -DNU=2', 'cold|warm|solved|failed'),
    T('nl_start.cpp', '-DSCALE=3 -DPH=4 -DCH=4 -DDYN=1', 'cold|warm|solved|failed'),
    T('nl_start.cpp', '-DSCALE=3 -DPH=12 -DCH=7 -DNX=4 -DNU=3', 'cold|warm|solved|failed'),
])
bc = 'input matrix|input slice|state matrix|state slice|state scale|input scale|solve'
C['C03'] = ('sequences of 2 calls (3 for one size; thorough two) among bound, scale and parameter setters with all slices, then a solve', [
    V('nl_bounds.cpp', '-DNU=2 -DPH=2', bc, native=3),
    V('nl_bounds.cpp', '-DNU=2 -DPH=2 -DDYN=1', bc),
    V('nl_bounds.cpp', '-DNX=1 -DPH=3 -DCH=1', bc),
    V('nl_bounds.cpp', '-DNX=1 -DPH=3 -DCH=3', bc),
    V('nl_bounds.cpp', '-DNX=1 -DPH=6 -DCH=4 -DRNG=1e20', bc),
    V('nl_bounds.cpp', '-DNX=1 -DPH=2 -DCH=1 -DOPS=3', bc),
    T('nl_bounds.cpp', '-DNU=2 -DPH=2 -DOPS=3', bc),
    T('nl_bounds.cpp', '-DNU=1 -DPH=4 -DCH=3', bc),
    T('nl_bounds.cpp', '-DNX=1 -DPH=10 -DCH=6', bc),
])
con = lambda w: [
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DSCALE=0', 'end', native=2),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DSCALE=1', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DSCALE=2 -DDYN=1 -DREREG', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DPH=2 -DCH=2 -DNU=2 -DSCALE=1', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DPH=2 -DCH=1 -DNX=1 -DSCALE=0 -DCALLS=2', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DPH=3 -DCH=1 -DNX=1 -DNU=2 -DSCALE=2', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DPH=6 -DCH=4 -DSCALE=1 -DRNG=1e6', 'end'),
    T('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DSCALE=3', 'end'),
    T('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DSCALE=4', 'end'),
    T('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DPH=5 -DCH=3 -DNX=3 -DNU=2 -DSCALE=1', 'end'),
    T('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DPH=12 -DCH=7 -DNX=4 -DNU=3 -DSCALE=1', 'end'),
    T('nl_con.cpp', f'-DWHAT={w} -DTIME=0 -DCALLS=2 -DNPOINT=3 -DSCALE=2', 'end'),
]
cont = lambda w: [
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=1 -DSCALE=0', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=1 -DSCALE=1 -DNU=2 -DRNG=1e6', 'end'),
    V('nl_con.cpp', f'-DWHAT={w} -DTIME=1 -DSCALE=2 -DDYN=1 -DPH=3 -DCH=3', 'end'),
    T('nl_con.cpp', f'-DWHAT={w} -DTIME=1 -DPH=4 -DCH=2 -DNX=3 -DNU=2 -DSCALE=1', 'end'),
]
nb = 'every solver vector with components in [-3,3], every scale in [1/4,4], every coefficient in [-3,3]; '
C['C05'] = (nb + 'dynamics with quadratic and bilinear terms and time dependence', con(1) + cont(1))
C['C06'] = (nb + 'dynamics at most quadratic in each variable, on which central differences are exact', con(2) + cont(2))
C['C07'] = (nb + 'constraints at most quadratic in each variable, on which central differences are exact', con(3) + [
    V('nl_con.cpp', '-DWHAT=3 -DNOOUT -DSCALE=1 -DNY=0', 'end'),
    V('nl_con.cpp', '-DWHAT=3 -DNI=3 -DNE=2 -DPH=2 -DSCALE=1', 'end'),
])
C['C08'] = (nb + 'objectives affine in each variable (products of different ones allowed), on which forward differences are exact', con(4) + [
    V('nl_con.cpp', '-DWHAT=4 -DNOOUT -DSCALE=1 -DNY=0', 'end'),
])
C['C09'] = ('one or two solves; constraint values any real in range or NaN; tolerances fixed', [
    V('nl_feas.cpp', '-DMODE=0', 'feasible|infeasible', native=2),
    V('nl_feas.cpp', '-DMODE=1', 'feasible|infeasible'),
    V('nl_feas.cpp', '-DMODE=2 -DNE=2', 'feasible|infeasible|failed'),
    V('nl_feas.cpp', '-DMODE=1 -DDYN=1', 'feasible|infeasible'),
    V('nl_feas.cpp', '-DMODE=0 -DPH=5 -DCH=3 -DRNG=1e6', 'feasible|infeasible'),
    T('nl_feas.cpp', '-DMODE=1 -DPH=8 -DCH=5 -DNE=3', 'feasible|infeasible'),
])
C['C10'] = ('histories of 2 solves with every outcome (answers, error codes, exceptions); sizes as listed', [
    V('nl_result.cpp', '', 'failure|success|with outputs', native=3),
    V('nl_result.cpp', '-DSCALE=1 -DNU=2', 'failure|success|with outputs'),
    V('nl_result.cpp', '-DSCALE=1 -DDYN=1 -DPH=2 -DCH=2', 'failure|success|with outputs'),
    V('nl_result.cpp', '-DSCALE=1 -DPH=3 -DCH=1', 'failure|success|with outputs'),
    V('nl_result.cpp', '-DSCALE=1 -DPH=6 -DCH=4 -DRNG=1e6', 'failure|success|with outputs'),
    T('nl_result.cpp', '-DSCALE=1 -DPH=10 -DCH=6 -DNX=3', 'failure|success|with outputs'),
])
C['C11'] = ('every nlopt code in the harness range and every OSQP code in [-11,6]', [
    V('nl_result.cpp', '-DSTATUS=1', 'failure|success|limit|unknown code', tags='status|code', native=2),
    V('nl_result.cpp', '-DSTATUS=1 -DDYN=1', 'failure|success|limit|unknown code', tags='status|code'),
    V('lm_run.cpp', '-DMODE=1', 'answer|no solution|end', tags='status|code|never a success', native=2),
    V('lm_run.cpp', '-DMODE=1 -DDYN=1', 'answer|no solution|end', tags='status|code|never a success'),
])
FULL = 0b1010101010111 # every matrix setter once
lmt = lambda chk, cov, *more: [
    V('lm_prob.cpp', f'-DCHK={chk}', cov + '|end', native=2),
    V('lm_prob.cpp', f'-DCHK={chk} -DDYN=1 -DPRE={FULL}', cov + '|end'),
    V('lm_prob.cpp', f'-DCHK={chk} -DPOS=0 -DNU=2 -DPRE={FULL}', cov + '|end'),
    V('lm_prob.cpp', f'-DCHK={chk} -DPH=1 -DCH=1 -DOPS=2', cov.replace('increments', 'end').replace('past the control horizon', 'end') + '|end'),
    V('lm_prob.cpp', f'-DCHK={chk} -DCH=1 -DNY=2 -DPRE={FULL}', cov + '|end'),
    V('lm_prob.cpp', f'-DCHK={chk} -DPH=6 -DCH=4 -DNX=1 -DPRE={FULL} -DRNG=1e6', cov + '|end'),
    *[V('lm_prob.cpp', f'-DCHK={chk} {m}', 'all|end') for m in more],
    T('lm_prob.cpp', f'-DCHK={chk} -DPH=2 -DCH=1 -DOPS=2', cov + '|end'),
    T('lm_prob.cpp', f'-DCHK={chk} -DPH=4 -DCH=3 -DNU=2', cov + '|end'),
    T('lm_prob.cpp', f'-DCHK={chk} -DND=0', cov + '|end'),
    T('lm_prob.cpp', f'-DCHK={chk} -DNX=3 -DNU=2 -DND=2 -DNY=2 -DPH=2', cov + '|end'),
    T('lm_prob.cpp', f'-DCHK={chk} -DPH=10 -DCH=7 -DNX=1 -DPRE={FULL}', cov + '|end'),
    T('lm_prob.cpp', f'-DCHK={chk} -DPH=5 -DCH=3 -DNX=3 -DNU=3 -DNY=3 -DND=2 -DPRE={FULL}', cov + '|end'),
]
lb = 'sequences of 1 setter call after the model (2 at horizon 1; thorough: 2 at horizon 2) among all setters, with all slices and every real value in range, an optimisation after each'
C['C12'] = (lb, lmt(1, 'dynamics|model|disturbance matrices|exogenous matrix|exogenous slice', '-DMASK=15 -DOPS=2 -DPH=2 -DCH=1'))
C['C13'] = (lb, lmt(2, 'cost|weights matrix|weights slice|references matrix|references slice', '-DMASK=255 -DOPS=2 -DPH=2 -DCH=1'))
C['C14'] = (lb, lmt(4, 'bounds|state bounds matrix|state bounds slice|input bounds matrix|input bounds slice|output bounds matrix|output bounds slice|step constraints', '-DMASK=17152 -DOPS=2 -DPH=2 -DCH=1', '-DMASK=19456 -DOPS=2 -DPH=3 -DCH=2', '-DMASK=28672 -DOPS=2 -DPH=2 -DCH=1'))
C['C15'] = (lb, lmt(8, 'increments'))
C['C16'] = (lb, lmt(16, 'scalar rows|scalar slice|scalar index|index rejected', '-DMASK=98304 -DOPS=2 -DPH=3', '-DMASK=98304 -DOPS=3 -DPH=2 -DNX=1'))
W = (1 << 4) | (1 << 5); R = (1 << 6) | (1 << 7); X = (1 << 2) | (1 << 3)
B = 0b111111 << 8
C['C17'] = ('sequences of 2 calls among the setters of one kind (weights; references; exogenous inputs; bounds), thorough 3; all slices', [
    V('lm_prob.cpp', f'-DCHK=2 -DMASK={W} -DOPS=2 -DPH=3 -DBETWEEN=0', 'weights matrix|weights slice|all|end', native=2),
    V('lm_prob.cpp', f'-DCHK=2 -DMASK={R} -DOPS=2 -DPH=3 -DBETWEEN=0 -DPRE=17 -DRNG=1e6', 'references matrix|references slice|all|end'),
    V('lm_prob.cpp', f'-DCHK=7 -DMASK={X} -DOPS=2 -DPH=3 -DBETWEEN=0 -DPRE=3', 'exogenous matrix|exogenous slice|all|end'),
    V('lm_prob.cpp', f'-DCHK=2 -DMASK={W|R} -DOPS=2 -DPH=2 -DDYN=1', 'weights matrix|weights slice|references matrix|references slice|end'),
    V('lm_prob.cpp', f'-DCHK=7 -DMASK={X|R} -DOPS=2 -DPH=2 -DDYN=1 -DPRE=19', 'exogenous matrix|exogenous slice|all|end'),
    T('lm_prob.cpp', f'-DCHK=2 -DMASK={W|R} -DOPS=3 -DPH=2 -DBETWEEN=0', 'end'),
    T('lm_prob.cpp', f'-DCHK=7 -DMASK={X} -DOPS=3 -DPH=2 -DBETWEEN=0 -DPRE=3', 'end'),
    T('lm_prob.cpp', f'-DCHK=2 -DMASK={W|R} -DOPS=2 -DPH=4 -DBETWEEN=0', 'end'),
])
t18 = r'number of|matrix dim|column|row ind|upper tri|compressed|alpha|rho|eps_|time limit|iteration limit|verbose|polish|other settings|warm|remembered|setup per'
t19 = r'^(?!(number of|matrix dim|.*column|row ind|upper tri|compressed|alpha|rho|eps_|time limit|iteration limit|verbose|polish|other settings|.*warm|remembered|.*setup per|adaptive))'
C['C18'] = ('up to 2 (thorough 3) solves with every setting and warm-start value (user-supplied starts also shorter, longer or empty), every outcome of setup and solve', [
    V('lm_run.cpp', '-DMODE=3 -DPH=2 -DCALLS=2', 'settings|user warm start|warm|cold|answer|end', tags=t18, native=2),
    V('lm_run.cpp', '-DMODE=3 -DPH=2 -DCALLS=2 -DDYN=1 -DRNG=1e6', 'settings|user warm start|warm|cold|answer|end', tags=t18),
    V('lm_run.cpp', '-DMODE=2 -DPH=2 -DCALLS=2', 'answer|setup failure|solve failure|unusable|no solution|end', tags=t18),
    V('lm_prob.cpp', '-DCHK=0 -DPOS=0 -DNU=2 -DNY=2', 'end', tags=t18),
    T('lm_run.cpp', '-DMODE=3 -DPH=2 -DCALLS=3', 'settings|user warm start|warm|cold|answer|end', tags=t18),
])
C['C19'] = ('histories of 2 and 3 solves with each of 13 solver outcomes, of 4 with each of 4 of them', [
    V('lm_run.cpp', '-DMODE=2 -DPH=2 -DCALLS=2', 'answer|setup failure|solve failure|unusable|no solution|end', tags=t19 + '|remembered', native=3),
    V('lm_run.cpp', '-DMODE=2 -DPH=2 -DCALLS=2 -DDYN=1', 'answer|setup failure|solve failure|unusable|no solution|end', tags=t19 + '|remembered'),
    V('lm_run.cpp', '-DMODE=1 -DPH=3 -DCH=2 -DNU=2 -DNY=2', 'answer|no solution|end', tags=t19 + '|remembered'),
    V('lm_run.cpp', '-DMODE=1 -DPH=1 -DCH=1 -DND=0', 'answer|no solution|end', tags=t19 + '|remembered'),
    V('lm_run.cpp', '-DMODE=1 -DPH=6 -DCH=3 -DRNG=1e6', 'answer|no solution|end', tags=t19 + '|remembered'),
    V('lm_run.cpp', '-DMODE=2 -DPH=1 -DCH=1 -DNX=1 -DCALLS=3', 'answer|setup failure|solve failure|unusable|no solution|end', tags=t19 + '|remembered'),
    V('lm_run.cpp', '-DMODE=2 -DPH=2 -DCH=1 -DNX=1 -DCALLS=4 -DOUTS={GOOD,PINF,SETUP0,NULLX}', 'answer|setup failure|unusable|no solution|end', tags=t19 + '|remembered'),
    T('lm_run.cpp', '-DMODE=2 -DPH=2 -DCALLS=3', 'answer|setup failure|solve failure|unusable|no solution|end', tags=t19 + '|remembered'),
    T('lm_run.cpp', '-DMODE=1 -DPH=10 -DCH=6 -DNX=3 -DNU=2', 'answer|no solution|end', tags=t19 + '|remembered'),
])
C['C27'] = ('sequences of 2 (thorough 3) calls among parameter, function and scale setters and solves', [
    V('nl_param.cpp', '', 'hard|soft|warm|cold|state function|inequality function|equality function', native=3),
    V('nl_param.cpp', '-DDYN=1 -DRNG=1e6', 'hard|soft|warm|cold|state function|inequality function|equality function'),
    T('nl_param.cpp', '-DOPS=3', 'hard|soft|warm|cold|state function|inequality function|equality function'),
])

C['C04'] = ('one call (thorough two) of any setter taking a slice or a step index, start and end any integers in [-10^6, 10^6], on top of bounds already in force; then a solve', [
    V('nl_slices.cpp', '', 'all|accepted|rejected|end', native=2),
    V('nl_slices.cpp', '-DDYN=1 -DPH=3 -DCH=1 -DNU=2', 'all|accepted|rejected|end'),
    V('nl_slices.cpp', '-DPH=2 -DCH=2 -DRNG=1e20', 'all|accepted|rejected|end'),
    V('nl_slices.cpp', '-DOPS=2 -DPH=2 -DCH=1 -DNX=1', 'all|accepted|rejected|end'),
    V('lm_prob.cpp', '-DBADSLICE=1 -DCHK=31 -DPH=2', 'all|rejected|index rejected|end', native=2),
    V('lm_prob.cpp', '-DBADSLICE=1 -DCHK=31 -DPH=3 -DCH=1 -DDYN=1', 'all|rejected|index rejected|end'),
    V('lm_prob.cpp', '-DBADSLICE=1 -DCHK=31 -DPH=3 -DCH=3', 'all|rejected|index rejected|end'),
    T('nl_slices.cpp', '-DOPS=2 -DPH=4 -DCH=3', 'all|accepted|rejected|end'),
    T('lm_prob.cpp', '-DBADSLICE=1 -DCHK=31 -DPH=5 -DCH=2 -DNX=1', 'all|rejected|index rejected|end'),
    T('lm_prob.cpp', '-DBADSLICE=1 -DCHK=31 -DPH=2 -DOPS=2 -DNX=1', 'all|rejected|index rejected|end'),
])

C['C22'] = ('arbitrary vector fields (uninterpreted functions of time and state) of dimension 1..3 with 0..3 steps (thorough 5), any time, step and state in [-3,3]; polynomial fields besides', [
    V('misc_rk4.cpp', '-DROUNDS=1 -DSTEPS=3', 'none|one|many|end', native=3),
    V('misc_rk4.cpp', '-DROUNDS=2 -DSTEPS=2 -DNN=3', 'none|one|many|end', native=1),
    V('misc_rk4.cpp', '-DROUNDS=1 -DSTEPS=3 -DNN=1 -DRNG=1e6', 'none|one|many|end'),
    V('misc_rk4.cpp', '-DROUNDS=1 -DFIELD=1 -DNN=1 -DSTEPS=1', 'none|one|end', native=2),
    V('misc_rk4.cpp', '-DROUNDS=1 -DFIELD=2 -DNN=2 -DSTEPS=2', 'none|one|many|end', native=2),
    T('misc_rk4.cpp', '-DROUNDS=1 -DSTEPS=5 -DNN=4', 'none|one|many|end'),
    T('misc_rk4.cpp', '-DROUNDS=3 -DSTEPS=2 -DNN=2', 'none|one|many|end'),
])
C['C25'] = ('every pair of dimensions from -1 (dynamic) to 20000 (chains of two operations with products: to 100)', [
    V('misc_dim.cpp', '-DMAXV=20000', 'dynamic|static|end', native=2),
    V('misc_dim.cpp', '-DMAXV=100 -DCHAIN', 'dynamic|static|end', native=2),
    T('misc_dim.cpp', '-DMAXV=40000', 'dynamic|static|end', native=2),
    T('misc_dim.cpp', '-DMAXV=300 -DCHAIN', 'dynamic|static|end', native=2),
])

C['C21'] = ('sizes nx 1..3, nu 1..3, exogenous 1..3, outputs 1..3; every entry and sampling time in [-3,3]; the exponential itself (Eigen) is an arbitrary function of its argument', [
    V('misc_disc.cpp', '', 'plain|exogenous|outputs|end', native=3),
    V('misc_disc.cpp', '-DNX=3 -DNU=2 -DND=1 -DNY=2', 'plain|exogenous|outputs|end'),
    V('misc_disc.cpp', '-DNX=1 -DNU=3 -DND=3 -DNY=1 -DRNG=1e6', 'plain|exogenous|outputs|end'),
    V('misc_disc.cpp', '-DNX=2 -DNU=2 -DND=2 -DNY=2', 'plain|exogenous|outputs|end'),
    T('misc_disc.cpp', '-DNX=5 -DNU=3 -DND=2 -DNY=4', 'plain|exogenous|outputs|end'),
])
ps = '-DPH=1 -DCH=1 -DNX=1 -DNY=0'
C['C23'] = ('histories of up to 3 (thorough 5) solves and resets with any of 3 outcomes, of up to 5 (thorough 6) with one outcome, each solve lasting any number of nanoseconds from 1 to 3*10^9 and ending in success, failure or the iteration limit, with the constraints met or not', [
    V('misc_prof.cpp', ps + ' -DOPS=3', 'empty|one|many|reset|end', native=3),
    V('misc_prof.cpp', ps + ' -DOPS=2 -DDYN=1 -DCODES=5', 'empty|one|many|reset|end', native=1),
    V('misc_prof.cpp', ps + ' -DOPS=4 -DCODES=1', 'empty|one|many|reset|end'),
    V('misc_prof.cpp', ps + ' -DOPS=5 -DCODES=1', 'empty|one|many|reset|end'),
    T('misc_prof.cpp', ps + ' -DOPS=6 -DCODES=1', 'empty|one|many|reset|end'),
    T('misc_prof.cpp', ps + ' -DOPS=4', 'empty|one|many|reset|end'),
    T('misc_prof.cpp', ps + ' -DOPS=5', 'end'),
])
C['C24'] = ('sequences of 2 and 3 configuration calls and messages, then two more messages; every level and type', [
    V('misc_log.cpp', '-DPH=1 -DCH=1 -DNX=1', 'written|silent|prefix|level|stream|reset|end', native=5),
    V('misc_log.cpp', '-DPH=1 -DCH=1 -DNX=1 -DOPS=3', 'written|silent|prefix|level|stream|reset|end'),
])

C['C20'] = ('sequences of 1 call (thorough 2) of any setter with any integers as slice ends and step indices, followed by solves with every outcome class; user functions arbitrary (uninterpreted); the same history on the controller sized by template arguments and on the one sized by constructor arguments', [
    V('twin_nl.cpp', '', 'end', native=2),
    V('twin_nl.cpp', '-DNX=1 -DNU=2 -DNY=2 -DPH=3 -DCH=1 -DNI=2 -DNE=2 -DSOLVES=1', 'end'),
    V('twin_nl.cpp', '-DNY=0 -DNI=2 -DNE=0 -DSOLVES=1', 'end'),
    V('twin_lm.cpp', '', 'end', native=2),
    V('twin_lm.cpp', '-DNX=1 -DNU=2 -DND=2 -DNY=2 -DPH=3 -DCH=1 -DSOLVES=1', 'end'),
    V('twin_lm.cpp', '-DND=0 -DSOLVES=1 -DNX=1', 'end'),
    T('twin_nl.cpp', '-DOPS=2 -DNX=1 -DPH=2 -DCH=1 -DSOLVES=1', 'end'),
    T('twin_lm.cpp', '-DOPS=2 -DNX=1 -DPH=2 -DCH=1 -DSOLVES=1', 'end'),
    T('twin_lm.cpp', '-DNX=3 -DNU=2 -DND=2 -DNY=2 -DPH=4 -DCH=2 -DSOLVES=1', 'end'),
    T('twin_nl.cpp', '-DNX=3 -DNU=2 -DNY=1 -DPH=4 -DCH=2 -DSOLVES=1', 'end'),
])

life = 'short life|long life|A destroyed first|end'
C['C26'] = ('two controllers: A with one fixed full configuration (thorough: any one setter call) and 1-2 solves, B created, configured by one setter call, used and destroyed at every choice of points of that history, inside the solves and callbacks of A too; every outcome class of each solve; every real value in range; any integers as slice ends; one controller moved or copied (where it can be) at every point between calls', [
    V('mem_lm.cpp', '-DFIXED -DTWA=0 -DTWB=0 -DSOLVES=1 -DMAXY=7', life, native=2),
    V('mem_lm.cpp', '-DFIXED -DTWA=1 -DTWB=1 -DSOLVES=1 -DNX=1 -DPH=2 -DCH=1 -DMAXY=6', life),
    V('mem_nl.cpp', '-DFIXED -DTWA=0 -DTWB=0 -DSOLVES=1 -DMAXY=6 -DNE=0 -DNI=0', life, native=2),
    V('mem_nl.cpp', '-DFIXED -DTWA=1 -DTWB=1 -DSOLVES=1 -DNX=1 -DPH=2 -DCH=1 -DMAXY=6 -DNE=0', life),
    V('mem_lm.cpp', '-DFIXED -DTWA=0 -DTWB=1 -DSOLVES=1 -DNX=1 -DPH=2 -DCH=1 -DMAXY=6', life),
    V('mem_nl.cpp', '-DFIXED -DTWA=0 -DTWB=1 -DSOLVES=1 -DNX=1 -DPH=2 -DCH=1 -DMAXY=6 -DNE=0 -DNI=0', life),
    V('own_nl.cpp', '-DFIXED -DSOLVES=1 -DTW=0', 'end', native=1),
    V('own_nl.cpp', '-DFIXED -DSOLVES=1 -DTW=1 -DPH=2 -DCH=1 -DNX=1', 'end'),
    V('own_lm.cpp', '-DFIXED -DSOLVES=1 -DTW=0', 'end'),
    T('own_nl.cpp', '-DFIXED -DSOLVES=2 -DTW=1 -DPH=2 -DCH=1', 'end'),
    T('mem_lm.cpp', '-DFIXED -DSOLVES=2 -DMAXY=12', life),
    T('mem_lm.cpp', '-DSOLVES=1 -DMAXY=1 -DTWA=1', life),
    T('mem_nl.cpp', '-DFIXED -DSOLVES=1 -DMAXY=6', life),
    T('mem_nl.cpp', '-DSOLVES=1 -DMAXY=3 -DTWA=1 -DNE=0 -DNI=0', life),
])

C['C29'] = ('histories of the model, (thorough: one further call and) 1 solve (quick, linear: also 2; thorough: 2), with one inserted call of any kind (8 kinds of logging, query and statistics calls, 3 linear or 1 nonlinear unsupported request) at any point, also inside the solver and the user functions; every real argument', [
    V('noise_lm.cpp', '-DFIXED -DSOLVES=1 -DTW=0', 'logging|queries|refused|end', native=2),
    V('noise_lm.cpp', '-DFIXED -DSOLVES=2 -DLATE=1 -DTW=1 -DNX=1 -DPH=2 -DCH=1 -DMAXY=12', 'logging|queries|refused|end'),
    V('noise_nl.cpp', '-DFIXED -DSOLVES=1 -DTW=0 -DNE=0 -DNI=0', 'logging|queries|refused|end', native=2),
    V('noise_nl.cpp', '-DFIXED -DSOLVES=1 -DTW=1 -DNX=1 -DPH=2 -DCH=1', 'logging|queries|refused|end'),
    T('noise_nl.cpp', '-DFIXED -DSOLVES=2 -DTW=0 -DNX=1 -DPH=2 -DCH=1 -DMAXY=14', 'logging|queries|refused|end'),
    T('noise_nl.cpp', '-DSOLVES=1 -DTW=0 -DNX=1 -DPH=2 -DCH=1', 'logging|queries|refused|end'),
    T('noise_lm.cpp', '-DSOLVES=1 -DTW=0 -DNX=1 -DPH=2 -DCH=1', 'logging|queries|refused|end'),
    T('noise_lm.cpp', '-DSOLVES=1 -DTW=1 -DNX=1 -DPH=2 -DCH=2', 'logging|queries|refused|end'),
])

C['C30'] = ('one optimisation in which the n-th call of a user function throws, any n (quick, largest variant: every third) and any of five exception types (some variants: one), before the solver answered or after; before it one solve (thorough: with any outcome, or none), after it one solve with any outcome; NX=1, PH<=2, every real value, uninterpreted user functions', [
    V('throw_nl.cpp', '-DTW=0 -DNX=1 -DPH=2 -DCH=1 -DALWAYS -DKINDS=1 -DEVERY=3', 'inside the solve|after the solve|end', native=2),
    V('throw_nl.cpp', '-DTW=1 -DNX=1 -DPH=1 -DCH=1 -DNE=0 -DALWAYS -DKINDS=1', 'inside the solve|after the solve|escaped|end'),
    V('throw_nl.cpp', '-DTW=1 -DNX=1 -DPH=2 -DCH=1 -DNE=0 -DNI=0 -DALWAYS', 'inside the solve|after the solve|escaped|end'),
    T('throw_nl.cpp', '-DTW=1 -DNX=1 -DPH=2 -DCH=1 -DALWAYS -DKINDS=1', 'inside the solve|after the solve|end'),
    T('throw_nl.cpp', '-DTW=0 -DNX=1 -DPH=2 -DCH=1 -DNE=0 -DNI=0', 'inside the solve|after the solve|escaped|end'),
    T('throw_nl.cpp', '-DTW=0 -DNX=2 -DPH=2 -DCH=2 -DNE=0 -DALWAYS -DKINDS=2 -DEVERY=4', 'inside the solve|after the solve|end'),
])

C['C31'] = ('histories of 2 and 3 (thorough 4) solves and resets with any of 3 outcomes, each solve lasting any number of nanoseconds from 1 to 3*10^9, printed at the end; and statistics of any content: times in [0, 1000] s, up to 2 (thorough 3) solves per status; the stream in its default format or in a scientific one with 3 digits', [
    V('misc_print.cpp', ps + ' -DOPS=2', 'empty|one|many|end', native=3),
    V('misc_print.cpp', ps + ' -DOPS=3', 'empty|one|many|end'),
    V('misc_print.cpp', ps + ' -DRAW=2', 'end', native=3),
    T('misc_print.cpp', ps + ' -DOPS=4', 'empty|one|many|end'),
    T('misc_print.cpp', ps + ' -DRAW=3', 'end'),
])

for p, (b, vs) in C.items():
    if any('RNG' in d for v in vs for d in v.defs):
        C[p] = (b + '; some variants let the data range over [-10^6, 10^6] (bounds over [-10^20, 10^20]) and scales over [10^-3, 10^3] instead', vs)
