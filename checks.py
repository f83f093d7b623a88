"""Which monitors decide which property."""
CHECKS = {}


def check(pid, rule, runs, technique, note, assumptions=(), min_distinct=2):
    CHECKS[pid] = {'rule': rule, 'runs': runs, 'technique': technique, 'note': note, 'assumptions': list(assumptions), 'min_distinct': min_distinct}


def R(harness, config, **kw):
    return dict(harness=harness, config=config, **kw)


check('C01', 'random and boundary payoff terms x spots (ties, neighbours, extremes); non-trivial: distinct terms on which at least one oracle comparison was made',
      [R('h_payoff.cpp', 'san')], 'contract oracle on observed payoffs under ASan/UBSan', 'payoff values are compared with the contract on random, tied and extreme strikes and spots; only sampled inputs are covered', min_distinct=1000)
check('C02', 'pools of near-identical payoffs, stock data and options compared pairwise; non-trivial: distinct pools',
      [R('h_payoff.cpp', 'san')], 'pairwise equality monitor against term identity under ASan/UBSan', 'every pair of a pool of near-identical objects is compared; only sampled pools are covered', min_distinct=500)
check('C03', 'random histories of adds, updates, rejected and unknown-ticker calls over up to 9 tickers, every readable value read back after every call; non-trivial: distinct histories',
      [R('h_market.cpp', 'san')], 'model-based state monitor over call histories under ASan/UBSan', 'full state readback against a reference model after each call; sampled histories only', min_distinct=300)
check('C04', 'random histories of registrations, destructions, purges, changes and re-entrant observer actions; up to 3000 observers on one ticker; non-trivial: distinct histories with at least one observed change',
      [R('h_market.cpp', 'sanx')], 'event-count monitor on notifications (custom observers + Option::update hook) under ASan/UBSan', 'exactly-once counts per observer and change; sampled histories, single thread', min_distinct=400)
check('C05', 'random option terms of all ten kinds, with every required parameter left out, mistyped or invalid in turn; non-trivial: distinct terms',
      [R('h_factory.cpp', 'sanx')], 'monitor of factory products, registrations (hook) and live memory under ASan/UBSan', 'fields, registration and allocator balance observed on sampled parameters', min_distinct=1000)
check('C06', 'fresh processes in which 2 to 8 threads pass a relaxed gate into the first access, or price random contracts x models x generators x finite difference problems over shared options and strategies with injected delays; non-trivial: distinct processes',
      [R('h_conc.cpp', 'tsan')], 'ThreadSanitizer over stress schedules with injected delays; concurrent results compared bit for bit with sequential re-runs', 'races and results of the sampled schedules only; happens-before detection does not need the racy interleaving itself', min_distinct=60)
check('C07', 'random legal programs of 20 to 120 operations over every class, smallest sizes included, failing calls included, random destruction order; non-trivial: distinct operation sequences',
      [R('h_mem.cpp', 'sanx'), R('h_mem.cpp', 'vg', scale=0.08, scale_thorough=0.03, wrapper=['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--undef-value-errors=yes', '--track-origins=no'], timeout=400)], 'AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, checked containers and memcheck over random API programs', 'sampled programs; uninitialised reads by memcheck on a smaller sample', min_distinct=500)
_mc = 'scripted paths (ties, single touches, first/last date, constants, extremes) through builders and direct pricers, repeated solves with changing N and rate; non-trivial: distinct terms/steps/rate'
_mcn = 'the pricer runs on paths chosen by the harness, prices compared to the contract in long double; sampled paths of up to 5000 dates, terms and N up to 2100001, and one run beyond 2^31 paths under overflow instrumentation'
for _p, _what in (('C08', 'European/digital'), ('C09', 'Asian'), ('C10', 'barrier'), ('C11', 'lookback')):
    check(_p, _mc, [R('h_mc.cpp', 'sanx'), R('h_mc.cpp', 'ovf', prop=_p + 'big', timeout_quick=420, timeout=4000)], 'online oracle on scripted-path pricing runs (%s) under ASan/UBSan' % _what, _mcn, min_distinct=1000)
check('C12', 'scripted paths (ties, dates with nothing in the money, N=1, one step) with recording basis and regression under five exercise policies, both variants, up to 1500 dates; non-trivial: distinct problems',
      [R('h_amer.cpp', 'sanx'), R('h_amer.cpp', 'mon', prop='C12stat')], 'replay of observed regressions and exercise decisions (trace oracle) under ASan/UBSan, plus lattice comparison',
      'every regression row, decision and price of the run is compared with Longstaff-Schwartz on the observed paths; sampled problems; lattice part to 2.5 %', min_distinct=2000)
_mo = 'models driven by a recording scripted generator over random legal parameters, market data, maturities 1e-6..30, 1..9000 steps; non-trivial: distinct model/market/grid'
check('C13', _mo, [R('h_model.cpp', 'san'), R('h_model.cpp', 'mon', prop='C13stat')], 'conditional expectation computed from the observed response of the real model to injected draws; sample means with real draws',
      'exact per step up to 1e-9 given the draw laws of C15; sampled parameters; sample means to 7 standard errors', min_distinct=2000)
check('C14', _mo, [R('h_model.cpp', 'san')], 'trace oracle: recorded draws and variances replayed through the stated recursion under ASan/UBSan', 'every simulated price compared to 1e-8; sampled parameters', min_distinct=2000)
check('C15', _mo + '; laws of the drawn distributions by Kolmogorov distance', [R('h_model.cpp', 'san'), R('h_model.cpp', 'mon', prop='C15stat'), R('h_model.cpp', 'ovf', prop='C15big', timeout_quick=420, timeout=4000)], 'trace oracle over recorded draws, law monitors on the drawn distributions, characteristic functions of real paths',
      'every simulated price compared to 1e-8 given the draws; laws by sampling with false alarm probability below 1e-9', min_distinct=2000)
check('C16', _mo, [R('h_model.cpp', 'san')], 'differential monitor: repeated, re-created and updated models on identical draws under ASan/UBSan', 'sampled parameters and update histories', min_distinct=2000)
check('C17', 'random bridge times, prices and draws incl. end points; joint law of whole backward paths', [R('h_model.cpp', 'san')], 'oracle on observed backward draws under ASan/UBSan, law monitor on backward paths', 'sampled; formula to 1e-9, joint law by sampling', min_distinct=2000)
check('C18', 'random variances (incl. negative), steps and parameters; recording scheme injected into Heston and Bates', [R('h_model.cpp', 'san')], 'call-trace monitor on an injected variance scheme under ASan/UBSan', 'sampled parameters; arguments, order and count of every scheme application observed', min_distinct=2000)
check('C19', 'random generator type, dimension, seed (0, 1, powers, 2^32-1) and interleavings with other generators; fresh processes; same-seed pricing runs; non-trivial: distinct configurations',
      [R('h_random.cpp', 'san')], 'trace comparison of recorded draw sequences across repetitions, interleavings and processes under ASan/UBSan', 'bit-exact comparison of observed draws; sampled seeds and interleavings', min_distinct=1000)
check('C20', 'random legal and illegal parameters of all six distributions, 2000 to 400000 draws each, direct and through a generator; non-trivial: distinct parameters',
      [R('h_random.cpp', 'san'), R('h_random.cpp', 'mon', prop='C20law')], 'law monitors (Kolmogorov distance, mean, serial dependence) over observed draws under ASan/UBSan', 'statistical; false alarm probability below 1e-8 per run; parameter errors below a few per mille stay unseen', min_distinct=150)
check('C21', 'random quantiles concentrated at region switches, the centre and both tails; non-trivial: distinct quantiles',
      [R('h_random.cpp', 'san')], 'online oracle on observed quantile values (long double inverse) under ASan/UBSan', 'sampled quantiles with |z| up to 10', min_distinct=20000)
check('C22', 'random generator, dimension mostly up to 250, at times 3600 (Sobol) or 1100 (Faure), seed and run length; uniforms read through an identity distribution; non-trivial: distinct configurations',
      [R('h_random.cpp', 'san')], 'offline checker over recorded point sequences (interval and box counts, integrals) under ASan/UBSan', 'counts in elementary intervals and boxes bounded exactly; integral limits measured with margin', min_distinct=150)
check('C23', 'random nonsingular sparse systems (sizes 1..520, zero diagonals, row scaling), diagonally dominant tridiagonal and assembled parabolic systems, exactly singular ones; non-trivial: distinct systems',
      [R('h_num.cpp', 'sanx')], 'residual and agreement monitor on observed solutions under ASan/UBSan', 'residuals in long double for sampled systems; singular matrices only where elimination is exact', min_distinct=800)
check('C24', 'random uniform and non-uniform grids of 2..3000 points; nodes, neighbours of nodes, end intervals, outside; non-trivial: distinct grids',
      [R('h_num.cpp', 'sanx')], 'online oracle on observed interpolation values under ASan/UBSan', 'sampled grids and points', min_distinct=800)
check('C25', 'random degrees up to 13, vectors of 0..40 entries including ties and special points; non-trivial: distinct vectors',
      [R('h_num.cpp', 'sanx')], 'online oracle (explicit polynomial sums in long double) on observed matrices under ASan/UBSan', 'sampled vectors and degrees', min_distinct=800)
check('C26', 'random designs (up to 24 columns and 3000 rows, tall, square, underdetermined, duplicated and zero columns, monomials of prices), responses and penalties; non-trivial: distinct problems',
      [R('h_num.cpp', 'sanx')], 'optimality-condition monitor on observed coefficients under ASan/UBSan', 'sampled problems; smallest norm only checked where the rank is exact', min_distinct=1500)
check('C27', 'random strikes, rates, coupons, volatilities, maturities and grids x 3 schemes x 4 matrix solvers x 3 interpolations x call/put, nine spots each; non-trivial: distinct problems',
      [R('h_fdm.cpp', 'sanx'), R('h_fdm.cpp', 'mon', prop='C27main')], 'online oracle: observed finite difference prices against Black-Scholes with scaled discretisation tolerances, grid parity and boundary monitors, under ASan/UBSan and optimised',
      'tolerance scales with dx^2 and dt; grids resolve the payoff width (dx below 0.2 K sigma sqrt(T)); sampled problems', min_distinct=150)
check('C28', 'random manufactured problems (time and space dependent coefficients, sources), J from 3, N from 2, all schemes, solvers and interpolations; non-trivial: distinct problems',
      [R('h_fdm.cpp', 'sanx')], 'exact-solution oracle and trace monitor of coefficient/boundary evaluations through an injected PDE under ASan/UBSan', 'values to 1e-7 on every node; sampled problems, grids up to 40 nodes and 4000 steps', min_distinct=800)
check('C29', 'random histories of settings, rejected options, builds, builder destructions over up to 4 builders, 3 market data sets and 3 underlyings, every pricer built re-priced later; non-trivial: distinct histories',
      [R('h_build.cpp', 'sanx')], 'model-based history monitor: every built pricer is priced on deterministic markets or given paths and compared with its own configuration, under ASan/UBSan', 'sampled histories; default volatility behaviour judged coarsely, default steps, underlying and market data exactly', min_distinct=300)
check('C30', 'random contracts, markets, generators (pseudo random, Sobol, Faure, default), steps and updates; non-trivial: distinct pricing problems',
      [R('h_build.cpp', 'sanx'), R('h_build.cpp', 'mon', prop='C30stat')], 'online oracle on observed end-to-end prices: closed forms, parities on identical draws, deterministic cases, independent simulation', 'statistical part to 7 standard errors (2.5 for quasi random); deterministic and parity parts to 1e-9', min_distinct=800)
check('C31', 'random models, generators, markets and contracts priced on equal draws (ten kinds, three strikes, two barriers, two currency units), and finite difference grids; non-trivial: distinct problems',
      [R('h_system.cpp', 'sanx')], 'relational monitor over prices observed on equal draws and on equal grids under ASan/UBSan', 'relations hold path by path, so no statistical tolerance: 1e-9 of the price level; sampled problems', min_distinct=700)
check('C32', 'random interleaved histories of 2 to 7 pricing runs, path simulations, generators and solvers sharing contracts, strategies and builders under market changes, each participant replayed alone in a process of its own; non-trivial: distinct histories',
      [R('h_system.cpp', 'sanx')], 'differential trace monitor: interleaved run against isolated replay, bit for bit, with market and option read back around every computation, under ASan/UBSan', 'bit-exact comparison; sampled histories, one thread (threads are C06)', min_distinct=150)
check('C33', 'every contract kind x six models x three generators, the American bridge, three finite difference schemes and long draw sequences at sizes where the simulated values take 10 MB and more; non-trivial: distinct processes',
      [R('h_system.cpp', 'mon')], 'high water mark of resident memory observed in child processes', 'growth limited to half of what the simulated values would take; sizes as given', min_distinct=50)
check('C34', 'random terms of all ten kinds and market data histories; every line of the description parsed back; non-trivial: distinct terms',
      [R('h_system.cpp', 'sanx')], 'round trip oracle over observed descriptions under ASan/UBSan', 'sampled terms; lines are found by heading and label', min_distinct=1000)
check('C35', 'one failure injected at a random use of the generator, regression, basis, variance scheme, market data, equation, matrix solver, interpolation, an observer or one allocation; non-trivial: distinct operation/failure point',
      [R('h_system.cpp', 'sanx')], 'fault injection with a differential oracle (failure reported, repeated operation equals the failure-free one, bystanders unchanged) under ASan/LSan/UBSan', 'failures at random points of sampled operations; out-of-memory through operator new only (Eigen allocates by malloc)', min_distinct=1500)
check('C36', 'random histories over up to 1500 names in up to 5 copies, values of all types incl. extremes, long strings, near-identical names; factory requests of all ten kinds from one changing object, a fifth of them refused; non-trivial: distinct histories',
      [R('h_life.cpp', 'sanx')], 'model-based state monitor over parameter histories and the options made from them, under ASan/UBSan', 'every read compared with a reference map; sampled histories', min_distinct=700)
check('C37', 'random contracts, models, generators and grids with counting generator, basis, regression, equation, matrix solver and interpolation; problems 16 times the size, timed; non-trivial: distinct problems',
      [R('h_life.cpp', 'sanx'), R('h_life.cpp', 'mon', prop='C37time')], 'counters on injected parts (draws, evaluations, solves, interpolations) under ASan/UBSan, CPU time growth of optimised runs', 'counts are exact; time growth of eight kinds of problem judged at 5 times proportional, so only wrong orders of growth show', min_distinct=500)
check('C38', 'random histories of 10 to 60 operations creating, wiring, replacing, pricing and releasing every kind of object, all still observed after every operation; non-trivial: distinct histories',
      [R('h_life.cpp', 'sanx')], 'lifetime monitor: weak observers on every object against reachability in a reference ownership graph, under ASan/LSan/UBSan', 'every object checked after every operation; sampled histories; only over-long lives judged here, short ones crash under ASan', min_distinct=700)
check('C39', 'six models, ten contracts, the equation and three schemes on injected market data while the shared one holds absurd values; histories over two sets of market data and the shared one; non-trivial: distinct problems',
      [R('h_life.cpp', 'sanx')], 'differential monitor (injected against shared market data, bit for bit) and online oracle on deterministic paths under ASan/UBSan', 'bit-exact comparison; sampled problems and histories', min_distinct=900)
check('C40', '23 kinds of operation with random parts, each repeated 12800 times (thorough 64000) in windows that double; non-trivial: distinct workbenches',
      [R('h_life.cpp', 'mon')], 'allocator accounting (mallinfo2) and CPU time per operation over doubling windows of repeated operations on the optimised build', 'growth below 4 bytes per operation, or below 6 times the time after 64 times as many operations, would not show', min_distinct=80)
check('C41', 'all ten kinds, calls and puts, one parameter left out, mistyped or invalid, extra parameters now and then; non-trivial: distinct requests',
      [R('h_life.cpp', 'sanx')], 'oracle on the text of every refusal (fault, kind, direction, list of parameters with types) under ASan/UBSan', 'sampled requests; wording is judged only through names', min_distinct=1500)
check('C42', 'random equations (Black-Scholes; coefficients of any sign changing in time and space), grids and schemes; 23 kinds of operation listened to; non-trivial: distinct cases',
      [R('h_life.cpp', 'sanx')], 'monitor on the standard streams and file descriptors 1 and 2, oracle from the coefficients of the equation at every grid point, under ASan/UBSan', 'rows within 1e-9 of the limit, and rows next to the boundary alone, are not judged', min_distinct=1200)
check('C43', 'every numeric parameter of models, distributions, regressions, market, barriers, solvers and grids given as NaN or just beyond its domain, and legal neighbours up to the edge; non-trivial: distinct cases',
      [R('h_dom.cpp', 'sanx')], 'refusal and acceptance monitor on both sides of every domain, state compared bit for bit after refusals, under ASan/UBSan', 'sampled values on both sides of each limit; infinite values are not judged', min_distinct=3000)
