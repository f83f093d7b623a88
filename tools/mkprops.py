import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S='src/solver/monte_carlo/'; F='src/solver/finite_difference_method/'
p("C01","Payoffs pay exactly their contractual amount",
"For every strike and spot, a vanilla call/put pays max(S-K,0)/max(K-S,0), a digital call/put pays 1 exactly when S>K / S<K and 0 otherwise, a double digital pays 1 exactly when K_L<=S<=K_U, and a floating-strike lookback pays max(S-min,0) / max(max-S,0). The same amount is returned by the payoff object, by its clones and by every option created on it, in any order and however often it is evaluated. Negative or NaN strikes and payoff types that do not fit the payoff class are rejected with invalid_argument; evaluating a payoff with the wrong number of prices is a logic_error.",
["inputs","histories"],"all strikes, spots (including ties S=K and neighbours of K), payoff kinds and evaluation sequences",
"tests evaluate a few (S,K) pairs per payoff; ties, neighbours of the strike, extreme magnitudes, clones and floating lookback payoffs are not sampled",
["src/payoff/single_strike/payoff_vanilla.cpp","src/payoff/single_strike/payoff_digital.cpp","src/payoff/double_strikes/payoff_double_digital.cpp","src/payoff/payoff_floating_strike_lookback.cpp","src/payoff/base_payoff.cpp","src/option/base_option.cpp"],
[("Payoff::operator()","src/payoff"),("constructor validation","src/payoff/*/base_payoff_*.cpp"),("Option::payoff delegation","src/option/base_option.cpp")],observe=["return value of Payoff::operator() and Option::payoff"])
p("C02","Equality of payoffs, stocks and options is a sound equivalence; clones are equal",
"Two payoffs compare equal exactly when they have the same class, the same call/put type and the same strikes; two stock data records exactly when price, volatility and coupon (including whether there is one) agree. Options with the same terms on the same underlying compare equal, and options whose maturity, payoff or underlying stock data differ compare unequal. Equality is reflexive, symmetric and transitive, != is always its negation, and a clone equals its original, shares no state with it and outlives it.",
["inputs","histories"],"all pairs and triples of payoffs, stock data and options, before and after market updates",
"tests compare a handful of pairs; near-equal strikes, cross-class pairs, coupon presence and the effect of market updates are not covered",
["src/payoff/base_payoff.cpp","src/market_data/stock_data.cpp","src/option/base_option.cpp","src/payoff"],
[("Payoff::operator== with typeid + compare","src/payoff/base_payoff.cpp"),("StockData::operator==","src/market_data/stock_data.cpp"),("Option::operator==","src/option/base_option.cpp")])
p("C03","Market data is always valid, and a rejected update changes nothing",
"Every stock readable from the market data has price > 0, volatility >= 0 and, if present, a coupon in [0,1], whatever sequence of adds and updates was attempted. Adding or updating with any other value (including NaN), or updating an unknown ticker, throws invalid_argument, leaves every readable value exactly as it was, creates no ticker and notifies nobody. A successful update changes exactly the named field of the named ticker (or the rate), is what every later read returns - also through stock data obtained before the update - and touches nothing else.",
["histories","inputs"],"every history of add/update/read operations, valid and invalid, over many tickers",
"tests do single updates on one ticker; they never read back after a rejected update, mix tickers or use boundary values",
["src/market_data/market_data.cpp","src/market_data/stock_data.cpp","include/market_data/market_data.h"],
[("StockData::validate","src/market_data/stock_data.cpp"),("MarketData::updateStock*","src/market_data/market_data.cpp"),("addStock","include/market_data/market_data.h")],
state=[("stockDataMap_","ticker -> stock data","include/market_data/market_data.h"),("r_","risk free rate","include/market_data/market_data.h")])
p("C04","Every live observer of a change is notified exactly once, nobody else is",
"A successful update of a ticker notifies each live registered observer of that ticker exactly once, and no observer of another ticker; a change of the interest rate notifies every live registered observer exactly once. During the notification the new value is already readable, and observers that have been destroyed are never called. This also holds when observers register, read market data, update other tickers or are destroyed while a notification is in progress: observers not involved in that are still notified exactly once.",
["histories"],"every history of registrations, destructions, purges, updates and re-entrant callbacks, for custom observers and options",
"tests register one mock observer and do one update; several observers, expired entries in between, deaths and re-entrancy are not exercised",
["src/market_data/market_data.cpp","src/market_data/market_data_observer.cpp","src/option/base_option.cpp"],
[("notifyObserver/notifyObservers over weak_ptrs","src/market_data/market_data.cpp"),("removeObserver purge","src/market_data/market_data.cpp"),("Option::initialize/~Option","src/option/base_option.cpp")],
state=[("observers_","weak references to registered observers","include/market_data/market_data.h")],hook="Option::update (OPTION_PRICER_MONITOR): reports that an option was notified")
p("C05","Factories build exactly the requested option, register it, or fail cleanly",
"For each option kind the factory returns an option with exactly the requested ticker, maturity, call/put type, strike(s), barrier level and direction, registered once as an observer of its underlying. If a required parameter is missing, has the wrong type, is negative or NaN (strike, maturity), or the ticker is unknown, it throws invalid_argument and leaves no option, observer or memory behind. Destroying an option removes its registration, so creating and destroying any number of options does not grow memory.",
["inputs","histories","configurations"],"all option kinds x all parameter sets (present/missing/mistyped/invalid) x creation-destruction histories",
"tests cover only the European factory with four failing parameter sets",
["src/option/single_path","src/option/path_dependent","include/option/base_factory_option.h","src/option/parameter_object.cpp","include/option/parameter_object.h","src/option/base_option.cpp"],
[("OptionFactory::createOption template method","include/option/base_factory_option.h"),("createSpecificOption/Payoff","src/option/*/factory_*.cpp"),("~Option -> removeObserver","src/option/base_option.cpp")],hook="Option::update (OPTION_PRICER_MONITOR): shows that an option is registered")
p("C06","One market data singleton; pricing in parallel is race-free and unchanged",
"Any number of threads obtaining the market data for the first time or later, at once, get the same instance without a data race. Threads that price at the same time, each with its own generator, model and solver over the same shared options, market data and stateless strategies, run without data races and each gets exactly the price it would get alone.",
["schedules"],"all interleavings of first access and of concurrent Monte Carlo / finite difference pricing",
"tests are single threaded",
["src/market_data/market_data.cpp","src/model","src/solver","src/numerical_analysis","src/random"],
[("mutex in getInstance","src/market_data/market_data.cpp"),("const, stateless strategy objects","src/numerical_analysis, src/model/discretization"),("per-object generator state","src/random/number_generator")])
p("C07","No memory error, undefined behaviour or leak in any legal use of the library",
"No legal sequence of calls - creating, sharing, pricing, updating and destroying market data, options, models, generators, pricers, builders and finite difference solvers, in any order and for any sizes down to the smallest legal ones, including calls that fail with an exception - reads or writes out of bounds, uses freed or uninitialised memory, executes undefined behaviour, or leaks memory.",
["programs","inputs","histories"],"all legal API programs and sizes",
"tests run without instrumentation and never touch models, generators, pricers, builders or the finite difference code",
["src","include"],[("RAII / shared_ptr ownership","src"),("index arithmetic over steps, grid and paths","src/solver, src/model, src/numerical_analysis")])
p("C08","European and digital Monte Carlo price is the discounted mean payoff of N paths",
"The Monte Carlo price of a European, digital or double digital option is exactly exp(-r T) times the average of the option's payoff over the terminal prices of N simulated paths, with the current interest rate, the option's maturity and the configured N. Every path is used once and with the same weight, whatever the values, the order of the paths, N, or earlier solves.",
["inputs","histories","configurations"],"all path sets, N, rates (also zero/negative), maturities, single-path option kinds and re-solves",
"no test runs a Monte Carlo pricer",
[S+"mc_single_path.cpp",S+"mc_solver.cpp",S+"base_mc.cpp"],[("SinglePathMCPricer::calculatePrice",S+"mc_single_path.cpp")],observe=["StockModel interface (scripted paths)","Solver::solve"])
p("C09","Asian Monte Carlo price averages every fixing of every path",
"The Monte Carlo price of an arithmetic (geometric) Asian option is exp(-r T) times the mean over N simulated paths of the payoff of the arithmetic (geometric) average of all simulated fixings of the path, each fixing with equal weight. Hence on the same paths the geometric call never exceeds the arithmetic call, and with one fixing both equal the European price.",
["inputs","configurations"],"all path sets, numbers of fixings, N, strikes, rates, types",
"no test runs an Asian pricer",
[S+"mc_asian.cpp"],[("AsianMCPricer::calculatePrice, computeSumPrices, computeAveragePrice",S+"mc_asian.cpp")])
p("C10","Barrier options knock in/out exactly on touching the barrier",
"The Monte Carlo price of a knock-in (knock-out) option is exp(-r T) times the mean over N simulated paths of the terminal payoff counted only if (unless) some monitored price of that path is at or beyond the barrier: >= B for up, <= B for down barriers. Every monitored date including the first and the last counts, touching the level counts, and one path's crossing never affects another path. On the same paths knock-in plus knock-out equals the European price.",
["inputs","configurations"],"all path sets, barrier levels (including equal to a path value), directions, types, numbers of dates, N",
"no test covers barrier options",
[S+"mc_barrier.cpp","src/option/path_dependent/barrier_option.cpp"],[("isActive","src/option/path_dependent/barrier_option.cpp"),("checkHasCrossed/computePayoff",S+"mc_barrier.cpp")])
p("C11","Lookback prices use the true extremes of each path",
"The Monte Carlo price of a lookback option is exp(-r T) times the mean over N simulated paths of: fixed strike call max(path maximum - K,0), fixed strike put max(K - path minimum,0), floating strike call S_T - path minimum, floating strike put path maximum - S_T, with the extremes taken over all monitored dates of that path only. Hence floating strike prices are never negative and a fixed strike lookback is worth at least the European option on the same paths.",
["inputs","configurations"],"all path sets, numbers of dates, N, strikes, types",
"no test covers lookback options",
[S+"mc_lookback.cpp"],[("LookbackMCPricer::calculatePrice and computePayoff",S+"mc_lookback.cpp")])
p("C12","American Monte Carlo price is Longstaff-Schwartz on the simulated paths",
"Going backwards over the exercise dates, the American pricer regresses the discounted realised cash flows of exactly the in-the-money paths on the configured basis of their prices, exercises a path exactly when its immediate payoff exceeds the estimated continuation value, and otherwise carries its cash flow back discounted by one step; the price is the mean of the cash flows discounted to today. Discounting is applied for every step, also when no path is in the money. The memory-saving bridge variant used for geometric Brownian motion with pseudo random numbers prices the same contract: same paths law, same exercise dates, same discounting.",
["inputs","configurations"],"all path sets, dates, bases, regressions, rates, call/put, in/out of the money; both pricing variants",
"no test covers American options",
[S+"mc_american.cpp","src/option/path_dependent/american_option.cpp"],[("standardPrice / brownianBridgePrice",S+"mc_american.cpp"),("variant choice in calculatePrice",S+"mc_american.cpp")],observe=["BasisFunction::generate and Regression::solve arguments","price"])
p("C13","Every stock model is risk neutral: discounted prices are martingales",
"In every model (geometric Brownian motion, Heston, Merton, Kou, variance gamma, Bates) the conditional expectation of the next simulated price given the path so far is the current price times exp((r-c) dt), with c the coupon (0 if none) and dt = T/steps, so E[S_t] = S_0 exp((r-c)t) at every simulated date. This holds for all legal model parameters, rates, coupons, maturities and numbers of steps, and with the market data current at the time of the simulation.",
["inputs","configurations","histories"],"all models, parameters, rates, coupons, T, steps, path histories and market data updates",
"no test simulates a model; a wrong compensator is invisible to any finite unit test",
["src/model"],[("risk neutral drift and jump compensators","src/model/*_model.cpp")],observe=["StockModel::simulatePrices under injected random draws"])
p("C14","Diffusion models follow their discretised SDE exactly",
"Given the normal draws, the geometric Brownian motion path is S_0 times the running product of exp((r-c-sigma^2/2)dt + sigma sqrt(dt) z) and the Heston path moves by exp((r-c-V+/2)dt + sqrt(V+ dt) z_S) with V+ = max(V,0), where the variance at the beginning of the step is used and the draws driving stock and variance have correlation rho. One fresh set of independent standard normal draws is used per step. Inadmissible parameters (|rho|>1, negative v0 or sigma_v) are rejected with a logic_error.",
["inputs","configurations"],"all parameters, market data, maturities, step counts and draws",
"no test simulates a model",
["src/model/gbm_model.cpp","src/model/heston_model.cpp"],[("simulatePrices","src/model/gbm_model.cpp, src/model/heston_model.cpp")])
p("C15","Jump models have the right jump arrivals, jump sizes and diffusion",
"In the Merton, Kou and Bates models the number of jumps per step is Poisson(lambda dt), and the log price moves by the diffusion part plus the sum of that many independent jump sizes: N(muJ,sigmaJ) in Merton and Bates, and in Kou either +Exp(eta1) with probability p or -Exp(eta2) with probability 1-p. In the variance gamma model the log price moves by (r-c+omega)dt + theta g + sigma sqrt(g) z with g gamma distributed with mean dt and variance nu dt. Inadmissible parameters (sigmaJ<=0, p outside [0,1], eta1<=1, eta2<=0, nu<=0, in Bates also v0, kappa, sigma_v<=0 or |rho|>1) are rejected with invalid_argument.",
["inputs","configurations"],"all parameters, draws, jump counts, maturities, step counts",
"no test simulates a model",
["src/model/merton_jump_diffusion_model.cpp","src/model/kou_model.cpp","src/model/variance_gamma_model.cpp","src/model/bates_model.cpp"],[("simulatePrices","src/model")])
p("C16","Simulated paths are well formed and use the current market data",
"Every model returns, for every T > 0 (and T = 0 without jumps), exactly one strictly positive finite price per step of its generator, the price at maturity being the last one, and depends on the draws only: the same draws give the same path. Prices scale proportionally with the initial price. A model, pricer or option created before a market data update gives exactly what one created after the update gives, for updates of price, volatility, coupon and rate.",
["histories","inputs","configurations"],"all models, T, step counts, update histories",
"no test simulates a model or prices after an update",
["src/model","src/solver/monte_carlo"],[("stockData_ shared with MarketData","src/model/base_model.cpp"),("values read at simulation time","src/model")])
p("C17","Brownian bridge backward simulation has the exact conditional law",
"For geometric Brownian motion, the price drawn at an earlier time s given the price at a later time t is S_0 exp((s/t) log(S_t/S_0) + sigma sqrt(s(t-s)/t) z) for one standard normal draw z, for all 0<=s<=t, so that backward simulation from maturity has the same joint law as forward simulation. It uses the current volatility and price; models that do not support backward simulation refuse with a logic_error.",
["inputs","configurations"],"all times, prices, volatilities and draws; all models",
"not tested",
["src/model/gbm_model.cpp","src/model/base_model.cpp"],[("simulatePriceBackward","src/model/gbm_model.cpp")])
p("C18","The configured variance discretisation is applied exactly once per step",
"The explicit Euler scheme maps V to V + kappa(theta - V+)dt + sigma_v sqrt(V+ dt) z and the Milstein scheme adds sigma_v^2 dt (z^2-1)/4, with V+ = max(V,0). Heston and Bates models use the scheme they were given (explicit Euler if none), starting from v0 and applying it exactly once per step with dt = T/steps, the model's own parameters and the variance driving draw of that step (correlation rho with the stock driving draw), each result feeding the next step.",
["inputs","configurations"],"all variances (also negative), parameters, draws, step counts, schemes given or defaulted",
"not tested",
["src/model/discretization","src/model/heston_model.cpp","src/model/bates_model.cpp"],[("CIRDiscretization::update","src/model/discretization"),("default scheme in constructors","src/model/heston_model.cpp, src/model/bates_model.cpp")])
p("C19","Seeded generators are reproducible and independent of each other",
"A number generator constructed with a given type, dimension and seed produces the same sequence of draws every time it is drawn through distribution objects of its own, in every process, regardless of other generators being used in between; different seeds give different sequences, and unseeded pseudo random generators differ from each other. Consequently two pricing runs set up identically with the same seed give identical prices. The dimension is reported unchanged, and dimension zero is rejected.",
["inputs","histories","configurations"],"all generator types, seeds, dimensions, interleavings of use",
"not tested; reproducibility needs comparing runs",
["src/random/number_generator"],[("seed_ handling","src/random/number_generator"),("generator_ initialised from the seed","include/random/number_generator/pseudo_random_generator.h")])
p("C20","Distributions draw from the law and parameters they are constructed with",
"Draws from the normal, standard normal, uniform, exponential, gamma (shape and rate) and Poisson distributions follow the stated law with the given parameters, independently of each other, for all legal parameters; uniform draws stay in [a,b), exponential and gamma draws are non-negative, Poisson draws are non-negative integers. Illegal parameters (sigma<=0, a>=b, rates or shapes <=0) are rejected with invalid_argument, and inverse distribution functions that are not available refuse with a logic_error.",
["inputs","configurations"],"all legal and illegal parameters of all distributions",
"not tested; a law cannot be settled by a few draws",
["src/random/distribution"],[("std distribution members","src/random/distribution")])
p("C21","Inverse normal distribution function is accurate, monotone and symmetric",
"For every quantile in (0,1) the standard normal inverse distribution function agrees with the true value to within 4e-9 for |z| up to 7 (and 2e-6 for |z| up to 10), is non-decreasing across all its approximation regions up to that accuracy, and is antisymmetric around 1/2. Quantiles outside (0,1) are rejected with invalid_argument.",
["inputs"],"all quantiles, especially around the switches between approximation regions and in the tails",
"not tested; coefficient or region errors show only in some ranges",
["src/random/distribution/standard_normal_distribution.cpp"],[("Beasley-Springer-Moro","src/random/distribution/standard_normal_distribution.cpp")])
p("C22","Sobol and Faure generators yield low-discrepancy points",
"Successive draws from a quasi random generator of dimension d are the d coordinates of successive points of a low-discrepancy sequence, every uniform strictly inside (0,1), so every draw through the inverse normal distribution is finite. In every coordinate each subinterval of length b^-k receives its fair share of any run of points up to a small constant, and pairs of leading coordinates fill boxes of the unit square evenly. This holds for any dimension, seed and length, so integrals of smooth functions converge far faster than with random points.",
["inputs","configurations"],"all dimensions, seeds (0 included), sequence lengths",
"not tested",
["src/random/number_generator/sobol_quasi_random_generator.cpp","src/random/number_generator/faure_quasi_random_generator.cpp","src/random/number_generator/base_quasi_random_generator.cpp"],[("step_/point_ cycling and normalisation","src/random/number_generator")],state=[("step_, point_","next coordinate of the current point","include/random/number_generator/base_quasi_random_generator.h")])
p("C23","Matrix solvers solve the system they are given",
"For every nonsingular sparse system each LU solver, and for every diagonally dominant tridiagonal system of size at least 2 also the Thomas algorithm, returns the x with A x = b to rounding accuracy relative to the size of A, x and b; the three agree with each other and leave their inputs unchanged. The sparse LU solver reports a singular matrix with runtime_error instead of returning numbers, and the Thomas algorithm rejects size below 2 with invalid_argument.",
["inputs"],"all sizes, sparsity patterns, asymmetric coefficients and scales",
"not tested",
["src/numerical_analysis/linear_algebra/matrix_solver"],[("MatrixSolver::solve","src/numerical_analysis/linear_algebra/matrix_solver")])
p("C24","Interpolation is exact at nodes and for the functions of its order",
"On every strictly increasing grid, linear and quadratic interpolation return the node value at a node, the end value outside the grid, and reproduce linear functions exactly everywhere on it; linear interpolation lies on the segment between the two neighbouring nodes. Quadratic interpolation reproduces quadratic functions exactly in all intervals except the first and the last, where it is linear. Both hold for uniform and non-uniform grids of every size from two points.",
["inputs"],"all grids, values and evaluation points (nodes, neighbours of nodes, ends, outside)",
"not tested",
["src/numerical_analysis/interpolation"],[("findInterval binary search and Lagrange weights","src/numerical_analysis/interpolation/quadratic_interpolation.cpp"),("LinearInterpolation::interpolate","src/numerical_analysis/interpolation/linear_interpolation.cpp")])
p("C25","Basis functions generate the named polynomials",
"For n basis functions and any vector x, the generated matrix has one row per entry of x and n columns holding the polynomials of degree 0..n-1 evaluated at that entry: monomials x^k, Chebyshev polynomials of the first kind, Legendre polynomials, and Laguerre polynomials. Each row depends on its own entry only, and zero basis functions are rejected with invalid_argument.",
["inputs","configurations"],"all degrees, vector lengths and arguments",
"not tested",
["src/numerical_analysis/basis_function"],[("three-term recurrences","src/numerical_analysis/basis_function")])
p("C26","Regressions minimise their stated objective",
"For every design matrix and response, least squares returns a minimiser of |y-Ax|^2 (the one of smallest norm if A is rank deficient), ridge returns the minimiser of |y-Ax|^2 + lambda |x|^2, and lasso returns the least squares coefficients shrunk towards zero by lambda and set to zero when smaller, which minimises |y-Ax|^2/2 + lambda |x|_1 for designs with orthonormal columns. With lambda = 0 ridge and lasso agree with least squares on full rank designs; negative lambda is rejected with invalid_argument.",
["inputs"],"all designs (tall, square, rank deficient, badly scaled), responses and penalties",
"not tested",
["src/numerical_analysis/regression"],[("Regression::solve","src/numerical_analysis/regression")])
p("C27","Finite difference prices converge to the Black-Scholes price",
"For European calls and puts every scheme (explicit Euler where it is stable, implicit Euler, Crank-Nicolson), with every matrix solver and interpolation, prices to within its discretisation error of the Black-Scholes value with dividend yield, at every spot inside the grid, at the money or away from it, and this error shrinks under refinement. The grid boundary values are those of the option (discounted over the time to maturity), call minus put on the grid equals S exp(-cT) - K exp(-rT) up to discretisation error, and all schemes agree. A later change of spot is priced correctly without rebuilding the solver.",
["inputs","configurations"],"all strikes, rates, coupons, volatilities, maturities, grids, schemes, matrix solvers, interpolations, call/put",
"no test runs the finite difference code",
["src/solver/finite_difference_method"],[("BlackScholesPDE coefficients and boundaries",F+"pde/one_factor/black_scholes_pde.cpp"),("schemes",F+"solver/one_factor")])
p("C28","Finite difference schemes are exact where their order says so",
"For any convection-diffusion-reaction problem V_t = d V_xx + m V_x + q V - f with coefficients depending on time and space, whose solution is linear in time and quadratic in space, all three schemes return the exact solution at the final time at every grid node (explicit Euler where stable), whatever the number of space and time points and the matrix solver: coefficients, source and boundary values are taken at the right time level, and exactly N-1 steps of T/(N-1) are made. The matrix solver and interpolation that were given are the ones used at every step. Solving again returns the same values, and the price is the interpolated solution at the current spot.",
["inputs","configurations"],"all coefficient functions, sources, boundaries, grids, time steps, solvers",
"no test runs the finite difference code",
[F+"solver/one_factor"],[("time marching",F+"solver/one_factor/base_fdm_solver.cpp"),("calculateInnerDomain/BoundaryConditions",F+"solver/one_factor")],state=[("oldPrices/newPrices/tPrev/tCurr","time marching state","include/solver/finite_difference_method/solver/one_factor/base_fdm_solver.h")])
p("C29","Builders configure exactly the requested pricer and keep builds independent",
"A Monte Carlo builder accepts only options of its own kind (others and null: invalid_argument) and refuses to build without an option (logic_error); the built pricer uses the option, market data, stock model and - for American options - regression and basis it was given, or a default geometric Brownian motion of the option's own underlying with 52 steps, least squares and three monomials. Successive builds are independent: later settings or builds never change pricers built before, and defaults are those of the option being built. A solver without a pricer refuses with a logic_error, and uses the current number of paths and the current pricer.",
["histories","configurations"],"all builder kinds, option kinds, setting orders, rebuilds and underlyings",
"not tested",
[S+"builder",S+"mc_solver.cpp"],[("setOption dynamic casts, build defaults",S+"builder"),("MCSolver::setPricer/setN/solve",S+"mc_solver.cpp")])
p("C30","End-to-end Monte Carlo prices agree with closed forms",
"Options made by the factories and priced through the default builders and solver under geometric Brownian motion converge to their closed-form values: European, digital and double digital (Black-Scholes with dividend yield), geometric Asian (discrete lognormal average), for calls and puts, with pseudo random, Sobol and Faure numbers alike (a Faure sequence in d dimensions, p the next prime, once it has more than p^p points). Put-call parity and in-out parity hold, deterministic cases (zero volatility or zero maturity) are priced exactly, and after market data updates the same objects price the new market.",
["inputs","configurations","histories"],"all contracts, market data, generators, numbers of steps and paths, update histories",
"no test prices anything",
["src/solver/monte_carlo","src/model","src/random","src/option","src/payoff"],[("the whole pricing pipeline","src")])
p("C31","Prices respect no-arbitrage relations",
"Whatever the model, generator, market and number of paths, prices taken on equal draws satisfy the relations that hold on every path: calls fall and puts rise with the strike by at most the discounted strike difference and are convex in it (European, Asian, barrier, fixed strike lookback); call minus put is forward minus discounted strike; digitals lie between the call spreads around them and add up to the discount factor; geometric Asian <= arithmetic Asian <= fixed strike lookback; the floating strike lookback is the end of the path against its extreme; knock-in plus knock-out is the plain contract and a farther barrier never raises the knock-in; no American price exceeds exercise with perfect foresight. A change of the currency unit scales all prices. Stable finite difference grids are monotone and convex in the strike and scale likewise.",
["inputs","configurations"],"all models, generators, strikes, barriers, markets, units and grids",
"not tested",
["src/solver","src/model","src/payoff"],[("calculatePrice of every pricer","src/solver/monte_carlo"),("payoffs","src/payoff")])
p("C32","Computations do not influence each other",
"A pricing run, simulation, draw sequence, grid solution, regression or interpolation gives bit for bit the same values whether or not other computations happen in between, in whatever order, on the same or other contracts, underlyings, strategies and builders; only its own earlier draws and the market data matter. No computation changes the market data, the option or a shared strategy.",
["histories","configurations"],"all interleavings of computations over shared contracts, strategies, builders and market changes",
"not tested",
["src"],[("const calculatePrice/simulate/solve/interpolate","src/solver"),("strategies shared between pricers","src/numerical_analysis")],state=[("per-object generator state","the only state a computation advances","include/random/number_generator")])
p("C33","Simulated paths are not kept in memory",
"The memory of a pricing run does not grow with the simulated values: contracts priced from path averages, extremes, touches or final prices work path by path, the American pricer with a Brownian bridge keeps a fixed number of values per path whatever the number of exercise dates, finite difference solvers keep a fixed number of time levels, and generators keep no history of their draws.",
["inputs","configurations"],"all contracts, models, generators, schemes, numbers of paths and steps",
"not tested; the American pricer's comment states O(N) instead of O(N m)",
["src/solver","src/random","src/model"],[("AmericanMCPricer::brownianBridgePrice",S+"mc_american.cpp"),("path loops of the other pricers",S),("FDMSolver::solve time levels",F+"solver/one_factor/base_fdm_solver.cpp")])
p("C34","Descriptions state the contract and the current market",
"Writing an option to a stream states its actual type, expiration, payoff type and strikes (lower and upper for double strike contracts, none for floating strike lookbacks), and the underlying's ticker, current price and volatility, its coupon exactly when it has one, and the current rate - also after market data updates; values are written with the stream's own precision and format, which stay as they were. The names returned by getType tell all option kinds, and calls from puts, apart.",
["inputs","histories"],"all contracts, market data, updates and stream settings",
"not tested",
["src/option/base_option.cpp","src/payoff","src/market_data/stock_data.cpp"],[("operator<< of Option, Payoff, StockData","src/option/base_option.cpp"),("getType of options and payoffs","src/payoff")])
p("C35","Failures are reported and leave nothing broken",
"When a user-supplied part (number generator, regression, basis, variance scheme, market data, equation, matrix solver, interpolation, observer) or a memory allocation fails in the middle of an operation, the exception reaches the caller unchanged, nothing leaks, market data, options and other pricers are as before (a market value being set is either old or, once observers are told, new), and repeating the operation - on the same object, from the same draws - gives the value it gives without the failure.",
["fault_sequences","histories"],"every point at which a part can fail, in every operation",
"not tested",
["src"],[("FDMSolver::solve restart",F+"solver/one_factor/base_fdm_solver.cpp"),("calculatePrice of every pricer",S),("MarketData::addStock/notify","src/market_data/market_data.cpp")])
p("C36","Parameter objects keep exactly what was set and feed factories faithfully",
"A parameter object reports and returns, for every name, exactly the value and type set last under that very name (any spelling is a name of its own), through every copy and assignment as of its moment, and throws invalid_argument for names never set and for any other type. Factories read the object without changing it, one object serves any number of factories, an option keeps the terms it was made with whatever happens to the object later, and a refused request leaves the object usable.",
["histories","inputs"],"all histories of setting, copying, assigning, reading and factory requests over all names, types and values",
"tests set a few parameters once and read them once",
["src/option/parameter_object.cpp","include/option/parameter_object.h","src/option"],[("setParameter/getParameter/hasParameter","include/option/parameter_object.h"),("extraction in the factories","src/option/*/*_factory*.cpp")])
p("C37","Work is proportional to the problem",
"A Monte Carlo run draws a bounded number of random numbers per path and step (more only for the jumps it draws) and evaluates bases and regressions at most once per exercise date; solving a finite difference problem evaluates the equation a bounded number of times per grid point and solves one linear system per implicit time step; prices asked from a solved grid cost one interpolation and no evaluation of the equation; time grows in proportion to paths, steps, grid points, time steps and observers.",
["inputs","histories","configurations"],"all contracts, models, schemes, sizes and sequences of pricings",
"not tested; any implementation that recomputes per step or per price passes every value test",
["src/solver","src/model","src/market_data"],[("MCPricer::calculatePrice path loops",S),("StockModel::simulatePrices","src/model"),("FDMSolver solved flag and time loop",F+"solver/one_factor/base_fdm_solver.cpp"),("MarketData::notifyObservers","src/market_data/market_data.cpp")])
p("C38","Objects die as soon as nothing uses them",
"Options, models, generators, strategies, market data sets, builders, pricers and solvers are alive exactly as long as the caller or an object built with them holds them: replacing a part in a builder, replacing or destroying a pricer, destroying a builder, or registering an option with the market data keeps nothing alive, and no part keeps its user alive. A pricer works on when the caller has released every part of it.",
["histories"],"all histories of creating, wiring, replacing, pricing and releasing objects",
"not tested",
["src","include"],[("shared_ptr members of builders, pricers, models and solvers","include/solver"),("weak registration of options","src/market_data/market_data.cpp"),("unique pricer of MCSolver",S+"mc_solver.cpp")])
p("C39","Objects use the market data they were given, and only that",
"A model, pricer, equation or solver that was given market data of its own takes prices, volatility, coupon and rate from it at the time of use, and gives bit for bit what it gives with the shared market data when that holds the same values; nothing in the shared market data, before or after, has any influence on it, and two objects on different market data of the same ticker never mix.",
["histories","configurations"],"all models, pricers, equations and solvers, all market values and update histories",
"not tested; every test uses the shared market data",
["src/model","src/solver"],[("marketData_ of models","src/model/base_model.cpp"),("marketData_ of pricers","src/solver/monte_carlo/base_mc.cpp"),("marketData_ of equations and FDMSolver",F)])
p("C40","Repeating operations leaves nothing behind",
"However often an operation is repeated, the memory in use by the library and the time one repetition takes stay what they were: options made and dropped, refused requests, pricings from scratch, market updates, paths, draws, prices from one pricer, solver or grid, builds, observers registered and dropped, numerical tools, failed pricings and refused updates; no cache, registry or log grows with the number of operations.",
["histories","configurations"],"all operations, all parameters of them, any number of repetitions",
"not tested; growth inside live containers is invisible to leak checkers and to tests that run an operation once",
["src","include"],[("observer registry","src/market_data/market_data.cpp"),("solver and pricer state","src/solver"),("generator and model state","src/random, src/model")])
p("C41","A refused option request says what is wrong and what is needed",
"When a factory refuses a request, the invalid_argument it throws names the parameter (or the unknown ticker) that is missing, mistyped or invalid, names the kind of contract and whether a call or a put was asked for, and lists exactly the parameters that kind requires, each with its type.",
["inputs"],"all contract kinds, calls and puts, all missing, mistyped and invalid parameters",
"tests only check that something is thrown",
["src/option","include/option"],[("generateErrorMessage of the factories","src/option/*/*_factory*.cpp"),("validation of terms","src/option/base_option.cpp")])
p("C42","Only due warnings are written, and they are written",
"The library writes nothing to standard output, and to standard error only warnings about a finite difference solution: one is given when the explicit scheme violates its stability (CFL) condition for the equation and grid (twice the diffusion times the time step exceeds the squared grid spacing anywhere), or when an implicit or Crank-Nicolson system has a row that is not diagonally dominant, and none otherwise. Every other operation, successful, refused or failed, is silent.",
["inputs","histories","configurations"],"all operations; all equations, grids, schemes and market values",
"not tested; tests do not read the standard streams",
["src/solver/finite_difference_method","src"],[("CFL check",F+"solver/one_factor/euler_explicit_fdm_solver.cpp"),("diagonal dominance checks",F+"solver/one_factor"),("Option::update, destructor","src/option/base_option.cpp")])
p("C43","Arguments outside their domain are refused, those on its edge accepted",
"Nothing is ever computed from a number without meaning: NaN for any numeric parameter of a model, distribution, quantile, regression, interest rate, barrier, strike or maturity; an infinite price, volatility, rate or maturity; a negative, infinite or NaN time to simulate to, or backward simulation from no price or outside 0<=s<=t; a Poisson rate beyond counting; inadmissible model parameters, including a negative jump intensity and variance gamma parameters for which the stock price has no expectation under the current volatility; a Monte Carlo solver with zero paths; a finite difference grid with fewer than 3 space or 2 time points, a non-positive or infinite spatial, negative or infinite temporal domain. Each is refused with a logic_error (or its subclass invalid_argument) when given or at the latest when used, leaves market data and other objects as they were, and the same object serves legal values afterwards. Legal values up to the edge of the domain (correlation +-1, zero initial variance or volatility of variance in Heston, p 0 or 1, zero penalty, time zero, one path, 3 by 2 grids) are accepted and give finite numbers.",
["inputs","configurations"],"all constructor and setter arguments, all market values",
"tests try a few illegal values and no NaN",
["src"],[("model constructors","src/model"),("distribution constructors, inv_cdf","src/random/distribution"),("RidgeRegression, LassoRegression","src/numerical_analysis/regression"),("MarketData::setR","src/market_data/market_data.cpp"),("MCSolver::solve","src/solver/monte_carlo/mc_solver.cpp"),("FDMSolver::calculateStepSizes",F+"solver/one_factor/base_fdm_solver.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
