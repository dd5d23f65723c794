#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the prose is reviewable)."""
import json, os
D = 'src/distribution/'
ALL = [D + f + '.rs' for f in 'bernoulli beta binomial categorical cauchy exponential gamma gaussian laplace logistic lognormal pert triangular uniform'.split()]
CONT = [D + f + '.rs' for f in 'beta cauchy exponential gamma gaussian laplace logistic lognormal pert triangular uniform'.split()]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Distribution functions are the exact CDFs of the named laws',
 'For every distribution and every valid parameter choice, distribution(x) equals the cumulative distribution function of the documented law at every real x: zero below the support, one at and above its upper end, and the right formula in each piece in between; for the discrete laws it is the right-continuous step function that jumps by the mass at each point of the support.',
 ['inputs'], 'all valid parameters x all real x, including x on and just beside every breakpoint',
 'The tests evaluate each CDF for one parameter choice on a handful of points; whole pieces (symmetric or degenerate parameters, boundary points, far tails) are never touched.',
 ALL, [('fn distribution of each impl Distribution', ALL[0] + ' ... ' + ALL[-1])], observe=['Distribution::distribution'])
prop('C02', 'Densities and masses belong to the same law as the CDF',
 'For every continuous distribution, density(x) is the derivative of distribution(x) wherever that derivative exists and is zero outside the support, for all valid parameters. For every discrete distribution, mass(x) is the size of the jump of distribution at x and is zero for values outside the support.',
 ['inputs'], 'all valid parameters x all arguments (inside, outside and at the ends of the support)',
 'Tests compare a few table values with one parameter choice; agreement between density and CDF is never asserted, nor is anything beyond a few points of the support.',
 ALL, [('fn density / fn mass', 'each impl Continuous / impl Discrete'), ('stirlerr, ln_d0', D + 'binomial.rs')], observe=['Continuous::density', 'Discrete::mass'])
prop('C03', 'Quantile functions invert the distribution functions',
 'For every continuous distribution and every p in (0, 1), distribution(inverse(p)) = p, and inverse(0) and inverse(1) are the ends of the support. For every discrete distribution inverse(p) is the smallest point of the support at which the CDF is at least p, so it is always a point of positive probability.',
 ['inputs'], 'all valid parameters x all p in [0, 1], including 0, 1 and p exactly on a CDF breakpoint',
 'Tests invert a few probabilities for one parameter choice; ties, ends and regime switches (small n, many trials) are sampled at most once.',
 ALL, [('fn inverse', 'each impl Inverse'), ('cumsum', D + 'categorical.rs'), ('sum_bottom_up, sum_top_down, inverse_normal', D + 'binomial.rs')], observe=['Inverse::inverse'])
prop('C04', 'Mean, variance, deviation, skewness and kurtosis are those of the law',
 'For every distribution and every valid parameter choice, mean, variance, deviation, skewness and (excess) kurtosis equal the mathematical moments of the documented law; in particular deviation is always the non-negative square root of variance.',
 ['inputs'], 'all valid parameters',
 'Each moment is asserted for one or two parameter choices, often ones (unit scale, zero location, symmetric shape) for which wrong formulae coincide with right ones.',
 ALL, [('fn mean, variance, deviation, skewness, kurtosis', 'each impl'), ('Variance::deviation default', D + 'mod.rs')], observe=['Mean', 'Variance', 'Skewness', 'Kurtosis'])
prop('C05', 'Medians and modes are those of the law',
 'For every valid parameter choice, median() splits the law in half (for a tie of a discrete law: the midpoint of the median interval; for a beta law with both shapes above one: the documented closed-form approximation (alpha - 1/3) / (alpha + beta - 2/3) placed on the support) and modes() returns exactly the points at which the density or mass is maximal, in increasing order and without duplicates, or nothing for a law without a distinguished mode.',
 ['inputs'], 'all valid parameters, including every ordering of the shape parameters against one another and against 1 and every tie',
 'The tests visit single points of the case analysis; several branches (e.g. unbounded densities, symmetric case with an offset support, ties) are visited with at most one value.',
 ALL, [('fn median, fn modes', 'each impl Median / Modes')], observe=['Median::median', 'Modes::modes'])
prop('C06', 'Entropies are the entropies, in nats, of the laws',
 'For every distribution and every valid parameter choice, entropy() equals the (differential) entropy of the documented law in nats, with impossible outcomes contributing nothing; only the binomial law with more than 10000 trials and variance above 80 may use its normal approximation.',
 ['inputs'], 'all valid parameters',
 'One parameter choice per law is asserted.',
 ALL, [('fn entropy', 'each impl Entropy')], observe=['Entropy::entropy'])
prop('C07', 'Samples follow the law, from fresh and independent randomness',
 'For every valid parameter choice and an ideal source, sample() is distributed according to the documented law: it is a law-preserving transformation of draws that are all taken fresh from the supplied source within that call, with every rejection loop redrawing all the randomness that it tests. Hence every sample lies in the (closed) support, and no two samples or parts of a sample share a draw.',
 ['inputs', 'histories'], 'all valid parameters x all outcomes of the source of randomness',
 'Most samplers (exponential, gamma, laplace, logistic, lognormal, gaussian, triangular, pert) are exercised by no test or only by a check of the first few values of one seed.',
 ALL, [('fn sample', 'each impl Sample'), ('gaussian::sample, gamma::sample, gamma::sample_ln', D)], observe=['Sample::sample'])
prop('C08', 'The standard Gaussian generator is an exact ziggurat',
 'The standard Gaussian sample is produced by a ziggurat whose 128 layers have equal area under the Gaussian curve: layer index, magnitude and sign come from disjoint bits of one draw, the fast path accepts exactly the part of a layer that lies under the curve, the wedge and tail fall-backs accept with exactly the remaining probability, and rejected attempts start over with a new draw.',
 ['inputs'], 'every 64-bit draw and every sequence of draws, every layer of the tables',
 'No test looks at the distribution of Gaussian samples; a wrong table entry or a shared bit changes the law by less than any sampled assertion could see.',
 [D + 'gaussian.rs'], [('gaussian::sample', D + 'gaussian.rs'), ('tables K, Y, W and R', D + 'gaussian.rs')], observe=['Gaussian::sample', 'Lognormal::sample', 'Gamma::sample', 'Beta::sample', 'Pert::sample', 'Cauchy::sample'])
prop('C09', 'The standard Gaussian quantile is accurate and odd about 1/2',
 'For every p in (0, 1) the standard Gaussian quantile agrees with the true quantile to about 15 significant digits, changes sign when p is replaced with 1 - p, is minus infinity at 0 and plus infinity at 1. The Gaussian and log-normal quantiles and the normal-approximation branch of the binomial quantile are built upon it.',
 ['inputs'], 'all p in [0, 1], in the central, intermediate and far-tail regime',
 'The table of coefficients has 48 entries in three regimes; the tests visit the far tail with no or few probabilities.',
 [D + 'gaussian.rs', D + 'lognormal.rs', D + 'binomial.rs'], [('gaussian::inverse with its coefficient tables', D + 'gaussian.rs')], observe=['Gaussian::inverse', 'Lognormal::inverse'])
prop('C10', 'Results are well defined: never NaN, densities never negative, CDFs in [0, 1]',
 'For valid parameters of ordinary magnitude (scales, rates and shapes between 1e-100 and 1e100, locations within 1e100, at most 2^53 trials) and any finite or infinite argument, every density and mass is a number that is not negative, every distribution function is a number in [0, 1], and no quantile, moment that exists, or entropy is NaN: intermediate overflow, underflow, 0 * infinity, infinity - infinity and 0 / 0 never surface.',
 ['inputs'], 'all valid parameters of ordinary magnitude x all finite arguments and probabilities in [0, 1]',
 'Tests use moderate values; overflow of gamma functions, underflow of tails and removable singularities at the ends of the support appear only at extreme or special inputs.',
 ALL, [('density, mass, distribution, inverse, moments, entropy', 'all impls')], observe=['Continuous::density', 'Discrete::mass', 'Distribution::distribution', 'Inverse::inverse'])
prop('C11', 'No panic and no endless loop on valid input',
 'With valid parameters and arguments no operation panics: no out-of-bounds access, arithmetic overflow, failed unwrap or reached unreachable!, and every loop either is bounded by the data, makes progress towards its exit on every iteration, or draws fresh randomness before retrying.',
 ['inputs', 'schedules'], 'all valid parameters and arguments, every control-flow path of every public function',
 'A panic site is only tested when a sampled input happens to hit it; most of the index computations, unwraps and loop exits depend on inputs that are not sampled.',
 ALL + ['src/sampler/mod.rs'], [('index expressions, integer arithmetic, unwrap/unreachable!, loops', 'all files')], observe=['every public function'])
prop('C12', 'Argument checks reject exactly the documented invalid inputs',
 'In builds with debug assertions every constructor panics on each parameter choice that its documentation rules out (including NaN) and accepts every choice that it allows, and every quantile function panics exactly for p outside [0, 1]; a probability vector is accepted only if its entries are in [0, 1] and sum up to one within rounding. No other condition on valid inputs is asserted.',
 ['inputs', 'configurations'], 'all argument values including NaN, zeros, ends of ranges and infinities',
 'The tests contain hardly any should_panic case; a check that is too weak or too strict by one relation is invisible to them.',
 ALL, [('should! / debug_assert! in constructors and quantile functions', 'all files'), ('macro should', 'src/lib.rs')], observe=['constructors', 'Inverse::inverse', 'Discrete::mass'])
prop('C13', 'Parameters are reported, cached and defaulted faithfully',
 'Every accessor returns exactly the value given to (or documented as derived by) the constructor, values cached at construction agree with the parameters from which they are derived, the constructor taking a failure probability builds the same law as the one taking the complementary success probability, and the default instances are the standard members of their families.',
 ['inputs', 'histories'], 'all valid parameters, all orders of construction, copying and use',
 'Accessors and default instances are barely tested, and cached values are exercised only through one parameter choice.',
 ALL, [('new, with_failure, accessors, Default', 'all files')], state=[('cached fields', 'ln_beta, ln_norm, norm, q, pq, np, nq, npq, cumsum, gaussian, alpha, beta', 'struct definitions')], observe=['constructors', 'accessors'])
prop('C14', 'Operations are pure and sampling is reproducible',
 'Every query is a function of the parameters and arguments alone, and the outcome of sampling is a function of the parameters and of the sequence of values read from the supplied source alone: there is no global or interior mutable state, no ambient randomness, time or environment, and a distribution is never changed by use.',
 ['histories', 'schedules'], 'all interleavings and repetitions of calls on shared distributions',
 'Tests run each operation once; hidden state or ambient input shows only across calls, threads or runs.',
 ALL + ['src/sampler/mod.rs', 'src/source/mod.rs'], [('&self receivers, no statics, Source as the only input of randomness', 'whole crate')], observe=['every public function'])
prop('C15', 'The independent sampler is the endless stream of single samples',
 'Independent(&d, &mut s) yields, on every step, exactly the value that one call of d.sample(s) would produce at that moment, consumes the source exactly as that call does, and never ends, whatever has been taken from it before.',
 ['histories'], 'all distributions, sources and lengths of iteration, interleaved with other use of the source',
 'The only tests take a fixed number of items and compare nothing with direct sampling.',
 ['src/sampler/mod.rs'], [('impl Iterator for Independent', 'src/sampler/mod.rs')], observe=['Iterator for Independent'])
prop('C16', 'Location, scale and reflection act as they should',
 'Shifting or scaling the parameters of a location-scale law shifts and scales its quantiles, medians, modes, mean and support, scales deviation and inverse density, leaves CDF values, skewness and kurtosis unchanged and adds the logarithm of the scale to the entropy; swapping the roles of the two ends of a reflectable law (beta shapes, binomial success and failure, triangular and PERT mode, symmetric laws about their centre) mirrors all of these.',
 ['inputs'], 'all valid parameters x all shifts, positive scales and reflections',
 'Metamorphic relations between different parameter choices are not tested at all; most tests use one location and scale.',
 CONT + [D + 'binomial.rs', D + 'bernoulli.rs'], [('all formulae of the location-scale and reflectable laws', D)], observe=['all traits'])
prop('C17', 'No loss of accuracy by cancellation in the known delicate regimes',
 'Closed-form results keep at least half of the significant digits where a naive formula would lose all of them: the exponential CDF and quantile for small arguments, the Laplace and logistic lower tails and the logistic quantile near one, log-normal variance, skewness and kurtosis for small sigma, triangular and PERT shapes and moments far from the origin, Laplace and Gaussian entropies, all moments of the one- and two-parameter laws for very small and very large scales, and the masses, moments and entropies of Bernoulli and binomial laws for very small success probabilities and (through `with_failure`) very small failure probabilities.',
 ['inputs'], 'arguments and parameters in the delicate regimes (small arguments 1e-12, offsets 1e8 times the scale, probabilities next to 0 and 1)',
 'Loss of accuracy is gradual and only visible far from the values used in tests.',
 CONT + [D + 'bernoulli.rs', D + 'binomial.rs'], [('exp_m1, ln_1p, factored differences', D)], observe=['Distribution::distribution', 'Inverse::inverse', 'moments'])
prop('C18', 'The crate stays free of std, unsafe code and of gaps in its API',
 'The library builds without the standard library, contains no unsafe code, every distribution implements the documented set of traits, is exported at the crate paths and in the prelude, is cheap to duplicate (Copy, or Clone for the categorical law), and can be shared and sent between threads.',
 ['programs', 'configurations'], 'all programs using the public API, std and no_std targets',
 'Tests are compiled with std and use concrete distributions only; a missing export, lost auto trait or std dependency breaks only other programs.',
 ['src/lib.rs', 'src/prelude.rs', 'src/distribution/mod.rs', 'src/sampler/mod.rs', 'src/source/mod.rs'], [('#![no_std], pub use lists, derives, impls', 'src')], observe=['public API'])
prop('C19', 'Fitting a Gaussian uses the sample mean and the unbiased deviation',
 'Collecting two or more finite, not all equal, numbers into a Gaussian gives the law whose mean is their arithmetic mean and whose deviation is the square root of the sum of squared deviations from that mean over one less than their number; every number is used exactly once and their order does not matter up to rounding. In double precision the deviation keeps at least seven digits for numbers whose mean is up to a million deviations from zero.',
 ['inputs'], 'all finite sequences of numbers of length at least two',
 'One fixed sample is tested.',
 [D + 'gaussian.rs'], [('impl FromIterator<f64> for Gaussian', D + 'gaussian.rs')], observe=['FromIterator for Gaussian'])
prop('C20', 'Distribution functions and quantiles are monotone',
 'For all valid parameters distribution(x) never decreases as x grows, tends to zero and one at minus and plus infinity, and inverse(p) never decreases as p grows and never leaves the closed support.',
 ['inputs'], 'all valid parameters x all pairs of arguments',
 'Monotonicity relates pairs of arguments; tests evaluate isolated points in increasing order of a coarse grid.',
 ALL, [('fn distribution, fn inverse', 'all impls')], observe=['Distribution::distribution', 'Inverse::inverse'])
prop('C21', 'Large-n binomial approximations use the published expansions',
 'For many trials the binomial mass uses the saddle-point expansion with the Stirling error terms to their stated order, and the quantile for variance above 80 uses the asymptotic (Cornish-Fisher) expansion of the binomial quantile up to the fourth inverse power of the deviation; each stored coefficient and each regime switch is consistent with the expansion it belongs to.',
 ['inputs'], 'all n, p and probabilities in the regimes that use the expansions',
 'A wrong coefficient or sign perturbs the result by little or only in the tails; tests compare five values.',
 [D + 'binomial.rs'], [('inverse_normal, stirlerr, ln_d0', D + 'binomial.rs')], observe=['Binomial::mass', 'Binomial::inverse'])
prop('C22', 'Categorical tables keep their invariants',
 'After construction the cumulative table of a categorical law has one entry per category, starts with the first probability, never decreases, stays within [0, 1], grows exactly at the possible categories, and is one from the last possible category on; mass, CDF, quantile, median and sampling are all derived from the probabilities given.',
 ['inputs', 'histories'], 'all probability vectors of any length, with zeros anywhere and any rounding',
 'Tests use three- to ten-element vectors without rounding trouble and never look at the table.',
 [D + 'categorical.rs'], [('Categorical::new', D + 'categorical.rs')], state=[('cumsum', 'running sums of p', D + 'categorical.rs')], observe=['Categorical'])
prop('C23', 'The Newton branch of the binomial quantile converges to the exact quantile',
 'For n >= 1000 trials and variance at most 80 the iteration that looks for the binomial quantile terminates and returns the smallest k whose CDF is at least p.',
 ['inputs'], 'all n >= 1000 with variance at most 80, all p',
 'Tests pin a handful of values, two of which are off by one from the definition.',
 [D + 'binomial.rs'], [('Newton iteration in fn inverse', D + 'binomial.rs')], observe=['Binomial::inverse'])
prop('C24', 'Samples pass statistical tests of fit',
 'With the default source of randomness, long runs of samples of every distribution pass goodness-of-fit and independence tests.',
 ['histories'], 'long runs of the default source',
 'No test draws more than a few samples.',
 ALL, [('fn sample', 'all impls'), ('default source', 'random crate')], observe=['Sample::sample'])
prop('C25', 'Special functions of the dependencies are accurate',
 'The incomplete beta and gamma functions and their inverses, error, digamma, gamma and log-beta functions on which CDFs, quantiles, entropies and densities rest are accurate to about 1e-10 for all the arguments the library passes.',
 ['inputs'], 'all arguments reachable from valid parameters',
 'Tests compare single values.',
 ['Cargo.toml'], [('special::{Beta, Gamma, Error}', 'dependency special 0.10')], observe=['beta, gamma, binomial, gaussian'])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), max(len(p['title']) for p in P))
