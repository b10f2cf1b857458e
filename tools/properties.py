"""Writes properties.jsonl (the source of that file)."""
import json
import os

ARCH = ['copulae/archimedean/abstract.py', 'copulae/archimedean/clayton.py', 'copulae/archimedean/frank.py',
        'copulae/archimedean/gumbel.py']
ELL = ['copulae/elliptical/abstract.py', 'copulae/elliptical/gaussian.py', 'copulae/elliptical/student.py']
GMC = ['copulae/mixtures/gmc/gmc.py', 'copulae/mixtures/gmc/parameter.py', 'copulae/mixtures/gmc/loglik.py',
       'copulae/mixtures/gmc/marginals.py', 'copulae/mixtures/gmc/estimators/em.py']
P = []


def prop(id, title, statement, over, text, why, files, *mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop('C01', 'Archimedean generators: inverse pair, derivatives and log forms',
     'For the Clayton, Frank and Gumbel copulas the generator and the inverse generator invert each other, the inverse '
     'generator is the textbook one (0 at 1, strictly decreasing), and its reported first and second derivatives are the '
     'derivatives of the reported inverse generator. Requests for logarithms return the logarithm of the magnitude of the '
     'plain answer, and every element of an array argument is answered as if it were alone.',
     ['inputs', 'configurations'], 'every parameter of the family (negative ones in two dimensions too), every argument in '
     'the open unit interval or on the half line',
     'The tests compare a few parameters and points against stored R output; branches for small arguments, negative '
     'parameters and parameter zero are sampled rarely or never.', ARCH,
     ('generator, inverse generator, derivatives of the inverse generator', 'copulae/archimedean/{clayton,frank,gumbel}.py: '
      'psi, ipsi, dipsi'))
prop('C02', 'Archimedean and independence distribution functions are copulas',
     'The distribution function of every Archimedean and independence copula is the family\'s closed form: it has uniform '
     'margins, is zero on the lower faces, lies between the Frechet bounds, is monotone in each argument, symmetric under '
     'permutation of the arguments, and gives independence at the independence parameter. The logarithm, row-wise and '
     'single-point forms agree with each other.',
     ['inputs', 'configurations'], 'every parameter of the family, every point of the unit cube, dimensions 2 to 4',
     'The tests evaluate stored points for a handful of parameters; margins, bounds and symmetry are statements about all '
     'points and parameters.', ARCH + ['copulae/indep/indep.py'],
     ('distribution function from generator and inverse generator', 'copulae/archimedean/abstract.py: cdf'),
     ('independence copula', 'copulae/indep/indep.py: cdf'))
prop('C03', 'Archimedean and independence densities are derivatives of the cdf',
     'The density of an Archimedean or independence copula equals the mixed partial derivative of its distribution function, '
     'is positive in the interior and symmetric, is zero outside the support, and equals one at the independence parameter. '
     'Points outside the unit cube or with missing coordinates have density nan without disturbing the other rows, and the '
     'logarithmic form is the logarithm of the plain form.',
     ['inputs', 'configurations'], 'every parameter of the family, every point of the open unit cube, dimensions 2 and 3',
     'The tests check stored values at a few points with one or two parameters each; a wrong term that vanishes there is '
     'invisible.', ARCH + ['copulae/archimedean/_shared.py', 'copulae/indep/indep.py'],
     ('densities', 'copulae/archimedean/{clayton,frank,gumbel}.py: pdf'),
     ('validity of rows', 'copulae/archimedean/_shared.py'))
prop('C04', 'Rank correlation, tail dependence and extreme-value functions of families',
     'For every family, the inverse of Kendall\'s tau (and of Spearman\'s rho where offered) inverts the reported measure, the '
     'reported derivatives are derivatives of the reported measures, and the measures are the textbook functions of the '
     'parameter and lie within their attainable range. Tail dependence equals the textbook coefficient, and the Gumbel '
     'dependence function lies between max(w, 1-w) and 1 with the reported derivatives.',
     ['inputs', 'configurations'], 'every parameter of the family, every attainable rank correlation, scalars and arrays',
     'The tests compare a few parameters with stored values; the inverse and derivative relations hold over a continuum.',
     ARCH + ELL, ('tau, rho, their inverses and derivatives', 'copulae/archimedean/*.py and copulae/elliptical/*.py: tau, '
                  'rho, itau, irho, dtau, drho'), ('tail dependence', 'lambda_'),
     ('Pickands function', 'copulae/archimedean/gumbel.py: A, dAdu'))
prop('C05', 'Copula parameters stay inside the family\'s domain',
     'Creating a copula or assigning its parameters succeeds exactly when the value is in the domain of the family for its '
     'dimension, and then reading the parameters gives back the value assigned. A rejected assignment leaves the copula as it '
     'was. For elliptical copulas the domain asks for one correlation per pair and positive degrees of freedom; correlations '
     'that form no positive semi-definite matrix have log-likelihood minus infinity. The bounds a copula publishes are its '
     'domain, up to a margin below 0.00001.',
     ['inputs', 'histories'], 'every real parameter value or vector, every dimension up to 4, sequences of assignments',
     'The tests try a couple of bad values; domain boundaries and the state after a rejection are not covered.',
     ARCH + ELL + ['copulae/copula/base.py'], ('constructors and parameter setters', 'params setters of every family'))
prop('C06', 'Elliptical correlation matrices stay symmetric, unit-diagonal and consistent',
     'Whatever sequence of element, row, column, vector or whole-matrix assignments is made to an elliptical copula, its '
     'correlation matrix stays symmetric and positive semi-definite with a unit diagonal, and the vector and matrix views of it '
     'agree. An assignment that leaves a valid correlation matrix changes exactly the addressed pair or pairs, and one with '
     'values outside [-1, 1], wrong shape or a diagonal index is refused without effect.',
     ['inputs', 'histories'], 'every valid and invalid index and value, dimensions 2 to 4',
     'The tests assign a few fixed matrices and elements; which pair each index addresses for each dimension, and the state '
     'after refusals, is a finite but large space over real values.',
     ELL + ['copulae/core/misc.py', 'copulae/core/linalg.py'],
     ('indexed access', 'copulae/elliptical/abstract.py: __getitem__, __setitem__'),
     ('vector to matrix', 'copulae/core/misc.py: create_cov_matrix, tri_indices'))
prop('C07', 'Gaussian and Student densities are ratios of joint to marginal densities',
     'The density of a Gaussian or Student copula equals the joint density at the marginal quantiles divided by the product of '
     'the marginal densities, with the copula\'s own correlation matrix and degrees of freedom; the distribution function of the '
     'Gaussian copula is the joint normal distribution function at the quantiles. The logarithmic, row-wise and single-point '
     'forms agree, and independence (zero correlation) gives Gaussian density 1.',
     ['inputs', 'configurations'], 'every correlation with a positive definite matrix, every degrees of freedom, every interior '
     'point, dimensions 2 and 3',
     'The tests compare stored values for a few correlation matrices.', ELL + ['copulae/stats/_multivariate_t.py'],
     ('densities', 'copulae/elliptical/{gaussian,student}.py: pdf, cdf'))
prop('C08', 'Empirical copula functions are those of the ranked data',
     'The empirical copula counts the pseudo-observations at or below a point (or averages the checkerboard or beta kernels), '
     'divided by the sample size plus the offset; it is monotone, invariant under strictly increasing transformations of the '
     'columns and under reordering of the rows, and the beta density is the mixed derivative of the beta distribution function. '
     'Transforming pseudo-observations to margins returns order statistics of the original columns.',
     ['inputs', 'configurations'], 'every data set of a few rows with every tie pattern, every evaluation point, every tie '
     'method, smoothing and offset',
     'The tests compare stored values for one data set; ties, offsets and boundary points are not explored.',
     ['copulae/empirical/empirical.py', 'copulae/empirical/distribution.py', 'copulae/empirical/_distribution.pyx'],
     ('kernels', 'copulae/empirical/_distribution.pyx'), ('front end', 'copulae/empirical/empirical.py: cdf, pdf, to_marginals'))
prop('C09', 'Pseudo-observations are the column ranks over n+1',
     'Pseudo-observations replace each column by its ranks divided by the number of rows plus one, lie strictly inside the unit '
     'interval, keep the order of the data, treat ties as the chosen method says, and depend on each column alone. Data frames '
     'keep their index and column names and the input is not modified.',
     ['inputs', 'configurations'], 'every data set of up to five rows and three columns with every order and tie pattern, '
     'every tie method, vectors, arrays, lists and frames',
     'The tests rank fixed arrays; all orderings and tie patterns times all methods and containers are not.',
     ['copulae/core/misc.py', 'copulae/copula/base.py'], ('ranking', 'copulae/core/misc.py: pseudo_obs, rank_data'))
prop('C10', 'Correlation matrices use exactly the rows their missing-data mode says',
     'A correlation matrix has a unit diagonal, is symmetric, and each entry is the chosen coefficient of the two columns over '
     'all rows, over the rows complete in every column, or over the rows complete in that pair, as requested; missing values '
     'give nan only when all rows are requested. Vector pairs, arrays and frames agree, frames keep names, and unknown methods '
     'or modes are refused.',
     ['inputs', 'configurations'], 'every data set of a few rows, every missing pattern, every method and mode',
     'The tests use one data set with few missing cells.', ['copulae/stats/correlation.py'],
     ('row selection', 'copulae/stats/correlation.py: corr and helpers'))
prop('C11', 'Exchangeability and radial symmetry statistics',
     'The exchangeability and radial symmetry statistics are the Cramer-von Mises distances they document between the empirical '
     'copula and its transposed or survival version: non-negative, zero for data that are exactly symmetric, and unaffected by '
     'swapping the two samples, reordering rows, or strictly increasing transformations of a column. The p-value is the share '
     'of replications at least as large, with half a count added, and therefore lies strictly between 0 and 1.',
     ['inputs', 'configurations'], 'every data set of a few rows with every order and tie pattern, every outcome of the random '
     'replications, with and without an integration grid',
     'The tests run one stored data set and check a rounded statistic.',
     ['copulae/gof/exchangeability.py', 'copulae/gof/_exchangeability.pyx', 'copulae/gof/radial_symmetry.py',
      'copulae/gof/_radial_symmetry.pyx'],
     ('statistics and replications', 'copulae/gof/_exchangeability.pyx, copulae/gof/_radial_symmetry.pyx'),
     ('p-values', 'copulae/gof/exchangeability.py, copulae/gof/radial_symmetry.py'))
prop('C12', 'Goodness-of-fit statistic and parametric bootstrap',
     'The goodness-of-fit statistic is the sum over the pseudo-observations of the squared distance between the empirical copula '
     'and the fitted copula, and the reported parameter is the one fitted to the data. The p-value is the share of bootstrap '
     'statistics at least as large as that statistic with half a count added, where every replication is drawn from the fitted '
     'copula, carries the tie pattern of the data column by column, and is fitted afresh without changing the first fit.',
     ['inputs', 'configurations'], 'every small data set with every tie pattern, every bootstrap sample, number of replications '
     'up to 3',
     'The tests run one data set and look at a broad range of p-values.',
     ['copulae/gof/goodness_of_fit/goodness_of_fit.py', 'copulae/gof/goodness_of_fit/utils.py'],
     ('statistic and bootstrap', 'copulae/gof/goodness_of_fit/goodness_of_fit.py'), ('tie bookkeeping', 'utils.py'))
prop('C13', 'Gaussian mixture parameters and EM steps are valid',
     'Mixture parameters are accepted exactly when weights form a probability vector and means and covariances have matching '
     'shapes, and converting them to a flat vector, a dictionary or a tuple and back preserves weights, means and covariances. '
     'An expectation step returns for each row the posterior cluster probabilities, and a maximization step returns the weighted '
     'weights, means and covariances for them.',
     ['inputs'], 'every parameter set with 2 or 3 clusters in up to 3 dimensions, every small data set',
     'The tests use one parameter set and look at the outcome of a whole fit.', GMC,
     ('parameters', 'copulae/mixtures/gmc/parameter.py'), ('EM', 'copulae/mixtures/gmc/estimators/em.py'))
prop('C14', 'Gaussian mixture densities, margins and likelihoods',
     'The mixture density and distribution function are the weighted sums of the component values (and their logarithms when asked '
     'for), the marginal distribution functions lie in [0, 1], are increasing and symmetric as mixtures of normals are, and the '
     'likelihoods are sums of log mixture densities with the marginal terms subtracted for the copula likelihood. Among EM '
     'iterates, the parameters reported as best are those with the largest recorded copula likelihood, under the criteria that '
     'promise so, and convergence is judged on the last two recorded values.',
     ['inputs', 'histories'], 'every weight, mean and covariance with 2 clusters in 2 dimensions, every point, every sequence of '
     'recorded likelihoods up to length 4',
     'The tests check one parameter set against stored values.', GMC,
     ('densities', 'copulae/mixtures/gmc/gmc.py: pdf, cdf'), ('margins', 'copulae/mixtures/gmc/marginals.py'),
     ('likelihoods', 'copulae/mixtures/gmc/loglik.py'), ('best iterate', 'copulae/mixtures/gmc/estimators/em.py: LogLik'))
prop('C15', 'Marginal copula composes margins and dependence structure',
     'A copula with marginal distributions evaluates its inner copula at the marginal distribution functions of each coordinate: '
     'the density is the inner density times the marginal densities (sums of logarithms in logarithmic form), the distribution '
     'function is the inner one, and samples are inner samples through the marginal quantile functions. Column i always uses '
     'margin i, whole-number input is not truncated, and the reported parameters describe the margins in use.',
     ['inputs', 'configurations'], 'every real input, every mix of margin types, dimensions 2 and 3, float and integer input',
     'The tests use one trivariate example with float data.', ['copulae/marginal/marginal.py', 'copulae/marginal/univariate.py'],
     ('composition', 'copulae/marginal/marginal.py: cdf, pdf, random, fit'),
     ('margins', 'copulae/marginal/univariate.py'))
prop('C16', 'Input forms are equivalent and malformed input is refused',
     'Lists, arrays, series, data frames, single points and matrices with the same numbers give the same answers from every '
     'copula, positionally or by keyword; after fitting on a data frame, columns are matched by name. Inputs with the wrong '
     'number of columns or dimensions are refused.',
     ['inputs', 'configurations'], 'every value of the input, every container, every column order, every copula class',
     'The tests mostly pass arrays positionally.', ['copulae/utility/annotations/reshape.py',
                                                   'copulae/utility/annotations/validations.py', 'copulae/copula/base.py'],
     ('casting and reshaping', 'copulae/utility/annotations/reshape.py'),
     ('dimension checks', 'copulae/utility/annotations/validations.py'))
prop('C17', 'Queries neither modify their arguments nor the copula',
     'Evaluating densities, distribution functions, generators, dependence measures, special functions or statistics leaves every '
     'argument array unchanged and leaves the copula\'s parameters unchanged, and repeating a query gives the same answer. '
     'Parameters given to or read from a copula are not silently changed by later operations on other objects.',
     ['inputs', 'histories'], 'every argument value, every public query, repeated and interleaved calls',
     'The tests never compare arguments before and after a call.',
     ARCH + ELL + ['copulae/special/_specfunc.pyx', 'copulae/stats/stable/pdf.py', 'copulae/mixtures/gmc/parameter.py'],
     ('special functions', 'copulae/special/_specfunc.pyx'), ('parameter objects', 'copulae/mixtures/gmc/parameter.py'))
prop('C18', 'Random generation is the right transform and reproducible',
     'Samples are the documented transforms of the underlying uniform, normal, gamma and chi-square draws, so that each family\'s '
     'conditional distribution or stochastic representation holds exactly; they have the requested shape and lie in the unit '
     'cube. Giving a seed determines the whole sample, and the component draws of one sample are distinct draws.',
     ['inputs', 'histories'], 'every value of the underlying draws, every parameter of the family, sizes up to 3, dimensions 2 '
     'and 3',
     'The tests check shapes and approximate correlations of one seeded sample.',
     ARCH + ELL + ['copulae/indep/indep.py', 'copulae/stats/_multivariate_t.py', 'copulae/stats/uniform.py',
                   'copulae/mixtures/gmc/random.py'],
     ('samplers', 'random methods of every family; copulae/stats/_multivariate_t.py: rvs; copulae/mixtures/gmc/random.py'))
prop('C19', 'Fitting maximises the right objective and reports what it set',
     'Likelihood fitting minimises the negative (scaled) log-likelihood of the pseudo-observations and treats invalid parameters '
     'as infinitely bad; afterwards the copula\'s parameters are the optimum and the summary reports that optimum, its '
     'log-likelihood and the number of observations. Rank-inversion fitting sets the parameters whose rank correlation is the '
     'sample\'s; caller-supplied options and starting points are respected and unchanged, and data outside the unit interval or of '
     'the wrong shape are refused. The summary of a copula shows its current parameters; a fit summary before any fit and an '
     'unknown category are refused.',
     ['inputs', 'configurations'], 'every small data set, every candidate parameter the optimiser may try, every result it may '
     'return, every option',
     'The tests fit two data sets and compare rounded estimates.',
     ['copulae/copula/base.py', 'copulae/copula/estimator/estimator.py', 'copulae/copula/estimator/max_likelihood.py',
      'copulae/copula/estimator/corr_inversion.py', 'copulae/elliptical/student.py'],
     ('objective and result', 'copulae/copula/estimator/max_likelihood.py'),
     ('inversion', 'copulae/copula/estimator/corr_inversion.py'), ('options', 'copulae/copula/estimator/estimator.py'))
prop('C20', 'Combinatorial and logarithmic special functions satisfy their identities',
     'Generalised binomials and permutations, Stirling and Eulerian numbers, sign and polynomial evaluation, log-sum, log1mexp, '
     'log1pexp and the polylogarithm of non-positive order satisfy their defining recurrences and identities; logarithmic forms '
     'are logarithms, also of arguments whose exponential is beyond the range of double precision; array arguments are answered element by element. The root finder widens an interval until its ends differ '
     'in sign, returns a root inside, and fails when none is within reach.',
     ['inputs'], 'every real argument in the domain; integer orders up to 7',
     'The tests check tables of a few values.', ['copulae/special/special_func.py', 'copulae/special/combinatorics.py',
                                                'copulae/special/trig.py', 'copulae/special/optimize.py'],
     ('identities', 'copulae/special/special_func.py'), ('gamma forms', 'copulae/special/combinatorics.py'))
prop('C21', 'Clausen, Debye and dilogarithm functions keep their structural identities',
     'The Clausen function is odd, periodic with period two pi and has the derivative -log(2 sin(x/2)). The Debye functions of '
     'order 1 and 2 equal 1 at zero, are k / x^k times the integral of t^k / (e^t - 1) for positive arguments and missing (nan) for '
     'negative ones. The dilogarithm equals its defining series and satisfies its reflection, inversion and duplication formulas, '
     'also where its implementation switches expansions. The complex dilogarithm of a modulus and an angle equals its series, does '
     'not change when whole turns are added to the angle, gives conjugate values at opposite angles, the real dilogarithm on the '
     'real axis and the Clausen function on the unit circle, and satisfies reflection and inversion. Scalars, arrays and any thread setting give the same values with the '
     'shape of the input.',
     ['inputs', 'configurations'], 'every argument in stated ranges on each side of every switch of expansion; numbers, lists, vectors and matrices',
     'The tests check stored values on a short range.', ['copulae/special/_specfunc.pyx', 'copulae/special/clausen.py',
                                                        'copulae/special/debye.py', 'copulae/special/dilog.py'],
     ('range reduction and expansions', 'copulae/special/_specfunc.pyx'))
prop('C22', 'Matrix helpers convert and test exactly',
     'Covariance and correlation matrices convert into each other without loss, the triangular index lists enumerate each pair '
     'once and in the same order on both sides so that a vector determines a symmetric unit-diagonal matrix, and symmetry and '
     'positive semi-definiteness tests accept exactly the matrices that have the property up to the tolerance. Repairing a matrix '
     'leaves a valid one unchanged and refuses an asymmetric one.',
     ['inputs'], 'every symmetric or general matrix of size 2 and 3 (index lists up to size 6)',
     'The tests use one or two numeric matrices.', ['copulae/core/linalg.py', 'copulae/core/misc.py'],
     ('conversions and tests', 'copulae/core/linalg.py'), ('index lists', 'copulae/core/misc.py'))
prop('C23', 'Multivariate t distribution',
     'The multivariate t density is the textbook density of the given mean, covariance and degrees of freedom (normal beyond the '
     'documented limit), row by row, with its logarithm as logarithmic form; samples are normal vectors divided by an independent '
     'root chi-square over the degrees of freedom, shifted by the mean (afterwards, or before for the Kshirsagar type). The density '
     'refuses non-positive degrees of freedom, a covariance that is not positive semi-definite and mismatched shapes.',
     ['inputs'], 'every mean, covariance, degrees of freedom and point, dimensions 1 to 3',
     'The tests compare a few stored values.', ['copulae/stats/_multivariate_t.py'],
     ('density and sampling', 'copulae/stats/_multivariate_t.py'))
prop('C24', 'All methods for Gumbel polynomials and Sibuya sums agree',
     'The coefficients and values of the Gumbel density polynomial and the Sibuya sum probabilities do not depend on the '
     'computation method chosen, the logarithmic form is the logarithm, and the polynomial is the one of the generator\'s '
     'derivatives.',
     ['inputs', 'configurations'], 'every dependence parameter and argument, dimensions up to 5, every method',
     'The tests compare methods at one or two parameters.', ['copulae/archimedean/gumbel.py',
                                                            'copulae/archimedean/auxiliary.py'],
     ('coefficients and polynomials', 'copulae/archimedean/gumbel.py: gumbel_coef, gumbel_poly'),
     ('Sibuya sums', 'copulae/archimedean/auxiliary.py'))
prop('C25', 'Skew stable distribution: parameterizations, density and samples',
     'The density of the stable distribution under any of its three parameterizations is the location-scale transform of the '
     'standard density, mirrors when the skewness changes sign, equals the normal density for index 2 and the Cauchy density for '
     'index 1 without skewness, and its logarithmic form is the logarithm. Samples are the Chambers-Mallows-Stuck transform of one '
     'uniform and one exponential draw, and parameters outside the domain are refused.',
     ['inputs', 'configurations'], 'every index, skewness, scale, location and argument',
     'The tests check a handful of stored values.', ['copulae/stats/stable/stable.py', 'copulae/stats/stable/pdf.py'],
     ('parameterization', 'copulae/stats/stable/stable.py'))
prop('C26', 'Gaussian mixture fitting runs the method asked for and reports its result',
     'Fitting a Gaussian mixture copula ranks the data by the tie method asked for, starts from the parameters given (or from the '
     'clusters of the data when none are given), runs the method asked for with the caller\'s options and nothing else, and '
     'adopts and reports the best parameters that method returns. Gradient descent minimises the negative copula likelihood over '
     'the vector form of the parameters; expectation maximisation alternates the two steps on the quantiles under the current '
     'parameters until its criterion settles or the iterations run out, and fails when a component loses all observations. '
     'Unknown methods and criteria and starts of another size are refused.',
     ['inputs', 'configurations', 'histories'], 'every start, every candidate the optimiser may try and return, every sequence of '
     'likelihoods, every small data set and tie pattern',
     'The tests fit one data set and look at the parameters or at the likelihood reached.', GMC,
     ('dispatch', 'copulae/mixtures/gmc/gmc.py: fit'), ('descent', 'copulae/mixtures/gmc/estimators/sgd.py'),
     ('iterations', 'copulae/mixtures/gmc/estimators/em.py: expectation_maximization'))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
