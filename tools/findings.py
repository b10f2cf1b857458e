"""Writes known_findings.json: unrepaired defects (findings) and repaired ones (fixed)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property='C11', case='C11/radial_rounding', label='zero for a symmetric sample',
         what='rad_sym_test of the symmetric sample (-.75,-.25),(.75,.25),(-.25,.25),(.25,-.25) is 0.3125 instead of 0: the '
              'ranks are fifths and 1 - u is compared without a tolerance (an existing test pins a value the rounding affects)'),
]
FIXED = [
    ('C01', '71d68a4', 'Frank ipsi returned theta * u instead of the inverse generator for u <= 0.01'),
    ('C17', '82fcb98', 'Frank psi overwrote its argument and read an uninitialised array for nan'),
    ('C03', 'db4e405', 'Frank pdf was nan for theta <= 0'),
    ('C04', '576e4b0', 'Frank dtau and drho were not the derivatives of tau and rho'),
    ('C04', '59f96c7', 'Gumbel lambda_ was a method with the wrong coefficient'),
    ('C04', 'acd4f26', 'Gumbel dAdu used xor for a power'),
    ('C17', '7831923', 'Gumbel itau overwrote its argument'),
    ('C01', 'a517ccd', 'Clayton dipsi was nan for negative theta'),
    ('C03', '725269a', 'Clayton pdf of rows outside the unit cube was not nan for positive theta'),
    ('C01', 'ecf508a', 'Clayton generator at theta = 0 was a division by zero'),
    ('C01', '4f7fcca', 'Frank inverse generator at theta = 0 was nan'),
    ('C03', '9d8b58d', 'Clayton pdf at theta = 0 returned the logarithm'),
    ('C04', '6ea0f29', 'Frank itau(0) failed to converge'),
    ('C04', '8bf5149', 'Gaussian lambda_ was a method, unlike every other copula'),
    ('C04', '01b8dbf', 'Gumbel A and dAdu failed on a scalar'),
    ('C04', 'b584826', 'Gumbel dtau refused whole numbers'),
    ('C04', '0ffafbc', 'Student tail dependence missed the factor 1 / (1 + rho)'),
    ('C05', '88e1f0e', 'Clayton constructor accepted parameters below -1'),
    ('C05', 'd15e628', 'Student copula accepted non-positive degrees of freedom'),
    ('C05', '925f0c6', 'Gaussian copula accepted parameters of the wrong length'),
    ('C17', '03fa17f', 'inversion fit overwrote parameter arrays read earlier'),
    ('C17', 'cc36888', 'assigning elements of an elliptical copula overwrote parameter arrays read earlier'),
    ('C06', '7f645ec', 'assigning a missing correlation left a broken copula'),
    ('C07', '9d558f7', 'Gaussian cdf was nan on the lower faces'),
    ('C08', '06233cb', 'to_marginals failed at one'),
    ('C12', 'f1889ec', 'gof_copula ignored fit_ties: the fit ranked the pseudo-observations again'),
    ('C12', '7d4643e', 'gof_copula with ties sorted the columns of every replication independently'),
    ('C13', '651c7dd', 'GMCParam.to_vector failed for one cluster and changed the weights of the parameter'),
    ('C14', 'c0b5376', 'Gaussian mixture pdf and cdf with log=True returned the weighted sum of logarithms'),
    ('C14', 'a6b3683', 'EM summary reported the last log-likelihood with the best parameters'),
    ('C14', '4c81212', 'Gaussian mixture quantile function failed at 0 and 1'),
    ('C06', '885cd1e', 'assigning to part of a row or column changed all of it'),
    ('C15', '12d902c', 'MarginalCopula pdf and cdf truncated the marginal probabilities of whole-number data'),
    ('C15', '381e43a', 'MarginalCopula.random failed when the inner copula has column names'),
    ('C15', 'be5c231', 'MarginalCopula wrote default parameters into the description given'),
    ('C16', '83e2dbc', 'cast_input ignored keyword arguments: psi(s=[...]) failed on lists'),
    ('C16', 'e6e5182', 'pdf and cdf failed when the points were given by keyword'),
    ('C16', '500e821', 'Frank pdf failed on data frames for negative theta'),
    ('C16', '4ec1c8f', 'Gumbel pdf failed on data frames'),
    ('C16', 'b0a1e5c', 'empirical beta pdf failed on data frames'),
    ('C16', 'ae941a1', 'Frank dtau and drho of a matrix of one column mixed up its elements'),
    ('C19', '5c2a678', 'fit printed a data frame summary although verbose was 0'),
    ('C21', '2ddaea8', 'Clausen function was wrong from 2 pi on'),
    ('C17', 'c0d7ff1', 'clausen, debye and dilog functions overwrote their array arguments'),
    ('C17', '9d08357', 'Gaussian mixture parameters followed later changes of the caller\'s arrays'),
    ('C17', '5cbd821', 'tail density of the stable distribution overwrote its argument'),
    ('C18', '63436fd', 'Frank samples in more than two dimensions were nan or followed the wrong frailty distribution'),
    ('C18', 'b771009', 'Frank samples in more than two dimensions were all ones for parameters above 37'),
    ('C18', 'bf2a99e', 'Clayton random failed for parameter -1'),
    ('C18', '7cd72d3', 'elliptical random of one observation lost an axis and failed with column names'),
    ('C18', '5a48ac6', 'seeded multivariate t samples used the same stream for normal and chi-square draws'),
    ('C19', '22286ef', 'the fit summary reported the log-likelihood times the optimiser scale'),
    ('C19', '1dc81cc', 'inversion fits ranked the data again for the log-likelihood'),
    ('C19', '52eb67b', 'inversion fits of bivariate elliptical copulas failed'),
    ('C19', '04eab8f', 'fitting wrote the default method into the caller\'s optimiser options'),
    ('C19', 'd07508c', 'fitting with trust-constr failed: its options were passed as arguments'),
    ('C19', 'de93988', 'the starting point was checked on data ranked again'),
    ('C19', 'd7cb1b4', 'fitting a Student copula with fixed degrees of freedom failed with options and did not hold them'),
    ('C19', 'b1c35d3', 'inversion fit summaries could not be shown as html'),
    ('C20', '74efac8', 'polynomials failed on matrices and lost the imaginary part of complex points'),
    ('C20', '2295711', 'polylogarithm failed on lists and ignored log for order 2'),
    ('C20', 'e1a2c9c', 'polylogarithms of orders below -18 overflowed'),
    ('C20', '8859527', 'the Eulerian number of the empty permutation was 0'),
    ('C20', '3e08eff', 'Eulerian numbers from n = 18 on were rounded wrongly'),
    ('C20', '13ae97f', 'log1mexp failed on lists'),
    ('C20', '48143d7', 'log_sum of logarithms of zeros was nan'),
    ('C20', 'e41a1c7', 'sign_ff failed on scalars and for alpha 1 with d below j'),
    ('C20', '76a31d1', 'the sign of the binomial coefficient of 0 over 0 was 0'),
    ('C23', '90044ca', 'multivariate t density of a single number failed'),
    ('C23', 'fb51baf', 'multivariate t samples failed for a covariance given as a number'),
    ('C23', 'e5a9991', 'several multivariate t samples in one dimension failed'),
    ('C22', '461c0e7', 'singular matrices were reported positive definite'),
    ('C24', 'f2a059c', 'Sibuya sums take the signs of each element, work with one summand, and return logarithms for alpha 1'),
    ('C24', '070d587', 'the pois method of the Gumbel polynomial works in dimension 1'),
    ('C25', 'aa34691', 'the threshold next to the pole of the stable integrand was negative'),
    ('C25', '8b278ae', 'totally skewed stable densities were zero: the width of the interval is the difference of its ends'),
    ('C25', '8755c30', 'the stable integrand at its peak is its value there, not a function of the location'),
    ('C25', '6f9582b', 'stable densities with index 1 and negative skewness were not a number'),
    ('C25', 'e86534f', 'stable tail densities of matrices'),
    ('C25', '21bc2ee', 'vanishing logarithmic stable densities take the tail approximation'),
    ('C25', '49c2563', 'the stable mode was that of skewness 1 for every skewness'),
    ('C25', '9165fdc', 'skewed stable variates with index 1'),
    ('C21', 'c419dff', 'complex dilogarithm used angles outside of a turn as they were'),
    ('C20', 'b1435f9', 'log1pexp was infinite above 709'),
    ('C03', '16b938e', 'Frank densities of strong dependence lost all their digits'),
]
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=FINDINGS,
                   fixed=[f'fixed: property={p} {c} {w}' for p, c, w in FIXED]), f, indent=1)
    f.write('\n')
