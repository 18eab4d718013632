T = {
'C01': "Oracle: the abstract effect of the recorded operations (x flips, measure copies) on a bit vector. Qubit indices are symbolic and distinct, groupings are enumerated. Tests sample a few lists; here any indices and orders at each size.",
'C02': "Oracle: the definition of the conditional frequency, with symbolic counts of every prepared/measured pair, several results, any label order; equality is decided as an identity of rational functions. Column sums, subset marginals and fidelities are clauses over the same symbols.",
'C03': "Oracle: for symbolic matrices A and data x, apply(A x) = x (pseudo inverse); least squares goes through scipy.optimize and is evaluated at run time only (exactness on consistent data, positivity, shots). `scipy.linalg.pinv` has the assumed contract of an inverse.",
'C04': "Oracle: estimator formulas over symbolic counts and observables; selection and order of bits enumerated with numpy-free reference code.",
'C05': "Oracle: noise model p' = (A_{n-1} ⊗ … ⊗ A_0) p with symbolic single-qubit rates or symbolic correlated matrix; mitigated value must be the noiseless one as a rational identity. Fitting from results is evaluated at run time.",
'C06': "Oracle: generator = Σ rate·transition with symbolic rates on all subsets; exponentials are uninterpreted with `expm(-G) expm(G) = 1` assumed. The sampled estimate is checked statistically (bounded), the sampling primitives (`_choice`, compiled Markov walk) by contract.",
'C07': "Oracle: definition by sums over keys. U contracts cover dictionaries and lists of any size.",
'C08': "Oracle: textbook matrices of labels; circuits are recorded with an *opaque* circuit under test, so the claim holds for any circuit. Basis functions: all labels and outcomes (finite).",
'C09': "Oracle: Born rule with a symbolic density/Choi matrix; the system handed to `lstsq` must be solved by that matrix and have full rank (then lstsq's assumed contract gives the property). PSD projection: symbolic eigenvalues.",
'C10': "Oracle: `B X = G B` for symbolic gate matrices and B=(F_j ρ); circuits with opaque gates. The maximum-likelihood part is evaluated at run time.",
'C11': "Oracle: `RBgroup` is replaced by the *free group* on its draws: a product that is trivial in the free group is trivial in every group, so one run proves the identity for all groups and draws at that pattern/length. The real groups are evaluated at run time.",
'C12': "Oracle: action on basis states with phase polynomial modulo 8, symbolic coefficients, all linear parts at the sizes; one induction step per generating gate.",
'C13': "Oracle: definitions over symbolic counts; curve_fit returns arbitrary parameters/covariance and the calls are matched by their data, not by order. Any number of results: U.",
'C14': "Oracle: documented formulas (the relaxation channel is computed independently in the contract). Almost everything is loop-free: F.",
'C15': "Oracle: definitions over symbolic probabilities and counts; erf only as an increasing function. Any number of results and trials: U.",
'C16': "Oracle: classical bit-level semantics of x/cx/measure/reset with symbolic flips inserted everywhere.",
'C17': "Matching (networkx) is trusted, so correction within the distance is decided by exhaustive enumeration (B); rates and tables are proved (S and U) given the decoder as an arbitrary function.",
'C18': "Oracle: conjugation of Paulis through the layers with opaque single-qubit gates; every random choice is a symbolic choice in the proof.",
'C19': "Oracle: protocol definition; U: any number of traps, any history so far.",
'C20': "Oracle: recorded operations with symbolic delays, angles and indices.",
'C21': "Oracle: definitions over symbolic counts; models over symbolic parameters; fits matched by data. Any number of results: U.",
'C22': "Oracle: classifier is an arbitrary function of the row; pairing and counting are exact. Symbolic IQ values.",
'C23': "Oracle: stabiliser/phase effect of recorded operations with symbolic angles; all graphs of n nodes.",
'C24': "Oracle: reference filter over symbolic times; files and rotation are exercised at run time in a scratch directory created and removed by the check.",
}
