#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "coreax/solvers/coresubset.py"
K = "coreax/kernels/base.py"
KS = "coreax/kernels/scalar_valued.py"
M = "coreax/metrics.py"
W = "coreax/weights.py"
R = "coreax/solvers/recombination.py"
AP = "coreax/approximation.py"
LS = "coreax/least_squares.py"
MR = "coreax/solvers/composite.py"
SM = "coreax/score_matching.py"


def P(pid, title, statement, over, quant, why, files, mech, note=None, na=None):
    return {"id": pid, "title": title, "statement": statement, "over": over, "quant": quant, "why": why,
            "files": files, "mech": mech, "note": note, "na": na}


PROPS = [
    P("C01", "Kernel herding is greedy, valid and unaffected by blocking",
      "Each point that deterministic kernel herding selects maximises, over the admissible points, the weighted mean "
      "similarity to the dataset minus the mean similarity to the points already selected, so the result does not "
      "depend on block size or unrolling; refinement and repeated refinement follow the same rule. In every mode, "
      "including probabilistic selection, the coreset has the requested size, its indices lie in the dataset, are "
      "distinct when uniqueness is asked for, and never denote a zero-weighted point. The returned state is the "
      "dataset's weighted mean similarity and reusing it changes nothing.",
      ["inputs", "configurations", "histories"],
      "every kernel and dataset (every Gram matrix), weights, block size, unrolling, initial coreset and random draw",
      "Tests compare a few fixed datasets and keys with stored results; the greedy rule must hold for every Gram "
      "matrix, tie, weight pattern and draw.",
      [S, K], [("greedy selection", f"{S}: KernelHerding, _greedy_kernel_selection"),
               ("Gramian row mean", f"{K}: gramian_row_mean")]),
    P("C02", "Random sampling yields valid samples with the promised law",
      "A random coreset has the requested size, its indices lie in the dataset and are distinct when sampling without "
      "replacement, and a request larger than the dataset is refused. Unweighted samples are uniform; weighted samples "
      "follow the dataset weights and never contain a zero-weighted point.",
      ["inputs", "configurations"], "every dataset size, weight vector, mode and outcome of the random draws",
      "Tests run a handful of keys; a distribution cannot be settled by sampled runs.",
      [S], [("sampling", f"{S}: RandomSample.reduce")]),
    P("C03", "Stein thinning minimises its regularised objective at every step",
      "Each point that Stein thinning selects minimises, over the admissible points, the Stein kernel's diagonal plus "
      "twice its summed similarity to the points already selected, with the Laplacian correction and the "
      "density regularisation when they are switched on; block size and unrolling never change the result and "
      "refinement follows the same rule. The coreset has the requested size, its indices lie in the dataset, are "
      "distinct when uniqueness is asked for and never denote a zero-weighted point. A kernel given without a score "
      "is turned into the Stein kernel for the score of the weighted dataset.",
      ["inputs", "configurations", "histories"],
      "every Stein Gram matrix, score Jacobian, density, weights, setting of the two corrections and initial coreset",
      "Tests check a few datasets against stored indices; the argmin must be right for every Gram matrix and tie.",
      [S, "coreax/score_matching.py"],
      [("greedy selection", f"{S}: SteinThinning, _greedy_kernel_selection"),
       ("kernel conversion", "coreax/score_matching.py: convert_stein_kernel")]),
    P("C04", "Zero-weighted points and padding never influence a result",
      "Adding points of zero weight anywhere in a dataset changes neither what kernel herding and Stein thinning select from "
      "the other points, nor the density score, nor the kernel Stein discrepancy (without its Laplacian correction). "
      "The padding points themselves are never selected.",
      ["inputs", "configurations"], "every Gram matrix, weights, number and position of padding points",
      "Tests pad one dataset at its end; independence from the padding's values must hold for all values and places.",
      [S, "coreax/score_matching.py", "coreax/data.py"],
      [("selection", f"{S}: _greedy_kernel_selection"), ("score", "coreax/score_matching.py: KernelDensityMatching.match")]),
    P("C05", "Randomly pivoted Cholesky follows the residual diagonal",
      "Each pivot is drawn with probability proportional to the diagonal of the Gram matrix minus its low-rank "
      "approximation on the pivots so far, and the returned state is that residual diagonal after the last pivot. "
      "The pivots are distinct members of the dataset for every kernel and draw; when the factorisation is exhausted before "
      "the requested size is reached, the remaining ones are drawn uniformly from the points not yet chosen.",
      ["inputs", "configurations"], "every positive semi-definite Gram matrix, size and outcome of the draws",
      "Tests use a few fixed kernels and keys; the residual recurrence and the fallback must be right for all.",
      [S], [("pivoting", f"{S}: RPCholesky.reduce")]),
    P("C06", "Kernel thinning halves by the published randomised rule",
      "Each halving round splits the points into consecutive pairs and sends one of each pair to either half, with the swap "
      "probability and running threshold of the published kernel halving rule, so the halves partition the data. "
      "The chosen half is the candidate with the smallest discrepancy to the data, and refinement replaces each point "
      "in turn by the one that lowers the discrepancy most. The coreset has the requested size and consists of distinct "
      "members of the dataset for every kernel and outcome of the draws.",
      ["inputs", "configurations"], "every kernel (Gram matrix), dataset size, coreset size and outcome of the draws",
      "Tests use a few fixed arrays with mocked probabilities; the rule is randomised and must be right on every path.",
      [S], [("halving", f"{S}: KernelThinning.kt_half, kt_half_recursive"),
            ("choice and refinement", f"{S}: KernelThinning.kt_choose, kt_refine")]),
    P("C07", "Compress++ returns valid thinned coresets of the requested size",
      "Compress++ compresses quarters of the data recursively and thins the result by kernel halving, so the coreset has "
      "exactly the requested size and consists of distinct members of the original dataset for every outcome of the "
      "random draws. The coreset refers to the whole original dataset with its weights, also when part of the data "
      "had to be dropped to fit the recursion. Oversampling parameters that do not fit the dataset and the requested "
      "size are refused.",
      ["inputs", "configurations"], "every dataset size, coreset size, oversampling parameter and outcome of the draws",
      "Tests run one or two sizes with fixed keys; the recursion's index bookkeeping must be right on every path.",
      [S], [("recursive compression", f"{S}: CompressPlusPlus.reduce")]),
    P("C08", "Greedy kernel points minimise the regression loss at every step",
      "Each pair that greedy kernel points selects minimises, over the candidates considered, the documented loss of the "
      "kernel ridge regression trained on the points selected so far together with the candidate; refinement follows the "
      "same rule and the returned state holds the feature Gram matrix and reusing it changes nothing. The coreset has the "
      "requested size, its indices lie in the dataset and are distinct when uniqueness is asked for. With batching, "
      "every selection is made among the batch drawn for that step.",
      ["inputs", "configurations", "histories"],
      "every pair of feature and response Gram matrices, batch, initial coreset and configuration",
      "Tests check validity on one dataset; the argmin over the loss must be right for all Gram matrices.",
      [S, "coreax/least_squares.py"], [("greedy selection", f"{S}: GreedyKernelPoints"),
                                       ("loss", f"{S}: _greedy_kernel_points_loss")]),
    P("C09", "Weighted kernel means are exact for every block size",
      "Mean and row-mean similarities equal the weighted averages of the pairwise kernel values, along either axis or "
      "both, with the weights normalised. Block size, unrolling, weights given or omitted, and padding never change "
      "the value.",
      ["inputs", "configurations"], "every dataset, weights, axis, block size and unroll setting",
      "Tests compare some block sizes on one dataset; every combination of size and block remainder must agree.",
      [K, "coreax/data.py"], [("blocked mean", f"{K}: compute_mean"), ("row mean", f"{K}: gramian_row_mean")]),
    P("C10", "MMD and JMMD are the documented weighted discrepancies",
      "The maximum mean discrepancy of two weighted datasets is the square root of the weighted mean similarity within "
      "each minus twice that across, never the root of a negative number, and zero for a dataset and itself; the "
      "joint discrepancy is the same with the product of the feature and response kernels. Weights are normalised, "
      "block size and unrolling never change the value, and swapping the datasets does not either.",
      ["inputs", "configurations"], "every kernel (Gram matrix), pair of datasets, weights, block size and unrolling",
      "Tests compare a few analytic examples; the identity must hold for all weights and block remainders.",
      [M, K], [("MMD", f"{M}: MMD.compute"), ("JMMD", f"{M}: JMMD.compute")]),
    P("C11", "The kernel Stein discrepancy is the documented weighted mean",
      "The kernel Stein discrepancy is the square root of the weighted mean of the Stein kernel over the comparison data, "
      "plus the Laplacian correction and minus the entropic regularisation, each exactly when it is switched on. "
      "The Stein kernel is the one of the reference data's score unless a Stein kernel is given, and block size and "
      "unrolling never change the value.",
      ["inputs", "configurations"], "every Stein Gram matrix, score Jacobian, weights, block size and setting",
      "Tests compare a few analytic examples; the formula must hold for every setting and weight vector.",
      [M, "coreax/score_matching.py"], [("KSD", f"{M}: KSD.compute")]),
    P("C12", "AMCMD is the documented average conditional discrepancy",
      "The average maximum conditional mean discrepancy is the root of the average, over the weighting points, of the "
      "squared distance between the regularised conditional mean embeddings of the two supervised datasets, which is "
      "zero for a dataset and itself. The weighting points default to the reference features; invalid settings are "
      "refused.",
      ["inputs", "configurations"], "every pair of feature and response Gram matrices and regularisation parameter",
      "Tests compare against one explicit computation; the identity must hold for every Gram matrix.",
      [M], [("AMCMD", f"{M}: AMCMD.compute")]),
    P("C13", "Every kernel has its documented value, symmetry and range",
      "Each kernel's value at two points is its documented formula for every value of its hyperparameters; it is symmetric, "
      "bounded by its documented range and largest on the diagonal where the documentation implies it. Evaluating a kernel "
      "on arrays of points gives exactly the matrix of its pairwise values.",
      ["inputs", "configurations"], "every pair of points and hyperparameter values",
      "Tests evaluate a few points and hyperparameters per kernel.",
      [KS, K], [("formulas", f"{KS}: compute_elementwise of every kernel"), ("Gram matrices", f"{K}: compute")]),
    P("C14", "Kernel gradients and divergences are true derivatives",
      "The gradients with respect to either argument and the divergence of the mixed second derivative that a kernel reports "
      "are those of its documented formula, for every pair of points and hyperparameter values at which it is "
      "differentiable. Derivatives at coinciding points are finite where the kernel is smooth. On arrays of points the "
      "derivatives are the matrices of the pairwise ones.",
      ["inputs", "configurations"], "every pair of points and hyperparameter values",
      "Tests compare a few points with hand-written formulas, one of which repeats the code's own mistake.",
      [KS, K], [("derivatives", f"{KS}: grad_x_elementwise, grad_y_elementwise, divergence_x_grad_y_elementwise"),
                ("arrays", f"{K}: grad_x, grad_y, divergence_x_grad_y")]),
    P("C15", "Sums, products and powers of kernels obey the calculus",
      "Adding, multiplying and raising kernels to integer powers, also with scalars and nested in any order, gives a kernel "
      "whose values are the sum, product or power of the operands' values. Its gradients and divergence are those that the "
      "sum and product rules give from the operands' derivatives, and arguments that are not kernels or numbers are refused.",
      ["inputs", "programs"], "all operand kernels (any values and derivatives) and expressions over them",
      "Tests combine a few concrete kernels at a few points.",
      [K], [("algebra", f"{K}: AdditiveKernel, ProductKernel, PowerKernel")]),
    P("C16", "The Stein kernel is the documented combination of its parts",
      "The Stein kernel of a base kernel and a score is the divergence, plus each gradient times the other point's "
      "score, plus the kernel times the product of the scores, for every base kernel and score. Converting a kernel keeps a "
      "Stein kernel's own score, and otherwise uses the given score matching on the given data.",
      ["inputs", "configurations"], "every base kernel (values and derivatives), score function and pair of points",
      "Tests evaluate one or two kernels with one score at sampled points.",
      ["coreax/kernels/scalar_valued.py", "coreax/score_matching.py"],
      [("Stein kernel", "coreax/kernels/scalar_valued.py: SteinKernel"),
       ("conversion", "coreax/score_matching.py: convert_stein_kernel")]),
    P("C17", "Recombination is an exact quadrature on few points",
      "Recombination returns points of the dataset with non-negative weights that keep the total mass and every test "
      "function's weighted mean exactly, with at most as many non-zero weights as there are independent test functions "
      "(counting the constant). This holds for every choice of null basis that the linear algebra may return. The mode only "
      "decides how the remaining zero-weighted entries are represented.",
      ["inputs", "configurations"], "every dataset, weights, test functions, null basis and mode",
      "Tests sample random data within tolerances; degenerate data, ties and bases are not sampled.",
      [R], [("elimination", f"{R}: CaratheodoryRecombination.reduce")]),
    P("C18", "Tree recombination gives the same guarantee at any depth",
      "Tree recombination, like recombination of the whole dataset, returns non-negative weights on points of the dataset "
      "that keep the total mass and every test function's weighted mean, on at most as many points as there are test functions "
      "counting the constant. Dataset size, tree reduction factor and padding of the tree never make an index leave the dataset "
      "or a point count twice.",
      ["inputs", "configurations"], "every dataset, weights, reduction factor, null basis and mode",
      "Tests sample random data of a few sizes; the index bookkeeping of the tree must be right for every size and factor.",
      [R], [("tree", f"{R}: TreeRecombination.reduce, _prepare_tree")]),
    P("C19", "Bayesian quadrature weights solve the kernel system",
      "The weights that sequential Bayesian quadrature returns solve the regularised kernel system of the coreset against the "
      "weighted mean similarity of the dataset, in the order of the coreset's points. They hence minimise the (unconstrained) "
      "discrepancy to the weighted dataset, for every block size, unrolling and way the coreset is given.",
      ["inputs", "configurations"], "every Gram matrix with a positive definite coreset block, dataset weights, block size",
      "Tests compare one analytic example; the optimality must hold for every Gram matrix and weights.",
      [W], [("weights", f"{W}: SBQWeightsOptimiser.solve, _prepare_kernel_system")]),
    P("C20", "MMD weights are a probability vector that minimises the MMD",
      "The weights that the constrained optimiser returns are non-negative and sum to one. They minimise the discrepancy "
      "between the weighted dataset and the weighted coreset among all such vectors, up to the accuracy of the quadratic "
      "programming solver, for every block size, unrolling and way the coreset is given.",
      ["inputs", "configurations"], "every Gram matrix with a positive definite coreset block, dataset weights, block size",
      "Tests compare one analytic example; the program handed to the solver must be right for every input.",
      [W], [("weights", f"{W}: MMDWeightsOptimiser.solve, solve_qp, _prepare_kernel_system")]),
    P("C21", "Datasets keep points, responses and weights paired",
      "A dataset holds its points as rows (with every response in its row for supervised data) and one weight per point, one "
      "each when omitted and broadcast when scalar; mismatching lengths are refused. Indexing selects points, responses and "
      "weights together. Normalising divides the weights by their sum, keeping zero weights zero, optionally leaves an "
      "all-zero vector zero, and changes nothing else.",
      ["inputs", "configurations"], "every array of points, responses and weights, index and form of construction",
      "Tests cover a few shapes; pairing must hold for every value and index.",
      ["coreax/data.py"], [("datasets", "coreax/data.py: Data, SupervisedData, as_data, as_supervised_data")]),
    P("C22", "A coreset's points are the indexed data with its own weights",
      "The points of a coresubset are the rows of the original dataset at its indices, in that order, carrying the coreset's "
      "own weights; a pseudo-coreset's points are those it was given. Re-weighting replaces only the weights, by the "
      "optimiser's answer for this dataset and these points, and a metric is computed from the original data to the "
      "coreset. A coreset larger than its dataset is refused.",
      ["inputs", "configurations"], "every dataset, index vector, weights and form of construction",
      "Tests cover a few shapes; which side of each pair is used where can only be seen with distinguishable inputs.",
      ["coreax/coreset.py"], [("coresets", "coreax/coreset.py: AbstractCoreset, Coresubset, PseudoCoreset")]),
    P("C23", "MapReduce covers all data once and never picks padding",
      "MapReduce hands every point of the dataset, with its weight, to exactly one partition in each round until the whole "
      "fits in one partition, so the result is a coreset of the requested size of the original dataset with indices "
      "into it. Padding is never selected, nor is a zero-weighted point as long as every partition holds enough "
      "weighted ones. Leaf sizes that cannot hold the coreset are refused, and every accepted one ends.",
      ["inputs", "configurations"], "every dataset, weights, leaf size, order of the tree and base solver",
      "Tests run one or two sizes with a real tree; remainders, padding and nested rounds are rarely hit.",
      [MR, "coreax/util.py"], [("partitioning", f"{MR}: MapReduce.reduce, _jit_tree")]),
    P("C24", "The kernel density score is the gradient of the log density",
      "The score function that kernel density matching returns is the gradient of the log of the weighted Gaussian kernel "
      "density estimate of the data it was given. Evaluating it on one point or on many gives the same values.",
      ["inputs", "configurations"], "every dataset, weights, length scale and evaluation point",
      "Tests compare a few analytic densities within coarse tolerances.",
      ["coreax/score_matching.py"], [("score", "coreax/score_matching.py: KernelDensityMatching")]),
    P("C25", "Sliced score matching trains on its documented objective",
      "The score that sliced score matching returns is the network (affine layers with softplus in between) trained by gradient steps on the documented sliced objective "
      "(general or with reduced variance), averaged over random directions and the batch, with the configured noise "
      "levels. Data, directions and noise enter each step exactly as documented, and invalid settings are refused.",
      ["inputs", "configurations"], "every data point, direction, noise value, learning rate and initial parameters of a small network",
      "Tests train for a while and compare with analytic scores within coarse tolerances.",
      [SM, "coreax/networks.py"], [("objective", f"{SM}: SlicedScoreMatching._loss, _train_step")]),
    P("C26", "Approximate kernels fit the exact row-means at training points",
      "The row-mean that an approximate kernel reports is the least-squares fit, with kernel columns of its feature points, to the "
      "exact row-means at its training points, so it is exact when all points are used. Features and training points are "
      "random subsets of the requested sizes (the same points for Nystrom; for ANNchor the features start at the first point and "
      "go on with the point least similar to those so far). Every other value and derivative is the base kernel's, and "
      "impossible sizes are refused.",
      ["inputs", "configurations"], "every positive symmetric Gram matrix, number of features and training points, and draw",
      "Tests only ask for a small error on one dataset with default settings.",
      [AP], [("regression", f"{AP}: _random_least_squares"), ("kernels", f"{AP}: gramian_row_mean of each class")]),
    P("C27", "Least-squares solvers invert the regularised array",
      "The minimal-norm solver returns the exact (else minimal-norm least-squares) solution of the array plus the absolute "
      "regularisation parameter times the given identity, which for zero-padded arrays is the padded inverse of the block; "
      "the randomised solver gives the same for positive arrays when it samples at least as many columns as the rank, for every "
      "draw. Exactly the eigenvalues or singular values below the cut-off ratio are treated as zero, and a stack is solved one by "
      "one. Invalid settings and arrays that are not square are refused.",
      ["inputs", "configurations"], "every array, regularisation parameter, targets, cut-off and outcome of the draws",
      "Tests use a few random matrices with tolerances.",
      [LS], [("solvers", f"{LS}: MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver")]),
    P("C28", "Numerical building blocks compute exactly what they promise",
      "Distances and differences of points, and any function mapped over all pairs of rows, are the pairwise values in "
      "row-by-row order. Zero padding appends exactly the requested rows, thresholding clears exactly the negative values "
      "within the threshold, and the median heuristic is the square root of half the median squared pairwise distance. "
      "Batches are indices within the data, distinct within each batch and uniformly drawn, and impossible sizes are refused.",
      ["inputs", "configurations"], "every array, size, threshold and outcome of the draws",
      "Tests check a few arrays; order, ties and boundaries must be right for all.",
      ["coreax/util.py", "coreax/kernels/util.py"], [("utilities", "coreax/util.py"),
                                                    ("median heuristic", "coreax/kernels/util.py: median_heuristic")]),
    P("C29", "Probabilistic herding draws from the softmax of its objective",
      "Each point that probabilistic kernel herding selects is drawn, among the admissible points, with probability proportional "
      "to the exponential of the herding objective divided by the temperature. Repeated refinement applies the i-th "
      "temperature of the schedule in its i-th pass, starting from nothing selected, and every step of every pass draws afresh.",
      ["inputs", "configurations"], "every Gram matrix, weights, temperature schedule and outcome of the draws",
      "Tests only check that a coreset of the right size comes out.",
      [S, "coreax/benchmark_util.py"], [("draws", f"{S}: KernelHerding.refine"), ("passes", f"{S}: KernelHerding.reduce_iterative")]),
]

NOTE = ("The code under /repo is traced to JAX's intermediate representation on every run and executed symbolically "
        "over exact reals; z3 decides every assertion on every path for all values within the sizes listed in the "
        "evidence. Assumes exact real arithmetic in place of float32 and the stated laws of jax.random and LAPACK "
        "primitives; counterexamples count only when they reproduce on the real code.")
TECH = "symbolic execution of the jaxprs traced from the source + z3 (solver-based bounded checking)"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert len(re.findall(r"\.(?= [A-Z]|$)", p["statement"])) <= 3, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run_check.py --selftest",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python run_check.py {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python run_check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH, "level": "model_checking",
            "level_note": NOTE + (" " + p["note"] if p["note"] else ""),
        } for p in PROPS if not p["na"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
        "notes": "See DESIGN.md. KNOWN_FINDINGS.json lists recorded and repaired defects.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
