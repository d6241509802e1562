"""Writes properties.jsonl (kept as code only to keep the JSON lines readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Save, restart and load restore the whole model",
  "After `save(path)`, a model constructed with the same arguments (never used, already instantiated, or trained on something else; in the same process or after a restart) that calls `load(path)` holds every hyperparameter, inducing location, approximate posterior and posterior sample of the saved model to floating-point rounding. Its ELBO and all its predictions on any data are therefore those of the saved model. Saving changes nothing in the saved model, and a path always holds the last successful save to it.",
  ["histories", "crash_points", "configurations"],
  "every model class and approximation scheme, every sequence of fit / elbo / condition / save / load / restart over several models and files, and every receiving model state",
  "No test calls save or load at all; which variables exist, and with which constraints, depends on the history of both the saving and the receiving model.",
  ["gpcm/model.py", "gpcm/approx.py"],
  [("save dumps all variables by name", "gpcm/model.py AbstractGPCM.save"), ("load assigns or creates variables by name", "gpcm/model.py AbstractGPCM.load")],
  ["model.vs", "model.elbo", "model.condition(...).predict*"])
p("C02", "An interrupted or failing save never loses the saved model",
  "Whatever happens during `save(path)` - process crash at any point, exception or interrupt, I/O error, short write or full disk, power loss - a later `load(path)` yields exactly the model of the last completed save to that path or exactly the model being saved (after a power loss possibly that of an earlier completed save), never anything else and never an unreadable file. If `save` returned normally it is the latter, also after a process crash. After a failed save, the next save succeeds and is what is loaded.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of saves of different model states to the same path, with every fault kind at every I/O operation and source line of save",
  "No test saves; a fault at a particular I/O operation cannot be sampled by running the code on a healthy disk.",
  ["gpcm/model.py"], [("write to a temporary file, fsync, atomic replace", "gpcm/model.py AbstractGPCM.save")],
  ["file contents as seen by load after the fault"], None,
  [("file at path", "last completed save", "disk")])
p("C03", "A failed load changes nothing and can be retried",
  "If `load` cannot read a complete model from its file (missing, empty, truncated, not a saved model, unreadable, I/O error while reading), it raises and the receiving model's variables and predictions are exactly what they were. Reads that return fewer bytes than asked for do not matter. After any failed or interrupted load, loading an intact file succeeds and fully restores it.",
  ["fault_sequences", "crash_points", "histories"],
  "every truncation point, read fault, interrupt point and state of the receiving model (fresh, instantiated, trained), and every retry sequence",
  "No test loads a file; the failures are of the disk and of the process, not of the arguments.",
  ["gpcm/model.py"], [("the whole file is read before the first variable is assigned", "gpcm/model.py AbstractGPCM.load")],
  ["exception raised", "model.vs before/after", "model.condition(...).predict"])
p("C04", "Elliptical slice sampling leaves its target invariant",
  "For every likelihood and zero-mean Gaussian prior, one step of the elliptical slice sampler maps the exact posterior to itself, and from any starting state of positive likelihood the chain converges to that posterior. Every proposal lies on the ellipse through the current state and a fresh prior draw, inside a bracket that always contains the current state and shrinks towards it after each rejection.",
  ["histories", "inputs"],
  "every random-number history, including extreme draws, every likelihood (Gaussian, truncated, multi-modal), dimension, prior covariance and starting point",
  "The one test compares the mean and covariance of one Gaussian chain at a tolerance of 0.05, which settles neither other targets, nor invariance of a single step, nor unusual random draws.",
  ["gpcm/sample.py"], [("slice height, ellipse and shrinking bracket", "gpcm/sample.py ESS._sample, ESS._draw")],
  ["arguments of the log_lik and sample_prior callbacks", "samples returned"])
p("C05", "Slice sampler survives failing callbacks, interrupts and clocks",
  "If the likelihood or prior callback raises, or the sampler is interrupted anywhere, the sampler stays at the last accepted state and its stored log-likelihood is that state's, so sampling or moving can simply be continued. Proposals with a likelihood of zero or NaN are never accepted; samples already returned never change. Progress reporting and the clock, even one that jumps or stands still, do not affect the samples; once the callbacks behave, each sample finishes within a bounded number of evaluations.",
  ["fault_sequences", "crash_points", "histories"],
  "every placement of callback failures, NaN or zero likelihoods, interrupts and clock jumps in a sequence of sample and move calls, with and without tracing",
  "Tests use one well-behaved likelihood, no tracing, and a normal clock.",
  ["gpcm/sample.py"], [("state is assigned only together with its log-likelihood", "gpcm/sample.py ESS.move, ESS._sample"), ("retry loop after too many attempts", "gpcm/sample.py ESS._sample")],
  ["sampler.x", "sampler.log_lik_x", "samples returned", "callback history"])
p("C06", "Lazily computed moments are right under any interleaving",
  "A normal distribution given by its natural parameters reports the mean, variance, second moment, log-density, KL divergence and conversion that those parameters determine, in whatever order and from however many threads they are asked for, and also after any such computation was interrupted. No reader ever sees an intermediate value.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of readers in several threads at the granularity of single bytecode instructions, every interrupt point, every order of accesses, every valid pair of natural parameters",
  "The tests read each moment once from one thread.",
  ["gpcm/normal.py"], [("moments are cached on first use", "gpcm/normal.py NaturalNormal.mean, var, m2")],
  ["NaturalNormal.mean/var/m2/logpdf/kl/to_normal"], None,
  [("cached moments", "value or not yet computed", "gpcm/normal.py")])
p("C07", "Explicit random states and the global random state are kept apart",
  "A call that is given a random state depends on no other randomness, gives the same answer whenever it is repeated with that state, returns an advanced state, and leaves the global random states alone. A call without one draws from the global random state, advances it so that consecutive calls are independent, and gives what the explicit call gives for that state. Training an already initialised model neither reads nor changes the global random state. (The global random state is that of the numerical framework the models run in, JAX; NumPy's own generator only chooses initial values of new variables, examples to show, and moves of the slice sampler.)",
  ["histories", "schedules"],
  "every interleaving of explicit-state and global-state calls (sampling distributions, ELBOs, kernel, filter and prior samples, training) under every seed",
  "Tests never look at the random state before and after a call, nor at two calls in a row.",
  ["gpcm/normal.py", "gpcm/approx.py", "gpcm/model.py"],
  [("explicit random state threaded through and written back", "gpcm/normal.py sample; gpcm/approx.py elbo; gpcm/model.py predict_filter")],
  ["values returned", "returned random state", "NumPy and JAX global random states"])
p("C08", "Mean-field training never lowers the ELBO",
  "For every mean-field scheme, every call to `fit` - with any number of iterations, from any earlier state, after any interruption, and also when it trains a conditioned model on further data with the previous posterior as prior - leaves the ELBO of the data it trains on at least as high as it was. Coordinate ascent, alone or as the last part of a scheme, ends with each approximate posterior optimal given the other (the last updated one exactly, both once it has converged); a collapsed scheme ends with the collapsed posterior optimal given the other. A combined coordinate-ascent and gradient scheme ends at least as high as coordinate ascent alone from the same start.",
  ["histories", "crash_points", "configurations"],
  "every scheme, model class, hyperparameter setting, data set, sequence of fits with any iteration counts, interrupt point, and streamed second batch",
  "No test fits a model.",
  ["gpcm/approx.py"], [("closed-form coordinate updates", "gpcm/approx.py q_u_optimal_mean_field, q_z_optimal_mean_field"), ("fit for MeanField", "gpcm/approx.py fit")],
  ["model.elbo before/after", "stored approximate posteriors"])
p("C09", "Structured training stores a genuine Gibbs chain",
  "After training a structured approximation the stored samples are a Gibbs chain for the posterior over the two sets of inducing variables given the data at the final hyperparameters: each stored sample of one is an exact draw from its conditional given the other, with independent fresh noise at every step. There are a thousand of them and none is repeated. Learning the hyperparameters from a poor start raises the ELBO.",
  ["histories", "inputs"],
  "every random-number history, data set, model class, iteration count, hyperparameter-optimisation setting, and history of earlier fits, saves, loads and interruptions",
  "No test fits a model; a distributional claim over all random histories is outside example-based tests.",
  ["gpcm/approx.py"], [("alternating exact conditional draws", "gpcm/approx.py fit(Structured), gibbs_sample"), ("conditionals", "gpcm/approx.py q_u_optimal, q_z_optimal")],
  ["stored posterior samples", "model.elbo"])
p("C10", "The ELBO is the bound it claims to be, in every state",
  "At any point of any history, the mean-field ELBO equals the expected log-likelihood minus the two KL divergences to the current priors, collapsing a factor never lowers it, and evaluating it changes no variable. The structured ELBO is an unbiased estimate of its definition for every random state and sample count, is at least the mean-field optimum, and leaves the hyperparameters alone.",
  ["histories", "inputs", "configurations"],
  "every model, scheme, data set, random state, sample count and point in a history of fits, conditioning on batches, saves and loads",
  "No test evaluates an ELBO.",
  ["gpcm/approx.py", "gpcm/normal.py"], [("elbo", "gpcm/approx.py MeanField.elbo, Structured.elbo, log_Z_u")],
  ["model.elbo(...)", "model.vs"])
p("C11", "An interrupted fit leaves a usable model",
  "If `fit` is interrupted at any point, every variable of the model is still finite and valid, the approximate posteriors and samples of earlier fits are intact until those of the new fit are stored, no hyperparameter has moved except by completed training, and a new `fit` succeeds. Unless the interrupted fit had begun to store its results, running it again gives the same result, up to rounding, as if the interruption had never happened.",
  ["crash_points", "histories", "configurations"],
  "every interrupt point (function entries, calls, loop iterations, output) of every scheme's fit, repeated interruptions, and interleaved saves and loads",
  "No test fits a model, let alone interrupts one.",
  ["gpcm/approx.py", "gpcm/model.py"], [("results are stored at the end of the training stage", "gpcm/approx.py fit, _fit_mean_field_ca"), ("fit starts from its own fixed random state", "gpcm/approx.py fit")],
  ["model.vs after the interrupt", "result of the rerun"])
p("C12", "Training respects hyperparameter constraints and fix flags",
  "In every history of training, noise, window and length-scale parameters stay positive and finite, inducing locations stay in their bounds, and the rough model's inter-domain decay stays below its window decay. Parameters fixed at construction, and all hyperparameters under `optimise_hypers=False` or pure coordinate ascent, keep exactly their value. Every hyperparameter that is not fixed takes part in learning.",
  ["histories", "configurations", "fault_sequences"],
  "every model class, scheme, combination of fix flags, learning rate, data set and sequence of (interrupted) fits",
  "No test fits a model or sets a fix flag.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/approx.py"], [("constrained parametrisation", "gpcm/gpcm.py and gpcm/rgpcm.py __prior__"), ("names of variables to train", "gpcm/approx.py ignore_qs, fit")],
  ["model.vs", "attributes of the instantiated model"])
p("C13", "Independent models do not interfere",
  "Whatever one model does - train, predict, save, load, fail, get interrupted - and however its operations are interleaved with those of other models in the same process, from one thread or several, the results and variables of every other model are what they would be if that model ran alone.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of two or three models' operation sequences at operation and source-line granularity, including failing operations",
  "Every test uses one model at a time in one thread.",
  ["gpcm/model.py", "gpcm/approx.py", "gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/normal.py"], [("per-model variable container", "gpcm/model.py AbstractGPCM.__init__"), ("no module-level mutable state", "gpcm/*.py")],
  ["results of every operation compared with a solo run"])
p("C14", "Conditioning is pure and posteriors can be shared by readers",
  "`condition` of a model (not yet instantiated, as constructed or loaded or returned by `condition`) returns a new model and changes neither the original nor any posterior made before, so posteriors for different data coexist. Reading a posterior (predictions of function, kernel, spectrum, features, filter) changes no variable, so readers may come in any order, repeatedly and from several threads, and all get the sequential answer. Training a posterior on further data leaves the earlier approximate posterior, which is its prior, untouched.",
  ["schedules", "histories"],
  "every interleaving at source-line granularity of readers of shared posteriors, every order of reads and conditionings, several data sets",
  "No test conditions a model.",
  ["gpcm/approx.py", "gpcm/model.py"], [("fresh approximation per instantiation, counter of posteriors", "gpcm/approx.py Approximation.condition")],
  ["results of reads", "model.vs", "original model's elbo and predictions"])
p("C15", "Predictions are the moments of the stored posterior",
  "After any history, the predicted mean and variance of the function, the kernel, spectrum and filter summaries (for the models with a smooth filter) and the feature marginals are the moments, means and quantiles that the current stored approximate posterior (its natural parameters for mean-field, its samples for structured) implies for the model, with the observation noise included in the function's variance. Sampled predictions have these as expectation for every random history.",
  ["histories", "inputs", "configurations"],
  "every model, scheme, data, prediction locations, sample count, random seed, and history of fits, conditioning, saves, loads and restarts",
  "No test makes a prediction from a fitted model.",
  ["gpcm/approx.py", "gpcm/model.py", "gpcm/util.py", "gpcm/gpcm.py"], [("predict, sample_kernel, predict_z", "gpcm/approx.py"), ("predict_kernel, predict_psd, predict_filter", "gpcm/model.py")],
  ["posterior.predict*", "posterior.sample_kernel"])
p("C16", "Prior samples follow the model",
  "Over the random seed, `sample` returns a positive-semi-definite kernel matrix whose expectation is the model's prior kernel (scaled to unit power at the first input when normalised), and a function that given this matrix is exactly zero-mean Gaussian with that covariance plus independent observation noise. Consecutive samples are independent. Training or loading changes the prior only through the hyperparameters.",
  ["histories", "inputs", "configurations"],
  "every seed and random-number history, model class, hyperparameter setting, input set and normalisation flag",
  "The only related test checks the mean of the kernel at one point at a tolerance of 0.05; the sampled function is never looked at.",
  ["gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"], [("sample, kernel_approx", "gpcm/model.py")],
  ["model.sample(t, normalise)"])
p("C17", "Same seeds, same results, whatever the environment",
  "With the global random seeds set, the results of any sequence of operations are bitwise determined by the seeds and the arguments: they do not depend on the clock, the hash seed, the working directory, where output goes, which other models were used before, or which process runs them.",
  ["histories", "configurations", "schedules"],
  "every operation sequence, every seed, under perturbed clock, hash seed, output stream, process, and prior activity",
  "Tests run once in one environment and compare nothing across runs.",
  ["gpcm/model.py", "gpcm/approx.py", "gpcm/sample.py", "gpcm/normal.py", "gpcm/exppoly.py"], [("seeded random states", "gpcm/approx.py fit"), ("ordered construction of kernels", "gpcm/exppoly.py")],
  ["all values returned and stored"])
p("C18", "Every documented operation works for every scheme in any legal order",
  "For every model class, documented approximation scheme and documented option, `sample`, `fit`, `elbo`, `condition`, all predictions, `save` and `load` succeed in every order in which they are meaningful, and return finite results of the documented shape with positive variances and ordered quantiles, also after calls that failed or were interrupted. (Samples of a spectrum may vanish, which is minus infinity in decibels.) Undocumented schemes are rejected.",
  ["histories", "configurations"],
  "every model class x scheme x option and every sequence of public operations, including after failures and restarts",
  "No test exercises fit, elbo, condition or predictions; several documented paths failed outright until repaired.",
  ["gpcm/model.py", "gpcm/approx.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"], [("scheme dispatch", "gpcm/model.py __prior__"), ("fit dispatch", "gpcm/approx.py fit")],
  ["exceptions raised, shapes and finiteness of results"])
p("C19", "Closed-form integrals equal the integrals they stand for",
  "All kernel matrices and integrals that the models compute in closed form equal the convolution integrals of their definition for every valid hyperparameter, inducing location and input.",
  ["inputs"], "all hyperparameters, inducing locations and inputs", "Tests compare a few of them with quadrature at a handful of points.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/exppoly.py"], [("closed-form integration", "gpcm/exppoly.py, gpcm/rgpcm.py")], ["compute_* methods"])
p("C20", "Exponentiated-polynomial algebra is sound",
  "Sums, products, substitution, evaluation and integration of (exponentiated) polynomials commute with evaluation, for every polynomial and every value of its variables.",
  ["inputs"], "all polynomials, factors and values", "Tests check a few dozen fixed expressions.",
  ["gpcm/exppoly.py"], [("Poly, ExpPoly", "gpcm/exppoly.py")], ["eval, integrate"])
p("C21", "Utilities satisfy their defining equations",
  "The PSD projection, power-spectrum estimate, minimum-phase transform, permutation inverse, autocorrelation, Hessian and Laplace approximation equal their mathematical definition for every input.",
  ["inputs"], "all inputs", "Most utilities have no test.", ["gpcm/util.py"], [("functions", "gpcm/util.py")], ["return values"])
p("C22", "Constructor defaults place inducing points as documented",
  "Whatever combination of arguments is given, a constructed model covers the filter extent and the data range with the documented number and placement of inducing points and unit prior power.",
  ["inputs"], "all constructor arguments", "Tests construct three models.", ["gpcm/gpcm.py", "gpcm/rgpcm.py"], [("__init__", "gpcm/gpcm.py, gpcm/rgpcm.py")], ["t_u, t_z, n_u, n_z, alpha_t"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
