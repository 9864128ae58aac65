import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
E="simple_einet/einet.py";FL="simple_einet/layers/factorized_leaf.py";LS="simple_einet/layers/linsum.py"
ES="simple_einet/layers/einsum.py";SU="simple_einet/layers/sum.py";MX="simple_einet/layers/mixing.py";PR="simple_einet/layers/product.py"
AL="simple_einet/abstract_layers.py";SA="simple_einet/sampling_utils.py";LF="simple_einet/layers/distributions/abstract_leaf.py"
D="simple_einet/layers/distributions/"
p("C01","Einet is a normalized distribution per class",
 "For every valid configuration (top-down or bottom-up structure, linsum/linsum2/einsum layers, any depth, repetitions, channels, classes and leaf type) and every finite parameter setting reached by initialisation or by training, exp(log-likelihood) of each class, summed or integrated over the whole input domain, equals 1. The log-likelihood never reports more than the total mass available.",
 ["configurations","histories","inputs"],"all model configurations x parameter histories (init, gradient steps, extreme but finite values) x the full enumerated domain",
 "The tests only check output shapes; no test ever sums probabilities over a domain.",
 [E,LS,ES,SU,MX,FL],[("log-softmax projection of sum weights","simple_einet/abstract_layers.py:logits_to_log_weights"),("disjoint leaf scopes","simple_einet/layers/factorized_leaf.py:FactorizedLeaf.__init__"),("repetition mixing","simple_einet/layers/mixing.py:MixingLayer.forward")],
 ["Einet.forward"])
p("C02","Log-likelihood equals the circuit the parameters define",
 "The log-likelihood a model returns for an input equals, up to float32 rounding, the value of the sum-product circuit its configuration, parameters and structure buffers define (leaf densities, factorised groups, weighted sums, decomposable products, repetition mixing), for 2-D, 3-D and 4-D inputs alike. It stays finite and accurate where individual probabilities underflow float32.",
 ["configurations","inputs"],"all configurations x parameter values (including extreme logits) x inputs far in the tails",
 "No test compares a likelihood with an independent computation; shape tests pass for any weighting or wiring of the circuit.",
 [E,FL,LS,ES,SU,MX,PR],[("layer forward passes","simple_einet/layers/*.py"),("feature permutation","simple_einet/einet.py:Einet.forward"),("log-einsum-exp trick","simple_einet/layers/einsum.py:EinsumLayer.forward")],["Einet.forward","Einet.state_dict"])
p("C03","Marginal queries are exact marginals",
 "Marking features as missing (NaN in all their channels) or listing them in the marginalized scopes yields, for every leaf type that supports marginalisation (all but the multivariate normal), the log of the exact sum/integral of the model over those features; both ways agree, the value given for a listed scope is irrelevant, everything missing gives log 1 = 0, and for discrete data the marginal is never below the joint.",
 ["configurations","inputs"],"all configurations x subsets of features x ways of stating the query x evidence values",
 "Marginal queries are not tested at all.",
 [E,LF],[("NaN masking in leaves","simple_einet/layers/distributions/abstract_leaf.py:AbstractLeaf.forward"),("marginalized scopes","simple_einet/layers/distributions/abstract_leaf.py:AbstractLeaf._marginalize_input"),("smoothness/decomposability of the structure","simple_einet/einet.py")],["Einet.forward"])
p("C04","Unconditional samples follow the model distribution",
 "Samples drawn without evidence, differentiably or not, are distributed according to the model's own likelihood: empirical frequencies, means and dependences between features converge to those the likelihood defines, for every structure, layer type, repetition count, channel count and leaf type. Every sample lies in the domain of the leaf distribution and the samples of one call are independent draws.",
 ["configurations","inputs"],"all configurations x parameters x random streams",
 "The sampling tests look at the shape of the result only; any wrong index in the top-down traversal keeps the shape.",
 [E,FL,LS,ES,SU,MX,SA],[("ancestral top-down sampling","simple_einet/abstract_layers.py:AbstractSumLayer.sample"),("mapping of group indices to leaves","simple_einet/layers/factorized_leaf.py:_index_leaf_samples"),("one-hot indexing and SIMPLE","simple_einet/sampling_utils.py")],["Einet.sample"])
p("C05","Conditional samples follow the exact conditional",
 "Sampling with evidence fills the missing features with draws from the model's exact conditional distribution given the observed ones - including the posterior over classes for multi-class models - whether missingness is stated by NaN or by marginalized scopes, for every row of the batch separately.",
 ["configurations","inputs"],"all configurations x evidence patterns x random streams",
 "Tests with evidence check shape only; ignoring the evidence altogether would pass them.",
 [E,SA,AL,LS,ES,SU,MX],[("evidence forward pass with input caches","simple_einet/sampling_utils.py:sampling_context"),("posterior reweighting of sums","simple_einet/layers/*.py:_condition_weights_on_evidence")],["Einet.sample(evidence=...)"])
p("C06","Observed values survive; inputs are never modified",
 "Sampling or MPE with evidence returns a new tensor of the evidence's shape (2-D, 3-D or 4-D) in which every observed entry is exactly the given value and every missing entry is filled with a finite value from the leaf domain. No query (likelihood, posterior, sampling, MPE) changes the tensors, index lists or model parameters passed in.",
 ["configurations","inputs"],"all configurations x input ranks, layouts (contiguous or not), missing patterns (none, some, all, per channel)",
 "Tests never compare the output with the evidence nor the input before and after.",
 [E,LF],[("clone and masked fill","simple_einet/einet.py:Einet.sample"),("torch.where on NaNs","simple_einet/layers/distributions/abstract_leaf.py:AbstractLeaf.forward")],["Einet.forward","Einet.sample","Einet.mpe","Einet.posterior"])
p("C07","Seeded sampling is reproducible and leaves global RNG alone",
 "Two sampling calls with equal arguments and the same seed return bit-identical results regardless of what ran before, different seeds give different draws, and a seeded call leaves the global random number generator exactly as it found it, also when the call raises. A call without a seed is determined by the global generator.",
 ["histories","configurations","fault_sequences"],"all configurations x interleavings of seeded and unseeded calls, including failing ones",
 "No test uses a seed or looks at the generator state.",
 [SA,E,"simple_einet/mixture.py","simple_einet/conv_pc.py"],[("RNG save/seed/restore","simple_einet/sampling_utils.py:sampling_context")],["Einet.sample(seed=...)","Mixture.sample","ConvPc.sample","torch.get_rng_state"])
p("C08","Queries leave no trace in the model",
 "A model is a function of its parameters: after any sequence of likelihood, sampling, conditional sampling and MPE calls - including calls that raise half-way - later results, the gradient mode and the set of stored tensors are the same as for a fresh copy of the model. Evidence of one call never influences another.",
 ["histories","fault_sequences"],"all call sequences x points at which a call fails",
 "Every test uses a fresh model once; cached evidence that survives a call or an exception is invisible to them.",
 [SA,AL,E],[("enable/disable input cache","simple_einet/sampling_utils.py:sampling_context"),("cache clearing","simple_einet/abstract_layers.py:_disable_input_cache")],["Einet.sample","Einet.mpe","Einet.forward"],
 [("_input_cache","per-layer evidence likelihoods during conditional sampling","simple_einet/abstract_layers.py")])
p("C09","Posterior is Bayes' rule with a uniform class prior",
 "For multi-class models the posterior equals log p(x|y) - log sum_y' p(x|y') row by row: it is normalised over the classes, its arg-max is the class of highest likelihood, and it stays finite and normalised for inputs whose likelihoods underflow and for inputs with missing features. Single-class models refuse the query.",
 ["configurations","inputs"],"all multi-class configurations x inputs incl. extreme and partially missing",
 "posterior() has no test.",
 [E],[("log-space Bayes rule","simple_einet/einet.py:posterior")],["Einet.posterior","simple_einet.einet.posterior"])
p("C10","Rows of a batch do not influence each other",
 "The result for an input row - likelihood, posterior, MPE completion - is the same whether the row is evaluated alone, in any batch, or in any order, and is independent of missing values or marginalisation patterns in other rows. Empty-free batches of size one behave like any other.",
 ["configurations","inputs"],"all configurations x batch sizes x row permutations x mixes of complete and incomplete rows",
 "Tests use one batch size per shape check and compare no values.",
 [E,LF,FL],[("batch-first tensors in all layers","simple_einet/layers/*.py"),("row-local NaN masks","simple_einet/layers/distributions/abstract_leaf.py")],["Einet.forward","Einet.mpe","Einet.posterior","Mixture.forward","ConvPc.forward"])
p("C11","MPE returns the greedy max completion, deterministically",
 "MPE is deterministic, takes the most probable branch (given the evidence) at every sum and the mode at every leaf; in particular it returns the exact most probable completion whenever the model is a plain product or the maximal branch is dominant, differentiable and plain MPE agree, and results stay in the leaf domain. Observed values are kept.",
 ["configurations","inputs"],"all configurations x evidence patterns x parameters",
 "MPE tests check shapes only (and fail here for a missing optional dependency).",
 [E,LF,LS,ES,SU,MX,FL],[("argmax in top-down pass","simple_einet/layers/*.py:_sample_from_weights"),("leaf modes","simple_einet/layers/distributions/abstract_leaf.py:dist_mode")],["Einet.mpe","Einet.sample(is_mpe=True)"])
p("C12","Leaf layers compute and sample the documented densities",
 "Each leaf type (Normal, RatNormal, Bernoulli, Binomial, Categorical, MultivariateNormal, MultiDistribution) assigns the log density of the documented distribution under its constrained parameters - sigma and mean bounds respected for RatNormal, positive definite covariance for MultivariateNormal, each scope handled by its own distribution in original feature order - and its samples and modes are those of the same distribution.",
 ["configurations","inputs"],"all leaf types x hyper-parameters (incl. boundary values such as a zero mean bound) x unconstrained parameter values x inputs",
 "Leaf types other than Binomial are not exercised by any stable test and no density is compared with a reference.",
 [D+"normal.py",D+"bernoulli.py",D+"binomial.py",D+"categorical.py",D+"multivariate_normal.py",D+"multidistribution.py",LF],
 [("torch distributions behind constrained parameters",D+"*.py"),("scope inversion",D+"multidistribution.py")],["leaf.forward","leaf.sample","Einet with one leaf"])
p("C13","Gradients are correct, finite and reach every used parameter",
 "The gradient of the log-likelihood with respect to every parameter and input equals its numerical derivative, is finite for ordinary, extreme and partially missing data, and vanishes for inputs that are missing. Differentiable sampling yields exact one-of-K hard choices in the forward pass while passing finite gradients to the sum weights and leaf parameters.",
 ["configurations","inputs"],"all configurations x parameters x data incl. missing values",
 "No test runs backward().",
 [E,SA,LS,ES,SU,MX,D+"normal.py",D+"binomial.py"],[("autograd through log-sum-exp","simple_einet/layers/*.py"),("straight-through estimator","simple_einet/sampling_utils.py:SIMPLE")],["loss.backward()","Einet.sample(is_differentiable=True)"])
p("C14","Saving, loading and copying preserve the model",
 "Loading a model's state dict into a new model of the same configuration, pickling, deep-copying, or moving it between train and eval mode reproduces the likelihoods and seeded samples of the original exactly, including its random structure (scopes and permutations), and later changes to one copy never affect the other.",
 ["configurations","histories"],"all configurations x save/load/copy points within a training history",
 "Tests never save or copy a model; structure kept outside the state dict would go unnoticed.",
 [E,FL,ES],[("registered buffers for scopes and permutations","simple_einet/layers/factorized_leaf.py, simple_einet/einet.py")],["state_dict/load_state_dict","copy.deepcopy","torch.save/pickle"])
p("C15","The leaf cache is transparent",
 "A forward pass with a cache index returns the value that the pass which filled that index returns, an index never seen computes and stores its own input, different indices never mix, resetting the cache forgets all of them, and forward passes without an index neither use nor fill the cache. Cached tensors are not altered by later passes, even after sum weights change.",
 ["histories"],"all histories of cached/uncached forwards, resets and sum-weight updates",
 "The cache has no test.",
 [E],[("_leaf_cache lookup","simple_einet/einet.py:Einet.forward"),("reset","simple_einet/einet.py:Einet.reset_cache")],["Einet.forward(cache_index=...)","Einet.reset_cache"],
 [("_leaf_cache","leaf log-likelihoods per index","simple_einet/einet.py")])
p("C16","Dropout acts in training only and never kills a node",
 "In evaluation mode dropout is inert: likelihoods are deterministic and equal those of the same parameters with dropout 0. In training mode with dropout p every layer type really drops about a fraction p of sum children, the log-likelihood stays finite for every draw with finite gradients, and never exceeds the value obtained without dropout.",
 ["configurations","inputs"],"all layer types and structures x dropout probabilities x masks drawn",
 "Tests use dropout 0.0 only.",
 [LS,ES,SU,MX,AL],[("masks resampled until a child survives","simple_einet/layers/*.py:forward")],["Einet.forward in train/eval mode"])
p("C17","Configurations and type checks accept exactly the valid ones",
 "Constructing a model accepts every configuration inside the documented bounds and rejects every one outside (sizes, depth against features and cardinality, dropout range, unknown layer or structure names, wrong leaf types) with an exception; the bound check treats zero bounds like any other bound, lower bounds inclusive and upper bounds exclusive. An accepted configuration can be evaluated and sampled.",
 ["configurations"],"all configurations, including boundary values, numpy and torch scalars",
 "Tests construct a handful of valid configurations and no invalid one.",
 [E,"simple_einet/type_checks.py","simple_einet/conv_pc.py"],[("assert_valid","simple_einet/einet.py:EinetConfig.assert_valid"),("check_valid","simple_einet/type_checks.py")],["EinetConfig.assert_valid","Einet(config)","check_valid"])
p("C18","Mixture routes every row to its cluster's model and keeps order",
 "A mixture's likelihood of a row is that of the component whose centroid is nearest on the observed features, returned in input order for any batch composition and with marginalised scopes passed on; conditional sampling and MPE route rows the same way and keep observed values. Unconditional sampling draws components according to the mixture weights (or exactly the requested number per cluster), returns the requested number of samples, and a seed makes it reproducible.",
 ["configurations","inputs","histories"],"all component counts x batches x cluster assignments x evidence patterns",
 "The mixture has no test.",
 ["simple_einet/mixture.py"],[("separate by cluster and re-sort","simple_einet/mixture.py:Mixture.forward"),("component draw","simple_einet/mixture.py:Mixture.sample")],["Mixture.forward","Mixture.sample","Mixture.mpe"])
p("C19","ConvPc is a normalized distribution with exact inference",
 "Every convolutional circuit is normalised over its image domain, computes exact marginals for missing pixels, samples (unconditionally and given evidence) from its own distribution, and keeps observed pixels; results have image shape. (Binomial leaves are sampled with the differentiable normal relaxation, so for them only range, evidence and shape are promised.)",
 ["configurations","inputs"],"all ConvPc configurations (structure, order, kernel sizes, channels, leaf types) x images x missing patterns",
 "ConvPc has no test.",
 ["simple_einet/conv_pc.py"],[("SumConv/ProdConv layers","simple_einet/conv_pc.py"),("conditional sampling context","simple_einet/conv_pc.py:sampling_context")],["ConvPc.forward","ConvPc.sample","ConvPc.mpe"])
p("C20","Piecewise-linear leaves are proper densities over their domain",
 "After initialisation from data, a piecewise-linear leaf is non-negative and integrates (or sums, for discrete features) to 1 over its support, has mass where its data cluster lies, samples only values of its domain with matching frequencies, and its MPE is a maximiser of its density. Bin edges and histogram densities agree with the numpy definitions.",
 ["inputs","configurations"],"all data sets x domains (continuous, discrete ranges and bins) x smoothing x channels/leaves/repetitions",
 "The module is not imported by any stable test.",
 [D+"piecewise_linear.py","simple_einet/histogram.py"],[("histogram to piecewise-linear conversion",D+"piecewise_linear.py:initialize"),("inverse-CDF sampling",D+"piecewise_linear.py:sample"),("bin estimators","simple_einet/histogram.py")],["PiecewiseLinear.forward","PiecewiseLinear.sample","histogram._get_bin_edges_torch"])
p("C21","Data pipeline delivers every item, unaltered, reproducibly",
 "The infinite training sampler yields, epoch after epoch, permutations of all indices that depend only on the seed; dataset splits are disjoint, cover the data and are reproducible; synthetic datasets have the advertised shape, classes and seed-determinism; and bit reduction/preprocessing maps every one of the 256 pixel levels to the right bin, so that discrete models built for that bit depth accept all produced values.",
 ["inputs","configurations","histories"],"all dataset lengths, seeds, epochs x bit depths x pixel levels",
 "The data module is not imported by any stable test.",
 ["simple_einet/data.py","simple_einet/utils.py","simple_einet/dist.py"],[("TrainingSampler","simple_einet/data.py"),("preprocess/reduce_bits","simple_einet/utils.py"),("get_distribution","simple_einet/dist.py")],["TrainingSampler.__iter__","generate_data","get_datasets","preprocess","get_distribution"])
p("C22","Returned leaf parameters are those of the selected leaves",
 "Asking a sampling call for leaf parameters returns, per sample, channel and feature, the parameter vector of exactly the leaf that sample would be drawn from: with the same seed, drawing the leaf modes instead gives the mode implied by those parameters, with or without evidence, for every leaf type, structure and mixed leaf layers in original feature order.",
 ["configurations","inputs"],"all configurations with parameterised leaves x seeds x evidence",
 "return_leaf_params has no test.",
 [FL,LF,D+"multidistribution.py",E],[("_index_leaf_params","simple_einet/layers/factorized_leaf.py"),("get_params",D+"*.py")],["Einet.sample(return_leaf_params=True)"])
p("C23","Sampling temperatures rescale exactly the intended randomness",
 "Sum temperature 1 and leaf temperature 1 leave the distribution unchanged; a sum temperature T samples branches with weights proportional to w^(1/T), and a leaf temperature scales the sampling variance of Gaussian leaves by T (0 giving the leaf mean) and tempers categorical leaves accordingly, without altering the other stage, later calls or the parameters.",
 ["configurations","inputs"],"all layer/leaf types x temperatures x random streams",
 "No test passes a temperature.",
 [AL,LF,LS,ES,SU,MX],[("temperature in log-weights","simple_einet/abstract_layers.py:logits_to_log_weights"),("temperature in leaves","simple_einet/layers/distributions/abstract_leaf.py:dist_sample")],["Einet.sample(temperature_sums, temperature_leaves)"])
p("C24","Class-conditional sampling honours the requested classes",
 "Sampling with a class index draws every sample from p(x | class), a list of class indices yields exactly one sample per entry in order, and without a class index the classes are drawn uniformly, matching the prior the posterior uses; all of this holds differentiably too, and invalid combinations (class with evidence, class on a single-class model) are refused.",
 ["configurations","inputs"],"all multi-class configurations x class requests x random streams",
 "Class-conditional sampling has no test of values.",
 [E,SU,MX],[("class sampling root","simple_einet/einet.py:Einet.sample")],["Einet.sample(class_index=...)"])
p("C25","Each layer computes its documented sums and products",
 "Used on its own, every circuit layer (sum, mixing, linsum, linsum2, einsum, product, root product, and the convolutional sums and products) returns for any log-likelihood input - odd feature counts, -inf entries, large magnitudes - the log of its documented weighted sum/product, and its sampling step picks child indices with exactly the normalised weights of the selected output node and repetition.",
 ["configurations","inputs"],"all layer shapes x log-likelihood inputs x parent indices",
 "Layer tests check output shapes for a few sizes.",
 [LS,ES,SU,MX,PR,"simple_einet/conv_pc.py"],[("layer.forward / layer.sample","simple_einet/layers/*.py")],["layer(x)","layer.sample(ctx)"])
p("C26","Training utilities optimise and report the true objective",
 "Lightning modules report as loss exactly the mean negative log-likelihood (generative) or the cross-entropy of the posterior (discriminative) of the given batch without altering the batch, statistics-based initialisation centres Gaussian leaves on the data's per-feature mean and variance, and bits-per-dimension accounts for dequantisation exactly. Gradient training on them increases likelihood and keeps the model valid.",
 ["inputs","histories"],"all batches x model configurations x training histories",
 "None of the training modules is imported by a test.",
 ["models_pl.py",SA,"simple_einet/utils.py"],[("training_step losses","models_pl.py"),("init_einet_stats","simple_einet/sampling_utils.py"),("calc_bpd","simple_einet/utils.py")],["training_step","init_einet_stats","calc_bpd"])
p("C27","Training scripts do what their options say, end to end",
 "Each training script (main.py, main_pl.py, main_pwl.py) run with a supported combination of options builds the model those options describe, feeds it the requested data at the requested bit depth and batch size, optimises it for the requested number of epochs with the given optimiser and learning rate, and reports, stores and re-evaluates the true losses, accuracies, checkpoints and pictures of that model. The same seed repeats the run exactly.",
 ["configurations","histories","inputs"],"all supported option combinations x seeds x data sets x training histories",
 "No test runs any script; only a whole run shows whether option, data, model, objective, report and stored files belong together.",
 ["main.py","main_pl.py","main_pwl.py","models_pl.py","exp_utils.py","simple_einet/data.py"],[("training and sampling script","main.py"),("Lightning script","main_pl.py:main"),("checkpoint of a run","exp_utils.py:load_from_checkpoint"),("model construction","models_pl.py:LitModel.__init__")],["runpy main.py","main_pl.main","runpy main_pwl.py"])
p("C28","Experiment bookkeeping keeps what it is given",
 "Every run gets a directory of its own below the requested base, named by experiment, data set, tag and time, without altering files of earlier runs; a failing or interrupted run's directory is kept whole under a marked name, with its traceback, and the exception is passed on unchanged. Arguments and configurations are parsed, defaulted, refused, stored and read back exactly as given, and options derived from them follow their documented rule. Plotted and saved pictures show the given values and leave models and figures as they were.",
 ["histories","inputs","crash_points"],"all sequences of runs, failures and interruptions x argument sets x pictures",
 "The bookkeeping modules are imported by no test; loss of data shows only for particular sequences of runs and failures.",
 ["exp_utils.py","args.py","simple_einet/utils.py","models_pl.py"],[("result directories","exp_utils.py:make_results_dir"),("failure handling","exp_utils.py:catch_exception, catch_kb_interrupt"),("argument parsing","args.py:parse_args"),("pictures","exp_utils.py:plot_distribution, simple_einet/utils.py:save_samples")],["exp_utils.*","args.parse_args"])
p("C29","Dependence coefficient measures dependence between variables",
 "The randomized dependence coefficient of two variables (or groups of variables) lies in [0, 1], is near 1 for variables that are functions of each other and small for independent ones given enough samples, is unchanged by strictly increasing transformations of either variable, is the median over the requested repetitions, and never alters its arguments.",
 ["inputs"],"all sample sizes, distributions (ties, heavy tails, several columns), projections, scales, repetitions and random streams",
 "The function has no test.",
 ["simple_einet/utils.py"],[("randomized dependence coefficient","simple_einet/utils.py:rdc")],["simple_einet.utils.rdc"])
p("C30","The model is the same distribution in single, double and mixed precision",
 "A circuit cast to double precision (or built under a double default type) computes the log-likelihood, marginals, posterior and gradients its parameters define to double precision, and casting it back restores it exactly. Under automatic mixed precision and inference mode the same queries agree with single precision up to the rounding of the reduced type, completions and samples keep the observed values and follow the model, and a training step yields finite, matching gradients.",
 ["configurations","inputs"],"all circuits x parameters x evidence patterns x precisions (float32, float64, bfloat16 and float16 autocast)",
 "Tests run in single precision only, where an error of 1e-6 cannot be told from rounding; the scripts and notebooks train in mixed precision.",
 ["simple_einet/einet.py","simple_einet/conv_pc.py","simple_einet/layers/"],[("log-likelihood","simple_einet/einet.py:Einet.forward"),("weights of sums","simple_einet/sampling_utils.py"),("leaf densities","simple_einet/layers/distributions/"),("convolutional circuits","simple_einet/conv_pc.py:ConvPc.forward")],["Einet.double()","ConvPc.double()","torch.autocast","torch.inference_mode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
