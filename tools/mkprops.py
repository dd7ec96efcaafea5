"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, id
    P.append(d)

prop("C01", "Per-sample outputs stay aligned with the samples they describe",
 "Row i of everything the library returns or hands on per sample (transformed features, propagated labels, importance weights, split or merged arrays) describes sample i of what the caller gave, however source and target samples are interleaved. Arrays that are indexed by one mask or index set, or given together to an inner estimator, always hold the same samples in the same order. Splitting by domain and merging back with the same domain labels restores the original order. The samples of one domain are picked by their domain labels, never by taking as many samples from the start.",
 ["inputs"], "every X, y, sample_domain, sample_weight, every interleaving of the domains",
 "the tests stack source samples before target samples and mostly check shapes; they cannot enumerate interleavings",
 ["skada/utils.py", "skada/base.py", "skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/_reweight.py", "skada/transformers.py"],
 [("source_target_split / source_target_merge", "skada/utils.py"), ("_apply_domain_masks, _merge_domain_outputs", "skada/_utils.py"), ("adapters' fit_transform/transform", "skada/_mapping.py, skada/_subspace.py, skada/_ot.py")])
prop("C02", "A sample is source iff its domain label is non-negative, everywhere",
 "Wherever the library decides whether a sample is source or target, samples whose domain label is zero or positive are source and samples whose label is negative are target: no sample is both, none is neither, and label 0 is source. What is passed on as the source (or target) part is made of source (respectively target) samples only.",
 ["inputs"], "every assignment of integer domain labels to samples, label 0 included",
 "tests use labels 1 and -2 almost exclusively, and a swapped role often still yields arrays of the right shape",
 ["skada/utils.py", "skada/base.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_ot.py", "skada/metrics.py", "skada/model_selection.py", "skada/deep/base.py"],
 [("extract_source_indices", "skada/utils.py"), ("domain masks in the deep module", "skada/deep/base.py")])
prop("C03", "Labels of target samples never reach the training of an estimator",
 "With target label masking on, which is the default in pipelines, every target sample's label is replaced by the mask marker before the wrapped estimator sees it, for discrete and for continuous labels, and an estimator that is not given the domain labels is fitted without the masked samples. Packing a dataset for training replaces the labels of all target domains, whatever their type. Adaptation methods use the labels of source samples, and of targets only what is not marked as masked.",
 ["inputs", "configurations"], "every label type, domain layout, selector and pipeline",
 "a leak improves scores and raises nothing; tests would need to compare runs with altered target labels for every estimator and configuration",
 ["skada/base.py", "skada/_utils.py", "skada/datasets/_base.py", "skada/_pipeline.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_ot.py"],
 [("_auto_mask_target_labels, _remove_masked", "skada/base.py"), ("pack", "skada/datasets/_base.py")])
prop("C04", "Arrays given by the caller are never modified",
 "No call to the public interface (fitting, transforming, predicting, scoring, splitting, packing, merging) modifies in place the features, labels, domain labels, weights or parameter dictionaries that the caller passed, nor arrays obtained from the caller's estimator. Results that must differ from the input are new arrays.",
 ["inputs", "histories"], "every input array and every sequence of calls on the same arrays",
 "an overwritten input shows only when the same array is used again; whether a view or a copy is made depends on dtype and contiguity",
 ["skada/base.py", "skada/utils.py", "skada/_utils.py", "skada/_mapping.py", "skada/_ot.py", "skada/_reweight.py", "skada/_subspace.py", "skada/metrics.py", "skada/datasets/_base.py"],
 [("copies before in-place writes", "skada/base.py, skada/_ot.py, skada/_mapping.py")])
prop("C05", "Fitting leaves hyper-parameters as the user gave them",
 "After fitting, transforming, predicting or scoring, every constructor parameter of the estimator still is the object the user gave, with the same contents; defaults that depend on the data are kept apart from the parameter. A second fit, or a clone fitted on other data, therefore starts from the same configuration.",
 ["histories", "configurations"], "every estimator, every parameter value, every sequence of fits",
 "tests fit an estimator once; a parameter replaced by its data-dependent value shows at the second fit or after cloning",
 ["skada/base.py", "skada/_mapping.py", "skada/_ot.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/metrics.py", "skada/model_selection.py", "skada/transformers.py"],
 [("fitted values in attributes of their own", "all estimators")])
prop("C06", "Estimators given by the user are cloned, never fitted themselves",
 "An estimator object passed as a parameter (base estimator, domain classifier, weight estimator, estimator under evaluation that has to be refitted) is never fitted and its parameters are never changed by the library: a clone is fitted instead. Two objects built from defaults never share a mutable default estimator.",
 ["histories", "configurations"], "every estimator taking another one as parameter, every sequence of fits",
 "tests build fresh estimators for each test, so that sharing or fitting the original goes unnoticed",
 ["skada/base.py", "skada/_ot.py", "skada/_reweight.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/metrics.py", "skada/_mapping.py", "skada/_subspace.py"],
 [("clone before fit", "skada/base.py, skada/_ot.py, skada/_reweight.py, skada/_self_labeling.py, skada/_gradual_da.py, skada/metrics.py")])
prop("C07", "Unfitted estimators refuse to predict, and fit returns the estimator",
 "Calling a prediction or transformation method of an estimator or adapter before fitting raises the standard not-fitted error rather than an attribute error or a result. Every public fit method returns the estimator itself on every path.",
 ["histories"], "every estimator and every order of calls",
 "the tests call fit first and rarely use its return value",
 ["skada/base.py", "skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/_reweight.py"],
 [("check_is_fitted", "all predict/transform methods")])
prop("C08", "No option is silently ignored",
 "Every parameter accepted by a pipeline factory, a deep model factory or an estimator constructor takes effect: factories pass each of their parameters on to the object they build under the parameter's own meaning, with the same default, and each constructor parameter is read by the estimator's work. No parameter is replaced by a constant or by another parameter on the way.",
 ["configurations"], "every parameter of every factory and constructor, every value",
 "tests call most factories with default values, so that a dropped or crossed parameter yields the same result",
 ["skada/_mapping.py", "skada/_ot.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_self_labeling.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py", "skada/deep/_baseline.py", "skada/_pipeline.py"],
 [("factory functions", "one per method"), ("constructors", "adapters and estimators")])
prop("C09", "Metadata requested by default is accepted where it is routed",
 "Each piece of metadata that an object asks for by default for a method (domain labels, permission to use source samples, sample weights) is accepted by that method's signature. Wrapping an object in a selector or a pipeline routes the metadata of every public method to the method of the same name.",
 ["configurations"], "every estimator, adapter, selector, splitter and scorer, and every method metadata is routed to",
 "routing only happens for the combination of metadata and methods a test exercises",
 ["skada/base.py", "skada/_ot.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/metrics.py", "skada/model_selection.py", "skada/deep/base.py"],
 [("__metadata_request__* class attributes", "skada/base.py"), ("get_metadata_routing", "skada/base.py, skada/metrics.py")])
prop("C10", "Source samples are refused at prediction time unless allowed",
 "Adapters asked to transform samples of source domains raise an error, and deep estimators leave source samples out of the prediction, unless the caller says that source samples are allowed; the caller's permission is what is checked and handed on, and it is off by default. While fitting, an adapter may transform its own source samples.",
 ["inputs", "configurations"], "every estimator and adapter, every sample_domain with a source sample in it",
 "the tests predict on target samples, or allow the sources explicitly",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/base.py", "skada/_reweight.py", "skada/deep/base.py", "skada/utils.py"],
 [("allow_source", "check_X_domain calls"), ("DomainAwareNet.predict", "skada/deep/base.py")])
prop("C11", "Randomness comes only from the random state that was given",
 "Every source of randomness in the library draws from the random state parameter of the object or function at hand, which is passed on to every random sub-component; with a fixed seed two runs give the same results. Global random generators are neither seeded nor replaced as a side effect.",
 ["inputs", "histories"], "every seed, every estimator, generator, splitter and scorer with a random state",
 "reproducibility tests exist for a few functions only and cannot see the global generator being used next to a seeded one",
 ["skada/datasets/_samples_generator.py", "skada/model_selection.py", "skada/metrics.py", "skada/transformers.py", "skada/_reweight.py", "skada/_utils.py", "skada/deep/utils.py", "skada/deep/base.py"],
 [("check_random_state", "skada/datasets, skada/model_selection.py, skada/metrics.py, skada/transformers.py")])
prop("C12", "Cross-validation splits never leak and follow the domains",
 "Every split produced by a domain-aware cross-validator has disjoint training and test index sets that refer to positions in the arrays given. Leave-one-domain-out never uses the source samples of the domain that is left out as target, and only that domain is used as target, and the stratified splitters draw every domain apart. No sample appears twice in one part, a random split mixes the domains before it cuts them into parts, and the number of splits announced is the number made. Subsamplers keep the part of a split that has the size asked for, drawn per domain, and per class, where they are documented so. Where the library cross-validates by itself, what is learned on a training part is judged on its test part.",
 ["inputs"], "every layout of domains and classes, every size and seed",
 "tests check a few layouts with sizes that divide evenly",
 ["skada/model_selection.py", "skada/transformers.py"],
 [("_iter_indices", "skada/model_selection.py")])
prop("C13", "Scorers evaluate the right domain and apply the sign once",
 "A scorer evaluates the samples of the domain it is documented for, with predictions, labels, domain labels and weights taken from the same samples; scorers meant for unlabeled targets never read the labels of target samples. The direction of the score (greater is better or not) is applied exactly once.",
 ["inputs", "configurations"], "every estimator, data layout and scorer configuration",
 "tests check that a score is finite or within bounds",
 ["skada/metrics.py"], [("_score", "skada/metrics.py"), ("_sign", "skada/metrics.py")])
prop("C14", "Parameters survive get_params, set_params and clone",
 "Constructors of estimators, adapters, scorers, splitters and selectors keep each parameter they accept under its own name, unmodified and unvalidated copies excluded, so that reading the parameters, setting them and cloning reproduce the object. Setting a parameter after construction has the same effect as giving it to the constructor.",
 ["configurations", "histories"], "every class with parameters and every parameter value",
 "clone and set_params are tested on a handful of pipelines with default values",
 ["skada/base.py", "skada/_mapping.py", "skada/_ot.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/metrics.py", "skada/model_selection.py", "skada/transformers.py", "skada/deep/utils.py"],
 [("__init__", "all estimators"), ("get_params / set_params", "skada/base.py")])
prop("C15", "Input validation enforces each restriction by its own rule",
 "The validation helpers reject inputs of inconsistent length and each restriction they offer (no source, no target, a single source, a single target, no index shared by source and target, known domains only) is enforced for exactly the quantity it names, and only when asked for. Helpers with and without labels enforce the same restrictions. Domain labels that are not given are made up: all target, or, with labels at hand, target for masked samples and source for the rest. Merging source and target parts refuses parts whose length differs from the samples of their domains.",
 ["inputs", "configurations"], "every combination of restrictions and every sample_domain",
 "tests cover some of the flags with one violating input each",
 ["skada/utils.py"], [("check_X_y_domain, check_X_domain", "skada/utils.py")])
prop("C16", "Deep training uses labels of source samples and the penalty as configured",
 "In deep domain adaptation the base loss is computed from source predictions and source labels only (unless training on target is asked for), the adaptation penalty gets the outputs, features and domain labels of source and target in their own slots, and the penalty enters the total loss with the configured weight. In tables of pairs the samples of the source batch and those of the target batch keep their own axis. At evaluation no adaptation penalty is computed. Sample weights weigh the loss of their own source sample, and enter the score they are given for.",
 ["inputs", "configurations"], "every batch composition, loss and network",
 "tests train for a few epochs and check the shape of predictions",
 ["skada/deep/base.py", "skada/deep/losses.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py"],
 [("DomainAwareCriterion.forward", "skada/deep/base.py"), ("BaseDALoss.forward", "skada/deep")])
prop("C17", "Deep datasets keep features, labels, domains, weights and ids together",
 "Every operation on a deep dataset (construction, selection, merging, adding or dropping domains or weights, indexing) applies the same selection or order to the features, labels, domain labels, sample weights and sample ids, and a sample keeps its own label and domain. Samples of one domain, or with a label, are selected by equality of names and not by their order, a condition on the labels selects labelled samples only, and samples given without domain or label are source samples without a label. An operation that is not asked to work in place leaves the dataset unchanged.",
 ["inputs", "histories"], "every dataset and every sequence of operations",
 "tests apply each operation once on small data and check lengths",
 ["skada/deep/base.py"], [("DeepDADataset", "skada/deep/base.py")])
prop("C18", "Every advertised public name exists",
 "Each name listed as public by a package or module of the library can be imported from it, and no public list names something twice or something that does not exist.",
 ["programs"], "every public name",
 "tests import the names they use",
 ["skada/__init__.py", "skada/datasets/__init__.py", "skada/deep/__init__.py"], [("__all__", "skada/__init__.py, skada/datasets/__init__.py, skada/deep/__init__.py")])
prop("C19", "Importance weights favour target-like source samples and vanish on targets",
 "Every reweighting method estimates weights on source samples from source and target features, writes them at the positions of the source samples and gives target samples a weight of zero (or a negligible constant). A density-ratio weight is the ratio of target to source density (never the inverse), both evaluated on the same source samples. Weights given by the caller are normalised by the total over the same domain.",
 ["inputs"], "every data set and every reweighting method",
 "tests check that weights exist and are non-negative; an inverted ratio passes these",
 ["skada/_reweight.py"], [("_compute_weights / compute_weights", "skada/_reweight.py")])
prop("C20", "Domains keep their identity from datasets to packed arrays",
 "Each domain added to a dataset gets an identifier of its own; packing gives all samples of a domain that identifier, positive when it is used as source and negative when it is used as target, and reports the identifiers under the domains' names. A domain that is not asked for contributes no samples, and features, labels and domain labels of the packed arrays come from the same domain in the same order.",
 ["inputs", "histories"], "every sequence of added domains, every choice of sources and targets",
 "tests pack two or three domains in the order in which they were added",
 ["skada/datasets/_base.py", "skada/datasets/_samples_generator.py", "skada/datasets/_mnist_usps.py"],
 [("add_domain, pack, select_domain", "skada/datasets/_base.py")])
prop("C21", "Fitting again forgets what was learned before",
 "What a fit method learns depends on its arguments and on the constructor parameters only: state left by an earlier fit, transform or predict never influences it. Attributes that describe the fitted state are all set anew by each fit.",
 ["histories"], "every estimator and every sequence of fits on different data",
 "tests fit each object once",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/_reweight.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/base.py", "skada/transformers.py", "skada/metrics.py"],
 [("fit", "all estimators")])
prop("C22", "Unknown options are rejected instead of being taken for another one",
 "Where an option selects among named alternatives (solver, selector, kernel, distance, metric, generator shift or label kind, sampling size), a value that is none of the alternatives raises an error; it is never taken for one of them, and no code runs with a value that was never assigned.",
 ["configurations"], "every option with named alternatives and every value",
 "tests pass the valid names and a few invalid ones",
 ["skada/utils.py", "skada/_utils.py", "skada/_pipeline.py", "skada/_reweight.py", "skada/_ot.py", "skada/_mapping.py", "skada/metrics.py", "skada/datasets/_samples_generator.py", "skada/deep/base.py", "skada/deep/losses.py", "skada/datasets/_base.py"],
 [("if/elif chains ending in raise", "everywhere")])
prop("C23", "Predicted and propagated labels are label values, not class positions",
 "Classifiers and label propagation methods return values taken from the labels seen in fitting: a position obtained from a maximum over classes is always translated through the matching array of classes before it is returned, compared with labels or used as labels. Classes may be any set of integers.",
 ["inputs"], "every set of class labels (not only 0..k-1)",
 "the test data are labeled 0 and 1, for which positions and labels coincide",
 ["skada/_ot.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/metrics.py"],
 [("classes_ / np.unique(return_inverse)", "skada/_ot.py")])
prop("C24", "Prediction, transformation and scoring leave the fitted object unchanged",
 "Prediction, transformation and scoring neither set nor modify any attribute of the estimator, adapter or selector at work, nor arrays it has learned, so that calling them any number of times, in any order, gives the same results.",
 ["histories"], "every fitted object and every sequence of prediction calls",
 "tests predict once after fitting",
 ["skada/base.py", "skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/_reweight.py", "skada/_self_labeling.py", "skada/_gradual_da.py", "skada/metrics.py"],
 [("predict / transform / score", "all estimators")])
prop("C25", "An interrupted download is never taken for a dataset",
 "A dataset folder appears at its final location only once the whole dataset has been fetched and extracted, so that a failure at any point of the download leaves no folder that a later call would take for the complete dataset. A fetcher given a data folder writes nothing outside it, fetches nothing when the dataset is there or download_if_missing is false, and accepts only files whose checksum is right.",
 ["crash_points", "fault_sequences"], "every point at which fetching or extracting may fail",
 "the loaders are not tested without network",
 ["skada/datasets/_amazon_review.py", "skada/datasets/_office.py", "skada/datasets/_office_home.py", "skada/datasets/_base.py"],
 [("staging folder, rename", "skada/datasets")])
prop("C26", "Iterative solvers report when they stop without converging",
 "A solver of the library that iterates up to a maximum number of iterations and compares its progress with a tolerance stops early only on a genuine criterion (the size of a change, not its sign), warns, or returns the information, when the maximum is reached without the criterion being met, and does not warn when it was met. The failure of an external optimiser is reported, its success is not.",
 ["inputs"], "every problem and every limit on iterations",
 "tests use problems that converge",
 ["skada/utils.py", "skada/_reweight.py", "skada/_mapping.py"], [("warnings.warn after the loop", "skada/utils.py, skada/_reweight.py")])
prop("C27", "Optional packages stay optional",
 "Without the packages that only some features need (those not declared as dependencies: torch, torchvision, skorch and the like), every module that does not belong to such a feature imports, its public names exist and work without touching the missing package, and a feature that needs it fails at first use or import with an ImportError. No module of the library imports another in an order that leaves names undefined, and every name a function uses is bound.",
 ["environments"], "every combination of installed optional packages, every public module and function",
 "the test environment has all optional packages installed (or skips the file as a whole)",
 ["skada/__init__.py", "skada/deep/__init__.py", "skada/datasets/_base.py", "skada/datasets/_mnist_usps.py"], [("guarded imports", "skada/datasets/_base.py, skada/datasets/_mnist_usps.py, skada/deep/__init__.py")])
prop("C28", "Gradients of the adaptation penalty reach the feature extractor",
 "When a deep domain adaptation method is trained, the features, predictions and domain predictions that its penalty compares keep their gradients all the way from the network to the total loss: through the hook that records the features, the module, the criterion and the loss. The domain classifier receives the features through the gradient reversal layer exactly once, which negates the incoming gradient and scales it by alpha and leaves the features as they are on the way forward. What callbacks keep from batch to batch carries no gradient graph.",
 ["inputs", "configurations"], "every batch, every loss, layer and strength of the penalty",
 "a detached feature still trains the base loss: shapes, finiteness and accuracy on a toy problem do not change",
 ["skada/deep/base.py", "skada/deep/losses.py", "skada/deep/modules.py", "skada/deep/_adversarial.py", "skada/deep/utils.py", "skada/deep/callbacks.py"], [("DomainAwareCriterion.forward, DomainAwareModule.forward", "skada/deep/base.py"), ("GradientReversalLayer", "skada/deep/modules.py"), ("IntermediateLayerHook", "skada/deep/utils.py")])
prop("C29", "Adaptation uses what was learned from both domains",
 "What an adapter or a domain adaptation estimator returns (transformed features, weights, propagated labels, predictions) depends on the features of both the source and the target samples given to fit. What is kept as learned from the source (or target) samples is computed from these samples, and the source (or target) part of a transformed array is not produced by statistics learned on the other kind of domain alone.",
 ["inputs"], "every adapter and estimator, every training set",
 "an adapter that never looks at one of the domains still returns arrays of the right shape, and on the toy problems of the tests its accuracy hardly changes",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_reweight.py", "skada/_ot.py", "skada/_self_labeling.py", "skada/_gradual_da.py"],
 [("fit / fit_transform / transform / predict", "all adapters and estimators")])
prop("C30", "A pipeline is made of the steps it is given",
 "make_da_pipeline returns a pipeline whose steps are the ones given, one each and in the given order; a pipeline made before that is given as a step is replaced by its own steps, in its place. A step that is not a selector is held, as it was given, by exactly one selector of the kind asked for (what the callable returns, when one is given), told to mask target labels as asked, up to the first step that predicts target labels itself: from that step on they are not masked. A selector is left as it is. Names given by the user are kept (those of a nested pipeline are prefixed by the name it was given under), a step without one is named after the estimator, and no two unnamed steps share a name. The last step, and only the last, is marked as the final one. memory and verbose are those given.",
 ["inputs", "configurations"], "every sequence of steps, names, selectors and nested pipelines",
 "tests build a few pipelines; a dropped mark, a swapped name or an option lost in one branch still gives a pipeline that fits and predicts",
 ["skada/_pipeline.py", "skada/base.py"], [("make_da_pipeline, _wrap_with_selectors, _name_estimators", "skada/_pipeline.py"), ("_mark_as_final, _unmark_as_final", "skada/base.py")])
prop("C31", "Tensors made in training live where the data are",
 "Every tensor that a loss, a criterion, a network, a callback or a clustering of the deep part makes to be combined with features, predictions, labels or domain labels is on the device of these data: training on an accelerator never mixes it with the host, and data are brought to the host before they are handed to numpy. A DeepDADataset that is given a device keeps every tensor it holds on it: data, labels, domains, weights and masks, those it is given and those it makes up.",
 ["configurations", "inputs"], "every device, every loss, criterion, callback and data set",
 "the tests have no accelerator: on the host every tensor is on the same device whatever the code says",
 ["skada/deep"], [("losses, criterions, callbacks, networks", "skada/deep"), ("DeepDADataset", "skada/deep/base.py")])
prop("C32", "The prediction for a sample does not depend on the other samples given with it",
 "After fitting, what transform, predict, predict_proba, decision_function and the like return for a sample is computed from this sample and from what was learned in the fit: no statistic, ranking, normalisation or model of the batch of samples given for prediction enters the result, so predicting samples one at a time, in parts or all together gives the same answers (samples recognised as those of the fit aside). Deep networks predict and extract features in evaluation mode, taking the samples in their order.",
 ["inputs", "histories"], "every estimator, every batch of samples to predict",
 "tests predict one batch, of the size and composition of the training set, and look at its shape or accuracy",
 ["skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py", "skada/_gradual_da.py", "skada/_self_labeling.py", "skada/deep/base.py"], [("transform, predict and the like", "all adapters and estimators"), ("predict_features", "skada/deep/base.py")])
prop("C80", "Optimal transport plans are optimal for the regularised problem",
 "The transport plan used by a mapping or label propagation method minimises the (regularised) transport cost between the source and target distributions up to the solver's tolerance.",
 ["inputs"], "every pair of sample sets and regularisation", "numerical optimality is checked on a few seeds only",
 ["skada/_mapping.py", "skada/_ot.py"], [("POT solvers", "external package")])
prop("C81", "Reweighting solves its moment or divergence matching problem",
 "The importance weights of kernel mean matching, KLIEP and the other reweighting methods minimise their documented objective within its constraints.",
 ["inputs"], "every data set", "tests compare scores on a toy problem",
 ["skada/_reweight.py", "skada/utils.py"], [("qp_solve and gradient ascent", "skada/utils.py, skada/_reweight.py")])
prop("C82", "Generated data follow the documented shifts",
 "Generated data sets have the documented distributions: number of clusters, class proportions, noise levels and kind of shift between source and target.",
 ["inputs"], "every seed and parameter", "tests check shapes", ["skada/datasets/_samples_generator.py"], [("generators", "skada/datasets/_samples_generator.py")])
prop("C83", "Adaptation penalties are zero on identical distributions",
 "The divergences used as penalties by the deep methods are non-negative and vanish when source and target features coincide.",
 ["inputs"], "every batch of features", "tests train a few epochs", ["skada/deep/losses.py"], [("loss functions", "skada/deep/losses.py")])
prop("C84", "Adaptation improves accuracy on the target domain",
 "On problems that satisfy a method's assumptions, the adapted estimator is at least as accurate on target samples as the estimator trained on source samples alone.",
 ["inputs"], "every data set with the assumed kind of shift", "statistical statement", ["skada/_mapping.py", "skada/_subspace.py", "skada/_reweight.py"], [("estimators", "skada")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
