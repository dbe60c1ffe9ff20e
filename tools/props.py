"""The properties: what is claimed (PROPS) and what is not (NA)."""
DG = "src/data_generators/"
MO = "src/models/"
SI = "src/simulator/"
DR = "src/driver/"


def P(id, title, statement, forall, why, files, mech, note, over=("inputs",)):
    return dict(id=id, title=title, statement=statement, over=list(over), forall=forall, why=why, files=files, mech=mech, note=note)


PROPS = [
    P("C01", "The views of a reach point agree with one another",
      "For any list of k+ reaches, the k+ reach, exact frequency, bucketed frequency and zero-included histogram views of a reach point describe the same audience: exact frequencies are differences of consecutive k+ reaches, bucketed frequencies sum to the 1+ reach, the histogram sums to the universe, and converting frequencies back gives the k+ reaches again. Queries are answered exactly for the frequencies that exist and refused otherwise, and a table of impression counts per user is turned into the number of users seen at least k times for every k. No conversion alters the caller's data.",
      "all k+ reach vectors, impression vectors, spend vectors, universe sizes and frequency arguments within the bounds",
      "Tests convert a few fixed vectors; an error at one position, at the last bucket or for one length only shows for other vectors.",
      [MO + "reach_point.py"], [("conversions between the views", MO + "reach_point.py ReachPoint")],
      "exhaustive over all real/integer values for 1..30 k+ reaches and up to 12 publishers; count tables of up to 4 arbitrary users (5 thorough), 120 fixed"),
    P("C02", "A publisher's log answers every spend or impression query consistently",
      "For any log of impressions in any order, the users and impression counts bought with a spend are exactly those of the events priced at or below it, and a purchase of k impressions is exactly the first k events in order of price. Both kinds of question agree: user counts add up to the impressions bought, the spend for k impressions is the k-th smallest price (zero for none), and spending it buys at least k impressions. Totals (impressions, spend, distinct users) describe the whole log and the log given is not changed.",
      "all logs (users, prices, order, ties) and all spend and impression queries within the bounds",
      "Tests use short logs mostly given in price order; unsorted logs, tied prices and queries between or beyond prices need all orders and values.",
      [DG + "publisher_data.py"], [("prefix queries over a sorted log", DG + "publisher_data.py PublisherData")],
      "all logs of up to 3 events with arbitrary users and prices; 4-5 events with either arbitrary; 12-event (60 with two arbitrary) logs with arbitrary query"),
    P("C03", "Publisher logs and data sets survive being written and read back",
      "A publisher log written out and read back answers every query as before, and a data set written to a directory and read back has the same publishers, by name and in the order of their names, whatever order the directory is listed in. Writing a data set (or a copy of one that was read) leaves other files alone. A malformed line makes reading fail with an error that names the line.",
      "all logs, data sets, directory listing orders and positions of a malformed line within the bounds",
      "Tests round-trip one small data set on one file system; loss of precision, order dependence and name handling show only for other values, names and listings.",
      [DG + "publisher_data.py", DG + "data_set.py"], [("log format", DG + "publisher_data.py write_publisher_data / read_publisher_data"), ("directory layout", DG + "data_set.py write_data_set / read_data_set")],
      "logs of up to 3 arbitrary events (25 with increasing prices), data sets of up to 40 publishers, in-memory file system", over=("inputs", "histories")),
    P("C04", "Ground truth reach counts every user once across publishers",
      "For any data set and any spend or impression vector, the k+ reach is the number of distinct users whose impressions, added up over all publishers, are at least k, for every k up to the frequency asked for; the point reports the impressions, spends and universe that belong to the query. The two kinds of query agree with each other and with each publisher's own ground truth curve. Maximum reach is the number of distinct users, the universe defaults to twice that, and a vector of the wrong length is refused.",
      "all data sets (users, prices, overlap) and query vectors within the bounds",
      "The overlap pattern of users across publishers and the query point are combinatorial; tests sample two or three.",
      [DG + "data_set.py", MO + "ground_truth_reach_curve_model.py"], [("deduplicated counting", DG + "data_set.py reach_by_impressions / reach_by_spend"), ("single-publisher curve", MO + "ground_truth_reach_curve_model.py")],
      "up to 4 events with arbitrary users, 5 with arbitrary prices, 40 publishers and logs of 60 events with two arbitrary query entries, up to 30 frequencies"),
    P("C05", "A data design lists and returns exactly the data sets added to it",
      "After any history of adding data sets and reopening the design, it lists exactly the data sets added, sorted by name, counts them, and returns each of them with the contents it was added with. Adding a data set whose name is taken in the directory is refused and changes nothing; adding one never touches the files of another.",
      "all histories of add and reopen over the names and contents within the bounds, and all directory listing orders",
      "Tests add two data sets in one order; what goes wrong after a refused add, a reopen or another listing order needs histories.",
      [DG + "data_design.py", DG + "data_set.py"], [("directory as the index", DG + "data_design.py DataDesign")],
      "all histories of up to 4 operations over 3 names with arbitrary prices; 60 data sets", over=("histories", "inputs")),
    P("C06", "Imposing a cross-publisher overlap keeps each publisher's own reach curve",
      "Whatever sets of user labels the overlap generator returns, relabelling the publishers' users keeps, per publisher and in order, the name, the price of every impression, and the frequency distribution of every number of impressions; the users of a publisher become exactly the labels generated for it, so that publishers overlap exactly where their label sets do. The generator is told each publisher's reach and the parameters given, and draws from the random generator given. Label sets that do not fit a publisher's reach are refused, and the publishers given are not changed.",
      "all logs, label sets and generator parameters within the bounds",
      "The relabelling must be a bijection per publisher for every label set; tests look at a couple of sets.",
      [DG + "overlap_data_set.py", DG + "independent_overlap_data_set.py", DG + "sequentially_correlated_overlap_data_set.py"],
      [("relabelling", DG + "overlap_data_set.py OverlapDataSet"), ("parameters of the generators", DG + "independent_overlap_data_set.py, sequentially_correlated_overlap_data_set.py")],
      "up to 3 publishers and 5 arbitrary labels; 40 publishers with two arbitrary label sets; the external set generators are stand-ins returning arbitrary sets"),
    P("C07", "Every generated user gets its own number of impressions, at a linear price",
      "Whatever the random generator draws, an impression generator for n users gives impressions to exactly the users 0..n-1, each as often as drawn for it (one draw per user, from the distribution its parameters ask for, never zero), in the order the random generator arranges them. The i-th impression is priced at i times the cost per impression. A generator given the same random state repeats itself, and a zeta power of one or less is refused.",
      "all draws, arrangements, costs and users within the bounds",
      "Tests look at the output of one seed; a user dropped or a draw shared needs other draws.",
      [DG + "homogeneous_impression_generator.py", DG + "heterogeneous_impression_generator.py", DG + "heavy_tailed_impression_generator.py", DG + "fixed_price_generator.py"],
      [("expansion of draws to impressions", DG + "*_impression_generator.py __call__"), ("prices", DG + "fixed_price_generator.py")],
      "3 users with draws up to 2, 1 user up to 30, 150 users at the smallest draw; 150 impressions for prices; the random generator is a stand-in with arbitrary draws"),
    P("C08", "A synthetic data design has the publishers its parameters ask for",
      "Every data set of a synthetic design has the number of publishers asked for, the first of the largest size and the others decaying geometrically (up to rounding down once per step) to the largest size times the ratio, each generated with the impression, pricing and overlap parameters given. Data sets appear once each under their names, parameter sets that differ in any field have different generated names, and the whole design is a function of the seed, which drives all randomness.",
      "all sizes, ratios, parameter values and seeds within the bounds",
      "Sizes depend on a recurrence over publishers and names on formatting; tests check one design of one size.",
      [DG + "synthetic_data_design_generator.py", DG + "data_set_parameters.py"],
      [("publisher sizes", DG + "synthetic_data_design_generator.py"), ("naming", DG + "data_set_parameters.py __str__")],
      "1-3 publishers with arbitrary size and ratio, 4-20 publishers with arbitrary size and fixed ratios; names of two arbitrary parameter sets", over=("inputs", "configurations")),
    P("C09", "The Goerg curve passes through its training point and is a proper reach curve",
      "For every training point with fewer people reached than impressions, the Goerg curve reproduces the training reach, starts at zero, never decreases with impressions, stays below its maximum reach and below the number of impressions, and its k+ reaches are geometric, hence non-increasing in k. Spend queries are impression queries at the training cost per impression and answers do not depend on earlier questions. Training data the model cannot fit and malformed queries are refused.",
      "all training points, query points and frequencies within the bounds",
      "A formula error that vanishes at the tested ratio is invisible to tests; the curve must hold for every training point and query.",
      [MO + "goerg_model.py", MO + "reach_curve.py"], [("exponential-Poisson formula", MO + "goerg_model.py GoergModel")],
      "arbitrary training point and pair of queries up to 3 frequencies (5 thorough); fixed training points up to 30 frequencies"),
    P("C10", "The impressions or spend at a reach quantile invert the curve",
      "For any non-decreasing reach curve and any quantile strictly between 0 and 1, the impressions (or spend) reported is the whole number at which the curve is still at or below that fraction of the maximum reach while one more unit exceeds it. It is refused only if the curve never gets there, a higher quantile never needs less, and quantiles outside (0, 1) are refused.",
      "all non-decreasing curves given by tables, the fitted Goerg curves and ground truth curves listed, and all quantiles",
      "The search must be right for every shape of curve, including plateaus and jumps; tests invert two smooth curves at a few quantiles.",
      [MO + "reach_curve.py"], [("bisection", MO + "reach_curve.py impressions_at_reach_quantile / spend_at_reach_quantile")],
      "arbitrary tables of 5 and 12 entries (30 thorough), Goerg curves with answers up to 2**36, ground truth curves of 40 events"),
    P("C11", "The Gamma-Poisson curve is binomial thinning of its inventory distribution",
      "For fitted parameters, the k+ reaches of the Gamma-Poisson curve are those of a binomial thinning of the inventory distribution: non-negative, non-increasing in k, at most the audience size, zero without impressions, never decreasing with impressions, and the same for spend at the training price. The fit minimises the documented distance (chi-squared of the frequency histogram, plus the 1+ reach term and extrapolation penalty) and keeps the best of the optima found together with all of its parameters. Training data with fewer impressions than people are refused.",
      "all audience sizes, queries, frequency histograms and optimizer outcomes within the bounds",
      "Tests look at a fit from one or two points; the curve and the objective must be right at every parameter setting and query.",
      [MO + "gamma_poisson_model.py"], [("inventory and thinning", MO + "gamma_poisson_model.py"), ("selection of the optimum", MO + "gamma_poisson_model.py _fit")],
      "inventory cut at 3-6 impressions per user (8 thorough), three shape/scale settings, arbitrary audience and queries, arbitrary histograms of 3-4 frequencies; the optimizer is a stand-in with arbitrary scores"),
    P("C12", "The k-inflated Gamma-Poisson curve thins its inflated distribution",
      "The inflated distribution has the inflation values at the lowest frequencies and a scaled Gamma-Poisson tail after them, sums to one, and thinning it by any serving probability gives the k+ reaches of the curve: non-negative, non-increasing in k, at most the audience, never decreasing with impressions, the same for spend at the training price, and independent of earlier questions. Inflation values are added one at a time until the fit is good, each fit starting from the one before; the fit minimises the documented distance, and a curve trained on 1+ reach alone passes through its training point. Training data the model cannot fit are refused.",
      "all inflation values, serving probabilities, audiences, queries, histograms and training points within the bounds",
      "Tests fit a few fixed histograms; the distribution must be right for every inflation vector and the curve for every query and order of queries.",
      [MO + "kinflated_gamma_poisson_model.py"], [("inflated distribution", MO + "kinflated_gamma_poisson_model.py KInflatedGammaPoissonDistribution"), ("curve and fit", MO + "kinflated_gamma_poisson_model.py KInflatedGammaPoissonModel")],
      "distribution cut at 5-14 values with up to 10 inflation values (up to 4 arbitrary), arbitrary pairs of queries, histograms of 3-12 frequencies; known finding F5", over=("inputs", "histories")),
    P("C13", "Local and cloud file system wrappers give back what was stored through them",
      "After any history of writing, appending, removing and making directories through a file system wrapper, exactly the files written and not removed are there, with the text last written in the encoding and with the line ends asked for, and a directory lists exactly its entries, once, by pattern. Reading, removing or making what cannot be read, removed or made is refused unless the caller allows it. Data designs and trial results kept through either wrapper are found again as they were stored.",
      "all histories of operations over the paths, and all numbers written, within the bounds",
      "Tests make one call of each kind; what a sequence leaves behind needs histories.",
      ["src/filesystem_wrappers/filesystem_pathlib_wrapper.py", "src/filesystem_wrappers/filesystem_cloudpath_wrapper.py"], [("delegation to pathlib and cloudpathlib", "src/filesystem_wrappers/*_wrapper.py")],
      "histories of 2-3 operations over 2-4 paths with arbitrary numbers as contents; the local wrapper on a scratch directory, the cloud one on cloudpathlib's local stand-in", over=("histories", "inputs")),
    P("C14", "The Dirac mixture curve is its mixture of Poissons at scaled rates",
      "For any fitted weights, the k+ reaches of a Dirac mixture curve are the audience times the weighted Poisson tails at rates scaled to the impressions asked about (to the nearest person): non-negative, non-increasing in k, at most the audience, never decreasing with impressions, zero without impressions, the same for spend at the training price, for audiences of any size. The weights are fitted to the observed frequency histogram including the people not reached, with truncated Poisson components that sum to one on a grid proportional to the histogram; failed fits are retried with fewer components. Histograms with a negative entry or without observations are refused.",
      "all weights, queries, audiences, rates and histograms within the bounds",
      "Tests fit two data sets; the curve has to be right for any weights, query and audience size.",
      [MO + "dirac_mixture_single_publisher_model.py"], [("truncated Poisson and grid", MO + "dirac_mixture_single_publisher_model.py UnivariateMixture..."), ("curve", MO + "dirac_mixture_single_publisher_model.py DiracMixtureSinglePublisherModel")],
      "up to 24 components and 12 frequencies, audiences up to 1e11, arbitrary 3-entry distributions for the grid; the weight optimizer (cvxpy) is a stand-in; known finding F7", over=("inputs", "fault_sequences")),
    P("C15", "The pairwise union surface predicts proper union reaches",
      "Whatever overlap the fit settles on, the union reach predicted is the sum of the publishers' reaches less half the sum of their pairwise overlaps, lies between the largest single reach and the sum of the reaches, never decreases with impressions, equals a publisher's own reach when it is alone, and is the same whether asked by impressions or by the spend that buys them. The fit minimises the squared error at the training points over exactly the admissible overlaps: symmetric, non-negative, none of a publisher with itself, summing to at most one per publisher.",
      "all publisher curves, admissible overlaps, training points and queries within the bounds",
      "Tests fit a few constructed examples; the bounds have to hold for every curve and overlap the optimizer may return.",
      [MO + "pairwise_union_reach_surface.py", MO + "reach_surface.py"], [("prediction", MO + "pairwise_union_reach_surface.py by_impressions"), ("quadratic program", MO + "pairwise_union_reach_surface.py _fit")],
      "2-3 publishers with arbitrary reaches and overlaps, 12 publishers with some arbitrary; the QP solver is a stand-in returning any point within the constraints passed to it"),
    P("C16", "The restricted pairwise surface stays admissible and never fits worse",
      "From any admissible state, revising one publisher's overlap keeps the overlaps in the documented region (each publisher's total at most one) and fits the training points at least as well as any other admissible value for that publisher; starting points outside the region are not used, and of several starting points the result fits at least as well as each. Predictions are the sum of the reaches less the overlaps, between the largest single reach and the sum of reaches, never decreasing with impressions, the publisher's own reach when it is alone, and the same by spend. Training points with one publisher only say nothing about overlaps, and a publisher without reach in training does not break the fit.",
      "all admissible states, starting points, orders of publishers, training reaches and queries within the bounds",
      "The fit is an iteration from random starts; that no step leaves the region or worsens the fit must hold from every state, not along one seed.",
      [MO + "restricted_pairwise_union_reach_surface.py"], [("coordinate descent", MO + "restricted_pairwise_union_reach_surface.py _fit")],
      "one revision from any state for 2-3 publishers, whole rounds for any training reach from fixed starts, 2-3 starting points", over=("inputs", "schedules")),
    P("C17", "The generalized mixture surface keeps the best fit and predicts proper unions",
      "Whatever weights the fit settles on, they are non-negative and add up to one per publisher, and the union reach predicted is that of independent audiences within each cluster: between the largest single reach and the sum of reaches, never decreasing with impressions, a publisher's own reach when it is alone, the same by spend. Every quadratic program minimises the squared error at the training points linearised at the current weights, and of several starting points the fit with the least error is kept.",
      "all publisher curves, admissible weights, training points and queries within the bounds",
      "Tests fit one constructed example; bounds and selection have to hold for every curve, weight matrix and outcome of the optimizer.",
      [MO + "generalized_mixture_reach_surface.py", MO + "reach_surface.py"], [("prediction", MO + "generalized_mixture_reach_surface.py by_impressions"), ("alternating fit", MO + "generalized_mixture_reach_surface.py _fit")],
      "2-3 publishers, 1-3 clusters, up to 3 rounds and starting points; the QP solver is a stand-in returning any point within the constraints passed to it"),
    P("C18", "A fitted model's answers do not depend on what was asked before",
      "Every single-publisher curve and multi-publisher surface, once fitted, gives the same answer to the same question whatever was asked before, of it or of another model, by impressions or by spend; a k+ reach does not depend on how many frequencies are asked for. Fitting and asking change neither the training points nor the question nor the maximum reach.",
      "all questions, training points or fitted parameters, and orders of questions within the bounds",
      "Tests ask a model once or twice in a fixed order; hidden state shows only after another question, or another model.",
      [MO + "goerg_model.py", MO + "gamma_poisson_model.py", MO + "kinflated_gamma_poisson_model.py", MO + "dirac_mixture_single_publisher_model.py", MO + "ground_truth_reach_curve_model.py", MO + "pairwise_union_reach_surface.py", MO + "restricted_pairwise_union_reach_surface.py", MO + "generalized_mixture_reach_surface.py"],
      [("queries", "by_impressions and by_spend of each model")],
      "all 8 models, 1-2 arbitrary questions before the one compared, with optimizers and distribution functions as stand-ins", over=("histories", "inputs")),
    P("C19", "The privacy tracker reports what the most exposed user has been charged",
      "After any history of noising events, each over some sampling interval of users (possibly wrapping around) or over everyone, the consumption of a user is the sum of the budgets of exactly the events that sampled it. The total reported is an upper bound on what any user has been charged and is attained by some user. It never decreases as events are added, is zero before the first, is not changed by asking, and every event's mechanism is listed in order.",
      "all budgets, sampling intervals and users within the bounds, after every prefix of the history",
      "Which intervals overlap, wrap or touch is combinatorial; tests add three or four events with fixed intervals.",
      [SI + "privacy_tracker.py"], [("sweep over interval ends", SI + "privacy_tracker.py PrivacyTracker")],
      "up to 3 events with arbitrary intervals (4 thorough), 12 events with three arbitrary intervals, 40 with arbitrary budgets", over=("histories", "inputs")),
    P("C20", "A simulated reach measures the campaign's impressions within its budget",
      "A simulated reach query measures exactly the impressions the spends buy from every publisher (never more than the campaign spends), each user as often as it was shown an impression, with sketches and noise configured and seeded as given, the budget split as asked and exactly the budget granted recorded as consumed. Whatever the noised estimate, the point returned has as many k+ reaches as asked for, non-negative, non-increasing in k and below the number of impressions, and reports the impressions, spends and universe; an estimate that is possible is reported as it is.",
      "all logs, spends, budgets, splits and noised estimates within the bounds",
      "Noise can push estimates below zero, above the impressions or out of order; tests see a mocked estimate or none.",
      [SI + "halo_simulator.py", SI + "publisher.py"], [("measurement", SI + "halo_simulator.py simulated_reach_by_spend"), ("sketches", SI + "publisher.py liquid_legions_sketch")],
      "up to 12 publishers, up to 10 frequencies, up to 3 arbitrary users, estimates or spends at once; the external sketching package is a stand-in with arbitrary estimates", over=("inputs", "histories")),
    P("C21", "A simulated Venn diagram is a consistent set of union reaches in its budget",
      "The simulated Venn diagram has one point for every non-empty combination of active publishers, with the impressions and spends of that combination; without noise each is the number of distinct users the combination reaches. Whatever the noise and sample, no reach is negative, a larger combination reaches no fewer people, a union no more than its parts together, and all active publishers together reach the estimated number of people shared out as the noised regions are. The budget granted is split as asked and recorded as consumed exactly; nothing is consumed without spend or when the request is refused.",
      "all overlaps of users, samples, noise values, budgets and splits within the bounds",
      "The regions of a Venn diagram are exponential in the publishers and the noise arbitrary; tests compare a few fixed ones.",
      [SI + "halo_simulator.py"], [("regions, sampling, noise and aggregation", SI + "halo_simulator.py simulated_venn_diagram_reach_by_spend and its helpers")],
      "up to 5 publishers (31 combinations), up to 4 arbitrary users or noise values, stand-ins for sketch, noise and sampling", over=("inputs",)),
    P("C22", "Campaign spends and true reach are the same from publisher to planner",
      "Every publisher's maximum spend is the price of its whole log, and the campaign spends the configured fraction of it. True reach asked of a publisher, of Halo or of the planner counts every distinct user once with the impressions and spends asked about, up to the frequency asked for, at no privacy cost. The planner fits the strategy to the Halo, parameters and budget it was given and answers from the fitted model.",
      "all logs, fractions, spends and budgets within the bounds",
      "Mix-ups of publishers, fractions or spends disappear when tests use equal values for all.",
      [SI + "halo_simulator.py", SI + "publisher.py", SI + "planner_simulator.py", SI + "system_parameters.py"], [("delegation of spends and true reach", SI + "halo_simulator.py, publisher.py, planner_simulator.py")],
      "up to 12 publishers, up to 3 arbitrary users, fractions or spends at once"),
    P("C23", "Modeling strategies measure what they need within the budget they get",
      "The M3 strategy measures every publisher alone, all of them together and all but each one, at the campaign's spends; its measurements together stay within the privacy budget, also as recorded by the tracker. Each curve is trained on its publisher's own measurement (or is its ground truth curve, if so configured), with the model arguments given and fitted, and the surface is trained on the joint measurements over those curves in publisher order. The single-publisher strategy makes one measurement with the whole budget and refuses more than one publisher without measuring.",
      "all spends, budgets and measurement outcomes for the numbers of publishers within the bounds",
      "How a budget divides over 2p+1 measurements depends on the number of publishers; tests run one or two sizes.",
      [SI + "m3_strategy.py", SI + "single_publisher_strategy.py", SI + "modeling_strategy.py"], [("measurements and budget shares", SI + "m3_strategy.py fit"), ("single publisher", SI + "single_publisher_strategy.py fit")],
      "1, 2, 3, 6 and 12 publishers with arbitrary measurements, 1, 2 and 4 with the real Halo", over=("inputs", "configurations")),
    P("C24", "Test points are spread over what can be spent, and are reproducible",
      "Test points have one spend per publisher, between nothing and that publisher's maximum. Uniformly random and Latin hypercube points number what was asked for within the documented minimum and maximum, the latter with exactly one point in each slice of each publisher's spend, and a grid has every combination of evenly spaced interior spends once. The strategy named is the one used, with its arguments, an unknown one is refused, and the points depend on nothing but data set, arguments and the generator given.",
      "all maximum spends, draws and numbers of points within the bounds",
      "Tests count points for one or two sizes; which draw scales which publisher, and dependence on hidden random state, only show across values and histories.",
      [DR + "uniformly_random_test_point_generator.py", DR + "latin_hypercube_random_test_point_generator.py", DR + "grid_test_point_generator.py", DR + "experiment_parameters.py"], [("test point generators", DR + "*_test_point_generator.py test_points"), ("choice by name", DR + "experiment_parameters.py generate_test_points")],
      "up to 12 publishers, 200 arbitrary draws, up to 20000 points asked for", over=("inputs", "histories")),
    P("C25", "Metrics of a trial are the statistics their names say",
      "The summary of a trial has one row with every metric by name, and each metric is the statistic its name says over all test points: means, squares, variances, relative errors at each frequency, quantiles and shuffle distances of the true against the modeled reach. A model without error has no error in any metric, a frequency that was not modeled has no value, and a shuffle distance lies between 0 and 1. A failed trial has the same columns with no values, says that it failed and why.",
      "all true and modeled reaches within the bounds",
      "Tests compute each metric on one or two points, where wrong quantiles, denominators or degrees of freedom coincide.",
      [DR + "test_point_aggregator.py"], [("aggregation", DR + "test_point_aggregator.py aggregate, aggregate_on_exception")],
      "up to 6 test points (40 with few arbitrary), up to 12 frequencies, up to 4 arbitrary reaches at once"),
    P("C26", "A trial's result says what was run and how it did, or that it failed and why",
      "The result of a trial is one row that names the configuration it was run with, the data set, its sizes and the metrics of the modeled against the true reach over every test point drawn for that data set with the seed given; the model is asked at all frequencies and fitted once with the trial's own parameters. A failure at any step gives the same columns without metrics, marked as failed with the reason, and never loses the trial. The single-publisher analysis gives the relative error at every multiple of the spend and frequency, and what is saved is what is returned.",
      "all fitted reaches, budgets, spends, test points and failing steps within the bounds",
      "Tests run a trial or two with a mocked model; mixed-up columns, points or frequencies and failures at other steps need all of them.",
      [DR + "experimental_trial.py", DR + "test_point_aggregator.py"], [("evaluation of a trial", DR + "experimental_trial.py evaluate and its helpers")],
      "1-6 publishers, 2-4 test points, up to 5 arbitrary fitted reaches at once; a failure at every step; the strategy is scripted", over=("inputs", "fault_sequences", "configurations")),
    P("C27", "Finished trials survive crashes, are computed once and do not affect each other",
      "After a crash at any point of running a trial, running it again gives the result it would have had, whatever part of the earlier result was written; a finished result is returned without computing it again, and a file that is not a complete result is replaced by one. The result of a trial does not depend on which other trials were run before it in the same process. Nothing but finished results is left behind.",
      "all crash points (every file operation and every prefix of every file written), two successive crashes, and orders of trials within the bounds",
      "Tests never interrupt a trial, and run one at a time; torn files and shared random state show only after a crash or another order.",
      [DR + "experimental_trial.py", DR + "experimental_design.py", DR + "trial_descriptor.py"], [("saved intermediate results", DR + "experimental_trial.py evaluate")],
      "every prefix of the result's text and every file operation as crash point, one or two crashes, up to 3 trials in any order", over=("crash_points", "histories")),
    P("C28", "An experiment runs every trial on every data set once, however it is run",
      "An experiment's output has one row for every data set and trial configuration, about that data set and with the spends and test points made for it, whether trials run one by one, in parallel or on Beam, in whatever order they finish and however they are bundled; all three give the same rows. Trials with finished results are not run again, a failing trial does not affect others, and the data design is not changed. The command line options reach the experiment as given.",
      "all completion orders and bundlings, subsets of finished trials, failing trials and options within the bounds",
      "Tests run one small design one way; loss or duplication of rows depends on order, bundling and what was finished before.",
      [DR + "experimental_design.py", DR + "experiment_driver.py", DR + "experimental_trial.py"], [("running trials", DR + "experimental_design.py load"), ("driver", DR + "experiment_driver.py execute, main")],
      "up to 6 data sets and 5 configurations; the pool and Beam are stand-ins that run tasks in any order and combine them in any bundles", over=("schedules", "histories", "configurations")),
    P("C29", "A trial's name identifies its configuration, which is what is run",
      "Two trials on a data set share a saved result exactly when strategy, models, their arguments, spends, sketch, budget, replica, frequency and test points are all the same; results are kept apart by data set. The strategy and models run are those named, with the arguments given to each. Adapting a configuration to a data set gives one spend per publisher and the publisher count where it is asked for, keeps the rest, and neither changes the configuration given nor shares its random generator.",
      "all pairs of configurations within the bounds",
      "A field missing from the name makes two trials silently share one result; it takes a pair that differs in just that field.",
      [DR + "trial_descriptor.py", DR + "modeling_strategy_descriptor.py", SI + "system_parameters.py", DR + "experiment_parameters.py"], [("names", "__str__ of the descriptor and its parts"), ("models by name", DR + "modeling_strategy_descriptor.py instantiate_strategy")],
      "any two values of every number in the configuration, all pairs of alternatives in each place, up to 12 publishers", over=("inputs", "configurations")),
    P("C30", "Shipped designs are complete, valid, free of duplicates and reproducible",
      "Each shipped product design has every combination of its factors' levels exactly once, and each sampled design one entry per sample, every factor at the level of the sample's slice; all data sets and trials in a design have different names. Every entry can be carried out: sizes, overlaps, budgets, sketches and spends are in range, universes hold the largest publisher, and the generators, models and test points named can be made for the data sets. The same seed gives the same design.",
      "all samples of any one factor at chosen rows, all factors, and the seeds and numbers of publishers within the bounds",
      "Tests count the entries of a design; an off-by-one in choosing a level or a duplicate shows only for some samples.",
      [DG + "simple_data_design_example.py", DG + "analysis_example_data_design.py", DG + "single_publisher_design.py", DG + "lhs_data_design_example.py", DG + "m3_data_design.py", DR + "sample_experimental_design.py", DR + "m3_first_round_experimental_design.py", DR + "analysis_example_experimental_design.py", DR + "single_publisher_design.py"],
      [("designs", "generate_data_design_config and generate_experimental_design_config")],
      "the sampler is a stand-in with one arbitrary sample; the product designs have no inputs and are evaluated completely for 1, 2 and 5 publishers", over=("configurations", "inputs")),
#NEXT
]

def N(id, title, statement, reason, files, over=("inputs",)):
    return dict(P(id, title, statement, "all inputs", "Needs all inputs, not samples.", files, [("see files", files[0])], "", over), reason=reason)


NA = [
    N("N01", "Fits come close to the best parameters for any training data",
      "For any training data a model can represent, the fitted model reproduces the data up to the optimizer's tolerance.",
      "decided by iterative floating-point optimizers (scipy, cvxopt) in compiled code that cannot be encoded; C11-C17 decide what the code hands to them and does with any answer they may give",
      [MO + "goerg_model.py", MO + "kinflated_gamma_poisson_model.py", MO + "gamma_poisson_model.py"]),
    N("N02", "Noise has the distribution its privacy guarantee needs",
      "Every noised quantity is distributed so that the release is differentially private with the budget recorded for it.",
      "a statement about distributions, whose samplers are in a package that is absent here; C20 and C21 decide, for arbitrary noise values, which sampler is used with which parameters and budget",
      [SI + "halo_simulator.py"]),
    N("N03", "Parallel runs on real runners give the results of a sequential run",
      "Running trials in real processes or on a distributed Beam runner gives the same rows as running them one by one.",
      "operating-system processes, pickling and the Beam runner (absent here) cannot be encoded; C28 decides it for stand-ins that run tasks in any order and combine them in any bundles",
      [DR + "experimental_design.py"], over=("schedules",)),
    N("N04", "Files reach cloud storage and disks as written",
      "What is written to a cloud bucket or a local disk through the file system wrappers is what is read back, also by other processes.",
      "cloud storage and the kernel's file system are not code of this repository; C13 decides it for histories over a scratch directory and a local stand-in for a bucket, C03, C05 and C27 over an in-memory file system with crashes",
      ["src/filesystem_wrappers/filesystem_cloudpath_wrapper.py", "src/filesystem_wrappers/filesystem_pathlib_wrapper.py"], over=("histories",)),
]
