#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": False}})

prop("P01", "Bin lookup and index arithmetic form one consistent partition",
     "For every axis with contiguous bins and every N-dimensional set of such axes, each value is assigned to the bin whose half-open interval [low, high) contains it, and values below the first or at/above the last edge go to the first or last bin. "
     "Converting between a global bin number and per-axis indices is a bijection onto [0, number of bins) in both directions, and the edge, centre, width, name and axis-lookup queries all describe that same partition.",
     ["inputs", "configurations"], "every axis layout (equal or variable bins, any number of dimensions, any order of axes), every finite value and every bin",
     "The tests probe one or two hand-made axes at a few points; edges, variable binning, more than two dimensions and the agreement between the many accessors are only sampled.",
     ["src/histogram/BinAxis.cpp", "src/histogram/AxisCollection.cpp"],
     [("BinAxis::FindBin", "src/histogram/BinAxis.cpp"), ("AxisCollection::FlattenIndices / UnpackIndices / UnflattenIndex", "src/histogram/AxisCollection.cpp"), ("AxisCollection::FindBin", "src/histogram/AxisCollection.cpp")],
     "return values of the axis and axis-collection queries",
     [{"name": "bin edges / strides", "meaning": "the partition and its linearisation"}])

prop("P02", "Histogram contents always equal the record of what was put in",
     "After any sequence of fills (by vector, by name, or by scalar, with any weights), per-bin writes, scalings, normalisations, paddings, emptyings and bin-wise additions, multiplications and divisions, every bin content, the integral, the bounded integral, and the means and variances equal those of a plain record of the same operations. "
     "No operation changes a bin other than the ones it addresses, and operands other than the target are never modified.",
     ["inputs", "histories"], "every history of histogram operations on every binning, including under/overflow values and weights of either sign",
     "The tests check a few single operations with fixed numbers; conservation over arbitrary operation sequences and binnings is not exercised.",
     ["src/histogram/Histogram.cpp", "src/dist/BinnedED.cpp"],
     [("Histogram::Fill / Add / Multiply / Divide / Normalise", "src/histogram/Histogram.cpp"), ("BinnedED forwarding", "src/dist/BinnedED.cpp")],
     "bin contents and integrals after each operation")

prop("P03", "Projections and slices keep exactly the right bins",
     "Projecting a histogram or binned distribution onto any subset of its axes in any order gives, in each new bin, the sum of all old bins with those indices, so the total is conserved and repeated projections agree with a direct one. "
     "Slicing at fixed bins of any proper subset of axes gives exactly the contents at those indices with the remaining axes unchanged, and the source is never modified. "
     "The one- and two-dimensional projection sets built by the histogram tools are exactly these projections of what was filled.",
     ["inputs", "configurations"], "every dimensionality, axis subset, axis order and fixed-bin choice",
     "Tests project one small Gaussian and slice one 3-D histogram; order of axes and higher dimensions are not reached.",
     ["src/histogram/Histogram.cpp", "src/histogram/HistTools.cpp", "src/histogram/HistTools.hpp", "src/dist/BinnedED.cpp"],
     [("Histogram::Marginalise", "src/histogram/Histogram.cpp"), ("Histogram::GetSlice", "src/histogram/Histogram.cpp"), ("HistTools::MakeAllHists / FillAllHists", "src/histogram/HistTools.hpp")],
     "axes and contents of the projected or sliced object")

prop("P04", "Invalid requests are refused with an error and change nothing",
     "Any request outside an object's range - a bin, dimension, axis name, observable, entry, component, parameter, matrix element or vector of the wrong length that does not exist - is refused with an exception (the library's own or std::out_of_range). "
     "It never reads or writes memory outside the object, never returns a made-up value, and leaves the object as it was.",
     ["inputs", "histories"], "every public accessor and mutator taking an index, name or vector, with every out-of-range argument including the first one past the end",
     "Tests check a few 'throws' cases far outside the range; the first index past the end and memory effects are invisible without instrumentation.",
     ["src/histogram/Histogram.cpp", "src/histogram/AxisCollection.cpp", "src/histogram/BinAxis.cpp", "src/data/Event.cpp", "src/data/OXSXDataSet.cpp", "src/dist/BinnedED.cpp", "src/core/DenseMatrix.cpp", "src/core/SparseMatrix.cpp", "src/fitutil", "src/core/Exceptions.h"],
     [("range checks", "src/histogram/Histogram.cpp"), ("range checks", "src/histogram/AxisCollection.cpp"), ("Event accessors", "src/data/Event.cpp")],
     "exception type, object state before/after, AddressSanitizer")

prop("P05", "Events and data sets return exactly the stored values under the right names",
     "Every entry added to a data set is returned by index with the same values, and every observable read by name gives the value stored at that name's position, in any order or subset of names requested. "
     "Appending or concatenating data sets preserves all entries of both in order and leaves the operands untouched, and the results stay valid after the operands are destroyed.",
     ["inputs", "histories"], "every event content, list of observable names, selection of names and history of appends, copies, concatenations and destructions",
     "Tests read back a couple of observables; ownership after destruction, copies and self-concatenation are not run.",
     ["src/data/Event.cpp", "src/data/ObsSet.cpp", "src/data/OXSXDataSet.cpp", "src/data/LazyOXSXDataSet.cpp"],
     [("Event::ToObsSet / GetDatum / SetDatum", "src/data/Event.cpp"), ("OXSXDataSet::operator+ / AddEntry / GetEntry", "src/data/OXSXDataSet.cpp")],
     "values returned through the data-set and event interface")

prop("P06", "Cuts select exactly the events they describe, with complete accounting",
     "An event passes a collection of cuts if and only if every box, boolean and line cut it holds is satisfied by the named observable, whatever order cuts were added or copied in. "
     "The cut log's per-cut counts, percentages, remainders and total always account for every logged event exactly once, attributing each rejected event to the first cut it failed.",
     ["inputs", "histories"], "every list of cuts, event stream and interleaving of logging with result calculation",
     "Tests apply each cut to two or three events; collection order, boundary values and accounting over long streams are not covered.",
     ["src/cut/BoxCut.cpp", "src/cut/BoolCut.cpp", "src/cut/LineCut.cpp", "src/cut/CutCollection.cpp", "src/cut/CutLog.cpp"],
     [("CutCollection::PassesCuts", "src/cut/CutCollection.cpp"), ("CutLog::LogCut / CalculateMeta", "src/cut/CutLog.cpp")],
     "pass/fail per event and the log's counters")

prop("P07", "Filling a distribution uses every data-set entry exactly once",
     "When a distribution is filled from a data set, each of the requested entries is transformed by the given event systematics in their order, tested against the cuts, and if it passes contributes exactly one weighted count to the bin of its observables; all other entries contribute nothing. "
     "The distribution's total therefore equals the weighted number of passing entries and the cut log's total equals the number of entries processed.",
     ["inputs", "configurations"], "every data set, binning, observable choice, cut collection, event-systematic chain, weighting scheme and entry limit",
     "No test drives the filler with cuts, systematics and weights together.",
     ["src/dist/DistFiller.cpp", "src/fitutil/EventSystematicManager.cpp", "src/dist/BinnedED.cpp"],
     [("DistFiller::FillDist", "src/dist/DistFiller.cpp"), ("EventSystematicManager::ApplySystematics", "src/fitutil/EventSystematicManager.cpp"), ("BinnedED::Fill", "src/dist/BinnedED.cpp")],
     "distribution contents and cut log after filling")

prop("P08", "Event systematics change only their output observable, by their formula",
     "Applying an event scale, shift or reconvolution returns an event in which only the declared output observable differs, with the value given by the systematic's formula at its current parameter, and the input event is untouched. "
     "A random smearing (convolution) displaces it by a draw of its kernel, a fresh one for every event. "
     "A chain of event systematics equals applying each in the order it was added, whatever observable positions are involved.",
     ["inputs", "configurations"], "every event, observable choice, parameter value and chain",
     "Tests apply each systematic once to one two-observable event.",
     ["src/eventSystematic/EventScale.cpp", "src/eventSystematic/EventShift.cpp", "src/eventSystematic/EventReconvolution.cpp", "src/fitutil/EventSystematicManager.cpp"],
     [("EventScale/Shift/Reconvolution::operator()", "src/eventSystematic"), ("EventSystematicManager", "src/fitutil/EventSystematicManager.cpp")],
     "events before and after")

prop("P09", "Scale, shift and scale-function responses equal the exact bin overlap",
     "For any axes and any parameter value, the response of a scale, shift or scale-function systematic redistributes each bin's content over the bins its transformed interval overlaps in proportion to the overlap, along the transformed observable only. "
     "No bin gains negative content, no content is created, content is lost only where the transformed interval leaves the axis range, and with the identity parameter the distribution is unchanged.",
     ["inputs", "configurations"], "every axis set, transformed observable, observable order and parameter value, including ones that push bins outside the range",
     "Tests check one equal-binned 1-D or 2-D case at one parameter value.",
     ["src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp"],
     [("Scale::Construct", "src/systematic/Scale.cpp"), ("Shift::Construct", "src/systematic/Shift.cpp"), ("ScaleFunction::Construct", "src/systematic/ScaleFunction.cpp")],
     "response matrix elements and transformed distribution")

prop("P10", "Convolution responses equal the kernel's probability in each bin",
     "For any axes and any list of transformed observables in any order, the response element from one bin to another is the kernel's integral over the destination bin given the source bin's centre in the transformed observables, and zero unless the untransformed indices agree. "
     "This holds for plain and conditional kernels and after any kernel parameter change.",
     ["inputs", "configurations"], "every axis set, subset and order of convolved observables, kernel type and parameter value",
     "The convolution test needs ROOT and checks one fixed binning; permuted and partial observable sets are not reached.",
     ["src/systematic/Convolution.cpp", "src/function/JumpPDF.cpp"],
     [("Convolution::Construct / CacheCompatibleBins / ConstructSubmatrix", "src/systematic/Convolution.cpp"), ("JumpPDF::Integral", "src/function/JumpPDF.cpp")],
     "response matrix elements")

prop("P11", "Shape and renormalisation systematics scale each bin by their own factor",
     "A shape systematic multiplies every bin by its function evaluated at that bin's centre in the transformed observables with the current parameters, and nothing moves between bins. "
     "A renormalisation systematic multiplies all bins by the same current factor.",
     ["inputs", "configurations"], "every axis set, observable subset/order, shape function and parameter value",
     "The shape test needs ROOT and uses one function and binning.",
     ["src/systematic/Shape.cpp", "src/systematic/Renorm.cpp"],
     [("Shape::Construct", "src/systematic/Shape.cpp"), ("Renorm::Construct", "src/systematic/Renorm.cpp")],
     "response matrix and transformed contents")

prop("P12", "A systematic's response always reflects its current configuration",
     "Whenever a systematic is (re)constructed, its response depends only on its current parameters, axes and observables, never on how it was configured, constructed or applied earlier. "
     "Applying it to a distribution gives exactly the matrix-vector product with that response (normalised when no normalisation is asked for), keeps the distribution's axes, observables and name usable, and never alters the input distribution.",
     ["histories", "configurations"], "every history of parameter changes, axis and observable changes, constructions and applications",
     "Tests configure each systematic once and never reuse it with other axes.",
     ["src/systematic/Systematic.cpp", "src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Convolution.cpp", "src/systematic/Shape.cpp"],
     [("Systematic::operator()", "src/systematic/Systematic.cpp"), ("cached bin mappings", "src/systematic")],
     "response of a reused object against a freshly built one",
     [{"name": "cached compatible-bin maps", "meaning": "derived from axes and observables at first use"}])

prop("P13", "Systematic groups are applied completely, once and in order",
     "For each distribution the systematic manager applies every systematic of the global group and of the groups registered for that distribution exactly once, global group first and then in the order given, each group's members in the order added. "
     "A distribution registered without groups receives only the global group, one never registered is left as it is, other distributions' groups never affect it, and the returned normalisation of each distribution is its integral after the response. When a distribution's groups are registered with the global group among them, the given order is used.",
     ["configurations", "histories"], "every assignment of systematics to groups and of groups to distributions, and every parameter value",
     "Tests use commuting or single systematics, so order and exactly-once application are not observable there.",
     ["src/fitutil/SystematicManager.cpp"],
     [("SystematicManager::Construct / DistortEDs", "src/fitutil/SystematicManager.cpp"), ("SystematicManager::AddDist", "src/fitutil/SystematicManager.cpp")],
     "distorted distributions against products of individual responses")

prop("P14", "Shrinking to the fit region removes exactly the buffer bins",
     "Shrinking an axis, axis collection or distribution removes exactly the declared number of bins at each end of each named axis, keeps every remaining edge and axis name, and maps each kept bin's content to the bin with the same edges. "
     "With overflow enabled the removed content is added to the nearest edge bin so the total is conserved; without it the removed content is dropped and nothing else changes.",
     ["inputs", "configurations"], "every axis set, buffer choice (including zero and asymmetric buffers) and content",
     "Tests shrink one or two fixed shapes; asymmetric N-dimensional buffers with and without overflow are not swept.",
     ["src/fitutil/BinnedEDShrinker.cpp"],
     [("BinnedEDShrinker::ShrinkAxis / ShrinkAxes / ShrinkDist", "src/fitutil/BinnedEDShrinker.cpp")],
     "axes and contents after shrinking")

prop("P15", "Distribution managers report the normalisation-weighted sum of their pdfs",
     "The probability of an event or bin given by a distribution manager is the sum over its distributions of current normalisation times that distribution's probability, after any sequence of adding distributions, setting normalisations or parameters, renaming parameters, shrinking, or applying systematics. "
     "Exactly the fittable normalisations are exposed as parameters, and setting a parameter changes that normalisation and no other. A directly fitted normalisation stays as set whatever systematics and shrinking remove, an indirectly fitted one is the expectation before them and its reported normalisation is reduced by what they remove, and a distribution without a fittable one holds its normalisation itself.",
     ["histories", "configurations"], "every set of distributions, normalisation-fitting mode, parameter history and manager type",
     "The manager tests need ROOT here and check a single two-pdf configuration.",
     ["src/fitutil/BinnedEDManager.cpp", "src/fitutil/EDManager.cpp"],
     [("BinnedEDManager::BinProbability / Probability / ReassertNorms", "src/fitutil/BinnedEDManager.cpp"), ("EDManager::Probability", "src/fitutil/EDManager.cpp")],
     "probabilities, normalisations and parameter dictionaries",
     [{"name": "normalisations", "meaning": "expected counts per distribution"}])

prop("P16", "The binned likelihood equals its definition",
     "Evaluating the binned negative log likelihood returns the sum of all expected counts minus the sum over fit bins of data times log of expected counts, plus the constraint penalties, where the expected counts are the distributions, normalised whenever their normalisation is fitted directly, after all systematics and after shrinking to the fit region. "
     "It agrees with an independent evaluation for every mixture of systematics, groups, buffers, normalisation modes, constraints and data sources, and with the profiled bin-by-bin Monte Carlo uncertainty correction when that is enabled.",
     ["inputs", "configurations"], "every set of pdfs, data, systematics, groups, buffers, overflow choice, normalisation modes, constraints and parameter values",
     "The likelihood test needs ROOT here and covers a few fixed two-pdf configurations without buffers and systematics together.",
     ["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/fitutil/SystematicManager.cpp", "src/fitutil/BinnedEDShrinker.cpp"],
     [("BinnedNLLH::Evaluate", "src/teststat/BinnedNLLH.cpp"), ("BinnedEDManager::ApplySystematics / ApplyShrink / ReassertNorms", "src/fitutil/BinnedEDManager.cpp")],
     "value returned by the statistic against a straight-line reference evaluation")

prop("P17", "A test statistic is a function of its current parameters only",
     "Evaluating a configured likelihood (binned, or a sum of statistics) twice at the same parameter values gives the same number regardless of how many evaluations at other values, or how many parameter registrations and reads, happened in between. "
     "Setting parameters and reading them back returns what was set, and every exposed parameter influences only its own component.",
     ["histories"], "every history of parameter settings, reads, registrations and evaluations",
     "Tests evaluate once per configuration; stale caches and order effects need histories.",
     ["src/teststat/TestStatistic.cpp", "src/teststat/BinnedNLLH.cpp", "src/teststat/StatisticSum.cpp", "src/core/ComponentManager.cpp"],
     [("TestStatistic::SetParameters / RegisterFitComponents", "src/teststat/TestStatistic.cpp"), ("BinnedNLLH::Evaluate", "src/teststat/BinnedNLLH.cpp")],
     "values along a history against a freshly built statistic")

prop("P18", "A sum of test statistics is the sum of its parts over shared parameters",
     "A statistic sum evaluates to the sum of its components' values, exposes exactly the union of their parameters with shared names appearing once, and setting a parameter sets it in every component that has it and in no other. "
     "This holds for sums built by construction, by the + operator on statistics and sums in any nesting, and by summing a list.",
     ["configurations", "histories"], "every tree of additions, overlap of parameter names and parameter value",
     "Tests add three fixed stand-ins once.",
     ["src/teststat/StatisticSum.cpp"],
     [("StatisticSum::Evaluate / SetParameters / operator+ / Sum", "src/teststat/StatisticSum.cpp")],
     "values and parameters of the sum and its parts")

prop("P19", "The constraint penalty is the sum of each declared constraint's formula",
     "At every parameter point the total constraint penalty equals the sum of the formulas of all constraints currently declared - quadratic, asymmetric, correlated pair, ratio, fractional, shape and interpolated shape - each evaluated with its own parameters and counted once. "
     "Re-declaring a constraint replaces the earlier one, a correlation of one or more in size is refused, as is constraining a parameter both alone and in a pair, and a missing parameter or a point outside an interpolated constraint's bin centres raises an exception. Constraints on other parameters never contribute.",
     ["inputs", "histories", "configurations"], "every set and order of constraint declarations and every parameter point",
     "Tests evaluate each constraint type at a handful of points.",
     ["src/constraint/ConstraintManager.cpp", "src/constraint/QuadraticConstraint.cpp", "src/constraint/BivariateQuadraticConstraint.h", "src/constraint/RatioConstraint.h", "src/constraint/FractionalConstraint.h", "src/constraint/ShapeConstraint.h", "src/constraint/ShapeInterpConstraint.cpp"],
     [("ConstraintManager::Evaluate", "src/constraint/ConstraintManager.cpp"), ("ShapeInterpConstraint::Evaluate", "src/constraint/ShapeInterpConstraint.cpp")],
     "penalty value")

prop("P20", "Every fit component honours the same parameter contract",
     "For every component that exposes parameters, the names, count and dictionary it reports agree; setting a parameter alone or in a dictionary changes exactly that value and reading it back returns it; renaming moves the value to a fresh name and removes the old one. "
     "A dictionary that lacks a component's name, an unknown name to set, read or rename, and a rename onto another parameter's name are refused without changing any value (kernels built on Gaussians instead take from a dictionary the names that are theirs, and share a parameter renamed onto another); names of other components in a dictionary are ignored, and the set of names never changes except by renaming.",
     ["histories", "configurations"], "every component type and every history of sets, gets and renames, including unknown and missing names",
     "Tests check set/get once for some components; refusal, atomicity and rename histories are not covered.",
     ["src/core/ParameterManager.cpp", "src/core/ComponentManager.cpp", "src/systematic", "src/eventSystematic", "src/function", "src/fitutil", "src/dist/SpectralFitDist.cpp"],
     [("FitComponent interface", "src/core/FitComponent.h"), ("ParameterManager", "src/core/ParameterManager.cpp")],
     "parameter dictionaries along a history")

prop("P21", "The component manager routes every parameter to its owner",
     "The component manager reports exactly the union of its components' parameters, gives and sets each one through the component that owns it, and renames reported by components are reflected after registration. "
     "Setting a full dictionary updates every owner, a name shared by several components is one parameter set in all of them, and names nobody owns are ignored. A dictionary that lacks any component's name is refused with a library error and leaves all components as they were; an empty one changes nothing.",
     ["histories", "configurations"], "every set of components, overlap of names, history of sets and clears",
     "Tests use two components and one happy path.",
     ["src/core/ComponentManager.cpp"],
     [("ComponentManager::AddComponent / SetParameters / GetParameters", "src/core/ComponentManager.cpp")],
     "parameters seen by components and by the manager")

prop("P22", "Copies, clones and assignments are independent and leave no memory errors",
     "Copying, cloning or assigning any value object (axes, histograms, matrices, events, data sets, cuts and their logs, functions, distributions, systematics, managers, generators and results) yields an object that behaves identically and shares no state: changing or destroying either never affects the other, including self-assignment and assignment over a differently shaped object. "
     "No history of creating, copying, assigning, using and destroying such objects reads freed or foreign memory, frees twice or leaks.",
     ["histories"], "every copyable type in the library and every history of copy, assign, mutate and destroy",
     "Double frees, dangling references and leaks do not change test outcomes; most types are never copied in tests.",
     ["src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/systematic", "src/cut/CutCollection.cpp", "src/function", "src/optimise/FitResult.cpp", "src/core/ParameterManager.cpp"],
     [("copy constructors / operator= / Clone", "src")],
     "AddressSanitizer, allocation balance, and behaviour comparison")

prop("P23", "Dense and sparse matrices compute the exact linear algebra they claim",
     "Setting, reading, multiplying by vectors or matrices, identity, zero and symmetric construction of dense and sparse matrices agree with a plain array computation, for any shape and any order of element insertion. "
     "Operands are never modified and shapes that do not fit are refused.",
     ["inputs", "histories"], "every shape, sparsity pattern, insertion order and product",
     "No unit test covers the matrices directly.",
     ["src/core/DenseMatrix.cpp", "src/core/SparseMatrix.cpp"],
     [("SparseMatrix::operator() / operator*", "src/core/SparseMatrix.cpp"), ("DenseMatrix", "src/core/DenseMatrix.cpp")],
     "elements and products")

prop("P24", "Grid search returns the best point of the complete grid",
     "A grid search evaluates every point of the grid spanned by minima, maxima and step sizes, the lower corner included, and none outside it, each exactly once. "
     "It reports the best value found (points where the statistic has no value aside) and a point where that value is attained, whether minimising or maximising, in any number of parameters; parameters that do not match, inverted ranges and steps that are not positive are refused.",
     ["inputs", "configurations"], "every number of parameters, grid shape, objective function and search direction",
     "There is no test of the grid search.",
     ["src/optimise/GridSearch.cpp"],
     [("GridSearch::Optimise / Increment", "src/optimise/GridSearch.cpp")],
     "the sequence of evaluated points and the reported optimum")

prop("P25", "Hamiltonian dynamics is reversible, respects walls and uses true gradients",
     "The leap-frog integrator is time-reversible and conserves the energy of a quadratic potential to second order in the step, for any masses; with hard walls it keeps every position inside the bounds and flips exactly the offending momentum. "
     "The gradient is the central difference of the statistic, the energy wrapper is its negative, and the soft boundary adds a penalty that is negligible inside and grows linearly outside.",
     ["inputs", "configurations"], "every dimension, mass assignment, start point, step size, step count and box",
     "There is no test of the integrator.",
     ["src/optimise/LeapFrog.hpp", "src/optimise/LeapFrog.cpp", "src/optimise/Gradient.hpp", "src/optimise/HMCEnergy.hpp", "src/optimise/SigmoidBoundary.hpp", "src/optimise/HamiltonianSampler.hpp"],
     [("LeapFrog::Hamiltonian", "src/optimise/LeapFrog.hpp"), ("LeapFrog::FirstIntersectionTime", "src/optimise/LeapFrog.cpp")],
     "trajectories against an independent integrator")

prop("P26", "The Markov chain accounts for every step and stays in bounds",
     "A Markov-chain run makes exactly the requested number of steps, never moves outside the declared ranges, accepts uphill moves always and downhill moves with the Metropolis probability, and stays put when it rejects. "
     "After burn-in and thinning each retained step is filled once into the histogram or all projections, the acceptance rate is accepted over total steps, and the reported best fit is the best point the chain visited.",
     ["inputs", "schedules", "configurations"], "every statistic, range, starting point, sampler, random sequence, burn-in, thinning and output option",
     "The sampler needs ROOT and is not tested.",
     ["src/optimise/MCMC.cpp", "src/optimise/MCMCSamples.cpp", "src/optimise/MetropolisSampler.cpp", "src/optimise/AutoCorrelationCalc.cpp"],
     [("MCMC::Optimise / StepAccepted", "src/optimise/MCMC.cpp"), ("MCMCSamples::Fill", "src/optimise/MCMCSamples.cpp")],
     "sequence of evaluated points, chain tree, histograms and fit result")

prop("P27", "Autocorrelation and fit results report what was recorded",
     "The autocorrelation calculator's mean and variance are those of the values in its window, and its coefficients start at one and are, lag by lag, the summed products of the newest value's and the lagged value's distances from the window's mean over the summed squares of the newest's, for the values filled since the last clear. "
     "A fit result returns exactly the best fit, extreme value, statistics space, projections and covariance that were set, and its text and file output list every parameter with its value at the chosen precision; a file that cannot be written is an error.",
     ["inputs", "histories"], "every filled sequence and every sequence of setter calls",
     "Neither class has a test.",
     ["src/optimise/AutoCorrelationCalc.cpp", "src/optimise/FitResult.cpp"],
     [("AutoCorrelationCalc::Fill / Get / Mean / Var", "src/optimise/AutoCorrelationCalc.cpp"), ("FitResult::AsString / SaveAs", "src/optimise/FitResult.cpp")],
     "returned statistics and printed text")

prop("P28", "Configuration files load into the exact typed values they contain",
     "For every well-formed configuration file, the sections listed are those in the file and each field loads as exactly its trimmed text or number, or as its comma-separated elements in order for containers. "
     "Missing files, sections and fields, use before opening, duplicate or malformed lines and unconvertible values are reported as exceptions and never crash or alter the target.",
     ["inputs"], "every configuration text and target type",
     "There is no test of the configuration loader.",
     ["src/config/ConfigLoader.cpp", "src/config/ConfigLoader.hpp", "src/config/ini.hpp"],
     [("ConfigLoader::Open / Load / ListSections", "src/config/ConfigLoader.cpp"), ("INI::Parser", "src/config/ini.hpp")],
     "loaded values and exceptions")

prop("P29", "Saved data sets and histograms load back identical",
     "Saving a data set or histogram and loading it back gives the same entries, observable names, axis edges, axis names and contents, bit for bit for the HDF5 format, for any size. "
     "Unsupported extensions and unreadable files raise an I/O error.",
     ["inputs", "configurations"], "every data set and histogram, including empty ones, long names, many entries and variable binning",
     "The I/O tests need ROOT here and save one small object.",
     ["src/data/IO.cpp", "src/data/LazyOXSXDataSet.cpp", "src/data/ROOTNtuple.cpp", "src/data/ROOTTree.cpp"],
     [("IO::SaveDataSetH5 / LoadDataSet", "src/data/IO.cpp"), ("IO::SaveHistogramH5 / LoadHistogram", "src/data/IO.cpp")],
     "loaded objects compared with saved ones")

prop("P30", "Generated data sets draw the right events the right number of times",
     "A generated data set takes from each source exactly the expected (rounded or Poisson) number of draws, reports those counts, and contains only source events that pass the cuts, with their values and names intact. "
     "Without replacement no event is drawn twice until reset and drawn plus remaining events are exactly the source; with replacement every event can be drawn; asking for more events than remain is refused.",
     ["inputs", "histories", "schedules"], "every set of sources, rates, flags, cut collection, random sequence and sequence of generations",
     "The generator test needs ROOT here and checks totals only.",
     ["src/data/DataSetGenerator.cpp"],
     [("DataSetGenerator::RandomDrawsNoReplacement / SequentialDrawsNoReplacement / AllRemainingEvents", "src/data/DataSetGenerator.cpp")],
     "unique event identifiers in generated data sets",
     [{"name": "pool of undrawn events", "meaning": "permutation and effective end per source"}])

prop("P31", "Random and generated distributions follow their source and conserve counts",
     "A distribution generated from pdfs and rates has the source binning, non-negative integer contents only where some source pdf is non-zero, and a total equal to the expected or Poisson-drawn number of events. "
     "Uniform, integer and accept-reject draws stay in their stated ranges and follow the stated density for every stream of underlying random numbers.",
     ["inputs", "schedules"], "every set of pdfs and rates and every random sequence",
     "Needs ROOT here; the test checks names and totals.",
     ["src/dist/BinnedEDGenerator.cpp", "src/rand/Rand.cpp"],
     [("BinnedEDGenerator::RandomBin", "src/dist/BinnedEDGenerator.cpp"), ("Rand::VonNeumannSample / Shoot", "src/rand/Rand.cpp")],
     "generated contents and draws under scripted random numbers")

prop("P32", "Counting experiments report efficiencies and expectations that match the events",
     "In a counting experiment the observed count is the number of data events passing all cuts after all systematics, each background expectation is its rate times its passing fraction with the matching statistical error, and the signal efficiency is its passing fraction. "
     "Totals, combined errors and the printed summary agree with those numbers.",
     ["inputs", "configurations"], "every data, background and signal sample, cut list, systematic chain and rate",
     "There is no test of the counting experiment.",
     ["src/count/CountingExperiment.cpp", "src/count/CountingResult.cpp"],
     [("CountingExperiment::CountData / CountBackgrounds / CountSignal", "src/count/CountingExperiment.cpp"), ("CountingResult", "src/count/CountingResult.cpp")],
     "numbers in the counting result")

prop("P33", "Bayesian limits enclose exactly the requested credibility",
     "The upper bound computed from a posterior histogram is the point below which the linearly interpolated posterior holds the requested probability, for any binning and any level up to one. "
     "The upper bound of a counting experiment holds the requested probability of the truncated Poisson posterior to within the stated tolerance, and impossible requests are refused.",
     ["inputs"], "every posterior histogram, expected and observed count, and credibility",
     "There is no test of the limit calculation.",
     ["src/interval/BayesIntervalCalc.cpp"],
     [("BayesIntervalCalc::UpperBound", "src/interval/BayesIntervalCalc.cpp")],
     "returned limits against cumulative sums")

prop("P34", "Analytic functions and distributions are consistent with their integrals",
     "Every analytic probability function agrees with its own integral over any box, is normalised, and conditional forms are that function displaced by, or with parameters driven by, the conditioning point. "
     "A distribution built on one evaluates it on the declared observables of the event in the declared order, and a product of distributions evaluates to the product of its factors on their own observables.",
     ["inputs", "configurations"], "every dimension, parameter value, box, conditioning point, observable order and nesting of products",
     "Those tests need ROOT here and evaluate single points.",
     ["src/function/Gaussian.cpp", "src/function/JumpPDF.cpp", "src/function/Heaviside.cpp", "src/function/VaryingCDF.cpp", "src/function/SquareRootScale.cpp", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp"],
     [("AnalyticED::Probability", "src/dist/AnalyticED.cpp"), ("CompositeED::Probability", "src/dist/CompositeED.cpp"), ("JumpPDF", "src/function/JumpPDF.cpp")],
     "probabilities and integrals")

prop("P35", "Binned probabilities depend only on the event's named observables",
     "The probability a binned distribution gives an event is the content of the bin containing the event's values of the distribution's own observables, divided by the distribution's integral, whatever order or extra observables the event carries, and projections and copies keep that link. "
     "A distribution whose bins are fit parameters behaves identically, with each parameter being exactly one bin's content.",
     ["inputs", "histories"], "every binning, observable list, event layout, and bin-parameter history",
     "Tests check one distribution with observables in axis order.",
     ["src/dist/BinnedED.cpp", "src/dist/SpectralFitDist.cpp"],
     [("BinnedED::Probability / Marginalise / SetObservables", "src/dist/BinnedED.cpp"), ("SpectralFitDist parameters", "src/dist/SpectralFitDist.cpp")],
     "probabilities, contents and parameters")

prop("P36", "Conversions to and from external histograms preserve binning and contents",
     "Converting a binned distribution or histogram to an external one- to three-dimensional histogram puts each bin's content in the bin with the same edges, divided by its width only when asked, and converting back gives the same edges and contents. "
     "Building a histogram from an analytic function puts the function's integral over each bin in that bin.",
     ["inputs", "configurations"], "every binning (equal or variable), content, and function in one to three dimensions",
     "Those tests need ROOT and check equal binning.",
     ["src/dist/DistTools.cpp"],
     [("DistTools::ToTH1D/ToTH2D/ToTH3D/ToHist", "src/dist/DistTools.cpp")],
     "converted histograms")

prop("P37", "Minimiser configuration reaches the minimiser under the right parameter names",
     "When fitting with the gradient minimiser, each parameter's initial value, error, limits and fixed flag reach the minimiser for that parameter and no other, and so do the method, call limit, tolerance, strategy and contour edge; every trial point is set on the statistic under the right names, and the sign is flipped only when maximising. "
     "The fit result reports the minimiser's final values under the right names, the extreme value with the right sign, and the covariance in the minimiser's order.",
     ["configurations", "inputs"], "every set of parameter names, partial limits, fixed parameters, method and direction",
     "Needs ROOT here; the test fits one function.",
     ["src/optimise/Minuit.cpp", "src/optimise/MinuitFCN.cpp"],
     [("Minuit::Initialise / Optimise", "src/optimise/Minuit.cpp"), ("MinuitFCN::operator()", "src/optimise/MinuitFCN.cpp")],
     "calls recorded by a stand-in minimiser and the statistic")

prop("P38", "A whole analysis gives the same answer however it is put together",
     "For a binned analysis (components, systematics in groups, buffers, constraints, cuts and data) the likelihood at corresponding parameter values, and the best point of a grid search over them, do not depend on the order in which components, constraints or observables are given, on the names chosen, on the unit of an observable, on how the same systematics in the same order are distributed over groups, or on whether the data come as events (in any order, in one set or joined from several) or as their binned distribution. "
     "Giving a component as two parts that add up to it, adding an observable that is marginalised away, or adding a systematic at the value at which it does nothing changes nothing; and the likelihoods of disjoint parts of the fit region add up to that of the whole.",
     ["inputs", "configurations"], "every analysis and every equivalent rearrangement of it",
     "Tests build each analysis once, in one way.",
     ["src/teststat/BinnedNLLH.cpp", "src/teststat/StatisticSum.cpp", "src/fitutil/SystematicManager.cpp", "src/fitutil/BinnedEDManager.cpp", "src/core/ComponentManager.cpp"],
     [("BinnedNLLH::Evaluate / RegisterFitComponents", "src/teststat/BinnedNLLH.cpp"), ("SystematicManager::DistortEDs", "src/fitutil/SystematicManager.cpp")],
     "pairs of likelihood values and of best-fit points")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
