"""Single source of /verif/properties.jsonl and of the MANIFEST entries.

Run: python3 tools/props.py   (rewrites properties.jsonl and MANIFEST.json)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None,
         note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, tech=tech,
                  note=note, na=na, state=state or [],
                  observe=observe or []))


TS = "echidna/fit/test_statistic.py"
SP = "echidna/core/spectra.py"
PA = "echidna/core/parameter.py"
CF = "echidna/core/config.py"
SM = "echidna/core/smear.py"
SC = "echidna/core/scale.py"
SH = "echidna/core/shift.py"
FI = "echidna/fit/fit.py"
MI = "echidna/fit/minimise.py"
FR = "echidna/fit/fit_results.py"
LI = "echidna/limit/limit.py"
ST = "echidna/output/store.py"
DE = "echidna/calc/decay.py"
DX = "echidna/core/dsextract.py"
FS = "echidna/core/fill_spectrum.py"
YL = "echidna/util/yaml_loader.py"

VFLOW = "gated value-flow analysis (GVN over inlined callees) against a " \
        "reference formula"
STD = ("Static: decides the stated clauses for every input by comparing the "
       "algebraic normal form of what the source computes with a reference "
       "written from the documentation. Trusts the analyser's model of "
       "Python and NumPy; floating-point rounding is out of scope. ")

prop("C01", "Test statistics equal their published per-bin formulas",
     "For every pair of observed and expected histograms, the value each test "
     "statistic attributes to a bin is the published one: Baker-Cousins "
     "Poisson chi-squared 2(e-o+o ln(o/e)), its log-likelihood form without "
     "the factor 2, Neyman (e-o)^2/o, Pearson (o-e)^2/e, extended likelihood "
     "e - o ln e; contents below the documented limit-of-zero (1e-34) are "
     "replaced by that limit so an empty bin never yields a division by zero "
     "or an undefined logarithm. The upward-fluctuation variant counts "
     "exactly the bins whose observed content does not exceed the expected.",
     ["inputs"], "all observed/expected arrays, all bins, both modes",
     "The stable tests evaluate one pair of five-bin Gaussian-like arrays per "
     "statistic; zero bins, o>e bins and the branch structure are unsampled.",
     [TS], [("per-bin branches of each statistic class", TS)],
     VFLOW, STD + "Each statistic class is analysed in both modes.")

prop("C02", "A test statistic's total is the sum of its per-bin values",
     "For every statistic and every pair of equal-length one-dimensional "
     "histograms, the single value returned in total mode equals the sum of "
     "the array returned in per-bin mode, and the mode alone decides which of "
     "the two is returned. Arrays that are not one-dimensional or differ in "
     "length are rejected before anything is computed.",
     ["inputs"], "all array pairs, both modes of every statistic",
     "Tests call each mode on one array pair; the two code paths are written "
     "separately and can drift apart on unsampled bins.",
     [TS], [("total and per-bin code paths of each class", TS),
            ("shape checks in the public entry point", TS)],
     "sibling cross-check by value-flow normal forms; guard dominance",
     STD)

prop("C03", "Evaluating a statistic or penalty never changes its inputs",
     "Computing a test statistic, in either mode, leaves the caller's "
     "observed and expected arrays exactly as they were, so evaluating it "
     "again on the same arrays gives the same value.",
     ["inputs", "histories"], "all arrays, any sequence of evaluations",
     "Tests never look at the input arrays after a call, and contain no bin "
     "below the limit-of-zero threshold, the only case that could be "
     "modified.",
     [TS, FI], [("floating-point working copies made before clipping", TS)],
     "interprocedural effect and escape analysis of array parameters",
     "Static: no write reaches an object that may alias a caller's array, on "
     "any path. Trusts the alias model (numpy views through indexing and "
     "ravel are treated as aliases; astype/array/copy as fresh).")

prop("C04", "Penalty terms are the squared pull from the prior",
     "The penalty for a constrained parameter is ((value - prior)/sigma)^2 "
     "(one half of it for the Baker-Cousins log-likelihood ratio), so it is "
     "zero at the prior, symmetric about it and depends on nothing else. A "
     "fit parameter with no sigma contributes no penalty at all, and every "
     "constrained parameter of the fit contributes its penalty to the "
     "statistic exactly once.",
     ["inputs", "configurations"], "all values, priors, sigmas and fit "
     "configurations",
     "The stable tests check one numeric penalty; unconstrained parameters "
     "and several constrained parameters together are never exercised.",
     [TS, MI, FI, LI], [("penalty methods of the statistics", TS),
                        ("accumulation over fit parameters", MI)],
     VFLOW + "; accumulation-shape check of the fit loops", STD)

prop("C05", "Merging spectra adds everything or rejects and changes nothing",
     "Adding one spectrum to another adds its bin contents, raw event count "
     "and represented decays to the receiver, and never changes the added "
     "spectrum. Spectra that differ in array shape, in the set of dimensions, "
     "or in the lower bound, upper bound or bin count of any dimension are "
     "rejected with the receiver unchanged.",
     ["inputs", "histories"], "all pairs of spectra, any order of additions",
     "No stable test touches spectra; the legacy tests add a few hand-made "
     "spectra and sample one mismatch at a time.",
     [SP], [("compatibility checks before accumulation", SP)],
     "value-flow effects plus guard-dominance (check-before-write)", STD)

prop("C06", "Scaling rescales every bin and records the new number of decays",
     "Scaling a spectrum to N decays multiplies every bin by N divided by the "
     "number of decays it represented before and makes it represent N as a "
     "float; nothing else about the spectrum changes. Any sequence of "
     "scalings is therefore equivalent to the last one alone.",
     ["inputs", "histories"], "all spectra, all N, any sequence of scalings",
     "Legacy tests scale one spectrum once; compositions and non-float counts "
     "are unsampled.",
     [SP], [("data and decay count updated together", SP)], VFLOW, STD)

prop("C07", "Shrinking keeps the data and the axis description in step",
     "Whenever a spectrum is shrunk, cut, or shrunk to a region of interest, "
     "each axis's bounds and bin count and the data array are updated "
     "together so that they describe the same bins, and requests naming an "
     "unknown dimension, a bad suffix or bounds outside the current ones are "
     "rejected with the spectrum unchanged. Cutting also rescales the "
     "represented decays by the fraction of content kept, plain shrinking "
     "does not; shrinking to a region of interest records the resulting "
     "bounds and the fraction kept.",
     ["inputs", "histories"], "all spectra and all shrink requests, any "
     "sequence of them",
     "Legacy tests shrink one spectrum to a few aligned bounds; unaligned "
     "bounds, several dimensions and repeated cuts are not covered.",
     [SP, PA], [("validation loop, slice bounds, bookkeeping update", SP)],
     "value-flow agreement of slice bounds with axis updates; guard dominance",
     STD + "Decided: agreement of data slices with axis updates, validation "
     "before mutation, decay bookkeeping. Not decided: the rounding "
     "heuristic's numeric choices.")

prop("C08", "Filling puts the weight into exactly the enclosing bin",
     "Filling adds the given weight (default one) to exactly one bin, the one "
     "whose half-open interval [low, high) contains the value along every "
     "dimension of the spectrum. Unknown or missing dimensions and values "
     "outside [low, high) are rejected before anything is changed.",
     ["inputs"], "all values, weights and axis definitions",
     "Legacy tests fill random in-range values only; edges, out-of-range "
     "values and missing dimensions are sampled once or not at all.",
     [SP], [("membership and range checks, bin index computation", SP)],
     VFLOW + "; guard dominance", STD)

prop("C09", "Rebinning preserves content and rejects before changing",
     "Rebinning by integer factors sums each group of adjacent bins, so the "
     "total content and every axis's bounds are unchanged and each axis's "
     "recorded bin count matches the data. A request of the wrong rank or "
     "whose new bin counts do not divide the old ones is rejected with the "
     "spectrum entirely unchanged.",
     ["inputs"], "all spectra of rank up to four and all bin requests",
     "One legacy test rebins one shape; a failing later dimension is never "
     "tried.",
     [SP], [("validation, bin-count update, grouped summation", SP)],
     "axis-label inference for each rank; guard dominance", STD)

prop("C10", "Projections keep exactly the requested axes",
     "Projecting a spectrum onto one, two or several of its dimensions sums "
     "over every other dimension and over none of the requested ones, for "
     "spectra of any rank; total content is preserved and the spectrum "
     "itself is not modified.",
     ["inputs", "configurations"], "all ranks up to five, all subsets of axes",
     "Legacy tests project a three-dimensional spectrum onto a few axes; "
     "axis renumbering after each sum is rank-dependent.",
     [SP, MI], [("axis summation loops", SP)],
     "axis-label inference (abstract interpretation of array shapes); effect "
     "analysis", STD + "Ranks up to five are enumerated.")

prop("C11", "Bin geometry is one consistent uniform partition",
     "For any axis, the bins partition [low, high) uniformly: the width is "
     "(high-low)/bins, the boundaries are low + i*width for i = 0..bins, the "
     "centre of bin i is low + (i+1/2)*width, and looking up a value x in "
     "range gives the bin floor((x-low)/width). Values below low or above "
     "high, and bins outside 0..bins-1, are rejected rather than mapped to a "
     "bin.",
     ["inputs"], "all axis bounds, bin counts, values and bin indices",
     "The stable tests never touch axes; legacy tests use one axis.",
     [PA], [("bin, centre, boundary, width computations", PA)], VFLOW, STD)

prop("C12", "A fit parameter's grid is complete and never stale",
     "A fit parameter's values are the evenly (or, if requested, "
     "logarithmically) spaced points from its lower to its upper bound, both "
     "included, as many as its bin count; in the prior-deviation mode they "
     "are spaced logarithmically about the prior. After any change of the "
     "bounds, bin count or scale mode the next use reflects the change.",
     ["inputs", "histories"], "all parameter definitions and any sequence of "
     "updates and reads",
     "Legacy tests read the grid once per parameter; update-then-read "
     "sequences are not covered.",
     [PA], [("grid construction", PA), ("cache invalidation on update", PA)],
     VFLOW + "; cache-invalidation dataflow", STD)

prop("C13", "Parameter updates are validated and change only what is named",
     "Updating a parameter with a name it does not have, or with a value of "
     "the wrong type where a type is documented, raises and leaves the "
     "parameter unchanged; a valid update changes exactly the named "
     "quantities to the given values. Updates requested through a keyword set "
     "are never silently ignored.",
     ["inputs", "histories"], "all keyword sets and values",
     "No test passes invalid updates.",
     [PA], [("update methods of the parameter classes", PA)],
     "value-flow effects; guard dominance", STD)

prop("C14", "Convolutions return a new spectrum and leave the input alone",
     "Scaling, shifting or smearing the axis of a spectrum returns a new "
     "spectrum with its own data and leaves the input spectrum's data, name, "
     "decay count, raw event count and axis description unchanged. Axis "
     "changes made later to the result never reach back into the input, or "
     "the reverse.",
     ["inputs", "histories"], "all spectra, settings and later operations on "
     "either spectrum",
     "Legacy tests check sums and means of the result only.",
     [SC, SH, SM, FI], [("copy made before writing", SC),
                        ("copy made before writing", SH),
                        ("copy made before writing", SM)],
     "effect and alias (ownership) analysis", STD)

prop("C15", "Scaled and shifted spectra keep the original content and decays",
     "After scaling an axis by a positive factor, or shifting it by "
     "other than a whole number of bins, the result's total content "
     "equals that of the input: content moves along the chosen axis "
     "only, each result bin at position x receives the interpolated "
     "content found at x/factor (scale) or x-shift (shift), nothing is "
     "taken from outside the axis range, and the result is renormalised "
     "to the input's total. A shift by a whole number of bins moves the "
     "bin contents unchanged along the axis; what leaves the range is "
     "dropped. The result represents the same number of decays.",
     ["inputs"], "all spectra, factors, shifts and axes",
     "Legacy tests use one Gaussian and one factor per test.",
     [SC, SH], [("renormalisation to the input total", SC),
                ("renormalisation to the input total", SH)],
     VFLOW + "; guard dominance", STD + "Decided: source position, range "
     "guards, renormalisation and decay bookkeeping; not the quality of the "
     "interpolation.")

prop("C16", "Smearing spreads each bin by a normalised Gaussian resolution",
     "Smearing spreads each bin's content over the bins within the "
     "configured number of standard deviations with Gaussian weights "
     "that are normalised by their own sum, using the standard deviation "
     "implied by the resolution: sqrt(E/LY) for a light yield, "
     "resolution times sqrt(E) for an energy resolution, the resolution "
     "itself for radius. With Poisson smearing selected the weights are "
     "Poisson weights of the number of photoelectrons implied by the "
     "setting. The last bin of the axis is reached like any other, and "
     "the result represents the same number of decays.",
     ["inputs"], "all spectra and resolutions",
     "Legacy tests fit a Gaussian to one smeared peak.",
     [SM], [("sigma computations", SM), ("weight normalisation", SM)],
     VFLOW + "; sibling cross-check of the smearing classes", STD)

prop("C17", "Convolution settings reject impossible values unchanged",
     "A light yield, scale factor, position resolution or number of standard "
     "deviations that is not positive, or an energy resolution outside "
     "(0, 1), is rejected with an error and the previous setting stays in "
     "force; every accepted value becomes the setting used by the next "
     "convolution.",
     ["inputs", "histories"], "all values and sequences of settings",
     "Legacy tests only set valid values.",
     [SC, SH, SM], [("setters", SM)],
     "guard dominance and value-flow", STD)

prop("C18", "Pre-convolved spectra are looked up under the written name",
     "The file and directory names under which a fit looks for pre-convolved "
     "spectra are built from the parameter kind and its current value by one "
     "scheme shared with the programs that write them, so a lookup can never "
     "return a spectrum convolved with another value or another parameter. A "
     "parameter without a current value refuses to produce a name or to be "
     "applied.",
     ["inputs", "configurations"], "all parameter kinds and values",
     "No test covers pre-convolved lookup.",
     [PA, FI, "echidna/scripts/dump_smeared_energy.py",
      "echidna/scripts/dump_scaled.py", "echidna/scripts/dump_shifted.py"],
     [("name construction of parameter kinds", PA),
      ("name construction by convolution", SM)],
     "writer/reader name-template agreement by value flow", STD)

prop("C19", "A fit compares data with the sum of its configured parts",
     "For every point of the fit, the expected spectrum is the sum of the "
     "fixed backgrounds, each floating background and the signal, each scaled "
     "and convolved with the current values of exactly the parameters that "
     "apply to it and each counted once. Evaluating a point does not alter "
     "the stored data, backgrounds or signal, so evaluation order is "
     "irrelevant.",
     ["inputs", "configurations", "histories"], "all fit configurations and "
     "orders of evaluation",
     "No stable test runs a fit; the legacy one uses one rate parameter.",
     [FI], [("fit function", FI)],
     "value-flow accounting; effect analysis", STD)

prop("C20", "Every spectrum entering a fit is checked for compatibility",
     "Data, fixed backgrounds, floating backgrounds and signal are each "
     "checked against the fit's region of interest and dimensions "
     "whichever way they are supplied, and the checks are redone after "
     "anything checked changes; an incompatible spectrum is rejected "
     "with an error before it is used.",
     ["inputs", "configurations", "histories"], "every way and order of "
     "supplying spectra to a fit",
     "No test builds an incompatible fit.",
     [FI], [("spectrum and region-of-interest checks", FI)],
     "must-pass-through (typestate) analysis of the supply methods", STD)

prop("C21", "A grid search evaluates every grid point exactly once",
     "A grid search evaluates the fit once for every combination of "
     "fit-parameter values, passes each evaluation the values belonging to "
     "that grid position, and stores the statistic and the penalty of that "
     "evaluation at that position, in parameter order.",
     ["inputs", "configurations"], "all numbers of parameters and grid sizes",
     "Legacy tests use a two-parameter toy function.",
     [MI, FI], [("iteration over the parameter grid", MI)],
     VFLOW + " over the grid iteration", STD)

prop("C22", "The reported best fit is the global minimum of the statistic",
     "After a grid search, the reported best-fit values, statistic, penalty "
     "and per-parameter best fits all belong to one and the same grid point: "
     "the one where statistic plus penalty is smallest. Undefined (NaN) grid "
     "entries never displace a defined minimum.",
     ["inputs", "configurations"], "all grids of statistics and penalties",
     "One legacy test minimises a smooth bowl with no NaN and no ties.",
     [MI], [("minimum search over statistic plus penalty", MI)],
     VFLOW, STD)

prop("C23", "Fit results accept only arrays of the fit's shape",
     "Statistic and penalty arrays stored in fit results have the shape fixed "
     "by the fit's parameters and bins, anything else is rejected with the "
     "stored results unchanged, and what is read back is what was stored; "
     "combined values are statistic plus penalty, with bins summed exactly "
     "once. Slots for limit results follow the scaling values one to one.",
     ["inputs", "configurations", "histories"], "all shapes and sequences of "
     "updates",
     "No stable test stores results.",
     [FR], [("setters and accessors", FR)],
     VFLOW + "; guard dominance", STD)

prop("C24", "A limit is the first crossing above the best fit, or an error",
     "The reported limit is the smallest signal hypothesis not below the "
     "best-fitting one whose statistic, penalties included and taken "
     "relative to the reference (the signal-free fit's statistic, unless "
     "another is supplied), exceeds the requested threshold; if the scan "
     "ends without a crossing an error is raised instead of returning a "
     "value. Each hypothesis is evaluated with the signal scaled to "
     "exactly that hypothesis.",
     ["inputs", "configurations"], "all scans, thresholds and signal shapes",
     "No runnable test covers limit setting.",
     [LI], [("scan and crossing search", LI)],
     VFLOW + " over the scan loop", STD)

prop("C25", "A spectrum written to file reads back as the same spectrum",
     "Every item of a spectrum written to a file - data, name, "
     "configuration, fit configuration, decays, raw events, cut flag, "
     "style (where one is set), regions of interest and background name "
     "- is read back by the loader from the place and in the encoding "
     "the writer used, into the same item of the spectrum. Nothing the "
     "writer stores is ignored by the loader, the loader needs nothing "
     "the writer does not store, and appending to a file keeps the "
     "file's other content.",
     ["inputs", "programs"], "all spectra",
     "The storage tests need HDF5 and are not runnable here; they compare a "
     "few items.",
     [ST], [("dump and load", ST)],
     "writer/reader table agreement by value flow", "Static: decides the "
     "agreement of the writer's and reader's tables (key, encoding, field). "
     "Trusts h5py to return what was stored.")

prop("C26", "Fit and limit results written to file read back the same",
     "Every item of fit results and of limit results that is written to "
     "a file is read back from the same place into the same item, "
     "including the statistics and penalties of each stored fit, the "
     "number of resets, and the fit, spectrum and limit configurations; "
     "results of a fit without spectra-specific fit parameters load as "
     "such.",
     ["inputs", "programs"], "all results, with and without an optional "
     "configuration",
     "No runnable test stores results.",
     [ST, FR], [("result dump and load", ST)],
     "writer/reader table agreement by value flow", "Static, as C25.")

prop("C27", "Configurations and parameters survive a write/read round trip",
     "Every quantity of a parameter or configuration that is written out is "
     "written under the name the reader expects and from the quantity of that "
     "name, so loading a dumped configuration reproduces its parameters, "
     "their names, kinds and values and their order (fit-wide parameters are "
     "grouped by dimension and come before those of single spectra). A basic "
     "dump leaves out only current value, best fit and penalty term. Each "
     "section goes to the file named for it (default name, the "
     "configuration's own name if blank, .yml added if absent) and is read "
     "from the file given; a name given when loading is the name of the "
     "loaded configuration, a blank one means the name of the file. Text "
     "without the section asked for, or with a fit quantity of no known "
     "kind, is refused.",
     ["inputs", "configurations"], "all configurations",
     "Tests load fixed example files and never dump and reload.",
     [CF, PA], [("dump and load of configurations", CF),
                ("dictionary form of parameters", PA)],
     "composition of the value graphs of writer and reader, interpreted over "
     "drawn configurations", STD)

prop("C28", "YAML loading keeps the order and dumping is its inverse",
     "Mappings loaded from YAML keep the order of the file, at every level "
     "of nesting and for every mapping, and dumping an ordered mapping writes "
     "its entries in order, so that configurations list their dimensions in "
     "file order.",
     ["inputs"], "all YAML documents and nested mappings",
     "No test covers ordering.",
     [YL], [("ordered loader and dumper", YL)],
     "value-flow and registration analysis", STD)

prop("C29", "Decay conversions are mutually inverse and physically scaled",
     "Half-life to activity, activity to counts and effective mass to "
     "half-life, and their compositions, each have an inverse that recovers "
     "the original value with the same isotope, number of atoms and livetime; "
     "all of them use the same number of atoms, which is proportional to "
     "loading, abundance, density and radius cubed. Default and explicitly "
     "given equal arguments give equal results.",
     ["inputs"], "all isotopes and values",
     "The module's own self-test compares a few published numbers and is not "
     "run.",
     [DE, "echidna/calc/constants.py"],
     [("conversion pairs", DE)], VFLOW + "; composition of inverse pairs",
     STD)

prop("C30", "Decay conversions reject non-physical arguments",
     "A livetime, effective mass or outer radius that is not positive, and a "
     "loading or abundance outside [0, 1], are rejected with a value error on "
     "every path by which they enter a calculation, including explicit zero, "
     "before any result is produced; valid values are never rejected.",
     ["inputs"], "all argument values and entry points",
     "No test passes invalid arguments.",
     [DE], [("argument guards", DE)], "guard dominance with exact guard "
     "conditions", STD)

prop("C31", "Extractors exist for each dimension and agree with their siblings",
     "Every supported dimension name maps to the extractor of that dimension, "
     "unsupported names are rejected, and an extractor reads the same "
     "quantity of the same kind (true or reconstructed) whichever input "
     "format it is given. Fiducial-volume cuts reject exactly events at or "
     "beyond the given radius, and an entry is used only if its own "
     "reconstruction is flagged valid.",
     ["inputs", "configurations", "programs"], "all dimensions, both input "
     "formats, all events",
     "No test covers extraction (needs ROOT).",
     [DX], [("dimension factory and extractor classes", DX)],
     "sibling cross-check; value-flow of validity guards", STD)

prop("C32", "Filling a spectrum counts each accepted event exactly once",
     "When a spectrum is filled from input files, an event is counted as a "
     "raw event exactly when its weight has entered the spectrum; events that "
     "fail validity, fiducial-volume or range checks leave counts and "
     "contents unchanged. The represented decays grow with the generated "
     "events read, also when appending to an existing spectrum, and the cut "
     "flag is set exactly when the coincidence cut was requested.",
     ["inputs", "histories"], "all input files and append sequences",
     "No test covers filling (needs ROOT).",
     [FS], [("event loops", FS)], "path-wise effect accounting", STD)

prop("C33", "No public operation fails on a missing name, import or argument",
     "Every module of the package can be imported together with the package "
     "modules it uses, and on every path through every function each name "
     "used is defined, each attribute read from an object of this package "
     "exists on it, and each call to a function of this package supplies the "
     "arguments it requires and no others.",
     ["programs", "inputs", "configurations"], "all functions, all paths, "
     "all call sites of the package",
     "The build imports a third of the modules; the tests run five "
     "functions, so most paths never execute.",
     ["echidna"], [("import statements", "echidna"),
                   ("call sites", "echidna")],
     "whole-program name/attribute/import resolution and call-signature "
     "conformance; definite assignment",
     "Static and whole-program. Attribute existence is decided only where "
     "the receiver's class is known; dynamic attributes are reported as "
     "undecided.")

prop("C34", "Plotting and reporting never change the spectra or results shown",
     "Drawing or reporting a spectrum, a fit configuration or results leaves "
     "them exactly as they were: nothing is rescaled, shrunk, renamed or "
     "refilled as a side effect of showing it.",
     ["inputs", "programs"], "all plotting functions and all inputs",
     "Plotting is never executed by tests.",
     ["echidna/output/plot.py", "echidna/output/plot_root.py",
      "echidna/output/plot_chi_squared.py",
      "echidna/output/plot_chi_squared_root.py"],
     [("plotting functions", "echidna/output")],
     "interprocedural effect analysis (purity)", STD)

prop("C35", "Fit parameters act on spectra only as configured",
     "Applying a rate parameter scales the spectrum to the parameter's "
     "current value; applying a resolution, scale or shift parameter "
     "convolves the requested dimension with exactly the parameter's current "
     "value through the matching convolution. A parameter whose current value "
     "is unset refuses to act, and a rate never represents a negative number "
     "of decays.",
     ["inputs", "configurations"], "all parameter kinds, values and "
     "dimensions",
     "No runnable test applies parameters.",
     [PA], [("apply methods of parameter kinds", PA)],
     VFLOW + "; guard dominance", STD)

prop("C36", "Array uncertainties and text helpers compute what they document",
     "Errors computed for an array have the array's shape, and for each "
     "element they are the difference between the element moved by the "
     "stated absolute amount, or multiplied by the stated factor, on the "
     "chosen (linear, log or log10) scale and the element itself; "
     "without either amount an error is raised. The conversions between "
     "dictionaries and their text form are inverse of each other for the "
     "value types they support and reject other types.",
     ["inputs"], "all arrays and dictionaries",
     "No test covers them.",
     ["echidna/utilities.py", "echidna/util/strings.py", ST],
     [("error arrays", "echidna/utilities.py"),
      ("dictionary text form", ST)], VFLOW, STD)

prop("N01", "Limits have the stated statistical coverage",
     "A limit quoted at a confidence level contains the true signal with at "
     "least that frequency over repeated experiments.",
     ["inputs"], "all experiments and signals",
     "Coverage is a property of an ensemble, not of a run.",
     [LI, TS], [("threshold choice", LI)],
     na="Quantifies over the distribution of the test statistic; no static "
        "argument over the source bounds it.")

prop("N02", "Convolved spectra approximate the true convolution",
     "The numerical result of smearing, scaling or shifting converges to the "
     "exact convolution as the binning is refined.",
     ["inputs"], "all spectra and binnings",
     "Convergence is a limit over binnings.",
     [SM, SC, SH], [("interpolation and window truncation", SC)],
     na="Numerical accuracy of spline interpolation and windowed Gaussian "
        "sums depends on runtime values; only the structural clauses (C14 to "
        "C17) are decidable from source.")

prop("N03", "Random smearing is statistically unbiased",
     "Smearing by random sampling has the same expectation as weighted "
     "smearing for every spectrum.",
     ["inputs"], "all spectra and random seeds",
     "Needs the distribution of the random generator.",
     [SM], [("random smearing", SM)],
     na="Depends on the distribution of a random generator at run time.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": p["state"],
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None}}) + "\n")
    impl = set()
    for name in os.listdir(os.path.join(HERE, "sa", "rules")):
        if name.startswith("c") and name.endswith(".py") and \
                name[1:-3].isdigit():
            impl.add("C" + name[1:-3])
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in impl:
            na.append({"property": p["id"], "reason":
                       "check not built yet in this commit"})
        else:
            cmd = "python3-vt check.py --property %s --tier %s"
            checks.append({
                "property": p["id"],
                "quick_cmd": cmd % (p["id"], "quick"),
                "thorough_cmd": cmd % (p["id"], "thorough"),
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["tech"], "level": "other",
                "level_note": p["note"]})
    man = {"version": 1,
           "setup_cmd": "python3-vt check.py --selftest",
           "checks": checks, "not_applicable": na,
           "notes": "Static analysis only; no hooks in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
