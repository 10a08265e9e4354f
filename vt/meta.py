"""
The properties, and how each is decided. 'python -m vt.meta' writes
properties.jsonl and MANIFEST.json from this.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "taupy/"
PROPS = []


def prop(id, title, statement, over, text, tests, files, mechanism, level,
         technique, note, state=()):
    PROPS.append(dict(
        id=id, level=level, technique=technique, note=note,
        prop={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": tests,
            "anchors": {
                "files": [T + f for f in files],
                "state": [{"name": n, "meaning": m, "where": T + w}
                          for n, m, w in state],
                "mechanism": [{"name": n, "where": T + w}
                              for n, w in mechanism]}}))


INPUTS = ["inputs"]
TRUST = ("Trusts CPython, numpy and the reference model in vt/, which is "
         "independent of the code under test. ")

prop("V01", "Velocity model files are read as written",
     "Every well-formed velocity model file yields exactly the layers between "
     "its consecutive samples, with comments, blank lines and discontinuities "
     "treated as documented. A malformed file is refused instead of being "
     "read as another model.",
     INPUTS, "all sequences of line kinds (sample, discontinuity, fluid, "
     "comment, blank, malformed) up to a length, behind several headers",
     "The tests read one file, iasp91, and look at its first layers.",
     ["VelocityModel.py"],
     [("file reader", "VelocityModel.py:VelocityModel.readTVelFile")],
     "exploration", "bounded exhaustive enumeration of input files",
     "Every sequence of up to 5 (thorough 6) lines over 11 kinds of line. "
     + TRUST)
prop("V02", "Velocities at any depth",
     "The velocity, slowness or density given for a depth is the linear "
     "interpolation within the layer that contains the depth, on the side "
     "asked for at a discontinuity. Depths outside the model are refused.",
     INPUTS, "all planets of the alphabet, all boundaries, depths next to "
     "them and within each layer, both sides, all material properties",
     "The tests evaluate one depth of iasp91.",
     ["VelocityModel.py", "VelocityLayer.py"],
     [("lookup", "VelocityModel.py:VelocityModel.layerNumberAbove"),
      ("interpolation", "VelocityLayer.py:VelocityLayer.evaluateAt")],
     "exploration", "bounded exhaustive enumeration of models and depths",
     "All 162 synthetic planets, iasp91 and ak135. " + TRUST)
prop("V03", "Inconsistent velocity models are refused",
     "A velocity model with gaps, overlaps, negative or undefined values or "
     "inconsistent boundaries is refused before travel times can be "
     "calculated from it. A consistent model is accepted.",
     ["inputs", "fault_sequences"],
     "every single change (and pairs, for the validation alone) of every "
     "field of every layer and of the model to every value of a small set",
     "The tests validate one consistent model.",
     ["VelocityModel.py", "SlownessModel.py", "TauModel.py"],
     [("validation", "VelocityModel.py:VelocityModel.validate"),
      ("validation", "SlownessModel.py:SlownessModel.validate"),
      ("validation", "TauModel.py:TauModel.validate")],
     "fault_enumeration", "exhaustive injection of faults into the model",
     "All single faults and pairs of faults of the alphabet on 4 planets. "
     + TRUST)
prop("V04", "Moho, core-mantle and inner core boundary",
     "The Moho, the core-mantle and the inner core boundary of a model are "
     "the discontinuities closest to the expected depths, by the documented "
     "kind of discontinuity, whatever the radius of the planet.",
     INPUTS, "all subsets up to a size of discontinuities of an alphabet of "
     "depths and kinds, for several radii",
     "The tests know the three depths of iasp91 only.",
     ["VelocityModel.py"],
     [("choice of boundaries",
       "VelocityModel.py:VelocityModel.readTVelFile")],
     "exploration", "bounded exhaustive enumeration of models",
     "All subsets of up to 3 (thorough 4) of 80 discontinuities. " + TRUST)
prop("S01", "Slowness samples represent the velocity model",
     "The sampled slownesses are a gapless stack of layers for each wave type "
     "that agrees with the velocity model at every depth sampled, on both "
     "sides of discontinuities. The samples respect the configured limits of "
     "depth, slowness, distance and interpolation error.",
     ["inputs", "configurations"],
     "all planets of the alphabet times sampling configurations, all layers",
     "The tests compare the layers of iasp91 for one configuration with "
     "stored numbers.",
     ["SlownessModel.py", "SlownessLayer.py"],
     [("sampling", "SlownessModel.py:SlownessModel.createSample"),
      ("step of slowness", "SlownessModel.py:SlownessModel.rayParamIncCheck"),
      ("depth step", "SlownessModel.py:SlownessModel.depthIncCheck"),
      ("distance step", "SlownessModel.py:SlownessModel.distanceCheck")],
     "exploration", "bounded exhaustive enumeration of models and settings",
     "Limits of the slowness step are checked for three planets only as a "
     "recorded defect breaks them for most. " + TRUST)
prop("S02", "Critical depths, fluids and high slowness zones",
     "Discontinuities and reversals of the slowness gradient, fluid layers "
     "and zones from which no ray turns are found exactly, for each wave "
     "type. No zone is missed, invented, split or extended.",
     INPUTS, "all planets of the alphabet and all stacks of mantle layers up "
     "to a length over an alphabet of gradients and jumps",
     "iasp91 has no high slowness zone in the mantle and no fluid but the "
     "outer core; the tests see nothing else.",
     ["SlownessModel.py"],
     [("search", "SlownessModel.py:SlownessModel.findCriticalPoints")],
     "exploration", "bounded exhaustive enumeration of models",
     "All stacks of up to 5 (thorough 6) layers over 8 kinds. " + TRUST,
     [("highSlownessLayerDepthsP/S", "zones without turning rays",
       "SlownessModel.py:SlownessModel"),
      ("criticalDepths", "where branches begin",
       "SlownessModel.py:SlownessModel")])
prop("S03", "Lookups in the sampled slowness",
     "The layer, the turning depth, the membership in a fluid or a high "
     "slowness zone and the smallest slowness above a depth agree with a "
     "plain search of all samples, at every sample and on both sides of it.",
     INPUTS, "planets, wave types, every sampled depth, the middle of each "
     "layer and depths next to its ends; every slowness with every depth "
     "range", "The tests look up two depths of iasp91.",
     ["SlownessModel.py", "SlownessLayer.py"],
     [("layer lookup", "SlownessModel.py:SlownessModel.layerNumberAbove"),
      ("turning depth", "SlownessModel.py:SlownessModel.findDepth")],
     "exploration", "bounded exhaustive enumeration against a plain search",
     TRUST)
prop("S04", "Distance and time within one slowness layer",
     "The distance and time a ray accumulates in one layer are the integrals "
     "along the ray for the slowness law of the layer, for every ray from the "
     "vertical one to the one that turns at the bottom of the layer. Slowness "
     "and depth are inverse functions of each other within the layer.",
     INPUTS, "radii, depth intervals, slownesses at both ends and rays on "
     "grids with all degenerate combinations; every layer of a model with "
     "every sampled ray", "The tests have no layer on its own.",
     ["SlownessLayer.py", "SlownessModel.py"],
     [("integrals", "SlownessLayer.py:SlownessLayer.bullenRadialSlowness"),
      ("layer time and distance",
       "SlownessModel.py:SlownessModel.layerTimeDist")],
     "exploration", "bounded exhaustive enumeration against quadrature",
     "Numerical quadrature with 80 nodes is the oracle. " + TRUST)
prop("T01", "Branches of a travel time model",
     "A model divides the planet into branches exactly at the critical "
     "depths, and its rays are exactly the slownesses at which rays turn or "
     "are reflected. The distance and time of every ray in every branch are "
     "the sums over the layers in it that the ray really gets to.",
     ["inputs", "configurations"],
     "all planets of the alphabet and configurations, every branch with every "
     "ray", "The tests compare a few branches of iasp91 with stored numbers.",
     ["TauModel.py", "TauBranch.py"],
     [("rays and branches", "TauModel.py:TauModel.calcTauIncFrom"),
      ("sums", "TauBranch.py:TauBranch.createBranch")],
     "exploration", "bounded exhaustive enumeration against plain sums",
     TRUST)
prop("T02", "Source depths and split branches",
     "A model corrected for a source depth, after any history of splits, is "
     "the model that has boundaries at these depths and the rays leaving the "
     "source horizontally, with all sums right. The model it was made from is "
     "not changed.",
     ["inputs", "histories"],
     "planets, source depths on, near and between boundaries, and all "
     "sequences of up to 3 splits and a depth correction",
     "The tests correct iasp91 for two depths and never split twice.",
     ["TauModel.py", "TauBranch.py", "SlownessModel.py"],
     [("depth correction", "TauModel.py:TauModel.depthCorrect"),
      ("split of a branch", "TauModel.py:TauModel.splitBranch"),
      ("split of a layer", "SlownessModel.py:SlownessModel.splitLayer")],
     "model_checking", "explicit-state exploration of operation sequences, "
     "every state compared with the real model",
     "States are sets of boundaries; every transition is executed by the "
     "code. " + TRUST)
prop("P01", "The language of phase names",
     "Every phase name either describes the path that the nomenclature says "
     "and gets exactly the rays that exist on it, or is refused. No name "
     "crashes the calculation.",
     INPUTS, "all sequences of tokens of the nomenclature up to a length, for "
     "planets and source depths",
     "The tests use about 50 names, all of them valid.",
     ["SeismicPhase.py"],
     [("tokens", "SeismicPhase.py:legPuller"),
      ("parser", "SeismicPhase.py:SeismicPhase.parseName"),
      ("range of rays", "SeismicPhase.py:SeismicPhase.addToBranch")],
     "exploration", "bounded exhaustive enumeration of a language against a "
     "reference parser and tracer",
     "All names of up to 4 tokens (thorough 6) with three planets. Names the "
     "nomenclature leaves open are not judged. " + TRUST)
prop("P02", "Every arrival, and nothing else",
     "A query returns an arrival of a phase for every ray of it that reaches "
     "the distance, the long way round and after whole laps included, with "
     "its time and slowness; and no other. Shadow zones have no arrivals.",
     INPUTS, "all planets of the alphabet, source depths, some 100 phases, "
     "distances from 0 to 180 degrees",
     "The tests compare some distances of iasp91 with tables; it has no "
     "shadow zone but the core's.",
     ["SeismicPhase.py", "TauP_Time.py"],
     [("search", "SeismicPhase.py:SeismicPhase.calcTime"),
      ("shadow zones", "SeismicPhase.py:SeismicPhase.sumBranches")],
     "exploration", "bounded exhaustive enumeration against a reference "
     "tracer", "The tracer decides by looking at every layer on the way. "
     "Interpolation errors of the sampling are not judged here. " + TRUST)
prop("P03", "The ray parameter is the slope of the travel time curve",
     "For every arrival of every phase the ray parameter is the derivative of "
     "the travel time by distance at that distance, as far as the sampling "
     "of the curve allows, and the long way round counts as such. Times and "
     "ray parameters are finite and not negative.",
     INPUTS, "planets of the alphabet, source depths, all phases, distances "
     "every 3.7 degrees with neighbours on both sides",
     "No test looks at ray parameters and times together.",
     ["SeismicPhase.py", "Arrival.py"],
     [("interpolation", "SeismicPhase.py:SeismicPhase.calcTime")],
     "exploration", "bounded exhaustive enumeration of queries",
     "The slope between neighbouring arrivals of one part of the curve. "
     + TRUST)
prop("P05", "Take-off and incidence angles obey Snell's law",
     "The take-off angle of every arrival follows from its ray parameter and "
     "the velocity at the source, on the side and for the wave type with "
     "which the ray leaves it, downwards from 90 degrees if it leaves "
     "upwards; the incident angle likewise at the surface. Both are finite, "
     "between 0 and 180 degrees, on any planet.",
     INPUTS, "planets of the alphabet, some of other radii, source depths on "
     "and between discontinuities, all phases, 19 distances",
     "The tests look at angles of a few phases of iasp91 within loose "
     "limits.",
     ["SeismicPhase.py"],
     [("angles", "SeismicPhase.py:SeismicPhase.calcTime")],
     "exploration", "bounded exhaustive enumeration of queries",
     "Velocities are read from the file, not from the model. " + TRUST)
prop("P06", "Distances that are the same place have the same arrivals",
     "Distances in the other direction, the long way round and with whole "
     "laps more give exactly the same arrivals, each of them once. The "
     "distance reported for an arrival is the way the ray goes and ends at "
     "the distance asked for.",
     INPUTS, "planets of the alphabet, source depths, phases with up to three "
     "laps, distances from 0 to 180 degrees with 8 equivalent ones each",
     "No test asks for a distance beyond 180 degrees.",
     ["SeismicPhase.py", "tau.py"],
     [("reduction", "SeismicPhase.py:SeismicPhase.calcTime")],
     "exploration", "bounded exhaustive enumeration of queries",
     "Depths, distances and phases of the alphabet. " + TRUST)
prop("P07", "Pierce points lie on the ray",
     "The pierce points of every arrival are where its ray crosses "
     "discontinuities and the depth of the source, turns, or starts and ends "
     "running along a boundary, in this order, each with its time and "
     "distance. They begin at the source and end at the receiver with the "
     "time and distance of the arrival.",
     INPUTS, "planets of the alphabet, source depths, all phases, 11 "
     "distances",
     "The tests compare a few arrivals of iasp91 with tables.",
     ["SeismicPhase.py", "TauP_Pierce.py"],
     [("points", "SeismicPhase.py:SeismicPhase.calcPierceFromArrival")],
     "exploration", "bounded exhaustive enumeration against a reference "
     "tracer", "The reference interpolates between the same rays. " + TRUST)
prop("P08", "Ray paths follow the ray",
     "The path of every arrival starts at the source, goes through every "
     "depth its ray goes through with the time and distance at that point "
     "without ever going backwards, and ends at the surface. Head and "
     "diffracted waves run along their boundary for the rest of the "
     "distance.",
     INPUTS, "planets of the alphabet, source depths, all phases, 10 "
     "distances; every point of the path",
     "The tests compare a few arrivals of iasp91 with tables.",
     ["SeismicPhase.py", "TauBranch.py", "TauP_Path.py"],
     [("path", "SeismicPhase.py:SeismicPhase.calcPathFromArrival"),
      ("path of a branch", "TauBranch.py:TauBranch.path")],
     "exploration", "bounded exhaustive enumeration against a reference "
     "tracer", "How far the ray of the interpolated ray parameter ends beside "
     "the receiver depends on the sampling and is counted, not judged. "
     + TRUST)
prop("P09", "A phase and the same phase backwards",
     "With source and receiver at the surface, the phase whose legs are in "
     "reverse order has the same travel time curve, and the same arrivals "
     "with take-off and incident angles exchanged.",
     INPUTS, "all names of up to 5 (thorough 6) tokens that start and end in "
     "the mantle, and their reverses, for 6 planets with a fluid outer core",
     "No test compares two phases.",
     ["SeismicPhase.py"],
     [("parser", "SeismicPhase.py:SeismicPhase.parseName")],
     "exploration", "bounded exhaustive enumeration of a language",
     "Names that are refused in either direction are left to P01. " + TRUST)
prop("P10", "Diffracted waves, head waves and surface waves",
     "Pdiff, Sdiff, Pn and Sn, alone or among other legs, arrive exactly when "
     "a ray touches their boundary, from the distance of that ray on up to "
     "the documented limit, later by slowness times the distance along it. "
     "Surface waves arrive once for each direction with the given velocity.",
     INPUTS, "all names of up to 3 legs with a diffraction or head wave, 11 "
     "planets, 5 source depths, 18 distances; 8 spellings of velocities",
     "The tests look at Pdiff, Pn and one surface wave of iasp91.",
     ["SeismicPhase.py"],
     [("search", "SeismicPhase.py:SeismicPhase.calcTime"),
      ("parser", "SeismicPhase.py:SeismicPhase.parseName")],
     "exploration", "bounded exhaustive enumeration against a reference "
     "tracer", "Names with a direct leg into a diffraction are not judged. "
     + TRUST)
prop("P11", "Lists of phases mean the union of their entries",
     "A list of phases gives the arrivals of all its entries, each phase "
     "once however often it is listed, groups such as ttall standing for "
     "their phases. Phases that do not exist are left out without harm to "
     "others, and arrivals are sorted by time.",
     INPUTS, "all lists of up to 3 (thorough 4) entries of names, groups and "
     "names that do not exist, in every order",
     "The tests use single groups.",
     ["TauP_Time.py", "tau.py"],
     [("groups", "TauP_Time.py:parsePhaseList"),
      ("sum of phases", "TauP_Time.py:TauP_Time.recalcPhases")],
     "exploration", "bounded exhaustive enumeration of lists",
     "Against the arrivals of the names one by one. " + TRUST)
prop("A12", "Times, pierce points, paths and tables agree",
     "Travel times, pierce points and paths of one query are the same "
     "arrivals with the same values, and what is printed shows these values "
     "rounded. Purist names carry the true depths of interactions.",
     INPUTS, "planets, source depths, distances, sets of phases, types of "
     "numbers",
     "The tests compare each kind of query with its own table.",
     ["tau.py", "TauP_Time.py", "TauP_Pierce.py", "TauP_Path.py",
      "SeismicPhase.py", "Arrival.py"],
     [("queries", "tau.py:TauPyModel.get_travel_times"),
      ("table", "TauP_Time.py:TauP_Time.printResult")],
     "exploration", "bounded exhaustive enumeration of queries",
     "Depths and distances of the alphabet. " + TRUST)
prop("A14", "Chosen pierce depths and printed points",
     "Depths added to the pierce points give the points where the rays cross "
     "them, without any other change, for any list of depths. The options "
     "for printing select exactly the points they describe, and printed "
     "paths show the path up to the given time in steps not larger than "
     "given.",
     ["inputs", "configurations"],
     "planets, source depths, lists of depths, all combinations of the "
     "options, limits of times and steps",
     "No test adds a depth or sets an option.",
     ["TauP_Pierce.py", "TauP_Path.py", "TauModel.py"],
     [("added depths", "TauP_Pierce.py:TauP_Pierce.depthCorrect"),
      ("printed points", "TauP_Pierce.py:TauP_Pierce.printResult"),
      ("printed path", "TauP_Path.py:TauP_Path.printResult")],
     "exploration", "bounded exhaustive enumeration of options",
     "Whether the ends of the ray are among selected points is left open. "
     + TRUST)
prop("P04", "Travel times are those of the velocity model",
     "The travel time of every arrival is, within the accuracy the sampling "
     "is asked for, the time of a ray through the velocity model as it is "
     "given in the file, for every planet, phase, source depth and distance.",
     INPUTS, "planets of the alphabet, iasp91 and ak135 with the default "
     "sampling, source depths, some 90 phases, 21 distances",
     "The tests compare iasp91 with tables made by another program from the "
     "same sampling.",
     ["SlownessModel.py", "TauBranch.py", "SeismicPhase.py"],
     [("sampling", "SlownessModel.py:SlownessModel.createSample"),
      ("times", "SeismicPhase.py:SeismicPhase.calcTime")],
     "exploration", "bounded exhaustive enumeration against rays through "
     "1 km layers of the velocity file",
     "The time of a ray with nearly the right slowness, moved along its "
     "slope, differs in the second order. Up to 0.15 s per leg are allowed, "
     "more where the distances of neighbouring rays are far apart. " + TRUST)
prop("A01", "Coordinates of source and receiver",
     "Coordinates of source and receiver mean the angle between the two "
     "points seen from the centre, for any two points, coincident and "
     "opposite ones included, and any multiple of the longitude. A distance "
     "that is given counts before coordinates; with neither complete the "
     "query is refused.",
     INPUTS, "all pairs of points of a grid, queries of the three kinds for "
     "some of them, all subsets of the four coordinates",
     "One test uses one pair of coordinates.",
     ["TauP_Time.py", "tau.py"],
     [("distance", "TauP_Time.py:great_circle_dist"),
      ("choice", "TauP_Time.py:TauP_Time.run")],
     "exploration", "bounded exhaustive enumeration of pairs of points",
     "Angles within 3e-6 degrees, the accuracy of the formula near 0 and 180 "
     "degrees. " + TRUST)
prop("A02", "Queries do not depend on the queries before",
     "Whatever was asked of a model before, successfully or not, whatever "
     "became of the results, and whatever other models were built or saved, "
     "a query gives the same arrivals as on a fresh model. Results that were "
     "given out do not change.",
     ["histories"], "all histories of up to 2 (thorough 3) operations out of "
     "17, on one model in one process",
     "Every test makes a new model object for each query.",
     ["tau.py", "TauModel.py", "TauP_Time.py", "TauP_Pierce.py",
      "TauP_Path.py", "SeismicPhase.py", "TauBranch.py"],
     [("correction for depth", "TauModel.py:TauModel.depthCorrect"),
      ("added depths", "TauP_Pierce.py:TauP_Pierce.depthCorrect")],
     "model_checking", "explicit-state exploration of all histories of the "
     "real code, forked at every operation",
     "States are the model and the data of all modules; every transition is "
     "executed by the code. " + TRUST,
     [("tauBranches", "the branches, shared by all queries",
       "TauModel.py:TauModel"),
      ("sMod", "the slowness samples, shared by all queries",
       "TauModel.py:TauModel")])
prop("A03", "Query objects can be used again",
     "A TauP_Time, TauP_Pierce or TauP_Path object whose depth, distance, "
     "phases or added depths are changed gives the same as a new object with "
     "these settings, in any order of changes, and also after a calculation "
     "was refused.",
     ["histories"], "the states reachable by up to 4 (thorough 5) changes, "
     "with both ways of calculating",
     "Every test makes a new object.",
     ["TauP_Time.py", "TauP_Pierce.py", "TauP_Path.py"],
     [("reuse of phases", "TauP_Time.py:TauP_Time.recalcPhases"),
      ("reuse of models", "TauP_Pierce.py:TauP_Pierce.depthCorrect")],
     "model_checking", "explicit-state exploration of the states of the real "
     "object", "Breadth-first, states met before are not explored again. "
     + TRUST,
     [("tModDepth", "model for the depth of the last calculation",
       "TauP_Time.py:TauP_Time"),
      ("phases", "phases of the last calculation",
       "TauP_Time.py:TauP_Time")])
prop("A04", "Threads can share a model",
     "Queries and constructions that run in several threads, on the same "
     "model or on different ones, give the same as alone, wherever the "
     "threads are switched.",
     ["schedules"], "all schedules of two calls with one preemption at any "
     "visited line, and with two at beginnings of functions",
     "The tests run in one thread.",
     ["tau.py", "TauModel.py", "TauP_Time.py", "TauP_Pierce.py",
      "TauP_Path.py", "SeismicPhase.py", "TauBranch.py", "SlownessModel.py"],
     [("correction for depth", "TauModel.py:TauModel.depthCorrect"),
      ("splitting", "TauModel.py:TauModel.splitBranch")],
     "model_checking", "stateless exploration of thread schedules of the "
     "real code, preemption-bounded",
     "Lines are atomic. Only the first visit of a line (thorough: also the "
     "last) is a point of preemption. " + TRUST)
prop("A05", "Interrupted calculations leave nothing behind",
     "A query or construction that is ended by an exception at any point "
     "passes it on to the caller, and everything calculated afterwards with "
     "the same model is as if it had not been made.",
     ["crash_points"], "all visited lines of 7 kinds of calls, first and "
     "other visits, two kinds of exceptions",
     "The tests interrupt nothing.",
     ["tau.py", "TauModel.py", "TauP_Time.py", "TauP_Pierce.py",
      "TauP_Path.py", "SeismicPhase.py", "TauBranch.py", "SlownessModel.py"],
     [("correction for depth", "TauModel.py:TauModel.depthCorrect"),
      ("added depths", "TauP_Pierce.py:TauP_Pierce.depthCorrect")],
     "fault_enumeration", "exhaustive injection of exceptions at all visited "
     "lines", "Exceptions come at the beginnings of lines. " + TRUST)
prop("A06", "Model files are complete or refused",
     "A model that was saved is loaded as the same model and gives the same "
     "results. A file that was not written completely is never loaded as a "
     "model, writing that fails is reported, and create_taup_model makes the "
     "file it should, or no file if its input is no model.",
     ["crash_points", "fault_sequences", "inputs"],
     "planets and samplings; every length of a truncated file; failures of "
     "writing after numbers of bytes; names and directories",
     "The tests load files that are complete.",
     ["TauModel.py", "TauModelLoader.py", "TauP_Create.py", "tau.py"],
     [("saving", "TauModel.py:TauModel.writeModel"),
      ("loading", "TauModelLoader.py:load"),
      ("creation", "tau.py:create_taup_model")],
     "fault_enumeration", "exhaustive enumeration of ends of files and "
     "failing writes", "Writing fails by a limit of the size of files. TauP_"
     "Create.run prints such a failure instead of raising it. " + TRUST)
prop("A07", "Building a model depends on its input only",
     "The same file and parameters give exactly the same model, whatever was "
     "built before, successfully or not, in whatever process and directory. "
     "Models that exist already are not changed by building others.",
     ["histories", "configurations"], "all histories of up to 2 (thorough 3) "
     "constructions out of 11, some failing; processes with other seeds of "
     "hashes",
     "Models are built once, when the package is installed.",
     ["TauP_Create.py", "SlownessModel.py", "TauModel.py",
      "VelocityModel.py", "TauBranch.py"],
     [("construction", "TauP_Create.py:TauP_Create.createTauModel")],
     "model_checking", "explicit-state exploration of all histories of the "
     "real code, forked at every operation",
     "States are the data of all modules. " + TRUST,
     [("DEBUG", "set for all models by each construction",
       "SlownessModel.py:SlownessModel")])
prop("A09", "Other planets scale",
     "A planet whose lengths or velocities, and the parameters of the "
     "sampling, are multiplied by factors has the same arrivals with times, "
     "slownesses and depths multiplied accordingly, and the same angles.",
     ["inputs", "configurations"], "planets of the alphabet, 9 pairs of "
     "factors, source depths, phases, distances",
     "The tests know planets of one size only.",
     ["SlownessModel.py", "SlownessLayer.py", "TauModel.py",
      "SeismicPhase.py"],
     [("slowness", "SlownessLayer.py:create_from_vlayer"),
      ("sampling", "SlownessModel.py:SlownessModel.rayParamIncCheck")],
     "exploration", "bounded exhaustive enumeration of planets and factors",
     "Factors are powers of 2, which are exact; depths of Moho and core are "
     "given. " + TRUST)


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = p["prop"]
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick ./check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
            "technique": p["technique"], "level": p["level"],
            "level_note": p["note"].strip()} for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed from outside. "
                 "See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
