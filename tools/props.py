"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, glob, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/spectrocrunch/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[S + f for f in files],
                  mech=[{"name": n, "where": S + w} for n, w in mech],
                  observe=observe or [], technique=technique, note=note, na=na))


prop("C01", "Indexing a lazily stacked data set equals indexing the array",
     "For a data set that is stacked on demand out of pieces along one axis, reading any valid index expression (integers, slices, lists, boolean masks, ellipsis, new axes, in any combination and order) gives exactly the values, shape and axis order that the same expression gives on the fully materialised array, and assigning or updating through an index changes exactly the same elements. The shape and axis order predicted for an index without reading data agree with what reading produces, and replacing some dimensions by their full range can be undone exactly.",
     ["inputs"], "every stack shape, stack axis, index expression and update operator",
     "The existing tests enumerate one 4-d shape with hand-picked index combinations; the interplay of stack axis, list indices, squeezed and new axes is combinatorial.",
     ["utils/indexing.py", "process/h5merge.py"],
     [("getitem/setitem split the stack axis from the rest and restore the axis order", "utils/indexing.py"),
      ("shape prediction", "utils/indexing.py:shape_afterindexing")],
     technique="hypothesis: differential against numpy on materialised arrays")

prop("C02", "A fluorescence data set reads back what was stored, however it is indexed",
     "Spectra and statistics saved as a one-file-per-line detector data set are read back identically, and any index expression on a line, image or stack of images equals the same expression on the in-memory array, with detectors selected, skipped, summed or dead-time corrected and normalized exactly as the reference formula prescribes. File names formatted for a detector, map number and line parse back to the same fields, and searching and grouping a directory finds every file exactly once in its proper place.",
     ["inputs", "configurations"], "all data shapes, detector selections, correction flags and index expressions",
     "Tests use a few random shapes with a fixed set of indices and flags.",
     ["io/xiaedf.py"],
     [("file name conventions", "io/xiaedf.py:XiaNameParser"), ("data access with corrections", "io/xiaedf.py:xiadata"),
      ("image and stack composition", "io/xiaedf.py:xiastack_files")],
     technique="hypothesis: model-based round trip through files, numpy reference")

prop("C03", "Lookup tables keep sorted unique keys and interpolate between them",
     "After any sequence of additions and replacements a lookup table holds each key once, in increasing order, with the sum (addition) or the latest value (replacement) of all values supplied for that key, whatever compatible units were used. Evaluating it returns the table value on a key, linear interpolation between keys, the edge value outside the range and the default when empty, in the shape and units requested; copying or serializing a table never changes or links its content.",
     ["histories", "inputs"], "all sequences of add/replace/copy/clear operations with any keys, values and units",
     "Tests check one short history.",
     ["utils/lut.py", "utils/listtools.py", "utils/units.py"],
     [("merge and sort of keys", "utils/lut.py:LUT._new_data")],
     technique="hypothesis: model-based histories against a dictionary")

prop("C04", "Physical quantities survive unit conversion and storage",
     "Converting a number or array to a quantity, to another compatible unit and back preserves value and shape, incompatible units are refused, and conversion follows the physical definitions (including wavelength/energy equivalence). Every serializable object (quantities, arrays, lookup tables, materials, layers, spectra, sources, optics, detectors, geometries) that is encoded to text and decoded, or copied, equals the original and behaves the same.",
     ["inputs"], "all values, shapes, unit pairs and serializable objects",
     "Tests round trip one instance of each kind with fixed parameters.",
     ["utils/units.py", "patch/jsonpickle.py", "patch/pint.py", "utils/copyable.py", "utils/hashable.py"],
     [("unit conversion", "utils/units.py"), ("registered encoders", "patch/jsonpickle.py")],
     technique="hypothesis: round trips and algebraic relations")

prop("C05", "Fingerprints of parameters depend on content only",
     "Two parameter trees get the same fingerprint when they differ only in dictionary insertion order, set order, text/bytes type or numeric type of equal numbers, and the fingerprint is reproducible in another process. Changing any single leaf, key, length or order in a sequence changes the fingerprint.",
     ["inputs"], "all nested combinations of mappings, sequences, sets, numbers, strings, quantities and custom objects",
     "Tests pin a handful of literals.",
     ["utils/hashing.py", "utils/instance.py"],
     [("recursive canonical hashing", "utils/hashing.py:calchash")],
     technique="hypothesis: metamorphic relations, cross-process differential")

prop("C06", "Index ranges, partitions and list helpers obey set semantics",
     "Clipping a region of interest that starts inside the array selects exactly the elements that plain slicing would and always stays inside the array; merging intervals yields sorted disjoint intervals with the same union; splitting an array in chunks visits every element exactly once. List helpers (sorting and merging of paired lists, flattening, masks, permutations) and base conversion agree with their elementary definitions.",
     ["inputs"], "all shapes, intervals, chunk sizes and lists",
     "Only single examples are tested, none at the borders.",
     ["utils/roi.py", "utils/listtools.py", "utils/integerbase.py", "utils/instance.py", "math/slicing.py"],
     [("clipping", "utils/roi.py:cliproi"), ("interval union", "utils/roi.py:mergeroi1d"), ("chunks", "math/slicing.py")],
     technique="hypothesis: differential against set and list models")

prop("C07", "Cleanup runs exactly once and temporary settings never leak",
     "Whatever happens inside a guarded block (normal end, exception, handled termination signal, nesting), the cleanup runs exactly once, after the block, and the previous signal handlers are restored. Values cached, attributes replaced or output redirected for the duration of a block are back to their previous state afterwards.",
     ["fault_sequences", "histories"], "all nestings of guarded blocks with exceptions or signals injected at any point",
     "Tests raise one exception at one place.",
     ["utils/signalhandling.py", "utils/cache.py", "utils/stdout.py", "io/utils.py", "utils/timing.py"],
     [("guarded blocks", "utils/signalhandling.py"), ("scoped caches", "utils/cache.py")],
     technique="hypothesis: generated nesting programs with injected exceptions and signals against a model trace")

prop("C08", "Composed operators act like the composition of their parts",
     "Any expression built from elementary linear, saturating or clipping operators by composition, repetition and inversion maps data exactly like applying the parts one after the other, and an operator followed by its inverse is the identity where it is invertible. Any arithmetic expression of lazily evaluated functions evaluates to the expression of the function values.",
     ["programs", "inputs"], "all operator expressions and all input values",
     "Tests check fixed pairs of operators.",
     ["math/linop.py", "math/lazy.py"],
     [("operator algebra", "math/linop.py"), ("lazy functions", "math/lazy.py")],
     technique="hypothesis: generated operator programs against direct evaluation")

prop("C09", "The Fourier tools agree with the discrete Fourier transform",
     "Transforming and back-transforming data of any size returns the data; a selected sub-region or frequency range of the transform equals that part of the full transform, on either convention and implementation. Shifting in one space multiplies by the matching phase in the other, so a fractional or integer shift moves the signal by exactly that amount.",
     ["inputs"], "all signal lengths, shapes, sub-regions, steps and conventions",
     "Tests use a few fixed sizes.",
     ["math/ft.py"],
     [("transforms", "math/ft.py")],
     technique="hypothesis: differential against numpy.fft and round trips")

prop("C10", "Numerical helpers satisfy the equations that define them",
     "Interpolation reproduces the data at its nodes and linear functions in between, constrained least-squares solutions are feasible and optimal, line and peak fits recover noise-free parameters, quadric matrices vanish exactly on their surface in any frame, truncated distributions have consistent densities and quantiles, and rounding, weighting and statistics helpers agree with their definitions.",
     ["inputs"], "all well-conditioned inputs",
     "Tests sample one random instance or none.",
     ["math/interpolate.py", "math/lsqlin.py", "math/fit1d.py", "math/fit2d.py", "math/quadrics.py", "math/distributions.py", "math/statistics.py", "math/utils.py", "math/center.py", "math/linalg.py"],
     [("solvers", "math/lsqlin.py")],
     technique="hypothesis: validity predicates (KKT, residuals, exactness) over generated problems")

prop("C11", "Noise propagation is consistent forwards and backwards",
     "Propagating the mean and variance of a random variable through addition, multiplication, division, powers, logarithm, repetition and compounding gives the analytical moments, and reversing an operation returns the original variable. Propagating a photon flux through the optics, filters and detector of an instrument and reversing it recovers the flux, a more absorbing path never increases the signal, and transmissions stay between zero and one.",
     ["inputs", "configurations"], "all random variables, optics and detector settings",
     "Tests use a couple of set-ups with one flux.",
     ["math/noisepropagation.py", "detectors/base.py", "detectors/area.py", "optics/base.py", "optics/xray.py", "simulation/calcnoise.py"],
     [("moment propagation", "math/noisepropagation.py"), ("detector chain", "detectors/area.py")],
     technique="hypothesis: inverse relations, analytical moments, monotonicity")

prop("C12", "The local file tree behaves like a file tree",
     "Any sequence of creating, writing, reading, linking, copying, moving, renaming and removing files and directories through the path objects leaves the same tree, content and link targets as the same sequence on a simple tree model, and refused operations change nothing. Path joining, splitting, relative paths and common roots agree with each other.",
     ["histories"], "all operation sequences over small trees, with overwriting and missing nodes",
     "Tests run one scripted sequence.",
     ["io/fs.py", "io/localfs.py"],
     [("abstract path operations", "io/fs.py:Path"), ("local implementation", "io/localfs.py")],
     technique="hypothesis: model-based operation sequences in a scratch directory")

prop("C13", "The HDF5 tree behaves like a file tree and stores values faithfully",
     "Any sequence of creating, writing, linking, copying, moving, renaming and removing groups and datasets leaves the same tree as the same sequence on a simple tree model, inside one file and across files, and refused operations change nothing. Attributes, text of any unicode content, numbers, arrays and strings lists are read back as they were written, and updating attributes of a node touches no other node.",
     ["histories", "inputs"], "all operation sequences, tree shapes and values",
     "Tests run one scripted sequence with a few values.",
     ["io/fs.py", "io/h5fs.py"],
     [("HDF5 implementation", "io/h5fs.py"), ("attribute encoding", "io/h5fs.py")],
     technique="hypothesis: model-based operation sequences on HDF5 files in a scratch directory")

prop("C14", "NeXus bookkeeping is consistent and never overwrites results",
     "Looking up a process by name, parameters and predecessors returns the one existing process with exactly those, otherwise a new one is added under an unused name and nothing existing is changed. Data groups always list exactly the existing signals with the right default and axes in dimension order, whatever signals and axes are added, removed or selected, and notes, positions, axes units and titles are read back as written.",
     ["histories"], "all sequences of process creation, signal/axis manipulation, copying and re-opening",
     "Tests run one scripted sequence.",
     ["io/nxfs.py"],
     [("process lookup by checksum", "io/nxfs.py"), ("data group attributes", "io/nxfs.py:_NXdata")],
     technique="hypothesis: model-based histories on NeXus files")

prop("C15", "Axes keep their values, limits and units through every manipulation",
     "An axis built from any values, whether simplified to a regular or segmented one, represents those values within its precision, in order, with the units it was given; equality, copying, slicing and unit changes are consistent with those values. Locating a coordinate returns the nearest position, and extending or reducing limits keeps the grid spacing and includes the requested limits.",
     ["inputs", "histories"], "all axis kinds, values, directions, units and edits",
     "Tests use fixed axes.",
     ["process/axis.py"],
     [("axis types and simplification", "process/axis.py")],
     technique="hypothesis: model-based against explicit value arrays")

prop("C16", "A regular grid behaves as the stacked array of its signals",
     "Reading or interpolating a grid of signals by index or by axis coordinates gives what the same operation on the stacked array gives, independent of where the stacking dimension is and how the signals are stored. Interpolating on the grid points returns the stored values and assignments are visible in later reads.",
     ["inputs"], "all grid shapes, stack positions, storage types and coordinates",
     "Tests use one grid.",
     ["process/regulargrid.py", "process/h5regulargrid.py", "process/nxregulargrid.py", "process/edfregulargrid.py"],
     [("grid access", "process/regulargrid.py")],
     technique="hypothesis: differential against numpy/scipy")

prop("C17", "Processing tasks are idempotent and atomic",
     "Running a task whose result already exists returns that result without touching the file, and changing any result-determining parameter or the input gives a new, separate result while earlier results stay intact. When a task fails or is interrupted at any point, no half-written result is visible afterwards and running it again produces the same result as an undisturbed run.",
     ["fault_sequences", "histories"], "all task chains, parameter changes and failure points",
     "Tests only run tasks that succeed.",
     ["process/basetask.py", "process/nxprocess.py", "process/utils.py", "process/nxresult.py"],
     [("temporary output renamed on success", "process/basetask.py"), ("dependency checksums", "process/nxprocess.py")],
     technique="hypothesis: generated task histories with injected failures")

prop("C18", "Processing tasks compute what they claim on the whole data set",
     "Cropping, not-a-number replacement, math expressions, minus-log and resampling of a data set give, for every signal and every position of the stack dimension, the values a direct array computation gives. The resulting axes describe those values: same units, matching lengths and coordinates.",
     ["inputs", "configurations"], "all grids, dtypes, signals, stack positions and task parameters",
     "Tests run one small map per task with one stack dimension.",
     ["process/nxcrop.py", "process/nxreplace.py", "process/nxexpression.py", "process/nxminlog.py", "process/nxresample.py", "process/nxalign.py", "process/nxstack.py", "process/nxtile.py", "process/nxregulargrid.py", "process/nxlazy.py"],
     [("signal loops", "process/nxregulargrid.py")],
     technique="hypothesis: differential against direct numpy computation")

prop("C19", "Amounts of matter are conserved in compounds and mixtures",
     "Mole, mass and volume fractions of compounds and mixtures are non-negative, sum to one and convert back and forth without change; the elemental composition of a mixture equals that of its flattened components, whatever the nesting or the kind of fractions given. Adding an element or compound at a given fraction gives it that fraction (on top of what is there already) and keeps the ratios of all others, and density, molar mass and parsed chemical formulae follow from the atomic composition.",
     ["inputs", "histories"], "all formulae, component sets, fraction types and additions",
     "Tests check a few compounds.",
     ["materials/compound.py", "materials/mixture.py", "materials/stoichiometry.py", "materials/compoundfromformula.py", "materials/compoundfromlist.py", "materials/compoundfromelement.py", "materials/multielementbase.py", "materials/elementbase.py"],
     [("fraction conversion", "materials/stoichiometry.py"), ("bookkeeping", "materials/compound.py")],
     technique="hypothesis: conservation laws and an independent atomic-count model")

prop("C20", "Interaction cross sections obey the mixture rule",
     "Every mass attenuation, absorption, scattering and fluorescence cross section of a compound or mixture is the mass-fraction weighted sum over its elements, for scalar and array energies alike and, for compounds and flat mixtures, also when reported per element; totals equal the sum of their parts and never become negative. Results for a list of energies equal the results one by one, and refraction and scattering factors follow from the same elemental data.",
     ["inputs"], "all compounds, mixtures, energies and marked scatterers",
     "Tests compare a few compounds at fixed energies.",
     ["materials/element.py", "materials/elementbase.py", "materials/compound.py", "materials/mixture.py", "materials/csutils.py", "materials/utils.py", "patch/xraylib.py"],
     [("weighted sums", "materials/multielementbase.py"), ("shape handling", "materials/csutils.py")],
     technique="hypothesis: additivity and scalar/array metamorphic relations, differential against xraylib")

prop("C21", "Multilayer transmission and fluorescence follow the layer physics",
     "The transmission through any stack of layers is the product of the exponentials of the layers, decreases with thickness and density, and does not change when a layer is split or reordered; area densities, mass fractions and refined thicknesses derived from a stack are mutually consistent. Fluorescence and scattering rates calculated analytically agree with numerical integration, scale with layer count and detector solid angle, and refining a thickness from an absorbance returns the original thickness.",
     ["inputs", "configurations"], "all layer stacks, geometries and energies",
     "Tests check a few stacks.",
     ["materials/multilayer.py"],
     [("attenuation", "materials/multilayer.py"), ("rates", "materials/multilayer.py")],
     technique="hypothesis: metamorphic layer relations, differential against independent integrals")

prop("C22", "Spectra of lines and scattering keep rates and energies consistent",
     "Adding (spectra of the same source energies), scaling, weighting and converting spectra of fluorescence lines and scattering keeps the total rate and each line energy, and a peak profile integrates to the rate of its line. Energies and angles of elastically and inelastically scattered radiation satisfy the kinematic relation in both directions, and shells and lines written as text expand and parse back to the same set.",
     ["inputs"], "all line lists, rates, energies, angles and profiles",
     "Tests check a few lines.",
     ["materials/xrayspectrum.py", "materials/interaction.py", "sources/emspectrum.py", "detectors/xrf.py"],
     [("spectrum container", "materials/xrayspectrum.py"), ("kinematics", "materials/interaction.py")],
     technique="hypothesis: conservation relations and closed-form kinematics")

prop("C23", "All descriptions of polarization describe the same state",
     "Converting a polarization state between field vector, Stokes vector, coherency matrix and ellipse parameters and back gives the same state; the degree of polarization lies between zero and one, intensity is never negative, and rotating the frame composes and inverts. Scattered intensity computed from the state equals the one from the scattering matrix, and inelastic scattering reduces to elastic scattering at low energy.",
     ["inputs"], "all polarization states, frame rotations, energies and scattering directions",
     "Tests use random states for a subset of the conversions.",
     ["sources/polarization.py"],
     [("state conversions", "sources/polarization.py"), ("scattering matrices", "sources/polarization.py")],
     technique="hypothesis: round trips and differential between representations")

prop("C24", "Coordinate transforms form a consistent algebra",
     "Composing, inverting, copying and changing the reference frame of translations, rigid, similarity, affine and projective transforms acts on coordinates like applying them one after the other, and a transform followed by its inverse is the identity. Parameters set are the parameters read back, a transform estimated from exact point pairs maps those points onto each other, and transforming an image moves its content as the coordinates move.",
     ["inputs", "programs"], "all transform types, parameters, compositions and images",
     "Tests cover a few types with random parameters.",
     ["align/transform.py"],
     [("homogeneous coefficients", "align/transform.py:transform")],
     technique="hypothesis: differential against homogeneous matrices and analytical images")

prop("C25", "Image alignment finds the applied shifts and maps stacks accordingly",
     "A stack of images that differ by known translations is aligned so that all images coincide and the reported shifts are the applied ones, for every reference mode, stack dimension, region of interest, padding or cropping choice, and for data in memory or in files. All images of a stack get the same output size, coordinates that were only moved keep their values, and the shift of the coordinate origin reported matches the data.",
     ["inputs", "configurations"], "all shifts, image shapes, stack dimensions and alignment options",
     "Tests use one synthetic stack per method.",
     ["align/align.py", "align/alignFFT.py", "align/alignSimple.py", "align/alignSource.py", "align/alignDest.py", "process/nxalign.py"],
     [("alignment loop", "align/align.py"), ("shift estimation", "align/alignFFT.py")],
     technique="hypothesis: known-shift recovery, numpy model of padding and cropping")

prop("C26", "Merged HDF5 data show exactly the source data",
     "Merging groups of several scans, by stacking or by tiling maps, gives data sets whose every element equals the element of the source scan at the position which the scan shape prescribes; interrupted scans are cut to complete lines of the fast axis and missing positions hold the fill value. Group structure, attributes, texts and links are preserved, stacking and tiling tasks give matching axes, and sources are never modified.",
     ["inputs"], "all scan shapes, lengths, detector dimensions, dtypes, orders and tile shapes",
     "Tests use fixed shapes.",
     ["process/h5merge.py", "process/nxmerge.py", "process/nxstack.py", "process/nxtile.py"],
     [("virtual layouts", "process/h5merge.py")],
     technique="hypothesis: differential against maps filled line by line with numpy")

prop("C27", "Inherited parameters resolve to the nearest definition",
     "Reading a parameter in a tree of parameter nodes gives its own value or else that of the nearest ancestor, at any nesting depth of sub-nodes; changing or deleting a value (nested parameters: where they are defined) is seen by all descendants that do not override it and by no other node, and reading never changes the tree. Selecting jobs of a batch by number, range or all runs exactly the selected jobs once each and in order.",
     ["histories", "inputs"], "all trees, assignment histories, reads and job selections",
     "Tests check one tree and never the job selection.",
     ["pipelines/parameters.py", "pipelines/batch.py", "pipelines/run.py"],
     [("inheriting nodes", "pipelines/parameters.py"), ("job selection", "pipelines/batch.py")],
     technique="hypothesis: model-based histories")

prop("C28", "Detector geometry converts between distance, solid angle and coordinates",
     "Computing the solid angle from distance and detector area, and solving for any one of these from the other two, are mutual inverses, and the solid angle lies between zero and a full half space, decreasing with distance. Motor positions and detector distances are exact inverses and incoming/outgoing angles and directions are consistent with each other. The efficiency of a detector is the product of the filter transmissions and the absorption of the detector material.",
     ["inputs"], "all distances, areas, angles and motor settings",
     "Tests use a few fixed geometries.",
     ["geometries/base.py", "geometries/flatarea.py", "geometries/xrf.py", "geometries/diode.py", "detectors/xrf.py", "detectors/base.py"],
     [("solid angle", "geometries/base.py")],
     technique="hypothesis: inverse relations and closed forms")

prop("C29", "Flux and diode current calibrations are mutual inverses",
     "Converting a photon flux to a current, count rate or frequency and back returns the flux for any diode, gain, dark current, filters and energy spectrum; calibrating on data generated with known parameters recovers them. Normalization factors derived from a calibrated intensity monitor multiply back to the reference flux and time.",
     ["inputs", "configurations"], "all diodes, gains, energies, fluxes and calibrations",
     "Tests use the instrument defaults with a few fluxes.",
     ["detectors/diode.py", "geometries/qxrf.py", "instruments/configuration.py"],
     [("response operators", "detectors/diode.py")],
     technique="hypothesis: inverse relations on generated devices")

prop("C30", "Measured data files are read back as written",
     "Data saved in the supported text and image formats (images, spectra, scan files, tables) is read back with the same values, shape, headers and calibration, and reading a subset or metadata agrees with the full content. Names generated for new output never collide with existing ones and increase in order.",
     ["inputs"], "all data shapes, value types, labels and headers",
     "Tests round trip single files.",
     ["io/edf.py", "io/mca.py", "io/spec.py", "io/spe.py", "io/ascii.py", "io/excel.py", "io/target.py", "io/utils.py"],
     [("readers and writers", "io/edf.py")],
     technique="hypothesis: round trips through files in a scratch directory")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    na = []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        have = glob.glob(os.path.join(HERE, "checks", p["id"].lower() + "_*.py"))
        if not have:
            na.append({"property": p["id"], "reason": "check under construction"})
            continue
        cmd = "/opt/venv/bin/python run.py %s" % p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"] or "No violation among the generated cases (counts in the evidence file); absence of violations is not proven. Trusts numpy/scipy/h5py and the oracle in the check module.",
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import spectrocrunch, sys; print(sys.version)'",
                   "checks": checks, "not_applicable": na}, f, indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
