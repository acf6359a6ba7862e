"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=()):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe, hook_needed=hook),
        ))


X = "xrd_simulator/"

prop("C01", "A saved object comes back exactly as it was",
     "Loading a file written by saving a beam, detector, motion, mesh or polycrystal yields an object with the same state, which diffracts and renders identically, whatever operations preceded the save. This holds for every legal file name and directory and however the operating system splits or interrupts the reads and writes. Saving changes neither the saved object nor any file other than its own.",
     ["histories", "inputs", "fault_sequences"],
     "All histories of building, moving, re-illuminating, saving and loading objects; all relative, absolute, dotted and extension-less names; all short reads, short writes and EINTR patterns.",
     "The tests save one object of each kind once, under one plain name, on a well-behaved disk, mostly before anything has happened to it, and compare a few fields.",
     [X+"beam.py", X+"detector.py", X+"motion.py", X+"mesh.py", X+"polycrystal.py", X+"utils.py"],
     [("dill serialisation of each class", "save/load of Beam, Detector, RigidBodyMotion, Polycrystal"),
      ("xdmf/h5 serialisation through meshio", "TetraMesh.save/load, Polycrystal.save"),
      ("temporary file moved in place", "utils._atomic_write")],
     ["Class.save", "Class.load", "diffract and render of the loaded objects", "directory listing"])

prop("C02", "A failed or crashed save never costs the previous file",
     "If a save fails, or the process or machine stops at any point during it, loading that path afterwards yields the complete earlier object or the complete new one, never a damaged or mixed one. A save that returns normally has taken full effect and survives a crash of the process; a save whose data could not be written raises. A save that fails while its process lives on leaves no stray files behind.",
     ["crash_points", "fault_sequences", "histories"],
     "Every system call of every save as crash, power-loss or error point (full disk, I/O error, short write), over histories of saves to new and existing paths.",
     "No test injects a disk error, a full disk or a crash; all of them only ever save to a fresh path.",
     [X+"utils.py", X+"beam.py", X+"detector.py", X+"motion.py", X+"mesh.py", X+"polycrystal.py"],
     [("write aside, fsync, rename", "utils._atomic_write"),
      ("write .h5 and .xdmf aside, close with error check, rename", "TetraMesh.save")],
     ["Class.save outcome", "Class.load after restart", "directory listing"])

prop("C03", "A saved path is an atomic register for concurrent users",
     "When several clients save and load the same path at the same time, every load returns one complete object that some client saved, or the one there before. Saves and loads are linearizable: each takes effect at one instant between its start and its end. No client fails because of the others, even when one of them crashes midway.",
     ["schedules", "crash_points", "histories"],
     "All interleavings, at system-call granularity, of two to four clients saving and loading one path, with clients crashing at any call.",
     "No test saves or loads concurrently.",
     [X+"utils.py", X+"beam.py", X+"detector.py", X+"motion.py", X+"polycrystal.py"],
     [("unique temporary name, atomic rename", "utils._atomic_write")],
     ["Class.save", "Class.load", "recorded history of invocations and responses"])

prop("C04", "The sample pose is the composition of all motions applied",
     "After any sequence of transforms, and of mesh translations, rotations and updates, with saves, crashes and reloads in between, the lab-frame nodes, element centroids, bounding balls, face normals, orientations and strains all equal the original ones carried through the composition of those rigid motions. Sample-frame quantities, connectivity, volumes and radii never change. All quantities of one object always describe the same pose.",
     ["histories", "crash_points", "inputs"],
     "All sequences of motions (any axis, angle in (0, pi), translation, origin and time) on any mesh from one element up, interleaved with save, load, crash and restart.",
     "Tests apply one or two motions to one object and check some fields; bookkeeping errors show only for particular combinations and orders.",
     [X+"polycrystal.py", X+"mesh.py", X+"motion.py"],
     [("Polycrystal.transform", X+"polycrystal.py"), ("TetraMesh.translate/rotate/update", X+"mesh.py"),
      ("RigidBodyMotion.__call__/rotate", X+"motion.py")],
     ["mesh_lab, mesh_sample, orientation_lab, orientation_sample, strain_lab, strain_sample"],
     state=[("mesh_lab / orientation_lab / strain_lab", "current pose of the sample", "Polycrystal"),
            ("mesh_sample / orientation_sample / strain_sample", "reference pose, never changes", "Polycrystal")])

prop("C05", "An operation that fails part way leaves every object whole",
     "If any operation on a sample, mesh, beam, motion or detector fails part way, because memory runs out, the user interrupts it, or input, output or the terminal fails, then every object involved is either entirely as before or entirely as after the operation. Repeating the operation without the fault gives exactly what a fault-free run gives.",
     ["fault_sequences", "crash_points", "histories"],
     "Every call made inside the package during every public operation as the point where an allocation failure, Ctrl-C, disk error or broken terminal strikes, singly and repeatedly.",
     "Tests never make an operation fail half way.",
     [X+"polycrystal.py", X+"mesh.py", X+"beam.py", X+"detector.py", X+"motion.py", X+"cuda.py"],
     [("compute everything, then store", "Polycrystal.transform, TetraMesh.update/translate, Beam.set_beam_vertices"),
      ("no mutation in diffract/render", "Polycrystal.diffract, Detector.render")],
     ["public state of all objects before, after the failure and after the retry", "peaks and frames of the retry"])

prop("C06", "A stepped, crashing, resumed scan records each reflection exactly once",
     "Measuring a motion in consecutive steps, with crashes and restarts from saved state between and during them, records exactly the reflections of one uninterrupted measurement, each once. These are exactly the solutions of the Laue condition, for all allowed lattice planes of the grain's own phase within the Bragg limits, whose source point the beam illuminates at that moment. Each is recorded with its time, scattering vectors, source point, volume, scattering angle and correction factors as given by the sample's current pose and strain.",
     ["histories", "crash_points", "inputs"],
     "All multi-phase strained samples, beams, motions, numbers of steps and crash points; each recorded peak table is compared row by row with an independent executable model.",
     "Tests check selected fields for a few fixed set-ups and a single undivided motion; none compares a whole peak table with a model or resumes a scan.",
     [X+"polycrystal.py", X+"laue.py", X+"phase.py", X+"motion.py", X+"beam.py", X+"scattering_factors.py", X+"structure_factors.py"],
     [("Polycrystal.diffract", X+"polycrystal.py"), ("tangent half-angle solver", X+"laue.py"),
      ("Beam illumination test", X+"beam.py"), ("Polycrystal.save/load/transform", X+"polycrystal.py")],
     ["peaks tensor and columns returned by diffract"])

prop("C07", "A diffraction result is a snapshot",
     "The result of a diffraction computation never changes after it was returned: whatever is done afterwards to the sample, its mesh, the beam, the motion, the phases or the detector's other renderings, in whatever order, rendering it later gives the same image as rendering it at once. Rendering does not change the result either, so that it can be rendered again by any method, frame count or detector.",
     ["histories", "schedules"],
     "All interleavings of diffract, transform, beam move, motion change, save, load and render calls in pipelines with several results outstanding.",
     "Tests render each result immediately and once.",
     [X+"polycrystal.py", X+"detector.py", X+"mesh.py", X+"beam.py"],
     [("copies placed in the result", "Polycrystal.diffract"), ("new dict and tensors", "Detector.peaks_detector_intersection")],
     ["frames from deferred render", "content of the result dict"])

prop("C08", "Concurrent simulation of one set-up equals sequential simulation",
     "Threads that diffract, render and save at the same time, sharing samples, phases, beams, motions and detectors that nobody modifies, each obtain exactly what they would obtain running alone, for every interleaving. They neither fail nor block each other for ever.",
     ["schedules"],
     "All interleavings, at source-line granularity inside the package, of two to four threads with different wavelengths, Bragg limits, detectors, methods and frame counts on shared objects.",
     "The tests are single-threaded.",
     [X+"polycrystal.py", X+"phase.py", X+"detector.py", X+"utils.py", X+"structure_factors.py"],
     [("planes passed by value", "Polycrystal.diffract, Phase._setup_diffracting_planes"), ("no shared mutable state in render", "Detector.render")],
     ["peaks and frames of every thread, loaded saves"])

prop("C09", "Images do not depend on free memory or on batching",
     "The rendered image depends only on the peaks and the rendering options: not on how much memory is free or reported, on whether it changes or the probe fails meanwhile, nor on how many other peaks are rendered together or in which order. Rendering peaks together gives the sum of rendering them apart, for each method and for the automatic choice, which renders every peak by exactly one method.",
     ["fault_sequences", "inputs", "configurations"],
     "All sequences of reported free memory (huge, tiny, zero, fluctuating, failing) and all subsets and orders of peaks of mixed grain sizes, from one to several batches.",
     "Tests render once with whatever memory the test machine has; batch boundaries are never crossed.",
     [X+"detector.py", X+"utils.py"],
     [("memory-aware batches", "Detector._render_airy_peaks, Detector._render_gauss_peaks"), ("per-peak kernels", "Detector._airy_kernel_batch"),
      ("memory probe", "utils.return_device_memory")],
     ["frames returned by render"])

prop("C10", "Frames partition the exposure",
     "Splitting an exposure into any number of frames puts every recorded peak into exactly one frame, the one whose equal share of the time contains its diffraction time, and the frames sum to the single integrated image. Frame i of an undivided scan equals the image of step i of the same scan measured in steps.",
     ["inputs", "configurations", "histories"],
     "All samples, motions, frame counts and methods, and all divisions of a scan into steps, with peaks at and next to frame boundaries.",
     "Tests use one or two frame counts on fixed samples and never relate frames to steps.",
     [X+"detector.py", X+"polycrystal.py", X+"motion.py"],
     [("time binning", "Detector.peaks_detector_intersection"), ("per-frame deposit", "Detector._render_*")],
     ["frames and frame column returned by render"])

prop("C11", "Results do not depend on the speed of the machine or its clock",
     "Diffraction and rendering give the same result however slow, stalled or loaded the machine is and however its clocks behave: stalls of any length at any point, jumps forwards and backwards, and clocks that stand still. No grain that the beam illuminates goes missing from an image because a computation took long.",
     ["fault_sequences", "schedules"],
     "All behaviours of the clocks seen by the process, native solvers included, during every operation.",
     "Tests run at one speed on an idle machine with a well-behaved clock.",
     [X+"beam.py", X+"detector.py"],
     [("linear program without a wall-time limit", "Beam._find_feasible_point")],
     ["frames returned by render, peaks returned by diffract"])

prop("C12", "Volume rendering conserves illuminated volume for every random draw",
     "In volume rendering, a peak whose shadow lies on the detector deposits in total its intensity factor times the grain volume that the beam illuminates, the same total as the point-like methods give for a wholly illuminated grain. It is deposited within the shadow, up to the point spread, and one cut by the detector edge deposits no more than that. Every pixel is finite and non-negative, whatever the random sampling draws.",
     ["inputs", "configurations"],
     "All grain shapes, sizes relative to the pixels, beam overlaps, positions relative to the detector edge, and all draws of the random generator.",
     "Tests render a few grains in the middle of a detector with one unseeded draw, and check shapes or rough properties.",
     [X+"detector.py", X+"beam.py", X+"utils.py"],
     [("hull projection", "Detector._project_convex_hull"), ("beam-grain intersection", "Beam._intersect"), ("random sampling", "utils._sample_convex_hull_3d")],
     ["frames returned by render"])

prop("C13", "Random texture sampling yields valid samples from the given texture",
     "Samples generated from an orientation distribution or as a powder have, for every random draw, the requested geometry, one proper rotation per element drawn from the distribution at the element's position, and the strain prescribed at its position in lab coordinates, with each phase assigned validly and in the requested proportions. Over many draws, orientations follow the distribution, and nothing outside its support is ever drawn. The same generator state gives the same sample.",
     ["inputs", "configurations"],
     "All draws of the random generators, for uniform, concentrated and position-dependent distributions, fractions, strain fields and mesh resolutions.",
     "Tests draw once without control of the generator and check shapes and a coarse statistic.",
     [X+"templates.py", X+"utils.py"],
     [("ODF binning and sampling", "templates._sample_ODF"), ("sample builders", "templates.polycrystal_from_odf, get_uniform_powder_sample")],
     ["returned polycrystal"])

prop("C14", "Device selection never disagrees with itself",
     "After any sequence of device selections, whatever the accelerator does meanwhile (appears, vanishes, rejects the selection), the reported device, the returned device and the default device of new tensors agree, and equal the accelerator only if it was asked for and available. A selection that fails, or names no known device, raises and changes nothing. Simulation on the selected device then gives the same results as before.",
     ["fault_sequences", "histories"],
     "All sequences of selections under all sequences of availability answers and selection failures.",
     "Tests run on a machine without accelerator and never make the driver change its answer or fail.",
     [X+"cuda.py", X+"utils.py"],
     [("configure_device / get_selected_device", X+"cuda.py")],
     ["configure_device return value or exception", "get_selected_device", "device of new tensors"])

prop("C15", "Results depend on inputs and current pose, not on history",
     "A diffraction or rendering depends only on its arguments and the current state of the objects, not on what was computed with them before, on failed calls, or on what the caller does afterwards with the arrays and lists objects were built from or results handed out. Two runs with equal inputs and random state give identical results.",
     ["histories", "inputs"],
     "All histories of diffractions with other beams, wavelengths, Bragg limits, motions and detectors, renders, failed calls, loads and caller-side changes of input arrays, before the compared call.",
     "Tests use fresh objects for each check, so stale or shared state cannot show.",
     [X+"polycrystal.py", X+"phase.py", X+"detector.py", X+"beam.py", X+"motion.py", X+"mesh.py"],
     [("planes recomputed per call", "Polycrystal.diffract"), ("inputs copied at construction", "constructors")],
     ["peaks and frames compared with a freshly built set-up"])

prop("C16", "Strain, unit cell and B matrix map onto each other exactly",
     "Converting a strain tensor to a lattice matrix and back is the identity for all feasible strains, and infeasible strains are rejected.",
     ["inputs"], "All symmetric strain tensors and unit cells.",
     "Tests sample a few tensors.",
     [X+"utils.py"], [("_epsilon_to_b / _b_to_epsilon", X+"utils.py")], ["return values"])

prop("C17", "Structure factors agree with the reference library",
     "Batched structure factors equal those of the scalar reference implementation for every plane and crystal structure file.",
     ["inputs"], "All crystallographic information files and Miller indices.",
     "Tests compare two structure files.",
     [X+"structure_factors.py"], [("compute_structure_factors_batch", X+"structure_factors.py")], ["return values"])

prop("C18", "Meshes from level sets fill the level set",
     "A mesh generated from a level set covers its positive region, up to the requested cell size, with valid non-overlapping elements.",
     ["inputs"], "All level-set functions and cell sizes.",
     "Tests use spheres.",
     [X+"mesh.py"], [("generate_mesh_from_levelset", X+"mesh.py")], ["mesh"])

prop("C19", "Peak profiles have the width the grain size demands",
     "The profile rendered for a nanocrystal has the full width at half maximum of the Scherrer equation, for every size, wavelength and detector geometry.",
     ["inputs"], "All sizes, wavelengths, distances and pixel sizes.",
     "Tests recover the width for one size and geometry.",
     [X+"detector.py", X+"scattering_factors.py"], [("Airy kernels", "Detector._airy_kernel_batch")], ["frames"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
