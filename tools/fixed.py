"""Writes the list of repaired defects into known_findings.json."""
import json, subprocess, sys
C = {"168b555": ("C06", "diffract raised when exactly one reflection diffracts"),
 "852648e": ("C06", "a single-phase Polycrystal without element_phase_map could not diffract"),
 "2ef5105": ("C01", "Polycrystal.save put the xdmf at a wrong path when the path has a dot"),
 "4d3b95b": ("C04", "TetraMesh.translate undid earlier rotations of the node coordinates"),
 "a378d38": ("C14", "configure_device recorded a device that torch had rejected"),
 "6f4cca6": ("C05", "a failing transform, update or set_beam_vertices left a half-moved object"),
 "43c9580": ("C07", "a diffraction result changed when sample, beam or motion moved later"),
 "9ba9ffc": ("C08", "threads sharing a Phase diffracted each other's lattice planes"),
 "1a9f511": ("C09", "the kernel of a nano peak depended on the other peaks of its memory batch"),
 "9f0a494": ("C11", "a slow machine dropped grains from macro images (wall-clock limit of the solver)"),
 "d5652ba": ("C12", "macro rendering of grains at the detector edge raised or gave NaN"),
 "e23b2ca": ("C12", "macro peaks were brighter than micro and nano peaks by the pixel area"),
 "c6d48dc": ("C02", "a failed, interrupted or crashed pickle save destroyed the previous file (C03 likewise)"),
 "f759cd9": ("C01", "TetraMesh.save changed the element_data of the caller"),
 "847d23b": ("C02", "a failed TetraMesh.save destroyed the mesh saved there before"),
 "ff8b421": ("C15", "samples, detectors and motions shared memory with the arrays passed in"),
 "28401a5": ("C01", "loading a beam changed the last digits of its wave vector"),
 "3accf30": ("C02", "TetraMesh.save returned although its data could not be written"),
 "7fb323e": ("C06", "samples of several phases could not diffract (regression of 9ba9ffc)"),
 "15a27b2": ("C15", "samples shared the list of phases, and phases the unit cell, with the caller"),
 "0e0b84b": ("C12", "volume rendering raised LinAlgError on grains that the beam cuts at a corner"),
 "5e3781f": ("C06", "lattice planes of oblique unit cells were missing"),
 "3cba0cc": ("C07", "a diffraction result shared arrays with the sample, beam and motion"),
 "1c9717d": ("C09", "automatic rendering drew grains between overlapping limits of volume twice"),
 "9112678": ("C10", "rounding added rows and columns of pixels, and volume rendering lost the last ones (C12)"),
 "bdf28f4": ("C12", "nano rendering raised on a peak that hits the detector head on"),
 "e0480b0": ("C13", "texture and strain functions got tensors that are part of the mesh instead of numpy arrays"),
 "84daa6f": ("C14", "an interrupted selection left torch on another device than the one reported"),
 "32d7499": ("C06", "reflections of crystals aligned with the lab axes were lost or recorded twice"),
 "c183db8": ("C12", "diffraction raised QhullError on grains whose centre lies on a face of the beam"),
 "782e6e9": ("C06", "rounded cosines outside [-1, 1] gave angles that are not numbers")}
C.update(json.loads(sys.argv[1]) if len(sys.argv) > 1 else {})
d = json.load(open("known_findings.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
order = [l.split()[0] for l in reversed(log) if l.split(" ", 1)[1].startswith("fix:")]
assert set(order) == set(C), set(order) ^ set(C)
d["fixed"] = [f"fixed: property={C[h][0]} {h} {C[h][1]}" for h in order]
json.dump(d, open("known_findings.json", "w"), indent=1)
