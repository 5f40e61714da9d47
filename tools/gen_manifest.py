"""Writes MANIFEST.json: one check per property whose monitor exists."""

import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": ("runtime monitor: solved regions against an independent energy operator",
            "Every solve of generated regions is judged by orthonormality, energy inside the region and spectrum, from a kernel computed by Gauss-Legendre quadrature and associated Legendre recurrences of our own."),
    "C02": ("runtime monitor: Shannon number against the exact area", "Closed-form areas for caps and boxes, exact pixel areas for masks, vertex counts for meshes; ties within rounding are not judged."),
    "C03": ("history monitor: random solve/delete/reload sequences against empty-folder solves", "Bit-identity of every result with the solve in an empty folder over random histories, all subsets of the saved files and several processes."),
    "C04": ("fault injection at every file-system event of a solve, then recovery monitor", "Each open/write/rename event of a solve is made to fail or to kill the process; the folder it leaves is then used by a fresh solve. Power loss (unsynced blocks) is outside."),
    "C05": ("schedule perturbation with injected delays, bit-identity oracle", "Solves with many worker counts under injected delays and a tiny switch interval are compared bit by bit with one worker; distinct observed interleavings are counted."),
    "C06": ("fault injection at every step of the workers, leak and result monitor", "The k-th call of each step used by workers fails for every k in range; caller, later solves, saved files and shared memory are observed."),
    "C07": ("runtime monitor: inner products and sums against direct evaluation", "Analyses and syntheses of random signals against sums and quadratures of our own."),
    "C08": ("runtime monitor: tiling and exact reconstruction over the parameter range", "All admissible B, j_min and L within bounds, random signals."),
    "C09": ("runtime monitor: algebraic laws and direct evaluation of basis functions", "Translations, rotations and convolutions of random functions against Wigner matrices and harmonics of our own."),
    "C10": ("runtime monitor: measured SNR and statistics of the generated noise", "Noise is measured for every function class with noise over random levels."),
    "C11": ("runtime monitor: sample-wise thresholding oracle", "Thresholded fields are compared sample by sample; samples at the threshold itself within rounding are not judged."),
    "C12": ("runtime monitor: residuals and inertia of the mesh Laplacian", "Residuals of every pair and the count of smaller eigenvalues (Sylvester inertia or full spectrum) for all bundled meshes."),
    "C13": ("runtime monitor: mesh inner products and energies against direct sums", "All bundled meshes, random signals and numbers of functions."),
    "C14": ("runtime monitor: sample-point classification against direct geometry", "Masks of random regions, bounds on grid lines included, and random mask files and environment variables."),
    "C15": ("runtime monitor: acceptance table over generated valid and invalid inputs", "Every documented range is probed inside, at and outside its limits, at construction and assignment."),
    "C16": ("runtime monitor: collision detection over generated parameter sets", "Names of many parameter sets per class are collected and pairwise different parameters with one name are reported; determinism across processes."),
    "C17": ("runtime monitor: recorded plot data against an independent rendering", "The figure handed to plotly is intercepted and every value compared with a synthesis of our own."),
    "C18": ("runtime monitor: command-line runs against library calls", "Random command lines over every function and option; the intercepted figure is compared with the one computed through the library."),
    "C19": ("runtime monitor: coefficients against definitions", "Each function class over random parameters against its formula, with conjugate symmetry and spin observed."),
    "C20": ("runtime monitor on synthetic data sets in the published format", "The published files cannot be fetched here: synthetic ones of the same format are used, and the transforms applied to them are recomputed."),
    "C21": ("runtime monitor with a scripted archive and recorded lookups", "Archive outcomes (listed, missing, unreachable, corrupted) are scripted and every query recorded."),
    "C22": ("runtime monitor: before/after fingerprints of inputs and global state, repeated calls", "Inputs are fingerprinted before and after, calls repeated under changed global state and in other processes."),
    "C23": ("stress with concurrent clients of one data folder, offline check of results", "Threads and processes started together, with delays injected around saving and loading."),
    "C24": ("bounds-checked, interpreted and memory-filled executions of the compiled kernel; floating-point-error monitor", "The compiled kernel runs with NUMBA_BOUNDSCHECK=1, interpreted, with several thread counts and with fresh memory filled with rubbish (MALLOC_PERTURB_), and the results are compared; floating-point warnings of numpy are recorded and finiteness observed at the limits of the ranges."),
    "C25": ("audit hooks, system-call trace and before/after snapshots of folders and process-wide settings",
            "Every operation of the other monitors and the commands run in a scratch home with foreign files in every folder; audit events of the interpreter, recorded system calls (strace of our own child), folder contents, descriptors, threads, children, shared-memory names and process-wide settings are compared. Imports of the packages the library builds on are left out."),
    "C26": ("runtime monitor: resampled fields against an independent synthesis; statistics of random signals", "Fields at random resolutions, spins and realities are compared with a synthesis of our own; random signals with chi-squared and Kolmogorov-Smirnov limits of probability below 1e-9 and with the recorded state of the generator."),
    "C27": ("runtime monitor: relations between the solutions of related regions", "Pairs of related regions are solved with the real code and the relation between the operators put together from their functions is observed; no reference solution is involved."),
    "C28": ("runtime monitor: chains of operations against their definition", "Complete denoising chains and the response to every unit signal are executed and compared with our own; levels are also compared with the noise that the library makes."),
}
LEVEL = {"C04": "fault_enumeration", "C06": "fault_enumeration"}
checks = [
    {"property": k, "quick_cmd": f"./run.sh {k}", "thorough_cmd": f"./run.sh {k} --tier thorough", "technique": t,
     "level": LEVEL.get(k, "exploration"),
     "level_note": n + " Holds on what was executed; trusts numpy, scipy and the oracle code in /verif/mon."}
    for k, (t, n) in TECH.items() if (V / "mon" / f"{k.lower()}.py").exists()
]
done = {c["property"] for c in checks}
ids = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in done],
    "notes": "No hooks in /repo: every observation is made from outside (patched library calls, audit hooks, child processes).",
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks")
