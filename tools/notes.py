DEFAULT_TECH = "runtime monitoring: reference-model oracle over randomised and adversarial executions"
DEFAULT_NOTE = ("Held on every execution of the workload (counts in the evidence file); no claim beyond it. Trusts the "
                "reference model in lib/, NumPy/LAPACK, and that numba-compiled functions behave as their Python source "
                "(numba is not installed here; a stand-in runs the source).")
NA = {}
R = "runtime monitoring: "
TECH = {
    "C01": R + "exhaustive small grids and hostile look-ups, every returned table and index judged by set/popcount oracles",
    "C02": R + "exhaustive small registers and random large ones, every operator result judged against the algebra on Python integers",
    "C03": R + "every assembled matrix judged against an independent second-quantised reference; frozen-argument monitors on the caller's arrays",
    "C04": R + "every assembled matrix judged against operator strings on the full register; spectra compared across symmetries",
    "C05": R + "every product judged against dense Kronecker algebra; frozen-input and repetition monitors around each call",
    "C06": "sanitizers and a race monitor: load/store instrumentation with a happens-before checker over shuffled thread orders, ASan+UBSan builds, thread-count comparison",
    "C07": R + "each returned eigenpair judged by residual, orthonormality and the full reference spectrum",
    "C08": R + "metamorphic monitors on recorded spectra (relabelling, spin and particle-hole exchange, one-particle sums)",
    "C09": R + "tagged eigenvectors through screening/adjust histories, rule checker on every step",
    "C10": R + "operator wrapper observes each application; coefficients judged against the spectral measure of the start vector",
    "C11": R + "residual, orthonormality and dense-solver oracles over hostile tridiagonal matrices",
    "C12": R + "Lehmann-sum oracle from an independent reference ensemble",
    "C13": R + "Lehmann-sum oracle over recorded histories of builds, frozen-eigenspace monitors",
    "C14": R + "Lehmann-sum oracle for every element, both builders, frozen-argument monitors",
    "C15": R + "exact rational, resolvent and recursion oracles over the compiled kernel, guarded arguments, thread counts",
    "C16": R + "brute-force expectation values, frozen-vector monitors over repeated use",
    "C17": R + "probe function records every evaluation; Fermi-sum oracle with independently computed truncation bound",
    "C18": R + "query-recording probe; the judged potential must bracket the goal or an error must be seen",
    "C19": R + "quadrature oracle (finite part/principal value) and symmetry monitors",
    "C20": R + "golden-rule oracle per matrix element, exact rational null vectors, Gibbs and lead-exchange monitors",
    "C21": R + "second-order amplitude oracle over all virtual states, detailed-balance and lead-exchange monitors",
    "C22": R + "finite-difference and descent monitors over histories of Python and compiled fits in one process",
    "C23": "sanitizers: ASan, UBSan, MSan (valgrind in depth), counted and failing allocations, poison-fill differential runs",
    "C24": R + "field-by-field monitors on poisoned and guarded arrays, Python/compiled differential",
    "C25": R + "state monitors after each call of random fit/update/solve histories, ground-state Lehmann oracle",
    "C26": R + "dense-inverse and quadrature oracles over histories of lattice updates",
    "C27": R + "trace checker over logged fit/update/solve calls and signals of the self-consistency map",
    "C28": R + "threaded ranks on a collective-checking communicator with injected delays; serial results as oracle, arrival orders counted",
    "C29": R + "logged generator draws replayed by an independent reference calculation",
    "C30": R + "printed output parsed back and matched one to one with the eigenpairs",
    "C31": R + "recording axes; every line and circle matched one to one with bonds, amplitudes and brute-force occupations",
}
NOTE = {}
