_L = ("bounded: see the evidence file for the scenarios; scripted update rules and small meshes; "
      "plots are inert during replay")
_T = "TLA+ (TLC): model-checked life-cycle spec, TLC-generated scenarios replayed on the code, traces validated by TLC"
NOTE = {
    "C01": (_T, _L), "C02": (_T, _L), "C03": (_T, _L),
    "C04": (_T + "; crash injection at every file-system event", _L),
    "C05": (_T + "; crash injection at every file-system event", _L),
    "C06": ("TLA+ (TLC): history recorder spec model-checked, TLC-generated operation sequences replayed on "
            "HistoryCollection, traces validated by TLC",
            "bounded operation sequences, two collections, integer-valued data"),
    "C18": ("TLA+ (TLC): timer spec model-checked, TLC-generated schedules replayed with a scripted "
            "clock, traces validated by TLC", "bounded schedules, three names, integer clock"),
    "C10": ("TLA+ (TLC): schedule laws model-checked, TLC-generated schedule configurations evaluated on the code, "
            "value series validated by TLC",
            "bounded totals and plateau counts; values compared on an integer grid"),
    **{k: ("TLA+ (TLC): density-update spec model-checked, TLC-generated problems/configurations/request splits "
           "run on the real optimizers, every iteration validated by TLC against the spec",
           "bounded: meshes of 16-320 elements, 4-7 iterations, random walk over the configuration space")
       for k in ("C07", "C08", "C09", "C11", "C23", "C24")},
    **{k: ("TLA+ (TLC): domain spec (dof/facet/element selection over abstract tagged meshes) model-checked, "
           "TLC-generated problems built on the real classes, every observation validated by TLC",
           "bounded: box meshes of a few tens of elements (hex/tet), up to several regions per condition")
       for k in ("C12", "C13")},
    "C20": ("TLA+ (TLC): export spec model-checked, TLC-generated problems exported (and run) by the real code, the "
            "files read back and validated by TLC",
            "bounded: small meshes, runs of 2-3 iterations"),
    "C16": ("TLA+ (TLC): filter spec (averaging matrix, passive elements, radius updates) model-checked, TLC-generated "
            "call histories replayed on the real filters, response matrices and every call validated by TLC",
            "bounded: meshes of 4-24 elements, histories of length 6"),
    "C17": ("TLA+ (TLC): projection spec with exact rational points model-checked, TLC-generated parameters and calls "
            "evaluated on the code, curves and calls validated by TLC",
            "bounded: sharpness 0.005-500, 101-point curves, small arrays"),
    "C14": ("TLA+ (TLC): state-solve spec (backends, load cases, shared factors, faults) model-checked, TLC-generated "
            "problems solved by the real backends with injected solver faults, every solve validated by TLC",
            "bounded: meshes of 4-300 elements; PETSc is not installed: its requests must raise, and with a stand-in petsc4py they must be faithful to the options and never silent"),
    "C15": ("TLA+ (TLC): exactly solvable bar in the spec, TLC-generated problems evaluated by the real code, "
            "objectives, energies and sensitivities (against numerical derivatives) validated by TLC",
            "bounded: meshes of 6-18 elements; heat problems with zero prescribed temperature"),
}
NOTE["C19"] = ("TLA+ (TLC): configuration store and command-line meaning specified and model-checked, TLC-generated "
               "export / import / change / run histories and command lines executed on the real classes, every "
               "outcome validated by TLC", "bounded histories of length 8; command lines over all common options")
NOTE["C21"] = ("TLA+ (TLC): lattice geometry (volumes, orientation, neighbourhoods) specified with exact integers and "
               "model-checked over all tetrahedra and numberings of a cell, TLC-generated meshes and call sequences "
               "executed on the code, every result validated by TLC", "bounded: meshes of 1-50 elements, plane faces")
NOTE["C22"] = ("TLA+ (TLC): normalisation life cycle and dimension algebra model-checked, TLC-generated problems and "
               "request histories run with and without normalisation, every pair of states validated by TLC",
               "bounded: meshes of 6-40 elements, 4 iterations, histories of 4 requests")
NOTE["C25"] = ("TLA+ (TLC): material law in exact integer arithmetic model-checked (isotropy, reciprocity, rigid motions, "
               "convexity), TLC-generated meshes, constants and calls evaluated by the real code, every number validated "
               "by TLC", "bounded: integer meshes of 1-72 elements, densities in tenths, exponents 1-3, three Poisson ratios")
