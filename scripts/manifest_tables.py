COMMON = ("Proved for all inputs by the verifier from the current source; trusted: the obligation generator (tool/), go/ssa, the solvers, the models of "
          "library functions listed in the evidence, purity of functions and interfaces that the user supplies; mathematical integers; termination is not proved.")
NOTES = {
 "C01": "Theorem over proactive.Negotiate for any options, chooser, request and representations.",
 "C02": "Theorems over proactive, reactive and transparent Negotiate.",
 "C03": "Theorems over proactive, reactive and transparent Negotiate.",
 "C04": "Theorem over proactive.Negotiate, with matching as the contracts of the header types define it.",
 "C05": "Theorem over the 406 paths of proactive.Negotiate for any options, chooser, list constructors and representations.",
 "C10": "Theorem over transparent.Negotiate for any options, chooser, request and representations, and contracts of the directives.",
 "C11": "Theorem over transparent.Negotiate, with Alternates as the constructor of the header field gives it.",
 "C12": "Theorem over transparent.Negotiate.",
 "C13": "Theorem over reactive.Negotiate for any list constructor.",
 "C15": "Weights of parsed ranges.",
 "C16": "Contracts of the header constructors.",
 "C17": "Contracts of the Compatible methods.",
 "C18": "Theorems over the ordering methods.",
 "C24": "Theorems over proactive, reactive and transparent Negotiate.",
 "C25": "Frame conditions of all contracts.",
 "C26": "Absence of panics in all contracts.",
}
REASONS = {}
