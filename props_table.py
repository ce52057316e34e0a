"""Which engines decide each property, and how (text for the evidence and the manifest)."""
PROPS = {
    "C01": dict(engines=["symex"], how="Every sequence of linear-combination operations up to the bound is run on the real type with symbolic coefficients; the value at a symbolic assignment must be the denoted polynomial, decided by canonical polynomial arithmetic and an SMT query."),
    "C02": dict(engines=["symex"], how="A family of circuits is synthesised directly and through every wrapper against recording, test and failing back ends with symbolic coefficients and values; the two event streams must be identical, differences being decided by the solver."),
    "C03": dict(engines=["symex"], how="Constraints emitted by the real gadgets are extracted with symbolic coefficients and an SMT solver looks for any satisfying assignment over the 255-bit field whose result differs from the boolean specification; honest witnesses are run on every path."),
    "C04": dict(engines=["llsym"], how="The bit allocators are executed from LLVM bitcode on a symbolic integer, field element or bit; the witness bits must be the digits, the constraints derived values must be bits in every satisfying assignment, and the shape must be the same without a value."),
    "C05": dict(engines=["symex"], how="Constraints emitted by the number gadgets are extracted with symbolic coefficients; the solver looks for a satisfying assignment over the 255-bit field with a wrong result, and honest witnesses are symbolic numbers (all branch regions)."),
    "C06": dict(engines=["llsym"], how="The decomposition gadgets are executed from LLVM bitcode on a symbolic field element; the honest witness must satisfy every constraint, and over every assignment of the bits allowed by the constraints the solver shows the bits recompose to the number and (strict) stay below the modulus."),
    "C07": dict(engines=["llsym"], how="The word gadgets are executed from LLVM bitcode with symbolic 32-bit operands of every kind; from the emitted constraints alone the value of every output bit is derived by solver-checked deductions and must equal the machine operation, as must the witness values; the witness must satisfy every constraint."),
    "C08": dict(engines=["symex"], how="Equalities of symbolic bit combinations go through the real MultiEq; the solver decides, over the whole field, that the emitted constraints hold iff each equality holds."),
    "C09": dict(engines=["llsym"], how="The gadget is executed from LLVM bitcode on symbolic message bytes; each output bit is derived from the constraints alone by solver-checked deductions and compared with a reference written from FIPS 180-4 by equivalence sweeping."),
    "C10": dict(engines=["llsym"], how="The gadget is executed from LLVM bitcode on symbolic message bytes; each output bit is derived from the constraints alone by solver-checked deductions and compared with a reference written from RFC 7693 by equivalence sweeping."),
    "C11": dict(engines=["symex"], how="Lookup gadgets run with a fully symbolic table; the solver decides soundness over all tables, index bits and assignments, honest witnesses are run on every index path."),
    "C12": dict(engines=["llsym"], how="Packing is executed from LLVM bitcode on symbolic bits, natively and as a gadget; elements must have the bits as binary digits and be below the modulus (hence injective), and the constraints must force the public inputs to them."),
    "C13": dict(engines=["llsym"], how="Every gadget is executed from LLVM bitcode with symbolic values and again with values absent or partly known; allocations and constraints, with every coefficient, must come out identical on every path."),
    "C14": dict(engines=["symex"], how="The real TestConstraintSystem is driven with symbolic coefficients and assignments; verdict, failing path, get/set, verify and hash are compared with an independent evaluation in every branch region by SMT."),
    "C15": dict(engines=["symex"], how="from_coeffs is run for every length up to the bound over fields of different two-adicity with symbolic coefficients."),
    "C16": dict(engines=["symex"], how="The real FFT code runs on symbolic coefficients, for every thread count in bounds; each output is a linear form compared with the evaluation of the polynomial at the powers of a primitive root."),
    "C17": dict(engines=["symex"], how="The real domain operations run on symbolic coefficient vectors; outputs are compared with polynomial arithmetic."),
    "C18": dict(engines=["llsym"], how="multiexp is executed from LLVM bitcode with symbolic exponents, selections and identity flags over the free module on the bases; the result must be the naive sum and errors must occur exactly when prescribed."),
    "C19": dict(engines=["llsym"], how="The real sources and trackers are executed from LLVM bitcode over every sequence of operations in bounds, with symbolic identity flags, against a model."),
    "C20": dict(engines=["llsym"], how="The worker is executed from LLVM bitcode over stand-ins for the thread pool and channel whose every scheduling decision is a symbolic choice; every task must run once, its waiter get its own value, and scopes end after their tasks, for all thread and element counts."),
    "C21": dict(engines=["symex"], threads=[1, 3, 5, 8], how="The real generator runs over a symbolic pairing engine (elements are discrete logarithms, polynomials in the trapdoors and circuit coefficients); every element is compared with the prescribed QAP value, the solver deciding each difference."),
    "C22": dict(engines=["symex"], threads=[1, 4], how="The real generator runs on every unusable circuit and trapdoor pattern in bounds with the rest symbolic; random generation runs on a source whose outputs are symbols, and the trapdoors are recovered from the fixed elements and must be distinct draws."),
    "C23": dict(engines=["symex"], threads=[1, 3, 8], how="The real prover runs over parameters whose elements are independent symbols, with symbolic witnesses and blinding scalars; the proof elements must be the Groth16 combinations (quotient computed independently)."),
    "C24": dict(engines=["symex"], threads=[1, 2, 8], how="Generator, prover and verifier run end to end with symbolic trapdoors, coefficients, witnesses and blinding; the verification equation must vanish identically for honest proofs, and the solver shows it can vanish identically only for satisfied constraints and true inputs."),
    "C25": dict(engines=["symex"], how="The real verifier runs on symbolic keys, proofs and inputs; in every branch region of its decision the solver shows the decision equivalent to the pairing equation."),
    "C26": dict(engines=["symex"], how="The real batch verifier runs on symbolic batches; the polynomial it tests must be the combination of the items' equations with one fresh random weight each, and the solver shows identical vanishing implies every equation."),
    "C27": dict(engines=["llsym"], how="Proof::read, write and equality are executed from LLVM bitcode over a toy engine on symbolic bytes and elements, with symbolic short reads, interruptions and failures, against a reference parser."),
    "C28": dict(engines=["llsym"], how="Reading, writing and equality of verifying keys and parameters are executed from LLVM bitcode over a toy engine on symbolic bytes, lengths and elements, with symbolic short reads, interruptions and failures, against a reference parser."),
    "C29": dict(engines=["symex"], threads=[1, 4], how="The randomised prover runs on a source whose outputs are symbols; the draws blinding the first two elements must be distinct and fresh and the whole proof must be the prescribed function of exactly those."),
}
NOT_APPLICABLE = {}
