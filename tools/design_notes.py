# limits and decisions, per property; put into DESIGN.md by mkdesign.py
N = {
"C01": "Forced schedules cover the order of begins and ends of bodies; preemption inside the library's own loop is left to random naps and to the exhaustive interleavings of the model.",
"C03": "The exact product is compared on integer entries up to a few hundred, for float, double and both complex types.",
"S02": "Well-formedness includes: row pointers monotone from 0 to the number of entries, columns in range; columns ascending is not promised by every constructor and is judged only where it is.",
"I03": "A crash is the end of the process (SIGKILL or _exit) at any point between calls; HDF5's own writes during a call are not split (the file system is not modelled). Before the first flush or close nothing is promised except that the file is refused.",
"I04": "Reading a label as another kind than the one written is not specified.",
"A02": "Text left over after a number, vector or matrix is a refusal (the grammar's attributes say so); blanks anywhere between tokens are not.",
"N01": "Where two equal signs come in a row, the text is outside the format and nothing is claimed.",
"X01": "Variables enter the text with ten digits, and arithmetic is in the type of the variables; generated values are representable that way.",
"X02": "Division by something smaller than the threshold of the protected division is 0 by definition of the operator; the specification states the threshold.",
"X03": "The constant pi is the only irrational item; it is handled as a symbol.",
"G01": "Left as they are and not claimed: LongChain constructs a RuntimeError without throwing it for too short chains; LadderLeg=2 with IsPeriodicY swallows its error; LadderX directions and numbers are claimed for two legs. Geometry::print does not compile when instantiated; maxConnections is an upper bound whose tightness is not claimed.",
"G02": "Scalar complex couplings are not conjugated when the sites are swapped (matrix couplings are): stated as it is. After a split with everything in the system the order of the second half is free.",
"L01": "Floating-point Lanczos loses orthogonality, so exact energies of all levels are claimed for up to 11 levels with reorthogonalisation and up to 7 without. Start vectors in the kernel and zero start vectors are not judged. A negative tolerance asks for all steps (no stop at an invariant subspace). computeAllStatesBelow(k): k is the number of levels allowed.",
"L02": "Refusal of singular matrices by inverse is claimed only where singularity is visible without rounding (zero row or column, triangular with a zero on the diagonal).",
"R01": "The seeding of the Mersenne twister is non-standard (multiplier without xor-shift) and is taken as it is.",
"R02": "Amounts in memory messages are masked. That the prefix leaves std::fixed on the stream is not claimed. A second redirect is refused.",
"K01": "Functions are piecewise linear through integers; AkimaSpline is only asked about increasing points (others are unspecified). AkimaSpline.h only compiles after `using namespace std`; the driver does that.",
}
