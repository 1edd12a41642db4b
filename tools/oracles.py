ORACLE = {
"C01": "Two or three types with symbolic dimension, topology number and none flag; the laws of equality, order and hash-like ids are asserted directly on bit-vectors.",
"C02": "The oracle replays the chain of prism and cone steps recorded in the topology number; symbolic type, symbolic step.",
"C03": "Two symbolic types: equal indices exactly for equal types, index below size, inverse lookup; global offsets as sums of sizes.",
"C04": "Oracle: the face lattice of the polytope, built independently of the code from the prism/cone construction by corner sets (`harness/refmodel.hh`). Symbolic subentity numbers, so table reads become solver terms.",
"C05": "Positions as averages of corners, embeddings compared with the affine combination of those corners at a symbolic point. Volume by exact recursion. Normals: orthogonality, orientation, and the divergence theorem for a symbolic linear field.",
"C06": "Accept: a symbolic convex combination of the corners. Reject: a symbolic real point violating one of the polytope's half-spaces by more than the tolerance; the half-spaces come from the oracle.",
"C07": "Symbolic Jacobian and points; map, Jacobians, pseudo-inverse identities (left inverse, Moore-Penrose), integration element squared against the Gram determinant, and the round trip local(global(x)).",
"C08": "Symbolic box, every axis set, every constructor; compared with the affine map written out. Diagonal and full matrices alike.",
"C09": "Oracle: explicit (bi-/tri-)linear interpolation and, for pyramids, its rational form (`harness/mlmodel.hh`). The Jacobian is compared with the formal derivative of the oracle. Restrictions to all subentities.",
"C10": "Pseudo-inverse identities as in C07 at a symbolic point; affinity for symbolic parallelotopes and for perturbed ones; inverse map by executing the Newton iteration.",
"C11": "A history of symbolic length and content (calls, copies, assignments) is run on a cached geometry and the following query compared with a fresh uncached geometry.",
"C12": "Mappings with symbolic polynomial coefficients; the chain rule is written out. Volumes: the code's loop over quadrature orders is executed for symbolic integrands. Mappings that own storage are passed as temporaries, moved and assigned.",
"C13": "Symbolic coefficients, first- and second-order bases; basis expansion and its derivative written out. With first-order bases also equal to the multilinear geometry.",
"C14": "The Gauss-Newton loop is executed on symbolic affine and quadratic maps; whenever it returns, the residual is below the tolerance, otherwise it must have thrown; regular affine maps never throw.",
"C15": "A symbolic real point of the element lies in some subelement and in at most one interior; volumes of subelements add up; centres.",
"C16": "Counts, consecutive indices, vertex positions inside, vertex indices name the corners of the subelement's geometry; the same vertex indices name the same point everywhere.",
"C17": "Each run-time refinement is compared with the compile-time one in counts, indices, coordinates, vertex indices and in the equality of iterators, also of two different refinements. Iterator histories on three iterators with a forked sequence of operations.",
"C18": "The integrand is a polynomial with symbolic coefficients; its sum over the rule minus its exact integral is a linear form in the coefficients whose bound is decided exactly.",
"C19": "The order is a symbolic int, the type and the family are forked; a request either succeeds with type, order and inside points as claimed or throws.",
"C20": "Requests A, B, A with forked parameters: the second A is the same object with the same contents as in a cache that has seen only A.",
"C21": "Polynomials with symbolic coefficients, and base rules with symbolic points and weights; the composite rule is compared with the sum over the affine images.",
"C22": "Symbolic distinct ids: ranks by counting; iterators against the list of ranks, with symbolic offsets.",
"C23": "Symbolic dimension and vertex count.",
"C24": "Symbolic matrices; Moore-Penrose identities, determinant identities, triangular solves, Cholesky product; singular matrices are reported by the solves.",
"C26": "Two threads with requests for rules, reference elements and virtual refinements; the solver searches for a schedule with a data race (see Threads); afterwards the objects seen by both threads are compared with each other, with a later request and with the expected counts and volumes.",
"C27": "Each result is an exact symbolic real with a proven bound of its rounding error; the exact part is compared with a formula of the harness and the bound with a tolerance of a few hundred units in the last place (see Arithmetic). Where the bound is too wide, 200 random inputs per path are compared in the native build with the formula.",
"C25": "A factory that records its key and type; symbolic keys, forked types and both request forms.",
"C28": "Each registered function is called with dynamically typed values through the overload resolution of the stand-in (see Python bindings) and compared with the C++ interface; out-of-range arguments must raise a value error; names and descriptions are compared with a small parser in the harness.",
"C29": "The text of a string stream is executed character by character and compared with a text put together in the harness.",
"C30": "A geometry that went through one of nine ways of copying is compared, query by query, with a freshly constructed one from the same symbolic data; afterwards the source is overwritten and both are compared again.",
"C31": "The Python files are executed with symbolic numbers (see Python files); the objects returned by stand-ins record the request they were made for, which is compared with the request of the test after every step of a history; integrals are compared with a sum written out in the test.",
}
