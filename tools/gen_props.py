import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})
M="src/matrix.rs"
p("C01","Shape and contents stay consistent over any history of operations",
 "After any sequence of constructions and operations, a matrix reports its number of rows and columns, holds exactly rows times columns elements in row-major order, and every element equals what the same sequence gives on a plain two-dimensional table. Operations that return a new matrix leave their arguments untouched, operations that change a matrix in place change only that matrix, and a refused operation changes nothing.",
 ["histories","inputs"],"every sequence of public operations, every starting shape (including 1x1, single rows and columns, tall and wide) and every copyable element type",
 "Tests call each operation once on a fresh 2x2 or 3x3 matrix; interactions (transpose in place, then append, then select) and unusual shapes are never chained.",
 [M],[("row-major storage with the row count stored and the column count derived","src/matrix.rs Matrix, rows, cols"),("in-place operations on the same buffer","src/matrix.rs mt, mmul, madd, mmap")])
p("C02","Elements are where row and column say, however they are reached",
 "For every matrix, reading element (i,j) by value, by reference, by index or from the row-major data gives the same element, and writing it by any route changes that element and no other. The constructors build what they name: given data in row-major order, column and row vectors, identity (also rectangular), zero, one, diagonal and block-diagonal matrices have exactly the stated shape and elements.",
 ["inputs"],"every shape, every position inside it, every element type, every constructor argument that names a non-empty matrix",
 "Tests look at a few positions of 2x2 and 3x3 matrices; rectangular shapes, where mixing up row and column strides shows, are rare.",
 [M],[("position = row * columns + column","src/matrix.rs get, get_ref, get_mref, set, Index"),("constructors","src/matrix.rs new, vector, row_vector, id, zero, diag, block_diag, zero_vector, one_vector")])
p("C03","Structural operations move exactly the right elements",
 "Transposing (into a new matrix or in place), joining side by side or one below the other, cutting out a block, deleting one row and one column, taking a column, and selecting, filtering or permuting rows or columns (with repetition and in any order) give exactly the elements named, in the order named, with the shape that follows. No element is lost, duplicated or altered except where the request names it more than once.",
 ["inputs"],"every shape and every valid request: any block, any list of positions with repetitions, any selection that keeps something, any predicate",
 "Tests use one or two small shapes per operation, with one block or list each; in-place transposition of a non-square matrix has cycles that small examples do not contain.",
 [M],[("in-place transposition by following cycles","src/matrix.rs mt"),("copying loops","src/matrix.rs t, cr, cb, minor, sub_matrix, get_column, permute_rows, permute_columns, filter_rows, filter_columns, select_rows, select_columns")])
p("C04","Element-wise arithmetic: every form computes the same, element by element",
 "Sum, difference, element-wise product and quotient, negation and scaling apply the element type's own operation to each element, left operand first, and nothing else. All forms of an operation (borrowed or owned operands, operator or method, new matrix or in place) agree exactly. Mapping applies the given function once to each element, in place or into a new type, and reducing folds each column from its own starting value downwards from the first row.",
 ["inputs"],"every shape, every element value (for floating point including infinities, NaN, signed zeros and extremes), every element type with the operations, including ones with inexact or non-commutative arithmetic",
 "Tests check one form of each operation on one small matrix; there are four operator forms plus in-place ones for each, and they are separate code.",
 [M],[("element loops","src/matrix.rs scale, madd, msub, elem_mul, melem_mul, elem_div, melem_div, mneg, Neg, Add, Sub"),("map, mmap, reduce","src/matrix.rs map, mmap, reduce")])
p("C05","Matrix product is the row-by-column product, in every form",
 "The product of an m-by-k and a k-by-n matrix is the m-by-n matrix whose element (i,j) is the sum over l of a(i,l) times b(l,j), with the left factor on the left. With exact element types it is exact, with floating point each element is within the usual rounding bound of k-term inner products and NaN appears where the sum has one. All operator forms and the in-place form give the same product.",
 ["inputs"],"every pair of conforming shapes, exact rings (also non-commutative ones), f32 and f64 of any magnitude",
 "Tests multiply a handful of 2x2 and 2x3 matrices of small integers.",
 [M],[("triple loop","src/matrix.rs Mul"),("product into a new buffer","src/matrix.rs mmul")])
p("C06","Ill-formed requests are refused and change nothing",
 "A request that does not fit is refused by panicking, never answered with a made-up result: mismatched shapes for sums, element-wise operations, products or joining; positions, blocks or selections outside the matrix; element counts that do not match the shape; empty or overflowing dimensions; vector norms of matrices; determinants, inverses, singularity and eigenvalues of matrices that are not square; right-hand sides of the wrong height. The matrix an in-place request was made on is left exactly as it was.",
 ["inputs","configurations"],"every operation with a precondition, every way to violate it by one or by much (including positions whose linear index happens to exist), in builds with and without overflow checks",
 "Tests have about twenty #[should_panic] cases, each one blatant violation, in one build configuration.",
 [M,"src/decomp/lu.rs","src/decomp/qr.rs","src/decomp/cholesky.rs","src/decomp/eigen.rs"],[("assertions before any write","src/matrix.rs elem_count, get, set, sub_matrix, madd, mmul, select_rows and others"),("shape assertions","src/decomp/lu.rs solve, det; src/decomp/qr.rs solve; src/decomp/cholesky.rs solve; src/decomp/eigen.rs new")])
p("C07","LU: triangular factors and a row permutation that reproduce the matrix",
 "For every finite matrix of any shape, LU decomposition gives L lower trapezoidal with unit diagonal and elements at most one in magnitude, U upper trapezoidal, and P a permutation matrix consistent with the reported pivot order, of matching shapes. L times U equals the matrix with its rows permuted by P, up to rounding in the scalar's precision.",
 ["inputs"],"every m-by-n finite matrix of moderate range, f32 and f64: square, tall, wide, singular, rank-deficient, graded, with ties between pivots",
 "Tests decompose about three small matrices and compare with stored factors.",
 ["src/decomp/lu.rs"],[("partial pivoting, column by column","src/decomp/lu.rs new"),("extraction of the factors","src/decomp/lu.rs get_l, get_u, get_p, get_piv")])
p("C08","Solving, inverting and calling a matrix singular agree and are right",
 "For a square matrix, solving with any right-hand side (directly or through a decomposition) and inverting give a result with a residual at rounding level whenever the matrix is not singular, and none exactly when it is reported singular. Matrices that are exactly singular in a way elimination sees exactly (a zero or repeated row or column and the like) are reported singular, well-conditioned ones never are, and the two ways to ask always answer oppositely.",
 ["inputs"],"every square finite matrix of moderate range, any number of right-hand sides, f32 and f64",
 "Tests solve a few 3x3 systems with one right-hand side and invert one matrix.",
 ["src/decomp/lu.rs",M],[("forward and back substitution after pivoting","src/decomp/lu.rs solve"),("zero pivot test","src/decomp/lu.rs is_non_singular"),("delegation","src/matrix.rs solve, inverse, is_singular, is_non_singular")])
p("C09","Determinant has the right value and sign",
 "The determinant of a square matrix equals the mathematical determinant up to rounding, with the right sign for every row order, and is exact for matrices that are a permutation of powers of two. The determinant asked of the matrix and of its LU decomposition are the same.",
 ["inputs"],"every square finite matrix whose determinant is in range, f32 and f64; all pivoting orders, odd and even",
 "Tests check a few small determinants, which exercise few of the pivot orders.",
 ["src/decomp/lu.rs",M],[("sign of the permutation times the product of pivots","src/decomp/lu.rs det, pivsign")])
p("C10","QR: orthogonal Q and triangular R that reproduce the matrix",
 "For every finite matrix of any shape, Q is a square orthogonal matrix, R is upper trapezoidal of the matrix's shape, and Q times R equals the matrix, up to rounding in the scalar's precision. The Householder vectors offered are those whose reflections make up Q.",
 ["inputs"],"every m-by-n finite matrix of moderate range, f32 and f64: square, tall, wide, zero columns, dependent columns, columns of wildly different size",
 "Tests decompose a few small matrices, mostly square.",
 ["src/decomp/qr.rs"],[("Householder reflections","src/decomp/qr.rs new, get_q, get_r, get_h")])
p("C11","QR solves least squares; full column rank is judged rightly",
 "For a matrix of full column rank with at least as many rows as columns, solving through QR gives the least-squares solution (the exact one when square) for every right-hand side, up to rounding, and none when the matrix is found not to have full column rank. A well-conditioned matrix is judged of full column rank; one with more columns than rows, or a zero column, is not.",
 ["inputs"],"every finite matrix of moderate range and condition, any number of right-hand sides in or out of the column space, f32 and f64",
 "Tests solve one or two square systems; over-determined systems are not exercised.",
 ["src/decomp/qr.rs"],[("apply reflections to the right-hand side, then back substitution","src/decomp/qr.rs solve"),("zero diagonal test","src/decomp/qr.rs is_full_rank")])
p("C12","Cholesky exists exactly for symmetric positive definite matrices",
 "Cholesky decomposition of a symmetric matrix that is positive definite by a clear margin exists; its factor is lower triangular with positive diagonal and times its transpose equals the matrix, up to rounding. It does not exist for matrices that are not symmetric, not positive definite by a clear margin, not square, or contain NaN.",
 ["inputs"],"every finite matrix of moderate range, f32 and f64: definite, indefinite, semi-definite, asymmetric in any one element, with NaN anywhere",
 "Tests decompose one or two definite matrices and reject one.",
 ["src/decomp/cholesky.rs"],[("symmetry and pivot sign tests","src/decomp/cholesky.rs new")])
p("C13","Solving through Cholesky solves the system",
 "For every symmetric positive definite matrix and every right-hand side, with any number of columns, the solution through the Cholesky factor has the right shape and a residual at rounding level.",
 ["inputs"],"every symmetric positive definite matrix of moderate range and condition, any number of right-hand sides, f32 and f64",
 "Tests solve one 3x3 system.",
 ["src/decomp/cholesky.rs"],[("forward then back substitution with the transpose","src/decomp/cholesky.rs solve")])
p("C14","SVD: orthogonal factors, ordered singular values, exact reconstruction",
 "For every finite non-empty matrix, the singular value decomposition gives orthogonal U and V and a diagonal S of matching shapes with non-negative elements in descending order. U times S times the transpose of V equals the matrix, and the singular values are the true ones, up to rounding in the scalar's precision.",
 ["inputs"],"every m-by-n finite matrix of moderate range, f32 and f64: tall, wide, square, rank-deficient, repeated and clustered singular values, graded, constant, zero",
 "Tests decompose three small matrices.",
 ["src/decomp/svd.rs"],[("bidiagonalisation and implicit QR sweeps","src/decomp/svd.rs new"),("transposition for wide matrices","src/decomp/svd.rs new")])
p("C15","SVD rank counts the independent directions",
 "The rank reported by the singular value decomposition is the true rank for every matrix whose nonzero singular values are well separated from rounding, of any shape, for both precisions. The zero matrix has rank zero.",
 ["inputs"],"every finite matrix of moderate range with a clear gap, of every shape and rank from zero to full, f32 and f64",
 "Tests check the rank of one or two matrices.",
 ["src/decomp/svd.rs"],[("threshold relative to the largest singular value, dimension and precision","src/decomp/svd.rs rank")])
p("C16","Pseudo-inverse of a full-rank matrix satisfies the Penrose conditions",
 "For every matrix of full rank and moderate condition, tall, wide or square, the pseudo-inverse has the transposed shape and satisfies the four Penrose conditions up to rounding; for a square matrix it is the inverse.",
 ["inputs"],"every well-conditioned full-rank finite matrix of moderate range of any shape, f32 and f64",
 "Tests compute one pseudo-inverse.",
 [M],[("normal equations on the smaller side","src/matrix.rs pinverse")])
p("C17","Symmetric eigendecomposition: real eigenvalues, orthogonal eigenvectors",
 "For every finite symmetric matrix, all imaginary parts are zero, the eigenvectors form an orthogonal matrix V, and A times V equals V times the diagonal matrix of eigenvalues, up to rounding; the eigenvalues are the true ones in descending order. The matrix of eigenvalues offered agrees with the lists of real and imaginary parts.",
 ["inputs"],"every symmetric finite matrix of moderate range, f32 and f64: repeated, clustered, zero and opposite eigenvalues, graded, diagonal, tridiagonal, low rank, constant",
 "Tests decompose one or two 3x3 matrices.",
 ["src/decomp/eigen.rs"],[("tridiagonalisation","src/decomp/eigen.rs tred2"),("implicit QL and sorting","src/decomp/eigen.rs tql2"),("choice by symmetry","src/decomp/eigen.rs new")])
p("C18","General eigendecomposition: A V = V D, complex ones in conjugate pairs",
 "For every finite square matrix that is not symmetric, A times V equals V times D up to rounding, with D block diagonal, holding real eigenvalues on the diagonal and each complex pair as a two-by-two block with the pair listed together, conjugate, positive imaginary part first. The eigenvalues are the true ones to the accuracy their conditioning allows, and V is non-zero in every column.",
 ["inputs"],"every square finite matrix of moderate range, f32 and f64: real and complex spectra, repeated and defective eigenvalues, companion, cyclic, block triangular, unbalanced, nearly symmetric",
 "Tests decompose one non-symmetric matrix.",
 ["src/decomp/eigen.rs"],[("Hessenberg reduction","src/decomp/eigen.rs orthes"),("Francis QR, double shift, back substitution","src/decomp/eigen.rs hqr2"),("block diagonal matrix","src/decomp/eigen.rs get_d")])
p("C19","The direct SVD route is a valid singular value decomposition",
 "For every full-rank square, tall or wide matrix of moderate condition for which it is offered, the direct singular value decomposition gives factors with orthonormal singular vectors and a diagonal of the true singular values, and reproduces the matrix, to the accuracy the route through the Gram matrix allows.",
 ["inputs"],"every well-conditioned finite matrix of moderate range, f32 and f64",
 "Tests decompose one matrix by this route.",
 ["src/decomp/svd.rs"],[("eigendecomposition of the Gram matrix","src/decomp/svd.rs direct")])
p("C20","Iterative decompositions always end",
 "Singular value and eigenvalue decompositions end after a number of arithmetic steps bounded by a small multiple of the cube of the dimension, on every input. A finite matrix of moderate range gets an answer; any other (NaN, infinities, extreme or subnormal elements) gets an answer or a refusal.",
 ["inputs"],"every matrix, finite or not, of every scale and structure, f32 and f64",
 "Tests contain no timing or step bound and only benign matrices; a sweep that fails to deflate shows as a hang on rare matrices only.",
 ["src/decomp/svd.rs","src/decomp/eigen.rs"],[("deflation tests relative to neighbouring elements, iteration limit","src/decomp/svd.rs new; src/decomp/eigen.rs tql2, hqr2"),("exceptional shifts","src/decomp/eigen.rs hqr2")])
p("C21","Results depend on the arguments alone; no undefined behaviour",
 "No operation reads or exposes memory that was never written, accesses memory outside its matrices, or otherwise has undefined behaviour, for any element type. Its outcome depends on nothing but its arguments: not on what the heap contained, on what ran before, or on other threads using the same arguments at the same time (random matrices excepted).",
 ["inputs","schedules","configurations"],"every public operation, every copyable element type (also zero-sized ones and ones with invalid bit patterns), every previous content of the heap, concurrent readers",
 "Tests run on fresh zero-filled pages, where an element that was never written looks like a zero.",
 ["src/internalutil.rs",M,"src/decomp/lu.rs","src/decomp/qr.rs","src/decomp/svd.rs","src/decomp/eigen.rs"],[("result buffers are allocated without initialising them and must be filled completely","src/internalutil.rs alloc_dirty_vec and its callers")])
p("C22","Norms and trace have their mathematical values",
 "For a column vector the Euclidean norm (under its three names) and 1-, p- and infinity norms, for a matrix the Frobenius norm, and for any matrix the trace as the sum of its main diagonal, equal their definitions up to rounding, whatever the signs of the elements. Norms are never negative, and zero for the zero vector.",
 ["inputs"],"every vector and matrix with finite elements whose squares or powers stay in range, every p of at least one, integer or fractional, f32 and f64",
 "Tests use vectors of three small numbers, mostly positive, and p of one value.",
 [M],[("sums over the elements","src/matrix.rs vector_euclidean_norm, length, vector_1_norm, vector_2_norm, vector_p_norm, vector_inf_norm, frobenius_norm, trace")])
p("C23","Comparisons: exact, approximate and symmetry tests look at every element",
 "Two matrices are equal exactly when shapes and all elements are. They are approximately equal exactly when the shapes are equal and every pair of elements differs by less than the fixed tolerance of one millionth, so never where there is a NaN. A matrix is called symmetric exactly when it is square and approximately equal to its transpose; the negated test answers the opposite.",
 ["inputs"],"every pair of shapes and element values, differing in any single position, just inside or outside the tolerance; NaN, infinities, signed zeros",
 "Tests compare a few pairs that are equal or grossly different.",
 [M,"src/approxeq.rs"],[("all-elements loops","src/matrix.rs approx_eq, is_symmetric, PartialEq"),("absolute tolerance","src/approxeq.rs approx_eq_eps")])
p("C24","Reading comma-separated files loses, invents and misplaces nothing",
 "Reading a text file gives one row per line (ended by a newline, with or without carriage return, or by the end of the file) and one element per comma-separated field, where the caller's parser is called exactly once for each field, in order, with the field's text stripped of surrounding white space, and its result is that element. Files that are empty, missing, unreadable, not valid UTF-8, or whose lines have different numbers of fields are refused.",
 ["inputs"],"every file content: any size, any number of fields, empty fields, any text, any alignment with buffers; every parser",
 "Tests read one small well-formed file.",
 ["src/util.rs"],[("line by line, split at commas, trimmed","src/util.rs read_csv"),("equal field counts asserted","src/util.rs read_csv")])
p("C25","Debug text and printing show every element in its place",
 "The debug text of a matrix is an empty line followed by one line per row, each element's own debug text right-aligned to the widest one, separated by a space and enclosed in bars; printing writes exactly this text to standard output. Every element appears in its row and column, the matrix is unchanged, and a destination that fails is reported as a failure.",
 ["inputs","fault_sequences"],"every shape and every element type whose debug text is ASCII, of any and differing widths; destinations that fail after any number of characters",
 "Tests never look at the text.",
 [M],[("common width, then row by row","src/matrix.rs Debug::fmt"),("print","src/matrix.rs print")])
p("C26","The matrix literal macro builds what is written",
 "Writing rows separated by semicolons and elements separated by commas builds the matrix of exactly those rows, evaluating each element expression exactly once, in reading order. Any element expression may be used, in any edition and any context, and rows of different lengths are refused.",
 ["programs"],"every program that uses the macro: any shape, element type, expression (with side effects, early exits, nested uses, names of its own) and layout",
 "Tests use the macro to write down small literal matrices; what a macro does to other expressions is a property of programs.",
 ["src/macros.rs"],[("counting rows and elements at compile time, one vector of all elements","src/macros.rs m!, m_rec!, m_one!")])
p("C27","Independent routes to the same quantity agree",
 "Where the library offers several ways to one answer they agree up to rounding: solutions of a well-conditioned system by LU, QR, Cholesky, inverse and pseudo-inverse; determinant, product of eigenvalues and of singular values; rank and singularity; singular values of a matrix, its transpose and, if symmetric, the magnitudes of its eigenvalues; trace and the sum of eigenvalues.",
 ["inputs"],"every well-conditioned finite matrix of moderate range, f32 and f64",
 "Tests check each route alone, on different matrices.",
 [M,"src/decomp/lu.rs","src/decomp/qr.rs","src/decomp/cholesky.rs","src/decomp/svd.rs","src/decomp/eigen.rs"],[("separate algorithms for related quantities","src/decomp/*.rs")])
p("C28","Random matrices hold one independent draw per element",
 "A random matrix has the requested shape, and each element is a draw of its own from the element type's standard distribution; floating-point elements lie in [0,1). Successive random matrices differ.",
 ["inputs"],"every non-empty shape and every element type that can be drawn",
 "Tests only check that a random matrix can be made.",
 [M],[("one draw per element","src/matrix.rs random")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
