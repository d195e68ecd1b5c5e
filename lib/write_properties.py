#!/usr/bin/env python3
"""Writes properties.jsonl (development only; the file is committed)."""
import json, os
M = "phlite/src/matrices/mod.rs"; AD = "phlite/src/matrices/adaptors.rs"; CO = "phlite/src/matrices/combinators.rs"; IM = "phlite/src/matrices/implementors.rs"
COL = "phlite/src/columns.rs"; FI = "phlite/src/fields.rs"; ST = "phlite/src/reduction/standard.rs"; CL = "phlite/src/reduction/clearing.rs"; RM = "phlite/src/reduction/mod.rs"
RL = "phlite_rips/src/lib.rs"; RC = "phlite_rips/src/cohomology.rs"; RH = "phlite_rips/src/homology.rs"; RMAIN = "phlite_rips/src/main.rs"
GL = "phlite_grpph/src/lib.rs"; GC = "phlite_grpph/src/coboundary.rs"; GB = "phlite_grpph/src/boundary.rs"
out = []
def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

P("C01", "The finite coefficient types are the fields with 2, 3, 5, 7, 11 and 13 elements",
  "For each of the finite fields offered, adding, multiplying, negating and inverting non-zero elements gives the result of arithmetic modulo the field's prime, and a sum that is zero is reported as absent. Addition and multiplication are associative and commutative, multiplication distributes over addition, and adding an absent coefficient changes nothing.",
  ["inputs"], "all elements, pairs and triples of non-zero elements of each of the six fields",
  "The unit tests multiply and add in Z/2 and Z/3 only; inverses and the fields above 3 are never exercised, and a wrong product in one pair of elements corrupts every barcode over that field silently.",
  [FI], [("arithmetic on non-zero residues", FI), ("tables of inverses", FI), ("absent sums", FI)], ["the arithmetic operators of the field types"])
P("C02", "Rational coefficients compute exactly",
  "Sums, products, negatives and inverses of rational coefficients are those of exact rational arithmetic, with a vanishing sum reported as absent, as long as no intermediate value overflows. Equal rationals that were computed in different ways compare equal. A matrix over the rationals is reduced as exactly as one over a finite field.",
  ["inputs"], "all pairs of rationals with bounded numerators and denominators, signs included; all small matrices with bounded integer entries",
  "No test uses the rational field at all.",
  [FI, ST], [("addition over a common denominator and reduction to lowest terms", FI), ("inverse with the sign moved to the numerator", FI)], ["the arithmetic operators of the rational type", "reduction over the rationals"])
P("C03", "A column is the formal sum of what was added, whatever the order of operations",
  "Whatever entries are added to a column in whatever order, interleaved with looking at and removing its largest entry, reading it out yields exactly the rows whose total coefficient is non-zero, each once, with that total, ordered by filtration value and then by row. Looking at the largest entry does not change the sum, removing it removes exactly that row, and draining a part leaves the rest.",
  ["histories", "inputs"], "all sequences of additions, looks and removals up to a bounded length, with any coefficients, rows and filtration values including ties",
  "One test drives a handful of fixed columns; merging of repeated rows, cancellation at the top of the heap and ties between filtration values depend on the order of operations.",
  [COL], [("heap of entries with cancellation of equal rows", COL)], ["reading out, popping and cloning the pivot of a column"])
P("C04", "Products, sums and references of matrices are the matrices of linear algebra",
  "The product of two matrices has the columns of the matrix product, the sum those of the matrix sum, and products associate. The filtration values and the basis of a product are those of its left and right factor. A reference or smart pointer to a matrix behaves as the matrix.",
  ["inputs"], "all matrices of bounded size over several fields, with columns listing their entries in any order and with repeated rows",
  "Tests multiply one pair of fixed matrices over Z/2, where signs and multiplicities cannot be told apart.",
  [CO, M], [("lazy product column", CO), ("lazy sum column", CO), ("forwarding through references", M)], ["columns of the combined matrices"])
P("C05", "Adaptors change a matrix's filtration, basis or indexing and nothing else",
  "Attaching a filtration, a trivial filtration or a basis, restricting to a dimension, and indexing columns by position leave every entry of every column as it was. The filtration values and the basis that the adapted matrix reports are exactly those attached, also when a column is read together with its filtration values.",
  ["inputs", "programs"], "all matrices of bounded size, all functions to filtration values, all orders of the basis, compositions of the adaptors",
  "Tests use each adaptor once, with one basis and one filtration.",
  [AD, M], [("adaptor structs forwarding columns", AD), ("default column with filtration", M)], ["columns, filtration values and bases of adapted matrices"])
P("C06", "Reversing a matrix mirrors its orders, and unreversing undoes it",
  "A reversed matrix has the same entries, the order of its basis and of each dimension's basis turned around, and the order of filtration values and rows turned around. Unreversing a reversed matrix or basis gives back the original.",
  ["inputs"], "all matrices of bounded size with any basis order, split into dimensions, and any filtration",
  "One test reverses one basis of fixed elements.",
  [AD, M], [("reversal of indices and filtration", AD), ("index arithmetic of the reversed basis", AD)], ["columns, values and bases of reversed matrices"])
P("C07", "Caching and consolidating a matrix do not change what it represents",
  "A matrix with cached columns returns, for any sequence of requests and with any of the returned iterators still in use, the columns of the matrix it wraps, and computes each of them only once. A consolidated matrix has the same columns with every row at most once and no vanishing entries, in order of the rows.",
  ["histories", "inputs"], "all sequences of column requests up to a bounded length, iterators dropped or held, all matrices of bounded size",
  "No test holds two columns of a cached matrix at a time, or checks that a cached column equals the original.",
  [AD], [("shared cache with interior mutability", AD), ("consolidation through a sorted column", AD)], ["columns of cached and consolidated matrices"])
P("C08", "Constructors keep the entries they are given, comparison and lookup are exact",
  "A matrix built from lists or from a map has exactly the entries it was given in the columns it was given them for. Two matrices are reported equal on a column exactly if the columns are equal as vectors, however their entries are listed. The lookup built from a basis takes every element back to its position.",
  ["inputs"], "all lists of bounded length with any order and repetitions; all orders of a basis",
  "Tests compare fixed columns that are equal entry for entry or differ plainly.",
  [IM, M], [("list-backed and map-backed matrices", IM), ("comparison through sorted columns", M), ("lookup table of a basis", M)], ["columns, column comparison, lookups"])
P("C09", "The standard algorithm returns a unipotent V with R = DV reduced",
  "For any square matrix, basis order and filtration, the reduction matrix V has ones on the diagonal and only adds earlier columns of the basis to later ones. The non-zero columns of DV have pairwise different pivots with respect to the filtration and then the row order.",
  ["inputs"], "all matrices up to a bounded size over several fields, all basis orders, all filtrations",
  "The tests reduce one fixed boundary matrix; the loop invariant concerns every history of column additions.",
  [ST, COL], [("column reduction with a pivot map", ST)], ["the reduction matrix and its product with the input"])
P("C10", "The diagram is the unique persistence pairing of the filtered complex",
  "For any filtered chain complex the diagram pairs two cells exactly if the rank invariant of the filtration does, and lists exactly the unpaired cells as essential. This holds whether the basis runs through the filtration or dimension by dimension, and whether the diagram is produced during the reduction or read off afterwards.",
  ["inputs"], "all filtered complexes with a bounded number of cells, any boundary squaring to zero, any filtration with ties",
  "The tests check the diagram of one triangle-like complex; the pairing theorem is about every complex.",
  [ST, RM], [("pairings from pivots, essential from zero columns", ST)], ["the returned diagram"])
P("C11", "Clearing gives the same diagram and a valid decomposition",
  "Reducing with clearing yields the diagram of the filtration, the same as without. The reduction matrix it returns has an invertible upper triangular part in each dimension and makes DV reduced, its columns for births are cycles, and it reports correctly which of its columns are. Asked for a range of dimensions, the diagram has the pairs and essential cells of those dimensions.",
  ["inputs"], "all filtered complexes with a bounded number of cells, split into dimensions, reduced from the top dimension down",
  "Tests never look at the matrix that clearing returns, whose cleared columns are recomputed lazily.",
  [CL], [("skipping columns already known as pivots", CL), ("cleared columns recomputed on demand", CL)], ["diagram, reduction matrix and its cycle query"])
P("C12", "Homology and cohomology have the same barcode",
  "Reducing the reversed transpose of a filtered complex, with or without clearing, yields the pairs and essential cells of the complex itself with births and deaths exchanged. The same holds when the reversal is done by hand and the diagram is asked for in reverse order.",
  ["inputs"], "all filtered complexes with a bounded number of cells over several fields",
  "Tests compare the two on a single complex; the duality is a theorem that a mistake in any reversal breaks for some complexes only.",
  [AD, ST, CL], [("reversal adaptors", AD), ("reverse order when reading off", ST), ("clearing in ascending dimensions", CL)], ["the diagrams of a matrix and of its reversed transpose"])
P("C13", "A simplex's number determines the simplex",
  "For any number of points, any sequence of vertices whose number fits the index type is recovered exactly from its number, with its dimension. Different sequences have different numbers, and the empty sequence has none.",
  ["inputs"], "all sequences of vertices of bounded length among up to 2^32 - 1 points",
  "The encoding is tested for one simplex; collisions between simplices would show for particular vertices only.",
  [RL], [("mixed radix encoding", RL)], ["encoding and decoding of simplices"])
P("C14", "The Rips basis lists every simplex once, in the order of the filtration",
  "For any distance matrix and any maximal dimension, zero included, the basis has in each dimension every simplex of that dimension exactly once, with ascending vertices. Simplices come in the order of their diameters with ties resolved by a fixed strict order, and the whole basis is the concatenation of its dimensions.",
  ["inputs"], "all symmetric distance matrices on a bounded number of points, ties and zero distances included, and all maximal dimensions",
  "Tests use fixed point clouds without ties and never dimension zero.",
  [RL, RC], [("enumeration of cofaces and sorting", RL)], ["basis elements and sizes"])
P("C15", "The Rips boundary squares to zero and the coboundary is its transpose",
  "The boundary of a simplex has one face per vertex with alternating signs, and the boundary of a boundary vanishes, over every field. The coboundary lists every coface exactly once, with the coefficient the simplex has in that coface's boundary.",
  ["inputs"], "all simplices with a bounded number of vertices among a bounded number of points, over several fields",
  "Existing uses are over Z/2, where no sign can be wrong.",
  [RC, RH, RL], [("face iterator", RH), ("coface iterator and its parity", RC)], ["columns of the two matrices"])
P("C16", "Filtration values of simplices are diameters, however they are obtained",
  "The filtration value of a simplex is the largest distance between two of its vertices, so no face enters after a simplex that contains it. Reading a column together with its values gives the entries of the plain column, each with the value of its row.",
  ["inputs"], "all symmetric distance matrices on a bounded number of points and all their simplices, through every matrix offered",
  "The incremental computation of a coface's diameter is only ever compared with expected output by eye.",
  [RC, RH, RL], [("diameter of a simplex", RL), ("incremental diameter of a coface", RC)], ["filtration values and columns with filtration"])
P("C17", "Rips persistence is that of the space, by homology or cohomology",
  "For any distance matrix the bars computed from the Rips matrices, by homology or cohomology and with or without clearing, are the persistence barcode of the Rips filtration in every dimension up to the maximal one. In particular the four ways agree.",
  ["inputs"], "all symmetric distance matrices on a bounded number of points over several fields",
  "Tests compute a barcode of one point cloud by one method and do not compare it with anything.",
  [RC, RH, RL, CL, ST], [("coboundary, reversal and clearing together", RC)], ["the diagram as simplices and their values"])
P("C18", "The digraph filtration is the shortest path distance between distinct nodes",
  "An ordered pair of distinct nodes enters the filtration at the length of the shortest directed path between them, or never if there is none. Edges of infinite weight do not contribute paths, and no node is paired with itself.",
  ["inputs"], "all weighted digraphs on a bounded number of nodes with any finite or infinite non-negative weights, parallel edges included",
  "No test builds a filtration from weighted edges.",
  [GL], [("Dijkstra from every node", GL)], ["the filtration from which the homology is computed"], "the function is private to a Python extension module")
P("C19", "The path homology boundary squares to zero and the coboundary is its transpose",
  "For any filtered digraph, the coboundary of a node or edge lists exactly those cells whose boundary contains it, with the same coefficient, over a field in which signs matter. The boundary of every two-dimensional cell is a combination of edges whose boundary vanishes. A cell's value is never smaller than those of its faces and is the one its column reports, and the basis has every node and every edge exactly once in the order of the values.",
  ["inputs"], "all filtered digraphs on a bounded number of nodes, edges of infinite time included, and all subsets of edges that ground them",
  "Tests print a coboundary over Z/3 without checking it and otherwise work over Z/2, where signs vanish.",
  [GC, GB], [("choice of primary bridges", GC), ("coboundary by enumeration of two-paths", GC), ("boundary by cases", GB)], ["columns, values and bases of the two matrices"])
P("C20", "Grounded persistent path homology has the barcode of its definition",
  "For any weighted digraph the bars returned are those of the filtered complex whose edges are the graph's own edges from the start and all pairs as they come within reach, and whose two-dimensional chains at any time are all combinations of two-paths then allowed with allowed boundary. Bars of zero length are left out.",
  ["inputs"], "all weighted digraphs on a bounded number of nodes with bounded many distinct distances",
  "Two tests check a cycle and a complete graph with equal weights, where no long squares or bridges matter.",
  [GL, GC], [("basis of the path chain complex by bridges", GC), ("reduction with clearing", CL)], ["the returned bars"], "the entry points are private to a Python extension module")
P("C21", "Computing representatives leaves the barcode as it is and yields real cycles",
  "The entry point that also returns representatives returns the same bars as the one that does not. There is one representative per finite bar of positive length in dimension one, each is a cycle of distinct edges that exist at the bar's birth, those of bars that are there at the same time are independent, and there is exactly one essential bar in dimension zero per connected component.",
  ["inputs"], "all weighted digraphs on a bounded number of nodes",
  "No test calls either entry point.",
  [GL, GB], [("involution on the paired cells", GL), ("boundary restricted to a basis", GB)], ["bars and representatives"], "the entry points are private to a Python extension module")
P("C22", "The command line tool prints the barcode of its input",
  "Given a symmetric matrix of distances as comma-separated text and a maximal dimension, or none for one, the tool prints the size of each dimension's basis and, under the headings of their kinds, the essential bars and the finite bars longer than 0.01 of the Rips filtration up to that dimension, with their dimensions and values, and nothing else.",
  ["inputs"], "all well-formed texts", "No test runs the tool.",
  [RMAIN], [("reading, reduction and printing", RMAIN)], ["standard output"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
