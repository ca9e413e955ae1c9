import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=False):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=(hook or None))
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
L="code/latte/"
p("S01","The lattice-point count is exact for every random choice and every method",
 "For every bounded rational polytope that count accepts, the number it prints and the number it leaves in numOfLatticePoints both equal the exact number of lattice points. The answer does not depend on the random numbers drawn internally, on the input format (H-representation with or without linearity and nonnegativity lines, V-representation, CDD), on redundant or hidden rows, or on the chosen method (dual, irrational primal or all-primal; polynomial or exponential substitution; any maxdet; any triangulation, dualization, vertex-cone or redundancy engine; dilation). The program ends, successfully, whatever those random numbers are.",
 ["inputs","configurations","histories"],"every bounded polytope, every supported combination of options, every sequence of values that the random number generator can return",
 "The tests count fixed examples with a handful of option sets under one fixed random sequence; degenerate lifting heights, non-generic perturbation vectors and vanishing denominators appear only for rare draws.",
 [L+"count.cpp",L+"countDriver.cpp",L+"barvinok/barvinok.cpp",L+"barvinok/dec.cpp",L+"genFunction/maple.cpp",L+"ExponentialSubst.cpp",L+"ExponentialEhrhart.cpp",L+"triangulation",L+"dual.cpp",L+"print.cpp",L+"Irrational.cpp",L+"preprocess.cpp",L+"ReadLatteStyle.cpp",L+"ReadPolyhedron.cpp"],
 [("signed decomposition into unimodular cones",L+"barvinok/dec.cpp"),("specialisation by a random generic vector",L+"PolyTree.cpp, ExponentialSubst.cpp, Residue.cpp"),("regular triangulation by random heights",L+"triangulation/RegularTriangulation*.cpp"),("projection out of the equations and back",L+"preprocess.cpp, ReadPolyhedron.cpp")],
 ["exit status","printed count","file numOfLatticePoints"])
p("S02","Success means a right answer, whatever tool, disk or memory failure happens",
 "Whatever goes wrong under a running LattE program — a helper program that is missing, cannot be started, exits with an error, is killed, or leaves missing or cut-off output; a failed, short or incomplete read or write; a full disk; a file that cannot be opened; memory exhaustion — the program either still delivers the right answer everywhere it promises one (terminal and result files) with exit status 0, or ends with a failure status. It never reports success with a wrong, missing or cut-off answer, never goes on for ever, and never dies from a memory fault.",
 ["fault_sequences","inputs","configurations"],"every workload of count, integrate, latte-maximize, latte-minimize and top-ehrhart-knapsack, and every single fault and short fault sequence placed at any operation of the run",
 "The tests run on a healthy machine with every helper installed; no test makes a helper or the disk fail.",
 [L+"triangulation/triangulate.cpp",L+"triangulation/RegularTriangulationWithCdd.cpp",L+"triangulation/TriangulationWithTOPCOM.cpp",L+"dual.cpp",L+"ReadPolyhedron.cpp",L+"vertices/cdd.cpp",L+"latte_system.cpp",L+"CheckEmpty.cpp",L+"count.cpp",L+"genFunction/maple.cpp",L+"binarySearchIP.cpp",L+"ExponentialEhrhart.cpp"],
 [("helper programs run through the shell",L+"latte_system.cpp"),("parsing of helper output",L+"vertices/cdd.cpp, dual.cpp, triangulation/*"),("writing of result files",L+"count.cpp, genFunction/maple.cpp, top-knapsack/Driver.cpp")],
 ["exit status","printed answer","result files","termination"])
p("S03","A crash leaves nothing behind that makes a later run wrong",
 "After a LattE run is killed at any point, with any prefix of its last write on disk, a new run in the same directory with the same or another input gives the right answer. The same holds when the directory contains left-over working files of any earlier run of any LattE program.",
 ["crash_points","histories","inputs"],"every crash point and torn write of a first run, of every program and option set, followed by every second run in the same directory",
 "The tests start in a clean directory and never kill anything; working files have fixed names that a later run may read.",
 [L+"vertices/cdd.cpp",L+"dual.cpp",L+"triangulation/triangulate.cpp",L+"CheckEmpty.cpp",L+"latte_system.cpp",L+"binarySearchIP.cpp",L+"count.cpp"],
 [("fixed-name working files in the current directory",L+"vertices/cdd.cpp, CheckEmpty.cpp, dual.cpp"),("per-process temporary directory",L+"latte_system.cpp")],
 ["exit status and answer of the second run"],[("latte_cdd.*, tri.*, Check_emp.*","working files of the external tools","current directory"),("/tmp/latte-*","temporary directory","latte_system.cpp")])
p("S04","Library calls in one process do not influence each other",
 "When a program calls LattE's library entry points (counting, generating functions, Ehrhart data, valuations) several times in one process, in any order and with any inputs and options, each call behaves and answers exactly as it would as the first call of a fresh process. A call that fails with an exception leaves later calls unaffected.",
 ["histories","programs","inputs"],"every sequence of library calls over every input and option set, with failing calls in between",
 "Each test is one call in a new process; options and counters live in static and global variables whose influence only shows in later calls.",
 [L+"count.cpp",L+"count.h",L+"valuation/valuation.cpp",L+"print.cpp",L+"timing.cpp",L+"triangulation",L+"cone.cpp"],
 [("mainCountDriver",L+"count.cpp"),("mainValuationDriver",L+"valuation/valuation.cpp")],
 ["return value and thrown exception of each call","printed answers","result files"],[("static parameters","option values and counters kept between calls",L+"count.cpp, valuation/valuation.cpp, triangulation/*")])
p("S05","Ehrhart polynomials, series and Taylor terms are exact",
 "For every bounded polytope accepted, the Ehrhart polynomial (integral vertices), the Ehrhart series as a rational function and its first terms agree exactly with the number of lattice points of every dilate of the polytope. They do not depend on random draws, input format or chosen engines.",
 ["inputs","configurations","histories"],"every polytope, every supported option set, every sequence of random draws, every dilation factor",
 "The tests only count; no test looks at a coefficient.",
 [L+"ExponentialEhrhart.cpp",L+"count.cpp",L+"genFunction/maple.cpp",L+"ehrhart.cpp",L+"Residue.cpp",L+"PolyTree.cpp",L+"top-ehrhart",L+"dual.cpp"],
 [("exponential residue Ehrhart polynomial",L+"ExponentialEhrhart.cpp"),("generating function of the cone over the polytope",L+"count.cpp")],
 ["printed polynomial or terms","file <input>.rat"])
p("S06","Volumes and integrals are exact, and all methods agree",
 "integrate prints the exact rational volume of a polytope and the exact rational integral over it of a polynomial, a sum of powers of linear forms or a sum of products of powers of linear forms, including repeated, constant, zero and cancelling terms. Every method (triangulation, cone decomposition, conversion of a polynomial to products of linear forms) gives this value, whatever the engines and random draws, and the printed decimal agrees with it. An integrand that is cut off, malformed or in the wrong number of variables is refused.",
 ["inputs","configurations","histories"],"every full-dimensional polytope, every integrand, every method and engine, every sequence of random draws",
 "No stable test runs integrate on more than fixed examples, and exactness for every integrand cannot be sampled.",
 [L+"valuation/valuation.cpp",L+"valuation/PolytopeValuation.cpp",L+"valuation/Driver.cpp",L+"integration/newIntegration.cpp",L+"integration/PolyTrie.cpp",L+"integration/residue.cpp",L+"integration/multiply.h",L+"integration/GeneralMonomialSum.h",L+"integration/burstTrie.h",L+"integration/iterators.h"],
 [("decomposition of monomials into powers of linear forms",L+"integration/PolyTrie.cpp"),("integration over a simplex and over a cone by residues",L+"integration/newIntegration.cpp, residue.cpp"),("sum over a triangulation or over tangent cones with a random perturbation",L+"valuation/PolytopeValuation.cpp")],
 ["printed Answer and Decimal lines","exit status"])
p("S07","Knapsack top Ehrhart coefficients are exact quasi-polynomials",
 "For every list of positive integers whose greatest common divisor is one, top-ehrhart-knapsack prints, for each requested coefficient, a step polynomial that equals the corresponding coefficient of the number of ways to pay t with those coins, for every t. The result does not depend on the random seed or on the polynomial-time or enumerated gcd method; a list outside the contract is refused.",
 ["inputs","configurations","histories"],"every list of integers, every requested coefficient, every option, every sequence of random draws",
 "No stable test runs this program.",
 [L+"top-knapsack/TopKnapsack.cpp",L+"top-knapsack/TopKnapsack.h",L+"top-knapsack/Driver.cpp",L+"top-knapsack/PeriodicFunction.cpp",L+"integration/multiply.h",L+"barvinok"],
 [("Moebius sum over poles",L+"top-knapsack/TopKnapsack.cpp"),("unimodular decomposition per pole",L+"top-knapsack/TopKnapsack.cpp")],
 ["printed coefficient functions","output file","exit status"])
p("S08","latte-maximize and latte-minimize return the true optimum",
 "For every bounded polytope with at least one lattice point and every integer cost vector, the optimal value printed is the exact maximum (minimum) over the lattice points, and an optimal solution printed is a lattice point of the polytope that attains it. With binary search the number of optimal solutions is exact as well. The optimum and the optimal vertex of the linear relaxation that are printed along with it are right up to the printed precision, and so is the gap.",
 ["inputs","configurations","histories"],"every polytope, cost vector, direction and search method, every sequence of random draws",
 "No stable test runs these programs.",
 [L+"maximize.cpp",L+"minimize.cpp",L+"binarySearchIP.cpp",L+"tmpIP.cpp",L+"genFunction/IntCombEnum.cpp",L+"dual.cpp",L+"print.cpp"],
 [("digging through Laurent terms in cost order",L+"tmpIP.cpp (SolveIP, ProjectUp)"),("binary search by counting slices",L+"binarySearchIP.cpp")],
 ["printed optimal value, solution and number of solutions"])
p("S09","The multivariate generating function represents exactly the lattice points",
 "For every bounded polytope accepted, a successful run that promises a multivariate generating function leaves a complete, well-formed rational function whose value equals the sum of the monomials of the polytope's lattice points. This holds for every decomposition parameter, engine, input format and random draw.",
 ["inputs","configurations","histories"],"every polytope, every option set, every sequence of random draws",
 "No stable test reads the generating function file.",
 [L+"genFunction/maple.cpp",L+"genFunction/piped.cpp",L+"genFunction/matrix_ops.cpp",L+"count.cpp",L+"ReadPolyhedron.cpp"],
 [("enumeration of fundamental parallelepipeds",L+"genFunction/piped.cpp"),("writing of the rational function",L+"genFunction/maple.cpp")],
 ["file <input>.rat","exit status"])
p("S10","Hilbert bases are complete for every partition, interruption and restart",
 "The rays of a cone together with the vectors that hilbert-from-rays writes contain the Hilbert basis of the cone, and consist of lattice points of the cone only. Each vector is listed once. This holds when the subcones are processed by several workers in any split and interleaving, when a run is interrupted and then restarted or continued from its completed triangulation or subcone list (an incomplete subcone list is refused), when the clock jumps or time limits expire (cones are then subdivided further, never dropped), when verbosity signals arrive, and for every random draw.",
 ["inputs","configurations","schedules","crash_points","histories"],"every cone, triangulation and reduction option, subcone partition, worker interleaving, clock and time limit, crash point",
 "No test runs this program; the loss of one subcone shows only for particular partitions, interruptions or time limits.",
 [L+"normalize/normalize.cpp",L+"normalize/ReductionTest.cpp",L+"normalize/normalize_main.cpp",L+"print.cpp",L+"triangulation"],
 [("subcone selection and time-limited processing",L+"normalize/normalize.cpp"),("reduction tests",L+"normalize/ReductionTest.cpp")],
 ["<name>.hil","exit status"])
p("S11","Cone, subcone and polyhedron files pass unchanged or are refused",
 "A list of cones written by one LattE program and read by another describes the same cones, with the same apexes, rays and coefficients, and the result computed from it (vertex cones, generating function, dual cones, triangulation, Hilbert bases) is the one computed directly. The converters between LattE and cdd formats preserve the polyhedron with its equations. A cone, subcone or polyhedron file that is empty, cut off inside a cone or matrix, or cannot be read is refused, never taken for a shorter or different one; a write of such a file that failed is reported, and whatever a killed writer leaves behind is refused or complete.",
 ["inputs","fault_sequences","crash_points"],"every list of cones, and every cut or failed read of its file",
 "No test reads back what was written; cut-off files never occur in tests.",
 [L+"print.cpp",L+"ReadSubcones.cpp",L+"vertices/cdd.cpp",L+"latte_ntl.cpp",L+"latte_4ti2_zsolve.cpp",L+"triangulation/test-triangulation.cpp",L+"polyhedron-to-cones.cpp",L+"dual.cpp"],
 [("printConeToFile and readListConeFromFile",L+"print.cpp"),("ReadSubcones and subcone writers",L+"ReadSubcones.cpp")],
 ["list after reading","exit status","file contents"])
p("S12","Simultaneous runs do not disturb each other or anything else",
 "LattE programs started at the same time in different directories of one machine each give the answer they give alone, for every interleaving of their operations and whatever process ids they have. A run changes no file outside its working directory and its own temporary directory, leaves its input files unmodified, and removes its temporary directory when it succeeds.",
 ["schedules","inputs","configurations"],"every pair or triple of workloads, every interleaving of their file operations and helper programs, process ids including reused ones",
 "Tests run one program at a time; nothing observes which files a run touches.",
 [L+"latte_system.cpp",L+"dual.cpp",L+"triangulation",L+"vertices",L+"count.cpp",L+"top-ehrhart"],
 [("per-process temporary directory",L+"latte_system.cpp"),("fixed-name working files in the current directory",L+"vertices/cdd.cpp")],
 ["answers of all runs","directory contents"])
p("S13","The benchmark database records every result once, through crashes and restarts",
 "The integration and volume benchmark drivers record exactly one timing result per test case and method, resume after a crash or a database error at any point without losing or repeating recorded results, and never record a result that was not computed. The database stays readable, and statistics printed from it are those of the rows it holds.",
 ["crash_points","fault_sequences","histories"],"every crash point and disk fault during database updates, and every sequence of driver calls and restarts",
 "No test runs the database drivers.",
 [L+"sqlite/SqliteDB.cpp",L+"sqlite/IntegrationDB.cpp",L+"sqlite/VolumeDB.cpp",L+"valuation/test/runIntegrationTestFromDatabaseDriver.cpp",L+"valuation/test/runVolumeTestFromDatabaseDriver.cpp",L+"valuation/test/buildDatabaseRandomPolytopesDriver.cpp",L+"valuation/test/printDatabaseTimeTablesDriver.cpp"],
 [("insert and update of result rows",L+"sqlite/IntegrationDB.cpp")],
 ["rows of the database after each run","exit status"],[("results database","polytopes, polynomials and results","sqlite file")])
p("S14","Top Ehrhart coefficients from Maple are exact",
 "The weighted and unweighted top Ehrhart coefficients and the simplified Ehrhart series that LattE obtains through Maple scripts equal the exact ones.",
 ["inputs","configurations"],"every polytope and weight",
 "The tests skip everything that needs Maple.",
 [L+"top-ehrhart",L+"valuation/valuation.cpp",L+"count.cpp"],
 [("generated Maple scripts",L+"top-ehrhart")],["printed coefficients"])
p("S15","Approximate counts stay within their stated error",
 "The counts by sampling in fundamental parallelepipeds stay within the stated bounds of the exact count.",
 ["inputs","histories"],"every polytope and every sequence of random draws",
 "The code is not compiled into the default build.",
 [L+"ExponentialApprox.cpp"],[("sampling",L+"ExponentialApprox.cpp")],["printed bounds"])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import os
for x in P:
    jsonschema.validate(x,s)
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",x["id"],f)
