"""Source of /verif/properties.jsonl: python3 tools/mkprops.py rewrites it."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": [observe], "hook_needed": None}})


prop("C01", "Soundness: a problem that has a model is never reported as proved",
     "If the input statements together with the negated conjecture have a model, no run reports a proof (or an answer), "
     "whatever the input language, the search strategy, the number of parallel workers or the output format. "
     "Such a run ends with an explicit no-proof result or at its time limit, and does not crash.",
     ["inputs", "configurations"],
     "all satisfiable first order problems with equality, all strategy objects, 0..n parallel workers, all output formats",
     "The tests run a fixed list of example files, nearly all of them provable; unsoundness shows only on unprovable inputs "
     "under particular rule and strategy combinations.",
     ["Reasoner/resolve.c", "Reasoner/derive.c", "Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/simp.c", "Reasoner/rewrite.c",
      "Reasoner/rgenloop.c", "Reasoner/hash.c", "Builtparser/dbclausify.c"],
     [("binary resolution, factoring, paramodulation", "Reasoner/resolve.c, Reasoner/derive.c"),
      ("unification with occurs check", "Reasoner/unify.c wr_unify_term"),
      ("unit and double cutting", "Reasoner/simp.c wr_simplify_cl, Reasoner/subsume.c"),
      ("demodulation", "Reasoner/rewrite.c"),
      ("propositional instance/propagation checks", "Reasoner/prop.c, Reasoner/propagate.c")],
     "result line and exit of the command line tool")

prop("C02", "Completeness on decidable fragments",
     "For unsatisfiable problems of the propositional, ground and function-free fragments (and generalisations of these "
     "by variables in place of repeated terms, with equality as far as the clauses are Horn) a proof is found by the automatic strategy and by each of the complete "
     "single strategies, including when the problem is stated by formulas and a conjecture instead of clauses. "
     "The search never crashes and never reports that no proof exists.",
     ["inputs", "configurations"],
     "all unsatisfiable clause sets and formulas of the named fragments (positive equalities with a bare variable side excluded), "
     "automatic strategy and the strategies listed in DESIGN.md",
     "Losing an inference (indexing, subsumption, literal selection, queue handling) leaves most of the fixed example proofs "
     "findable by another route.",
     ["Reasoner/rgenloop.c", "Reasoner/clstore.c", "Reasoner/subsume.c", "Reasoner/resolve.c", "Reasoner/hash.c", "Reasoner/rmain.c",
      "Reasoner/makeguide.c", "Reasoner/clmeta.c"],
     [("given clause loop and queues", "Reasoner/rgenloop.c, Reasoner/clstore.c"),
      ("literal indexing", "Reasoner/hash.c, Reasoner/clterm.c"),
      ("forward/backward subsumption", "Reasoner/subsume.c"),
      ("automatic strategy", "Reasoner/makeguide.c")],
     "result line of the command line tool")

prop("C03", "Every printed proof is a checkable derivation",
     "Each step of a printed proof that is not an input is a logical consequence of exactly the earlier steps it cites, each "
     "input step follows from the input statement it names (up to the introduced symbols of the clausification), and the last step is "
     "the contradiction or the answer reported. The same holds for proofs printed as JSON or TPTP.",
     ["inputs", "configurations"],
     "all provable problems, all strategies, all output formats",
     "The tests compare at most the result line of a proof, not whether its steps follow.",
     ["Reasoner/history.c", "Reasoner/derive.c", "Reasoner/simp.c", "Reasoner/printerrutils.c"],
     [("derivation records", "Reasoner/history.c wr_build_*_history"),
      ("proof printing", "Reasoner/history.c wr_show_result, wr_flatten_history")],
     "proof text printed by the command line tool")

prop("C04", "Clausification preserves meaning",
     "Converting statements to clauses keeps satisfiability: every finite model of the statements extends, by an interpretation of the "
     "introduced symbols only, to a model of the printed clauses, and every model of the clauses is a model of the statements. "
     "This holds for all connectives, nestings, quantifier scopes and re-used variable names.",
     ["inputs"], "all first order formulas", "The example files contain a handful of formula shapes; scope and polarity faults need particular nestings.",
     ["Builtparser/dbclausify.c", "Parser/dbclausify.c", "Builtparser/dbparse.c"],
     [("negation normal form, skolemisation, distribution, renaming", "Builtparser/dbclausify.c"),
      ("conjecture negation", "Builtparser/dbparse.c")],
     "output of -clausify / -convert")

prop("C05", "The input languages agree and conversion round-trips",
     "The same problem written in the simple language, TPTP (formulas or clauses) and JSON gives the same clauses up to names and the "
     "same verdict, with both parser builds. Converting a problem to any output language and reading it back gives an equivalent problem "
     "with the same names and roles.",
     ["inputs"], "all problems expressible in the three languages, including negative numbers, quoted symbols, lists and distinct symbols",
     "Tests compare a few example files by hand in one direction.",
     ["Builtparser/dbotter.tab.c", "Builtparser/dbprolog.tab.c", "Builtparser/jsparse.c", "Builtparser/dbparse.c", "Printer/dbotterprint.c", "Reasoner/printerrutils.c"],
     [("TPTP and simple parser", "Builtparser/dbotter.*, Builtparser/dbprolog.*"), ("JSON parser", "Builtparser/jsparse.c"),
      ("clause and term printing", "Printer/dbotterprint.c")],
     "output of -clausify and -convert, verdicts")

prop("C06", "Ground arithmetic evaluates to the documented value",
     "A ground arithmetic term or comparison over integers and reals is evaluated to the value the documentation gives it: what is "
     "proved equal is equal, what differs is never proved equal, and integer results outside the representable range are left "
     "unevaluated and never wrap around. Division by zero is left unevaluated.",
     ["inputs"], "all ground terms over the documented operators with all 64-bit integer and real arguments",
     "The examples use a few small numbers; signs, limits, overflow and int/real mixing need search.",
     ["Reasoner/build.c", "Builtparser/dbparse.c", "Builtparser/dbotter.yy.c", "Printer/dbotterprint.c", "Db/dbdata.c"],
     [("evaluation of built-in functions", "Reasoner/build.c wr_compute_*"), ("number tokens", "Builtparser/dbparse.c")],
     "proof / no proof of ground equations and comparisons")

prop("C07", "Lists, distinct symbols and type predicates evaluate as documented",
     "Ground terms over the list functions, distinct symbols, string functions and the type predicates evaluate to the documented value: "
     "each true statement about them is proved and no false one is.",
     ["inputs"], "all ground terms over the documented list, string and type functions",
     "The examples use single hand written lists and strings.",
     ["Reasoner/build.c", "Reasoner/unify.c", "Builtparser/dbparse.c", "Builtparser/jsparse.c"],
     [("list and string functions", "Reasoner/build.c wr_compute_fun_list*"), ("distinctness of symbols and numbers", "Reasoner/unify.c, Reasoner/build.c")],
     "proof / no proof of ground statements")

prop("C08", "Answers are correct and complete for rule bases",
     "For a question over facts and rules every reported answer follows from the input, no answer is reported twice, and with a large enough "
     "answer limit every answer is reported. With a limit of n at most n answers are reported, and n are reported if that many exist.",
     ["inputs", "configurations"], "all function-free rule bases (also with negated-free multi-literal questions), answer limits and strategies",
     "Examples ask for one answer of a small base.",
     ["Reasoner/history.c", "Reasoner/derive.c", "Reasoner/rmain.c", "Builtparser/dbparse.c"],
     [("answer literals", "Reasoner/derive.c wr_cl_derived_is_answer"), ("answer registration", "Reasoner/history.c wr_register_answer, wr_enough_answers")],
     "answers printed")

prop("C09", "Ground equality is decided by congruence",
     "For ground equations and disequations a contradiction is found exactly when the disequations contradict the congruence closure of the "
     "equations, under every strategy that keeps equality handling on.",
     ["inputs", "configurations"], "all finite sets of ground equations, disequations and literals; strategies with equality enabled",
     "Term ordering, demodulation and rewriting faults show only for particular term shapes and orders.",
     ["Reasoner/rewrite.c", "Reasoner/derive.c", "Reasoner/clterm.c", "Reasoner/resolve.c", "Reasoner/build.c"],
     [("demodulators", "Reasoner/rewrite.c"), ("term ordering", "Reasoner/clterm.c, Reasoner/rewrite.c"), ("paramodulation", "Reasoner/resolve.c, Reasoner/derive.c")],
     "result line")

prop("C10", "Querying a shared-memory knowledge base equals reading the files together",
     "A query against axioms loaded into shared memory has the same outcome and the same answers as a run over the axioms and the query "
     "in one problem, with equality, arithmetic, strings and lists included.",
     ["inputs", "configurations"], "all splits of problems into axioms and query, all strategies, after loading from a source file or from a dump",
     "Tests load one example base and ask one question.",
     ["Reasoner/init.c", "Reasoner/rmain.c", "Db/dbmem.c", "Db/dballoc.c", "Main/gkc.c"],
     [("loading and indexing a base", "Reasoner/init.c"), ("local and shared databases in one run", "Reasoner/rmain.c, Reasoner/clterm.c")],
     "verdicts and answers of -usekb against direct runs")

prop("C11", "Shared knowledge bases are isolated, unchanged by queries, and survive dumps",
     "Queries, also concurrent ones and ones that are killed, never change the loaded base; bases under different numbers do not affect each other; "
     "writing a base to a file and loading it gives a base that answers the same queries. A missing, deleted or damaged base or dump is reported "
     "as an error and never answers a query.",
     ["histories", "schedules", "crash_points"], "all sequences of load, query, concurrent query, kill, dump, load-dump and delete over several base numbers",
     "Tests run one fixed load/query/delete sequence; the dump test fails on the original tree.",
     ["Db/dbmem.c", "Db/dbdump.c", "Main/gkc.c", "Reasoner/rmain.c", "Db/dblock.c"],
     [("attach, detach, delete", "Db/dbmem.c"), ("dump and import", "Db/dbdump.c"), ("commands", "Main/gkc.c")],
     "outcomes of command histories; bytes of the shared segment before and after queries")

prop("C12", "Runs are repeatable and parallel workers agree with sequential search",
     "The same command on the same input without parallel workers prints the same result, proof and answers every time. With parallel workers "
     "the run reports exactly one result, a proof only if one exists and a proof whenever a complete strategy in the list finds one within its time, "
     "and leaves no worker process behind.",
     ["inputs", "schedules", "configurations"], "all problems, worker counts and run lists",
     "Tests run without parallel workers.",
     ["Reasoner/rmain.c", "Main/gkc.c", "Reasoner/glb.c"],
     [("forking and collecting workers", "Reasoner/rmain.c"), ("clean state between runs", "Reasoner/glb.c, Reasoner/rmain.c")],
     "printed output and remaining processes")

prop("C13", "No input makes the tool read or write outside its memory",
     "For every byte sequence given as a problem, strategy, guide or dump file, in each input language, the tool ends with a result or a reported error, "
     "without a crash, without undefined memory access, and without running on unboundedly.",
     ["inputs"], "all byte sequences as input files and texts",
     "Tests use well formed files only.",
     ["Builtparser/dbotter.yy.c", "Builtparser/dbprolog.yy.c", "Builtparser/dbotter.tab.c", "Builtparser/dbprolog.tab.c", "Builtparser/jsparse.c", "Builtparser/dbparse.c",
      "Builtparser/dbclausify.c", "cjson/cjson.c", "json/yajl_all.c"],
     [("lexers and parsers", "Builtparser/*.yy.c, Builtparser/*.tab.c"), ("JSON reading", "Builtparser/jsparse.c, json/yajl_all.c"), ("strategy reading", "cjson/cjson.c, Reasoner/guide.c")],
     "exit status and sanitizer reports")

prop("C14", "Database values decode to what was encoded and compare consistently",
     "Every value of each supported type (null, integers, reals, strings with and without language or type tags, characters, dates, times, "
     "fixed point numbers, records, variables, anonymous constants) decodes to exactly the value encoded, however much is stored after it, equal long strings share one stored copy, "
     "and comparison is a total order consistent with equality.",
     ["inputs", "histories"], "all values of all types, all orders of creating and freeing them",
     "Tests try a few values per type; several of these tests fail on the original tree.",
     ["Db/dbdata.c", "Db/dbcompare.c", "Db/dbhash.c", "Db/dbutil.c"],
     [("value encoding", "Db/dbdata.c wg_encode_*, wg_decode_*"), ("string table", "Db/dbhash.c, Db/dbdata.c find_create_longstr"), ("comparison", "Db/dbcompare.c")],
     "the C interface of the database")

prop("C15", "The database keeps its records intact under every operation history",
     "After any sequence of creating records, filling their fields, deleting records, and dumping and importing the database, every live record has exactly the "
     "fields stored in it, iterating gives exactly the live records, and queries by conditions or templates, with or without a tree index over the column, and "
     "repeated search by a column value all select exactly the matching records; freed space is re-used and no two live records overlap. "
     "Running out of space is reported and leaves the earlier contents intact. (In the engine's build fields are written once, indexes are built over existing "
     "records, and records that refer to or share parts with others are not deleted.)",
     ["histories", "fault_sequences"], "all operation sequences over records, fields, tree indexes and queries in databases of any size",
     "Tests run fixed scripts on fresh databases; three allocator and query defects had gone unnoticed.",
     ["Db/dballoc.c", "Db/dbindex.c", "Db/dbquery.c", "Db/dbdata.c", "Db/dbhash.c", "Db/dbmem.c", "Db/dbdump.c"],
     [("allocation and free lists", "Db/dballoc.c wg_alloc_gints, wg_free_object"), ("T-tree indexes", "Db/dbindex.c"), ("queries", "Db/dbquery.c")],
     "the C interface of the database")

prop("C16", "Unification, matching and subsumption agree with their definitions",
     "Two terms unify exactly when they have a common instance (with the occurs check), the unifier found makes them equal, one term matches another exactly when "
     "the second is an instance of the first, and a clause is reported as subsumed exactly when some substitution maps the literals of the subsuming clause onto different literals of it.",
     ["inputs"], "all terms and clauses, with shared and separate variables",
     "Built-in tests check a few dozen fixed pairs.",
     ["Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/build.c"],
     [("unification", "Reasoner/unify.c wr_unify_term"), ("matching", "Reasoner/unify.c wr_match_term"), ("clause subsumption", "Reasoner/subsume.c wr_subsume_cl")],
     "the C interface of the reasoner")

prop("C17", "All output formats tell the same story",
     "The result, the answers and the proof steps of a run are the same in text, JSON and TPTP output; JSON output is always one well formed JSON value "
     "and TPTP proofs can be read back. This holds for all symbol names, including quoted names with special characters.",
     ["inputs", "configurations"], "all problems, symbol names and output options",
     "Tests look for a result line.",
     ["Reasoner/history.c", "Printer/dbotterprint.c", "Reasoner/printerrutils.c", "Reasoner/rmain.c", "Main/gkc.c"],
     [("result printing", "Reasoner/history.c wr_show_result"), ("term and clause printing", "Printer/dbotterprint.c")],
     "printed output")

prop("C18", "Verdicts do not depend on names, order or presentation",
     "Renaming symbols and variables consistently, reordering statements, literals and equation sides, repeating statements, spreading them over several files or "
     "included files, and changing white space and comments do not change whether a (small decidable) problem is proved.",
     ["inputs", "configurations"], "all problems of the decidable fragments and all such presentation changes",
     "Tests have one presentation of each problem.",
     ["Builtparser/dbparse.c", "Reasoner/hash.c", "Reasoner/clterm.c", "Reasoner/rmain.c", "Main/gkc.c"],
     [("reading several files and includes", "Builtparser/dbparse.c, Main/gkc.c"), ("symbol hashing and order", "Db/dbhash.c, Reasoner/hash.c")],
     "result line")

prop("C19", "Arithmetic instantiation is sound, bounded and off when disabled",
     "With arithmetic instantiation on, a satisfiable problem over integers is still never proved, and problems needing one listed instance are proved. "
     "With it off, the search is the same as if the feature did not exist.",
     ["inputs", "configurations"], "all problems with non-ground arithmetic atoms, all instantiation modes and limits",
     "A few example files exercise single instances.",
     ["Reasoner/arithinst.c", "Reasoner/rgenloop.c", "Reasoner/guide.c"],
     [("instance generation", "Reasoner/arithinst.c wr_generate_arith_instances")],
     "result line and proof")

prop("C20", "Limits and options are obeyed",
     "A run ends within its time limit plus a small margin and reports it, limits on size, depth, length and weight only remove proofs and never add any, "
     "a run list is tried in order, and unknown options, missing files and malformed strategies give an error and no result.",
     ["configurations", "inputs", "fault_sequences"], "all option combinations, strategy limits, small memory sizes",
     "Tests use one option set.",
     ["Main/gkc.c", "Reasoner/rmain.c", "Reasoner/guide.c", "Reasoner/glb.c", "Reasoner/mem.c"],
     [("command line", "Main/gkc.c"), ("strategy reading", "Reasoner/guide.c"), ("time limits", "Reasoner/rmain.c, Reasoner/rgenloop.c")],
     "exit, output and duration")

prop("C21", "JSON objects and lists have the documented logical reading",
     "A JSON-LD-LOGIC document means the formulas its documentation assigns to it: objects become triples with shared, explicit or invented identifiers, arrays and @list values "
     "become conjunctions or lists, and if/then lists, @logic and @graph parts, variables, null and nested objects are read as documented.",
     ["inputs"], "all documents of the documented language", "Examples contain one document per feature.",
     ["Builtparser/jsparse.c", "Parser/jsparse.c"], [("JSON to formulas", "Builtparser/jsparse.c")],
     "clauses printed by -clausify, verdicts")

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(p, "w") as fh:
        for x in P:
            fh.write(json.dumps(x) + "\n")
