#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one source for the texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': hook}})

prop('C01', 'Query results follow SQL semantics',
     'For every database and every accepted SELECT statement, executing the statement yields exactly the multiset of rows which SQL prescribes: '
     'three-valued logic and NULL propagation, filters, joins and Cartesian products, nested queries, grouping with COUNT, SUM, AVG, MIN and MAX, HAVING, projection with arithmetic and casts. '
     'The result respects ORDER BY (with NULLs ordered consistently) and LIMIT/OFFSET, and every result column has the name and type the statement determines.',
     ['inputs', 'programs'], 'All schemas, table contents and SELECT statements in the accepted dialect',
     'The tests run some tens of fixed queries over three fixed tables without NULLs; the combination of operators, NULLs, duplicates and types is unbounded.',
     ['src/backend/Interpreter.cpp', 'src/backend/StackMachine.cpp', 'src/IR/QueryGraph.cpp', 'src/IR/Optimizer.cpp', 'src/parse/Sema.cpp', 'src/IR/Operator.cpp'],
     [('push-based interpreter pipelines', 'src/backend/Interpreter.cpp'), ('expression evaluation', 'src/backend/StackMachine.cpp'), ('query graph construction', 'src/IR/QueryGraph.cpp')],
     ['execute_query with a callback operator', 'rows printed by statements'])
prop('C02', 'Physical choices never change a query result',
     'The rows a query returns do not depend on the plan enumerator, cost function, cardinality estimator, data layout or the way rows were loaded. '
     'Rewriting a query into an equivalent one (other order of sources or conjuncts, De Morgan, redundant tautologies, a partitioned filter) does not change its result either.',
     ['inputs', 'programs', 'configurations'], 'All queries, databases and registered configurations',
     'The tests run each query with one plan enumerator and one layout on data without NULLs.',
     ['src/IR/Optimizer.cpp', 'src/IR/PlanEnumerator.cpp', 'src/backend/Interpreter.cpp', 'src/storage/DataLayoutFactory.cpp', 'src/catalog/CardinalityEstimator.cpp'],
     [('optimizer', 'src/IR/Optimizer.cpp'), ('joins in the interpreter', 'src/backend/Interpreter.cpp')],
     ['execute_query with a callback operator'])
prop('C03', 'Plan enumeration is complete, valid and optimal',
     'For every connected query graph, every plan enumerator fills the plan table with a valid join tree that joins every source exactly once. '
     'The exhaustive enumerators all return a plan of the minimum total cost among all trees without Cartesian products, and greedy or heuristic ones never one below that minimum (the greedy ones join the pair with the smallest result, or cut where the parts are smallest; a search with an admissible heuristic is exact); costs and cardinalities recorded with a plan equal those recomputed from the tree.',
     ['inputs', 'configurations'], 'All query graphs, cardinalities, estimators and cost functions',
     'The tests use a few hand-built graphs of up to four sources with fixed cardinalities.',
     ['src/IR/PlanEnumerator.cpp', 'src/IR/HeuristicSearchPlanEnumerator.cpp', 'include/mutable/IR/PlanTable.hpp', 'include/mutable/util/MinCutAGaT.hpp', 'src/catalog/CostFunctionCout.cpp'],
     [('DPsize, DPsub, DPccp, TDbasic, TDMinCutAGaT, GOO, TDGOO, LinearizedDP, IKKBZ', 'src/IR/PlanEnumerator.cpp'), ('plan tables', 'include/mutable/IR/PlanTable.hpp')],
     ['plan table after enumeration'])
prop('C04', 'Conjunctive normal form preserves meaning',
     'Converting a boolean expression to conjunctive normal form preserves its value, true, false or unknown, under every assignment of its parts, and so do conjunction, disjunction and negation of normal forms. '
     'A predicate or clause implied syntactically by another is reported as such only if the implication really holds.',
     ['inputs'], 'All boolean expressions and assignments',
     'The tests compare a handful of fixed formulas textually.',
     ['src/IR/CNF.cpp', 'include/mutable/IR/CNF.hpp'],
     [('CNF generator and operators', 'src/IR/CNF.cpp')], ['cnf::to_CNF, &&, ||, !'])
prop('C05', 'Storage returns exactly what was written',
     'For every table schema, data layout and sequence of appends, writes, NULLs and drops, reading row i back yields exactly the values and NULLs last written to row i, and no write disturbs another row, attribute or memory outside the table. '
     'Every layout assigns each attribute and each NULL bit of each tuple a place of its own within the linearization.',
     ['inputs', 'histories', 'configurations'], 'All schemas, layouts and histories of writes',
     'Tests write a few tuples of two or three attributes with one layout each.',
     ['src/storage/PaxStore.cpp', 'src/storage/RowStore.cpp', 'src/storage/ColumnStore.cpp', 'src/storage/DataLayout.cpp', 'src/storage/DataLayoutFactory.cpp', 'src/storage/Store.cpp', 'src/backend/Interpreter.cpp'],
     [('data layouts', 'src/storage/DataLayoutFactory.cpp'), ('compile_load, compile_store', 'src/backend/Interpreter.cpp'), ('stores', 'src/storage/Store.cpp')],
     ['StoreWriter append and read', 'SELECT on the table'])
prop('C06', 'Import of delimited files is faithful and robust',
     'For every table, configuration (delimiter, quote, escape, header, limits) and well-formed delimited text, the import appends exactly the rows denoted by the text, empty fields becoming NULL. '
     'For arbitrary malformed text, the import terminates, reports each problem, corrupts neither memory nor existing rows, and imports every well-formed row as given.',
     ['inputs', 'configurations'], 'All tables, dialects and byte streams',
     'Tests read some tens of short fixed inputs.',
     ['src/io/DSVReader.cpp', 'include/mutable/io/Reader.hpp', 'src/catalog/DatabaseCommand.cpp'],
     [('DSVReader', 'src/io/DSVReader.cpp')], ['DSVReader::operator()', 'IMPORT INTO'])
prop('C07', 'Printed SQL parses back to the same statement',
     'Printing any parsed statement or expression and parsing the text again yields an equal syntax tree, so operator precedence, associativity, literals and clauses survive. '
     'Equality of expressions is an equivalence which hashing respects, and expressions which differ in meaning are never equal.',
     ['inputs', 'programs'], 'All statements and expressions of the grammar',
     'Tests compare tens of fixed expressions.',
     ['src/parse/ASTPrinter.cpp', 'src/parse/Parser.cpp', 'src/parse/AST.cpp', 'include/mutable/parse/AST.hpp'],
     [('parser', 'src/parse/Parser.cpp'), ('printer', 'src/parse/ASTPrinter.cpp'), ('equality and hashing', 'src/parse/AST.cpp')], ['printed text and parsed trees'])
prop('C08', 'The front end survives arbitrary input',
     'For every sequence of bytes, lexing, parsing and semantic analysis terminate without crash, undefined behaviour or failed assertion, and report at least one error exactly if the input is not accepted. '
     'The lexer splits every input into the longest tokens of the language, with exact text and source positions, and the parser accepts exactly the grammar.',
     ['inputs'], 'All byte strings',
     'Tests have fixed lists of good and bad snippets.',
     ['src/lex/Lexer.cpp', 'src/parse/Parser.cpp', 'src/parse/Sema.cpp', 'include/mutable/util/Diagnostic.hpp'],
     [('lexer', 'src/lex/Lexer.cpp'), ('parser', 'src/parse/Parser.cpp'), ('sema', 'src/parse/Sema.cpp')], ['tokens, diagnostics, exceptions'])
prop('C09', 'Semantic analysis types and rejects exactly as specified',
     'Every expression built from typed columns and literals gets exactly the type the typing rules assign (numeric promotion, decimal precision and scale, vectorial or scalar), and every ill-typed one is rejected with an error. '
     'Names resolve to the one visible column, result or table they denote; unknown and ambiguous names, aggregates in filters, and ungrouped columns beside aggregates are rejected.',
     ['inputs', 'programs'], 'All schemas, expressions and statements',
     'Tests check some tens of fixed expressions.',
     ['src/parse/Sema.cpp', 'src/catalog/Type.cpp'],
     [('semantic analysis', 'src/parse/Sema.cpp'), ('arithmetic_join', 'src/catalog/Type.cpp')], ['types and targets of the analysed tree, diagnostics'])
prop('C10', 'Types are canonical and their algebra is lawful',
     'Requesting the same type twice gives the same object and different types are never equal; equality, hashing, size and alignment are consistent with each other and with the parameters of the type. '
     'The arithmetic common type of two numeric types is commutative, associative and idempotent up to vectoriality, and at least as precise as both operands in kind, size and scale; values keep the number, text or NULL they were given when stored and compared.',
     ['inputs'], 'All type parameters and values',
     'Tests check a few constants.',
     ['src/catalog/Type.cpp', 'include/mutable/catalog/Type.hpp', 'src/IR/Tuple.cpp'],
     [('type pooling', 'src/catalog/Type.cpp'), ('values', 'src/IR/Tuple.cpp')], ['Type factories and predicates'])
prop('C11', 'An index finds exactly the matching entries',
     'For every sequence of insertions into an index of any key type, lower-bound, upper-bound and range lookups return exactly the entries a sorted multimap would, once the index is finalized; bulk loading from a table equals inserting its non-NULL rows one by one. '
     'Misuse (a lookup before finalization, an unsupported table) is reported and never yields wrong entries.',
     ['inputs', 'histories'], 'All key types, multisets of entries and lookups',
     'Tests use seven fixed keys per type.',
     ['src/storage/Index.cpp', 'include/mutable/storage/Index.hpp', 'src/catalog/DatabaseCommand.cpp'],
     [('array index and recursive model index', 'src/storage/Index.cpp')], ['lower_bound, upper_bound'])
prop('C12', 'Statements change the database exactly as stated',
     'After any sequence of data-definition, insert, import and query statements, the set of databases, tables, columns, constraints, indexes and rows equals that of a simple model of the statements. '
     'A statement which is rejected has no effect, and a failure never takes the process down.',
     ['histories', 'inputs'], 'All sequences of statements, valid or not',
     'Tests run single statements from a fixed state.',
     ['src/catalog/DatabaseCommand.cpp', 'src/parse/Sema.cpp', 'src/catalog/Schema.cpp', 'src/catalog/Catalog.cpp', 'src/mutable.cpp'],
     [('database commands', 'src/catalog/DatabaseCommand.cpp'), ('catalog', 'src/catalog/Catalog.cpp')], ['catalog after each statement, output of the statements'])
prop('C13', 'Transactions run in order and see consistent versions',
     'Commands scheduled for a transaction run one after another, in the order given, each to completion, whichever thread schedules them, and results are delivered exactly once. '
     'In a multi-version table, a transaction sees exactly the rows committed before it started, plus its own.',
     ['schedules', 'histories'], 'All interleavings of transactions',
     'Tests schedule a few commands from a fixed set of threads.',
     ['src/catalog/SerialScheduler.cpp', 'src/catalog/MultiVersioningFactory.cpp', 'src/catalog/TableFactory.cpp', 'include/mutable/catalog/Scheduler.hpp'],
     [('serial scheduler', 'src/catalog/SerialScheduler.cpp'), ('multi versioning', 'src/catalog/TableFactory.cpp')], ['results of scheduled commands'])
prop('C14', 'Sets and graph algorithms are exact',
     'Every operation on small bit sets agrees with sets of integers, and subset enumeration yields each subset exactly once in ascending order. '
     'Connectivity, reachability, neighbours, connected subgraphs and their complements, minimum cuts and minimum spanning forests of any graph agree with their definitions.',
     ['inputs'], 'All sets and graphs of up to 64 nodes',
     'Tests use a few small graphs.',
     ['include/mutable/util/ADT.hpp', 'include/mutable/util/AdjacencyMatrix.hpp', 'src/util/AdjacencyMatrix.cpp', 'include/mutable/util/MinCutAGaT.hpp'],
     [('SmallBitset, SubsetEnumerator, GospersHack', 'include/mutable/util/ADT.hpp'), ('AdjacencyMatrix', 'include/mutable/util/AdjacencyMatrix.hpp')], ['public functions'])
prop('C15', 'Containers and allocators behave as their models',
     'Under any sequence of operations, the list, the hash map, the dynamic bitset, the sorted sequence and the pools behave as the standard containers they replace, and destroy each element exactly once. '
     'Memory handed out by the allocators is aligned, disjoint from all other live memory, unharmed until returned, and reused or released afterwards.',
     ['histories', 'inputs'], 'All sequences of operations',
     'Tests run short fixed sequences.',
     ['include/mutable/util/list_allocator.hpp', 'include/mutable/util/allocator_base.hpp', 'include/mutable/util/ADT.hpp', 'include/mutable/util/RefCountingHashMap.hpp', 'include/mutable/util/Pool.hpp', 'include/mutable/util/memory.hpp'],
     [('doubly linked list, sorted vector, dynamic bitset', 'include/mutable/util/ADT.hpp'), ('allocators', 'include/mutable/util/list_allocator.hpp')], ['public functions'])
prop('C16', 'Text and number utilities are exact',
     'Pattern matching with LIKE agrees with its definition for every text, pattern and escape character, and so does the regular expression built from a pattern. '
     'Escaping, quoting, conversion of dates and timestamps and integer helpers (logarithms, powers, rounding, sorting, partitioning) are exact on their whole domain, and inverse pairs are inverse.',
     ['inputs'], 'All texts, patterns and numbers',
     'Tests sample a few values.',
     ['include/mutable/util/fn.hpp', 'src/util/fn.cpp', 'src/util/algorithms.cpp', 'include/mutable/util/algorithms.hpp'],
     [('like, pattern_to_regex, escape, unescape, quote', 'src/util/fn.cpp')], ['public functions'])
prop('C17', 'Cardinality estimates are well-formed',
     'Each estimator answers every combination of scan, filter, join, grouping and limit with an estimate within its documented bounds: the exact number of rows of a table, never more than the input for filters, limits and groupings, and the product of the inputs for Cartesian products. '
     'Estimates do not depend on the order in which joins are composed, and cardinalities loaded from a file are returned exactly for the subproblems named there unless they exceed the product of the inputs.',
     ['inputs', 'configurations'], 'All query graphs, tables and estimators',
     'Tests check single fixed plans.',
     ['src/catalog/CardinalityEstimator.cpp', 'include/mutable/catalog/CardinalityEstimator.hpp', 'src/util/SpnWrapper.cpp'],
     [('estimators', 'src/catalog/CardinalityEstimator.cpp')], ['predict_cardinality'])
prop('C18', 'Command line tools and options work as documented',
     'Option parsing assigns every given value to the option it belongs to, keeps positional arguments in order, and rejects malformed values for any command line. '
     'The lexer, parser and checker tools print, for every input, exactly what the library says about it, and end with a failure status exactly if there was an error.',
     ['inputs'], 'All command lines and inputs',
     'Tests run tens of fixed inputs per tool.',
     ['src/util/ArgParser.cpp', 'include/mutable/util/ArgParser.hpp', 'src/lex.cpp', 'src/parse.cpp', 'src/check.cpp', 'src/shell.cpp'],
     [('ArgParser', 'src/util/ArgParser.cpp'), ('tools', 'src/lex.cpp')], ['exit status, standard output'])
prop('C19', 'Schemas and tuples obey their algebra',
     'Looking up a schema entry by name, qualified or not, finds exactly the entries of that name, reporting absence and ambiguity; union, intersection, deduplication and constant removal keep exactly the entries they should, in order. '
     'Copying, cloning, inserting into, comparing and hashing tuples preserves every value and NULL, and equal tuples hash equally.',
     ['inputs', 'histories'], 'All schemas and tuples',
     'Tests use two or three entries.',
     ['src/catalog/Schema.cpp', 'include/mutable/catalog/Schema.hpp', 'src/IR/Tuple.cpp', 'include/mutable/IR/Tuple.hpp'],
     [('schema operators', 'src/catalog/Schema.cpp'), ('tuples', 'src/IR/Tuple.cpp')], ['public functions'])
prop('C20', 'Expression evaluation is exact',
     'Evaluating an expression over a tuple gives the value its type and the usual semantics determine: integer arithmetic of the given width, decimal arithmetic of the given scale, floating point, comparison of numbers, texts and times, LIKE, concatenation and casts. '
     'A NULL operand gives NULL except where three-valued logic determines the result.',
     ['inputs', 'programs'], 'All expressions and tuples',
     'Tests evaluate some tens of constants.',
     ['src/backend/StackMachine.cpp', 'include/mutable/backend/StackMachine.hpp', 'src/backend/Interpreter.cpp'],
     [('stack machine', 'src/backend/StackMachine.cpp')], ['StackMachine execution', 'constant evaluation'])
prop('C21', 'Logical plans are valid and required columns survive',
     'For every accepted query, the logical plan contains each source, filter, join predicate, grouping, ordering and limit of the statement exactly once, and every operator receives all the columns it and its consumers require. '
     'Removing unneeded projections and decorrelating nested queries preserve the schema and the meaning of the plan.',
     ['programs', 'configurations'], 'All queries',
     'Tests look at the shapes of some fixed plans.',
     ['src/IR/Optimizer.cpp', 'src/IR/QueryGraph.cpp', 'src/IR/Operator.cpp'],
     [('query graph construction and decorrelation', 'src/IR/QueryGraph.cpp'), ('optimizer', 'src/IR/Optimizer.cpp')], ['logical_plan_from_statement, execution of the plan'])
prop('C22', 'Learned models compute what they define',
     'Linear models are the least-squares fit of their data, clusterings assign each point to its nearest centre, and grid search visits every point of its space once. '
     'The probability of every predicate given by a sum-product network lies between zero and one, is additive and monotone, equals the fraction of rows for predicates over one discrete column (is bounded from both sides for continuous columns), and follows insertions; '
     'in networks over independent columns it follows updates and deletions, too.',
     ['inputs', 'histories'], 'All data sets and predicates',
     'Tests fit a few fixed data sets.',
     ['src/util/Spn.cpp', 'src/util/LinearModel.cpp', 'include/mutable/util/LinearModel.hpp', 'src/util/GridSearch.cpp', 'src/util/Kmeans.cpp', 'src/util/RDC.cpp'],
     [('SPN', 'src/util/Spn.cpp')], ['public functions'])
prop('C23', 'Locks exclude and never lose a waiter',
     'At any time, either one writer or any number of readers and at most one upgrader hold the lock, and an attempt that does not wait succeeds exactly if this rule permits it, where waiting writers and upgraders take precedence over new readers. '
     'A thread waiting for the lock obtains it once the holders are gone, and ownership objects release exactly what they hold.',
     ['schedules', 'histories'], 'All schedules of threads acquiring, upgrading and releasing',
     'Tests run one schedule of two or three threads.',
     ['include/mutable/util/reader_writer_lock.hpp'],
     [('reader_writer_mutex', 'include/mutable/util/reader_writer_lock.hpp')], ['lock and try_lock functions'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
