"""The checks: property -> harness, and what its cases are."""
NOT_APPLICABLE = {}
PROPS = {
    'C01': {
        'target': 'h_exec',
        'technique': 'model-based property testing: generated schemas, data and queries against a reference SQL evaluator',
        'rule': 'A case is a database of 1-4 tables with generated schemas (all types, NULLs, duplicates), loaded in a generated way into a '
                'generated data layout, and a SELECT statement generated from a typed grammar. Non-trivial: the query has a join, a filter, grouping, '
                'ordering or a nested query, and reads at least one row.',
        'note': 'Exploration against an independently written evaluator of SQL semantics. Trusts the evaluator and the bounds of the generator (up to 4 sources per query, tens of rows per table).',
    },
    'C02': {
        'scale': 2,
        'target': 'h_meta',
        'technique': 'differential and metamorphic property testing: one generated query under generated physical configurations, and equivalent forms of it, against a reference evaluator',
        'rule': 'A case is a database of 1-3 tables and a SELECT statement over up to 5 sources, run under several configurations (data layout, store, way of loading, plan enumerator, cost function, cardinality estimator, kind of plan table); '
                'or several equivalent rewritings of a statement; or a statement split by a condition, its negation and its being unknown. Non-trivial: a join with a non-empty result; a rewriting of a query with a non-empty result; at least two parts are non-empty.',
        'note': 'Exploration. Results are compared with the reference evaluator, so all configurations and rewritings agree with each other.',
    },
    'C03': {
        'scale': 5,
        'target': 'h_plan',
        'technique': 'property-based testing: generated query graphs, cardinalities and cost functions against an exhaustive reference',
        'rule': 'A case is a connected query graph (chain, cycle, tree, star, clique, grid, random) of 1-9 sources, or up to 26 sources of a sparse graph, with a size for every subproblem, an estimator and a cost function, given to every plan enumerator with both kinds of plan tables; '
                'or to one of the configurations of the heuristic search. Non-trivial: three sources or more.',
        'note': 'Exploration. Costs and sizes are integers represented exactly.',
    },
    'C04': {
        'scale': 3,
        'target': 'h_sema',
        'technique': 'property-based testing: generated formulas, truth tables of three-valued logic as the oracle',
        'rule': 'A case is a Boolean expression of up to 4 distinct atoms (columns, comparisons, ISNULL, LIKE) or a pair of normal forms. All assignments of true, false and unknown to the atoms are enumerated. '
                'Non-trivial: at least two atoms, or two clauses.',
        'note': 'Each formula is decided exhaustively; formulas are sampled.',
    },
    'C05': {
        'scale': 4,
        'target': 'h_storage',
        'technique': 'model-based property testing of generated layouts, rows and histories of writes, with an exact bit map of the memory as the oracle',
        'rule': 'A case is a list of attribute types with a data layout (of the factories, or of nodes nested at will), a history of stores and loads on memory of exactly the size of the layout, a history of appends, inserts, drops and reads on tables, '
                'a store filled to its capacity, or a range of rows whose column is generated. Non-trivial: several attributes or rows, a proper range, a full store.',
        'note': 'Exploration. After every stored row all bits which do not belong to it are compared with those before; the sanitizer guards the ends of the memory.',
    },
    'C06': {
        'scale': 20,
        'target': 'h_dsv',
        'technique': 'property-based testing: generated rows rendered as delimited text by an independent model, malformed lines and mutated bytes injected',
        'rule': 'A case is a table, a dialect and a text of generated rows, possibly with malformed lines or mutated bytes, or an IMPORT statement on such a file. '
                'Non-trivial: several rows with quoted cells, NULLs or a permuted header; well-formed lines after malformed ones; garbage of several lines which led to rows or errors.',
        'note': 'Exploration.',
    },
    'C07': {
        "scale": 3,
        'target': 'h_front',
        'technique': 'property-based testing: round trips between text and syntax tree over a generated grammar',
        'rule': 'A case is a statement of any kind, or a pair of expressions, generated from the grammar of the language. Non-trivial: more than four tokens (statements), more than one (expressions).',
        'note': 'Exploration of the grammar with an independent canonical description of syntax trees as the witness of equality.',
    },
    'C08': {
        "scale": 12,
        'target': 'h_front',
        'technique': 'grammar-based fuzzing and property-based testing against a reference lexer and a reference recogniser',
        'rule': 'A case is a byte string made of tokens, fragments and random bytes; or statements generated from the grammar together with their syntax tree; or such statements with tokens deleted, replaced, inserted, swapped; '
                'or a session of statements given to semantic analysis. Non-trivial: at least two tokens; membership in the language is specified.',
        'note': 'Exploration under address and undefined-behaviour sanitizers with assertions enabled. Nesting depth of inputs is bounded; chained comparisons, repeated signs and the like are left unspecified.',
    },
    'C09': {
        'scale': 5,
        'target': 'h_typing',
        'technique': 'model-based property testing: generated schemas and statements, well typed or with planted mistakes, against a reference of the rules of scoping and typing',
        'rule': 'A case is a database schema with a SELECT statement (aliases, nested queries in FROM and in expressions, grouping, correlation), an INSERT or a CREATE TABLE statement generated with or without mistakes. '
                'Acceptance, the type of every expression and the target of every designator are compared. Non-trivial: more than a minimal statement, with specified outcome.',
        'note': 'Exploration against an independently written analysis of the same rules. Aggregates of aggregates, aggregates combined with values per row, and SELECT * with grouping are left unspecified.',
    },
    'C10': {
        'scale': 4,
        'target': 'h_types',
        'technique': 'property-based testing: generated families of types with nearly equal parameters against their specifications; algebraic laws of the arithmetic join; values against the numbers they were made of',
        'rule': 'A case is a sequence of up to 26 requests of types, a third of them differing from an earlier one in at most one parameter, compared pairwise; or up to 13 pairs of values of one of 12 kinds. Non-trivial: at least four different types.',
        'note': 'Exploration. DECIMAL with more than 18 digits outside of the property where sizes are concerned.',
    },
    'C11': {
        'scale': 20,
        'target': 'h_index',
        'technique': 'stateful property-based testing against a sorted multimap',
        'rule': 'A case is a history of insertions, finalizations and lookups over keys of one type and one of six distributions, or a generated table whose column is bulk loaded. '
                'Non-trivial: more than two entries, with at least two different keys, and lookups.',
        'note': 'Exploration.',
    },
    'C12': {
        'target': 'h_stmt',
        'technique': 'stateful model-based property testing: generated histories of statements, valid and invalid, run by the scheduler as in the shell, against a model of the catalog and of all rows',
        'rule': 'A case is a history of 3-43 statements on up to three databases: data definition with constraints and references, inserts, imports, queries, and invalid variants of all of them; the whole catalog is compared after every statement, the rows at the end and in between. Non-trivial: at least three accepted and one rejected statement.',
        'note': 'Exploration. Imports of malformed files are decided by C06.',
    },
    'C13': {
        'target': 'h_stmt',
        'technique': 'stateful property testing: generated transactions driven by several threads or interleaved by one, against the order the scheduler promises; generated versions of rows against the visibility rule',
        'rule': 'A case is a set of transactions with their commands, some of them failing, driven by up to 5 threads; or a history of begin, command and close steps of up to 5 open transactions; or a history of inserts, queries and row versions in multi-versioned tables. Non-trivial: at least two transactions which overlap; visible and invisible rows.',
        'note': 'Exploration. Thread schedules are those of the operating system.',
    },
    'C14': {
        'target': 'h_graph',
        'technique': 'property-based testing: generated sets and graphs against set arithmetic and brute force',
        'rule': 'A case is one or two sets over 0..63, a subset enumeration, or a graph (random, chain, cycle, star, tree, clique; up to 64 nodes) with node sets. '
                'Non-trivial: sets of two or more elements, proper subset sizes, graphs of three or more nodes.',
        'note': 'Exploration against brute-force definitions (exhaustive enumeration of subsets, depth-first search, Kruskal).',
    },
    'C15': {
        'scale': 6,
        'target': 'h_util',
        'technique': 'stateful property-based testing: generated operation sequences against reference containers, with lifetime and overlap tracking',
        'rule': 'A case is a sequence of operations on a container, pool or allocator, mirrored on a standard container or on a list of live blocks; '
                'after each operation contents, iteration, lifetimes and block contents are compared. Non-trivial: several operations including removals, or several live entries.',
        'note': 'Exploration of histories of up to about 60 operations against standard containers under address and undefined-behaviour sanitizers.',
    },
    'C16': {
        'scale': 6,
        'target': 'h_util',
        'technique': 'property-based testing: generated texts, patterns and numbers against independent definitions and round trips',
        'rule': 'A case is a text with a pattern derived from it, a text with escape and quote characters, a timestamp, integers at the limits of their type, or a sequence to be sorted. '
                'Non-trivial: patterns with at least one token, texts with a special character, numbers above two.',
        'note': 'Exploration against definitions written independently (backtracking matcher, 128-bit arithmetic, civil calendar).',
    },
    'C17': {
        'target': 'h_card',
        'technique': 'property-based testing: generated queries, table sizes and files of cardinalities, models composed in generated orders, against exact saturating arithmetic and the loaded numbers; bounds for learned sum-product networks',
        'rule': 'A case is a query over up to 13 sources, a file of cardinalities with well-formed and malformed entries, and a random composition of scans, filters, joins, groupings and limits, all at once and one by one. Non-trivial: at least two compositions and, for injected cardinalities, at least two lookups which succeed; for networks, at least one conditional join.',
        'note': 'Exploration. Networks are asked only what they support: conjunctions of comparisons of numeric columns with constants, single equi-joins, grouping by columns.',
    },
    'C18': {
        'target': 'h_tools',
        'tools': ['tool:lex', 'tool:parse', 'tool:check'],
        'technique': 'property-based testing: generated option tables and command lines against a model; the tools run as processes on generated well-formed, mutated and random inputs, compared with the library',
        'rule': 'A case is a set of up to 8 options of 12 kinds with command lines of up to 24 arguments, or one malformed value, or one run of lex, parse or check on generated statements from files or standard input with options in any place. Non-trivial: an option with a value and three arguments; a token, a statement, an executed definition.',
        'note': 'Exploration. The shell and the other programs are not run.',
    },
    'C19': {
        'scale': 4,
        'target': 'h_types',
        'technique': 'model-based property testing: generated histories of operations on schemas, tables and tuples against plain vectors',
        'rule': 'A case is a history of up to 44 operations on three schemas (few names and prefixes, hence duplicates), on a table (plain or multi-versioned) or on three tuples of up to 64 columns; the whole state is compared after every operation. Non-trivial: at least 8 operations and a successful or ambiguous lookup; at least 3 attributes.',
        'note': 'Exploration. Tuples compare texts by address; negative zero excluded.',
    },
    'C20': {
        'scale': 30,
        'target': 'h_eval',
        'technique': 'property-based testing: generated typed expressions over rows of extreme values, an exact evaluator (128-bit integers, IEEE floats) as the oracle',
        'rule': 'A case is a table of 1-8 columns with a row of values up to the limits of the types, and up to four expressions whose intermediate results all stay within their types; each is evaluated with several sets of columns NULL, alone, together, over two tuples, and as conjunctive normal form; '
                'or the conversion of values between two types; or a constant; or a printed row. Non-trivial: at least 8 operations; types which differ.',
        'note': 'Exploration. Overflow, division by zero, infinities and inexact conversions from floating point to decimal are outside of the property.',
    },
    'C21': {
        'scale': 2,
        'target': 'h_logical',
        'technique': 'property-based testing: generated statements; structure of the logical plan against facts collected from the syntax tree, execution against a reference evaluator',
        'rule': 'A case is a database with declared constraints and a SELECT statement over up to 5 sources with nested queries, optimized by a generated plan enumerator. Non-trivial: a join, grouping, aggregation, ordering, limit or nested query.',
        'note': 'Exploration.',
    },
    'C22': {
        'target': 'h_learn',
        'technique': 'property-based testing: generated data sets, spaces and histories of updates against definitions (orthogonal residuals, enumerated points, means, counted fractions) and laws of probability',
        'rule': 'A case is a regression problem (well-conditioned), a linear space of one of six types or a grid of three, a data set of up to 60 points to cluster, or a table of up to 121 rows and 4 discrete or continuous columns with NULLs from which a network is learned, asked and updated. Non-trivial: at least one feature; more than two points; more points than clusters; at least two columns and five rows.',
        'note': 'Exploration. Single-precision results are compared with tolerance. Deletions are checked for networks without sum nodes. The randomized dependence coefficient is not checked.',
    },
    'C23': {
        'scale': 3,
        'target': 'h_lock',
        'technique': 'property-based testing of generated schedules: deterministic simulation of threads, with shrinking of the schedule',
        'rule': 'A case is a program of 2-7 threads (read, write, upgrade and try sections, raw and by ownership objects) and a schedule of all their operations on mutexes and condition variables, '
                'including the waiter woken by each notification and spurious wake-ups; or a history of holders, waiters and attempts; or a history of ownership objects; or threads pooling values. '
                'Non-trivial: at least three grants, a waiter, or several operations.',
        'note': 'Exploration of schedules at the granularity of operations on mutexes and condition variables. Trusts the simulation of std::mutex and std::condition_variable; weak memory is not modelled.',
    },
}
