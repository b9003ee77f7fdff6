"""The properties: what they say, which events decide them, what must have been analysed."""
import json

ASSUMPTIONS = [
    "analysed program: clang -O0 IR of every source listed in src/meson.build, helpers without a documented contract expanded in place; test functions excluded",
    "calls to documented functions behave as documented in the headers (contract table tool/contracts.py); each of those functions is itself checked against its entry",
    "callbacks supplied by the application honour their documented contract",
]

F_ALL = ['src/*.c']


def P(id, title, statement, over, qtext, why, files, mech, kinds=(), filt=None, cov=(), tech='', note='', na=None,
      assumes=(), floors=None, rule=''):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                kinds=kinds, filt=filt, cov=cov, tech=tech, note=note, na=na, assumes=list(assumes),
                floors=floors or {}, rule=rule)


def param_related(e):
    return e['kind'] == 'kept' or "argument '" in e['msg'] or 'variable argument' in e['msg']


PROPS = [
    P('C01', 'No object is ever lost: no leak on any path, including failure paths',
      'Whatever a library call returns, and whichever allocation or sub-operation fails inside it, every object '
      'it created is, when it returns, either released, handed to the caller, or reachable from a live structure. '
      'No sequence of failing allocations makes the library forget memory, file handles or references.',
      ['fault_sequences', 'inputs'],
      'every path through every library function, with every subset of allocations and callees failing',
      'tests run the success paths; allocation failures are injected nowhere, and a leak does not change a result',
      F_ALL, [('error labels and destructors of every module', 'src/*.c')],
      kinds=('leak', 'noconsume', 'incomplete', 'overwrite'), cov=('alloc', 'free', 'call'),
      floors={'functions': 300, 'alloc': 150},
      tech='ownership (typestate) dataflow over LLVM IR',
      rule='every object created by a call with an owning contract is released, handed over, stored in surviving '
           'memory or returned on each path to an exit'),
    P('C02', 'No object is used after release, released twice or left dangling',
      'On every path of every library call, including all failure paths, an object is released at most once, is '
      'never accessed after its release or after being handed over for release, and no surviving structure keeps '
      'a pointer to it. Uninitialised or interior pointers are never released.',
      ['fault_sequences', 'inputs', 'histories'],
      'every path through every library function, with every subset of allocations and callees failing',
      'the wrong release happens on rarely taken error paths and is silent without instrumentation',
      F_ALL, [('error labels and destructors of every module', 'src/*.c')],
      kinds=('doublefree', 'uaf', 'dangling', 'kept', 'badfree', 'freeborrowed', 'consumefail', 'uninit'),
      cov=('free', 'deref', 'call'), floors={'functions': 300, 'free': 200},
      tech='ownership (typestate) dataflow over LLVM IR',
      rule='no transition from released/handed-over to any use or second release; no pointer to a released object '
           'remains in memory that outlives the call'),
    P('C03', 'Failed allocations are noticed before their result is used',
      'The result of every allocation or object-creating call is compared against failure before it is '
      'dereferenced or passed to code that dereferences it, so running out of memory makes a call fail cleanly and '
      'never crashes the process.',
      ['fault_sequences'], 'every allocation site, on every path from it to a use',
      'allocation failure is not exercised by the tests',
      F_ALL, [('NULL checks after each allocation', 'src/*.c')],
      kinds=('nullderef', 'unexamined'), cov=('alloc', 'deref', 'call'), floors={'functions': 300, 'alloc': 150},
      tech='nullness dataflow over LLVM IR with interprocedural summaries',
      rule='no dereference, directly or in a callee, of an allocation result that may still be NULL'),
    P('C04', 'Memory goes back to the allocator that produced it',
      'Memory served by the application-registered allocator is only resized or released through it, and memory or '
      'handles obtained from the C library, the line-editing library or the directory functions only through their '
      'own release function; a value produced for a user callback is only disposed of by that user callback.',
      ['inputs', 'configurations', 'fault_sequences'],
      'every release or resize site, for every object that can reach it',
      'with the default allocator both families are the same heap, so mixing them is invisible',
      F_ALL, [('ec_malloc/ec_free wrappers versus libc malloc/free', 'src/malloc.c')],
      kinds=('mismatch', 'badfree'), cov=('alloc', 'free', 'field_families'), floors={'functions': 300, 'free': 200},
      tech='allocation-family typestate dataflow over LLVM IR',
      rule='family recorded at the creating call must be among the families the releasing call accepts, also when the memory '
           'was stored in a structure field, an array element or the result of a callback and is released from there'),
    P('C05', 'Objects handed over to a call are taken exactly once, on success and failure',
      'Calls documented to take ownership of a node, configuration, value or attribute table release it or keep it '
      'exactly once, whether they succeed or fail, and never touch it after giving it up. Calls documented to only '
      'borrow an argument never release it, keep it, or hand it over.',
      ['fault_sequences', 'inputs', 'configurations'],
      'every public call with an ownership-taking or borrowed argument, on every path',
      'the tests hand over valid objects to calls that succeed',
      ['src/node_*.c', 'src/config.c', 'src/strvec.c', 'src/htable.c', 'src/complete.c', 'src/parse.c'],
      [('free of the argument in the fail path of constructors and setters', 'src/node_*.c')],
      kinds=('noconsume', 'consumefail', 'doublefree', 'uaf', 'freeborrowed', 'kept'), filt=param_related,
      cov=('call', 'free'), floors={'functions': 300},
      tech='ownership (typestate) dataflow over LLVM IR against documented argument contracts',
      rule='a consumed argument is in state released/handed-over/stored at every exit and never twice; a borrowed '
           'one is never released or stored as owned'),
    P('C06', 'Destroying or replacing an object releases everything it owns',
      'Destroying a grammar node, configuration value, parse tree, completion result, string vector, table or '
      'line editor releases every object it owns, whatever its kind and however many elements it holds, and giving '
      'an object a new value for something it owns releases the previous value first.',
      ['inputs', 'histories', 'configurations'],
      'every destructor and every assignment to an owned field, on every path',
      'leaks do not change results, and most kinds of contents are not present in the destroyed test objects',
      F_ALL, [('destructors and free_priv callbacks', 'src/*.c')],
      kinds=('incomplete', 'overwrite'), cov=('struct', 'array', 'overwrite'),
      floors={'struct': 20, 'array': 8, 'overwrite': 15},
      tech='ownership-table completeness check at release points over LLVM IR',
      rule='at each release of a structure (and at the end of each private-data destructor) every field in the '
           'ownership table is released, handed over or NULL; lists are empty; arrays had their elements released '
           'unless their length is zero; an owned field is not overwritten while it still holds its value'),
    P('C07', 'What is passed read-only is never modified',
      'Parsing, completing, comparing, duplicating, dumping and querying never modify the grammar, configuration, '
      'string vector, table, parse tree or completion result they are given to read: nothing reachable from a '
      'read-only argument is written, released or handed to code that changes it. The same grammar can be parsed '
      'and completed against any number of times, with the same outcome.',
      ['inputs', 'histories'], 'every call taking a read-only object, every path, every write and callee on it',
      'tests use a fresh grammar and look at one result; const is cast away through the private data pointer',
      F_ALL, [('const parameters of parse/complete callbacks and accessors', 'src/*.c')],
      kinds=('modifies', 'sharedwrite'), cov=('effect', 'ro_args'), floors={'effect': 500, 'ro_args': 150},
      tech='interprocedural effect analysis over LLVM IR',
      rule='no store, release, hand-over or modifying call on memory reached from a pointer-to-const argument, '
           'through private data and accessors included; reference counts excepted'),
    P('C08', 'No state is shared between calls behind the caller\'s back',
      'Outside start-up, shut-down and the calls whose purpose is to register or configure something library-wide, '
      'no library call changes process-wide state: parsing, completing and building grammars use only their '
      'arguments, so independent grammars do not influence each other and two calls never share a result buffer.',
      ['schedules', 'histories'], 'every function of the library and every variable with static storage',
      'tests run one thing at a time and cannot observe interference between unrelated users',
      F_ALL, [('static variables', 'src/*.c')],
      kinds=('globalwrite',), cov=('shared_writes', 'state_setters'), floors={'functions': 300, 'shared_writes': 50},
      tech='interprocedural effect analysis over LLVM IR',
      rule='stores to (and modifying calls on) static-storage variables, or objects reached from them, occur only in '
           'constructors, registered start-up/shut-down functions and the documented registration calls'),
    P('C09', 'A failed step is never reported as success',
      'When an allocation or an operation a call depends on fails, the call itself reports failure: its result is '
      'never success, and no result that can signal failure is left unexamined on the way to reporting success. '
      '(Not matching is a legitimate answer to malformed input, not to running out of memory.)',
      ['fault_sequences', 'inputs'], 'every fallible step of every function with a success/failure result, every path',
      'sub-operations fail only when memory runs out or input is malformed in a specific place',
      F_ALL, [('return value checks', 'src/*.c')],
      kinds=('swallowed', 'ignored', 'unexamined'), cov=('fallible', 'call', 'alloc'), floors={'fallible': 150},
      tech='failure-propagation dataflow over LLVM IR',
      rule='on a path where a callee failed (or its failure was never excluded) the function does not return success'),
    P('C10', 'A modification that fails leaves the object as it was',
      'When a call that modifies a grammar node, string vector, vector, table, configuration or completion item '
      'fails, whatever the reason, the object still has its previous contents, is still consistent and can be used '
      'and modified further.',
      ['fault_sequences', 'inputs'], 'every modifying call, every failing path',
      'the tests do not look at the object after a call failed, nor make allocations fail',
      F_ALL, [('validation before assignment in setters and set_config callbacks', 'src/*.c')],
      kinds=('partial',), cov=('atomic', 'mutators'), floors={'atomic': 30, 'mutators': 25},
      tech='failure-atomicity dataflow over LLVM IR',
      rule='at a failing exit every field written through a modifiable argument holds its entry value again (resized '
           'storage and elements past the used length excepted), and no modifying call on it has succeeded'),
    P('C11', 'A call that fails says why',
      'Every call documented to set errno on failure has set it to a reason on each failing path: the reason is '
      'assigned on that path, or the failing call it depended on (the allocator, the C library, another library '
      'call, an application callback, or the failed construction of an object handed to it) assigned it. A failing '
      'call never leaves errno at whatever an unrelated earlier operation put there. (Line-editor calls and child '
      'enumeration are not documented to set errno.)',
      ['inputs', 'fault_sequences'], 'every failing exit of every call with a success/failure result, every path',
      'tests check that a call fails, rarely why, and never with errno cleared first on each of the error branches',
      F_ALL, [('errno assignments before goto fail / return -1', 'src/*.c')],
      kinds=('noerrno',), cov=('failing_exits', 'call'), floors={'failing_exits': 100},
      tech='path-sensitive dataflow (errno assigned on every failing path) over LLVM IR',
      rule='at a failing exit the path contains a store of a non-zero value to errno or the failure of a call that '
           'sets errno, with no later store of zero'),
    P('C12', 'The parse tree holds exactly the matches it reports',
      'Trying an alternative leaves no trace: a grammar node that does not match leaves no child behind in the '
      'parse tree, completing against a grammar leaves the tree it works on as it found it on success and on '
      'failure (so a completion never aborts on a leftover), and a node that matches through a child keeps that '
      'child in the tree. A child is recorded exactly when it matched.',
      ['inputs', 'fault_sequences'], 'every path of every parse and complete callback, with every outcome of each '
      'attempt to parse a child and every failing step in between',
      'the tests look at the matched length or at the list of completions, and never at the tree after a failed '
      'attempt or a failure in the middle',
      ['src/ecoli_node_*.c', 'src/ecoli_parse.c', 'src/ecoli_complete.c'],
      [('ec_pnode_del_last_child/free_children/unlink_child after a tried child', 'src/ecoli_node_*.c')],
      kinds=('treeleft', 'treelost'), cov=('tree_calls', 'tree_exits'), floors={'tree_calls': 20, 'tree_exits': 25},
      tech='path-sensitive counting dataflow over LLVM IR',
      rule='number of children added to the parse node by matching attempts and links, minus those removed, is zero '
           'at a no-match exit of a parse callback and at every exit of a complete callback or helper, and not zero '
           'when a match through a child is reported'),
    P('C13', 'A match never claims more strings than it was given',
      'The number of strings a grammar node reports as matched never exceeds the number of strings it was given: '
      'a fixed number is only reported after checking that the input holds as many, and a length obtained from a '
      'child is only passed on when the child was given this input or a part of it.',
      ['inputs'], 'every matching exit of every parse callback, every path',
      'the tests feed inputs with at least one string to most nodes',
      ['src/ecoli_node_*.c'], [('length check at the start of each parse callback', 'src/ecoli_node_*.c')],
      kinds=('overclaim',), cov=('claims',), floors={'claims': 10},
      tech='path-sensitive dataflow over LLVM IR',
      rule='a constant n > 0 is returned only where the length of the input vector is known to be at least n (or '
           'element n-1 was read from it); a child result is returned only if the child parsed the input vector or '
           'a sub-vector of it'),
    P('C14', 'Looking for something that is not there is noticed',
      'Every lookup that may legitimately find nothing (an element of a string vector, an attribute, a dictionary or '
      'configuration entry, a schema, a node type, a child, parent or sibling in a parse tree, an iterator at its '
      'end, a character in a string, an environment variable) is checked before its result is used, unless the '
      'thing is known to be there. The same goes for a node that was created but not configured yet (it has no '
      'child, string, pattern or callback), for something the input was expected to name and did not, and for an '
      'argument a call compares against NULL: it is not used before. Asking about absent things never crashes the '
      'process.',
      ['inputs', 'configurations', 'histories'], 'every lookup site, on every path from it to a use',
      'the grammars, configurations and inputs of the tests are complete and well formed',
      F_ALL, [('NULL checks after ec_strvec_val, ec_dict_get, ec_config_dict_get, ec_pnode_find...', 'src/*.c')],
      kinds=('absent',), cov=('lookups', 'unset_fields', 'null_checks'), floors={'lookups': 18},
      tech='nullness dataflow over LLVM IR with interprocedural summaries',
      rule='no dereference, directly or in a callee, of a lookup result that may be NULL (element lookups: unless '
           'the index is known to be below the length of the vector), of a pointer in the private data of a node that the '
           'initialisation of the node leaves NULL, or of a variable still NULL on the path; no value is dereferenced '
           'at a place that dominates the first comparison of it against NULL'),
    P('C15', 'Elements are only accessed within the recorded length',
      'Whenever an element of an array kept in a structure (strings of a vector, elements of a generic vector, '
      'children of a grammar node, operators of an expression, patterns of a lexer, nodes of a table) is read, '
      'written or passed on, its index is below the length recorded for that array (or within an array just '
      'allocated large enough), for every index a caller passes; and memory obtained from the allocator is large '
      'enough for what the same operation writes into it (terminators, keys, enlarged tables, copies).',
      ['inputs', 'histories'], 'every indexed access to an array held in a structure, every path',
      'out-of-range indexes are passed by no test, and an access one past the end often goes unnoticed',
      F_ALL, [('index checks and loop bounds', 'src/*.c')],
      kinds=('oob',), cov=('elements',), floors={'elements': 40},
      tech='path-sensitive relational (index below length) dataflow over LLVM IR',
      rule='at each indexed access to an array field the path implies index < length (comparison, loop bound, range '
           'or offset arithmetic), or the array was allocated on the path with more elements; writes, copies and field '
           'accesses into memory allocated on the path stay below its allocated size when both are comparable'),
    P('C16', 'Private data of a node is only used as what it is',
      'A call meant for one kind of grammar node (adding to a sequence, setting the string of a string node, adding an '
      'operator to an expression, reading the value of an integer node, ...) refuses nodes of any other kind with an '
      'error: no public call interprets or reconfigures the private data of a node whose kind it has not established, '
      'and the memory reserved for the private data of each kind is as large as what its callbacks use.',
      ['inputs', 'histories'], 'every use of node private data and every reconfiguration, every path, every kind of node given',
      'tests pass nodes of the right kind; with another kind memory of the wrong layout is read and written',
      F_ALL, [('type checks of typed node calls', 'src/ecoli_node_*.c'), ('node types', 'src/ecoli_node.c')],
      kinds=('wrongkind',), cov=('node_kinds',), floors={'node_kinds': 70},
      tech='typestate analysis (kind of node established before use) over LLVM IR, joined with the node type tables',
      rule='each access to the result of ec_node_priv() as structure S, and each ec_node_set_config(), on a node argument '
           'of a public function happens after ec_node_check_type() or ec_node_from_type() with the type whose callbacks '
           'use S; callbacks of one type agree on S and the type reserves at least sizeof(S)'),
    P('C17', 'Configurations agree with the schema of the node type, and replace the previous one entirely',
      'The configuration a library call builds for a node has only keys of the schema of that type, with values of the '
      'declared kinds; what a node reads from its configuration is in its schema and read as the declared kind; every '
      'declared key has an effect; and after a node was configured successfully nothing of an earlier configuration '
      'remains in force: what optional keys leave out goes back to its default.',
      ['inputs', 'histories'], 'every construction and every reading of a configuration, every path, every order of configurations',
      'a wrong key or kind on an optional element, and values surviving reconfiguration, need a particular sequence of '
      'calls that tests do not make',
      F_ALL, [('set_config callbacks and schemas', 'src/ecoli_node_*.c'), ('tagged configuration values', 'src/ecoli_config.c')],
      kinds=('schema', 'stale'), cov=('schema', 'schema_rules'), floors={'schema': 70, 'schema_rules': 40},
      tech='dataflow over LLVM IR joined with the constant schema tables of the program',
      rule='literal keys and constructor kinds put into a configuration conform to the schema table of the type of the node '
           'it is given to; keys looked up in set_config exist in the schema; union members are read as the kind the schema '
           'or the tested tag gives; every schema key is looked up and integer values reach the private data; on every '
           'successful path of set_config each private field written on any such path is written, or disabled by a flag'),
    P('C18', 'Nodes report the children they hold and how many references they hold',
      'For every kind of node, asking for a child yields a node actually held by that node, together with the number of '
      'references the node holds to it (in its private data and in its configuration): the numbers the release of '
      'grammar graphs with loops relies on to free each node exactly once, when nobody uses it any more.',
      ['histories'], 'every child callback of every node type, every path',
      'a wrong count is only visible when a grammar graph with a loop is released',
      F_ALL, [('get_child callbacks', 'src/ecoli_node_*.c'), ('release of grammar graphs', 'src/ecoli_node.c')],
      kinds=('childrefs',), cov=('schema_rules',), floors={'schema_rules': 40},
      tech='dataflow over LLVM IR relating get_child and set_config callbacks of each node type',
      rule='on each successful path of a get_child callback *child is loaded from a field of the private data, and *refs is '
           '2 when set_config fills that field with references cloned from the configuration, 1 when the node is built for '
           'or given to this node only'),
    P('C19', 'Loops and recursions always make progress',
      'No input, grammar or data structure makes the library spin: no function calls itself with just what it was given, and each time around any loop, something that decides '
      'whether the loop goes on has changed - an index, an offset, a cursor, a list or a consumed length - including '
      'when a step consumed nothing, matched an empty input or had nothing to do.',
      ['inputs', 'histories'], 'every way around every loop of every function, whatever the inputs',
      'only the particular input that takes the stuck way around hangs; a test that reached it would not finish',
      F_ALL, [('repetitions of a sub-grammar', 'src/ecoli_node_many.c, src/ecoli_node_subset.c'),
              ('lexers', 'src/ecoli_node_sh_lex.c, src/ecoli_node_re_lex.c'),
              ('walks over lists, tables and trees', 'src/ecoli_parse.c, src/ecoli_complete.c, src/ecoli_strvec.c')],
      kinds=('noprogress', 'norecursion'), cov=('loops', 'loop_paths', 'loops_capped', 'recursion'), floors={'loops': 100, 'loop_paths': 200},
      tech='loop analysis on the control-flow graph of the LLVM IR: symbolic dependences of the exit conditions on each cyclic path',
      rule='for each loop and each feasible acyclic path from its head back to it, at least one exit condition on the path '
           'depends on a value that may differ the next time: a variable updated by an amount known not to be 0, memory '
           'written on the path, or the result of a call whose result depends on such a thing; running out of memory or '
           'aborting is not counted as a way out. No path reaches a call of a function to itself with all arguments as '
           'they were given (or copies of all of them) and nothing stored before'),
    P('N01', 'A grammar accepts exactly its language',
      'Parsing a vector of strings with a grammar succeeds exactly when the strings belong to the language the grammar '
      'describes, and the parse tree is a derivation of them.',
      ['inputs'], 'every grammar and every vector of strings', 'tests sample a few grammars and inputs', F_ALL,
      [('parse callbacks', 'src/ecoli_node_*.c')],
      na='functional correctness of recursive matching over grammars built at run time: what a callback must return depends '
         'on string contents and on the language of nodes that exist only at run time. C12, C13, C17 and C19 decide the '
         'structural part (tree balance, claimed lengths, configuration in force, progress).'),
    P('N02', 'Completions are sound and complete',
      'Every full completion proposed for an input leads to an input the grammar still accepts, every possible next word is '
      'proposed, and items are grouped under the grammar path that produced them.',
      ['inputs'], 'every grammar and every partial input', 'tests sample a few grammars and inputs', F_ALL,
      [('complete callbacks', 'src/ecoli_node_*.c'), ('completion lists', 'src/ecoli_complete.c')],
      na='needs the language of the grammar (see N01) and string concatenation facts; no static abstraction in reach relates '
         'proposed strings to acceptance.'),
    P('N03', 'Shell lexing and quoting are inverse of each other',
      'Splitting a line and completing it agree on quotes, escapes, comments and trailing space, so that a completed line '
      'splits into the completed words.',
      ['inputs'], 'every line', 'tests sample lines', F_ALL, [('shell lexer', 'src/ecoli_strvec.c, src/ecoli_node_sh_lex.c')],
      na='a relation between string contents before and after an automaton; byte contents are not tracked by the analysis. '
         'Bounds, failure paths and progress of the lexer are covered by C01, C09, C11, C15 and C19.'),
    P('N04', 'Dictionaries and hash tables are maps',
      'A key maps to the value last set for it until it is deleted; iteration visits every key once; duplicates are equal to '
      'their source; growing the table changes none of this.',
      ['histories'], 'every sequence of operations', 'tests use a few sequences', F_ALL,
      [('tables', 'src/ecoli_htable.c, src/ecoli_dict.c')],
      na='depends on hash values, key bytes and bucket contents at run time (inductive heap invariant over unbounded lists). '
         'Ownership, failure atomicity and bounds of the same code are covered by C01-C03, C05, C09, C10 and C15.'),
    P('N05', 'A grammar graph is freed exactly when its last outside reference goes',
      'Releasing a node frees all and only the nodes that no outside reference reaches, also when the graph has loops.',
      ['histories'], 'every graph and every order of releases', 'tests build two or three graphs', F_ALL,
      [('reachability count in ec_node_free()', 'src/ecoli_node.c')],
      na='the mark-and-count algorithm is a global property of heap graphs of unbounded shape. Its inputs - reported children and '
         'reference counts - are decided by C18, the references each call takes and drops by C01, C02 and C05.'),
    P('N06', 'Recursive grammars need bounded stack',
      'Parsing, completing or searching a grammar with loops terminates with a stack proportional to the input.',
      ['inputs'], 'every cyclic grammar', 'no test has left-recursive grammars', F_ALL, [('recursive callbacks', 'src/ecoli_node*.c')],
      na='the depth depends on the cycle structure of the graph and on what each node matches at run time, and is in fact '
         'unbounded for left-recursive grammars. C19 excludes the static case: calling oneself with what was given.'),
    P('N07', 'Expressions are evaluated with the declared precedences',
      'Evaluating a parsed expression calls the user callbacks bottom-up in the order operators were added.',
      ['inputs'], 'every expression', 'tests sample expressions', F_ALL, [('expression nodes', 'src/ecoli_node_expr.c')],
      na='depends on which grammar rule matched at run time; ownership of intermediate results, failure propagation and stability '
         'of the node under failure are covered by C01, C02, C05, C09 and C10.'),
    P('N08', 'Operations stay within their expected cost',
      'Completion and parsing of usual grammars do not take exponential time.',
      ['inputs'], 'every grammar and input', 'tests are small', F_ALL, [('seq, many, subset nodes', 'src/ecoli_node_*.c')],
      na='cost bounds over run-time grammar shapes; the subset node is exponential by design.'),
]


def selects(p, e):
    return e['kind'] in p['kinds'] and (p['filt'] is None or p['filt'](e))


def coverage(p, R):
    fs = R.funcs.values()
    cov = {'explanation': p['rule'], 'functions': len(fs), 'abstract_states': sum(r['states'] for r in fs),
           'exits': sum(r['exits'] for r in fs),
           'source_files': len(R.pr.srcs)}
    for k in p['cov']:
        if k in ('alloc', 'free', 'call', 'deref'):
            cov[k + '_sites'] = sum(r['sites'].get(k, 0) for r in fs)
        elif k in getattr(R, 'counts', {}):
            cov[k] = R.counts[k]
    inc = sorted(r['func'] for r in fs if r['budget'])
    cov['incompletely_analysed'] = inc
    broken = None
    for k, n in p['floors'].items():
        v = cov.get(k, cov.get(k + '_sites', 0))
        if v < n:
            broken = 'only %s %s analysed, expected at least %d' % (v, k, n)
    cov['samples'] = R.samples.get(p['id'], [])[:8] if hasattr(R, 'samples') else []
    return cov, broken


def gen(here):
    with open(here + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=[], not_applicable=[],
             notes='No hooks: /repo is analysed as it is. See DESIGN.md.')
    for p in PROPS:
        if p['na']:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        else:
            m['checks'].append(dict(
                property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                thorough_cmd='VERIF_TIER=thorough python3 check.py %s --thorough' % p['id'],
                technique=p['tech'], level='other', level_note=p['note'] or DEFNOTE))
    with open(here + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


DEFNOTE = ('Static verdict over all paths of the analysed functions (no execution, no solver). Assumes the documented '
           'contracts of callees, that callbacks honour theirs, and does not follow objects through containers or '
           'unbounded lists beyond one abstract element.')

if __name__ == '__main__':
    import os
    gen(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
