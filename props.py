"""The properties: statement, functions of each program they are decided on, extra rules.

fns: program -> functions whose contracts carry the property.  flt: which
differences from the contract matter to it ('all', or a predicate over
(function, label)).  rules: property-specific analyses in engine/rules.py.
"""
F = 'Formula::'
SEARCH = [F + 'ChronoBacktrack', F + 'NonChronoBacktrack', F + 'WatchedLiterals']
PROPU = [F + x for x in ('unitPropagation', 'reduceTheory', 'satisfyClauses', 'removeLiteral', 'checkEntail')]
PROPW = [F + x for x in ('WatchedUnitPropagation', 'watchedReduceTheory', 'watchedFalsifyLiteral', 'watchedUpdateVar',
                         'SwapPointer', 'assignWatched')]
UNDO = [F + x for x in ('undoTheory', 'unsatisfyClauses', 'addLiteral', 'watchedUndoTheory')]
TRAIL = [F + 'reduceTheory', F + 'watchedReduceTheory']
LEARN = [F + x for x in ('analyzeConflict', 'resolve', 'learnClause', 'potent', 'maxLit', 'backtrackLevel')]
CHOOSE = [F + x for x in ('chooseLiteral', 'lazyChooseLiteral', 'lazyWatchedChooseLiteral', 'chooseLiteralVSIDS',
                          'chooseLiteralVSIDS_allPos')]
CTORS = ['Formula::Formula', 'Variable::Variable', 'Clause::Clause', 'Variable::addRecord', 'Variable::removeRecord', 'Variable::getIGNode']
PARSE = [F + 'BuildFormula'] + CTORS
OUT = [F + 'PrintModel', F + 'verifyModel', F + 'PrintInfo']
CLI = ['main', 'ParseCommandLine', 'PrintHelp', 'SolveFinite']
ENGINE = SEARCH + PROPU + PROPW + UNDO + LEARN + CHOOSE + PARSE
B_ENGINE = [F + x for x in ('WatchedLiterals', 'WatchedUnitPropagation', 'watchedReduceTheory', 'watchedUpdateVar', 'SwapPointer',
                            'assignWatched', 'watchedUndoTheory', 'analyzeConflict', 'resolve', 'learnClause', 'potent',
                            'chooseLiteralVSIDS', 'lazyWatchedChooseLiteral', 'BuildFormula')] + CTORS

COUNTERS = ('Formula.DECISIONS', 'Formula.UNITS', 'Formula.ENTAILS', 'Formula.BACKTRACKS', 'Formula.TIME_')
STATS = COUNTERS + ('Formula.RESTARTS',)


def soundness(fn, lab):
    """printing and counting do not decide an answer"""
    return not lab.startswith(COUNTERS) or fn in ('Formula::PrintModel', 'Formula::verifyModel', 'SolveFinite')


P = []


OPTS = ('NUM_VAR', 'NUM_CLAUSE', 'CLAUSE_SIZE', 'SAT_UNSAT', 'DOMAIN_SIZE', 'DRAND', 'BOOL_FINITE')


def generated(name):
    """Differences of a generator, or of the options that it reads."""
    return lambda fn, lab: fn == name or (fn == 'ParseCommandLine' and any(x in lab for x in OPTS))


def prop(id, title, statement, over, text, why, fns, files, rules=(), flt=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, fns=fns, files=files,
                  rules=list(rules), flt=flt, note=note))


IN, CFG, HIS = 'inputs', 'configurations', 'histories'

prop('C01', 'An answer of satisfiable is right',
     'Whenever the solver answers SAT, in any mode and with any heuristic, the assignment it has built makes at least one literal of every clause of the input true. '
     'It never answers SAT while a clause is falsified or while clauses remain that the assignment does not satisfy.',
     [IN, CFG, HIS], 'every well-formed input, search mode, heuristic and restart setting',
     'The tests solve a few fixed small instances; the search histories that lead to a SAT answer are unbounded.',
     {'src': SEARCH + PROPU + PROPW + UNDO + PARSE + OUT + CHOOSE + [F + 'learnClause', F + 'analyzeConflict', F + 'assignWatched', 'SolveFinite'],
      'bitvec': B_ENGINE + OUT + ['SolveFinite']}, ['src/Formula.cc'], [], soundness)
prop('C02', 'An answer of unsatisfiable is right',
     'Whenever the solver answers UNSAT, no assignment of domain values to the variables satisfies all clauses of the input. '
     'The answer is given only for a conflict that no decision is responsible for.',
     [IN, CFG, HIS], 'every well-formed input, search mode, heuristic and restart setting',
     'A wrong UNSAT needs a particular sequence of decisions, conflicts, backtracks and learned clauses; the tests fix a handful of instances.',
     {'src': SEARCH + PROPU + PROPW + UNDO + LEARN + PARSE + [F + 'assignWatched', 'SolveFinite'],
      'bitvec': B_ENGINE + ['SolveFinite']}, ['src/Formula.cc'], [], soundness)
prop('C03', 'Backtracking restores the earlier state exactly',
     'After the search has gone back to a level, the values open to every variable, the assignments, the satisfied and removed literals and clauses and all their counts are those it had when that level was left. '
     'Nothing decided or derived at a higher level survives, and nothing of a lower or equal level is lost.',
     [IN, HIS], 'every sequence of decisions, propagations, conflicts, backtracks and restarts',
     'State corruption after undo shows up only many steps later, on histories the tests do not contain.',
     {'src': UNDO + PROPU + [F + 'watchedReduceTheory', F + 'watchedFalsifyLiteral', 'Variable::addRecord', 'Variable::removeRecord', 'Variable::Variable'] + SEARCH,
      'bitvec': [F + x for x in ('watchedUndoTheory', 'watchedReduceTheory', 'WatchedLiterals')] + ['Variable::Variable', 'Variable::getIGNode']},
     ['src/Formula.cc', 'src/Variable.cc', 'bitvec/Formula.cc'], [], soundness)
prop('C04', 'Counting propagation misses no unit clause and no conflict',
     'Without watched literals, assigning or excluding a value updates exactly the clauses in which it occurs: their counts of open literals, their satisfied level, and the variable\'s remaining values. '
     'Every clause that becomes unit is queued, every clause that becomes empty is reported as the conflict, and a variable with a single value left takes it.',
     [IN, HIS], 'every formula and every sequence of assignments',
     'A missed or spurious propagation depends on the clause structure and the order of earlier assignments.',
     {'src': PROPU + UNDO[:3] + [F + x for x in ('ChronoBacktrack', 'NonChronoBacktrack', 'BuildFormula', 'learnClause', 'lazyChooseLiteral')] +
             ['Variable::Variable', 'Clause::Clause', 'Variable::addRecord', 'Variable::removeRecord']},
     ['src/Formula.cc'], [], soundness)
prop('C05', 'The watched literals of a clause stay valid',
     'With watched literals, every clause with two or more literals is watched by two different literals and can be found from their variables, and when propagation ends without a conflict neither watch is false unless the other is true. '
     'A clause whose watches cannot be moved is reported as unit or as the conflict.',
     [IN, HIS], 'every formula and every sequence of assignments, conflicts, learned clauses and backtracks',
     'The invariant is about all clauses after any history; a lost watch shows only when exactly that clause later becomes unit.',
     {'src': PROPW + [F + 'WatchedLiterals', F + 'BuildFormula', F + 'learnClause', F + 'analyzeConflict', F + 'watchedUndoTheory', F + 'checkEntail', 'Variable::Variable', 'Variable::addRecord', 'Variable::removeRecord', 'Clause::Clause'],
      'bitvec': [F + x for x in ('WatchedUnitPropagation', 'watchedReduceTheory', 'watchedUpdateVar', 'SwapPointer', 'assignWatched', 'WatchedLiterals', 'BuildFormula', 'learnClause', 'analyzeConflict')] +
                [F + 'watchedUndoTheory', 'Variable::Variable', 'Variable::addRecord', 'Variable::removeRecord', 'Clause::Clause']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [], soundness)
prop('C06', 'Learned clauses follow from the input',
     'Every clause learned from a conflict is a logical consequence of the clauses of the input over the declared domains: it is made only by resolving the conflicting clause with the reasons of the literals it contains, in the reverse order of their assignment. '
     'Learning removes no clause and changes none that exists.',
     [IN, HIS], 'every conflict in every search history',
     'A clause that is too strong makes satisfiable inputs unsatisfiable only on particular histories.',
     {'src': LEARN + [F + x for x in ('assignWatched', 'WatchedLiterals', 'NonChronoBacktrack', 'reduceTheory', 'watchedReduceTheory', 'watchedFalsifyLiteral',
                                       'removeLiteral', 'SwapPointer', 'unitPropagation', 'WatchedUnitPropagation')] + ['Clause::Clause', 'Variable::Variable'],
      'bitvec': [F + x for x in ('analyzeConflict', 'assignWatched', 'SwapPointer', 'resolve', 'learnClause', 'potent', 'WatchedLiterals', 'watchedReduceTheory', 'WatchedUnitPropagation')] + ['Variable::getIGNode', 'Clause::Clause']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [], soundness)
prop('C07', 'Backjumps go to the level where the learned clause is unit',
     'After a conflict the search returns to the second highest level in the learned clause (the lowest level when it has a single literal), and there the learned clause forces its remaining literal, which is propagated next. '
     'Conflict analysis stops only once the clause has exactly one literal of the conflict level.',
     [IN, HIS], 'every conflict in every search history',
     'A wrong level only skips or repeats part of the search on most inputs and loses soundness or termination on a few.',
     {'src': [F + x for x in ('analyzeConflict', 'potent', 'maxLit', 'backtrackLevel', 'assignWatched', 'learnClause', 'NonChronoBacktrack', 'WatchedLiterals')],
      'bitvec': [F + x for x in ('analyzeConflict', 'potent', 'assignWatched', 'learnClause', 'WatchedLiterals')] + ['Variable::getIGNode']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [], soundness)
prop('C08', 'The formula solved is the formula in the file',
     'Reading an input file yields exactly its variables with their domain sizes and its clauses with their literals, whatever the length and spacing of lines; comments and blank lines contribute nothing, repeated literals count once, and what follows the 0 of a clause is no part of it. '
     'Clauses of a single literal are queued as unit and an empty clause is a conflict from the start.',
     [IN], 'every input file',
     'The tests read a few tidy files; the property quantifies over all texts.',
     {'src': PARSE, 'bitvec': PARSE}, ['src/Formula.cc', 'bitvec/Formula.cc'], [], None)
prop('C09', 'Unusable input is refused with an error',
     'A file that cannot be opened, and, in the solver and the linear encoding, a domain line that is malformed or names a variable out of place (in the solver: out of order) or a literal that names an undeclared variable or a value outside its domain, makes the program print an error and exit with a failing status. '
     'No index taken from the input is used before it has been checked.',
     [IN], 'every input file, however malformed',
     'Tests hold a few malformed files at most; an unchecked index needs a particular bad number at a particular place.',
     {'src': [F + 'BuildFormula', 'Variable::Variable', 'LinearEncode', 'QuadraticEncode', 'Boolean2Finite', 'GenBenFin', 'GenBenBool'],
      'bitvec': [F + 'BuildFormula', 'Variable::Variable']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [],
     lambda fn, lab: fn in ('Formula::BuildFormula', 'Variable::Variable') or lab in ('#out', '#ret', '*', 'exit', 'open'))
prop('C10', 'The model printed is the assignment found, and it is checked',
     'After a SAT answer the solver prints one line for every assigned variable with the value it has, and verifies that this assignment satisfies every original clause; the verdict it prints is the outcome of that check over all clauses. '
     'Printing and checking change nothing.',
     [IN, HIS], 'every final state of a search',
     'The verdict is only as good as its loop over all clauses and literals, which tests sample.',
     {'src': OUT + ['Literal::Print', 'SolveFinite'] + SEARCH + UNDO + TRAIL, 'bitvec': OUT + ['Literal::Print', 'SolveFinite', F + 'WatchedLiterals', F + 'watchedUndoTheory', F + 'watchedReduceTheory']},
     ['src/Formula.cc', 'src/SolveFinite.cc', 'bitvec/Formula.cc'], [],
     lambda fn, lab: fn in ('Formula::PrintModel', 'Formula::verifyModel', 'Formula::PrintInfo', 'Literal::Print', 'SolveFinite') or lab in ('#out', '#ret', '*') or lab.startswith(('Formula::', 'Formula.DECSTACK')))
prop('C11', 'The verbose option changes only what is printed',
     'With and without the verbose option the solver makes the same decisions, derivations and backtracks, keeps the same data and gives the same answer. '
     'The option adds output and nothing else.',
     [IN, CFG, HIS], 'every input and history, run with and without the option',
     'A relational property over pairs of runs; the tests compare no such pairs.',
     {'src': [], 'bitvec': []}, ['src/Formula.cc', 'src/Variable.cc', 'bitvec/Formula.cc'], ['verbose'], None)
prop('C12', 'Decisions are legal',
     'Every heuristic decides only on a literal of a variable that is not assigned, with a value that is still open to it, and picks by its documented score; when an open literal exists it finds one. '
     'Each decision opens exactly one new level.',
     [IN, CFG, HIS], 'every state of the search and every heuristic',
     'Depends on the whole state of the search; tests reach few states per heuristic.',
     {'src': CHOOSE + SEARCH, 'bitvec': [F + x for x in ('chooseLiteralVSIDS', 'lazyWatchedChooseLiteral', 'WatchedLiterals')]},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [], soundness)
prop('C13', 'The scores of the heuristics follow the clauses',
     'The occurrence counts that the bookkeeping heuristic uses are those of the clauses still open, after any sequence of assignments and undos, and the VSIDS scores grow with every clause read or learned and decay as documented. '
     'No score is touched for a literal that does not occur in the clause concerned.',
     [IN, HIS], 'every formula and search history',
     'A drifting count changes only which literal is chosen, which no test looks at.',
     {'src': [F + x for x in ('BuildFormula', 'satisfyClauses', 'unsatisfyClauses', 'removeLiteral', 'addLiteral', 'reduceTheory', 'undoTheory', 'learnClause', 'analyzeConflict', 'resolve', 'NonChronoBacktrack', 'WatchedLiterals', 'ChronoBacktrack')] + CHOOSE + ['Variable::Variable', 'Variable::addRecord'],
      'bitvec': [F + x for x in ('BuildFormula', 'learnClause', 'analyzeConflict', 'WatchedLiterals', 'chooseLiteralVSIDS', 'lazyWatchedChooseLiteral')] + ['Variable::Variable']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [],
     lambda fn, lab: not lab.startswith(COUNTERS) and lab != '#out')
prop('C14', 'Every documented option does what it says, and only that',
     'Each command and option of the help text selects its mode, heuristic, file or number, whatever the order of the options, and leaves the others at their documented defaults; an unknown option changes nothing and an unknown command shows the help. '
     'The program then runs the selected command and no other.',
     [IN, CFG], 'every command line', 'Command lines are sequences of options with arguments; the tests use a few.',
     {'src': ['ParseCommandLine', 'main', 'PrintHelp', 'SolveFinite', 'Formula::Formula'], 'bitvec': ['ParseCommandLine', 'main', 'PrintHelp', 'SolveFinite', 'Formula::Formula']},
     ['src/Global.cc', 'src/Main.cc', 'src/SolveFinite.cc', 'bitvec/Global.cc'], [], None)
prop('C15', 'Restarts keep the search sound',
     'A restart happens only when the option is given and its threshold is reached; it returns to the lowest level with everything decided undone, keeps all learned clauses, forced literals of the lowest level included, and sets the threshold for the next restart. '
     'Without the option the search never restarts.',
     [IN, CFG, HIS], 'every history with any restart threshold', 'Tests use at most one threshold on small instances that hardly restart.',
     {'src': SEARCH + [F + 'undoTheory', F + 'watchedUndoTheory', 'ParseCommandLine', 'Formula::Formula', 'SolveFinite', F + 'learnClause', F + 'analyzeConflict'],
      'bitvec': [F + 'WatchedLiterals', F + 'watchedUndoTheory', 'ParseCommandLine', 'Formula::Formula', 'SolveFinite', F + 'learnClause', F + 'analyzeConflict']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [], lambda fn, lab: soundness(fn, lab) or lab in ('Formula.BACKTRACKS', 'Formula.RESTARTS'))
prop('C16', 'The time limit is kept',
     'In every mode the search compares the time elapsed since it began with the limit given (or the default) on each round of its main loop, and once the limit is exceeded it stops and reports the time-out instead of an answer. '
     'Time is measured in seconds of the wall clock, and the limit applies to the search alone.',
     [IN, CFG, HIS], 'every search history and limit', 'Depends on the clock; tests cannot afford to reach limits in every mode.',
     {'src': SEARCH + ['GetTime', 'SolveFinite', 'ParseCommandLine', F + 'BuildFormula', 'Formula::Formula'],
      'bitvec': [F + 'WatchedLiterals', 'GetTime', 'SolveFinite', 'ParseCommandLine', F + 'BuildFormula', 'Formula::Formula']},
     ['src/Formula.cc', 'src/SolveFinite.cc', 'src/Global.cc', 'bitvec/Formula.cc'], [],
     lambda fn, lab: fn in ('GetTime', 'SolveFinite', 'ParseCommandLine', 'Formula::Formula') or lab in ('#ret', '*') or 'TIME' in lab or 'GetTime' in lab)
prop('C17', 'The statistics reported are the counts of what happened',
     'The numbers of decisions, propagated units, entailed literals, backtracks and restarts and the times printed at the end each start from zero, are increased by one exactly where the event happens, and are printed against their own label.',
     [IN, HIS], 'every search history', 'No test checks the statistics.',
     {'src': SEARCH + PROPU + PROPW + UNDO + [F + 'PrintInfo', 'Formula::Formula', F + 'BuildFormula', 'SolveFinite', 'GetTime'] + LEARN + CHOOSE,
      'bitvec': [F + x for x in ('WatchedLiterals', 'WatchedUnitPropagation', 'watchedReduceTheory', 'PrintInfo', 'analyzeConflict', 'learnClause', 'BuildFormula', 'watchedUndoTheory')] + ['Formula::Formula', 'SolveFinite', 'GetTime']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [],
     lambda fn, lab: lab.startswith(STATS) or fn in ('Formula::PrintInfo', 'Formula::Formula', 'GetTime') or fn == 'SolveFinite' and lab == '#out' or lab in ('*',))
prop('C18', 'The linear encoding is satisfied by exactly the same assignments',
     'The Boolean formula written by the linear encoding has exactly the variables and clauses that its header states, and its models correspond one to one to the assignments satisfying the finite-domain input. '
     'Every clause and literal of the input is encoded, in order, over the right Boolean variables.',
     [IN], 'every input file', 'Equivalence of input and output over all inputs; the tests encode a few files.',
     {'src': ['LinearEncode']}, ['src/LinearEncode.cc'], [], None)
prop('C19', 'The quadratic encoding is satisfied by exactly the same assignments',
     'The Boolean formula written by the quadratic encoding has exactly the variables and clauses that its header states: for each variable at least one and at most one value, and every input clause over the right Boolean variables, with negated literals negated.',
     [IN], 'every input file', 'Equivalence of input and output over all inputs; the tests encode a few files.',
     {'src': ['QuadraticEncode']}, ['src/QuadraticEncode.cc'], [], None)
prop('C20', 'The Boolean to finite-domain conversion keeps every clause',
     'Converting a DIMACS CNF file yields a finite-domain file that declares every variable with a domain of two values and holds every clause of the input, literal by literal, a positive literal becoming value 1 and a negative one becoming value 0, each clause ended by its marker.',
     [IN], 'every DIMACS file', 'Equivalence of input and output over all inputs; the tests convert a few files.',
     {'src': ['Boolean2Finite']}, ['src/Boolean2Finite.cc'], [], None)
prop('C21', 'Generated finite-domain benchmarks are what was asked for',
     'A generated finite-domain benchmark has the requested numbers of variables and clauses and the requested clause size, domains within the requested size, only literals over declared variables and values, no variable twice in a clause, and, when a satisfiable one is asked for, a solution.',
     [IN, CFG], 'every combination of parameters and every random draw', 'The output depends on the random draws; tests see a few of them.',
     {'src': ['GenBenFin', 'ParseCommandLine']}, ['src/GenBenFunc.cc'], [],
     generated('GenBenFin'))
prop('C22', 'Generated Boolean benchmarks are what was asked for',
     'A generated Boolean benchmark has the requested numbers of variables and clauses and the requested clause size, only literals over declared variables, no literal twice in a clause, and, when a satisfiable one is asked for, a solution.',
     [IN, CFG], 'every combination of parameters and every random draw', 'The output depends on the random draws; tests see a few of them.',
     {'src': ['GenBenBool', 'ParseCommandLine']}, ['src/GenBenFunc.cc'], [], generated('GenBenBool'))
prop('C23', 'Objects of the search are neither used after release nor lost',
     'No clause, variable, occurrence record or graph node is used after it has been freed or freed twice, and clauses once in the clause list stay valid for the rest of the search. '
     'What conflict analysis makes on the way is freed or kept in the clause list.',
     [IN, HIS], 'every search history', 'Use after free needs a particular history and shows up only by luck without instrumentation.',
     {'src': [F + x for x in ('analyzeConflict', 'learnClause', 'resolve', 'BuildFormula', 'SwapPointer', 'watchedUndoTheory', 'undoTheory', 'NonChronoBacktrack', 'WatchedLiterals', 'ChronoBacktrack')] +
             ['Variable::removeRecord', 'Variable::addRecord', 'Clause::Clause', 'Clause::~Clause', 'Variable::~Variable', 'Variable::Variable', 'SolveFinite'],
      'bitvec': [F + x for x in ('analyzeConflict', 'learnClause', 'resolve', 'BuildFormula', 'SwapPointer', 'watchedUndoTheory', 'WatchedLiterals')] +
                ['Variable::removeRecord', 'Variable::addRecord', 'Clause::Clause', 'Clause::~Clause', 'Variable::Variable', 'SolveFinite']},
     ['src/Formula.cc', 'src/Variable.cc', 'bitvec/Formula.cc', 'bitvec/Variable.cc'], ['released'],
     None)
prop('C24', 'The bit-vector solver decides the same formulas rightly',
     'The variant of the solver that represents the values of a variable as a bit set reads the same format, and its literals are true, false or open exactly when the remaining values of the variable are all inside, all outside or partly inside the literal\'s set. '
     'Its propagation, learning, backtracking and answers rest on that alone, for all domains of up to 64 values.',
     [IN, HIS], 'every input with domains of up to 64 values and every search history', 'Only a few small inputs are run through this variant.',
     {'src': [], 'bitvec': None}, ['bitvec/Formula.cc', 'bitvec/Literal.h', 'bitvec/Clause.h'], [], None)
prop('C25', 'The reasons recorded for assignments are true',
     'Whenever a value is assigned to or excluded from a variable, the level and the clause recorded for it are the level and the clause that forced it (or none for a decision), and records of one value are not overwritten while they are in force. '
     'What conflict analysis reads is therefore the real order and reason of every assignment.',
     [IN, HIS], 'every search history', 'A wrong record is harmless until a conflict involves exactly that assignment.',
     {'src': [F + x for x in ('reduceTheory', 'unitPropagation', 'watchedReduceTheory', 'watchedFalsifyLiteral', 'WatchedUnitPropagation', 'checkEntail', 'undoTheory', 'watchedUndoTheory', 'NonChronoBacktrack', 'WatchedLiterals', 'ChronoBacktrack', 'learnClause', 'analyzeConflict', 'backtrackLevel', 'maxLit', 'removeLiteral', 'SwapPointer')] + ['Variable::Variable'],
      'bitvec': [F + x for x in ('watchedReduceTheory', 'WatchedUnitPropagation', 'watchedUndoTheory', 'WatchedLiterals', 'learnClause', 'analyzeConflict', 'SwapPointer')] + ['Variable::getIGNode', 'Variable::Variable']},
     ['src/Formula.cc', 'bitvec/Formula.cc'], [], soundness)
prop('C26', 'Every error and every end of the program has its own exit',
     'The program ends by returning from its entry point with status 0 after a command that ran, and with a failing status after an error that it has reported; every function that promises a value returns one on every path, and the help menu ends with its input.',
     [IN, CFG], 'every path of every function', 'A missing return value is undefined behaviour that a given compiler may hide.',
     {'src': ['main', 'SolveFinite', 'ParseCommandLine', 'LinearEncode', 'QuadraticEncode', 'Boolean2Finite', 'GenBenFin', 'GenBenBool', 'PrintHelp', F + 'BuildFormula'],
      'bitvec': ['main', 'SolveFinite', 'ParseCommandLine', 'PrintHelp', F + 'BuildFormula']},
     ['src/Main.cc', 'src/Global.cc', 'src/Formula.cc'], ['ends'],
     lambda fn, lab: lab == 'exit' or fn == 'main' or fn == 'PrintHelp' and lab in ('*', 'operator!', 'operator>>', 'option'))
prop('C27', 'The solver is deterministic',
     'The decisions, derivations and the answer of a search depend on the input and the options alone: no random number, address, environment or clock value has any influence on them, other than stopping at the time limit.',
     [IN, CFG], 'every pair of runs on the same input and options', 'A relational property over pairs of runs.',
     {'src': [], 'bitvec': []}, ['src/Formula.cc', 'bitvec/Formula.cc'], ['determinism'], None)
prop('C31', 'Commands touch only the files they are given',
     'A command opens no file but those its options name: its input, for reading only, and, when it converts or generates, its output. '
     'Solving writes no file, no input is ever changed, nothing is removed or renamed, and an output file holds exactly what this run wrote, not what it held before.',
     [IN, CFG], 'every command and every state of the file system',
     'Tests look at the output they expect, not at what else is opened or at what an existing file held.',
     {'src': ['main', 'ParseCommandLine', 'SolveFinite', 'LinearEncode', 'QuadraticEncode', 'Boolean2Finite', 'GenBenFin', 'GenBenBool', F + 'BuildFormula'],
      'bitvec': ['main', 'ParseCommandLine', 'SolveFinite', F + 'BuildFormula']},
     ['src/Global.cc', 'src/LinearEncode.cc', 'src/QuadraticEncode.cc', 'src/Boolean2Finite.cc', 'src/GenBenFunc.cc', 'src/Formula.cc'], ['files'],
     lambda fn, lab: lab in ('open', 'basic_ofstream', 'basic_ifstream', 'basic_fstream') or fn == 'ParseCommandLine' and 'FILE' in lab)
prop('C32', 'Everything starts from a defined state',
     'The search, its variables, clauses, literals and occurrence records and the options begin with every member set: counters at zero, nothing assigned, no level or reason recorded, no clause watched. '
     'No member and no local variable is read before it has a value.',
     [IN, CFG, HIS], 'every path of every constructor and function',
     'Fresh memory is often zero: a missing initial value shows only in some runs.',
     {'src': ['Formula::Formula', 'Variable::Variable', 'Clause::Clause', 'Literal::Literal', 'Variable::addRecord'],
      'bitvec': ['Formula::Formula', 'Variable::Variable', 'Clause::Clause', 'Literal::Literal', 'Variable::addRecord', 'IGNode::IGNode']},
     ['src/Formula.cc', 'src/Variable.cc', 'src/Clause.cc', 'src/Literal.h', 'bitvec/Formula.cc', 'bitvec/Variable.cc', 'bitvec/Clause.cc'], ['defined'], None)

prop('C33', 'A request that cannot be met is refused',
     'A request for a benchmark that cannot exist (no variables, a clause without literals or with more literals than there are variables, a negative number of clauses, an empty domain, or required numbers that were not given), an option at the end of the command line without its value, '
     'and a file that cannot be opened end with an error and a failing status, not with a crash, an endless run or an answer; a word that is no command shows the help.',
     [IN, CFG], 'every command line', 'Tests ask for what exists; the command lines that do not make sense are unbounded.',
     {'src': ['main', 'ParseCommandLine', 'GenBenFin', 'GenBenBool', 'LinearEncode', 'QuadraticEncode', 'Boolean2Finite', F + 'BuildFormula'],
      'bitvec': ['main', 'ParseCommandLine', F + 'BuildFormula']},
     ['src/Main.cc', 'src/Global.cc', 'src/GenBenFunc.cc', 'bitvec/Main.cc', 'bitvec/Global.cc'], [],
     lambda fn, lab: fn == 'main' or lab == 'exit' or lab in ('open', 'is_open', 'fail', 'operator!') or
     fn == 'ParseCommandLine' and any(x in lab for x in OPTS + ('atoi', 'OptionValue')))


NA = [
    dict(id='C28', title='The search terminates',
         statement='On every input the search, without a time limit, ends with an answer after finitely many steps.',
         over=[IN, CFG, HIS], text='every input and configuration',
         why='Termination quantifies over unbounded runs; tests only see inputs on which it ended.',
         files=['src/Formula.cc'],
         reason='Needs a ranking argument over the whole search (decision levels, learned clauses, restarts); no sound static analysis in reach bounds these runtime quantities, and with small restart thresholds the code does not guarantee it.'),
    dict(id='C29', title='All modes agree',
         statement='All search modes and heuristics give the same answer on the same input.',
         over=[IN, CFG], text='every input and pair of modes',
         why='A relational property over all inputs.', files=['src/Formula.cc'],
         reason='Follows from C01 and C02 when every run ends, but as such it compares whole executions of different algorithms; no static argument relates them directly.'),
    dict(id='C30', title='The generator draws uniformly',
         statement='Generated benchmarks are drawn uniformly from those with the requested parameters.',
         over=[IN, CFG], text='every combination of parameters', why='A property of distributions.', files=['src/GenBenFunc.cc'],
         reason='A statement about the distribution of random numbers, which static analysis of the source cannot decide.'),
]

NOTE = ('All paths of the functions named, over all inputs and states of their data: the code has the effects its contract states (stores, calls, list operations, output, results, '
        'loop by loop), up to order and form. Trusts: the contracts in spec/ (which carry the property by the argument in DESIGN.md), clang\'s IR, the models of the standard library in '
        'engine/interp.py, and that different members do not alias. What the analysis cannot relate is reported as UNDECIDED, not as a violation.')
