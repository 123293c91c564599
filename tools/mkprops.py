import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Solution streams give every solution exactly once under any schedule",
"Asking for the solutions of a sudoku, by either enumeration method, yields every complete conflict-free sudoku that extends the givens exactly once and nothing else (nothing at all when the givens conflict or cannot be completed). This holds however the consumption of several streams is interleaved, across callers, threads, sudokus and box shapes, and whichever streams are abandoned part-way. Editing the sudoku after its first solution was requested, or editing a solution already received, does not change what any stream delivers or has delivered.",
["schedules","inputs","histories"],
"every set of concurrently open solution streams, every interleaving of their consumption at item and at source-line granularity, every pattern of abandonment and caller edits; box shapes of up to 12 rows",
"The tests drain one stream at a time on a few fixed 9x9 boards; nothing there interleaves, abandons or edits.",
["sudokutools/solve.py","sudokutools/dlx.py","sudokutools/sudoku.py"],
[("dlx() copies the input and every yielded solution","solve.py:dlx"),("bruteforce() with candidate save/restore around the recursive yield","solve.py:_do_bruteforce"),("select/deselect cover and uncover","dlx.py:select, deselect")],
[("X","exact-cover columns, mutated while the generator is suspended","dlx.py:solve"),("saved_candidates","undo data across a yield","solve.py:_do_bruteforce")],
["sudokutools.solve.dlx","sudokutools.solve.bruteforce"])

p("C02","Sudokus handed to reading calls are never disturbed, not even briefly",
"Enumerating, solving step by step, checking uniqueness or solvedness, rating, scoring, hinting, searching for solve steps or conflicts, comparing, copying, encoding, displaying and generating from a template leave the numbers, candidates and shape of every sudoku they are given untouched at every instant: between the items of a stream, inside a progress callback, and as seen by any other thread. Any number of threads may therefore run such calls on one shared sudoku at the same time, and each gets the answer it would have got alone.",
["schedules","inputs"],
"every mix of reading calls by several threads on shared sudokus, every preemption point at source-line granularity",
"The tests call one function at a time and look at its result, never at the argument while the call is running.",
["sudokutools/solve.py","sudokutools/solvers.py","sudokutools/analyze.py","sudokutools/generate.py","sudokutools/sudoku.py"],
[("work on a copy","solve.py:dlx, bruteforce; solvers.py:solve; generate.py:generate_from_template"),("candidates are frozensets","sudoku.py:Sudoku.get_candidates")],
[("numbers and candidates of the shared sudoku","must equal the snapshot at every line executed","sudoku.py:Sudoku")],
["every line executed inside the package","results of the concurrent calls"])

p("C03","A call cut short at any point leaves no trace",
"When a library call is cut short anywhere by a keyboard interrupt, memory exhaustion, the recursion limit, an exception from a caller's callback or iterable, or the closing of a stream, every sudoku it only reads is unchanged, and in a sudoku it updates in place each field holds only a number and candidates that the uncut call would also have given it at some moment, and a call that returns in spite of the failure returns the right result. Afterwards all library calls on these and other sudokus give the right results, and repeating a cut update (calculating candidates, applying a solve step or a set/remove action) ends in the state the uncut call would have reached.",
["crash_points","fault_sequences","inputs"],
"every source line of the package as the point of failure, each kind of failure, every public call",
"No test raises an exception inside a running library call.",
["sudokutools/solve.py","sudokutools/solvers.py","sudokutools/dlx.py","sudokutools/actions.py","sudokutools/analyze.py","sudokutools/generate.py","sudokutools/sudoku.py"],
[("work on copies; build values before storing them","sudoku.py:set_candidates, remove_candidates"),("actions of a step are built once, then replayed","solvers.py:SolveStep.apply")],
[("SolveStep.actions","partly built when cut","solvers.py:SolveStep.apply")],
["state of all sudokus after the failure","results of later calls"])

p("C04","Solve steps stay sound in any order of finding and applying",
"Take a solvable sudoku whose candidates are set in every field and exclude no solution, and copies of it at any stage of solving. Steps found by any non-guessing solving method on one of them may be applied to any of them at once, late, out of order, repeatedly or not at all, while other searches on the same sudokus are still under way, and no number set or candidate removed ever contradicts any solution of the sudoku (the same holds for the guessing method when the solution is unique). Applying a step twice in a row has the effect of applying it once, and a step applied to the sudoku it was found on right after it was found changes it; no such step takes a number away or gives a field a candidate back.",
["schedules","histories","fault_sequences"],
"every interleaving of step searches and step applications over several copies of a sudoku, with delay, reordering, duplication and loss of steps",
"The tests compare the first few steps found on a quiescent board with a fixed list; they never apply late, twice, or to another copy.",
["sudokutools/solvers.py","sudokutools/solve.py","sudokutools/sudoku.py"],
[("lazy find() generators over a live sudoku","solvers.py:*.find"),("actions computed at application time, then kept","solvers.py:build_actions, SolveStep.apply")],
[("suspended find() generators","hold partial views of an earlier state","solvers.py")],
["candidates and numbers after every applied step"])

p("C05","Step-by-step solving always finishes and its report can be replayed",
"For every sudoku, including ones without a solution or with conflicting givens, the step-by-step solver, rating and scoring finish within a bounded number of steps and never change a given; when a solution exists the solver returns a complete, conflict-free sudoku extending the givens. The steps passed to the progress callback, applied in that order to a fresh copy of the sudoku with the candidates of its filled fields set, lead exactly to the returned sudoku, and rating and score are the maximum and the sum of the ratings of these steps. This also holds when the callback itself starts other solver runs or when earlier runs were aborted by their callback.",
["inputs","histories","schedules"],
"every sudoku (solvable, ambiguous, unsolvable, conflicting) of box shapes up to 9 rows, every nesting and abortion of solver runs through the callback, with and without concurrent solver runs in other threads",
"The tests only rate and solve freshly generated, uniquely solvable sudokus; no test solves an unsolvable one step by step or uses the callback for anything but collecting.",
["sudokutools/solvers.py","sudokutools/analyze.py"],
[("round-robin over the solver list until no solver finds a step","solvers.py:solve"),("rate/score fold over the reported steps","analyze.py:rate, score")],
[("solution","working copy","solvers.py:solve")],
["progress callback","returned sudoku","rate(), score()"])

p("C06","Generated sudokus are valid for every stream of random choices",
"Whatever values the random source delivers, generating a sudoku finishes and returns one of the requested box shape that has exactly one solution, at least the requested number of filled fields, and a pattern of filled fields with the requested symmetry; creating a solution returns a complete conflict-free sudoku of the requested box shape. A minimum count above the number of fields or an unknown symmetry raises ValueError. All this also holds while several threads generate at the same time.",
["inputs","schedules","configurations"],
"every stream of random values (uniform, biased, constant-prefix, repeating), every symmetry, minimum count and box shape up to 10 rows, every interleaving of concurrent generators",
"The tests draw a handful of unseeded puzzles with half the fields filled and no symmetry at all.",
["sudokutools/generate.py","sudokutools/analyze.py","sudokutools/solve.py"],
[("remove one symmetry orbit at a time and revert it when uniqueness is lost","generate.py:generate"),("orbit functions","generate.py:SYMMETRY")],
[("count","running number of filled fields","generate.py:generate")],
["returned sudoku"])

p("C07","Template generation keeps the pattern and honours its retry limit",
"Whatever values the random source delivers, generating from a template either returns a sudoku of the template's box shape with exactly one solution that is filled at exactly the template's filled fields, or raises RuntimeError once the allowed number of attempts has failed. Under one and the same random stream, allowing more attempts never turns a success into a failure and never changes the sudoku returned; zero attempts always fail and a negative limit never gives up. The template itself is left unchanged.",
["inputs","histories","fault_sequences"],
"every template and retry limit, every stream of random values, in particular those in which the first attempts fail",
"The tests use one easy and one impossible template; the retry logic in between is never exercised at a boundary.",
["sudokutools/generate.py"],
[("retry loop","generate.py:generate_from_template")],
[("t","number of failed attempts","generate.py:generate_from_template")],
["returned sudoku or RuntimeError"])

p("C08","Seeded runs are reproducible in every process",
"After seeding Python's random module with the same value, the same sequence of generating calls returns the same sudokus in every process, and solution streams, step reports, hints, ratings and scores come out the same and in the same order. This does not depend on hash randomisation, on earlier work in the process, or on non-generating library calls made in between, none of which consume random values.",
["configurations","histories"],
"every random seed, every hash seed, every preceding and interleaved history of other library calls",
"The tests never seed and never compare two processes.",
["sudokutools/generate.py","sudokutools/dlx.py","sudokutools/solvers.py"],
[("all randomness comes from the random module","generate.py"),("no iteration over sets of strings","dlx.py:exact_cover, solve")],
[("random module state","only source of randomness","generate.py")],
["results of two runs in two processes"])

p("C09","The shell runs each command exactly once, in order, on the current sudoku",
"For any session of valid commands, however they are spread over lines, joined by ';', continued with a trailing backslash, mixed with comments and blank lines, or recorded in loops, the shell executes each command exactly once (once per round inside a loop), in order, on the sudoku that is current when it executes, and prints what a sequential model of current sudoku and stack predicts. All output of a command has reached the output stream before the shell waits for more input. After exit nothing further is executed or read, and in an interactive session the prompt always tells whether the next command will be executed or recorded into a loop.",
["histories","schedules","inputs"],
"every sequence of shell commands and every way of laying it out in input lines and delivery chunks, interactive and not",
"The tests replace the shell's output method and only check that no error was reported; loops, stack and printed results are never compared.",
["sudokutools/shell.py","sudokutools/sudoku.py","sudokutools/solve.py"],
[("parse / execute_line / execute","shell.py"),("loop recording","shell.py:Shell.loop_command"),("line continuation and comments","shell.py:Shell.run")],
[("current sudoku, stack, loop list","shell session state","shell.py:Shell")],
["bytes written to the output stream","reads on the input stream"])

p("C10","A script gives the same result by whatever route it is delivered",
"The same commands produce the same output, the same effects and the same success or failure whether they are given in a file, on standard input, with -c, or typed at a terminal (apart from banner and prompts, and from the fact that a terminal session continues after an error). The result does not depend on how the bytes arrive: in chunks of any size, after interrupted system calls, with or without a newline at the end.",
["configurations","schedules","fault_sequences"],
"every script, every delivery route, every segmentation of the input into reads",
"No test runs the command line entry point, reads a script from a stream, or uses the -c option.",
["sudokutools/__main__.py","sudokutools/shell.py"],
[("three ways to build a Shell","__main__.py:main"),("readline loop","shell.py:Shell.run")],
[],
["standard output, standard error and exit status of each route"])

p("C11","A failing command changes nothing; scripts stop there, terminals go on",
"Any line that is not a correct command, and any command that fails for whatever reason (bad arguments, impossible requests, memory exhaustion or recursion limit inside it), is reported on standard error and leaves the numbers, the candidates and the stack as they were; only a calculation of candidates that runs out of memory or recursion depth half-way may already have updated some fields. An interactive session then continues with the next command; a script stops before the next command with a non-zero exit status, with all earlier output delivered.",
["inputs","fault_sequences","histories"],
"every malformed line and failing command at every position of every session, every point of failure inside a command",
"The tests only check that an error method was called, not what happened to the session, and never let a command fail half-way.",
["sudokutools/shell.py","sudokutools/sudoku.py"],
[("exception to error conversion","shell.py:Shell.execute, execute_line"),("exit on error when not interactive","shell.py:Shell.error")],
[("current sudoku and stack","unchanged by a failing command","shell.py:Shell")],
["standard error, exit status, later commands' output"])

p("C12","Ctrl-C in an interactive session costs at most the interrupted command",
"In an interactive session, Ctrl-C while the shell waits for input, writes output or computes inside a command never ends the session: the current sudoku and the stack are as before or as after the interrupted command (a calculation of candidates may have been done for some fields only, an interrupted loop may have run partly), and the next line typed is executed as typed. No part of an interrupted or unfinished input line is ever executed later, and the prompt still tells whether commands are executed or recorded. A script that is interrupted ends with a non-zero exit status.",
["crash_points","histories"],
"every point of every session at which an interrupt can arrive while the shell waits, writes or computes",
"No test delivers an interrupt.",
["sudokutools/shell.py"],
[("two KeyboardInterrupt handlers","shell.py:Shell.run"),("continuation buffer","shell.py:Shell.run"),("loop state","shell.py:Shell.loop_command")],
[("lines","pending input of a continued line","shell.py:Shell.run"),("loop count and command list","recording mode","shell.py:Shell")],
["prompts, output and later commands"])

p("C13","The stack returns exactly what was pushed, once",
"Every sudoku pushed on the shell's stack can be popped exactly once, from the end or from any position, and comes back with exactly the numbers, candidates and box shape it had when it was pushed. Nothing done to the current sudoku or to other stack entries in between, no failing command, no loop and no Ctrl-C changes, duplicates, reorders or loses an entry, and editing a popped sudoku never affects another entry.",
["histories","fault_sequences"],
"every history of pushes, pops, edits, failing commands, loops and interrupts",
"The tests push and pop the same untouched sudoku and ignore the result.",
["sudokutools/shell.py","sudokutools/sudoku.py"],
[("copy on push","shell.py:Shell.push_command"),("bounds check on pop","shell.py:Shell.pop_command"),("deep copy","sudoku.py:Sudoku.copy")],
[("stack","list of saved sudokus","shell.py:Shell")],
["output of encode, view and stack after pops"])

p("C14","Stream failures never pass for success and never scramble output",
"When the output device fails (full disk, closed pipe, I/O error) or accepts only part of a write, what has been delivered is always a prefix of the output of a fault-free run, and unless all of it was delivered the failure is reported on standard error or by a non-zero exit status. When reading input fails, the commands received completely before have run in order and the exit status is non-zero; a plain end of input, wherever it occurs, ends the session with status zero after every complete line (and a last line without newline) has been executed, and a script file that cannot be opened gives an error message and a non-zero status.",
["fault_sequences","crash_points"],
"every byte position at which reading or writing can fail, every kind of failure, every delivery route",
"No test uses a failing or partial stream.",
["sudokutools/shell.py","sudokutools/__main__.py"],
[("write and flush per output","shell.py:Shell._print"),("EOF detection","shell.py:Shell.run"),("IOError handler","__main__.py:main")],
[],
["bytes on the devices, exit status"])

p("C15","Shell sessions in one process do not influence each other",
"Any number of shell sessions may run in one process in different threads, each on its own input and output streams. Whatever the interleaving, each session prints and ends exactly as if it had run alone: none sees another's current sudoku, stack, loop or output, and an error, interrupt, stream failure or exit in one does not disturb the others.",
["schedules","histories"],
"every set of sessions, every preemption at source-line granularity",
"No test runs two sessions.",
["sudokutools/shell.py"],
[("all session state lives in the Shell instance","shell.py:Shell.__init__"),("special arguments resolved per session","shell.py:Shell.execute")],
[("command table","shared, read-only","shell.py:COMMANDS")],
["each session's streams"])

p("C16","Undo and redo walk exactly through the game's history",
"In the game shell every move that changes a number or a candidate adds one entry to the history, undo and redo show exactly the boards (numbers and candidates) of the neighbouring entries, a new move after undo discards the undone ones, and lines that change nothing leave the history alone. Moves set numbers or remove candidates at exactly the fields they name, automatic removal (and automatic setting, when switched on) is carried to its end after each move, and check, conflicts and hint report exactly the wrong fields, the conflicting pairs, and only deductions consistent with the solution of a correctly played board, without changing the board.",
["histories","inputs"],
"every sequence of moves, undos, redos, queries and malformed lines, for every generated puzzle and every combination of the automatic settings",
"There is no test of the game shell at all.",
["sudokutools/shell.py","sudokutools/notation.py","sudokutools/actions.py"],
[("list of sudokus plus index","shell.py:GameShell.run"),("decode_action","notation.py"),("autofill","shell.py:GameShell.autofill")],
[("sudokus, index","undo history","shell.py:GameShell")],
["board printed before every prompt"])

p("C17","No line typed into the game ends it or damages its board",
"Whatever line is typed at the game's prompt, blank, malformed, incomplete or in an unknown notation, the game prints its board again and waits for the next line, with board and history unchanged unless the line was a valid move. The game only ends when its input ends or is interrupted, and its settings can be listed at any time.",
["inputs","histories"],
"every line of text at every point of every game",
"There is no test of the game shell at all.",
["sudokutools/shell.py","sudokutools/notation.py"],
[("command dispatch and ValueError handler","shell.py:GameShell.run"),("coordinate parser","notation.py:decode, _decode_single")],
[("board","current history entry","shell.py:GameShell")],
["prompts after every line"])

p("C18","Walking over a board while it changes reports no phantoms and misses nothing",
"An iteration over all, empty, filled or differing fields or over the conflicts of a sudoku may be interleaved with any edits of that sudoku and with other iterations over it. It ends after finitely many items and never raises, reports each field or conflict at most once, reports one only if it was so at some moment since the iteration began (empty, filled, different; for a conflict: each of its two fields held the number), and reports every one for which that was true throughout the iteration.",
["schedules","histories"],
"every interleaving of one or more iterations with edits",
"The tests always materialise the iteration on a board nobody edits, while the library's own solvers iterate over boards they are changing.",
["sudokutools/sudoku.py","sudokutools/analyze.py"],
[("lazy generators over live lists","sudoku.py:empty, filled, diff, __iter__; analyze.py:find_conflicts")],
[("position of the suspended generator","row-major index","sudoku.py")],
["items yielded"])

PURE="a pure function of its argument; "
p("C19","Encoding and decoding a sudoku are inverse",
"Decoding the text of an encoded sudoku, with matching separators and box shape, gives back the same numbers and, where requested and unambiguous, the same candidates; text with an impossible number of fields is rejected with ValueError.",
["inputs"],"every sudoku and every choice of separators and empty character",
"A few fixed strings are decoded; separators, candidates of larger boards and unusual empty characters are hardly covered.",
["sudokutools/sudoku.py"],[("encode, decode","sudoku.py:Sudoku")])
p("C20","Coordinate notation round-trips",
"Decoding the rncn or bnpn notation of a set of coordinates gives back the same set for every box shape, separator and choice of notation, and the decoding of every valid combination of row, column, box and part groups is the union of the described intersections.",
["inputs"],"every set of coordinates, box shape and notation option",
"Single fields and whole units of a few shapes are covered, not arbitrary sets.",
["sudokutools/notation.py","sudokutools/coordinates.py"],[("encode, decode","notation.py")])
p("C21","Rows, columns and boxes partition every board consistently",
"For every box shape, rows, columns, boxes and parts each partition the fields, and the surrounding of a field is exactly the union of its row, column and box, in both the coordinate functions and the sudoku methods.",
["inputs"],"every box shape and field","A few shapes are covered, mostly with width not greater than height.",
["sudokutools/coordinates.py","sudokutools/sudoku.py"],[("row_of, column_of, box_of, surrounding_of, the_*","coordinates.py, sudoku.py")])
p("C22","Candidates, conflicts, solvedness and uniqueness follow the sudoku rules",
"On a board nobody else touches, calculated candidates, conflicts, solvedness and uniqueness are exactly what the rules of sudoku say for the numbers on the board.",
["inputs"],"every board of every box shape","A handful of boards.",
["sudokutools/solve.py","sudokutools/analyze.py"],[("calc_candidates, find_conflicts, is_solved, is_unique","solve.py, analyze.py")])
p("C23","The printed board shows exactly the numbers and candidates",
"The human-readable text of a sudoku shows every number (and, in the candidate view, every candidate set) at its place, aligned, with rules between the boxes, for every box shape.",
["inputs"],"every board, box shape and display option","Three fixed boards.",
["sudokutools/sudoku.py"],[("view","sudoku.py")])
p("C24","Every board is a store of its own: last write wins, copies never share",
"Whatever history of writes and reads a program makes, every field of a sudoku reads back the number and the candidates last written to it, through whichever route they were written or read (items, methods, actions, encoding, comparing), and a write to one field never changes any other. A copy, a decoded text and a sudoku returned by a solver have the contents their original had and from then on are independent of it: no later edit of either, and no later change of a container the caller passed in or got back, is ever seen through the other. A call that fails or is cut short leaves each field as before or as after the call. With several threads a read or copy returns for each field a value it held during the call, and no write is lost as long as no two threads change the candidates of one field.",
["histories","schedules","fault_sequences"],
"every interleaving of writes, reads and copies over any number of related sudokus, by one or several threads, with arguments that fail, change later, or belong to another field",
"The tests copy one sudoku and change one field; aliasing shows only in longer histories, with containers that are kept and changed later, or between threads.",
["sudokutools/sudoku.py","sudokutools/actions.py","sudokutools/solvers.py"],
[("rows of numbers and of frozensets","sudoku.py:Sudoku.__init__, set_candidates, remove_candidates"),("copying field by field","sudoku.py:Sudoku.copy")],
[("__numbers, __candidates","the store","sudoku.py:Sudoku")],
["values read back","earlier read values","other boards"])
p("C25","Repeated, failed and abandoned work leaves nothing behind",
"A process can go on for as long as it likes: repeating the same library calls, shell commands, game lines or whole games, whether they complete, fail, are cut short or are abandoned part-way, in one thread or in several, gives the same results every time, does not take more and more steps, and does not keep more and more alive once the caller has released its sudokus, streams and steps (a shell's stack, a recorded loop and a game's history hold what was put there and nothing else).",
["histories","fault_sequences","schedules"],
"every round of work made of calls, commands or lines (complete, failing, cut, abandoned), repeated any number of times, by one or several threads",
"Every test does a thing once in a fresh object; growth, exhaustion and drift only show when the same work is repeated in one process.",
["sudokutools/solve.py","sudokutools/dlx.py","sudokutools/solvers.py","sudokutools/generate.py","sudokutools/analyze.py","sudokutools/sudoku.py","sudokutools/shell.py","sudokutools/notation.py"],
[("no state outside of the objects a call is given","all modules"),("loop list and wrapped line are dropped when they have been executed","shell.py:Shell.loop_command, Shell.run"),("history is cut behind the current board by a new move, reset by a new game","shell.py:GameShell.run, new_sudoku")],
[("stack, loop list, history","the only state that lives longer than a call","shell.py")],
["results of the rounds","executed lines per round","reachable objects after each round"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
