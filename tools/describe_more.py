JOBS = ("small-step TLA+ model of shell, processes and environment checked by TLC; its histories driven step by step in the real shell")
JNOTE = ("TLC explores spec/%s (small-step spec/Jobs.tla: one fork, wait, line, signal or exit at a time; 4 actions of the environment quick, 5 thorough) and checks this "
         "property on it; every explored history is driven in the real shell with processes that do what the history says, and after every action the output, and the state, "
         "process group, signal masks and descriptors of all processes and of the shell are compared. Random longer histories are predicted by spec/JobsBatch and driven likewise%s. "
         "Bounded by those depths and samples. Trusts the specification, the helper programs and the comparison.")
RACE = "; in the histories of spec/MC_JR the environment does not wait for the shell, and the outcome has to be one of those the specification allows"
JOUT = ["standard output of the shell", "state, group, signal masks and descriptors of its processes in /proc", "exit status"]

prop("C17", "The shell waits for the foreground job, and for nothing else",
     "After a foreground pipeline, the shell goes on to the next command, or the next line, only when every process of the pipeline has ended (or the job has been stopped), in whatever order they end and whatever else ends or is stopped meanwhile, and then does go on; the status is the one of the pipeline's last process. What happens to other jobs neither ends nor prolongs the wait and does not change the status.",
     ["schedules", "histories", "inputs"], "every order in which the processes of all jobs end, are stopped or are continued, relative to each other and to the lines that are typed",
     "no test starts a process; which process ends first is up to the environment.",
     ["src/jobs.rs", "src/eval.rs", "src/trap.rs"],
     [("waiting for a job", "src/jobs.rs: wait_for_job, do_wait, wait_one, wait_process"), ("foreground pipelines", "src/eval.rs: eval_pipe_sequence")],
     JOUT, JOBS, JNOTE % ("MC_J17 and, for scripts, MC_JF", RACE), [("state of a job", "whether it is running, stopped or finished", "src/jobs.rs: Job.state")])
prop("C19", "The job table has exactly the jobs that are there",
     "Each background or stopped job is in the table, with one id of its own that it keeps and that no other job has while it is there, from when it is started until all of its processes have ended; then it is removed, also when several end at the same time. jobs lists those and only those, in the order of their ids, each once, with its state and its commands; a new job gets an id higher than all that are in use.",
     ["schedules", "histories"], "every sequence of starting, ending, stopping and continuing jobs, whenever the shell gets to know of it",
     "no test starts a job.",
     ["src/jobs.rs", "src/shell.rs", "src/builtins.rs"],
     [("ids and table", "src/jobs.rs: create_job, clear_completed_jobs; src/shell.rs"), ("what has ended is noticed", "src/jobs.rs: reap, wait_one"), ("listing", "src/builtins.rs: jobs")],
     JOUT, JOBS, JNOTE % ("MC_J19", RACE), [("table", "the jobs by id", "src/jobs.rs: JobControl")])
prop("C20", "Stopped jobs can be continued with fg and bg",
     "When a process of the foreground job is stopped and the others have ended or are stopped, the shell reports it and takes the next command, with status 128 plus the signal, and the job stays in the table as stopped. fg continues all its processes and waits for it as for any foreground pipeline; bg continues them and does not wait. Both take %n or a process id of a job that is in the table; anything else is an error with status 1 that changes nothing.",
     ["schedules", "histories", "inputs"], "every sequence of stop, continue, end, fg and bg for several jobs of several processes",
     "no test starts or stops a process.",
     ["src/jobs.rs", "src/builtins.rs"],
     [("fg and bg", "src/builtins.rs: fgbg, fg, bg"), ("stopped jobs", "src/jobs.rs: wait_one, do_wait")],
     JOUT, JOBS, JNOTE % ("MC_J20", ""), [("state of a job", "whether it is running, stopped or finished", "src/jobs.rs: Job.state")])
prop("C21", "The keyboard's signals reach the foreground job, not the shell",
     "An interactive shell survives the interrupt and the stop signal of the keyboard at any time, keeps its jobs, variables and place in its input, and goes on with the next command or line. The processes of the foreground job get them, those of background jobs do not. A process that the shell starts has the default action for all signals and none of them blocked. A script is ended by an interrupt.",
     ["schedules", "histories", "fault_sequences"], "every moment at which the signals can arrive, with any jobs in any state",
     "no test sends a signal.",
     ["src/trap.rs", "src/jobs.rs", "src/eval.rs", "src/main.rs"],
     [("handlers", "src/trap.rs: set_signal, interrupts_on, interrupts_off, remove_handlers"), ("children", "src/jobs.rs: fork_reset; src/eval.rs: temp_fork"), ("interrupted waits", "src/jobs.rs: wait_process")],
     JOUT, JOBS, JNOTE % ("MC_J21", ""))
prop("C23", "No descriptors or processes are left over",
     "The processes of a pipeline have their standard descriptors and nothing else of the shell's: the end of a pipe is held only by the process that writes or reads it, so that a reader comes to the end of its input when its writer has ended, in whatever order they end; and the shell itself has the same open descriptors after a command as before it, whatever the command was and however it ended. No process that has ended is left as a zombie once the shell runs its next command.",
     ["schedules", "histories", "fault_sequences"], "every sequence of pipelines, redirections, substitutions and failures, any number of times",
     "no test looks at descriptors or processes.",
     ["src/eval.rs", "src/jobs.rs", "src/ast.rs"],
     [("pipes", "src/eval.rs: eval_pipe_sequence, temp_fork"), ("saved descriptors", "src/eval.rs: with_redirects"), ("ended processes", "src/jobs.rs: wait_one, reap")],
     JOUT, JOBS, JNOTE % ("MC_J23", RACE) + " The shell's own descriptors are also compared after every line of the histories of spec/MC_C23 and in random sessions.")
prop("C31", "At a terminal, Enter gives the shell the line shown, asked for with PS1",
     "At a terminal, the shell asks for each line with the value that PS1 has at that moment as prompt; when there is none in the environment, in ~/.rshrc or set since, with '$ ' (for a user who is not root). It does nothing until Enter, and then what the line shows, whether it was typed, corrected with the keys of the editor, completed from the hint, or one of the lines given before, which Up and Down (Ctrl-P, Ctrl-N, Meta-<, Meta->) bring back in order: the last hundred lines that were given, also a function of several lines as one, one that is equal to the one before it not twice. Ctrl-C drops the line and nothing else; Ctrl-D at an empty line ends the shell with the status of the last command. When the shell ends, by that or by exit, these lines are in the file history.txt of its directory at that time (lines of ~/.rshrc and of sourced files are not).",
     ["inputs", "histories"], "every sequence of keys, and of lines given before",
     "no test has a terminal.",
     ["src/main.rs", "src/completion.rs", "src/shell.rs", "src/builtins.rs"],
     [("prompt and lines", "src/main.rs: interactive_loop"), ("editor, hints", "src/shell.rs: Shell::new; src/completion.rs: CompletionHelper"), ("lines given before", "src/shell.rs: save_history; src/builtins.rs: quit")],
     ["what the terminal shows", "standard output and error of the shell and of commands", "exit status", "files"], "TLA+ model of the line editor and the shell checked by TLC; its keys replayed in the real shell at a pseudo-terminal, random keys predicted by the model",
     "TLC explores the sequences of up to three (thorough: four) keys, and texts between them, of 17 (size 3: 30) keys and texts (spec/MC_C31 over spec/Edit: line, cursor, lines before, hint) and checks this property on them; a sample of those to each reachable state is typed into the real shell at a pseudo-terminal, and output, status, files, prompts and saved lines are compared. Random longer sequences are predicted by spec/KeysBatch. The editor is rustyline's: the keys that are specified are those of Edit. Trusts the specification, the helpers and the comparison.", [("line", "the text of the editor and the cursor", "rustyline Editor"), ("lines given before", "", "rustyline FileHistory")])
prop("C32", "Tab completes the name of a command from the directories of PATH",
     "At a terminal, Tab offers exactly the names in the directories of the environment's PATH (those that exist and can be read; whatever PATH is at that moment) that start with the text of the line before the cursor, each once, in the order of their characters. On a terminal that is known to terminfo they are shown in a menu, and the one that is chosen there takes the place of the text before the cursor; on any other terminal the text is extended as far as all the names agree. What comes after the cursor stays, the cursor is behind the completed name, and nothing is run until Enter. When no name fits, or the menu is left without a choice, the line stays as it was.",
     ["inputs", "histories"], "every line, place of the cursor, PATH and content of its directories, changed by any commands before",
     "no test has a terminal.",
     ["src/completion.rs", "src/main.rs", "src/shell.rs"],
     [("names", "src/completion.rs: command_complete, complete_cmd_unsorted, complete_cmd"), ("menu or not", "src/completion.rs: completion_type, has_terminfo; src/main.rs: interactive_loop"), ("editor", "src/shell.rs: Shell::new")],
     ["what the terminal shows", "standard output and error of the shell and of commands", "exit status", "files"], "TLA+ model of completion, the line editor and the shell checked by TLC; its keys replayed in the real shell at a pseudo-terminal with a driver for the menu, random keys predicted by the model",
     "TLC explores the sequences of up to three (thorough: four) keys and texts, of 17 (size 3: 34), with the commands that change PATH and its directories among them, at a terminal that is known, unknown or not named (spec/MC_C32 over spec/Edit), and checks this property on them; they are typed into the real shell at a pseudo-terminal, the driver reads the menu off the screen and chooses from it, and what the menus offer, output, status, files, prompts and saved lines are compared. Random longer sequences are predicted by spec/KeysBatch. Narrowing the menu by typing in it (skim's search) is not specified. Known finding: leaving the menu takes the selected name (rustyline). Trusts the specification, the helpers and the comparison.", [("line", "the text of the editor and the cursor", "rustyline Editor"), ("names", "the files in the directories of PATH", "")])
