#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
WHY = "The 15 tests only parse 14 fixed command lines and never run one; "


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, level="model_checking"):
    P.append(dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                     "why_tests_cant": WHY + why,
                     "anchors": {"files": files, **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                                 "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}},
                  technique=technique, note=note, level=level))


MC = "TLA+ model checked by TLC; its behaviours replayed in rsh; recorded random sessions validated against it"
NOTE = ("TLC explores spec/MC_%s (all sequences of up to two lines of its alphabet and all reachable states at depth three, quick; more in thorough) and checks "
        "this property on it; every history is replayed in the real shell and the whole observation (output, errors, status, files) is compared; "
        "random sessions are validated by spec/TraceRsh. Bounded: nothing is shown for lines outside the alphabets and the sampled sessions. Trusts the "
        "specification, the helpers and the comparison.")
OUT = ["standard output and error of the shell and of commands", "exit status", "files"]

prop("C01", "Commands get their arguments as they are written",
     "A command gets exactly the words that follow its name, in that order, each as one argument: white space between words, however much, separates them and is not passed on, and text in single or double quotes arrives with every character inside the quotes unchanged, including white space, operators and '#', and the empty string. The value of a variable that makes up a whole word arrives as one argument with its white space as it is; '$' in single quotes, or before a name that is not set, stays as it is.",
     ["inputs", "histories"], "every command line of words, quoted texts and variables, of any length, in every state of the shell's variables, for programs, functions and builtins",
     "the words of a line, their quotes and the values of variables are an unbounded space, and no test looks at what a command receives.",
     ["src/lexer.rs", "src/ast.rs", "src/eval.rs"],
     [("tokens: quotes, words, white space", "src/lexer.rs: Lexer::next, single_quote, double_quote, word"), ("cutting a command into words", "src/ast.rs: remove_whitespace, recombine_double_quotes, split_whitespace_ig_qts"),
      ("expansion of variables and removal of quotes", "src/ast.rs: expand_vars, expand_word, remove_single_quotes, remove_double_quotes"), ("arguments of the program", "src/ast.rs: argv; src/eval.rs: temp_execve")],
     ["argv of programs and the positional parameters of functions"], MC, NOTE % "C01")
prop("C02", "&&, || and ; run the right commands in order",
     "The commands of a list are run from left to right, one after the other: a command after ';' is always run, one after '&&' only if the last status was zero, and one after '||' only if it was not, with equal precedence and each of them skipped without effect otherwise. '!' before a pipeline turns the status 0 into 1 and any other into 0.",
     ["inputs", "histories"], "every list of pipelines with any operators between them and any statuses, at top level, in functions and in evaluated text",
     "which commands are run depends on the statuses of all before them: the combinations are unbounded, and no test evaluates a list.",
     ["src/eval.rs", "src/grammar.lalrpop", "src/ast.rs"],
     [("evaluation of lists", "src/eval.rs: eval, parse_tree, eval_and_or, eval_pipeline"), ("their grammar", "src/grammar.lalrpop")],
     OUT, MC, "All 82,944 ordered pairs of the 288 lists of three commands with operators, negations and statuses are explored by TLC and checked against an oracle computed from the list itself (thorough; the 288 single lists quick) and replayed; random sessions with long and nested lists are validated by spec/TraceRsh. Trusts the specification, the helpers and the comparison.")
prop("C03", "Every command leaves the right exit status",
     "The status of a command is the exit status of the program modulo 256, 128 plus the number of the signal that ended it, that of the last command of a function, evaluated text or pipeline, the operand of return or exit (modulo 256), 0 for an assignment and a builtin that succeeds, 1 for one that fails, for a command that is not found and for a redirection that fails, and 2 for a line that can't be parsed. A shell that comes to the end of its input or to exit without operand ends with the status of the last command.",
     ["inputs", "histories"], "every sequence of commands of all kinds and statuses, in all modes of the shell",
     "the status of a line depends on what was run before; no test looks at a status.",
     ["src/eval.rs", "src/builtins.rs", "src/main.rs"],
     [("the last status", "src/eval.rs: set_exit_status, set_wait_status, get_exit_code"), ("exit and return", "src/builtins.rs: quit, return_cmd"), ("end of the shell", "src/main.rs: interactive_loop, script_loop, read_from_args")],
     ["exit status of rsh", "which commands of a list are run"], MC, NOTE % "C03")
prop("C04", "A line that can't be parsed has no effect",
     "When a line can't be parsed, none of its commands is run, and no variable, function, alias, file or directory changes; a message is written and the status is 2. The shell then goes on with the next line of its input.",
     ["inputs", "histories"], "every malformed line, wherever the error is in it, in every state of the shell, read interactively, from a script, by source, by eval or from -c",
     "no test gives the shell a malformed line.",
     ["src/grammar.lalrpop", "src/lexer.rs", "src/main.rs", "src/builtins.rs"],
     [("the whole line is parsed before any of it is run", "src/main.rs: interactive_loop, script_loop, read_from_args; src/builtins.rs: eval_cmd, source"), ("errors of the lexer", "src/lexer.rs: take_until")],
     OUT, MC, NOTE % "C04")
prop("C05", "Variables keep the value they were last given, in the right scope",
     "A word that names a variable stands for the value that was last assigned to it. An assignment in a function (or a function called by it) changes the variable where it exists, and otherwise makes one that is gone when the function returns; unset removes it; no other variable changes.",
     ["inputs", "histories"], "every sequence of assignments, unset, function calls and uses, with any values",
     "the value depends on the whole history of assignments and calls; no test assigns a variable and then looks at it.",
     ["src/context.rs", "src/ast.rs", "src/builtins.rs"],
     [("stack of contexts", "src/context.rs: ContextManager::add_var, get_var, remove_var"), ("assignment", "src/builtins.rs: assignment; src/eval.rs: eval_assignment"), ("expansion", "src/ast.rs: expand_vars")],
     OUT, MC, NOTE % "C05", [("contexts", "variables and functions of the shell and of each active function", "src/context.rs: ContextManager")])
prop("C06", "Functions run their latest body with their own arguments",
     "Calling a function runs the body it was last defined with, with $0 the name it was called by and $1, $2, ... its arguments, each as it was passed, and with the caller's again after it has returned. return ends the function that is running and no other, with the given status, and what follows it in the body is not run.",
     ["inputs", "histories"], "every sequence of definitions, redefinitions, nested and recursive calls (of bounded depth) and returns",
     "what a call does depends on the history of definitions and on the calls around it; the tests parse two definitions and call none.",
     ["src/eval.rs", "src/context.rs", "src/builtins.rs"],
     [("calls", "src/eval.rs: eval_function, return_from_function"), ("table of functions", "src/context.rs: add_function, get_function"), ("return", "src/builtins.rs: return_cmd")],
     OUT, MC, NOTE % "C06")
prop("C07", "A readonly variable never changes",
     "Once a variable is readonly, no assignment, export, readonly with a value, unset or function call changes or removes it: the attempt fails with a message and a status that is not zero, and the shell goes on. Variables that are not readonly are not affected.",
     ["inputs", "histories"], "every sequence of commands that could change a variable, before and after it is made readonly",
     "the guarantee is over all later commands; no test uses readonly.",
     ["src/context.rs", "src/builtins.rs"],
     [("check before every change", "src/context.rs: is_readonly, add_var, add_var_readonly, remove_var"), ("builtins", "src/builtins.rs: readonly, unset, export, assignment")],
     OUT, MC, NOTE % "C07")
prop("C08", "Programs get the exported environment and nothing else",
     "A program gets, of the shell's variables, exactly those that came with the shell's own environment or were exported, with the values they have when it is started; variables that are not exported or were unset are not in its environment. An assignment before a command is in the environment of that command and leaves the shell's variables and later commands as they are.",
     ["inputs", "histories"], "every sequence of assignments, exports, unsets and commands with or without assignments before them",
     "what a program inherits depends on the history; no test runs a program.",
     ["src/context.rs", "src/builtins.rs", "src/eval.rs", "src/shell.rs"],
     [("environment of the process", "src/context.rs: Context::convert_env, add_var, remove_var"), ("export", "src/builtins.rs: export"), ("assignments before a command", "src/eval.rs: temp_exec, eval_assignment")],
     ["environment of programs"], MC, NOTE % "C08")
prop("C09", "An alias stands for its text until it is removed",
     "A command whose name is an alias runs the command that the alias was last set to, with the words of the alias before its own, in order; arguments are never replaced. After unalias the name stands for itself again, other aliases stay, and listing shows each alias once with its text.",
     ["inputs", "histories"], "every sequence of alias, unalias and use, with aliases of programs, functions, builtins and other aliases",
     "no test defines an alias.",
     ["src/shell.rs", "src/ast.rs", "src/builtins.rs"],
     [("table of aliases", "src/shell.rs: add_alias, lookup_alias, remove_alias"), ("replacement", "src/ast.rs: alias_lookup"), ("builtins", "src/builtins.rs: alias, unalias")],
     OUT, MC, NOTE % "C09")
prop("C10", "Command substitution yields the output of the command",
     'A command in $(...) or backquotes within double quotes is run exactly once, before the command that it is part of, and is replaced by what it writes without the white space at its ends; text around it in the quotes is kept. It sees the variables, functions, aliases and directory of the shell, and nothing it does changes the shell.',
     ["inputs", "histories"], "every command in a substitution, any output, in arguments and values, in every state of the shell",
     "no test evaluates a substitution.",
     ["src/ast.rs", "src/lexer.rs"],
     [("substitution", "src/ast.rs: expand_subshells, create_subshell, eval_subshell")],
     OUT, MC, NOTE % "C10")
prop("C11", "Redirections apply to their command only, completely and in order",
     "The redirections of a command are carried out from left to right before it is run: '>' empties the file, '>>' keeps what it has, '<' makes the command read it, and a number says which descriptor is meant. They apply to that command only, and the shell's own descriptors and later commands are not affected; if one of them can't be carried out, the command is not run, a message is written and the status is 1.",
     ["inputs", "histories"], "every list of redirections of programs, builtins, functions and stages of pipelines, files that exist or not, and names that can't be opened",
     "the tests parse three redirections and carry out none.",
     ["src/eval.rs", "src/grammar.lalrpop"],
     [("opening files", "src/eval.rs: eval_redirect, redirect_fd"), ("restoring the shell's descriptors", "src/eval.rs: with_redirects")],
     OUT + ["open descriptors of programs"], MC, NOTE % "C11")
prop("C12", "Pipelines carry all data in order, with all stages running at once",
     "In a pipeline each command reads exactly what the one before it writes, all of it and in order, however much it is, and comes to its end when that one has ended; all commands of the pipeline run at the same time. The shell goes on when all of them have ended, with the status of the last, and no command gets a descriptor of a pipe besides its own input and output.",
     ["inputs", "schedules", "histories"], "every pipeline of programs, builtins and functions, any number of stages and any amount of data, and any order in which the stages run",
     "the tests only parse pipelines: what is written, closed and waited for, and in which order the stages get to run, is not reached.",
     ["src/eval.rs", "src/jobs.rs"],
     [("pipes and processes of a pipeline", "src/eval.rs: eval_pipe_sequence, temp_fork"), ("waiting", "src/jobs.rs: wait_for_job, wait_one, do_wait")],
     OUT + ["open descriptors of programs"], MC, NOTE % "C12")
prop("C13", "The right program is run for a name",
     "A name with a slash is run as that path; any other name is, in this order, an alias, a builtin, a function, or the first file of that name in the directories of PATH in their order, with the value that PATH has at that moment. If there is none, a message says that the command was not found, the status is 1 and nothing is run.",
     ["inputs", "histories"], "every name, every PATH and every change of it, of directories and of definitions in between",
     "what a name means depends on PATH, the files and the history of definitions; no test runs a command.",
     ["src/context.rs", "src/eval.rs"],
     [("search", "src/context.rs: lookup_command"), ("order of kinds", "src/eval.rs: eval_simple_command, check_if_builtin, check_if_function; src/ast.rs: alias_lookup")],
     OUT, MC, NOTE % "C13")
prop("C14", "cd moves the shell, or leaves it where it is",
     "After cd to a directory that can be entered, the working directory of the shell, of what pwd prints, of relative names in redirections and source and of every command started from then on is that directory; without an operand it is the value of HOME. When cd fails, a message is written, the status is 1 and the directory stays the same.",
     ["inputs", "histories"], "every sequence of cd with absolute and relative names, '..', '.', symbolic links, and names that are missing or no directories",
     "no test changes the directory.",
     ["src/builtins.rs"],
     [("cd and pwd", "src/builtins.rs: change_directory, pwd")],
     OUT + ["working directory of programs"], MC, NOTE % "C14")
prop("C15", "Namespaced contexts keep what is loaded into them apart",
     "After 'export context n=file' the variables and functions that the file defines and the shell did not have are found as n::name and only there, loading the file again replaces them, and other namespaces and the shell's own names are not affected. 'unset -c n' removes exactly that namespace.",
     ["inputs", "histories"], "every sequence of loading, removing and using contexts, several at a time, with variables and functions of the same names",
     "no test loads a context.",
     ["src/builtins.rs", "src/context.rs"],
     [("loading", "src/builtins.rs: export, create_context_from_file"), ("lookup of n::name", "src/context.rs: get_var, get_function, get_context_by_name, remove_context")],
     OUT, MC, NOTE % "C15")
prop("C16", "The same commands do the same from every source",
     "Commands have the same effect whether they are given with -c, in a script, on the standard input of an interactive shell, to eval or in a file read by source or '.': the same programs are run with the same arguments, variables, functions and the directory change in the same way, and the last status is the same. A function can be written on several lines in each of them. Arguments of a script and of source are its positional parameters; a return in a sourced file ends that file.",
     ["inputs", "configurations", "histories"], "every sequence of commands, in each of the ways the shell can be given it",
     "no test runs anything, from any source.",
     ["src/main.rs", "src/builtins.rs"],
     [("reading commands", "src/main.rs: interactive_loop, script_loop, read_from_args"), ("eval, source", "src/builtins.rs: eval_cmd, source")],
     OUT, MC, NOTE % "C16" + " spec/MC_M16, with functions of several lines, is explored and replayed for typed lines and for scripts.")
prop("C18", "A background command does not hold the shell up or change it",
     "A pipeline that ends in '&' is started, announced once with its job number and the shell goes on at once, with status 0, while it runs; it does not change the shell's variables, directory or descriptors, and what it writes gets where it was redirected. Commands after it are run and waited for as without it.",
     ["inputs", "schedules", "histories"], "every sequence of background and foreground commands, whichever ends first",
     "no test starts a command.",
     ["src/eval.rs", "src/jobs.rs"],
     [("background jobs", "src/eval.rs: eval_pipe_sequence"), ("table of jobs", "src/jobs.rs: create_job, wait_one, reap")],
     OUT, MC, NOTE % "C18" + " In addition the histories of spec/MC_J18 (small-step: every order in which background and foreground processes end, are stopped or continued) are driven in the real shell.")
prop("C22", "No text makes the shell crash or hang",
     "Whatever text the shell is given as commands, by any way, it does not panic, abort or hang: it runs what it says or reports an error, and then goes on with the next line and ends normally at the end of its input. (While a '{' that can be the beginning of a function's body is open, the next lines belong to it.)",
     ["inputs", "histories"], "every text (unbounded recursion that the text itself asks for aside)",
     "the tests parse 14 well-formed lines.",
     ["src/lexer.rs", "src/grammar.lalrpop", "src/ast.rs", "src/eval.rs", "src/builtins.rs"],
     [("errors are results", "src/lexer.rs, src/eval.rs, src/builtins.rs"), ("the loop goes on", "src/main.rs: interactive_loop, script_loop")],
     OUT, MC, "TLC explores, and the check replays, all lines of up to two (thorough: three) of 29 words and operators (spec/MC_T22) and a command followed by up to two (three) of 24 characters (spec/MC_S22), each followed by lines that show that the shell goes on; random sessions, also with malformed lines and bytes that are not UTF-8, are validated by spec/TraceRsh, which has an outcome without crash for every text; also where the specification leaves the outcome open, a panic is a violation. Sampled beyond these lengths.")
prop("C30", "~/.rshrc is evaluated first, and can't keep the shell from starting",
     "However the shell is started, what is in the file .rshrc of the directory HOME is evaluated before the first command, as if it had been typed: the variables, functions, aliases, exports and the directory are there afterwards. A file that is missing, can't be read or can't be parsed changes nothing, and neither it nor commands in it that fail keep the shell from taking its commands; only exit in it ends the shell, with its status.",
     ["inputs", "configurations"], "every content of the file, and every way to start the shell",
     "no test has such a file.",
     ["src/main.rs"],
     [("reading it", "src/main.rs: main, read_rc")],
     OUT, MC, "TLC explores all files of up to two of 19 lines (thorough: three), each followed by one line (thorough: two) of an alphabet that shows what it did, for typed lines, scripts and -c (spec/MC_C30), checks the property on them, and all (quick: a sample) are replayed in the real shell; random files and sessions are validated by spec/TraceRsh. Sampled beyond these. Trusts the specification, the helpers and the comparison.")
prop("C26", "What runs in a child leaves the shell as it is",
     "Commands in a substitution, in a stage of a pipeline of several commands or in the background get the variables, functions, aliases and directory the shell has at that moment, and whatever they change of these, and an exit in them, does not affect the shell or the other stages.",
     ["inputs", "histories"], "every command that changes the shell, in every place where it runs in a child",
     "no test evaluates anything.",
     ["src/eval.rs", "src/ast.rs"],
     [("children", "src/eval.rs: temp_fork, eval_pipe_sequence; src/ast.rs: eval_subshell"), ("what is run in the shell", "src/eval.rs: eval_simple_command, call_builtin")],
     OUT, MC, NOTE % "C26")
prop("C27", "A command that fails does not end the shell or the line",
     "A command that is not found, can't be executed, fails, is ended by a signal, can't open its files, or can't be started because there is no room for another process, and a builtin that is used wrongly, affects its own status and message only: the rest of the line and the following lines are run, and the shell's descriptors, variables and directory stay usable.",
     ["inputs", "fault_sequences", "histories"], "every sequence of failing and succeeding commands of all kinds",
     "no test runs a failing command.",
     ["src/eval.rs", "src/builtins.rs"],
     [("errors of commands", "src/eval.rs: eval_pipe_sequence, with_redirects, call_builtin, temp_exec")],
     OUT, MC, NOTE % "C27" + " spec/MC_F27 is explored and replayed with room for no, one and two processes (RLIMIT_NPROC), and a third of the random sessions have such a limit.")
prop("C28", "exec becomes the command, with its descriptors and environment",
     "exec with a command that exists ends the shell's own work: the command gets its arguments, the exported environment and the current directory, nothing after it is run, and the status of the shell is that of the command. With a command that can't be run, a message is written and the shell goes on.",
     ["inputs", "histories"], "every exec, at any point of a session, in a stage of a pipeline, in a function or in a substitution",
     "no test uses exec.",
     ["src/builtins.rs", "src/eval.rs"],
     [("exec", "src/builtins.rs: exec_cmd; src/eval.rs: temp_execve")],
     OUT, MC, NOTE % "C28")
prop("C29", "Comments and blanks make no difference",
     "A '#' at the beginning of a word starts a comment that reaches to the end of the line; comments, empty lines, and white space before, between and after commands and operators change nothing that the commands do, and no status. A '#' within a word or in quotes is part of it.",
     ["inputs"], "every line with comments and white space anywhere between its words",
     "no test has a comment or unusual white space.",
     ["src/lexer.rs", "src/grammar.lalrpop", "src/main.rs"],
     [("tokens", "src/lexer.rs: Lexer::next"), ("grammar", "src/grammar.lalrpop")],
     OUT, MC, NOTE % "C29")

if os.path.exists(os.path.join(V, "tools/describe_more.py")):
    exec(open(os.path.join(V, "tools/describe_more.py")).read())

P.sort(key=lambda x: x["p"]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        fh.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": x["p"]["id"], "quick_cmd": "./check %s quick" % x["p"]["id"], "thorough_cmd": "./check %s thorough" % x["p"]["id"],
                 "evidence_file": "evidence/%s.json" % x["p"]["id"], "technique": x["technique"], "level": x["level"], "level_note": x["note"]} for x in P],
     "not_applicable": NA,
     "notes": "No hooks: the machinery only uses what a user of rsh sees. The repairs in /repo are listed in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(M, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
