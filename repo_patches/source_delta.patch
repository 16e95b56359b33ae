From 74797bbd628fbdb5c8c98a6b3d6d5b0a9a71b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 01/79] fix: listing a non-empty job table no longer panics

Display for the job table expands PS4 while the shell is borrowed, so
expand_var must not borrow it mutably.
---
 src/shell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.rs b/src/shell.rs
index ee89cdb..718d1f2 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -297,7 +297,7 @@ impl Shell {
 	self.context_manager.remove_var(var);
     }
     /// This function takes in a &str and returns the value of the variable if it exists.
-    pub fn expand_variable(&mut self, var: &str) -> Option<String> {
+    pub fn expand_variable(&self, var: &str) -> Option<String> {
         let var = self.context_manager.get_var(var);
         if var.is_none() {
             return None;
@@ -640,7 +640,7 @@ pub fn add_var_context(set: &str) {
 }
 /// This function takes in a variable name and returns the value of that variable if it exists.
 pub fn expand_var(var: &str) -> Option<String> {
-    let mut shell = SHELL.get().borrow_mut();
+    let shell = SHELL.get().borrow();
     shell.expand_variable(var)
 }
 pub fn print_readonly_vars() {
-- 
2.43.0


From 3691ab8f18a7d2159d9fcfc80b4368c0880a4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 02/79] fix: a foreground job is waited for until all its
 processes are done

wait_one unwrapped the status of the first process of every job in the
table, so a running background job, or a pipeline whose first process was
not the first to end, brought the shell down; do_wait stopped blocking
after the first process reaped; and the status of a pipeline was that of
its first process instead of its last.
---
 src/jobs.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 94e50cf..b1da460 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -516,7 +516,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
             continue;
         }
         state = JobState::Finished;
-        let mut stopped = false;
+        let mut stopped = None;
         for process in jb.borrow_mut().borrow_processes_mut() {
             if process.pid == pid {
                 process.status = Some(status);
@@ -531,13 +531,13 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
             if matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
                 //println!("stopped");
                 state = JobState::Stopped;
-                stopped = true;
+                stopped = process.status;
             }
         }
-        let stop_status = jb.borrow().processes[0].status.unwrap();
-        jb.borrow_mut().stop_status = stop_status;
         if this_job.is_some() {
             if state != JobState::Running {
+                let stop_status = stopped.or(jb.borrow().processes.last().unwrap().status).unwrap();
+                jb.borrow_mut().stop_status = stop_status;
                 this_job.as_ref().unwrap().borrow_mut().changed = true;
 
                 if this_job.as_ref().unwrap().borrow().state != state {
@@ -600,7 +600,7 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 
         block &= !DOWAIT_WAITCMD_ALL;
 
-        if pid.is_ok() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
+        if job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running {
             block = DOWAIT_NONBLOCK;
         }
        
-- 
2.43.0


From 77d887611bfb38b858f9adbeaa67fb37a4309d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 03/79] fix: command substitution no longer aborts or hangs the
 shell

The read end of the pipe was closed twice (File owns it), which aborts the
process; the child was waited for before its output was read, so output
larger than the pipe buffer deadlocked; and a signal during the wait made
the unwrap panic.
---
 src/ast.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8051d66..d796195 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -402,9 +402,8 @@ impl SimpleCommand {
                 nix::unistd::close(pip.1).unwrap();
                 let mut buf = String::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                waitpid(child, None).unwrap();
                 file.read_to_string(&mut buf).unwrap();
-                nix::unistd::close(pip.0).unwrap();
+                while waitpid(child, None) == Err(nix::errno::Errno::EINTR) {}
                 buf.trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
-- 
2.43.0


From f3c059ad7b2d5598ce133b26e4896fb0c64e7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 04/79] fix: assigning a variable whose name starts with a
 digit cannot panic

An unused key was computed from all digits of the assignment and parsed as
an usize, so a long number as an argument of a function (1=99999...) brought
the shell down, as did an empty assignment.
---
 src/context.rs | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 7609ece..ffaa4ca 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -525,15 +525,6 @@ impl ContextUtils<&str> for Context {
         };
 
         let var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
 
 
         self.add_var(var_struct);
@@ -548,15 +539,6 @@ impl ContextUtils<&str> for Context {
         };
 
         let mut var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
 
         var_struct.readonly = true;
         
@@ -573,15 +555,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var(&mut self, (name, value): (&str, &str)) {
         let var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
 
         self.add_var(var_struct);
     }
@@ -590,15 +563,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
         let mut var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
         var_struct.readonly = true;
 
         self.add_var(var_struct);
-- 
2.43.0


From cbaca619599e04453c9ae84ddece42587f1ff11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 05/79] fix: > truncates its target

---
 src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.rs b/src/eval.rs
index 1c83e5e..5c4f991 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -406,6 +406,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                     let file = OpenOptions::new()
                         .write(true)
                         .create(true)
+                        .truncate(true)
                         .open(&io_file.filename)
                         .unwrap();
                     dup2(file.as_raw_fd(), 1).unwrap();
-- 
2.43.0


From e61052440fedb34357f3c40fc8a6a6d9d7c33340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 06/79] fix: a redirection applies to the descriptor written
 before it

---
 src/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 5c4f991..dc1015e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -399,7 +399,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .open(&io_file.filename)
                         .unwrap();
                     
-                    dup2(file.as_raw_fd(), 0).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(0)).unwrap();
                     mem::forget(file);
                 },
                 RedirectType::Output => {
@@ -409,7 +409,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .truncate(true)
                         .open(&io_file.filename)
                         .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
                     mem::forget(file);
                 },
                 RedirectType::Append => {
@@ -419,7 +419,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .create(true)
                         .open(&io_file.filename)
                         .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
                     mem::forget(file);
                 },
                 _ => (),
-- 
2.43.0


From 1adb7c4f2a1716d7e6df48b7838b3dcbb3f83d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 07/79] fix: builtins called without an operand no longer panic

A command without arguments has an empty suffix, not none, by the time the
builtin runs, so cd, fg, bg, alias, unalias and eval indexed past its end.
---
 src/builtins.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 59d9f72..df7bcbf 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -51,8 +51,8 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     
     trap::interrupts_off();
     let path;
-    if command.suffix.is_none() {
-        path = env::var("HOME").unwrap();
+    if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
+        path = env::var("HOME").map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "cd: HOME not set"))?;
     } else {
         path = command.suffix.as_ref().unwrap().word[0].to_string();
     }
@@ -109,7 +109,7 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     trap::interrupts_off();
     let id;
     let id_type;
-    if command.suffix.is_none() {
+    if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
@@ -206,7 +206,7 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is empty, it will print out all of the current aliases.
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
         shell::display_aliases();
         return Ok(());
     }
@@ -230,7 +230,7 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'alias'.
 /// If the suffix is '-a', it will remove all of the current aliases.
 pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word.len() > 1 {
@@ -373,7 +373,7 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It evaluates a string as a command.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'string'.
 pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "eval needs an argument"));
     }
 
-- 
2.43.0


From 831b40e8652060304a78cf778ad48b12be871ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 08/79] fix: exit, return, fg and bg report an operand that is
 not a number

They panicked on it, which ended the shell.
---
 src/builtins.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index df7bcbf..511c83e 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -73,7 +73,8 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>()
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, format!("{}: numeric argument required", command.name)))?;
 
     exit(code);
 }
@@ -88,7 +89,8 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>()
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, format!("{}: numeric argument required", command.name)))?;
 
     eval::set_exit_status(code);
     Ok(())
@@ -112,13 +114,15 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
+    if command.suffix.as_ref().unwrap().word[0].starts_with('%') {
         let mut chars = command.suffix.as_ref().unwrap().word[0].chars();
         chars.next();
-        id = chars.as_str().parse().unwrap();
+        id = chars.as_str().parse()
+            .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, format!("{}: no such job", command.name)))?;
         id_type = IdType::Jid;
     } else {
-        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>().unwrap();
+        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>()
+            .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, format!("{}: no such job", command.name)))?;
         id_type = IdType::Pid;
     }
 
-- 
2.43.0


From 772eaa2b33a69a2ab1dfb6e933bbf5c3fa19ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 09/79] fix: fg and bg of a job whose processes are partly gone
 or still stopped

A process that was already reaped made kill() fail and the unwrap panic, and
the stale stopped status of the others made a resumed pipeline look stopped
again as soon as one of its processes ended.
---
 src/builtins.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 511c83e..2f2c16d 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -9,6 +9,7 @@ use crate::shell;
 use nix::unistd::Pid;
 use nix::sys::signal::kill;
 use nix::sys::signal::Signal;
+use nix::sys::wait::WaitStatus;
 use std::ffi::CString;
 use crate::jobs;
 use crate::trap;
@@ -162,8 +163,11 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = false;
 
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
+    for process in job.as_ref().unwrap().borrow_mut().processes.iter_mut() {
+        if matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
+            process.status = None;
+        }
+        kill(process.pid, Signal::SIGCONT).ok();
     }
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
@@ -195,8 +199,11 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = true;
     
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
+    for process in job.as_ref().unwrap().borrow_mut().processes.iter_mut() {
+        if matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
+            process.status = None;
+        }
+        kill(process.pid, Signal::SIGCONT).ok();
     }
 
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
-- 
2.43.0


From 5147ee19e1cfda80a6356e883d984c89cb104afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 10/79] fix: every assignment of a line is performed

Only the first one was, and a line with a redirection alone panicked.
---
 src/builtins.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2f2c16d..f4a7bda 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -375,7 +375,9 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
 
 
-    shell::add_var_context(command.prefix.as_ref().unwrap().assignment[0].as_str());
+    for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
+        shell::add_var_context(assignment.as_str());
+    }
     Ok(())
 }
 
-- 
2.43.0


From 3968e9b235503fe4de5742b66f9450e3eb9321a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 11/79] fix: a builtin sets the exit status and a failing one
 does not end the line

A builtin left the status of the command before it, always counted as a
success for && and ||, and an error it returned dropped the rest of the list
(silently with -c). Signals also stayed blocked after it.
---
 src/eval.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index dc1015e..b6d86c0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -122,7 +122,13 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     //block interrupts
     trap::interrupts_off();
     for command in pipeline.iter_mut() {
-        let process = eval_command(command)?;
+        let process = match eval_command(command) {
+            Ok(process) => process,
+            Err(err) => {
+                trap::interrupts_on();
+                return Err(err);
+            }
+        };
         if process.is_none() {
             break;   
         }
@@ -134,7 +140,8 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     }
     
     if processes.len() == 0 {
-        return Ok(0);
+        trap::interrupts_on();
+        return Ok(get_exit_code());
     }
    
     let mut remove_index: Vec<usize> = Vec::new();
@@ -325,6 +332,7 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
     let name = &function_definition.name;
     let body = function_definition.function_body.clone();
     shell::add_function(&name, body);
+    set_exit_status(0);
     Ok(None)
 }
 
@@ -473,13 +481,16 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
 
     let result = call_builtin(command);
 
-    if result.is_err() {
-        return Err(format!("{}", result.err().unwrap()));
-    }
-    else {
-        return Ok(None)
+    match result {
+        Err(err) => {
+            eprintln!("{}", err);
+            set_exit_status(1);
+        },
+        // the status of these is the one of what they ran, or the one they were given
+        Ok(_) if matches!(command.name.as_str(), "return" | "eval" | "." | "source" | "fg") => {},
+        Ok(_) => set_exit_status(0),
     }
-    
+    Ok(None)
 }
 
 fn call_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,std::io::Error> {
-- 
2.43.0


From c4079b6a618e6535f903afce6f4fa859d6c06e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 12/79] fix: a function's exit status is the one of its last
 command

It was always 0, and a function called by another one inside a forked shell
ended that process before the rest of the calling function ran.
---
 src/eval.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index b6d86c0..a4f5e6f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -160,12 +160,6 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                         std::process::exit(1);
                     }
                 }
-                if shell::get_forked() {
-                    std::process::exit(0);
-                }
-                else {
-                    set_exit_status(0);
-                }
             }
 
         }
@@ -241,7 +235,7 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                             std::process::exit(1);
                         }
                     }
-                    std::process::exit(0);
+                    std::process::exit(get_exit_code());
                 }
                 else {
                     match temp_exec(process) {
-- 
2.43.0


From 6999ca203a126403a8580d8374c97fb4b5561e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 13/79] fix: a command ended or stopped by a signal has status
 128+signal

It kept the status of the command before it, so "cmd && next" ran next after
cmd was killed.
---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index a4f5e6f..31100e9 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -278,6 +278,9 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                 WaitStatus::Exited(_, status) => {
                     set_exit_status(status);
                 },
+                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+                    set_exit_status(128 + signal as i32);
+                },
                 _ => (),
             }
         }
-- 
2.43.0


From 71de27ba4f7c70a03d8b0cce8207269a62c16954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 14/79] fix: ! negates the status of its pipeline

It was parsed and ignored, and "! cmd &" ran in the foreground.
---
 src/eval.rs         | 12 +++++++++++-
 src/grammar.lalrpop |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 31100e9..b29c40f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -101,6 +101,16 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
     Ok(status)
 }
 
+/// This evaluates a pipeline and, if it has a '!' in front, negates its status.
+fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
+    let status = eval_pipe_sequence(pipeline)?;
+    if !pipeline.bang {
+        return Ok(status);
+    }
+    set_exit_status((status == 0) as i32);
+    Ok(get_exit_code())
+}
+
 /// This is where we evaluate a pipeline
 /// We iterate through the pipeline and evaluate each command in the pipeline
 /// If the evaluation creates Processes we then create a Job and execute the job.
@@ -111,7 +121,7 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 /// If the function is in the background we just add it to the pipeline and let the fork and exec loop
 /// handle it.
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
-fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
+fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     let background = pipeline.background;
     let mut pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index c71df9e..07df683 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -78,7 +78,7 @@ Pipeline: ast::Pipeline = {
     <ps:PipelineSeq> => ast::Pipeline{bang: false, pipe_sequence: ps, background: false},
     <bang:"bang"> <ps:PipelineSeq> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
     <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: false, pipe_sequence: ps, background: true},
-    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
+    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: true},
 }
 
 PipelineSeq: ast::PipeSequence = {
-- 
2.43.0


From aafe15d9e0df6e965940fea9e5d2c437ced00177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 15/79] fix: fg has the status of the job it waited for,
 starting a job has status 0

---
 src/builtins.rs |  2 +-
 src/eval.rs     | 23 ++++++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index f4a7bda..ad14c71 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -171,7 +171,7 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
-    jobs::wait_for_job(job);
+    eval::set_wait_status(jobs::wait_for_job(job));
     Ok(())
 }
 
diff --git a/src/eval.rs b/src/eval.rs
index b29c40f..b0476a0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -32,6 +32,18 @@ pub fn set_exit_status(status: i32) {
         EXIT_STATUS.store(status, Ordering::Relaxed);
     }
 }
+/// sets the exit status of the last command from what waiting for it returned
+pub fn set_wait_status(status: WaitStatus) {
+    match status {
+        WaitStatus::Exited(_, status) => {
+            set_exit_status(status);
+        },
+        WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+            set_exit_status(128 + signal as i32);
+        },
+        _ => (),
+    }
+}
 /// gets the exit code of the last command
 pub fn get_exit_code() -> i32 {
     unsafe {
@@ -284,18 +296,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             }
             shell::delete_job(id);
 
-            match status {
-                WaitStatus::Exited(_, status) => {
-                    set_exit_status(status);
-                },
-                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
-                    set_exit_status(128 + signal as i32);
-                },
-                _ => (),
-            }
+            set_wait_status(status);
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            set_exit_status(0);
         }
         else if proc_count == 0 {
             let id = {
-- 
2.43.0


From b3952ee23c618480f0bbcdf736030f4d2de8fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 16/79] fix: a function in a pipeline is a stage of it

It ran in the shell before the other commands were started, so its output went
to the terminal and the next command's input was not its output.
---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index b0476a0..1abc6e4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -168,7 +168,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
    
     let mut remove_index: Vec<usize> = Vec::new();
     
-    if !background {
+    if !background && commands.len() == 1 {
         for (index,command) in commands.iter_mut().enumerate() {
             if shell::is_function(&command.name) {
                 remove_index.push(index);
-- 
2.43.0


From c3c91b37b18a0dbbe71479501415874018ad9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 17/79] fix: a builtin in a pipeline is a stage of it

It ran in the shell, and the commands after it were not run at all.
---
 src/eval.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 1abc6e4..cf1b63b 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -141,10 +141,13 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
     let mut processes = Vec::new();
     let mut commands = Vec::new();
 
+    // a stage of a pipeline and a background command do not run in the shell itself
+    let in_shell = pipeline.0.len() == 1 && !background;
+
     //block interrupts
     trap::interrupts_off();
     for command in pipeline.iter_mut() {
-        let process = match eval_command(command) {
+        let process = match eval_command(command, in_shell) {
             Ok(process) => process,
             Err(err) => {
                 trap::interrupts_on();
@@ -259,6 +262,10 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                     }
                     std::process::exit(get_exit_code());
                 }
+                else if check_if_builtin(&commands[count].name) {
+                    run_builtin(&mut commands[count]);
+                    std::process::exit(get_exit_code());
+                }
                 else {
                     match temp_exec(process) {
                         Ok(_) => {},
@@ -322,11 +329,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 /// This command evaluates a Command and returns a None if the command is a function definition or a shell builtin.
 /// if the command is not one of the above two then it returns a tuple with a Process and the SimpleCommand that
 /// made the Process.
-fn eval_command(command: &mut Command) -> Result<Option<(Process,SimpleCommand)>,String> {
+fn eval_command(command: &mut Command, in_shell: bool) -> Result<Option<(Process,SimpleCommand)>,String> {
 
     match command {
         Command::SimpleCommand(simple_command) => {
-            return eval_simple_command(simple_command);
+            return eval_simple_command(simple_command, in_shell);
         },
         Command::FunctionDefinition(function_definition) => {
             return eval_function_definition(function_definition);
@@ -350,9 +357,9 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
 
 /// This function evaluates a simple command and returns a tuple with a Process and the SimpleCommand that
 /// made the Process.
-fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Process, SimpleCommand)>,String> {
+fn eval_simple_command(simple_command: &mut SimpleCommand, in_shell: bool) -> Result<Option<(Process, SimpleCommand)>,String> {
    
-    if check_if_builtin(&simple_command.name) {
+    if in_shell && check_if_builtin(&simple_command.name) {
         return eval_builtin(simple_command);
     }
 
@@ -490,7 +497,12 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
     command.expand_vars();
     command.eval();
 
+    run_builtin(command);
+    Ok(None)
+}
 
+/// This function runs a shell builtin whose words have been expanded and sets the exit status.
+fn run_builtin(command: &mut SimpleCommand) {
     let result = call_builtin(command);
 
     match result {
@@ -502,7 +514,6 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
         Ok(_) if matches!(command.name.as_str(), "return" | "eval" | "." | "source" | "fg") => {},
         Ok(_) => set_exit_status(0),
     }
-    Ok(None)
 }
 
 fn call_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,std::io::Error> {
-- 
2.43.0


From b1d2984bb0c16b3ac3cd4255623085da56f77e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 18/79] fix: a name that expands to a builtin runs it, one that
 expands to nothing does not panic

An alias or variable for a builtin was looked up on the PATH instead, and
'' or "$(true)" as the command ended the shell.
---
 src/ast.rs      |  2 +-
 src/builtins.rs |  4 +++-
 src/eval.rs     | 37 ++++++-------------------------------
 3 files changed, 10 insertions(+), 33 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index d796195..432eb1c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -594,7 +594,7 @@ impl SimpleCommand {
                 words.push(word.to_string());
             }
         }
-        self.name = words.remove(0);
+        self.name = if words.is_empty() { String::new() } else { words.remove(0) };
         
         if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
             self.suffix = Some(Suffix {
diff --git a/src/builtins.rs b/src/builtins.rs
index ad14c71..f74884b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -373,7 +373,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This evaluates an assignment which is a SimpleCommand with a prefix that is a string of the form 'variable=value'.
 pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
-
+    if command.prefix.is_none() {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, ": Command not found"));
+    }
 
     for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
         shell::add_var_context(assignment.as_str());
diff --git a/src/eval.rs b/src/eval.rs
index cf1b63b..f982457 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -359,11 +359,7 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
 /// made the Process.
 fn eval_simple_command(simple_command: &mut SimpleCommand, in_shell: bool) -> Result<Option<(Process, SimpleCommand)>,String> {
    
-    if in_shell && check_if_builtin(&simple_command.name) {
-        return eval_builtin(simple_command);
-    }
 
-    
     //todo make this one function to resolve problems
     /*log!("eval_simple_command: {:?}", simple_command);
     simple_command.remove_whitespace();
@@ -381,8 +377,12 @@ fn eval_simple_command(simple_command: &mut SimpleCommand, in_shell: bool) -> Re
     simple_command.alias_lookup();
     simple_command.expand_vars();
     simple_command.eval();
-   
-    
+
+    if in_shell && check_if_builtin(&simple_command.name) {
+        run_builtin(simple_command);
+        return Ok(None);
+    }
+
 
     //log!("eval_simple_command: {:?}", simple_command);
     
@@ -476,31 +476,6 @@ fn check_if_builtin(cmd_name: &str) -> bool {
     }
 }
 
-/// This function evaluates a shell builtin. We should handle the error properly here.
-fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,String> {
-
-    /*command.remove_whitespace();
-    log!("eval_simple_command: {:?}", command);
-    command.eval_double_quotes();
-    log!("eval_double_quotes: {:?}", command);
-    command.alias_lookup();
-    log!("alias_lookup: {:?}", command);
-    command.expand_vars();
-    log!("expand_vars: {:?}", command);
-    command.remove_double_quotes();
-    log!("remove_double_quotes: {:?}", command);
-    command.remove_single_quotes();
-    log!("remove_single_quotes: {:?}", command);*/
-
-
-    command.alias_lookup();
-    command.expand_vars();
-    command.eval();
-
-    run_builtin(command);
-    Ok(None)
-}
-
 /// This function runs a shell builtin whose words have been expanded and sets the exit status.
 fn run_builtin(command: &mut SimpleCommand) {
     let result = call_builtin(command);
-- 
2.43.0


From fa8967593b70e54bd9a2f19c97bbf7e5342a7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 19/79] fix: an alias's own arguments come before those of the
 command

"alias e='echo a'" followed by "e b" printed "b a". An alias with an empty
value ended the shell when used.
---
 src/ast.rs   | 3 ++-
 src/shell.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 432eb1c..248f5d8 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -264,7 +264,8 @@ impl SimpleCommand {
                 self.name = name;
                 match &mut self.suffix {
                     Some(suffix) => {
-                        suffix.word.append(&mut args);
+                        args.append(&mut suffix.word);
+                        suffix.word = args;
                     }
                     None => {
                         self.suffix = Some(Suffix {
diff --git a/src/shell.rs b/src/shell.rs
index 718d1f2..237f54a 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -176,7 +176,7 @@ impl Shell {
             None => None,
             Some(alias) => {
                 let mut args = alias.split_whitespace();
-                let command = args.next().unwrap();
+                let command = args.next()?;
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
                     Some((command.to_string(), None))
-- 
2.43.0


From 3c58b66bf21c37e0cbe1ef2f7ff8c1db2024188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 20/79] fix: a $ inside double quotes keeps the character after
 it

"a$b" lost its b, and a $ before the closing quote ended the shell.
---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 248f5d8..3521ba2 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -343,10 +343,10 @@ impl SimpleCommand {
         let mut subshell = String::new();
 
         if chr == '$' {
-            let Some(c) = chars.next() else { panic!("Unexpected EOF") };
             subshell.push(chr);
+            let Some(c) = chars.next() else { return subshell };
+            subshell.push(c);
             if c == '(' {
-                subshell.push(c);
                 while let Some(c) = chars.next() {
                     if c == ')' {
                         subshell.push(c);
-- 
2.43.0


From 527798d91aa715460384ac95b7b2103141bf3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 21/79] fix: command substitution takes any output as it is

Output that itself read like a substitution was run as a command; a line that
does not parse, output that is not UTF-8 and a NUL in a word ended the shell.
---
 src/ast.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 3521ba2..cd25730 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -392,20 +392,24 @@ impl SimpleCommand {
         let subshell = &chars.collect::<String>();
 
         let lexer = Lexer::new(&subshell);
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&subshell,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new().parse(&subshell,lexer) {
+            Ok(ast) => ast,
+            Err(err) => {
+                eprintln!("Error: {:?}", err);
+                return String::new();
+            }
+        };
 
         let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
 
         match unsafe {nix::unistd::fork().expect("failed to fork")} {
             nix::unistd::ForkResult::Parent { child } => {
                 nix::unistd::close(pip.1).unwrap();
-                let mut buf = String::new();
+                let mut buf = Vec::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                file.read_to_string(&mut buf).unwrap();
+                file.read_to_end(&mut buf).unwrap();
                 while waitpid(child, None) == Err(nix::errno::Errno::EINTR) {}
-                buf.trim().to_string()
+                String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
                 nix::unistd::dup2(pip.1, 1).unwrap();
@@ -633,7 +637,7 @@ impl SimpleCommand {
         let mut new_word = word.to_string();
         Self::cut_quotes(&mut new_word);
         let mut ret = Vec::new();
-        let eval = Self::eval_subshell(&new_word);
+        let eval = new_word;
         if eval.contains(" ") {
             ret.append(&mut eval.split_whitespace().map(|word| word.to_string()).collect());
         }
@@ -735,11 +739,11 @@ impl SimpleCommand {
 
     pub fn argv(&self) -> Vec<CString> {
         let mut argv = Vec::new();
-        argv.push(CString::new(self.name.clone()).unwrap());
+        argv.push(CString::new(self.name.replace('\0', "")).unwrap());
         
         if self.suffix.is_some() {
             for word in self.suffix.as_ref().unwrap().word.iter() {
-                argv.push(CString::new(word.clone()).unwrap());
+                argv.push(CString::new(word.replace('\0', "")).unwrap());
             }
         }
 
-- 
2.43.0


From 508a74f1c85665af66147ba7916889a244b36e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 22/79] fix: a value may contain =

Everything from the second = on was dropped from assigned, exported and
readonly values and from positional parameters, and such an alias was refused.
---
 src/builtins.rs | 2 +-
 src/context.rs  | 4 ++--
 src/eval.rs     | 2 +-
 src/shell.rs    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index f74884b..aa27b50 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -360,7 +360,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             continue;//TODO: make this read argument
         }
-        let mut split = word.split('=');
+        let mut split = word.splitn(2, '=');
         let key = split.next().unwrap();
         let value = split.next().unwrap();
         shell::add_var(word,0);
diff --git a/src/context.rs b/src/context.rs
index ffaa4ca..f8887a2 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -518,7 +518,7 @@ impl ContextUtils<&str> for Context {
     /// * `var` - The &str set that is to be added to the context.
     fn add_var(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
@@ -532,7 +532,7 @@ impl ContextUtils<&str> for Context {
 
     fn add_var_readonly(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
diff --git a/src/eval.rs b/src/eval.rs
index f982457..db9b961 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -409,7 +409,7 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-        let assign = assign.split('=').collect::<Vec<&str>>();
+        let assign = assign.splitn(2, '=').collect::<Vec<&str>>();
         env::set_var(&assign[0], &assign[1]);
     }
 }
diff --git a/src/shell.rs b/src/shell.rs
index 237f54a..d934372 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -383,7 +383,7 @@ impl ShellAliasUtils<&str> for Shell {
     /// and the second part is used as the alias value.
     /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, input: &str) {
-        let split = input.split('=').collect::<Vec<&str>>();
+        let split = input.splitn(2, '=').collect::<Vec<&str>>();
         if split.len() != 2 {
             eprintln!("Invalid alias");
             return;
-- 
2.43.0


From cc00623600f21689e2377ffb4eb694cf79b17fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 23/79] fix: a function's positional parameters belong to its
 call

A function called from another one overwrote the caller's parameters of the
same number, and so did one called from a script given arguments.
---
 src/eval.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index db9b961..ad51d0e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -13,6 +13,7 @@ use std::mem;
 use std::env;
 use std::sync::atomic::{AtomicI32, Ordering};
 use crate::log;
+use crate::context::{ContextUtils, Var};
 
 use std::os::unix::io::RawFd;
 use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
@@ -574,16 +575,14 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
     shell::push_context_new();
-    shell::add_var_context(&format!("0={}", command.name));
+    let context = shell::get_current_context();
+    context.borrow_mut().add_var(Var::new("0", &command.name));
     //eprintln!("0={}", command.name);
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
         for (i, arg) in suffix.word.iter().enumerate() {
-            if arg == "&" {
-                break;
-            }
             //eprintln!("{}={}", i+1, arg);
-            shell::add_var_context(&format!("{}={}", i+1, arg));
+            context.borrow_mut().add_var(Var::new(&(i+1).to_string(), arg));
         }
     }
 
-- 
2.43.0


From 0638d7b402b65f936e7de4a330002a7d7ba9a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 24/79] fix: the value of an assignment and the target of a
 redirection are expanded

"Y=$X" stored the text $X, A="b c" before a command put the quotes in its
environment, and > "a b" and > $F wrote files with the quotes or $ in the name.
---
 src/ast.rs     | 32 +++++++++++++++++++-------------
 src/context.rs |  8 ++++----
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index cd25730..7ac416e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -279,26 +279,32 @@ impl SimpleCommand {
         }
     }
 
+    /// This function expands the value of an assignment or the target of a redirection.
+    fn expand_word(word: &str) -> String {
+        if let Some(var) = word.strip_prefix('$') {
+            return shell::expand_var(var).unwrap_or(word.to_string());
+        }
+        let mut word = word.to_string();
+        if word.starts_with('"') || word.starts_with('\'') {
+            Self::cut_quotes(&mut word);
+        }
+        word
+    }
+
     pub fn expand_vars(&mut self) {
 
         if self.prefix.is_some() {
             for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
-                if word.contains("$") {
-                    let mut split = word.split("=");
-                    let var = split.next().unwrap();
-                    let val = split.next().unwrap();
-                    let val = match shell::expand_var(val) {
-                        Some(expanded) => {
-                            expanded
-                        }
-                        None => {
-                            val.to_string()
-                        }
-                    };
-                    *word = format!("{}={}", var, val);
+                if let Some((var, val)) = word.split_once('=') {
+                    *word = format!("{}={}", var, Self::expand_word(val));
                 }
             }
         }
+        let prefix = self.prefix.iter_mut().flat_map(|prefix| prefix.io_redirect.iter_mut());
+        let suffix = self.suffix.iter_mut().flat_map(|suffix| suffix.io_redirect.iter_mut());
+        for file in prefix.chain(suffix).filter_map(|redirect| redirect.io_file.as_mut()) {
+            file.filename = Self::expand_word(&file.filename);
+        }
 
         if self.name.starts_with("$") {
             let mut chars = self.name.chars();
diff --git a/src/context.rs b/src/context.rs
index f8887a2..d15f066 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -237,19 +237,19 @@ impl ContextManager {
 
     /// Adds a variable to the current context.
     pub fn add_var(&mut self, set: &str) {
-        let mut split = set.split("=");
-        let name = split.next().unwrap();
+        let (name, value) = set.split_once('=').unwrap_or((set, ""));
+        let var = Var::new(name, value);
 
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
                 if context.borrow().get_var(name).unwrap().borrow().readonly {
                     return;
                 }
-                context.borrow_mut().add_var(set);
+                context.borrow_mut().add_var(var);
                 return;
             }
         }
-        self.get_context().borrow_mut().add_var(set);
+        self.get_context().borrow_mut().add_var(var);
     }
     pub fn add_var_readonly(&mut self, set: &str) {
         if set.contains("::") {
-- 
2.43.0


From d1095d6b3c798b7c0534b09055fd9d81b1de033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 25/79] fix: a redirection of a command without arguments is
 applied

"ls > file" wrote to the terminal.
---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 7ac416e..eb604a6 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -607,7 +607,7 @@ impl SimpleCommand {
         }
         self.name = if words.is_empty() { String::new() } else { words.remove(0) };
         
-        if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
+        if self.suffix.is_none() {
             self.suffix = Some(Suffix {
                 io_redirect: Vec::new(),
                 word: words,
-- 
2.43.0


From 8ecb824d3e45e25df7e632414526b92fbb05f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 26/79] fix: the value of a variable is an argument as it is

A value that starts with a quote was read as quoted text again, losing its
first and last characters or running a substitution inside it.
---
 src/ast.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index eb604a6..891b900 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -316,21 +316,6 @@ impl SimpleCommand {
                 None => {}
             }
         }
-        if self.suffix.is_none() {
-            return;
-        }
-        for word in self.suffix.as_mut().unwrap().word.iter_mut() {
-            if word.starts_with("$") {
-                let mut chars = word.chars();
-                chars.next();
-                match shell::expand_var(&chars.collect::<String>()) {
-                    Some(expanded) => {
-                        *word = expanded;
-                    }
-                    None => {}
-                }
-            }
-        }
         /*self.suffix.as_mut().unwrap().word.iter_mut().for_each(|word| {
             println!("word: {}", word);
             if word.starts_with("$") {
@@ -626,7 +611,7 @@ impl SimpleCommand {
                     new_words.push(new_word);
                 }
                 else {
-                    new_words.push(word.to_string());
+                    new_words.push(Self::expand_word(word));
                 }
             }
             self.suffix.as_mut().unwrap().word = new_words;
-- 
2.43.0


From 47faccec3ba6949d2c4124f91be69fece4f3b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 27/79] fix: a redirection that cannot be set up is reported

The command's process panicked instead, with status 101.
---
 src/eval.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index ad51d0e..a99fb70 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -247,7 +247,10 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                     close(pip.1).unwrap();
                 }
 
-                eval_prefix_suffix(commands[count].prefix_suffix());
+                if let Err(err) = eval_prefix_suffix(commands[count].prefix_suffix()) {
+                    eprintln!("{}", err);
+                    std::process::exit(1);
+                }
                 
                 //println!("executing: {:?}", process.argv);
                 
@@ -396,15 +399,16 @@ fn eval_simple_command(simple_command: &mut SimpleCommand, in_shell: bool) -> Re
 }
 
 /// This function evaluates a SimpleCommand's Prefix and Suffix.
-fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
+fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) -> std::io::Result<()> {
     let (prefix, suffix) = prefix_suffix;
     if prefix.is_some() {
-        eval_redirect(&prefix.unwrap().io_redirect);
+        eval_redirect(&prefix.unwrap().io_redirect)?;
         eval_assignment(&prefix.unwrap().assignment);
     }
     if suffix.is_some() {
-        eval_redirect(&suffix.unwrap().io_redirect);
+        eval_redirect(&suffix.unwrap().io_redirect)?;
     }
+    Ok(())
 }
 
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
@@ -416,7 +420,7 @@ fn eval_assignment(assignment: &Vec<String>) {
 }
 
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
-fn eval_redirect(redirect: &Vec<IoRedirect>) {
+fn eval_redirect(redirect: &Vec<IoRedirect>) -> std::io::Result<()> {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
@@ -425,9 +429,9 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                     let file = OpenOptions::new()
                         .read(true)
                         .open(&io_file.filename)
-                        .unwrap();
+                        .map_err(|err| std::io::Error::new(err.kind(), format!("{}: {}", io_file.filename, err)))?;
                     
-                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(0)).unwrap();
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(0))?;
                     mem::forget(file);
                 },
                 RedirectType::Output => {
@@ -436,8 +440,8 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .create(true)
                         .truncate(true)
                         .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
+                        .map_err(|err| std::io::Error::new(err.kind(), format!("{}: {}", io_file.filename, err)))?;
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1))?;
                     mem::forget(file);
                 },
                 RedirectType::Append => {
@@ -446,14 +450,15 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .append(true)
                         .create(true)
                         .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1)).unwrap();
+                        .map_err(|err| std::io::Error::new(err.kind(), format!("{}: {}", io_file.filename, err)))?;
+                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1))?;
                     mem::forget(file);
                 },
                 _ => (),
             }
         }
     }
+    Ok(())
 }
 
 /// This function checks if a command is a shell builtin.
-- 
2.43.0


From 7646d2afa7d03a57dc913c3c0eec94fab2e1d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 28/79] fix: a redirection leaves its descriptor, and no other,
 open in the command

With "3> f" the descriptor was often closed again by exec.
---
 src/eval.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index a99fb70..1953546 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -7,9 +7,9 @@ use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
 use nix::sys::wait::WaitStatus;
-use std::fs::OpenOptions;
-use std::os::unix::io::AsRawFd;
-use std::mem;
+use std::fs::{File, OpenOptions};
+use std::os::unix::io::{AsRawFd, IntoRawFd};
+use nix::fcntl::{fcntl, FcntlArg, FdFlag};
 use std::env;
 use std::sync::atomic::{AtomicI32, Ordering};
 use crate::log;
@@ -419,6 +419,18 @@ fn eval_assignment(assignment: &Vec<String>) {
     }
 }
 
+/// This function makes a descriptor refer to an opened file, and nothing else does.
+fn redirect_fd(file: File, fd: RawFd) -> std::io::Result<()> {
+    if file.as_raw_fd() == fd {
+        // dup2 would leave it to be closed by exec
+        fcntl(file.into_raw_fd(), FcntlArg::F_SETFD(FdFlag::empty()))?;
+    }
+    else {
+        dup2(file.as_raw_fd(), fd)?;
+    }
+    Ok(())
+}
+
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
 fn eval_redirect(redirect: &Vec<IoRedirect>) -> std::io::Result<()> {
     for redir in redirect.iter() {
@@ -431,8 +443,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) -> std::io::Result<()> {
                         .open(&io_file.filename)
                         .map_err(|err| std::io::Error::new(err.kind(), format!("{}: {}", io_file.filename, err)))?;
                     
-                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(0))?;
-                    mem::forget(file);
+                    redirect_fd(file, redir.io_number.unwrap_or(0))?;
                 },
                 RedirectType::Output => {
                     let file = OpenOptions::new()
@@ -441,8 +452,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) -> std::io::Result<()> {
                         .truncate(true)
                         .open(&io_file.filename)
                         .map_err(|err| std::io::Error::new(err.kind(), format!("{}: {}", io_file.filename, err)))?;
-                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1))?;
-                    mem::forget(file);
+                    redirect_fd(file, redir.io_number.unwrap_or(1))?;
                 },
                 RedirectType::Append => {
                     let file = OpenOptions::new()
@@ -451,8 +461,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) -> std::io::Result<()> {
                         .create(true)
                         .open(&io_file.filename)
                         .map_err(|err| std::io::Error::new(err.kind(), format!("{}: {}", io_file.filename, err)))?;
-                    dup2(file.as_raw_fd(), redir.io_number.unwrap_or(1))?;
-                    mem::forget(file);
+                    redirect_fd(file, redir.io_number.unwrap_or(1))?;
                 },
                 _ => (),
             }
-- 
2.43.0


From e2eb3c461b36f06c8905234b34cc795dab7088cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 29/79] fix: the redirections of a builtin and of a function
 are applied

"pwd > file" and "f > file" wrote to the terminal.
---
 src/eval.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 1953546..e4ad41c 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -177,7 +177,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             if shell::is_function(&command.name) {
                 remove_index.push(index);
             
-                let result = eval_function(command);
+                let mut result = Ok(0);
+                with_redirects(command, |command| { result = eval_function(command); });
                 
                 match result {
                     Ok(_) => {},
@@ -383,7 +384,7 @@ fn eval_simple_command(simple_command: &mut SimpleCommand, in_shell: bool) -> Re
     simple_command.eval();
 
     if in_shell && check_if_builtin(&simple_command.name) {
-        run_builtin(simple_command);
+        with_redirects(simple_command, |command| { run_builtin(command); });
         return Ok(None);
     }
 
@@ -411,6 +412,38 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) -> std:
     Ok(())
 }
 
+/// This function runs a builtin or a function in the shell itself with the redirections of its
+/// command, and undoes them afterwards.
+fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, run: F) {
+    let redirects: Vec<IoRedirect> = {
+        let (prefix, suffix) = command.prefix_suffix();
+        prefix.iter().flat_map(|prefix| prefix.io_redirect.clone())
+            .chain(suffix.iter().flat_map(|suffix| suffix.io_redirect.clone())).collect()
+    };
+
+    let mut saved = Vec::new();
+    for redirect in redirects.iter() {
+        let input = redirect.io_file.as_ref().map_or(false, |file| file.redirect_type == RedirectType::Input);
+        let fd = redirect.io_number.unwrap_or(if input {0} else {1});
+        saved.push((fd, fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(10)).ok()));
+    }
+
+    match eval_redirect(&redirects) {
+        Ok(_) => run(command),
+        Err(err) => {
+            eprintln!("{}", err);
+            set_exit_status(1);
+        }
+    }
+
+    for (fd, copy) in saved.into_iter().rev() {
+        let _ = match copy {
+            Some(copy) => dup2(copy, fd).and(close(copy)),
+            None => close(fd),
+        };
+    }
+}
+
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-- 
2.43.0


From 0e5db543ef0f9997b8e2907fe9494656aa3b098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 30/79] fix: commands are found on the current PATH, or by the
 path they are given as

"./cmd" was only looked for under the PATH directories, an assignment to PATH
had no effect on the lookup, and removing PATH ended the shell.
---
 src/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index d15f066..75a9b5f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -300,7 +300,11 @@ impl ContextManager {
 
     /// Looks up a command in the PATH variable.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
-        for path in self.context_stack.first().unwrap().borrow().get_var("PATH").unwrap().borrow().value.split(":") {
+        if cmd.contains('/') {
+            return Some(cmd.to_string());
+        }
+        let path = self.get_var("PATH")?.borrow().value.clone();
+        for path in path.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
             if metadata.is_ok() {
-- 
2.43.0


From 86ac259dd169bbdfda948ce78c6970b4a41ad6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 31/79] fix: readonly -p prints the readonly variables once

Printing one recursed until the stack overflowed.
---
 src/builtins.rs | 1 -
 src/context.rs  | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index aa27b50..fa4405a 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -526,7 +526,6 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
                     },
                     _ => {},
                 }
-                shell::print_readonly_vars();
             },
             Flags::Function => {
                 shell::print_readonly_functions();
diff --git a/src/context.rs b/src/context.rs
index 75a9b5f..23f5550 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -47,7 +47,7 @@ impl Var {
 }*/
 impl Display for Var {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.to_string())
+        write!(f, "{}={}", self.name, self.value)
     }
 }
 
-- 
2.43.0


From e0aa4513f0f6917e126be4d4d8ecb8a825ca5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 32/79] fix: a readonly variable cannot be changed or removed

readonly X=new, unset X and export X=new all went through, and readonly of a
variable that does not exist ended the shell.
---
 src/builtins.rs | 25 +++++++++++++++++----
 src/context.rs  | 58 +++++++++++++++++++++++++++----------------------
 src/shell.rs    | 36 ++++++++++++++++--------------
 3 files changed, 73 insertions(+), 46 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index fa4405a..5f1205a 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -363,6 +363,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         let mut split = word.splitn(2, '=');
         let key = split.next().unwrap();
         let value = split.next().unwrap();
+        if shell::is_readonly(key) {
+            return Err(readonly_error(word));
+        }
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
     }
@@ -378,7 +381,9 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
 
     for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
-        shell::add_var_context(assignment.as_str());
+        if !shell::add_var_context(assignment.as_str()) {
+            return Err(readonly_error(assignment));
+        }
     }
     Ok(())
 }
@@ -423,6 +428,12 @@ pub fn pwd() -> Result<(), std::io::Error> {
     Ok(())
 }
 
+/// This is the error of changing a readonly variable.
+fn readonly_error(word: &str) -> std::io::Error {
+    let name = word.split('=').next().unwrap();
+    std::io::Error::new(std::io::ErrorKind::Other, format!("{}: readonly variable", name))
+}
+
 enum Flags {
     Variable,
     Function,
@@ -456,7 +467,9 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     match flags {
         Flags::Variable => {
-            shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str());
+            if !shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str()) {
+                return Err(readonly_error(command.suffix.as_ref().unwrap().word[pos].as_str()));
+            }
         },
         Flags::Function => {
             shell::remove_function(command.suffix.as_ref().unwrap().word[pos].as_str());
@@ -546,11 +559,15 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word[pos].as_str().contains('=') {
-        shell::add_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
+        if !shell::add_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str()) {
+            return Err(readonly_error(command.suffix.as_ref().unwrap().word[pos].as_str()));
+        }
         return Ok(());
     }
     
-    shell::set_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
+    if !shell::set_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str()) {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: no such variable"));
+    }
 
 
     Ok(())
diff --git a/src/context.rs b/src/context.rs
index 23f5550..4bf260b 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -136,7 +136,11 @@ impl ContextManager {
     /// Removes a variable from a context.
     /// It will never attempt to remove a variable from an exported context without a namespace.
     /// It will search the Context stack in reverse order for the variable, stopping at the first one it finds.
-    pub fn remove_var(&mut self, name: &str) {
+    /// Returns false if it is readonly.
+    pub fn remove_var(&mut self, name: &str) -> bool {
+        if self.is_readonly(name) {
+            return false;
+        }
         if name.contains("::") {
             let mut split = name.split("::");
             let context_name = split.next().unwrap();
@@ -149,10 +153,11 @@ impl ContextManager {
             for context in self.context_stack.iter().rev() {
                 if context.borrow().get_var(name).is_some() {
                     context.borrow_mut().remove_var(name);
-                    return;
+                    break;
                 }
             }
         }
+        true
     }
 
 
@@ -235,23 +240,32 @@ impl ContextManager {
         self.get_context().borrow_mut().add_function(name, func);
     }
 
-    /// Adds a variable to the current context.
-    pub fn add_var(&mut self, set: &str) {
+    /// Checks if a variable exists and is readonly.
+    pub fn is_readonly(&self, name: &str) -> bool {
+        self.get_var(name).map_or(false, |var| var.borrow().readonly)
+    }
+
+    /// Adds a variable to the current context. Returns false if it is readonly.
+    pub fn add_var(&mut self, set: &str) -> bool {
         let (name, value) = set.split_once('=').unwrap_or((set, ""));
         let var = Var::new(name, value);
 
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
                 if context.borrow().get_var(name).unwrap().borrow().readonly {
-                    return;
+                    return false;
                 }
                 context.borrow_mut().add_var(var);
-                return;
+                return true;
             }
         }
         self.get_context().borrow_mut().add_var(var);
+        true
     }
-    pub fn add_var_readonly(&mut self, set: &str) {
+    pub fn add_var_readonly(&mut self, set: &str) -> bool {
+        if self.is_readonly(set.split("=").next().unwrap()) {
+            return false;
+        }
         if set.contains("::") {
             let mut split = set.split("::");
             let context_name = split.next().unwrap();
@@ -259,7 +273,7 @@ impl ContextManager {
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow_mut().add_var_readonly(var_name);
             }
-            return;
+            return true;
         }
         let mut split = set.split("=");
         let name = split.next().unwrap();
@@ -267,30 +281,22 @@ impl ContextManager {
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
                 context.borrow_mut().add_var_readonly(set);
-                return;
+                return true;
             }
         }
         self.get_context().borrow_mut().add_var_readonly(set);
+        true
     }
 
-    pub fn set_var_readonly(&mut self, name: &str) {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
-            if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().get_var(var_name).unwrap().borrow_mut().readonly = true;
-            }
-            return;
-        }
-        for context in self.context_stack.iter_mut().rev() {
-            let mut var = context.borrow_mut().get_var(name);
-            if var.is_some() {
-                var.unwrap().borrow_mut().readonly = true;
-                return;
-            }
+    /// Makes an existing variable readonly. Returns false if there is none.
+    pub fn set_var_readonly(&mut self, name: &str) -> bool {
+        match self.get_var(name) {
+            Some(var) => {
+                var.borrow_mut().readonly = true;
+                true
+            },
+            None => false,
         }
-        self.get_context().borrow_mut().get_var(name).unwrap().borrow_mut().readonly = true;
     }
 
     /// Adds a variable to a particular context on the stack.
diff --git a/src/shell.rs b/src/shell.rs
index d934372..05d256f 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -274,16 +274,16 @@ impl Shell {
         //self.var_data.add_var(set, position);
     }
     /// This function adds a variable to the current context.
-    pub fn add_var_context(&mut self, set: &str) {
-        self.context_manager.add_var(set);
+    pub fn add_var_context(&mut self, set: &str) -> bool {
+        self.context_manager.add_var(set)
         //let pos = self.var_data.get_current_context_pos();
         //self.var_data.add_var(set, pos);
     }
-    pub fn add_var_readonly(&mut self, set: &str) {
-        self.context_manager.add_var_readonly(set);
+    pub fn add_var_readonly(&mut self, set: &str) -> bool {
+        self.context_manager.add_var_readonly(set)
     }
-    pub fn set_var_readonly(&mut self, var: &str) {
-        self.context_manager.set_var_readonly(var);
+    pub fn set_var_readonly(&mut self, var: &str) -> bool {
+        self.context_manager.set_var_readonly(var)
     }
     pub fn all_readonly_vars(&self) -> BTreeMap<String, Rc<RefCell<crate::context::Var>>> {
         self.context_manager.all_readonly_vars()
@@ -293,8 +293,8 @@ impl Shell {
     }
 
     /// Wrapper to the context manager remove var function.
-    pub fn remove_var(&mut self, var: &str) {
-	self.context_manager.remove_var(var);
+    pub fn remove_var(&mut self, var: &str) -> bool {
+	self.context_manager.remove_var(var)
     }
     /// This function takes in a &str and returns the value of the variable if it exists.
     pub fn expand_variable(&self, var: &str) -> Option<String> {
@@ -621,28 +621,32 @@ pub fn add_var(set: &str, index: usize) {
     let mut shell = SHELL.get().borrow_mut();
     shell.add_var(set, index);
 }
-pub fn add_readonly_var(var: &str) {
+pub fn add_readonly_var(var: &str) -> bool {
     let mut shell = SHELL.get().borrow_mut();
-    shell.add_var_readonly(var);
+    shell.add_var_readonly(var)
 }
-pub fn set_readonly_var(name: &str) {
+pub fn set_readonly_var(name: &str) -> bool {
     let mut shell = SHELL.get().borrow_mut();
-    shell.set_var_readonly(name);
+    shell.set_var_readonly(name)
 }
-pub fn remove_var(var: &str) {
+pub fn remove_var(var: &str) -> bool {
     let mut shell = SHELL.get().borrow_mut();
-    shell.remove_var(var);
+    shell.remove_var(var)
 }
 /// This function adds a variable to the shell at the current context.
-pub fn add_var_context(set: &str) {
+pub fn add_var_context(set: &str) -> bool {
     let mut shell = SHELL.get().borrow_mut();
-    shell.add_var_context(set);
+    shell.add_var_context(set)
 }
 /// This function takes in a variable name and returns the value of that variable if it exists.
 pub fn expand_var(var: &str) -> Option<String> {
     let shell = SHELL.get().borrow();
     shell.expand_variable(var)
 }
+pub fn is_readonly(var: &str) -> bool {
+    let shell = SHELL.get().borrow();
+    shell.context_manager.is_readonly(var)
+}
 pub fn print_readonly_vars() {
     let shell = SHELL.get().borrow();
     shell.all_readonly_vars().iter().for_each(|var| {
-- 
2.43.0


From 8822d4d6c6e74806234edcef2c07bbd5811052e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 33/79] fix: an operand with a dash in it is not an option

"unset -v", "readonly -p" and "exec -c" without more words, and "exec my-cmd",
ended the shell, and "alias ll='ls -p'", "export X=a-p" or "unset a-b" did
something else than what they say.
---
 src/builtins.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 5f1205a..9d240d0 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -221,7 +221,7 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
         shell::display_aliases();
         return Ok(());
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if command.suffix.as_ref().unwrap().word[0] == "-p" {
         shell::display_aliases();
         return Ok(());
     }
@@ -247,7 +247,7 @@ pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().unwrap().word.len() > 1 {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias only takes one argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-a") {
+    if command.suffix.as_ref().unwrap().word[0] == "-a" {
         shell::clear_aliases();
         return Ok(());
     }
@@ -299,7 +299,7 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is a file, it will evaluate the as a new context and export it.
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
         env::vars().for_each(|(key, value)| {
             println!("{}={}", key, value);
         });
@@ -447,7 +447,7 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     let mut flags = Flags::Variable;
     let mut pos = 0;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
 	if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
 	    flags = Flags::Function;
 	    pos = 1;
@@ -465,6 +465,10 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 	}
     }
 
+    if command.suffix.as_ref().unwrap().word.len() == pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
+    }
+
     match flags {
         Flags::Variable => {
             if !shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str()) {
@@ -492,7 +496,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let mut flags = Flags::Variable;
     let mut pos = 0;
     let mut print = false;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
             flags = Flags::Function;
             pos = 1;
@@ -513,7 +517,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word.get(pos).map_or(false, |word| word.starts_with('-')) {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
@@ -587,7 +591,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut rename = false;
     let mut pos = 0;
     
-    if suffix.word[0].contains('-') {
+    if suffix.word[0].starts_with('-') {
         if suffix.word[0].contains('c') {
             empty_env = true;
             pos = 1;
@@ -604,7 +608,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             }
         }
     }
-    if suffix.word[pos].contains('-') {
+    if suffix.word.get(pos).map_or(false, |word| word.starts_with('-')) {
         if suffix.word[pos].contains('c') {
             empty_env = true;
             pos += 1;
@@ -622,6 +626,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
 
+    if suffix.word.len() <= pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
+    }
+
     log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
 
     let mut args = Vec::new();
-- 
2.43.0


From acac162e71a01ea0426c9bc5c9f0b7b01e885e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 34/79] fix: the environment of commands follows the exported
 variables

"export X" did not put X in it, assigning an exported or inherited variable
left the old value there, unset did not remove it, and "export X=new" did not
change an X the shell already had. An empty name ended the shell.
---
 src/builtins.rs | 10 ++++++++--
 src/context.rs  |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 9d240d0..4a28c92 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -17,6 +17,7 @@ use crate::eval;
 use crate::log;
 use crate::context::ContextUtils;
 use crate::context::Context;
+use crate::context::Var;
 use crate::jobs::Process;
 
 use std::rc::Rc;
@@ -355,8 +356,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 }
             }
             else {
-                let temp = format!("{}={}",word,var.unwrap());
-                shell::get_env_context().borrow_mut().add_var(temp.as_str());
+                let var = Var::new(word, &var.unwrap());
+                env::set_var(&var.name, &var.value);
+                shell::get_env_context().borrow_mut().add_var(var);
             }
             continue;//TODO: make this read argument
         }
@@ -366,8 +368,12 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         if shell::is_readonly(key) {
             return Err(readonly_error(word));
         }
+        if key.is_empty() {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, "export: not a variable name"));
+        }
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
+        shell::add_var_context(&format!("{}={}", key, trim(value)));
     }
 
     Ok(())
diff --git a/src/context.rs b/src/context.rs
index 4bf260b..c340974 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -156,6 +156,10 @@ impl ContextManager {
                     break;
                 }
             }
+            if env::var_os(name).is_some() {
+                self.get_env_context().borrow_mut().remove_var(name);
+                env::remove_var(name);
+            }
         }
         true
     }
@@ -256,6 +260,9 @@ impl ContextManager {
                     return false;
                 }
                 context.borrow_mut().add_var(var);
+                if env::var_os(name).is_some() {
+                    env::set_var(name, value);
+                }
                 return true;
             }
         }
-- 
2.43.0


From e644f2964f1d3ea20c052bfa1d2cb52f1c88d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 35/79] fix: an environment variable that is not UTF-8 does not
 end the shell

---
 src/builtins.rs | 7 ++++---
 src/context.rs  | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 4a28c92..857cdee 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -11,6 +11,7 @@ use nix::sys::signal::kill;
 use nix::sys::signal::Signal;
 use nix::sys::wait::WaitStatus;
 use std::ffi::CString;
+use std::os::unix::ffi::OsStrExt;
 use crate::jobs;
 use crate::trap;
 use crate::eval;
@@ -301,8 +302,8 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
-        env::vars().for_each(|(key, value)| {
-            println!("{}={}", key, value);
+        env::vars_os().for_each(|(key, value)| {
+            println!("{}={}", key.to_string_lossy(), value.to_string_lossy());
         });
         return Ok(());
     }
@@ -676,7 +677,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         Vec::new()
     }
     else {
-        env::vars().map(|(k, v)| CString::new(k + "=" + &v).unwrap()).collect()
+        env::vars_os().map(|(k, v)| CString::new([k.as_bytes(), b"=", v.as_bytes()].concat()).unwrap()).collect()
     };
 
     
diff --git a/src/context.rs b/src/context.rs
index c340974..fec20c0 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -379,8 +379,9 @@ impl ContextManager {
     /// Converts the environment variables into a HashMap of variables.
     fn convert_env() -> HashMap<String, Rc<RefCell<Var>>> {
         let mut vars = HashMap::new();
-        for (key, value) in std::env::vars() {
-            vars.insert(key.clone(), Rc::new(RefCell::new(Var::new(&key, &value))));
+        for (key, value) in std::env::vars_os() {
+            let (Some(key), Some(value)) = (key.to_str(), value.to_str()) else { continue };
+            vars.insert(key.to_string(), Rc::new(RefCell::new(Var::new(key, value))));
         }
         vars
     }
-- 
2.43.0


From 09f77c98604830250bcabae2c4a937b4cab119b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 36/79] fix: the command line is not printed, and may contain
 an empty argument

Every argument was written to standard output before anything ran, and an
empty one ended the shell.
---
 src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a7e4f64..3d813ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,8 +105,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
     let mut pos = 0;
 
     for arg in args.iter() {
-            println!("arg: {}", arg);
-        if arg.chars().nth(0).unwrap() == '-' && !non_interactive_mode {
+        if arg.starts_with('-') && !non_interactive_mode {
             read_from_args = parse_dash_arg(&arg);
             if read_from_args {
                 break;
@@ -133,8 +132,6 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 
         args.drain(0..=pos);
 
-        println!("{:?}", args);
-
         let output = args.join(" ");
 
         return Some(output);
-- 
2.43.0


From e2a2da8a5cfbf5cd17d247d23cd84a1afdfa545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 37/79] fix: a script ends at its end

The shell kept reading at the end of the file, without end.
---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3d813ec..85d7c1c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -252,8 +252,9 @@ fn script_loop(script_name: &str) {
     loop {
 
         let mut input = String::new();
-        buf_reader.read_line(&mut input).unwrap();
-
+        if buf_reader.read_line(&mut input).unwrap() == 0 {
+            break;
+        }
 
         let lexer = Lexer::new(&input);        
         let mut ast = grammar::CompleteCommandParser::new()
-- 
2.43.0


From 68ff552c9a8ad32ab9102fdccbdda3a963ab2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 38/79] fix: the shell exits with the status of the last
 command

It always exited with 0 at the end of a script, of -c and of its input, and a
line that does not parse, or a script that cannot be read, ended it by a panic.
---
 src/main.rs | 55 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 85d7c1c..1b746ee 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -83,6 +83,7 @@ fn main() {
         script_loop(&shell::get_script_name());
     }
 
+    std::process::exit(eval::get_exit_code());
 }
 
 /// This function reads the commandline arguments passed into the shell and parses them.
@@ -218,6 +219,7 @@ fn interactive_loop() {
                 Ok(ast) => ast,
                 Err(err) => {
                     println!("Error: {:?}", err);
+                    eval::set_exit_status(2);
                     continue;
                 }
             };
@@ -230,6 +232,7 @@ fn interactive_loop() {
             Ok(_) => {},
             Err(err) => {
                 println!("{}", err);
+                eval::set_exit_status(1);
             }
         }
 
@@ -247,21 +250,42 @@ fn interactive_loop() {
 /// This function takes a file name and puts the contents of the file into a buffer.
 /// The buffer is then passed into the parser and evaluated.
 fn script_loop(script_name: &str) {
-    let file = File::open(script_name).unwrap();
+    let file = match File::open(script_name) {
+        Ok(file) => file,
+        Err(err) => {
+            eprintln!("{}: {}", script_name, err);
+            std::process::exit(127);
+        }
+    };
     let mut buf_reader = BufReader::new(file);
     loop {
 
         let mut input = String::new();
-        if buf_reader.read_line(&mut input).unwrap() == 0 {
-            break;
+        match buf_reader.read_line(&mut input) {
+            Ok(0) => break,
+            Ok(_) => {},
+            Err(err) => {
+                eprintln!("{}: {}", script_name, err);
+                eval::set_exit_status(2);
+                break;
+            }
         }
 
         let lexer = Lexer::new(&input);        
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&input,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&input,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    eprintln!("Error: {:?}", err);
+                    eval::set_exit_status(2);
+                    continue;
+                }
+            };
 
-        let _result = eval::eval(&mut ast);
+        if let Err(err) = eval::eval(&mut ast) {
+            eprintln!("{}", err);
+            eval::set_exit_status(1);
+        }
 
     }
 }
@@ -269,11 +293,20 @@ fn script_loop(script_name: &str) {
 /// This function takes in the commandline arguments as a &str and evaluates it.
 fn read_from_args(input: &str) {
     let lexer = Lexer::new(&input);        
-    let mut ast = grammar::CompleteCommandParser::new()
-        .parse(&input,lexer)
-        .unwrap();
+    let mut ast = match grammar::CompleteCommandParser::new()
+        .parse(&input,lexer) {
+            Ok(ast) => ast,
+            Err(err) => {
+                eprintln!("Error: {:?}", err);
+                eval::set_exit_status(2);
+                return;
+            }
+        };
 
-    let _result = eval::eval(&mut ast);
+    if let Err(err) = eval::eval(&mut ast) {
+        eprintln!("{}", err);
+        eval::set_exit_status(1);
+    }
 }
 
 
-- 
2.43.0


From 272600461c5c348f474f16306db87d38512166bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 39/79] fix: a NUL in a line does not end the shell

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1b746ee..16d59d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -188,7 +188,7 @@ fn interactive_loop() {
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
-                input = line;
+                input = line.replace('\0', "");
             },
             Err(ReadlineError::Interrupted) => {
                 continue;
@@ -271,6 +271,7 @@ fn script_loop(script_name: &str) {
             }
         }
 
+        let input = input.replace('\0', "");
         let lexer = Lexer::new(&input);        
         let mut ast = match grammar::CompleteCommandParser::new()
             .parse(&input,lexer) {
-- 
2.43.0


From d3efbf30a569edde945337d6b7a5e8444b5da550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 40/79] fix: unset PS1 and unset PS4 do not end the shell

---
 src/jobs.rs | 8 ++++----
 src/main.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index b1da460..180f6d9 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -252,7 +252,7 @@ impl Display for JobControl {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap(), job.borrow()));
+            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         }
         write!(f, "{}", s)
     }
@@ -676,14 +676,14 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             if dump {
                 output.push_str(&format!("({}) (core dumped)", signal));
             }
@@ -696,7 +696,7 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             output.push_str(&format!("({})", signal));
         },
         _ => return None,
diff --git a/src/main.rs b/src/main.rs
index 16d59d0..046cf83 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -184,7 +184,7 @@ fn interactive_loop() {
     loop {
         let input;
 
-        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
+        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap_or_default().as_str());
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
-- 
2.43.0


From c61848317a9a779f4f249a6d8d43e76460592b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 41/79] fix: a current directory that was removed and a sourced
 file that is not text do not end the shell

---
 src/builtins.rs | 4 ++--
 src/context.rs  | 2 +-
 src/shell.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 857cdee..6cbb651 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -430,7 +430,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'pwd' command of the shell.
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
-    let path = env::current_dir().unwrap();
+    let path = env::current_dir()?;
     println!("{}", path.display());
     Ok(())
 }
@@ -733,7 +733,7 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut file = file.unwrap();
 
     let mut contents = String::new();
-    file.read_to_string(&mut contents).unwrap();
+    file.read_to_string(&mut contents)?;
 
     let mut lexer = Lexer::new(contents.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(contents.as_str(),lexer) {
diff --git a/src/context.rs b/src/context.rs
index fec20c0..c7c8642 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -415,7 +415,7 @@ impl Default for ContextManager {
             vars.insert("PATH".to_owned(), Rc::new(RefCell::new(Var::new("PATH", "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))));
         }
         if env::var("PWD").is_err() {//TODO: Change this to use a nix function that will be more reliable
-            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", nix::unistd::getcwd().unwrap().to_str().unwrap()))));
+            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", &nix::unistd::getcwd().unwrap_or_default().to_string_lossy()))));
         }
         vars.insert("PS1".to_owned(), Rc::new(RefCell::new(Var::new("PS1", ps1))));
         vars.insert("PS2".to_owned(), Rc::new(RefCell::new(Var::new("PS2", "> "))));
diff --git a/src/shell.rs b/src/shell.rs
index 05d256f..ce79d93 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -124,7 +124,7 @@ impl Shell {
             interactive: true,
             //var_data: VarData::new(),
             curr_directory: String::new(),
-            physical_directory: getcwd().unwrap(),
+            physical_directory: getcwd().unwrap_or_default(),
             jobctl: false,
             job_warning: 0,
             background_pid: Pid::from_raw(-1),
-- 
2.43.0


From fea89b3da0441bc77d70230d655bcef3a4335993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 42/79] fix: eval evaluates all its arguments

"eval echo a" ran "echo" and dropped the rest.
---
 src/builtins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 6cbb651..903006a 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -405,7 +405,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
 
 
-    let string = command.suffix.as_ref().unwrap().word[0].as_str().to_string() + "\n";
+    let string = command.suffix.as_ref().unwrap().word.join(" ") + "\n";
     
     let mut lexer = Lexer::new(string.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(string.as_str(),lexer) {
-- 
2.43.0


From 55145f5c931f8f11f3129c3caae0cbd2caef15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 43/79] fix: export context FILE reads FILE

It read a file called "context", and a file that failed left its context on
the stack.
---
 src/builtins.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 903006a..f53ce1c 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -280,13 +280,14 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 
     shell::push_context_new();
 
-    match eval::eval(&mut ast) {
+    let result = eval::eval(&mut ast);
+    let context = shell::pop_context().unwrap();
+    match result {
         Ok(_) => {},
         Err(e) => {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)));
         }
     }
-    let context = shell::pop_context().unwrap();
     Ok(context)
 }
 
@@ -340,8 +341,8 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 return Ok(());
             }
             else {
-                let result = create_context_from_file(suffix.word[0].as_str())?;
-                shell::add_context(suffix.word[0].as_str(), result);
+                let result = create_context_from_file(suffix.word[1].as_str())?;
+                shell::add_context(suffix.word[1].as_str(), result);
             }
         }
         return Ok(());
-- 
2.43.0


From d256ceb197dad5d1faef6b6bb85549f2a15828d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 44/79] fix: export context self in a context without a name
 does not end the shell

---
 src/builtins.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index f53ce1c..a9417d6 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -335,7 +335,10 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             if suffix.word[1].as_str() == "self" {
                 let context = shell::get_current_context();
                 let namespace = {
-                    context.borrow().get_var("0").unwrap().borrow().value.clone()
+                    match context.borrow().get_var("0") {
+                        Some(var) => var.borrow().value.clone(),
+                        None => return Err(std::io::Error::new(std::io::ErrorKind::Other, "export context: no name for this context")),
+                    }
                 };
                 shell::add_context(&namespace, context);
                 return Ok(());
-- 
2.43.0


From 08f30b53e30a5782373c0cf0607eec2da93d0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 45/79] fix: a quote that is not closed is an error

The text was taken as a word and lost its last character.
---
 src/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 4e0943d..d9504a4 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -318,11 +318,17 @@ impl<'input> Lexer<'input> {
 
     fn single_quote(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
         let (word, end) = self.take_until_alt(start, end, |c| c == '\'');
+        if word.len() < 2 || !word.ends_with('\'') {
+            return Err(Error::UnrecognizedChar(start, '\'', end));
+        }
         //self.advance();
         Ok((start, Token::Word(&word[0..]), end))
     }
     fn double_quote(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
         let (word, end) = self.take_until_alt(start, end, |c| c == '"');
+        if word.len() < 2 || !word.ends_with('"') {
+            return Err(Error::UnrecognizedChar(start, '"', end));
+        }
         //self.advance();
         Ok((start, Token::Word(&word[0..]), end))
     }
-- 
2.43.0


From fbb4d3846fa546e3f54cff6889d287de784b5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 46/79] fix: aliases and command variables are split at any
 white space outside quotes

Two blanks in a row made an empty argument, a blank of more than one byte
ended the shell, and a quoted argument of an alias was split and cut.
---
 src/ast.rs   | 6 ++++--
 src/shell.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 891b900..6ec8369 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -224,8 +224,10 @@ impl SplitWhitespaceIgnoringQuotes for str {
                         quote_type = QuoteType::Double;
                     } else if c.is_whitespace() {
                         end = i;
-                        splits.push(&self[start..end]);
-                        start = i + 1;
+                        if start < end {
+                            splits.push(&self[start..end]);
+                        }
+                        start = i + c.len_utf8();
                     }
                 }
                 QuoteType::Single => {
diff --git a/src/shell.rs b/src/shell.rs
index ce79d93..2c0280e 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -14,7 +14,7 @@ use rustyline::Editor;
 use rustyline::history::FileHistory;
 use rustyline::config;
 use crate::var::{VarData, VarDataUtils};
-use crate::ast::FunctionBody;
+use crate::ast::{FunctionBody, SplitWhitespaceIgnoringQuotes};
 use crate::context::{ContextManager, Context};
 use crate::completion::CompletionHelper;
 
@@ -175,7 +175,7 @@ impl Shell {
         match self.aliases.get(command) {
             None => None,
             Some(alias) => {
-                let mut args = alias.split_whitespace();
+                let mut args = alias.split_whitespace_ig_qts().into_iter();
                 let command = args.next()?;
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
-- 
2.43.0


From b4481b59e2f073df63f763c8b125a47bf21c5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 47/79] fix: children are waited for outside of the SIGCHLD
 handler

The handler used the shell's data while the shell was using it, which ended
the shell, waited for only one child per signal, blocked until the other
processes of a background pipeline ended, and left jobs that ended during a
foreground command in the table for ever.
---
 src/eval.rs  |  2 ++
 src/jobs.rs  | 54 ++++++++++++++++++++----------------------
 src/shell.rs |  6 +++++
 src/trap.rs  | 66 +---------------------------------------------------
 4 files changed, 34 insertions(+), 94 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index e4ad41c..6cda1f2 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -145,6 +145,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
     // a stage of a pipeline and a background command do not run in the shell itself
     let in_shell = pipeline.0.len() == 1 && !background;
 
+    jobs::reap();
+
     //block interrupts
     trap::interrupts_off();
     for command in pipeline.iter_mut() {
diff --git a/src/jobs.rs b/src/jobs.rs
index 180f6d9..bd9edb9 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -405,31 +405,11 @@ impl Display for Job {
 
 //pub fn forkshell()
 
-/// This function waits for a job to finish.
-///
-/// This variant of the function is similar to to wait_for_job but also takes in a WaitStatus.
-/// This is called from a SIGCHLD handler as we need to to know the if the job only has one process or not.
-/// If the job has more than one process then we call the normal wait_for_job function.
-pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -> WaitStatus {
-
-    if job.is_none() {
-        return status;
-    }
-    let job = job.unwrap();
-
-    if job.borrow().processes.len() == 1 {
-        job.borrow_mut().stop_status = status;
-        job.borrow_mut().state = JobState::Finished;
-        let id = {
-            job.borrow().job_id
-        };
-        shell::delete_job(id);
-        return status;
-    }
-    trap::interrupts_off();
-    let result = wait_for_job(Some(job));
-    trap::interrupts_on();
-    result
+/// This function takes note of the children that ended or stopped since the last call, without
+/// waiting for any other, and removes the jobs that have finished.
+pub fn reap() {
+    while let Ok(Some(_)) = wait_one(DOWAIT_NONBLOCK, &None) {}
+    shell::clear_completed_jobs();
 }
 
 /// This function waits for a job to finish.
@@ -472,13 +452,18 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
     // block interapt
     trap::interrupts_off();
 
-    let result = wait_process(block)?;
-
+    let result = match wait_process(block) {
+        Ok(result) => result,
+        Err(err) => {
+            trap::interrupts_on();
+            return Err(err);
+        }
+    };
 
     if result.pid().is_none() {
         // unblock interupt
         trap::interrupts_on();
-        if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
+        if this_job.is_some() && this_job == *job {
 
             let output = format_status(result, true);
 
@@ -555,7 +540,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
     // unblock interupts
     trap::interrupts_on();
 
-    if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
+    if this_job.is_some() && this_job == *job {
 
         let output = format_status(result, true);
 
@@ -564,6 +549,17 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         }
 
     }
+    else if let Some(job) = this_job {
+        match status {
+            WaitStatus::Signaled(_, _, _) => {
+                println!("Job [{}] ({}) terminated by signal", job.borrow().job_id, pid);
+            },
+            WaitStatus::Stopped(_, _) => {
+                println!("Job [{}] ({}) stopped by signal", job.borrow().job_id, pid);
+            },
+            _ => {},
+        }
+    }
     return Ok(Some(pid));
 }
 
diff --git a/src/shell.rs b/src/shell.rs
index 2c0280e..967021d 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -495,6 +495,12 @@ where
     trap::interrupts_on();
 }
 
+/// This function removes the jobs that have finished.
+pub fn clear_completed_jobs() {
+    let mut shell = SHELL.get().borrow_mut();
+    shell.job_control.clear_completed_jobs();
+}
+
 /// This function returns a string that contains all the jobs in the shell.
 pub fn display_jobs() -> String {
     let shell = SHELL.get().borrow();
diff --git a/src/trap.rs b/src/trap.rs
index 0d22b4c..b777335 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -186,13 +186,9 @@ extern "C" fn on_sig(sig_num: c_int) {
     }
     unsafe {
         if sig_num == signal::SIGCHLD as c_int {
+            // the children are waited for by jobs::reap, outside of the handler
             GOT_SIGCHLD.store(true, Ordering::Relaxed);
 
-            sig_chld();
-            
-            
-
-            //sig_chld();//this is different from how dash does it but it should allow for for traps to be set
             if !is_trap_set(signal::SIGCHLD) {
                 return;
             }
@@ -217,66 +213,6 @@ extern "C" fn on_sig(sig_num: c_int) {
     }
 }
 
-/// This is the signal handler for SIGCHLD.
-///
-/// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
-/// If the process is in the background then we can wait on it.
-fn sig_chld() {
-    let pid = Pid::from_raw(-1);
-
-    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
-    let result = waitpid(pid, Some(flag));
-    if result.is_err() {
-        return;
-    }
-    let status = result.unwrap();
-    let pid;
-    let status = match &status {
-        WaitStatus::Exited(id, _) => {
-            pid = id;
-            status
-        },
-        WaitStatus::Signaled(id, _, _) => {
-            pid = id;
-            status
-        },
-        WaitStatus::Stopped(id, _) => {
-            pid = id;
-            status
-        },
-        WaitStatus::StillAlive => {
-            return;
-        },
-        _ => {
-            return;
-        }, 
-    };
-
-    let job = shell::get_job(*pid);
-    if job.is_none() {
-        return;
-    }
-    job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
-   
-    if job.as_ref().unwrap().borrow().background {
-        match status {
-            WaitStatus::Signaled(_, _, _) => {
-                let msg = format!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
-            },
-            WaitStatus::Stopped(_, _) => {
-                let msg = format!("Job [{}] ({}) stopped by signal",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
-            },
-            _ => {},
-        }
-        
-        jobs::wait_for_job_sigchld(job, status);
-    }
-}
-
 /// This functions is called if the signal was a SIGINT.
 pub fn on_sigint() {
     unsafe {
-- 
2.43.0


From 72fae4c11d5a5e73902b15a68045487fb540bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 48/79] fix: SIGINT does not end a shell whose input cannot be
 written to

---
 src/trap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trap.rs b/src/trap.rs
index b777335..2add549 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -201,7 +201,7 @@ extern "C" fn on_sig(sig_num: c_int) {
 
 
     if sig_num == signal::SIGINT as c_int && !is_trap_set(signal::SIGINT) {
-        nix::unistd::write(0,&[0xA as u8]).unwrap();
+        let _ = nix::unistd::write(1,&[0xA as u8]);
         //io::stdin().read_line(&mut String::new()).unwrap();
         unsafe {
             if !SUPRESS_SIGINT.load(Ordering::Relaxed) {
-- 
2.43.0


From 0554010a659a61d6cf040c3cf85fcca379a96bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 49/79] fix: commands start with the default action for SIGPIPE

It was ignored in them, so a command whose reader had ended went on.
---
 src/trap.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trap.rs b/src/trap.rs
index 2add549..689bcc8 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -394,6 +394,8 @@ pub fn remove_handlers() {
         signal::sigaction(Signal::SIGTTIN, &sig_action).unwrap();
         signal::sigaction(Signal::SIGTTOU, &sig_action).unwrap();
         signal::sigaction(Signal::SIGCHLD, &sig_action).unwrap();
+        // ignored by the Rust runtime
+        signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
     }
 }
 
-- 
2.43.0


From 048a04ae1e35f127da2353fc8fa2cc972fb1410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 50/79] fix: an exec that fails leaves the signal handlers of
 the shell

SIGINT and SIGTSTP then ended or stopped it.
---
 src/eval.rs | 8 ++++++--
 src/trap.rs | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 6cda1f2..58e7da0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -7,6 +7,7 @@ use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
 use nix::sys::wait::WaitStatus;
+use nix::sys::signal::SigHandler;
 use std::fs::{File, OpenOptions};
 use std::os::unix::io::{AsRawFd, IntoRawFd};
 use nix::fcntl::{fcntl, FcntlArg, FdFlag};
@@ -712,8 +713,6 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
     //
     //set assignments
   
-    jobs::fork_reset();
-
     let argv0 = match shell::lookup_command(&process.argv0) {
         Some(cmd) => cmd,
         None => {
@@ -724,11 +723,16 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
     let command = CString::new(argv0).unwrap();
 
 
+    // the handlers themselves are reset by execve
+    trap::interrupts_on();
+    trap::set_sigpipe(SigHandler::SigDfl);
+
     match nix::unistd::execve(&command, &process.argv, &env) {
         Ok(_) => {
             unreachable!();
         },
         Err(e) => {
+            trap::set_sigpipe(SigHandler::SigIgn);
             return Err(format!("Failed to execute: {}", e));
         }
     }
diff --git a/src/trap.rs b/src/trap.rs
index 689bcc8..9465de1 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -370,6 +370,13 @@ pub fn sig_suspend(mask: &signal::SigSet) {
     }*/
 }
 
+/// This function sets the action for SIGPIPE
+pub fn set_sigpipe(sig_handler: signal::SigHandler) {
+    unsafe {
+        signal::signal(Signal::SIGPIPE, sig_handler).unwrap();
+    }
+}
+
 /// This function removes all signal handlers
 /// however it is not complete
 /// # Todo
-- 
2.43.0


From 3783bbcba90a9e9670b0f12e5aebde00f041d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 51/79] fix: calling a function does not use up a job number

---
 src/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 58e7da0..749c184 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -199,6 +199,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
         }
     }
 
+    if processes.is_empty() {
+        trap::interrupts_on();
+        return Ok(get_exit_code());
+    }
+
     
 
     let proc_count;
-- 
2.43.0


From ff857e88095f8e839705473c818477203e861c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 52/79] fix: exit saves the history only in the interactive
 shell itself

In a script it complained, and in a command substitution the complaint became
part of the result.
---
 src/ast.rs      | 1 +
 src/builtins.rs | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6ec8369..8849568 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -405,6 +405,7 @@ impl SimpleCommand {
                 String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
+                shell::set_forked(true);
                 nix::unistd::dup2(pip.1, 1).unwrap();
                 nix::unistd::dup2(pip.1, 2).unwrap();
                 nix::unistd::close(pip.1).unwrap();
diff --git a/src/builtins.rs b/src/builtins.rs
index a9417d6..df35d94 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -69,7 +69,9 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// By default it will exit with a status code of 0, but if the user specifies a status code
 /// it will exit with that status code.
 pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    shell::save_history();
+    if shell::is_interactive() && !shell::get_forked() {
+        shell::save_history();
+    }
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         let exit_code = eval::get_exit_code();
         exit(exit_code);
-- 
2.43.0


From b06b37f0852872dfdf8bfc835bc0e4375d2f80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 53/79] fix: return ends the function

The commands after it in the body were run as well.
---
 src/builtins.rs |  2 ++
 src/eval.rs     | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index df35d94..ab6d563 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -90,6 +90,7 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'number'.
 pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
+        eval::return_from_function();
         return Ok(());
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
@@ -98,6 +99,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
         .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, format!("{}: numeric argument required", command.name)))?;
 
     eval::set_exit_status(code);
+    eval::return_from_function();
     Ok(())
 }
 
diff --git a/src/eval.rs b/src/eval.rs
index 749c184..a2ea28b 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -12,7 +12,7 @@ use std::fs::{File, OpenOptions};
 use std::os::unix::io::{AsRawFd, IntoRawFd};
 use nix::fcntl::{fcntl, FcntlArg, FdFlag};
 use std::env;
-use std::sync::atomic::{AtomicI32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
 use crate::log;
 use crate::context::{ContextUtils, Var};
 
@@ -22,6 +22,16 @@ use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pi
 /// Stores the exit status of the last command
 pub static mut EXIT_STATUS: AtomicI32 = AtomicI32::new(0);
 
+/// How many calls of functions are being evaluated
+static CALL_DEPTH: AtomicI32 = AtomicI32::new(0);
+/// Whether the function being evaluated has been returned from
+static RETURNING: AtomicBool = AtomicBool::new(false);
+
+/// makes the function being evaluated, if there is one, end
+pub fn return_from_function() {
+    RETURNING.store(CALL_DEPTH.load(Ordering::Relaxed) > 0, Ordering::Relaxed);
+}
+
 /// gets the exit status of the last command
 pub fn get_exit_status() -> WaitStatus {
     unsafe {
@@ -77,6 +87,9 @@ fn parse_tree(list: &mut Vec<AndOr>) -> Result<i32,String> {
     for and_or in list.iter_mut() {
 
         status = eval_and_or(and_or)?;
+        if RETURNING.load(Ordering::Relaxed) {
+            break;
+        }
     } 
 
     Ok(status)
@@ -94,6 +107,9 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
     }
     else {
         let status = eval_and_or(and_or.and_or.as_mut().unwrap())?;
+        if RETURNING.load(Ordering::Relaxed) {
+            return Ok(status);
+        }
         match and_or.conditional_exec {
             Some(ConditionalExec::And) => {
                 if status != 0 {
@@ -643,7 +659,10 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
 
     let mut function = function.unwrap().borrow().clone();
 
+    CALL_DEPTH.fetch_add(1, Ordering::Relaxed);
     eval_compound_command(&mut function.compound_command);
+    CALL_DEPTH.fetch_sub(1, Ordering::Relaxed);
+    RETURNING.store(false, Ordering::Relaxed);
     shell::pop_context();
 
     Ok(0)//todo: change this to return the right exit code
-- 
2.43.0


From 0f65ca25a3563bed67aa84e62021b882e917dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 54/79] fix: no message about a command ended by SIGPIPE

---
 src/jobs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jobs.rs b/src/jobs.rs
index bd9edb9..5683ba5 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -674,6 +674,8 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
             };
             output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
+        // not worth a message, the reader has just ended first
+        WaitStatus::Signaled(_, signal::Signal::SIGPIPE, _) if sig_only => return None,
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
-- 
2.43.0


From 9f5ac6455ae1e17aaa63901b9c141c827e353613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 55/79] fix: comments, blank lines and a ; at the end of a line
 in scripts

A sourced file with a comment or blank line that was not at its end, and a
script line ending in ; did not parse.
---
 src/grammar.lalrpop | 1 +
 src/lexer.rs        | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index 07df683..66aa264 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -52,6 +52,7 @@ extern {
 
 pub CompleteCommand: ast::CompleteCommand = {
     <sep:Separator> <lst:List> => ast::CompleteCommand{list: Some(lst)},
+    <sep:Separator> <lst:List> <sep2:Separator> => ast::CompleteCommand{list: Some(lst)},
     <lst:List> <sep:Separator> => ast::CompleteCommand{list: Some(lst)},
     <lst:List> => ast::CompleteCommand{list: Some(lst)},
     <sep:Separator> => ast::CompleteCommand{list: None},
diff --git a/src/lexer.rs b/src/lexer.rs
index d9504a4..cb10f6d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -152,7 +152,7 @@ impl<'input> Iterator for Lexer<'input> {
             //eprintln!("{}: {}", start, chr);
             let token = match chr {
                 '\n' => Some(self.newline_list(start, end)),
-                ';' => Some(Ok((start, Token::SemiColon, end))),
+                ';' => Some(self.newline_list(start, end).map(|_| (start, Token::SemiColon, end))),
                 '|' => {
                     match self.lookahead {
                         Some((_, '|', _)) => {
@@ -355,7 +355,12 @@ impl<'input> Lexer<'input> {
         while let Some((_, chr, _)) = self.lookahead {
             //eprintln!("chr: {}", chr);
             match chr {
-                '\n' => self.advance(),
+                '#' => {
+                    self.take_until(start, end, |c| c == '\n');
+                },
+                chr if chr.is_whitespace() => {
+                    self.advance();
+                },
                 _ => break,
             };
         }
-- 
2.43.0


From a2fbbbf5be881a71d2a77eaab302b2bce35ab8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 56/79] fix: the value of a name=value argument is expanded

"export X=$Y" exported the text $Y, and quotes were only removed by some of
the builtins, and from the arguments of a script as well.
---
 src/ast.rs      | 3 +++
 src/builtins.rs | 4 ++--
 src/context.rs  | 4 ++--
 src/shell.rs    | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8849568..c5bbc7d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -613,6 +613,9 @@ impl SimpleCommand {
                     Self::cut_quotes(&mut new_word);
                     new_words.push(new_word);
                 }
+                else if let Some((var, val)) = word.split_once('=') {
+                    new_words.push(format!("{}={}", var, Self::expand_word(val)));
+                }
                 else {
                     new_words.push(Self::expand_word(word));
                 }
diff --git a/src/builtins.rs b/src/builtins.rs
index ab6d563..ef8c772 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -381,8 +381,8 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "export: not a variable name"));
         }
         shell::add_var(word,0);
-        env::set_var(key, &trim(value));
-        shell::add_var_context(&format!("{}={}", key, trim(value)));
+        env::set_var(key, value);
+        shell::add_var_context(&format!("{}={}", key, value));
     }
 
     Ok(())
diff --git a/src/context.rs b/src/context.rs
index c7c8642..8721315 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -542,7 +542,7 @@ impl ContextUtils<&str> for Context {
             (var, "")
         };
 
-        let var_struct = Var::new(name, &Self::trim(value));
+        let var_struct = Var::new(name, value);
 
 
         self.add_var(var_struct);
@@ -556,7 +556,7 @@ impl ContextUtils<&str> for Context {
             (var, "")
         };
 
-        let mut var_struct = Var::new(name, &Self::trim(value));
+        let mut var_struct = Var::new(name, value);
 
         var_struct.readonly = true;
         
diff --git a/src/shell.rs b/src/shell.rs
index 967021d..20431d7 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -388,7 +388,7 @@ impl ShellAliasUtils<&str> for Shell {
             eprintln!("Invalid alias");
             return;
         }
-        self.aliases.insert(split[0].to_string(), Self::trim(split[1]));
+        self.aliases.insert(split[0].to_string(), split[1].to_string());
     }
 }
 
-- 
2.43.0


From cb7d7a3c8f5c87746a615f7ddb1bbbebd35839ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 57/79] fix: exporting a readonly variable leaves it readonly

readonly X; export X; X=2 changed X.
---
 src/builtins.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index ef8c772..1e6c0f6 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -365,7 +365,8 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 }
             }
             else {
-                let var = Var::new(word, &var.unwrap());
+                let mut var = Var::new(word, &var.unwrap());
+                var.readonly = shell::is_readonly(word);
                 env::set_var(&var.name, &var.value);
                 shell::get_env_context().borrow_mut().add_var(var);
             }
-- 
2.43.0


From 69ced8c6d61a43416c8e5024b34d6378ff08e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 58/79] fix: readonly with a value that has :: in it

readonly X=a::b did nothing.
---
 src/context.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 8721315..d3f6421 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -273,10 +273,8 @@ impl ContextManager {
         if self.is_readonly(set.split("=").next().unwrap()) {
             return false;
         }
-        if set.contains("::") {
-            let mut split = set.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
+        if set.split("=").next().unwrap().contains("::") {
+            let (context_name, var_name) = set.split_once("::").unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow_mut().add_var_readonly(var_name);
             }
-- 
2.43.0


From 2e2d42066dfb695b01f6d08c329bee482ef53fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 59/79] fix: output that cannot be written does not end the
 shell

"pwd > /dev/full" and "nosuch 2> /dev/full" panicked.
---
 src/ast.rs      |  2 +-
 src/builtins.rs | 30 ++++++++++++------------------
 src/context.rs  |  2 +-
 src/eval.rs     | 14 +++++++-------
 src/jobs.rs     |  8 ++++----
 src/log.rs      | 24 +++++++++++++++++++++++-
 src/main.rs     | 30 +++++++++++++++---------------
 src/shell.rs    | 36 +++++++++++++++++++-----------------
 8 files changed, 82 insertions(+), 64 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index c5bbc7d..4597f94 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -388,7 +388,7 @@ impl SimpleCommand {
         let mut ast = match grammar::CompleteCommandParser::new().parse(&subshell,lexer) {
             Ok(ast) => ast,
             Err(err) => {
-                eprintln!("Error: {:?}", err);
+                crate::message!("Error: {:?}", err);
                 return String::new();
             }
         };
diff --git a/src/builtins.rs b/src/builtins.rs
index 1e6c0f6..13e9959 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -106,9 +106,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'jobs' command of the shell.
 /// It prints out all of the jobs that are currently running.
 pub fn jobs() -> Result<(), std::io::Error> {
-    print!("{}", shell::display_jobs());
-    io::stdout().flush().unwrap();
-    Ok(())
+    crate::log::write_fd(1, &shell::display_jobs())
 }
 
 /// This is the 'fg' and 'bg' commands of the shell.
@@ -175,7 +173,7 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
         }
         kill(process.pid, Signal::SIGCONT).ok();
     }
-    println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
+    let _ = crate::output!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
     eval::set_wait_status(jobs::wait_for_job(job));
     Ok(())
@@ -212,7 +210,7 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
         kill(process.pid, Signal::SIGCONT).ok();
     }
 
-    println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
+    let _ = crate::output!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
     Ok(())
 }
@@ -224,12 +222,10 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().map_or(true, |s| s.word.is_empty()) {
-        shell::display_aliases();
-        return Ok(());
+        return shell::display_aliases();
     }
     if command.suffix.as_ref().unwrap().word[0] == "-p" {
-        shell::display_aliases();
-        return Ok(());
+        return shell::display_aliases();
     }
     
     for word in command.suffix.as_ref().unwrap().word.iter() {
@@ -307,10 +303,9 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
-        env::vars_os().for_each(|(key, value)| {
-            println!("{}={}", key.to_string_lossy(), value.to_string_lossy());
+        return env::vars_os().try_for_each(|(key, value)| {
+            crate::output!("{}={}", key.to_string_lossy(), value.to_string_lossy())
         });
-        return Ok(());
     }
 
     let suffix = command.suffix.as_ref().unwrap();
@@ -440,8 +435,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
     let path = env::current_dir()?;
-    println!("{}", path.display());
-    Ok(())
+    crate::output!("{}", path.display())
 }
 
 /// This is the error of changing a readonly variable.
@@ -549,19 +543,19 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             Flags::Variable | Flags::Context => {
                 match flags {
                     Flags::Variable => {
-                        shell::print_readonly_vars();
+                        shell::print_readonly_vars()?;
                     },
                     Flags::Context => {
                         if command.suffix.as_ref().unwrap().word.len() == pos {
                             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
                         }
-                        shell::print_readonly_vars_context(command.suffix.as_ref().unwrap().word[pos].as_str());
+                        shell::print_readonly_vars_context(command.suffix.as_ref().unwrap().word[pos].as_str())?;
                     },
                     _ => {},
                 }
             },
             Flags::Function => {
-                shell::print_readonly_functions();
+                shell::print_readonly_functions()?;
             },
         }
         return Ok(());
@@ -569,7 +563,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     match flags {
         Flags::Function => {
-            shell::print_readonly_functions();
+            shell::print_readonly_functions()?;
             return Ok(());
         },
         _ => {},
diff --git a/src/context.rs b/src/context.rs
index d3f6421..1eec78c 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -482,7 +482,7 @@ impl Context {
     /// Adds a function to the context with a given name.
     pub fn add_function(&mut self, name: &str, body: Rc<RefCell<FunctionBody>>) {
         if self.readonly_functions.contains(name) {
-            eprintln!("Can't override readonly function {}", name);
+            crate::message!("Can't override readonly function {}", name);
             return;
         }
         self.functions.insert(name.to_string(), body);
diff --git a/src/eval.rs b/src/eval.rs
index a2ea28b..84920a9 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -202,7 +202,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 match result {
                     Ok(_) => {},
                     Err(_) => {
-                        eprintln!("{}: Command not found\n", command.name);
+                        crate::message!("{}: Command not found\n", command.name);
                         std::process::exit(1);
                     }
                 }
@@ -273,7 +273,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 }
 
                 if let Err(err) = eval_prefix_suffix(commands[count].prefix_suffix()) {
-                    eprintln!("{}", err);
+                    crate::message!("{}", err);
                     std::process::exit(1);
                 }
                 
@@ -285,7 +285,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                     match result {
                         Ok(_) => {},
                         Err(_) => {
-                            eprintln!("{}: Command not found\n", commands[count].name);
+                            crate::message!("{}: Command not found\n", commands[count].name);
                             std::process::exit(1);
                         }
                     }
@@ -299,7 +299,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                     match temp_exec(process) {
                         Ok(_) => {},
                         Err(_) => { 
-                            eprintln!("{}: Command not found\n", process.cmd);
+                            crate::message!("{}: Command not found\n", process.cmd);
                             std::process::exit(1);
                         },
                     }
@@ -335,7 +335,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             set_wait_status(status);
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
-            println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            let _ = crate::output!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
             set_exit_status(0);
         }
         else if proc_count == 0 {
@@ -455,7 +455,7 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
     match eval_redirect(&redirects) {
         Ok(_) => run(command),
         Err(err) => {
-            eprintln!("{}", err);
+            crate::message!("{}", err);
             set_exit_status(1);
         }
     }
@@ -554,7 +554,7 @@ fn run_builtin(command: &mut SimpleCommand) {
 
     match result {
         Err(err) => {
-            eprintln!("{}", err);
+            crate::message!("{}", err);
             set_exit_status(1);
         },
         // the status of these is the one of what they ran, or the one they were given
diff --git a/src/jobs.rs b/src/jobs.rs
index 5683ba5..0a38a01 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -468,7 +468,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
             let output = format_status(result, true);
 
             if output.is_some() {
-                println!("{}", output.unwrap());
+                let _ = crate::output!("{}", output.unwrap());
             }
 
         }
@@ -545,17 +545,17 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         let output = format_status(result, true);
 
         if output.is_some() {
-            println!("{}", output.unwrap());
+            let _ = crate::output!("{}", output.unwrap());
         }
 
     }
     else if let Some(job) = this_job {
         match status {
             WaitStatus::Signaled(_, _, _) => {
-                println!("Job [{}] ({}) terminated by signal", job.borrow().job_id, pid);
+                let _ = crate::output!("Job [{}] ({}) terminated by signal", job.borrow().job_id, pid);
             },
             WaitStatus::Stopped(_, _) => {
-                println!("Job [{}] ({}) stopped by signal", job.borrow().job_id, pid);
+                let _ = crate::output!("Job [{}] ({}) stopped by signal", job.borrow().job_id, pid);
             },
             _ => {},
         }
diff --git a/src/log.rs b/src/log.rs
index 11e1a77..d3f01df 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -1,4 +1,8 @@
 use std::sync::atomic::{AtomicBool, Ordering};
+use std::fs::File;
+use std::io::Write;
+use std::mem::ManuallyDrop;
+use std::os::unix::io::{FromRawFd, RawFd};
 
 static mut PRINT_OUT: AtomicBool = AtomicBool::new(false);
 
@@ -21,8 +25,26 @@ pub fn get_print_out() -> bool {
 macro_rules! log {
     ($($arg:tt)*) => ({
 	if crate::log::get_print_out() {
-	    eprintln!($($arg)*);
+	    crate::message!($($arg)*);
 	}
 	
     })
 }
+
+/// writes to a descriptor at once, nothing is left in a buffer when that fails
+pub fn write_fd(fd: RawFd, text: &str) -> std::io::Result<()> {
+    let mut file = ManuallyDrop::new(unsafe { File::from_raw_fd(fd) });
+    file.write_all(text.as_bytes())
+}
+
+/// prints a line, println! panics when it can't be written
+#[macro_export]
+macro_rules! output {
+    ($($arg:tt)*) => ( crate::log::write_fd(1, &(format!($($arg)*) + "\n")) )
+}
+
+/// prints an error message if that is possible, eprintln! panics when it is not
+#[macro_export]
+macro_rules! message {
+    ($($arg:tt)*) => ({ let _ = crate::log::write_fd(2, &(format!($($arg)*) + "\n")); })
+}
diff --git a/src/main.rs b/src/main.rs
index 046cf83..82a04ab 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -200,7 +200,7 @@ fn interactive_loop() {
                 continue;
             },*/
             Err(err) => {
-                println!("Readline Error: {:?}", err);
+                let _ = crate::output!("Readline Error: {:?}", err);
                 break;
             }
         }
@@ -218,7 +218,7 @@ fn interactive_loop() {
             .parse(&input,lexer) {
                 Ok(ast) => ast,
                 Err(err) => {
-                    println!("Error: {:?}", err);
+                    let _ = crate::output!("Error: {:?}", err);
                     eval::set_exit_status(2);
                     continue;
                 }
@@ -231,7 +231,7 @@ fn interactive_loop() {
         match result {
             Ok(_) => {},
             Err(err) => {
-                println!("{}", err);
+                let _ = crate::output!("{}", err);
                 eval::set_exit_status(1);
             }
         }
@@ -253,7 +253,7 @@ fn script_loop(script_name: &str) {
     let file = match File::open(script_name) {
         Ok(file) => file,
         Err(err) => {
-            eprintln!("{}: {}", script_name, err);
+            crate::message!("{}: {}", script_name, err);
             std::process::exit(127);
         }
     };
@@ -265,7 +265,7 @@ fn script_loop(script_name: &str) {
             Ok(0) => break,
             Ok(_) => {},
             Err(err) => {
-                eprintln!("{}: {}", script_name, err);
+                crate::message!("{}: {}", script_name, err);
                 eval::set_exit_status(2);
                 break;
             }
@@ -277,14 +277,14 @@ fn script_loop(script_name: &str) {
             .parse(&input,lexer) {
                 Ok(ast) => ast,
                 Err(err) => {
-                    eprintln!("Error: {:?}", err);
+                    crate::message!("Error: {:?}", err);
                     eval::set_exit_status(2);
                     continue;
                 }
             };
 
         if let Err(err) = eval::eval(&mut ast) {
-            eprintln!("{}", err);
+            crate::message!("{}", err);
             eval::set_exit_status(1);
         }
 
@@ -298,14 +298,14 @@ fn read_from_args(input: &str) {
         .parse(&input,lexer) {
             Ok(ast) => ast,
             Err(err) => {
-                eprintln!("Error: {:?}", err);
+                crate::message!("Error: {:?}", err);
                 eval::set_exit_status(2);
                 return;
             }
         };
 
     if let Err(err) = eval::eval(&mut ast) {
-        eprintln!("{}", err);
+        crate::message!("{}", err);
         eval::set_exit_status(1);
     }
 }
@@ -326,7 +326,7 @@ fn read_profile() -> Result<(), Box<dyn Error>>{
     match file.read_to_string(&mut system_profile) {
         Ok(_) => {},
         Err(err) => {
-            println!("Error reading /etc/profile: {:?}", err);
+            let _ = crate::output!("Error reading /etc/profile: {:?}", err);
         }
     }
 
@@ -335,7 +335,7 @@ fn read_profile() -> Result<(), Box<dyn Error>>{
         .parse(&system_profile,lexer) {
             Ok(ast) => ast,
             Err(err) => {
-                println!("Error: {:?}", err);
+                let _ = crate::output!("Error: {:?}", err);
                 return Ok(());
             }
         };
@@ -361,7 +361,7 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
     match file.read_to_string(&mut user_profile) {
         Ok(_) => {},
         Err(err) => {
-            println!("Error reading ~/.profile: {:?}", err);
+            let _ = crate::output!("Error reading ~/.profile: {:?}", err);
         }
     }
 
@@ -370,7 +370,7 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
         .parse(&user_profile,lexer) {
             Ok(ast) => ast,
             Err(err) => {
-                println!("Error: {:?}", err);
+                let _ = crate::output!("Error: {:?}", err);
                 return Ok(());
             }
         };
@@ -395,7 +395,7 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
     match file.read_to_string(&mut rc) {
         Ok(_) => {},
         Err(err) => {
-            println!("Error reading ~/.rshrc: {:?}", err);
+            let _ = crate::output!("Error reading ~/.rshrc: {:?}", err);
         }
     }
     
@@ -404,7 +404,7 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
         .parse(&rc,lexer) {
             Ok(ast) => ast,
             Err(err) => {
-                println!("Error: {:?}", err);
+                let _ = crate::output!("Error: {:?}", err);
                 return Ok(());
             }
         };
diff --git a/src/shell.rs b/src/shell.rs
index 20431d7..72f702a 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -150,7 +150,7 @@ impl Shell {
     /// In the future this should load it from the config file.
     pub fn load_history(&self) {
         if self.readline.borrow_mut().load_history(&self.history_location).is_err() {
-            eprintln!("No previous history.");
+            crate::message!("No previous history.");
         }
     }
 
@@ -158,7 +158,7 @@ impl Shell {
     /// It should get called by any function that causes the shell to exit.
     pub fn save_history(&self) {
         if self.readline.borrow_mut().save_history(&self.history_location).is_err() {
-            eprintln!("Could not save history.");
+            crate::message!("Could not save history.");
         }
     }
 
@@ -188,10 +188,11 @@ impl Shell {
     }
 
     /// This function prints out all the aliases that are currently stored in the shell.
-    pub fn display_aliases(&self) {
+    pub fn display_aliases(&self) -> std::io::Result<()> {
         for (key, value) in &self.aliases {
-            println!("alias {}='{}'", key, value);
+            crate::output!("alias {}='{}'", key, value)?;
         }
+        Ok(())
     }
 
     /// This function checks to see if there are any jobs in the background.
@@ -385,7 +386,7 @@ impl ShellAliasUtils<&str> for Shell {
     fn add_alias(&mut self, input: &str) {
         let split = input.splitn(2, '=').collect::<Vec<&str>>();
         if split.len() != 2 {
-            eprintln!("Invalid alias");
+            crate::message!("Invalid alias");
             return;
         }
         self.aliases.insert(split[0].to_string(), split[1].to_string());
@@ -435,9 +436,9 @@ pub fn remove_alias(alias: &str) {
 }
 
 /// This function prints out all the aliases in the shell.
-pub fn display_aliases() {
+pub fn display_aliases() -> std::io::Result<()> {
     let shell = SHELL.get().borrow();
-    shell.display_aliases();
+    shell.display_aliases()
 }
 
 /// This is a wrapper function that saves the readline history.
@@ -653,17 +654,17 @@ pub fn is_readonly(var: &str) -> bool {
     let shell = SHELL.get().borrow();
     shell.context_manager.is_readonly(var)
 }
-pub fn print_readonly_vars() {
+pub fn print_readonly_vars() -> std::io::Result<()> {
     let shell = SHELL.get().borrow();
-    shell.all_readonly_vars().iter().for_each(|var| {
-        println!("{}", var.1.borrow());
-    });
+    shell.all_readonly_vars().iter().try_for_each(|var| {
+        crate::output!("{}", var.1.borrow())
+    })
 }
-pub fn print_readonly_vars_context(namespace: &str) {
+pub fn print_readonly_vars_context(namespace: &str) -> std::io::Result<()> {
     let shell = SHELL.get().borrow();
-    shell.all_readonly_vars_context(namespace).iter().for_each(|var| {
-        println!("{}", var.1.borrow());
-    });
+    shell.all_readonly_vars_context(namespace).iter().try_for_each(|var| {
+        crate::output!("{}", var.1.borrow())
+    })
 }
 
 /// This function sets $0 to the script name.
@@ -694,9 +695,10 @@ pub fn remove_function(name: &str) {
 	let mut shell = SHELL.get().borrow_mut();
 	shell.remove_function(name);
 }
-pub fn print_readonly_functions() {
+pub fn print_readonly_functions() -> std::io::Result<()> {
     let shell = SHELL.get().borrow();
     for name in shell.get_readonly_functions().iter() {
-        println!("{}", name);
+        crate::output!("{}", name)?;
     }
+    Ok(())
 }
-- 
2.43.0


From 9e890f362db8089412a1acaffbeed49a638f39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 60/79] fix: no message from a builtin about a pipeline whose
 reader has ended

---
 src/eval.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 84920a9..d71f1ba 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -251,6 +251,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             let temp_fork_result = temp_fork(process);
             if temp_fork_result == Ok(Pid::from_raw(0)) {
+                // a builtin that is a stage of a pipeline ends with its reader like any other
+                trap::set_sigpipe(SigHandler::SigDfl);
                 if pgid.is_none() {
                     pgid = Some(getpid());
                 }
-- 
2.43.0


From aa3ecec9fe5f3c0ea50b0ff82f5fde69778774aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 61/79] fix: functions, eval and jobs as stages of a pipeline

The job was borrowed while its processes were forked, so that what looked at the job table in one of them panicked.
---
 src/eval.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index d71f1ba..5560d94 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -226,9 +226,9 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
     {
-        let mut job = job.borrow_mut();
-        let job_id = job.job_id;
-        let procs = job.borrow_processes_mut();
+        // a stage has a copy of the job table, in which the job must not be borrowed
+        let job_id = job.borrow().job_id;
+        let mut procs = std::mem::take(job.borrow_mut().borrow_processes_mut());
 
             
         let mut pgid = None;
@@ -251,6 +251,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             let temp_fork_result = temp_fork(process);
             if temp_fork_result == Ok(Pid::from_raw(0)) {
+                // the job that a stage belongs to is not one of its own
+                shell::delete_job(job_id);
                 // a builtin that is a stage of a pipeline ends with its reader like any other
                 trap::set_sigpipe(SigHandler::SigDfl);
                 if pgid.is_none() {
@@ -323,6 +325,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             count += 1;
         }
         
+        *job.borrow_mut().borrow_processes_mut() = procs;
     }
         if !background && proc_count > 0 && job.borrow().processes.len() > 0{
             //eprintln!("waiting for job");
-- 
2.43.0


From f5b341f9e56984bf328bb87082d716f8990ebf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 62/79] fix: readonly with a value changes the exported
 variable too

---
 src/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1eec78c..cb8b77a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -280,12 +280,14 @@ impl ContextManager {
             }
             return true;
         }
-        let mut split = set.split("=");
-        let name = split.next().unwrap();
+        let (name, value) = set.split_once('=').unwrap_or((set, ""));
 
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
                 context.borrow_mut().add_var_readonly(set);
+                if env::var_os(name).is_some() {
+                    env::set_var(name, value);
+                }
                 return true;
             }
         }
-- 
2.43.0


From 6ba554a3188dc1f6f3e09d3e597c259b1b788452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 63/79] fix: options of exec that are given together are one
 word

---
 src/builtins.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 13e9959..b4c604c 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -619,17 +619,18 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
     if suffix.word.get(pos).map_or(false, |word| word.starts_with('-')) {
-        if suffix.word[pos].contains('c') {
+        let options = &suffix.word[pos];
+        if options.contains('c') {
             empty_env = true;
             pos += 1;
         }
-        if suffix.word[pos].contains('l') {
+        if options.contains('l') {
             dash = true;
-            pos += 1;
+            pos += if options.contains('c') {0} else {1};
         }
-        if suffix.word[pos].contains('a') {
+        if options.contains('a') {
             rename = true;
-            pos += 2;
+            pos += if options.contains('c') || options.contains('l') {1} else {2};
             if suffix.word.len() <= pos {
                 return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
             }
-- 
2.43.0


From a71e61d4a09ad5bc7d774a23bda8df19f2155e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 64/79] fix: the copies of redirected descriptors are not among
 those redirected

---
 src/eval.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 5560d94..e728f15 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -450,12 +450,11 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
             .chain(suffix.iter().flat_map(|suffix| suffix.io_redirect.clone())).collect()
     };
 
-    let mut saved = Vec::new();
-    for redirect in redirects.iter() {
+    let fds: Vec<RawFd> = redirects.iter().map(|redirect| {
         let input = redirect.io_file.as_ref().map_or(false, |file| file.redirect_type == RedirectType::Input);
-        let fd = redirect.io_number.unwrap_or(if input {0} else {1});
-        saved.push((fd, fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(10)).ok()));
-    }
+        redirect.io_number.unwrap_or(if input {0} else {1})
+    }).collect();
+    let saved: Vec<_> = fds.iter().map(|fd| (*fd, save_fd(*fd, &fds))).collect();
 
     match eval_redirect(&redirects) {
         Ok(_) => run(command),
@@ -473,6 +472,19 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
     }
 }
 
+/// This function makes a copy of a descriptor that is none of those being redirected.
+fn save_fd(fd: RawFd, redirected: &[RawFd]) -> Option<RawFd> {
+    let mut least = 10;
+    loop {
+        let copy = fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(least)).ok()?;
+        if !redirected.contains(&copy) {
+            return Some(copy);
+        }
+        let _ = close(copy);
+        least = copy + 1;
+    }
+}
+
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-- 
2.43.0


From 424d609d3ac991870e2e165463b4a72378cd22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 65/79] fix: undoing a redirection restores the flags of the
 descriptor

---
 src/eval.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index e728f15..149dd9e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -454,7 +454,7 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
         let input = redirect.io_file.as_ref().map_or(false, |file| file.redirect_type == RedirectType::Input);
         redirect.io_number.unwrap_or(if input {0} else {1})
     }).collect();
-    let saved: Vec<_> = fds.iter().map(|fd| (*fd, save_fd(*fd, &fds))).collect();
+    let saved: Vec<_> = fds.iter().map(|fd| (*fd, save_fd(*fd, &fds), fcntl(*fd, FcntlArg::F_GETFD))).collect();
 
     match eval_redirect(&redirects) {
         Ok(_) => run(command),
@@ -464,11 +464,15 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
         }
     }
 
-    for (fd, copy) in saved.into_iter().rev() {
+    for (fd, copy, flags) in saved.into_iter().rev() {
         let _ = match copy {
             Some(copy) => dup2(copy, fd).and(close(copy)),
             None => close(fd),
         };
+        // a descriptor that commands don't get is again one of those
+        if let Ok(flags) = flags {
+            let _ = fcntl(fd, FcntlArg::F_SETFD(FdFlag::from_bits_truncate(flags)));
+        }
     }
 }
 
-- 
2.43.0


From fe5b29309e4f58f28939be7a8d326c02d7928a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 66/79] fix: a process that can't be started is reported and
 fails its pipeline

When fork failed, nothing was written and the status stayed 0; when pipe
failed, the job was left in the table and interrupts stayed blocked.
---
 src/eval.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 149dd9e..a256884 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -223,6 +223,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
     
 
     let proc_count;
+    // why a process could not be started
+    let mut failure: Option<Errno> = None;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
     {
@@ -236,15 +238,17 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
         let mut pip: (RawFd,RawFd) = (-1,-1);
         let mut prev_fd: RawFd = -1;
         let mut count: usize = 0;
-        proc_count = procs.len();
+        let stages = procs.len();
         for process in procs.iter_mut() {
             pip.1 = -1;
-            if count < proc_count - 1 {
-                let pipe_result = pipe();
-                if pipe_result.is_err() {
-                    return Err("Failed to create pipe".to_string());
+            if count < stages - 1 {
+                match pipe() {
+                    Ok(result) => pip = result,
+                    Err(err) => {
+                        failure = Some(err);
+                        break;
+                    },
                 }
-                pip = pipe_result.unwrap();
             }
             
             
@@ -313,6 +317,14 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             else if matches!(temp_fork_result, Ok(_)) {
                 shell::update_pid_table(job_id, temp_fork_result.unwrap());
             }
+            else if let Err(err) = temp_fork_result {
+                failure = Some(err);
+                if pip.1 >= 0 {
+                    close(pip.0).unwrap();
+                    close(pip.1).unwrap();
+                }
+                break;
+            }
             if prev_fd >= 0 {
                 close(prev_fd).unwrap();
             }
@@ -324,6 +336,15 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             count += 1;
         }
+
+        if failure.is_some() {
+            // those that were started are a job without the others
+            if prev_fd >= 0 {
+                close(prev_fd).unwrap();
+            }
+            procs.truncate(count);
+        }
+        proc_count = procs.len();
         
         *job.borrow_mut().borrow_processes_mut() = procs;
     }
@@ -351,6 +372,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             shell::delete_job(id);
         }
 
+    if let Some(err) = failure {
+        crate::message!("can't start a process: {}", std::io::Error::from(err));
+        set_exit_status(1);
+    }
+
     //let job = temp_exec(processes)?;
 
     
-- 
2.43.0


From 78afc3ea9dadd533ad05347eeb4a8acb5abbff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 67/79] fix: a redirection that could not be undone is not made

When a descriptor could not be copied, it was closed afterwards, and the
shell had lost its output.
---
 src/eval.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index a256884..adceca9 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -482,7 +482,14 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
     }).collect();
     let saved: Vec<_> = fds.iter().map(|fd| (*fd, save_fd(*fd, &fds), fcntl(*fd, FcntlArg::F_GETFD))).collect();
 
-    match eval_redirect(&redirects) {
+    // without a copy the descriptor could not be had back
+    let lost = saved.iter().any(|(_, copy, flags)| copy.is_none() && flags.is_ok());
+    let result = match lost {
+        true => Err(std::io::Error::from_raw_os_error(Errno::EMFILE as i32)),
+        false => eval_redirect(&redirects),
+    };
+
+    match result {
         Ok(_) => run(command),
         Err(err) => {
             crate::message!("{}", err);
@@ -493,6 +500,7 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
     for (fd, copy, flags) in saved.into_iter().rev() {
         let _ = match copy {
             Some(copy) => dup2(copy, fd).and(close(copy)),
+            None if flags.is_ok() => continue,
             None => close(fd),
         };
         // a descriptor that commands don't get is again one of those
-- 
2.43.0


From 5363b21fb882d62a9fa98dd856d2eee39dc7f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 68/79] fix: a substitution that can't be started is empty
 instead of a panic

---
 src/ast.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 4597f94..b0b082f 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -393,9 +393,25 @@ impl SimpleCommand {
             }
         };
 
-        let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
+        let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
+            Ok(pip) => pip,
+            Err(err) => {
+                crate::message!("can't start a process: {}", std::io::Error::from(err));
+                return String::new();
+            }
+        };
+
+        let result = match unsafe {nix::unistd::fork()} {
+            Ok(result) => result,
+            Err(err) => {
+                nix::unistd::close(pip.0).unwrap();
+                nix::unistd::close(pip.1).unwrap();
+                crate::message!("can't start a process: {}", std::io::Error::from(err));
+                return String::new();
+            }
+        };
 
-        match unsafe {nix::unistd::fork().expect("failed to fork")} {
+        match result {
             nix::unistd::ForkResult::Parent { child } => {
                 nix::unistd::close(pip.1).unwrap();
                 let mut buf = Vec::new();
-- 
2.43.0


From 02f6f41ff0e6eca7a5bd616bae08cc48b6e90ce2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 69/79] fix: brackets in quotes, comments and words don't hold
 an interactive line back

---
 src/completion.rs | 19 ++++++++++++++++---
 src/main.rs       | 20 +++++++++++++++++++-
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 76bd276..ee1ea84 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -7,7 +7,7 @@ use std::borrow::Cow::{self, Borrowed, Owned};
 use rustyline::completion::FilenameCompleter;
 use rustyline::highlight::{Highlighter, MatchingBracketHighlighter};
 use rustyline::hint::HistoryHinter;
-use rustyline::validate::MatchingBracketValidator;
+use rustyline::validate::{ValidationContext, ValidationResult, Validator};
 use rustyline::{Completer, Helper, Hinter, Validator};
 
 use rustyline::{Context,Result};
@@ -21,7 +21,7 @@ pub struct CompletionHelper {
     completer: PathCompleter,
     highlighter: MatchingBracketHighlighter,
     #[rustyline(Validator)]
-    validator: MatchingBracketValidator,
+    validator: CommandValidator,
     #[rustyline(Hinter)]
     hinter: HistoryHinter,
 }
@@ -53,12 +53,25 @@ impl Default for CompletionHelper {
         Self {
             completer: PathCompleter::new(),//FilenameCompleter::new(),
             highlighter: MatchingBracketHighlighter::new(),
-            validator: MatchingBracketValidator::new(),
+            validator: CommandValidator,
             hinter: HistoryHinter {},
         }
     }
 }
 
+/// This asks for more lines while a '{' is still open. Anything else is left to the parser.
+pub struct CommandValidator;
+
+impl Validator for CommandValidator {
+    fn validate(&self, ctx: &mut ValidationContext) -> Result<ValidationResult> {
+        if crate::is_incomplete(ctx.input()) {
+            Ok(ValidationResult::Incomplete)
+        } else {
+            Ok(ValidationResult::Valid(None))
+        }
+    }
+}
+
 
 pub struct PathCompleter;
 
diff --git a/src/main.rs b/src/main.rs
index 82a04ab..3b0dcb0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -17,7 +17,8 @@ mod var;
 use lalrpop_util::lalrpop_mod;
 lalrpop_mod!(pub grammar);
 
-use lexer::Lexer;
+use lexer::{Lexer, Token};
+use lalrpop_util::ParseError;
 
 use std::error::Error;
 
@@ -173,6 +174,23 @@ fn parse_dash_arg(arg: &str) -> bool {
     read_from_args
 }
 
+/// This function tells whether more lines are needed to complete the input.
+/// That is so if a '{' is still open and what comes after its first line could make sense of that line.
+pub fn is_incomplete(input: &str) -> bool {
+    let open: i32 = Lexer::new(input).map(|token| match token {
+        Ok((_, Token::OpenBrace, _)) => 1,
+        Ok((_, Token::CloseBrace, _)) => -1,
+        _ => 0,
+    }).sum();
+    if open <= 0 {
+        return false;
+    }
+    let first = input.split('\n').next().unwrap_or("").to_string() + "\n";
+    matches!(grammar::CompleteCommandParser::new().parse(&first, Lexer::new(&first)),
+             Err(ParseError::UnrecognizedEOF { .. }) |
+             Err(ParseError::UnrecognizedToken { token: (_, Token::EOF, _), .. }))
+}
+
 /// This function is what the user interacts with when the shell is in interactive mode.
 /// It is a simple REPL that uses the readline from the Shell struct singleton.
 fn interactive_loop() {
-- 
2.43.0


From f77f5709315cff5b4453f20a2060c6a2c53eda89 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 70/79] fix: a function of several lines can be defined in a
 script

---
 src/main.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3b0dcb0..9cfe53e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -276,20 +276,27 @@ fn script_loop(script_name: &str) {
         }
     };
     let mut buf_reader = BufReader::new(file);
+    let mut pending = String::new();
     loop {
 
-        let mut input = String::new();
-        match buf_reader.read_line(&mut input) {
-            Ok(0) => break,
-            Ok(_) => {},
+        let mut line = String::new();
+        let end = match buf_reader.read_line(&mut line) {
+            Ok(count) => count == 0,
             Err(err) => {
                 crate::message!("{}: {}", script_name, err);
                 eval::set_exit_status(2);
                 break;
             }
+        };
+        if end && pending.is_empty() {
+            break;
         }
 
-        let input = input.replace('\0', "");
+        pending.push_str(&line.replace('\0', ""));
+        if !end && is_incomplete(&pending) {
+            continue;
+        }
+        let input = std::mem::take(&mut pending);
         let lexer = Lexer::new(&input);        
         let mut ast = match grammar::CompleteCommandParser::new()
             .parse(&input,lexer) {
-- 
2.43.0


From a3df19ce79fe9674f839caf432dc8caa76145422 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 71/79] fix: a line that is not UTF-8 is reported and the next
 one is taken

---
 src/main.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9cfe53e..6bc9df8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -217,6 +217,11 @@ fn interactive_loop() {
             /*Err(ReadlineError::Errno(error)) => {
                 continue;
             },*/
+            Err(ReadlineError::Io(err)) if err.kind() == io::ErrorKind::InvalidData => {
+                let _ = crate::output!("Error: {}", err);
+                eval::set_exit_status(2);
+                continue;
+            },
             Err(err) => {
                 let _ = crate::output!("Readline Error: {:?}", err);
                 break;
@@ -276,11 +281,11 @@ fn script_loop(script_name: &str) {
         }
     };
     let mut buf_reader = BufReader::new(file);
-    let mut pending = String::new();
+    let mut pending = Vec::new();
     loop {
 
-        let mut line = String::new();
-        let end = match buf_reader.read_line(&mut line) {
+        let mut line = Vec::new();
+        let end = match buf_reader.read_until(b'\n', &mut line) {
             Ok(count) => count == 0,
             Err(err) => {
                 crate::message!("{}: {}", script_name, err);
@@ -292,11 +297,18 @@ fn script_loop(script_name: &str) {
             break;
         }
 
-        pending.push_str(&line.replace('\0', ""));
-        if !end && is_incomplete(&pending) {
+        pending.extend(line.into_iter().filter(|byte| *byte != 0));
+        if !end && is_incomplete(&String::from_utf8_lossy(&pending)) {
             continue;
         }
-        let input = std::mem::take(&mut pending);
+        let input = match String::from_utf8(std::mem::take(&mut pending)) {
+            Ok(input) => input,
+            Err(err) => {
+                crate::message!("{}: {}", script_name, err);
+                eval::set_exit_status(2);
+                continue;
+            }
+        };
         let lexer = Lexer::new(&input);        
         let mut ast = match grammar::CompleteCommandParser::new()
             .parse(&input,lexer) {
-- 
2.43.0


From 9f875f8daaa5ff4bf9461d2f4464a0e76a9bcbac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 72/79] fix: an argument that is not UTF-8 is reported instead
 of a panic

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6bc9df8..6edd207 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,10 @@ use rustyline::error::ReadlineError;
 
 fn main() {
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<String> = env::args_os().map(|arg| arg.into_string().unwrap_or_else(|arg| {
+        crate::message!("{:?}: not valid UTF-8", arg);
+        std::process::exit(2);
+    })).collect();
 
     let input = parse_args(args);
 
-- 
2.43.0


From 1731071dbf7ec55c8f7889c682a0783ef252ff4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 73/79] fix: ~/.rshrc is read from the home directory and can't
 make the shell panic

---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6edd207..6bd728e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,6 +25,7 @@ use std::error::Error;
 use std::io;
 use std::env;
 use std::fs::File;
+use std::path::Path;
 use std::io::BufReader;
 use std::io::prelude::*;
 
@@ -426,7 +427,11 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
 /// The return value is Ok(()) if the parser is successful.
 /// The return value is Err(err) if the parser fails.
 fn read_rc() -> Result<(), Box<dyn Error>> {
-    let file = File::open("~/.rshrc");
+    let home = match env::var_os("HOME") {
+        Some(home) => home,
+        None => return Ok(()),
+    };
+    let file = File::open(Path::new(&home).join(".rshrc"));
     if file.is_err() {
         return Ok(());
     }
@@ -449,7 +454,10 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        let _ = crate::output!("{}", err);
+        eval::set_exit_status(1);
+    }
 
     Ok(())
 }
-- 
2.43.0


From 17cbd7ffa75d8414a6795d77dcd459d77bc3320c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 74/79] fix: completion without PATH, or with names that are
 not UTF-8, does not panic

---
 src/completion.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index ee1ea84..f2209ba 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -111,7 +111,7 @@ impl Completer for PathCompleter {
 
 fn command_complete(line: &str) -> Vec<Pair> {
     let path = {
-        env::var_os("PATH").unwrap().into_string().unwrap()
+        env::var("PATH").unwrap_or_default()
         //shell::expand_var("PATH").unwrap().clone()
     };
     let paths = path.split(":");
@@ -123,8 +123,10 @@ fn command_complete(line: &str) -> Vec<Pair> {
             continue;
         }
         for entry in entry_fs.unwrap() {
-            let entry = entry.unwrap();
-            let name = entry.file_name().into_string().unwrap();
+            let name = match entry.map(|entry| entry.file_name().into_string()) {
+                Ok(Ok(name)) => name,
+                _ => continue,
+            };
 
             if !name.starts_with(line) {
                 continue;
-- 
2.43.0


From dc6edcac6d080fd1b02913104bb6e9cd3baf6823 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 75/79] fix: the redirections of a function's definition are
 made when it is called

---
 src/ast.rs  | 11 ++++++++---
 src/eval.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index b0b082f..7f8770c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -293,6 +293,13 @@ impl SimpleCommand {
         word
     }
 
+    /// This function expands the targets of redirections.
+    pub fn expand_redirects<'a>(redirects: impl Iterator<Item = &'a mut IoRedirect>) {
+        for file in redirects.filter_map(|redirect| redirect.io_file.as_mut()) {
+            file.filename = Self::expand_word(&file.filename);
+        }
+    }
+
     pub fn expand_vars(&mut self) {
 
         if self.prefix.is_some() {
@@ -304,9 +311,7 @@ impl SimpleCommand {
         }
         let prefix = self.prefix.iter_mut().flat_map(|prefix| prefix.io_redirect.iter_mut());
         let suffix = self.suffix.iter_mut().flat_map(|suffix| suffix.io_redirect.iter_mut());
-        for file in prefix.chain(suffix).filter_map(|redirect| redirect.io_file.as_mut()) {
-            file.filename = Self::expand_word(&file.filename);
-        }
+        Self::expand_redirects(prefix.chain(suffix));
 
         if self.name.starts_with("$") {
             let mut chars = self.name.chars();
diff --git a/src/eval.rs b/src/eval.rs
index adceca9..3819b2d 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -475,7 +475,11 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
         prefix.iter().flat_map(|prefix| prefix.io_redirect.clone())
             .chain(suffix.iter().flat_map(|suffix| suffix.io_redirect.clone())).collect()
     };
+    redirected(redirects, || run(command));
+}
 
+/// This function runs something in the shell itself with redirections, and undoes them afterwards.
+fn redirected<F: FnOnce()>(redirects: Vec<IoRedirect>, run: F) {
     let fds: Vec<RawFd> = redirects.iter().map(|redirect| {
         let input = redirect.io_file.as_ref().map_or(false, |file| file.redirect_type == RedirectType::Input);
         redirect.io_number.unwrap_or(if input {0} else {1})
@@ -490,7 +494,7 @@ fn with_redirects<F: FnOnce(&mut SimpleCommand)>(command: &mut SimpleCommand, ru
     };
 
     match result {
-        Ok(_) => run(command),
+        Ok(_) => run(),
         Err(err) => {
             crate::message!("{}", err);
             set_exit_status(1);
@@ -715,7 +719,9 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     let mut function = function.unwrap().borrow().clone();
 
     CALL_DEPTH.fetch_add(1, Ordering::Relaxed);
-    eval_compound_command(&mut function.compound_command);
+    let mut redirects = function.redirect_list.take().map_or(Vec::new(), |list| list.0);
+    SimpleCommand::expand_redirects(redirects.iter_mut());
+    redirected(redirects, || eval_compound_command(&mut function.compound_command));
     CALL_DEPTH.fetch_sub(1, Ordering::Relaxed);
     RETURNING.store(false, Ordering::Relaxed);
     shell::pop_context();
-- 
2.43.0


From 54cf539e3679b84a585b815b8890f8d5514d34c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 76/79] fix: completion looks at what is before the cursor

---
 src/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/completion.rs b/src/completion.rs
index f2209ba..796d008 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -94,7 +94,7 @@ impl PathCompleter {
     }
 
     pub fn complete_cmd_unsorted(&self, line: &str, pos: usize) -> Result<(usize,Vec<Pair>)> {
-        let matches = command_complete(line);
+        let matches = command_complete(&line[..pos]);
 
         Ok((0, matches))
     }
-- 
2.43.0


From 64e8d24041787b9005978a685733c1857806b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 77/79] fix: Tab on a terminal without terminfo completes
 without the menu

---
 src/completion.rs | 32 +++++++++++++++++++++++++++++++-
 src/main.rs       |  2 ++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/completion.rs b/src/completion.rs
index 796d008..165acac 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -1,5 +1,6 @@
 use std::fs;
 use std::env;
+use std::path::PathBuf;
 use crate::shell;
 
 use std::borrow::Cow::{self, Borrowed, Owned};
@@ -10,11 +11,40 @@ use rustyline::hint::HistoryHinter;
 use rustyline::validate::{ValidationContext, ValidationResult, Validator};
 use rustyline::{Completer, Helper, Hinter, Validator};
 
-use rustyline::{Context,Result};
+use rustyline::{Context,Result,CompletionType};
 use rustyline::completion::{Pair, Completer};
 use rustyline::completion::Candidate;
 
 
+/// This function tells how to complete: with a menu, or, on a terminal of which too little is known for that, without.
+pub fn completion_type() -> CompletionType {
+    if has_terminfo() {
+        CompletionType::Fuzzy
+    } else {
+        CompletionType::List
+    }
+}
+
+/// This function tells whether there is a description of the terminal, where the menu will look for it.
+fn has_terminfo() -> bool {
+    let term = env::var("TERM").unwrap_or_default();
+    let first = match term.chars().next() {
+        Some(first) => first,
+        None => return false,
+    };
+    let mut directories: Vec<PathBuf> = env::var_os("TERMINFO").map(PathBuf::from).into_iter().collect();
+    match env::var("TERMINFO_DIRS") {
+        Ok(list) => directories.extend(list.split(':').map(|dir| PathBuf::from(if dir.is_empty() { "/usr/share/terminfo" } else { dir }))),
+        Err(_) => {
+            directories.extend(env::var_os("HOME").filter(|home| !home.is_empty()).map(|home| PathBuf::from(home).join(".terminfo")));
+            directories.extend(["/etc/terminfo", "/lib/terminfo", "/usr/share/terminfo"].iter().map(PathBuf::from));
+        },
+    }
+    directories.iter().any(|dir| dir.join(first.to_string()).join(&term).is_file() ||
+                                 dir.join(format!("{:x}", first as u32)).join(&term).is_file())
+}
+
+
 #[derive(Helper, Completer, Hinter, Validator)]
 pub struct CompletionHelper {
     #[rustyline(Completer)]
diff --git a/src/main.rs b/src/main.rs
index 6bd728e..c9963ef 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,6 +31,7 @@ use std::io::prelude::*;
 
 
 use nix::errno::Errno;
+use rustyline::config::Configurer;
 use rustyline::error::ReadlineError;
 
 
@@ -206,6 +207,7 @@ fn interactive_loop() {
     loop {
         let input;
 
+        rl.borrow_mut().set_completion_type(completion::completion_type());
         let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap_or_default().as_str());
         match readline {
             Ok(line) => {
-- 
2.43.0


From 664e9044a6b10f32af1f4f469c383e08ad7a95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:24 +0000
Subject: [PATCH 78/79] fix: the keyboard's signals can't reach a background
 command that has not run yet

A process of a background command left the shell's process group itself, once it ran: an interrupt
typed at once after starting it, or the hangup when the shell ended, still ended it.
---
 src/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 3819b2d..ef9dc85 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -315,6 +315,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 }
             }
             else if matches!(temp_fork_result, Ok(_)) {
+                if background {
+                    // what reaches the shell's own group from now on is not meant for this process,
+                    // whether or not it has run yet
+                    let _ = setpgid(*temp_fork_result.as_ref().unwrap(), Pid::from_raw(0));
+                }
                 shell::update_pid_table(job_id, temp_fork_result.unwrap());
             }
             else if let Err(err) = temp_fork_result {
-- 
2.43.0


From 624cbb2b5ecc6898da4b39f15f478b4c1a5bb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:53 +0000
Subject: [PATCH 79/79] fix: a builtin comes before a function with its name in
 a pipeline too

Alone, the name ran the builtin; as a stage of a pipeline or in the background, the function.
---
 src/eval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index ef9dc85..dd931b1 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -287,7 +287,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 
                 //println!("executing: {:?}", process.argv);
                 
-                if shell::is_function(&commands[count].name) {
+                // as in the shell itself, a builtin comes before a function with its name
+                if shell::is_function(&commands[count].name) && !check_if_builtin(&commands[count].name) {
                     let result = eval_function(&mut commands[count]);
                     
                     match result {
-- 
2.43.0

