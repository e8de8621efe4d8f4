From 2f047c37c47e010607d671862fe9fc7e4b3a7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 01/37] fix: native runner: missing, unreadable or unparsable
 worker results fail the run

---
 src/native_runner.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 4d0f615..aedcf60 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -323,11 +323,13 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     }
 
     let mut all_results = Vec::new();
+    let mut results_incomplete = false;
     for output_file in &output_files {
-        if output_file.exists() {
-            match parse_results_file(output_file) {
-                Ok(results) => all_results.push(results),
-                Err(e) => eprintln!("Warning: {}", e),
+        match parse_results_file(output_file) {
+            Ok(results) => all_results.push(results),
+            Err(e) => {
+                eprintln!("Warning: {}", e);
+                results_incomplete = true;
             }
         }
     }
@@ -337,7 +339,11 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
 
     // TempDir is automatically cleaned up when dropped
 
-    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {
+    if aggregated.failed > 0
+        || aggregated.error > 0
+        || !worker_errors.is_empty()
+        || results_incomplete
+    {
         1
     } else {
         0
-- 
2.43.0


From 1b53cad7a147b46d5badda8c6677115872d953ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 02/37] fix: native runner: a worker that exits 1 without
 recording a failure fails the run

---
 src/native_runner.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index aedcf60..8d88e51 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -195,6 +195,7 @@ fn print_summary(results: &AggregatedResults) {
     );
 }
 
+/// Runs one worker to completion. Returns whether it reported failures (exit code 1).
 fn run_worker(
     worker_id: usize,
     python: &str,
@@ -203,7 +204,7 @@ fn run_worker(
     files: &[PathBuf],
     python_classes: &[String],
     python_functions: &[String],
-) -> Result<(), String> {
+) -> Result<bool, String> {
     let mut cmd = Command::new(python);
     cmd.arg("-m")
         .arg("rtest.worker")
@@ -257,9 +258,10 @@ fn run_worker(
                 worker_id, exit_code
             ));
         }
+        return Ok(true);
     }
 
-    Ok(())
+    Ok(false)
 }
 
 pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) -> i32 {
@@ -310,9 +312,10 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     }
 
     let mut worker_errors = Vec::new();
+    let mut reported_failures = vec![false; output_files.len()];
     for (i, handle) in handles.into_iter().enumerate() {
         match handle.join() {
-            Ok(Ok(())) => {}
+            Ok(Ok(failures)) => reported_failures[i] = failures,
             Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
             Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
         }
@@ -324,9 +327,18 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
 
     let mut all_results = Vec::new();
     let mut results_incomplete = false;
-    for output_file in &output_files {
+    for (i, output_file) in output_files.iter().enumerate() {
         match parse_results_file(output_file) {
-            Ok(results) => all_results.push(results),
+            Ok(results) => {
+                let all_ok = results
+                    .iter()
+                    .all(|r| matches!(r.outcome.as_str(), "passed" | "skipped"));
+                if reported_failures[i] && all_ok {
+                    eprintln!("Worker {} failed but recorded no failure", i);
+                    results_incomplete = true;
+                }
+                all_results.push(results)
+            }
             Err(e) => {
                 eprintln!("Warning: {}", e);
                 results_incomplete = true;
-- 
2.43.0


From 58b2bc5794a3da69a21026d8d7165c7a8333a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 03/37] fix: subprojects: never drop a test of the root group

---
 src/subproject.rs | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 5b76531..c2f7af6 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -17,33 +17,15 @@ pub fn group_tests_by_subproject(
     test_nodes: &[String],
 ) -> HashMap<PathBuf, Vec<String>> {
     let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
-    let mut subproject_roots: HashSet<PathBuf> = HashSet::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-        let is_subproject = subproject_root != *rootpath;
-
-        if is_subproject {
-            subproject_roots.insert(subproject_root.clone());
-        }
-
         groups
             .entry(subproject_root)
             .or_default()
             .push(test_node.clone());
     }
 
-    if let Some(root_tests) = groups.get_mut(rootpath) {
-        root_tests.retain(|test_node| {
-            let (file_path, _) = split_test_node(test_node);
-            let test_path = rootpath.join(file_path);
-
-            !subproject_roots
-                .iter()
-                .any(|subproject| test_path.starts_with(subproject))
-        });
-    }
-
     groups
 }
 
-- 
2.43.0


From bf2bd69d027bebc81326d06fbc1f9526164715e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 04/37] fix: parallel pytest runner: a worker count of 0 runs
 the tests with one worker instead of none

---
 src/runner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runner.rs b/src/runner.rs
index 454a5fd..f65d694 100644
--- a/src/runner.rs
+++ b/src/runner.rs
@@ -62,6 +62,9 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         }
     };
 
+    // With 0 workers (-n 0, --maxprocesses 0) nothing would be distributed and nothing run
+    let worker_count = config.worker_count.max(1);
+
     if config.use_subprojects {
         let test_groups = subproject::group_tests_by_subproject(config.rootpath, &test_nodes);
 
@@ -76,7 +79,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
             };
 
             let scheduler = create_scheduler(distribution_mode.clone());
-            let test_batches = scheduler.distribute_tests(adjusted_tests, config.worker_count);
+            let test_batches = scheduler.distribute_tests(adjusted_tests, worker_count);
 
             for batch in test_batches {
                 if !batch.is_empty() {
@@ -119,7 +122,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         overall_exit_code
     } else {
         let scheduler = create_scheduler(distribution_mode);
-        let test_batches = scheduler.distribute_tests(test_nodes, config.worker_count);
+        let test_batches = scheduler.distribute_tests(test_nodes, worker_count);
 
         if test_batches.is_empty() {
             log::info!("No test batches to execute.");
-- 
2.43.0


From 3326cde1adf5fca40c17e87a86ff4927a76a067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 05/37] fix: subprojects: a test reached through a link keeps a
 path that names its file

---
 src/subproject.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index c2f7af6..5a4f026 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -77,7 +77,12 @@ pub fn make_test_paths_relative(
                     }
                     new_node
                 }
-                Err(_) => node.clone(),
+                Err(_) if matches!(absolute_path.try_exists(), Ok(false)) => node.clone(),
+                // Reached through a link: the relative path would name nothing from new_base
+                Err(_) => match test_part {
+                    Some(test) => format!("{}::{}", absolute_path.to_string_lossy(), test),
+                    None => absolute_path.to_string_lossy().into_owned(),
+                },
             }
         })
         .collect()
-- 
2.43.0


From 5cd6835327e8e3b33bf603865a0568634e0df566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 06/37] fix: subprojects: start the groups in a fixed order

---
 src/subproject.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 5a4f026..2249310 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -15,8 +15,8 @@ fn split_test_node(node: &str) -> (&str, Option<&str>) {
 pub fn group_tests_by_subproject(
     rootpath: &Path,
     test_nodes: &[String],
-) -> HashMap<PathBuf, Vec<String>> {
-    let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
+) -> BTreeMap<PathBuf, Vec<String>> {
+    let mut groups: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-- 
2.43.0


From c768bfd731a0f5c2af405dc8afb6a3b27ab32868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 07/37] fix: collection: list tests in an order independent of
 directory listing order

---
 src/collection/nodes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 3d68207..622c9f9 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -233,6 +233,9 @@ impl Collector for Directory {
             }
         }
 
+        // The order must not depend on the order in which the file system lists entries
+        items.sort_by(|a, b| a.path().cmp(b.path()));
+
         Ok((items, vec![]))
     }
 
-- 
2.43.0


From 0c3d83a8b522e9c111e74f8c0ae6e142b7e4103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 08/37] fix: collection: do not ignore the project root or a
 given path because of its name

---
 src/collection/nodes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 622c9f9..0f71a2c 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -86,9 +86,8 @@ impl Session {
     }
 
     fn collect_path(self: &Rc<Self>, path: &Path) -> CollectionResult<Vec<Box<dyn Collector>>> {
-        if self.should_ignore_path(path)? {
-            return Ok(vec![]);
-        }
+        // The directories to ignore are those met while descending: the root of the project and
+        // the paths that are asked for may have any name
 
         if path.is_dir() {
             let dir = Directory::new(path.to_path_buf(), Rc::clone(self));
-- 
2.43.0


From decd005c4b0a6ddfc5dc6f61d4a2b0cbbe49ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 09/37] fix: native runner: run the files of a root or given
 directory whose name is hidden

---
 src/native_runner.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 8d88e51..e36dc1d 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -387,10 +387,12 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
     WalkDir::new(dir)
         .into_iter()
         .filter_entry(|e| {
-            e.file_name()
-                .to_str()
-                .map(|n| !is_hidden_or_ignored(n))
-                .unwrap_or(false)
+            // The directory itself may have any name
+            e.depth() == 0
+                || e.file_name()
+                    .to_str()
+                    .map(|n| !is_hidden_or_ignored(n))
+                    .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
         .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
-- 
2.43.0


From a2c1d9c880e181e1b9f7e07f4862d8fa8cca69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 10/37] fix: native runner: run a file once even if the given
 paths overlap

---
 src/native_runner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index e36dc1d..a6975ec 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -2,6 +2,7 @@
 
 use crate::collection::glob_match;
 use serde::Deserialize;
+use std::collections::HashSet;
 use std::fs::File;
 use std::io::{BufRead, BufReader};
 use std::path::{Path, PathBuf};
@@ -426,6 +427,9 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
     };
 
     test_files.sort();
+    // Overlapping paths must not run a file twice
+    let mut seen = HashSet::new();
+    test_files.retain(|f| seen.insert(f.canonicalize().unwrap_or_else(|_| f.clone())));
     test_files
 }
 
-- 
2.43.0


From 47c8e6879dd60dbe8dd9f0d01d4722a5d2844d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 11/37] fix: loadscope: '::' in the parameter text of a test id
 does not split its scope

---
 src/scheduler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3307f68..02e0b30 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -206,7 +206,12 @@ impl Scheduler for NoScheduler {
 fn extract_scope(test_path: &str) -> String {
     // Extract module/class scope from test path
     // Format: path/to/file.py::TestClass::test_method or path/to/file.py::test_function
-    let parts: Vec<&str> = test_path.split("::").collect();
+    // "::" inside the parameter text of a parametrised id separates nothing
+    let file_end = test_path.find("::").unwrap_or(test_path.len());
+    let id_end = test_path[file_end..]
+        .find('[')
+        .map_or(test_path.len(), |i| file_end + i);
+    let parts: Vec<&str> = test_path[..id_end].split("::").collect();
     match parts.len() {
         0 => test_path.to_string(), // Shouldn't happen, but handle gracefully
         1 => parts[0].to_string(),  // Just file path
-- 
2.43.0


From 583929368304adfe1306075e74590f09277533ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 12/37] fix: native runner: run the configured testpaths, as
 collected, when no path is given

---
 src/pyo3.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 4848a90..68e8383 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -233,7 +233,17 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
             };
 
             // For execution, still use file-based collection (worker handles discovery)
-            let test_files = collect_test_files(&rootpath, &args.files, &python_files);
+            // of what was collected: the given paths, or else the configured testpaths, if any
+            let paths = if args.files.is_empty() {
+                pytest_config
+                    .testpaths
+                    .iter()
+                    .map(|p| p.to_string_lossy().into_owned())
+                    .collect()
+            } else {
+                args.files
+            };
+            let test_files = collect_test_files(&rootpath, &paths, &python_files);
 
             let config = NativeRunnerConfig {
                 python_executable,
-- 
2.43.0


From 83cd2443b81f2780f3ba5dbd323b8405b79c3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:21 +0000
Subject: [PATCH 13/37] fix: worker: a test or module that raises SystemExit
 does not end the worker

---
 python/rtest/worker/runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5424810..46cedd7 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -232,7 +232,9 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
-    except Exception as e:
+    except KeyboardInterrupt:
+        raise
+    except BaseException as e:
         outcome = "error"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
@@ -295,7 +297,9 @@ def run_tests(
             loaded_modules.append(module_name)
             test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
             all_test_cases.extend(test_cases)
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
             try:
                 rel_path = str(file_path.relative_to(root))
             except ValueError:
-- 
2.43.0


From 15454731ffbd8e30e552d68a609c7199d1fde071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 14/37] fix: worker: lone surrogates in captured output do not
 make the results unparsable

---
 python/rtest/worker/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 46cedd7..7067b49 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -328,10 +328,11 @@ def run_tests(
         sys.modules.pop(loaded_module_name, None)
 
     output_file.parent.mkdir(parents=True, exist_ok=True)
-    with output_file.open("w") as f:
+    # Lone surrogates are replaced: written as escapes they make the results unparsable
+    with output_file.open("w", encoding="utf-8", errors="replace") as f:
         for result in results:
             result_dict: dict[str, object] = asdict(result)
-            f.write(json.dumps(result_dict) + "\n")
+            f.write(json.dumps(result_dict, ensure_ascii=False) + "\n")
 
     has_failures = any(r.outcome in ("failed", "error") for r in results)
     return 1 if has_failures else 0
-- 
2.43.0


From 522d4c241800eae9720bcb18fb11e73d06504746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 15/37] fix: worker: run the method a test case was discovered
 under, whatever its __name__

---
 python/rtest/worker/runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 7067b49..1d12a51 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -39,6 +39,7 @@ class TestCase:
     skip: bool = False
     skip_reason: str = ""
     test_class: type | None = None
+    method_name: str = ""
 
 
 def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
@@ -184,6 +185,7 @@ def _discover_tests_in_module(
                                 skip=skip,
                                 skip_reason=skip_reason,
                                 test_class=class_obj,
+                                method_name=method_name,
                             )
                         )
 
@@ -218,7 +220,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                 if setup is not None:
                     setup()
                 try:
-                    bound_method: Callable[..., object] = getattr(instance, test_case.func.__name__)
+                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                     bound_method(**test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
-- 
2.43.0


From 0a5443691a549261ea1d4f3b15524f797e6e0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 16/37] fix: worker: a test that closes its captured streams
 does not end the worker

---
 python/rtest/worker/runner.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 1d12a51..34afa1a 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -16,6 +16,13 @@ from types import FunctionType, MappingProxyType, ModuleType
 from typing import Callable, Literal
 
 
+class _Capture(io.StringIO):
+    """Captured stream whose text outlives an attempt by the test to close it."""
+
+    def close(self) -> None:
+        pass
+
+
 @dataclass
 class TestResult:
     """Result of a single test execution."""
@@ -202,8 +209,8 @@ def _run_single_test(test_case: TestCase) -> TestResult:
             error={"reason": test_case.skip_reason} if test_case.skip_reason else None,
         )
 
-    stdout_capture = io.StringIO()
-    stderr_capture = io.StringIO()
+    stdout_capture = _Capture()
+    stderr_capture = _Capture()
 
     outcome = "passed"
     error_info: dict[str, str] | None = None
-- 
2.43.0


From b1cec9158a07ac7914343000914c93d50dd15364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 17/37] fix: worker: coroutine and generator tests, whose body
 never runs, do not pass

---
 python/rtest/worker/runner.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 34afa1a..7a15b6d 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -199,6 +199,15 @@ def _discover_tests_in_module(
     return test_cases
 
 
+def _call(func: Callable[..., object], kwargs: dict[str, object]) -> None:
+    """Call a test, setup or teardown function; one whose body calling does not run is an error."""
+    result = func(**kwargs)
+    if inspect.iscoroutine(result) or inspect.isgenerator(result) or inspect.isasyncgen(result):
+        if inspect.iscoroutine(result):
+            result.close()
+        raise TypeError(f"{type(result).__name__} functions are not supported: nothing was run")
+
+
 def _run_single_test(test_case: TestCase) -> TestResult:
     """Execute a single test case and capture results."""
     if test_case.skip:
@@ -225,18 +234,18 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                     instance, "setUp", None
                 )
                 if setup is not None:
-                    setup()
+                    _call(setup, {})
                 try:
                     bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
-                    bound_method(**test_case.kwargs)
+                    _call(bound_method, test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                         instance, "tearDown", None
                     )
                     if teardown is not None:
-                        teardown()
+                        _call(teardown, {})
             else:
-                test_case.func(**test_case.kwargs)
+                _call(test_case.func, test_case.kwargs)
     except AssertionError as e:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
-- 
2.43.0


From 1be0b2c791ebbb844a247d901bd9ac2b8d627a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 18/37] fix: collection: respect python_files, python_classes
 and python_functions of pyproject.toml

The native runner runs the files and tests these patterns select, but a
project whose tests only match configured patterns was reported as having no
tests, with exit status 0, because collection always used the default ones.
---
 src/collection/nodes.rs         | 19 ++++++++++++++++++-
 src/python_discovery/pattern.rs | 12 ++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 0f71a2c..6c4296d 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -24,10 +24,23 @@ pub struct Session {
 
 impl Session {
     pub fn new(rootpath: PathBuf) -> Self {
+        // The same patterns as the tests are run with
+        let pytest_config = crate::config::read_pytest_config(&rootpath);
+        let mut config = CollectionConfig::default();
+        if !pytest_config.python_files.is_empty() {
+            config.python_files = pytest_config.python_files;
+        }
+        if !pytest_config.python_classes.is_empty() {
+            config.python_classes = pytest_config.python_classes;
+        }
+        if !pytest_config.python_functions.is_empty() {
+            config.python_functions = pytest_config.python_functions;
+        }
+
         Self {
             nodeid: String::new(),
             rootpath,
-            config: CollectionConfig::default(),
+            config,
             cache: HashMap::new(),
         }
     }
@@ -131,6 +144,10 @@ impl Session {
     pub fn is_python_file(&self, path: &Path) -> bool {
         let filename = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
 
+        if path.extension().is_none_or(|ext| ext != "py") {
+            return false;
+        }
+
         for pattern in &self.config.python_files {
             if glob_match(pattern, filename) {
                 return true;
diff --git a/src/python_discovery/pattern.rs b/src/python_discovery/pattern.rs
index e0e2785..73cb72c 100644
--- a/src/python_discovery/pattern.rs
+++ b/src/python_discovery/pattern.rs
@@ -1,14 +1,10 @@
 //! Pattern matching utilities for test discovery.
 
-/// Check if a name matches a pattern (supports * wildcards)
+use crate::collection::glob_match;
+
+/// Check if a name matches a glob pattern, as the native worker does
 pub fn matches(pattern: &str, name: &str) -> bool {
-    if let Some(prefix) = pattern.strip_suffix('*') {
-        name.starts_with(prefix)
-    } else if let Some(suffix) = pattern.strip_prefix('*') {
-        name.ends_with(suffix)
-    } else {
-        pattern == name
-    }
+    glob_match(pattern, name)
 }
 
 #[cfg(test)]
-- 
2.43.0


From bf0f6cd0b070967c554a4e8c9dbd1a64c2fc63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 19/37] fix: native runner: print crashed workers' stderr in
 worker order

It was printed by the worker threads, so its order changed from run to run.
---
 src/native_runner.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index a6975ec..520bee8 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -247,17 +247,16 @@ fn run_worker(
         let exit_code = output.status.code().unwrap_or(-1);
         // Exit code 1 is expected when tests fail, only report unexpected codes
         if exit_code != 1 {
-            // Print stderr only for unexpected failures
-            if !output.stderr.is_empty() {
-                let stderr = String::from_utf8_lossy(&output.stderr);
-                if !stderr.trim().is_empty() {
-                    eprintln!("Worker {} stderr:\n{}", worker_id, stderr);
-                }
-            }
-            return Err(format!(
+            let mut message = format!(
                 "Worker {} crashed with exit code {} (expected 0 or 1)",
                 worker_id, exit_code
-            ));
+            );
+            // Show stderr only for unexpected failures
+            let stderr = String::from_utf8_lossy(&output.stderr);
+            if !stderr.trim().is_empty() {
+                message.push_str(&format!("\nWorker {} stderr:\n{}", worker_id, stderr));
+            }
+            return Err(message);
         }
         return Ok(true);
     }
-- 
2.43.0


From 4e964abbbeb6e9f1cf948ca1f0bfdf3b8eff7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 20/37] fix: marks: cases and skip above staticmethod and
 classmethod are no longer lost

---
 python/rtest/mark.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 5cf79e3..fd15c52 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -64,6 +64,11 @@ class ExpandedCase(NamedTuple):
     kwargs: dict[str, object]
 
 
+def _unwrap_method(func: object) -> object:
+    """The function inside a staticmethod or classmethod object: markers set on the object itself are never seen."""
+    return func.__func__ if isinstance(func, (staticmethod, classmethod)) else func
+
+
 class Mark:
     """Container for rtest mark decorators."""
 
@@ -108,9 +113,10 @@ class Mark:
         )
 
         def decorator(func: F) -> F:
-            cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
-            if not getattr(func, "__rtest_cases__", None):
-                func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
+            target = _unwrap_method(func)
+            cases_list: list[ParametrizeSpec] = getattr(target, "__rtest_cases__", None) or []
+            if not getattr(target, "__rtest_cases__", None):
+                target.__rtest_cases__ = cases_list  # type: ignore[attr-defined]
             cases_list.append(spec)
             return func
 
@@ -137,8 +143,9 @@ class Mark:
         """
 
         def decorator(func_or_class: F) -> F:
-            func_or_class.__rtest_skip__ = True  # type: ignore[union-attr]
-            func_or_class.__rtest_skip_reason__ = reason  # type: ignore[union-attr]
+            target = _unwrap_method(func_or_class)
+            target.__rtest_skip__ = True  # type: ignore[attr-defined]
+            target.__rtest_skip_reason__ = reason  # type: ignore[attr-defined]
             return func_or_class
 
         return decorator
-- 
2.43.0


From 7bb51d2008389f462315de0b86581d97a766bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 21/37] fix: marks: cases on a functools.wraps wrapper no
 longer change the wrapped test

---
 python/rtest/mark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index fd15c52..6518a20 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -114,10 +114,9 @@ class Mark:
 
         def decorator(func: F) -> F:
             target = _unwrap_method(func)
+            # Always a new list: functools.wraps shares the old one with the wrapped function
             cases_list: list[ParametrizeSpec] = getattr(target, "__rtest_cases__", None) or []
-            if not getattr(target, "__rtest_cases__", None):
-                target.__rtest_cases__ = cases_list  # type: ignore[attr-defined]
-            cases_list.append(spec)
+            target.__rtest_cases__ = [*cases_list, spec]  # type: ignore[attr-defined]
             return func
 
         return decorator
-- 
2.43.0


From 031fcf6e2b09aae38799c10e486060e4b17cca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 22/37] fix: marks: run parametrize with any iterable and with
 keyword arguments instead of dropping the test

---
 python/rtest/mark.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 6518a20..c31a070 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -23,7 +23,7 @@ import itertools
 import warnings
 from dataclasses import dataclass
 from types import FunctionType, MappingProxyType
-from typing import Callable, NamedTuple, Sequence, TypeVar
+from typing import Callable, Mapping, NamedTuple, Sequence, TypeVar
 
 # TypeVar for decorators that preserve function signatures
 # The bound includes "type" to support decorating classes as well as functions
@@ -220,17 +220,15 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
     return entries
 
 
-def _extract_pytest_marker_args(mark_args: tuple[object, ...]) -> PytestMarkerArgs:
-    """Extract argnames and argvalues from pytest marker args.
+def _extract_pytest_marker_args(mark_args: tuple[object, ...], mark_kwargs: Mapping[str, object]) -> PytestMarkerArgs:
+    """Extract argnames and argvalues from pytest marker args, positional or keyword.
 
     Returns:
         PytestMarkerArgs with defaults for missing values.
     """
-    if len(mark_args) >= 2:
-        return PytestMarkerArgs(mark_args[0], mark_args[1])
-    elif len(mark_args) == 1:
-        return PytestMarkerArgs(mark_args[0], [])
-    return PytestMarkerArgs("", [])
+    argnames = mark_args[0] if mark_args else mark_kwargs.get("argnames", "")
+    argvalues = mark_args[1] if len(mark_args) >= 2 else mark_kwargs.get("argvalues", [])
+    return PytestMarkerArgs(argnames, argvalues)
 
 
 def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
@@ -253,7 +251,7 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
             # Convert pytest marker to ParametrizeSpec
             mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
             mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
-            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args)
+            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args, mark_kwargs)
             ids_raw: object = mark_kwargs.get("ids")
 
             if isinstance(argnames_raw, str):
@@ -262,9 +260,6 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
                 # Assume it's a sequence of strings - need type ignore for iteration on object
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
 
-            # Convert argvalues to tuple
-            argvalues_seq: Sequence[object] = argvalues_raw if isinstance(argvalues_raw, (list, tuple)) else []
-
             # Handle ids
             ids_tuple: tuple[str, ...] | None = None
             if ids_raw is not None and isinstance(ids_raw, (list, tuple)):
@@ -273,7 +268,7 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
             specs.append(
                 ParametrizeSpec(
                     argnames=parsed_argnames,
-                    argvalues=tuple(argvalues_seq),
+                    argvalues=tuple(argvalues_raw),  # type: ignore[arg-type]
                     ids=ids_tuple,
                 )
             )
-- 
2.43.0


From 71fd0af0f038b2cd84677d48d839e05e43508973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 23/37] fix: worker: run test methods that are classmethods

---
 python/rtest/worker/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 7a15b6d..35d8e3d 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -172,7 +172,8 @@ def _discover_tests_in_module(
                     if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
                         continue
                     method_obj: object = getattr(class_obj, method_name)
-                    if not inspect.isfunction(method_obj):
+                    # A classmethod is found as a method bound to its class
+                    if not (inspect.isfunction(method_obj) or inspect.ismethod(method_obj)):
                         continue
                     method_func: FunctionType = method_obj  # type: ignore[assignment]
                     seen_methods.add(method_name)
-- 
2.43.0


From a13082c64d3be6c6a1ec1550fb6d6128c0515b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 24/37] fix: worker: pytestmark may be a single marker, and
 base classes' markers hold

---
 python/rtest/worker/runner.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 35d8e3d..d2ff9eb 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -88,6 +88,18 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
+def _pytest_marks(obj: object) -> list[object]:
+    """The pytest markers of a function, or of a class and its bases; pytestmark may be a single marker."""
+    if inspect.isclass(obj):
+        owners: list[object] = [vars(c).get("pytestmark", []) for c in inspect.getmro(obj)]
+    else:
+        owners = [getattr(obj, "pytestmark", [])]
+    marks: list[object] = []
+    for owner in owners:
+        marks.extend(owner if isinstance(owner, (list, tuple)) else [owner])
+    return marks
+
+
 def _is_skipped(obj: object) -> tuple[bool, str]:
     """Check if an object has the skip marker (rtest or pytest)."""
     from rtest.mark import SKIP_DEPRECATION_MSG
@@ -99,8 +111,7 @@ def _is_skipped(obj: object) -> tuple[bool, str]:
         return True, skip_reason_attr
 
     # Check pytest marker (with deprecation warning)
-    pytest_marks: list[object] = getattr(obj, "pytestmark", [])
-    for pytest_mark in pytest_marks:
+    for pytest_mark in _pytest_marks(obj):
         if getattr(pytest_mark, "name", None) == "skip":
             func_name: str = str(getattr(obj, "__name__", str(obj)))
             warnings.warn(
-- 
2.43.0


From 9388c47eedda7d97b43fd55e1d4aae68e1b97154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 25/37] fix: worker: module attributes that refuse to tell
 their class do not fail the file

---
 python/rtest/worker/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index d2ff9eb..dbce1d9 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -76,14 +76,15 @@ def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
 
 def _is_test_function(name: str, obj: object, patterns: list[str]) -> bool:
     """Check if an object is a test function based on patterns."""
-    if not inspect.isfunction(obj):
+    # The type itself: isinstance asks the object, and a lazy proxy may raise
+    if not issubclass(type(obj), FunctionType):
         return False
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
 def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     """Check if an object is a test class based on patterns."""
-    if not inspect.isclass(obj):
+    if not issubclass(type(obj), type):
         return False
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
-- 
2.43.0


From f57948f1264d2e4cb3f0ad7a3da71682a925f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 26/37] fix: worker: a process forked by a test does not go on
 as a second worker

---
 python/rtest/worker/runner.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index dbce1d9..17bd98b 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -6,6 +6,7 @@ import importlib.util
 import inspect
 import io
 import json
+import os
 import sys
 import time
 import traceback
@@ -237,6 +238,8 @@ def _run_single_test(test_case: TestCase) -> TestResult:
     outcome = "passed"
     error_info: dict[str, str] | None = None
     error_type: str | None = None
+    exit_code: object = None
+    pid = os.getpid()
     start_time = time.perf_counter()
 
     try:
@@ -269,6 +272,13 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         outcome = "error"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
+        exit_code = (e.code or 0) if isinstance(e, SystemExit) else 1
+
+    if os.getpid() != pid:
+        # A process the test forked must not go on to run and record the remaining tests
+        if not isinstance(exit_code, int):
+            exit_code = 0 if outcome == "passed" else 1
+        os._exit(exit_code & 0xFF)
 
     duration_ms = (time.perf_counter() - start_time) * 1000
 
-- 
2.43.0


From 215e2292fdcf89540c6a529c754a4ebe4e2c7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 27/37] fix: worker: test files whose dotted paths coincide get
 modules of their own

---
 python/rtest/worker/runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 17bd98b..68c3f86 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -64,6 +64,10 @@ def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
     # Add prefix to avoid collisions with installed packages
     module_name = f"_rtest_module_.{module_name}"
 
+    # a.b/test_x.py and a/b/test_x.py are different modules
+    while module_name in sys.modules:
+        module_name += "_"
+
     spec = importlib.util.spec_from_file_location(module_name, file_path)
     if spec is None or spec.loader is None:
         raise ImportError(f"Cannot load module from {file_path}")
-- 
2.43.0


From 16d18cdddc0b5319b645d9dfbe0d6cb3a4b15c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 28/37] fix: run_tests: a relative root path reaches pytest as
 an absolute one

---
 src/pyo3.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 68e8383..e4d6a78 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -105,7 +105,14 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
     let (rootpath, filtered_args) = if let Some(first_arg) = pytest_args.first() {
         if !first_arg.starts_with('-') && std::path::Path::new(first_arg).exists() {
             // First argument is a path, use it as root and remove it from pytest args
-            let path = PathBuf::from(first_arg);
+            // (absolute, because pytest is started in it and given it as --rootdir)
+            let path = match get_current_dir() {
+                Ok(dir) => dir.join(first_arg),
+                Err(e) => {
+                    eprintln!("{e}");
+                    return 1;
+                }
+            };
             let remaining_args = pytest_args.into_iter().skip(1).collect();
             (path, remaining_args)
         } else {
-- 
2.43.0


From 7f67168de6dde662d23ba1326e41ae36bbb5218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 29/37] fix: run_tests: tests of subprojects run in their own
 project, as on the command line

---
 src/pyo3.rs | 83 +++++++++++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index e4d6a78..fb6aa48 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -3,7 +3,7 @@
 use clap::Parser;
 use pyo3::prelude::*;
 use std::env;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use crate::cli::{exit_codes, Args, Runner};
 use crate::collection::error::CollectionError;
@@ -93,6 +93,46 @@ fn get_python_executable(py: Python) -> String {
         .unwrap_or_else(|_| "python3".to_string())
 }
 
+/// Run the tests with one pytest process per subproject, one after the other.
+fn execute_by_subproject(
+    runner: &PytestRunner,
+    rootpath: &Path,
+    test_nodes: Vec<String>,
+    pytest_args: &[String],
+) -> i32 {
+    // Group tests by subproject
+    let test_groups = subproject::group_tests_by_subproject(rootpath, &test_nodes);
+
+    let mut overall_exit_code = 0;
+
+    for (subproject_root, tests) in test_groups {
+        if tests.is_empty() {
+            continue;
+        }
+
+        let adjusted_tests = if subproject_root != rootpath {
+            subproject::make_test_paths_relative(&tests, rootpath, &subproject_root)
+        } else {
+            tests
+        };
+
+        let code = execute_tests(
+            &runner.program,
+            &runner.initial_args,
+            adjusted_tests,
+            pytest_args.to_vec(),
+            Some(&subproject_root),
+            &runner.env_vars,
+        );
+
+        if code != 0 {
+            overall_exit_code = code;
+        }
+    }
+
+    overall_exit_code
+}
+
 #[pyfunction]
 #[pyo3(signature = (pytest_args=None))]
 fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
@@ -154,14 +194,7 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
         return 0;
     }
 
-    execute_tests(
-        &runner.program,
-        &runner.initial_args,
-        test_nodes,
-        filtered_args,
-        Some(&rootpath),
-        &runner.env_vars,
-    )
+    execute_by_subproject(&runner, &rootpath, test_nodes, &filtered_args)
 }
 
 #[pyfunction]
@@ -291,37 +324,7 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
             }
 
             let exit_code = if worker_count == 1 || args.dist == "no" {
-                // Group tests by subproject
-                let test_groups = subproject::group_tests_by_subproject(&rootpath, &test_nodes);
-
-                let mut overall_exit_code = 0;
-
-                for (subproject_root, tests) in test_groups {
-                    if tests.is_empty() {
-                        continue;
-                    }
-
-                    let adjusted_tests = if subproject_root != rootpath {
-                        subproject::make_test_paths_relative(&tests, &rootpath, &subproject_root)
-                    } else {
-                        tests
-                    };
-
-                    let code = execute_tests(
-                        &runner.program,
-                        &runner.initial_args,
-                        adjusted_tests,
-                        vec![],
-                        Some(&subproject_root),
-                        &runner.env_vars,
-                    );
-
-                    if code != 0 {
-                        overall_exit_code = code;
-                    }
-                }
-
-                overall_exit_code
+                execute_by_subproject(&runner, &rootpath, test_nodes, &[])
             } else {
                 let config = ParallelExecutionConfig {
                     program: &runner.program,
-- 
2.43.0


From ee741b5afd50928fc8ba4b90c31a397460097c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 30/37] fix: native runner: test files reached through links
 are run, as they are collected

---
 src/native_runner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 520bee8..a14c6d6 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -384,7 +384,9 @@ fn is_test_file(path: &Path, patterns: &[String]) -> bool {
 }
 
 fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
+    // Collection lists tests reached through links
     WalkDir::new(dir)
+        .follow_links(true)
         .into_iter()
         .filter_entry(|e| {
             // The directory itself may have any name
-- 
2.43.0


From 3d2775136fc543cbac6e40a8614c713ee71093fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 31/37] fix: native runner: directories that collection ignores
 are left out

---
 src/native_runner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index a14c6d6..7e1e1cc 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -1,5 +1,6 @@
 //! Native test runner that executes tests via Python workers.
 
+use crate::collection::config::CollectionConfig;
 use crate::collection::glob_match;
 use serde::Deserialize;
 use std::collections::HashSet;
@@ -384,6 +385,8 @@ fn is_test_file(path: &Path, patterns: &[String]) -> bool {
 }
 
 fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
+    // Collection does not descend into these
+    let norecursedirs = CollectionConfig::default().norecursedirs;
     // Collection lists tests reached through links
     WalkDir::new(dir)
         .follow_links(true)
@@ -393,7 +396,11 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
             e.depth() == 0
                 || e.file_name()
                     .to_str()
-                    .map(|n| !is_hidden_or_ignored(n))
+                    .map(|n| {
+                        !is_hidden_or_ignored(n)
+                            && !(e.file_type().is_dir()
+                                && norecursedirs.iter().any(|p| glob_match(p, n)))
+                    })
                     .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
-- 
2.43.0


From cea42192ce9b52c4b1de335b4e019bd392f454fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 32/37] fix: a pyproject.toml that cannot be read or parsed is
 an error, not the default configuration

---
 src/collection/nodes.rs | 33 ++++++++++++++++++++++-----------
 src/config.rs           | 34 +++++++++++++++++-----------------
 src/pyo3.rs             |  7 +++++--
 3 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 6c4296d..1978884 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -4,6 +4,7 @@ use super::config::CollectionConfig;
 use super::error::{CollectionError, CollectionOutcome, CollectionResult, CollectionWarning};
 use super::types::{Collector, Location};
 use super::utils::glob_match;
+use crate::config::{try_read_pytest_config, PytestConfig};
 use crate::python_discovery::{
     discover_tests_with_inheritance, format_cannot_expand_warning, test_info_to_functions,
     CasesExpansion, TestDiscoveryConfig,
@@ -18,6 +19,8 @@ pub struct Session {
     pub rootpath: PathBuf,
     pub nodeid: String,
     pub config: CollectionConfig,
+    /// Why the configuration cannot be used, if it cannot
+    config_error: Option<String>,
     #[allow(dead_code)]
     cache: HashMap<PathBuf, Vec<Box<dyn Collector>>>,
 }
@@ -25,8 +28,18 @@ pub struct Session {
 impl Session {
     pub fn new(rootpath: PathBuf) -> Self {
         // The same patterns as the tests are run with
-        let pytest_config = crate::config::read_pytest_config(&rootpath);
-        let mut config = CollectionConfig::default();
+        let (pytest_config, config_error) = match try_read_pytest_config(&rootpath) {
+            Ok(pytest_config) => (pytest_config, None),
+            Err(e) => (PytestConfig::default(), Some(e)),
+        };
+        let mut config = CollectionConfig {
+            testpaths: pytest_config
+                .testpaths
+                .iter()
+                .map(|p| rootpath.join(p))
+                .collect(),
+            ..CollectionConfig::default()
+        };
         if !pytest_config.python_files.is_empty() {
             config.python_files = pytest_config.python_files;
         }
@@ -41,6 +54,7 @@ impl Session {
             nodeid: String::new(),
             rootpath,
             config,
+            config_error,
             cache: HashMap::new(),
         }
     }
@@ -63,16 +77,13 @@ impl Session {
         self: Rc<Self>,
         args: &[String],
     ) -> CollectionResult<(Vec<Box<dyn Collector>>, Vec<(String, CollectionError)>)> {
+        // Without its configuration it is not known which tests the project has
+        if let Some(e) = &self.config_error {
+            return Err(CollectionError::ParseError(e.clone()));
+        }
+
         let paths = if args.is_empty() {
-            let pytest_config = crate::config::read_pytest_config(&self.rootpath);
-
-            if !pytest_config.testpaths.is_empty() {
-                pytest_config
-                    .testpaths
-                    .iter()
-                    .map(|p| self.rootpath.join(p))
-                    .collect()
-            } else if self.config.testpaths.is_empty() {
+            if self.config.testpaths.is_empty() {
                 vec![self.rootpath.clone()]
             } else {
                 self.config.testpaths.clone()
diff --git a/src/config.rs b/src/config.rs
index 8abb1b3..d7d9eb4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -17,30 +17,30 @@ pub struct PytestConfig {
     pub python_functions: Vec<String>,
 }
 
-/// Read pytest configuration from pyproject.toml
+/// Read pytest configuration from pyproject.toml; the defaults if it cannot be used
 pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
-    let pyproject_path = root_path.join("pyproject.toml");
+    try_read_pytest_config(root_path).unwrap_or_else(|e| {
+        debug!("{e}");
+        PytestConfig::default()
+    })
+}
 
-    if !pyproject_path.exists() {
-        debug!("No pyproject.toml found at {pyproject_path:?}");
-        return PytestConfig::default();
-    }
+/// Read pytest configuration from pyproject.toml, if there is one. An error says why the
+/// configuration that is there cannot be used.
+pub fn try_read_pytest_config(root_path: &Path) -> Result<PytestConfig, String> {
+    let pyproject_path = root_path.join("pyproject.toml");
 
     let content = match std::fs::read_to_string(&pyproject_path) {
         Ok(content) => content,
-        Err(e) => {
-            debug!("Failed to read pyproject.toml: {e}");
-            return PytestConfig::default();
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound || pyproject_path.is_dir() => {
+            debug!("No pyproject.toml found at {pyproject_path:?}");
+            return Ok(PytestConfig::default());
         }
+        Err(e) => return Err(format!("{}: {e}", pyproject_path.display())),
     };
 
-    let toml_value: Value = match toml::from_str(&content) {
-        Ok(value) => value,
-        Err(e) => {
-            debug!("Failed to parse pyproject.toml: {e}");
-            return PytestConfig::default();
-        }
-    };
+    let toml_value: Value =
+        toml::from_str(&content).map_err(|e| format!("{}: {e}", pyproject_path.display()))?;
 
     let mut config = PytestConfig::default();
 
@@ -106,7 +106,7 @@ pub fn read_pytest_config(root_path: &Path) -> PytestConfig {
         );
     }
 
-    config
+    Ok(config)
 }
 
 #[cfg(test)]
diff --git a/src/pyo3.rs b/src/pyo3.rs
index fb6aa48..598964f 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 
 use crate::cli::{exit_codes, Args, Runner};
 use crate::collection::error::CollectionError;
-use crate::config::read_pytest_config;
+use crate::config::try_read_pytest_config;
 use crate::{
     collect_test_files, collect_tests_rust, default_python_classes, default_python_files,
     default_python_functions, determine_worker_count, display_collection_results, execute_native,
@@ -255,7 +255,10 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
             }
 
             // Read pytest configuration for collection patterns
-            let pytest_config = read_pytest_config(&rootpath);
+            let pytest_config = match try_read_pytest_config(&rootpath) {
+                Ok(pytest_config) => pytest_config,
+                Err(e) => handle_collection_error(CollectionError::ParseError(e)),
+            };
             let python_files = if pytest_config.python_files.is_empty() {
                 default_python_files()
             } else {
-- 
2.43.0


From cd9baeb071b8932c7d6e603071209592532e4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 33/37] fix: names, patterns and testpaths given as one string
 in pyproject.toml are used, as by pytest

---
 src/config.rs | 59 ++++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d7d9eb4..861d09f 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -49,57 +49,29 @@ pub fn try_read_pytest_config(root_path: &Path) -> Result<PytestConfig, String>
         .and_then(|t| t.get("pytest"))
         .and_then(|p| p.get("ini_options"));
 
-    if let Some(testpaths) = ini_options
-        .and_then(|i| i.get("testpaths"))
-        .and_then(|t| t.as_array())
-    {
-        config.testpaths = testpaths
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(PathBuf::from)
-            .collect();
+    if let Some(testpaths) = string_list(ini_options, "testpaths") {
+        config.testpaths = testpaths.into_iter().map(PathBuf::from).collect();
         debug!("Found testpaths in pyproject.toml: {:?}", config.testpaths);
     }
 
-    if let Some(python_files) = ini_options
-        .and_then(|i| i.get("python_files"))
-        .and_then(|t| t.as_array())
-    {
-        config.python_files = python_files
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(String::from)
-            .collect();
+    if let Some(python_files) = string_list(ini_options, "python_files") {
+        config.python_files = python_files;
         debug!(
             "Found python_files in pyproject.toml: {:?}",
             config.python_files
         );
     }
 
-    if let Some(python_classes) = ini_options
-        .and_then(|i| i.get("python_classes"))
-        .and_then(|t| t.as_array())
-    {
-        config.python_classes = python_classes
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(String::from)
-            .collect();
+    if let Some(python_classes) = string_list(ini_options, "python_classes") {
+        config.python_classes = python_classes;
         debug!(
             "Found python_classes in pyproject.toml: {:?}",
             config.python_classes
         );
     }
 
-    if let Some(python_functions) = ini_options
-        .and_then(|i| i.get("python_functions"))
-        .and_then(|t| t.as_array())
-    {
-        config.python_functions = python_functions
-            .iter()
-            .filter_map(|v| v.as_str())
-            .map(String::from)
-            .collect();
+    if let Some(python_functions) = string_list(ini_options, "python_functions") {
+        config.python_functions = python_functions;
         debug!(
             "Found python_functions in pyproject.toml: {:?}",
             config.python_functions
@@ -109,6 +81,21 @@ pub fn try_read_pytest_config(root_path: &Path) -> Result<PytestConfig, String>
     Ok(config)
 }
 
+/// A list of names or patterns: an array of strings, or one string of them separated by blanks
+fn string_list(ini_options: Option<&Value>, key: &str) -> Option<Vec<String>> {
+    match ini_options?.get(key)? {
+        Value::Array(values) => Some(
+            values
+                .iter()
+                .filter_map(|v| v.as_str())
+                .map(String::from)
+                .collect(),
+        ),
+        Value::String(values) => Some(values.split_whitespace().map(String::from).collect()),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From fd1c8f4d8f5d5171dfe012fbf7fb6ce2a175beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 34/37] fix: files and directories that cannot be examined
 while tests are looked up are errors, not left out

---
 src/collection/nodes.rs | 28 ++++++++++++++++---
 src/lib.rs              |  4 +--
 src/native_runner.rs    | 60 ++++++++++++++++++++++++++++++++++-------
 src/pyo3.rs             | 11 ++++++--
 4 files changed, 85 insertions(+), 18 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 1978884..02dfd0d 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -113,10 +113,16 @@ impl Session {
         // The directories to ignore are those met while descending: the root of the project and
         // the paths that are asked for may have any name
 
-        if path.is_dir() {
+        let metadata = match std::fs::metadata(path) {
+            Ok(metadata) => metadata,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(vec![]),
+            Err(e) => return Err(e.into()),
+        };
+
+        if metadata.is_dir() {
             let dir = Directory::new(path.to_path_buf(), Rc::clone(self));
             Ok(vec![Box::new(dir)])
-        } else if path.is_file() && self.is_python_file(path) {
+        } else if metadata.is_file() && self.is_python_file(path) {
             let module = Module::new(path.to_path_buf(), Rc::clone(self));
             Ok(vec![Box::new(module)])
         } else {
@@ -251,10 +257,24 @@ impl Collector for Directory {
                 continue;
             }
 
-            if path.is_dir() {
+            let (is_dir, is_file) = match std::fs::metadata(&path) {
+                Ok(metadata) => (metadata.is_dir(), metadata.is_file()),
+                Err(err) if err.kind() == std::io::ErrorKind::PermissionDenied => continue,
+                // A link may lead nowhere; anything else that cannot be examined is collected
+                // nevertheless, so that reading it tells what is wrong
+                Err(_) => match entry.file_type() {
+                    Ok(file_type) => (file_type.is_dir(), file_type.is_file()),
+                    Err(_) => {
+                        let is_file = self.session().is_python_file(&path);
+                        (!is_file, is_file)
+                    }
+                },
+            };
+
+            if is_dir {
                 let dir = Directory::new(path, Rc::clone(&self.parent_session));
                 items.push(Box::new(dir) as Box<dyn Collector>);
-            } else if path.is_file() && self.session().is_python_file(&path) {
+            } else if is_file && self.session().is_python_file(&path) {
                 let module = Module::new(path, Rc::clone(&self.parent_session));
                 items.push(Box::new(module) as Box<dyn Collector>);
             }
diff --git a/src/lib.rs b/src/lib.rs
index 6e5025a..b1008a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,8 +18,8 @@ pub mod worker;
 pub use collection::error::{CollectionError, CollectionResult};
 pub use collection_integration::{collect_tests_rust, display_collection_results};
 pub use native_runner::{
-    collect_test_files, default_python_classes, default_python_files, default_python_functions,
-    execute_native, NativeRunnerConfig,
+    collect_test_files, collect_test_files_or_errors, default_python_classes, default_python_files,
+    default_python_functions, execute_native, NativeRunnerConfig,
 };
 #[cfg(feature = "extension-module")]
 pub use pyo3::_rtest;
diff --git a/src/native_runner.rs b/src/native_runner.rs
index 7e1e1cc..f6f421a 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -384,7 +384,25 @@ fn is_test_file(path: &Path, patterns: &[String]) -> bool {
     false
 }
 
-fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
+/// Was it only a link that leads nowhere or in circles, something removed meanwhile, or a
+/// directory there is no permission to enter?
+fn may_be_left_out(error: &walkdir::Error) -> bool {
+    let kind = error.io_error().map(|e| e.kind());
+    error.loop_ancestor().is_some()
+        || matches!(
+            kind,
+            Some(std::io::ErrorKind::NotFound | std::io::ErrorKind::PermissionDenied)
+        )
+        || error
+            .path()
+            .is_some_and(|p| p.is_symlink() && std::fs::metadata(p).is_err())
+}
+
+fn collect_test_files_in_dir(
+    dir: &Path,
+    patterns: &[String],
+    errors: &mut Vec<String>,
+) -> Vec<PathBuf> {
     // Collection does not descend into these
     let norecursedirs = CollectionConfig::default().norecursedirs;
     // Collection lists tests reached through links
@@ -403,15 +421,33 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
                     })
                     .unwrap_or(false)
         })
-        .filter_map(|e| e.ok())
+        .filter_map(|e| match e {
+            Ok(e) => Some(e),
+            Err(e) => {
+                if !may_be_left_out(&e) {
+                    errors.push(e.to_string());
+                }
+                None
+            }
+        })
         .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
         .map(|e| e.into_path())
         .collect()
 }
 
 pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) -> Vec<PathBuf> {
+    collect_test_files_or_errors(root, paths, patterns).0
+}
+
+/// The test files, and the errors because of which there may be more of them
+pub fn collect_test_files_or_errors(
+    root: &Path,
+    paths: &[String],
+    patterns: &[String],
+) -> (Vec<PathBuf>, Vec<String>) {
+    let mut errors = Vec::new();
     let mut test_files = if paths.is_empty() {
-        collect_test_files_in_dir(root, patterns)
+        collect_test_files_in_dir(root, patterns, &mut errors)
     } else {
         paths
             .iter()
@@ -423,12 +459,16 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
                     root.join(path)
                 };
 
-                if full_path.is_file() && is_test_file(&full_path, patterns) {
-                    vec![full_path]
-                } else if full_path.is_dir() {
-                    collect_test_files_in_dir(&full_path, patterns)
-                } else {
-                    vec![]
+                match std::fs::metadata(&full_path) {
+                    Ok(m) if m.is_file() && is_test_file(&full_path, patterns) => vec![full_path],
+                    Ok(m) if m.is_dir() => {
+                        collect_test_files_in_dir(&full_path, patterns, &mut errors)
+                    }
+                    Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                        errors.push(format!("{}: {e}", full_path.display()));
+                        vec![]
+                    }
+                    _ => vec![],
                 }
             })
             .collect()
@@ -438,7 +478,7 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
     // Overlapping paths must not run a file twice
     let mut seen = HashSet::new();
     test_files.retain(|f| seen.insert(f.canonicalize().unwrap_or_else(|_| f.clone())));
-    test_files
+    (test_files, errors)
 }
 
 #[cfg(test)]
diff --git a/src/pyo3.rs b/src/pyo3.rs
index 598964f..62e108d 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -9,7 +9,7 @@ use crate::cli::{exit_codes, Args, Runner};
 use crate::collection::error::CollectionError;
 use crate::config::try_read_pytest_config;
 use crate::{
-    collect_test_files, collect_tests_rust, default_python_classes, default_python_files,
+    collect_test_files_or_errors, collect_tests_rust, default_python_classes, default_python_files,
     default_python_functions, determine_worker_count, display_collection_results, execute_native,
     execute_tests, execute_tests_parallel, subproject, NativeRunnerConfig, ParallelExecutionConfig,
 };
@@ -286,7 +286,14 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
             } else {
                 args.files
             };
-            let test_files = collect_test_files(&rootpath, &paths, &python_files);
+            let (test_files, errors) =
+                collect_test_files_or_errors(&rootpath, &paths, &python_files);
+            if !errors.is_empty() {
+                for e in errors {
+                    eprintln!("ERROR: {e}");
+                }
+                std::process::exit(exit_codes::TESTS_FAILED);
+            }
 
             let config = NativeRunnerConfig {
                 python_executable,
-- 
2.43.0


From 285683ae54ab6408f77d4ed998e57b8f77952dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 35/37] fix: a run_tests path spelled through a link or '..'
 still runs each subproject's tests in the subproject

---
 src/pyo3.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 62e108d..84c173f 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -145,9 +145,13 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
     let (rootpath, filtered_args) = if let Some(first_arg) = pytest_args.first() {
         if !first_arg.starts_with('-') && std::path::Path::new(first_arg).exists() {
             // First argument is a path, use it as root and remove it from pytest args
-            // (absolute, because pytest is started in it and given it as --rootdir)
+            // (absolute, because pytest is started in it and given it as --rootdir, and without
+            // links and '..', because subprojects are looked for below it)
             let path = match get_current_dir() {
-                Ok(dir) => dir.join(first_arg),
+                Ok(dir) => {
+                    let path = dir.join(first_arg);
+                    path.canonicalize().unwrap_or(path)
+                }
                 Err(e) => {
                     eprintln!("{e}");
                     return 1;
-- 
2.43.0


From d64da57ee31ea3ca9f4f288be52d117cd2b05e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 36/37] fix: a worker thread that cannot be created fails its
 worker instead of ending the run under the running ones

---
 src/native_runner.rs | 12 +++++++-----
 src/worker.rs        | 28 ++++++++++++++++------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index f6f421a..11e03cb 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -298,7 +298,8 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
         let output_file = output_file.clone();
         let python_classes = config.python_classes.clone();
         let python_functions = config.python_functions.clone();
-        let handle = thread::spawn(move || {
+        // A thread that cannot be created must not end the run while other workers are running
+        let handle = thread::Builder::new().spawn(move || {
             run_worker(
                 i,
                 &python,
@@ -315,10 +316,11 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     let mut worker_errors = Vec::new();
     let mut reported_failures = vec![false; output_files.len()];
     for (i, handle) in handles.into_iter().enumerate() {
-        match handle.join() {
-            Ok(Ok(failures)) => reported_failures[i] = failures,
-            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
-            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
+        match handle.map(|handle| handle.join()) {
+            Ok(Ok(Ok(failures))) => reported_failures[i] = failures,
+            Ok(Ok(Err(e))) => worker_errors.push(format!("Worker {}: {}", i, e)),
+            Ok(Err(_)) => worker_errors.push(format!("Worker {} panicked", i)),
+            Err(e) => worker_errors.push(format!("Worker {} failed to start: {}", i, e)),
         }
     }
 
diff --git a/src/worker.rs b/src/worker.rs
index d33186e..1a418bb 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -27,7 +27,7 @@ pub struct WorkerPool {
 
 struct WorkerHandle {
     id: usize,
-    handle: thread::JoinHandle<WorkerResult>,
+    handle: std::io::Result<thread::JoinHandle<WorkerResult>>,
 }
 
 impl Default for WorkerPool {
@@ -45,7 +45,8 @@ impl WorkerPool {
 
     pub fn spawn_worker(&mut self, task: WorkerTask) {
         let worker_id = task.worker_id;
-        let handle = thread::spawn(move || {
+        // A thread that cannot be created must not end the run while other workers are running
+        let handle = thread::Builder::new().spawn(move || {
             let mut cmd = Command::new(&task.program);
 
             // Set environment variables
@@ -106,17 +107,20 @@ impl WorkerPool {
         let mut results = Vec::new();
 
         for worker in self.workers {
-            match worker.handle.join() {
-                Ok(result) => results.push(result),
-                Err(_) => {
-                    results.push(WorkerResult {
-                        worker_id: worker.id,
-                        exit_code: -1,
-                        stdout: String::new(),
-                        stderr: "Worker thread panicked".into(),
-                    });
+            let stderr = match worker.handle.map(|handle| handle.join()) {
+                Ok(Ok(result)) => {
+                    results.push(result);
+                    continue;
                 }
-            }
+                Ok(Err(_)) => "Worker thread panicked".into(),
+                Err(e) => format!("Failed to start worker thread: {e}"),
+            };
+            results.push(WorkerResult {
+                worker_id: worker.id,
+                exit_code: -1,
+                stdout: String::new(),
+                stderr,
+            });
         }
 
         results.sort_by_key(|r| r.worker_id);
-- 
2.43.0


From aacc6153b2148c07d9aab7012c6631022c1ca1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 37/37] fix: collection does not follow a link back to a
 directory it was reached through, which listed every test 41 times, or never
 ended

---
 src/collection/nodes.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 02dfd0d..ff730b5 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -120,7 +120,7 @@ impl Session {
         };
 
         if metadata.is_dir() {
-            let dir = Directory::new(path.to_path_buf(), Rc::clone(self));
+            let dir = Directory::new(path.to_path_buf(), path.to_path_buf(), Rc::clone(self));
             Ok(vec![Box::new(dir)])
         } else if metadata.is_file() && self.is_python_file(path) {
             let module = Module::new(path.to_path_buf(), Rc::clone(self));
@@ -199,11 +199,13 @@ impl Collector for Session {
 pub struct Directory {
     pub path: PathBuf,
     pub nodeid: String,
+    /// The path collection started from
+    start: PathBuf,
     parent_session: Rc<Session>,
 }
 
 impl Directory {
-    fn new(path: PathBuf, session: Rc<Session>) -> Self {
+    fn new(path: PathBuf, start: PathBuf, session: Rc<Session>) -> Self {
         let nodeid = path
             .strip_prefix(&session.rootpath)
             .unwrap_or(&path)
@@ -213,6 +215,7 @@ impl Directory {
         Self {
             path,
             nodeid,
+            start,
             parent_session: session,
         }
     }
@@ -220,6 +223,17 @@ impl Directory {
     fn session(&self) -> &Session {
         &self.parent_session
     }
+
+    /// Is this a link back to a directory that it was reached through?
+    fn leads_in_circles(&self, path: &Path) -> bool {
+        path.is_symlink()
+            && path.canonicalize().is_ok_and(|target| {
+                self.path
+                    .ancestors()
+                    .take_while(|dir| dir.starts_with(&self.start))
+                    .any(|dir| dir.canonicalize().is_ok_and(|dir| dir == target))
+            })
+    }
 }
 
 impl Collector for Directory {
@@ -271,8 +285,12 @@ impl Collector for Directory {
                 },
             };
 
+            if is_dir && self.leads_in_circles(&path) {
+                continue;
+            }
+
             if is_dir {
-                let dir = Directory::new(path, Rc::clone(&self.parent_session));
+                let dir = Directory::new(path, self.start.clone(), Rc::clone(&self.parent_session));
                 items.push(Box::new(dir) as Box<dyn Collector>);
             } else if is_file && self.session().is_python_file(&path) {
                 let module = Module::new(path, Rc::clone(&self.parent_session));
-- 
2.43.0

