From 66063565f9a88723dc8f2a6ff357e0071df4ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 1/4] fix: do not print to stdout while parsing a \x character
 literal

---
 src/ast/expression/character.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..cd30d37 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -14,10 +14,7 @@ named!(character_content<CompleteStr, char>,
           code: take!(2) >>
           (u8::from_str_radix(code.0, 16))
         ),
-        |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
-            r.map(|u| u as char)
-        }
+        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
     | anychar
   )
-- 
2.43.0


From bbbae69b03173b92084decdbc7e979aad42ab522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 2/4] fix: fail when walking the directory fails instead of
 silently dropping files

---
 src/dump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump.rs b/src/dump.rs
index dc4fb2e..0a1b224 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -81,7 +81,7 @@ fn main() {
             let attr = std::fs::metadata(path).expect("file not found");
 
             if attr.is_dir() {
-                dump_directory(path, quiet);
+                dump_directory(path, quiet).expect("something went wrong walking the directory");
             } else {
                 dump_file(path, quiet);
             }
-- 
2.43.0


From 6e483f8e836acd76042fc006a7a62bb08083e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 3/4] fix: report .elm files whose path is not valid UTF-8
 instead of skipping them

---
 src/dump.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dump.rs b/src/dump.rs
index 0a1b224..46709d9 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -12,12 +12,13 @@ use std::env;
 use std::ffi::OsStr;
 use std::fs::File;
 use std::io::prelude::*;
+use std::path::Path;
 
 mod ast;
 
 use ast::file;
 
-fn dump_file(filename: &str, quiet: bool) {
+fn dump_file(filename: &Path, quiet: bool) {
     let mut f = File::open(filename).expect("file not found");
 
     let mut contents = String::new();
@@ -56,10 +57,7 @@ fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
             continue;
         }
 
-        match ent.path().to_str() {
-            Some(path) => dump_file(path, quiet),
-            None => {}
-        }
+        dump_file(ent.path(), quiet);
     }
 
     Ok(())
@@ -83,7 +81,7 @@ fn main() {
             if attr.is_dir() {
                 dump_directory(path, quiet).expect("something went wrong walking the directory");
             } else {
-                dump_file(path, quiet);
+                dump_file(Path::new(path), quiet);
             }
         }
         None => {}
-- 
2.43.0


From ea1ab6da5841b835305f2037a1765ae58e08cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 4/4] Re-export the file parser under cfg(elm_parser_sim) for
 the simulation harness

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5c7d39..32b620b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,3 +3,8 @@ extern crate nom;
 extern crate regex;
 
 mod ast;
+
+// The library keeps its parser private. The deterministic simulation harness needs to call it from
+// several threads of one process; nothing changes unless built with --cfg elm_parser_sim.
+#[cfg(elm_parser_sim)]
+pub use ast::file;
-- 
2.43.0

