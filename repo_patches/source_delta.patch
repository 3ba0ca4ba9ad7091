From 3d402e6a00734edac8dfcd99593a47e3253890c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 01/25] fix: keep the second copy of a one-line file included
 twice in a row

Lines are told apart by file and line number, so the tokens of two adjacent
inclusions of the same one-line file were taken for a single line and
everything after the first end-of-file token was silently dropped.
---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..ff90465 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -55,6 +55,7 @@ impl<'a> Iterator for LineIterator<'a> {
             let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
             while end < self.tokens.len()
+                && !self.tokens[end - 1].is_eof()
                 && start_line == self.tokens[end].span().start().line()
                 && start_file == self.tokens[end].span().start().file()
             {
-- 
2.43.0


From 5093e0471dc426def11fa0824178988870ec9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 02/25] fix: write the whole converted image to the output file

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..fc5edd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -238,7 +238,7 @@ pub fn run_command(args: &[String]) {
         match matches.value_of("OUTPUT") {
             Some(output) => {
                 let mut outfile = File::create(output).unwrap();
-                outfile.write(serialized.as_bytes()).unwrap();
+                outfile.write_all(serialized.as_bytes()).unwrap();
             }
             None => {
                 println!("{}", serialized);
-- 
2.43.0


From db4d4f4f3010f544f16c9da0c491d256b38e05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 03/25] fix: report a failure to write the icon listing to
 standard output

---
 src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc5edd8..60376b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,15 +164,17 @@ pub fn run_command(args: &[String]) {
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
             Ok(stmts) => {
-                stdout
-                    .write(ast::Statement::comment(
+                println!(
+                    "{}",
+                    ast::Statement::comment(
                         "NOTE: This file was generated by the waterbear assembler:",
-                    ))
-                    .write("\n");
-                stdout
-                    .write(ast::Statement::comment(&format!("{}", args.join(" "))))
-                    .write("\n");
-                stdout.write(stmts).write("\n");
+                    )
+                );
+                println!(
+                    "{}",
+                    ast::Statement::comment(&format!("{}", args.join(" ")))
+                );
+                println!("{}", stmts);
             }
             Err(IconError::InvalidPaletteSize(p, psize, expected)) => {
                 stderr
-- 
2.43.0


From 7a500b70cefbb382b215aec0d016e64e5ce49bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 04/25] fix: only fall back to the working directory when the
 included file does not exist

---
 src/files.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/files.rs b/src/files.rs
index 7374d1b..ea15eaa 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -57,6 +57,18 @@ pub fn file_exists(path: impl AsRef<Path>) -> bool {
     path.as_ref().is_file()
 }
 
+/// Whether there is no file at `path`. An error while looking for the file
+/// doesn't mean that it's missing.
+fn is_missing(path: &Path) -> bool {
+    match std::fs::metadata(path) {
+        Ok(metadata) => !metadata.is_file(),
+        Err(err) => matches!(
+            err.kind(),
+            std::io::ErrorKind::NotFound | std::io::ErrorKind::NotADirectory
+        ),
+    }
+}
+
 pub fn load_bytes(path: impl AsRef<Path>) -> Result<Vec<u8>, FileLoadError> {
     let path = path.as_ref();
     let mut file = File::open(path)
@@ -138,7 +150,7 @@ impl SourceFiles {
                 };
                 root_dir.join(filename)
             };
-            if correct_path.is_file() || !filename.is_file() {
+            if !is_missing(&correct_path) || !filename.is_file() {
                 correct_path
             } else {
                 eprintln!(
-- 
2.43.0


From aa9db43a6c86dc4cde148b2cb6d088205d904690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 05/25] fix: keep using the fallback path of an included binary
 or image file

---
 src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/files.rs b/src/files.rs
index ea15eaa..46d8822 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -159,7 +159,7 @@ impl SourceFiles {
                     filename.display()
                 );
                 eprintln!("         Please change the path to be relative to the source file, instead of relative to your working directory.");
-                filename.to_path_buf()
+                self.working_dir.join(filename)
             }
         } else {
             self.working_dir.join(filename)
-- 
2.43.0


From d2298f1eda022ddcd9bdb5a050b85b7106095a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 06/25] fix: only resolve the path of an include, not other
 strings that equal it

---
 src/asm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..848940b 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -70,6 +70,7 @@ fn replace_includes(
                     .path()
                     .map(|path| path.to_string_lossy().to_string())
                     .unwrap_or(String::new());
+                let mut path_replaced = false;
                 match stmt.fixup_paths(files, Some(filename)) {
                     Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
                         IncludeType::Asm => {
@@ -102,7 +103,8 @@ fn replace_includes(
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
                             for token in line.iter() {
                                 if let TokenType::String(string) = token.token_type() {
-                                    if string == &original_path {
+                                    if !path_replaced && string == &original_path {
+                                        path_replaced = true;
                                         results.push(Token::new(
                                             TokenType::String(path.display().to_string()),
                                             token.span().clone(),
-- 
2.43.0


From 21dcfdeea2a461de4a202252ae10b49f9e03dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 07/25] fix: resolve an eyecatch path relative to the file that
 includes it

---
 src/asm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 848940b..ac16712 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -101,6 +101,12 @@ fn replace_includes(
                             results.append(&mut new_tokens);
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
+                            let eyecatch_span = match typ {
+                                IncludeType::Icon(_, Some(ByteValue::String(span, _))) => {
+                                    Some(span)
+                                }
+                                _ => None,
+                            };
                             for token in line.iter() {
                                 if let TokenType::String(string) = token.token_type() {
                                     if !path_replaced && string == &original_path {
@@ -111,6 +117,14 @@ fn replace_includes(
                                         ));
                                         continue;
                                     }
+                                    if eyecatch_span.as_ref() == Some(token.span()) {
+                                        let path = files.path(Some(filename), string);
+                                        results.push(Token::new(
+                                            TokenType::String(path.display().to_string()),
+                                            token.span().clone(),
+                                        ));
+                                        continue;
+                                    }
                                 }
                                 results.push(token.clone());
                             }
-- 
2.43.0


From d1fd456cb203183da2346ced68cabf83d34a66c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 08/25] fix: print strings in a form that reads back as the
 same string

---
 src/ast.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..687fe58 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -366,10 +366,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
@@ -612,24 +612,12 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
-                escaped.push(0x5C);
-                escaped.push(0x61)
-            }
-
             // \b
             0x08 => {
                 escaped.push(0x5C);
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -648,10 +636,9 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
+            b'"' | b'\\' => {
+                escaped.push(b'\\');
+                escaped.push(current)
             }
 
             // \0
-- 
2.43.0


From 129b7c34f1437fa2b64d47deb97f4fe5e3040974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 09/25] fix: print octal numbers with the octal prefix

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..3787758 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -408,7 +408,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:04o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
-- 
2.43.0


From 3635a934e4b5d76c6decdfae5b625525deeadbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 10/25] fix: do not panic when a message cannot be written to
 standard error

---
 src/disasm.rs |  8 +++++++-
 src/files.rs  | 10 +++++++---
 src/lib.rs    |  4 ++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..b4acce1 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -5,6 +5,7 @@ use crate::location::Span;
 use std;
 use std::collections::HashMap;
 use std::collections::HashSet;
+use std::io::Write;
 
 #[derive(Debug)]
 pub enum DisasmError {
@@ -933,7 +934,12 @@ fn build_instruction_graph(
                 continue;
             }
             if *pos > bytes.len() {
-                eprintln!("Invalid instruction position found: {}", pos);
+                writeln!(
+                    std::io::stderr(),
+                    "Invalid instruction position found: {}",
+                    pos
+                )
+                .ok();
                 continue;
             }
             let decoded = Instr::<i32, u8>::decode(&bytes[*pos..bytes.len()]);
diff --git a/src/files.rs b/src/files.rs
index 46d8822..ee64e79 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -3,6 +3,7 @@ use std::fmt;
 
 use std::fs::File;
 use std::io::Read;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 #[derive(Debug)]
@@ -153,12 +154,15 @@ impl SourceFiles {
             if !is_missing(&correct_path) || !filename.is_file() {
                 correct_path
             } else {
-                eprintln!(
+                let mut stderr = std::io::stderr();
+                writeln!(
+                    stderr,
                     "WARNING: Path \"{}\" not found. Falling back to \"{}\"",
                     correct_path.display(),
                     filename.display()
-                );
-                eprintln!("         Please change the path to be relative to the source file, instead of relative to your working directory.");
+                )
+                .ok();
+                writeln!(stderr, "         Please change the path to be relative to the source file, instead of relative to your working directory.").ok();
                 self.working_dir.join(filename)
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index 60376b4..58255f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,7 +152,7 @@ pub fn run_command(args: &[String]) {
         match disassemble_cmd(positions, arrived_from, file_type, input_file, output_file) {
             Ok(_) => {}
             Err(ref err) => {
-                eprintln!("ERROR: {:?}", err);
+                writeln!(std::io::stderr(), "ERROR: {:?}", err).ok();
                 std::process::exit(1);
             }
         }
@@ -342,7 +342,7 @@ pub fn run_command(args: &[String]) {
             .reset()
             .newline();
     } else {
-        eprintln!("No subcommand specified");
+        writeln!(std::io::stderr(), "No subcommand specified").ok();
         std::process::exit(1);
     }
 }
-- 
2.43.0


From 256cec05e69fca1299fd5e5e45c3b47f3c540813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 11/25] fix: report an unexpected character where it is

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..14d4a95 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -507,7 +507,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From 92a64164e79c5f737a6977b90ee9b99f8df80562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 12/25] fix: do not trust a PWD that is not the working
 directory

---
 src/files.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index ee64e79..940ede5 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -90,9 +90,18 @@ pub fn load_file(path: impl AsRef<Path>) -> Result<String, FileLoadError> {
 
 impl SourceFiles {
     pub fn new() -> SourceFiles {
-        let working_dir = match std::env::var_os("PWD") {
-            Some(pwd) => PathBuf::from(pwd),
-            None => std::env::current_dir().unwrap(),
+        let working_dir = match (std::env::var_os("PWD"), std::env::current_dir()) {
+            (Some(pwd), Ok(cwd)) => {
+                // PWD is only a nicer name for the working directory if it
+                // hasn't been inherited from somewhere else.
+                let pwd = PathBuf::from(pwd);
+                match (pwd.canonicalize(), cwd.canonicalize()) {
+                    (Ok(ref pwd_real), Ok(ref cwd_real)) if pwd_real == cwd_real => pwd,
+                    _ => cwd,
+                }
+            }
+            (Some(pwd), Err(_)) => PathBuf::from(pwd),
+            (None, cwd) => cwd.unwrap(),
         };
         SourceFiles {
             working_dir: if working_dir.is_absolute() {
-- 
2.43.0


From 5b662c33f621fb89f86f25f2b2678f687a3f5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 13/25] fix: visit each instruction once when following the
 code

Positions reached by several branches at the same depth were queued once per
path, so a few kilobytes of branches could keep the disassembler busy for
ever.
---
 src/disasm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index b4acce1..d338a4a 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -942,6 +942,10 @@ fn build_instruction_graph(
                 .ok();
                 continue;
             }
+            if graph.contains_instr(*pos) {
+                // Reached more than once before it was first visited.
+                continue;
+            }
             let decoded = Instr::<i32, u8>::decode(&bytes[*pos..bytes.len()]);
             match decoded {
                 Some(instr) => {
-- 
2.43.0


From 266aff516986b0c2ab53f03decffc1fbd1a12352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:32 +0000
Subject: [PATCH 14/25] fix: don't trust PWD when the working directory can't
 be determined

An error from getcwd made a stale or wrong PWD the directory that
relative paths are taken from, so that files of the same name in another
directory were assembled.
---
 src/files.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index 940ede5..51ac81f 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -100,8 +100,9 @@ impl SourceFiles {
                     _ => cwd,
                 }
             }
-            (Some(pwd), Err(_)) => PathBuf::from(pwd),
-            (None, cwd) => cwd.unwrap(),
+            // Without knowing the working directory, there's nothing to check
+            // PWD against.
+            (_, cwd) => cwd.unwrap(),
         };
         SourceFiles {
             working_dir: if working_dir.is_absolute() {
-- 
2.43.0


From c19f6ee549c71265f266b2c944a84c8c6502ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:08 +0000
Subject: [PATCH 15/25] fix: don't print a .byte directive without values for
 an empty include

---
 src/asm.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index ac16712..4b61356 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -168,10 +168,13 @@ fn replace_byte_includes(
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
                     }
-                    results.push(Statement::Directive(Directive::Byte(
-                        span.clone(),
-                        byte_vals,
-                    )));
+                    // A .byte directive without any values is not valid assembly.
+                    if !byte_vals.is_empty() {
+                        results.push(Statement::Directive(Directive::Byte(
+                            span.clone(),
+                            byte_vals,
+                        )));
+                    }
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-- 
2.43.0


From cbc4c5c0bfa05168d143b79c90f4855ac9606544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 16/25] fix: report files that include each other endlessly

---
 src/asm.rs | 14 ++++++++++++--
 src/lib.rs |  6 ++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 4b61356..4457870 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -20,6 +20,9 @@ use std::collections::HashMap;
 use std::path::Path;
 use uuid::Uuid;
 
+/// How deeply files can include each other.
+const MAX_INCLUDE_DEPTH: usize = 100;
+
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
     let statements = read_statements(files, filename)?;
     let statements = expand_macros(&statements)?;
@@ -48,7 +51,7 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        replace_includes(&filename, &parser, &mut files, &tokens, 0)?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
@@ -60,6 +63,7 @@ fn replace_includes(
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    depth: usize,
 ) -> Result<Vec<Token>, AssemblyError> {
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -72,8 +76,12 @@ fn replace_includes(
                     .unwrap_or(String::new());
                 let mut path_replaced = false;
                 match stmt.fixup_paths(files, Some(filename)) {
-                    Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
+                    Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
+                            // A file that includes itself would be followed forever.
+                            if depth >= MAX_INCLUDE_DEPTH {
+                                return Err(AssemblyError::IncludesNestedTooDeeply(span));
+                            }
                             let file = files.load(Some(filename), &path)?;
                             let new_tokens = {
                                 let input = Input::new(file.id(), file.contents());
@@ -84,6 +92,7 @@ fn replace_includes(
                                 parser,
                                 files,
                                 &new_tokens,
+                                depth + 1,
                             )?;
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
@@ -472,6 +481,7 @@ pub enum AssemblyError {
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
     InvalidSpriteType(Span, String),
+    IncludesNestedTooDeeply(Span),
 }
 
 impl From<LexerError> for AssemblyError {
diff --git a/src/lib.rs b/src/lib.rs
index 58255f0..c1390f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -909,6 +909,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.writeln("Found duplicate label").newline();
             highlight_line(span, "", files, stderr);
         }
+        IncludesNestedTooDeeply(span) => {
+            stderr
+                .writeln("Files include each other too deeply.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         MacroLabelOutsideOfMacro(span) => {
             stderr
                 .writeln("Macro label found outside of macro definition.")
-- 
2.43.0


From b55bce605e3893efd21c7ce80eb96f0accde4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 17/25] fix: report a macro that calls itself

---
 src/asm.rs | 18 +++++++++++++++++-
 src/lib.rs | 10 ++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 4457870..4b6fcdf 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -482,6 +482,7 @@ pub enum AssemblyError {
     NoSuchMacro(Span, String),
     InvalidSpriteType(Span, String),
     IncludesNestedTooDeeply(Span),
+    RecursiveMacro(Span, String),
 }
 
 impl From<LexerError> for AssemblyError {
@@ -731,7 +732,14 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut active = vec![];
+                let mut stmts = expand(
+                    statements,
+                    span.clone(),
+                    name.to_owned(),
+                    args,
+                    &mut active,
+                )?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -804,8 +812,13 @@ fn expand(
     span: Span,
     name: String,
     args: &[Arg],
+    active: &mut Vec<MacroIdentifier>,
 ) -> Result<Vec<Statement>, AssemblyError> {
     let ident = MacroIdentifier::new(name.clone(), args.len());
+    // There's no way for a macro to stop calling itself.
+    if active.contains(&ident) {
+        return Err(AssemblyError::RecursiveMacro(span.clone(), name.clone()));
+    }
     let macrodef = match stmts.macro_def(&ident) {
         Some(def) => def,
         None => {
@@ -831,6 +844,7 @@ fn expand(
         argmap
     };
     let labels = gen_labels(macrodef.body())?;
+    active.push(ident);
     let mut statements = vec![];
     for stmt in macrodef.body().iter() {
         use crate::ast::MacroStatement::*;
@@ -845,6 +859,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            active,
                         )?;
                         statements.append(&mut new_stmts);
                     }
@@ -877,6 +892,7 @@ fn expand(
             }
         }
     }
+    active.pop();
     Ok(statements)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index c1390f8..0efb4e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -915,6 +915,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveMacro(span, name) => {
+            stderr
+                .write("Macro ")
+                .cyan()
+                .write(name)
+                .reset()
+                .writeln(" calls itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         MacroLabelOutsideOfMacro(span) => {
             stderr
                 .writeln("Macro label found outside of macro definition.")
-- 
2.43.0


From 82b66587e8cd358c79b43bf7c94e847286101192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 18/25] fix: report a number that is too large instead of
 panicking

---
 src/asm.rs    |  3 +++
 src/lexer.rs  | 26 ++++++++++++++++++--------
 src/lib.rs    |  4 ++++
 src/parser.rs |  2 ++
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 4b6fcdf..ca19568 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -457,6 +457,7 @@ pub enum AssemblyError {
         value_top: u8,
     },
     UnexpectedChar(Location),
+    NumberTooLarge(Span),
     UnexpectedToken(Token),
     InvalidInstruction(Token),
     ExpectedTokenNotFound(&'static str, Token),
@@ -490,6 +491,7 @@ impl From<LexerError> for AssemblyError {
         use crate::lexer::LexerError::*;
         match error {
             UnexpectedChar(loc) => AssemblyError::UnexpectedChar(loc),
+            NumberTooLarge(span) => AssemblyError::NumberTooLarge(span),
         }
     }
 }
@@ -519,6 +521,7 @@ impl From<ParseError> for AssemblyError {
         use crate::parser::ParseError::*;
         match error {
             UnexpectedChar(loc) => AssemblyError::UnexpectedChar(loc),
+            NumberTooLarge(span) => AssemblyError::NumberTooLarge(span),
             UnexpectedToken(tok) => AssemblyError::UnexpectedToken(tok),
             InvalidInstruction(tok) => AssemblyError::InvalidInstruction(tok),
             ExpectedTokenNotFound(name, tok) => AssemblyError::ExpectedTokenNotFound(name, tok),
diff --git a/src/lexer.rs b/src/lexer.rs
index 14d4a95..f9d5016 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -25,6 +25,7 @@ pub enum TokenType {
     DoubleColon,
     Name(String),
     Number(i32, Radix),
+    NumberTooLarge(String),
     Equals,
     Plus,
     Times,
@@ -56,6 +57,7 @@ impl TokenType {
             TokenType::DoubleColon => "'::'",
             TokenType::Name(_) => "Name",
             TokenType::Number(_, _) => "Number",
+            TokenType::NumberTooLarge(_) => "Number",
             TokenType::Equals => "'='",
             TokenType::Plus => "'+'",
             TokenType::Times => "'*'",
@@ -95,6 +97,7 @@ impl fmt::Display for Token {
             TokenType::DoubleColon => write!(f, "::"),
             TokenType::Name(name) => write!(f, "{}", name),
             TokenType::Number(num, _) => write!(f, "{}", num),
+            TokenType::NumberTooLarge(text) => write!(f, "{}", text),
             TokenType::Equals => write!(f, "="),
             TokenType::Plus => write!(f, "+"),
             TokenType::Times => write!(f, "*"),
@@ -273,6 +276,7 @@ impl Token {
 #[derive(Debug)]
 pub enum LexerError {
     UnexpectedChar(Location),
+    NumberTooLarge(Span),
 }
 
 fn clean_str(string: &str) -> String {
@@ -398,24 +402,27 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
+fn to_num(text: &str, prefix: usize, base: u32, radix: Radix) -> TokenType {
+    match i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), base) {
+        Ok(num) => TokenType::Number(num, radix),
+        Err(_) => TokenType::NumberTooLarge(text.to_owned()),
+    }
+}
+
 fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+    to_num(text, prefix, 16, Radix::Hex)
 }
 
 fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+    to_num(text, 2, 8, Radix::Octal)
 }
 
 fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+    to_num(text, prefix, 2, Radix::Binary)
 }
 
 fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+    to_num(text, 0, 10, Radix::Decimal)
 }
 
 fn read_token<'a>(
@@ -502,6 +509,9 @@ pub fn lex_for_ws<'a>(
     let mut current = read_token(&input, skip_ws);
     while current.is_some() && current.as_ref().unwrap().1.token_type != TokenType::EOF {
         let (input, token) = current.unwrap();
+        if let TokenType::NumberTooLarge(_) = token.token_type {
+            return Err(LexerError::NumberTooLarge(token.span().clone()));
+        }
         results.push(token);
         current = read_token(&input, skip_ws);
         cinput = input;
diff --git a/src/lib.rs b/src/lib.rs
index 0efb4e2..4df6919 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -718,6 +718,10 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.writeln("Unexpected Character").newline();
             highlight_line(&loc.to_span(), "", files, stderr);
         }
+        NumberTooLarge(span) => {
+            stderr.writeln("Number is too large").newline();
+            highlight_line(&span, "", files, stderr);
+        }
         UnexpectedToken(tok) => {
             stderr.writeln("Unexpected Token").newline();
             highlight_line(tok.span(), "", files, stderr);
diff --git a/src/parser.rs b/src/parser.rs
index ff90465..47b3ceb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -13,6 +13,7 @@ use std::path::PathBuf;
 #[derive(Debug)]
 pub enum ParseError {
     UnexpectedChar(Location),
+    NumberTooLarge(Span),
     UnexpectedToken(Token),
     InvalidInstruction(Token),
     ExpectedTokenNotFound(&'static str, Token),
@@ -36,6 +37,7 @@ impl From<LexerError> for ParseError {
         use crate::lexer::LexerError::*;
         match error {
             UnexpectedChar(loc) => ParseError::UnexpectedChar(loc.clone()),
+            NumberTooLarge(span) => ParseError::NumberTooLarge(span),
         }
     }
 }
-- 
2.43.0


From 70e3c0eb17e4995758951000d99beaf0fef5d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:07 +0000
Subject: [PATCH 19/25] fix: name the place when a line ends too early

---
 src/parser.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 47b3ceb..b19d875 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -762,13 +762,27 @@ impl Parser {
 pub struct TokenStream<'a> {
     pos: usize,
     tokens: &'a [Token],
+    // What comes after the last token. Only the last line of a file
+    // has a token for its end.
+    end: Option<Token>,
 }
 
 impl<'a> TokenStream<'a> {
     pub fn from<'b>(tokens: &'b [Token]) -> TokenStream<'b> {
+        let end = match tokens.last() {
+            Some(tok) if !tok.is_eof() => {
+                let loc = tok.span().end();
+                Some(Token::new(
+                    TokenType::EOF,
+                    Span::new(loc.clone(), loc.clone()),
+                ))
+            }
+            _ => None,
+        };
         TokenStream {
             pos: 0,
             tokens: tokens,
+            end: end,
         }
     }
 
@@ -888,6 +902,8 @@ impl<'a> TokenStream<'a> {
         let loc = self.pos + pos;
         if loc < self.tokens.len() {
             Some(&self.tokens[loc])
+        } else if loc == self.tokens.len() {
+            self.end.as_ref()
         } else {
             None
         }
-- 
2.43.0


From 0a0a06b18220819e6093ad6c219bc5a24411521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:07 +0000
Subject: [PATCH 20/25] fix: don't split characters when skipping C comments

---
 src/cheader.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..abfffc6 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -9,17 +9,11 @@ use crate::location::Span;
 
 fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let text = input.as_str();
-    let mut skipped = 0;
     if text.starts_with("/*") {
-        skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
-            skipped = skipped + 1;
-        }
-        if text[skipped..].starts_with("*/") {
-            return input.update(skipped + 2);
-        } else {
-            return input.update(skipped);
-        }
+        return match text[2..].find("*/") {
+            Some(end) => input.update(2 + end + 2),
+            None => input.update(text.len()),
+        };
     }
     input.clone()
 }
-- 
2.43.0


From a5eae4726dfdb6a33f2571013c8d35d7418fe5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:07 +0000
Subject: [PATCH 21/25] fix: only leave out whole components of the working
 directory from paths

---
 src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4df6919..7ae5a5e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1077,13 +1077,12 @@ fn highlight_line_indented(
 ) {
     let file = files.for_id(span.start().file()).unwrap();
     let path = {
-        let file_path = file.name().display().to_string();
-        let working_directory = files.working_directory().display().to_string() + "/";
-        if file_path.starts_with(&working_directory) {
-            file_path[working_directory.len()..].to_string()
-        } else {
-            file_path
-        }
+        let file_path = file.name();
+        file_path
+            .strip_prefix(files.working_directory())
+            .unwrap_or(file_path)
+            .display()
+            .to_string()
     };
     let line = line_for_pos(span.start().pos(), file.contents());
 
-- 
2.43.0


From d56d84624850a2f397098c7f4ed471a07d264635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:07 +0000
Subject: [PATCH 22/25] fix: report an include in a C header instead of
 panicking

---
 src/asm.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index ca19568..a0325ea 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -165,11 +165,12 @@ fn replace_byte_includes(
     for statement in statements.iter() {
         if let Statement::Directive(Directive::Include(span, typ, path)) = statement {
             match typ {
-                IncludeType::Asm => {
-                    panic!("There should be no ASM .includes at this stage.");
-                }
-                IncludeType::CHeader => {
-                    panic!("There should be no C Header .includes at this stage.");
+                IncludeType::Asm | IncludeType::CHeader => {
+                    // Only the ones in C headers are still here.
+                    return Err(AssemblyError::UnexpectedToken(Token::new(
+                        TokenType::Name(".include".to_owned()),
+                        span.clone(),
+                    )));
                 }
                 IncludeType::Bytes => {
                     let bytes = files::load_bytes(&files.path(Some(filename), &path))?;
-- 
2.43.0


From 471a307b1c051437801ecca58760d0b725b7d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 23/25] fix: check where code can be put before giving out
 addresses

---
 src/asm.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index a0325ea..b5ec2d4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -339,13 +339,7 @@ fn generate_bytes(
                             pos = pos + 1;
                         }
                     }
-                    Org(span, location) => {
-                        if *location > 0xFFFF {
-                            return Err(AssemblyError::InvalidCodeLocation(
-                                span.clone(),
-                                *location as i32,
-                            ));
-                        }
+                    Org(_, location) => {
                         pos = *location;
                     }
                     Word(_, words) => {
@@ -636,7 +630,17 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => {
+                if let crate::ast::Directive::Org(span, location) = dir {
+                    if *location > 0xFFFF {
+                        return Err(AssemblyError::InvalidCodeLocation(
+                            span.clone(),
+                            *location as i32,
+                        ));
+                    }
+                }
+                pos += dir.size(pos)?
+            }
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
-- 
2.43.0


From 618b0725cb0d42cb547853fdd9395fa92a57f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 24/25] fix: note overlaps with instructions that start two
 bytes earlier

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index d338a4a..791cf61 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -1077,7 +1077,7 @@ impl<Ex, IM> InstructionGraph<Ex, IM> {
     pub fn find_overlaps(&self, pos: usize) -> Vec<usize> {
         let mut overlaps = vec![];
         if let Some(instr) = self.instrs.get(&pos) {
-            for idx in 1..2 {
+            for idx in 1..3 {
                 if pos >= idx {
                     let loc = pos - idx;
                     if let Some(instr2) = self.instrs.get(&loc) {
-- 
2.43.0


From 2d349635a07b6ca65f5d9aed6f2dd6df83066cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 25/25] fix: the line quoted by a message ended with its line
 end when it is the last one of its file

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ae5a5e..07c9cdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1205,8 +1205,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !(bytes[loc] == b'\n'
+            || (loc + 1 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0

