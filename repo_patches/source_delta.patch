From 89a9fb46085342b092c584fe093b4df78266a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 01/24] fix: push of 128..=255 must not use the sign-extended
 imm8 form

---
 at-asm/src/parsers/instruction/push.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..b14e33d 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -27,9 +27,12 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     }
 
     // if operand is u8
+    // imm8 is sign-extended, so only values up to 0x7f keep their meaning
     if let Some(imm) = u8::try_parse_str(operand_str)? {
-        let push = Push::new(imm);
-        return Ok(Instruction::new(push));
+        if imm <= 0x7f {
+            let push = Push::new(imm);
+            return Ok(Instruction::new(push));
+        }
     }
 
     // if operand is u32
-- 
2.43.0


From 38d896fa68faa5782f264eb05df7834dae956bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 02/24] fix: a semicolon inside a string literal does not start
 a comment

---
 at-asm/src/parsers/line.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..9a7b72b 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -15,10 +15,7 @@ pub enum Line {
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
         // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
-            None => s,
-        };
+        let s = strip_comment(s);
 
         let mut tokens = s.split_whitespace();
 
@@ -66,3 +63,16 @@ impl ParseStr for Line {
         Ok(Some(Self::parse_str(s)?))
     }
 }
+
+// ";" 以降を取り除く. ただし文字列リテラル中の ";" はコメントの開始ではない
+fn strip_comment(s: &str) -> &str {
+    let mut in_str = false;
+    for (i, c) in s.char_indices() {
+        match c {
+            '"' => in_str = !in_str,
+            ';' if !in_str => return &s[..i],
+            _ => {}
+        }
+    }
+    s
+}
-- 
2.43.0


From 77f9d712aaa24f67bdeda52122a9e5f2c536e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 03/24] fix: keep sections that hold only symbols

---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..cb8e329 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From d97d9a97f9003c411e294dfe33d61626e2b36b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 04/24] fix: absolute symbols belong to no section

---
 at-obj/src/macho.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..92d376f 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,8 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    // absolute symbols belong to no section
+                    n_sect: 0,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From 2306efda24cc2da1de6b2402f25d21e5af85cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 05/24] fix: the padding after the section data is not part of
 the segment

---
 at-obj/src/macho.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 92d376f..b97dd0f 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -106,8 +106,7 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
             .sections()
             .iter()
             .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .sum::<u32>() as u64,
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From 2ea654bd400a469a705a3cced364bb3c58e4b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 06/24] fix: decode debug symbol types from the whole n_type
 byte

---
 at-mac/src/nlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..f928991 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,7 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From 7c6e161a0d1e701389393353e1a03d4999364800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 07/24] fix: compare flag sets regardless of the order of their
 members

---
 at-mac/src/header.rs                 | 11 ++++++++++-
 at-mac/src/load_command/segment64.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/header.rs b/at-mac/src/header.rs
index f29a2e0..be1c498 100644
--- a/at-mac/src/header.rs
+++ b/at-mac/src/header.rs
@@ -207,7 +207,7 @@ impl Flag {
     }
 }
 
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct Flags {
     flags: Vec<Flag>,
 }
@@ -245,6 +245,15 @@ impl Flags {
     }
 }
 
+/// The order in which the members were pushed has no meaning.
+impl PartialEq for Flags {
+    fn eq(&self, other: &Self) -> bool {
+        self.to_u32() == other.to_u32()
+    }
+}
+
+impl Eq for Flags {}
+
 impl fmt::Debug for Flags {
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         fmt.debug_set().entries(self.flags.iter()).finish()
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index f31991c..2248099 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -232,7 +232,7 @@ impl SectionAttr {
     }
 }
 
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct SectionAttrs {
     attrs: Vec<SectionAttr>,
 }
@@ -268,6 +268,15 @@ impl SectionAttrs {
     }
 }
 
+/// The order in which the members were pushed has no meaning.
+impl PartialEq for SectionAttrs {
+    fn eq(&self, other: &Self) -> bool {
+        self.to_u32() == other.to_u32()
+    }
+}
+
+impl Eq for SectionAttrs {}
+
 impl fmt::Debug for SectionAttrs {
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         fmt.debug_set().entries(self.attrs.iter()).finish()
-- 
2.43.0


From c8f716056b0a1267470c9cb40201282f849f6d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 08/24] fix: name the line that puts data or an instruction
 into .bss

---
 at-asm/src/assembler.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..4695e05 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -49,6 +49,16 @@ impl Assembler {
                 }
             };
 
+            if let (Section::Bss, Line::Data(_) | Line::Instruction(_)) =
+                (&self.cur_sect, &parsed_line)
+            {
+                eprintln!(
+                    "error at line {}: can't write data to .bss section",
+                    self.cur_line
+                );
+                exit(1);
+            }
+
             match parsed_line {
                 Line::Empty => {}
                 Line::Section(sect) => {
-- 
2.43.0


From c1be74423dfc6477fda8f9dbe127022df1370fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:45 +0000
Subject: [PATCH 09/24] fix: a failed run must not leave a partial or empty
 output file behind

---
 at-asm/src/main.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..0d84af0 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,10 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{
+    fs::{self, OpenOptions},
+    io::Write as _,
+    path::PathBuf,
+    process::exit,
+};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +14,12 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    // 失敗したときに出力先を壊さないよう、先に全てメモリ上で組み立てる
+    let mut object = Vec::new();
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut object);
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -16,9 +27,20 @@ pub fn main() {
         .open(&config.output_path)
         .unwrap();
 
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    if let Err(err) = output_file.write_all(&object) {
+        // 書きかけのobjectを残さない
+        if let Ok(path) = fs::canonicalize(&config.output_path) {
+            if path.is_file() {
+                let _ = fs::remove_file(path);
+            }
+        }
+        eprintln!(
+            "error: can't write {}: {}",
+            config.output_path.display(),
+            err
+        );
+        exit(1);
+    }
 }
 
 struct Config {
-- 
2.43.0


From 4ddbfcfb040deeadb7c65d7c7059a11bbe9de065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:45 +0000
Subject: [PATCH 10/24] fix: refuse to overwrite the source file

---
 at-asm/src/main.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 0d84af0..e6043b8 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,8 +1,9 @@
 use at_asm::Assembler;
 use std::{
-    fs::{self, OpenOptions},
-    io::Write as _,
-    path::PathBuf,
+    fs::{self, File, OpenOptions},
+    io::{self, Write as _},
+    os::unix::fs::MetadataExt as _,
+    path::{Path, PathBuf},
     process::exit,
 };
 
@@ -20,6 +21,12 @@ pub fn main() {
         .read_from(&mut input_file)
         .write_into(&mut object);
 
+    // 入力を上書きしない
+    if is_same_file(&input_file, &config.output_path).unwrap() {
+        eprintln!("error: output file is same as input file");
+        exit(1);
+    }
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -43,6 +50,17 @@ pub fn main() {
     }
 }
 
+// linkを辿った先が同じファイルかどうか
+fn is_same_file(file: &File, path: &Path) -> io::Result<bool> {
+    let other = match fs::metadata(path) {
+        Ok(metadata) => metadata,
+        Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+        Err(err) => return Err(err),
+    };
+    let this = file.metadata()?;
+    Ok(this.dev() == other.dev() && this.ino() == other.ino())
+}
+
 struct Config {
     output_path: PathBuf,
     input_path: PathBuf,
-- 
2.43.0


From c5565d35527310f3fc88eb50bcc12b4716e474ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 11/24] fix: do not reserve memory for entries a load command
 only announces

---
 at-mac/src/load_command/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/load_command/mod.rs b/at-mac/src/load_command/mod.rs
index e4bb7ff..c03fdfa 100644
--- a/at-mac/src/load_command/mod.rs
+++ b/at-mac/src/load_command/mod.rs
@@ -62,7 +62,7 @@ impl LoadCommand {
             SegmentCommand64::TYPE => {
                 let cmd = SegmentCommand64::read_from_in(&mut read, endian);
 
-                let mut sections = Vec::with_capacity(cmd.nsects as usize);
+                let mut sections = Vec::new();
                 for _ in 0..cmd.nsects {
                     sections.push(Section64::read_from_in(&mut read, endian));
                 }
@@ -80,7 +80,7 @@ impl LoadCommand {
             BuildVersionCommand::TYPE => {
                 let cmd = BuildVersionCommand::read_from_in(&mut read, endian);
 
-                let mut tools = Vec::with_capacity(cmd.ntools as usize);
+                let mut tools = Vec::new();
                 for _ in 0..cmd.ntools {
                     tools.push(BuildToolVersion::read_from_in(&mut read, endian));
                 }
-- 
2.43.0


From 7021a7c1cb398c872ae1de8369100fdbc73fb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 12/24] fix: refuse what follows a complete instruction on its
 line

---
 at-asm/src/parsers/expr.rs             |  4 ++++
 at-asm/src/parsers/instruction/mod.rs  | 18 ++++++++++++------
 at-asm/src/parsers/instruction/push.rs |  6 ++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..3050570 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::new("only one + or - is supported"));
+        }
+
         let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
 
         Ok(Some(Expr(res as u64)))
diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..3ca99fa 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,13 +40,19 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
-            Some("mov") => Ok(Some(mov::parse_str(s)?)),
-            Some("push") => Ok(Some(push::parse_str(s)?)),
-            Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
-            Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
-            _ => Ok(None),
+        let mut tokens = s.split_whitespace();
+        let inst = match tokens.next() {
+            Some("mov") => return Ok(Some(mov::parse_str(s)?)),
+            Some("push") => return Ok(Some(push::parse_str(s)?)),
+            Some("ret") => Instruction::new(Ret::new()),
+            Some("syscall") => Instruction::new(Syscall::new()),
+            _ => return Ok(None),
+        };
+        // these take no operand
+        if tokens.next().is_some() {
+            return Err(ParseError::new("expected end of line after opcode"));
         }
+        Ok(Some(inst))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index b14e33d..2dee8a4 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,12 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::new(
+            "error: expected end of line after push operand",
+        ));
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From b06494000ec514a6b83b55e634bd2ffa54dc8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 13/24] fix: sums and differences of 64bit values neither panic
 nor wrap silently

---
 at-asm/src/parsers/expr.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 3050570..d36fb01 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -58,9 +58,15 @@ impl ParseStr for Expr {
             return Err(ParseError::new("only one + or - is supported"));
         }
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        // a negative difference is kept in two's complement
+        let res = if sign {
+            lhs.checked_add(rhs)
+                .ok_or_else(|| ParseError::new("sum is not 64bit"))?
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -71,10 +77,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From d5861df46cc482685cb20b5f91934c7eebf82a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 14/24] fix: name the line of a mov whose second operand can't
 be a symbol

---
 at-asm/src/parsers/instruction/mov.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..429f256 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -35,7 +35,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u64);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -66,7 +66,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u32);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -104,6 +104,14 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     Err(ParseError::new("invalid first operand"))
 }
 
+// symbol names contain no whitespace
+fn parse_symbol(s: &str) -> Result<String, ParseError> {
+    if s.is_empty() || s.contains(char::is_whitespace) {
+        return Err(ParseError::new("invalid second operand"));
+    }
+    Ok(s.to_string())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3ce9aab3f1fd3755f603f68543693c0b82b7db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 15/24] fix: refuse a label without a name

---
 at-asm/src/parsers/line.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9a7b72b..ebaac42 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -43,6 +43,9 @@ impl ParseStr for Line {
                 return Err(ParseError::new("error: expected end of line."));
             }
             let symbol = token.trim_end_matches(":");
+            if symbol.is_empty() {
+                return Err(ParseError::new("error: symbol name is expected"));
+            }
             return Ok(Line::Symbol(symbol.to_string()));
         }
 
-- 
2.43.0


From f93ce884516f9668036448fd3607961cc1ef6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 16/24] fix: accept a tab after mov as after every other opcode

---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index 429f256..f478501 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From e2143124878ac75f2cd1d42f44bb1bf15d795e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 17/24] fix: accept whitespace before the comma in data

---
 at-asm/src/parsers/data.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..758e92a 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -160,9 +160,15 @@ impl<'a> Iterator for DataDefIter<'a> {
     type Item = Result<DataDef<'a>, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // delimiter is a comma, with or without whitespace around it
+        fn skip_delim(s: &str) -> &str {
+            let s = s.trim_start();
+            s.strip_prefix(',').unwrap_or(s).trim_start()
+        }
+
         fn split_delim_once(s: &str) -> (&str, &str) {
-            match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
+            match s.find(|c: char| c.is_whitespace() || c == ',') {
+                Some(idx) => (&s[..idx], skip_delim(&s[idx..])),
                 None => (s, ""),
             }
         }
@@ -176,7 +182,7 @@ impl<'a> Iterator for DataDefIter<'a> {
             match s.split_once('\"') {
                 None => Some(Err(ParseError::new("unclosed \" found"))),
                 Some((str_data, rmn)) => {
-                    self.s = rmn.trim_start_matches(|c: char| c.is_whitespace() || c == ',');
+                    self.s = skip_delim(rmn);
                     Some(Ok(DataDef::Str(str_data)))
                 }
             }
-- 
2.43.0


From 2195b08b5547df603214c0e866e5cf825c9a43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 18/24] fix: refuse a symbol name containing NUL instead of
 storing a shorter one

---
 at-mac/src/string_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index 30358ff..d24b9af 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -19,6 +19,9 @@ impl StringTable {
             if !c.is_ascii() {
                 panic!("could not push non-ascii char");
             }
+            if c == '\0' {
+                panic!("could not push a string containing null");
+            }
             self.data.push(c as u8);
         }
         self.data.push(0);
-- 
2.43.0


From 39393593feb53c6756a317df5d9528a789f497df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 19/24] fix: refuse a fixed size name containing NUL

---
 at-mac/src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/at-mac/src/io.rs b/at-mac/src/io.rs
index 20fb7ba..4c4fe00 100644
--- a/at-mac/src/io.rs
+++ b/at-mac/src/io.rs
@@ -84,6 +84,7 @@ pub trait WriteExt: Write + WriteBytesExt {
 
     fn write_fixed_size_string(&mut self, s: &str, size: usize) {
         assert!(s.is_ascii());
+        assert!(!s.contains('\0'));
         assert!(s.len() <= size);
 
         let mut buf = vec![0u8; size];
-- 
2.43.0


From 99b397580c25271b154ea67359132c31abe3d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 20/24] fix: refuse a relocation whose symbol number or type
 does not fit its bits

---
 at-mac/src/reloc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/at-mac/src/reloc.rs b/at-mac/src/reloc.rs
index 449d5cb..3f6c382 100644
--- a/at-mac/src/reloc.rs
+++ b/at-mac/src/reloc.rs
@@ -84,6 +84,9 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "little")]
     pub fn write_into(self, write: &mut impl Write) {
+        assert!(self.r_symbolnum < 1 << 24, "r_symbolnum is not 24bit");
+        assert!(self.r_type < 1 << 4, "r_type is not 4bit");
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
@@ -101,6 +104,9 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "big")]
     pub fn write_into(self, write: &mut impl Write) {
+        assert!(self.r_symbolnum < 1 << 24, "r_symbolnum is not 24bit");
+        assert!(self.r_type < 1 << 4, "r_type is not 4bit");
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
-- 
2.43.0


From 6c0d1dc799dadf83d97ef4b93f8e844555e495e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 21/24] fix: refuse to write a load command whose count
 disagrees with its entries

---
 at-mac/src/load_command/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-mac/src/load_command/mod.rs b/at-mac/src/load_command/mod.rs
index c03fdfa..bd423f6 100644
--- a/at-mac/src/load_command/mod.rs
+++ b/at-mac/src/load_command/mod.rs
@@ -95,6 +95,8 @@ impl LoadCommand {
 
         match self {
             LC::Segment64(cmd, sections) => {
+                assert_eq!(cmd.nsects as usize, sections.len());
+
                 cmd.write_into(write);
                 for section in sections.iter() {
                     section.write_into(write);
@@ -107,6 +109,8 @@ impl LoadCommand {
                 cmd.write_into(write);
             }
             LC::BuildVersion(cmd, tools) => {
+                assert_eq!(cmd.ntools as usize, tools.len());
+
                 cmd.write_into(write);
                 for tool in tools.iter() {
                     tool.write_into(write);
-- 
2.43.0


From fd614ae6c6882ac12fb3d28a2d14cd47676f82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 22/24] fix: name the line of a label that no object file can
 hold

---
 at-asm/src/parsers/line.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index ebaac42..ac6364f 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -46,11 +46,15 @@ impl ParseStr for Line {
             if symbol.is_empty() {
                 return Err(ParseError::new("error: symbol name is expected"));
             }
+            check_symbol_name(symbol)?;
             return Ok(Line::Symbol(symbol.to_string()));
         }
 
         // data
         if let Some(data) = Data::try_parse_str(s)? {
+            if let Some(label) = &data.label {
+                check_symbol_name(label)?;
+            }
             return Ok(Line::Data(data));
         }
 
@@ -67,6 +71,17 @@ impl ParseStr for Line {
     }
 }
 
+// オブジェクトファイルに書き込める名前かどうか
+fn check_symbol_name(name: &str) -> Result<(), ParseError> {
+    if name.is_ascii() && !name.contains('\0') {
+        Ok(())
+    } else {
+        Err(ParseError::new(
+            "symbol name must consist of ASCII characters",
+        ))
+    }
+}
+
 // ";" 以降を取り除く. ただし文字列リテラル中の ";" はコメントの開始ではない
 fn strip_comment(s: &str) -> &str {
     let mut in_str = false;
-- 
2.43.0


From 9d626ffd14918c665b9134fd993c1d55887fe852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 23/24] fix: keep the relocations of a section without bytes
 and symbols

---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index cb8e329..3ae5037 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0 && self.symbols().is_empty()
+        self.vm_size() == 0 && self.symbols().is_empty() && self.relocs().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From e80e1ee24fadcc06d30d0ecff0348c0acc28c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 24/24] fix: refuse sizes and addresses beyond the address
 space in release builds too

---
 at-obj/src/macho.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index b97dd0f..6394f39 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -97,7 +97,10 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
         // object fileのsegnameは常に空文字
         segname: "".to_string(),
         vmaddr: 0,
-        vmsize: object.sections().iter().map(|sect| sect.vm_size()).sum(),
+        vmsize: object.sections().iter().fold(0_u64, |sum, sect| {
+            sum.checked_add(sect.vm_size())
+                .expect("sections don't fit in the address space")
+        }),
         fileoff: (Header64::SIZE
             + SegmentCommand64::SIZE
             + object.sections().len() * Section64::SIZE
@@ -341,7 +344,10 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                     },
                     n_sect: idx as u8,
                     n_desc: 0,
-                    n_value: sections[idx - 1].addr + *addr,
+                    n_value: sections[idx - 1]
+                        .addr
+                        .checked_add(*addr)
+                        .expect("symbol is outside of the address space"),
                 },
             })
         });
-- 
2.43.0

