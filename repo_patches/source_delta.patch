From ef541b065db5d311d017581cfe62921bea901d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 1/2] fix: report binary literals that overflow the accumulator
 as out of range

checked_shl(1) only fails when the shift amount itself is out of range, so
bits shifted out of the accumulator were lost and '%1' followed by 64
zeros was accepted as 0 instead of being reported as out of range.
---
 src/assembler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..e1dba3d 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -103,7 +103,7 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
+      accumulator = match accumulator.checked_mul(2) {
         Some(shifted) =>
           shifted | result.unwrap(),
         None =>
-- 
2.43.0


From 96b59de9cc54c153dcf71cfb97196457832ef1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 2/2] fix: parse literal and field lists with a loop instead of
 recursion

Each list item took a stack frame, so a source line with tens of thousands
of items (for instance '.db "","",...') overflowed the stack and ended the
process with SIGABRT instead of assembling or reporting an error.
---
 src/assembler/parser.rs | 74 +++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..34fecbb 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -286,24 +286,25 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of literals if successful, or an error.
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
-    
-    // The literal list is complete.
-    if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
-    }
-
-    // Parse the literal and append it to the list.
-    let literal = try!(self.parse_literal());
     let mut result_list = list;
-    result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
-    }
+    loop {
 
-    return Ok(result_list);
+      // The literal list is complete.
+      if let Some(Token::Newline(_)) = self.current_token {
+        return Ok(result_list);
+      }
+
+      // Parse the literal and append it to the list.
+      let literal = try!(self.parse_literal());
+      result_list.push(literal);
+
+      // Only a comma following the literal continues the list.
+      match self.current_token {
+        Some(Token::Comma(_)) => { let _ = self.consume_token(); },
+        _ => return Ok(result_list)
+      }
+    }
   }
 
   /**
@@ -351,18 +352,38 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    Parses and consumes a list of zero-or-more instruction fields. These fields can be numeric literals,
    delay timer, sound timer, index register (direct or indirect), keypad register or a label.
    field_list ::= field | field "," field_list | .
-   field ::= NUMERIC | IDENTIFIER
    @param list Provide an empty Vec<InstructionField<'a>>.
    @return A list of fields if successful, or an error.
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
+    let mut result_list = list;
 
-    // The field list is complete on Newline or Single-Line Comment.
-    match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
-      _ => {}
+    loop {
+
+      // The field list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
+      }
+
+      // Parse the field and append it to the list.
+      let field = try!(self.parse_field());
+      result_list.push(field);
+
+      // Only a comma following the field continues the list.
+      match self.current_token {
+        Some(Token::Comma(_)) => { let _ = self.consume_token(); },
+        _ => return Ok(result_list)
+      }
     }
+  }
 
+  /**
+   Parses and consumes a single instruction field.
+   field ::= NUMERIC | IDENTIFIER
+   @return A field if successful, or an error.
+   */
+  fn parse_field(&mut self) -> Result<InstructionField<'a>, Error<'a>> {
     let field = match self.current_token {
 
       // A numeric literal parameter was matched.
@@ -415,18 +436,7 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
 
     };
 
-    // Append the parsed field to the list.
-    let mut result_list = list;
-    result_list.push(field);
-
-    // A comma following the field causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
-    }
-    
-    // Return the complete list.
-    Ok(result_list)
+    Ok(field)
   }
 
   /**
-- 
2.43.0

