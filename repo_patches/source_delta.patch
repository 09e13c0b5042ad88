From 88fbb2b1680c7c28865a7fee9be35a4a10ef761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 01/20] fix: structural product rule must only apply to
 products of two components

---
 src/NarWorkingCycle.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..c81ec6f 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -138,11 +138,13 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
                 Term::Prod(arr) => {
-                    let prod0 = &arr[0];
-                    let prod1 = &arr[1];
+                    if arr.len() == 2 {
+                        let prod0 = &arr[0];
+                        let prod1 = &arr[1];
 
-                    let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
-                    return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                        let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
+                        return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From c10ee8b606f222bb0cc900e03702bb280c0fa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 02/20] fix: keep truth values with their premises when binary
 rules are tried in swapped order

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index c81ec6f..c44c06c 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -743,7 +743,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From 3414d784c5b525b491f7d2accecbd2e17dca0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:16 +0000
Subject: [PATCH 03/20] fix: image rules must not dereference the missing truth
 value of a question

---
 src/NarWorkingCycle.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index c44c06c..f5624ee 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -188,8 +188,8 @@ pub fn infStructProd1(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
 /// |-
 /// (X * Y) --> rel.?
 pub fn infStructImg0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option<(Term, Tv, EnumPunctation, f64)> {
-    if punct != EnumPunctation::JUGEMENT && punct != EnumPunctation::QUESTION {
-        return None;
+    if punct != EnumPunctation::JUGEMENT {
+        return None; // a question has no truth-value for the conclusion
     }
 
     match a {
@@ -216,8 +216,8 @@ pub fn infStructImg0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option
 /// |-
 /// (X * Y) --> rel.?
 pub fn infStructImg1(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option<(Term, Tv, EnumPunctation, f64)> {
-    if punct != EnumPunctation::JUGEMENT && punct != EnumPunctation::QUESTION {
-        return None;
+    if punct != EnumPunctation::JUGEMENT {
+        return None; // a question has no truth-value for the conclusion
     }
 
     match a {
-- 
2.43.0


From 7f519f28462b8bf61ab51c54df059819f11b7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:53 +0000
Subject: [PATCH 04/20] fix: listing task credits must not take the shared lock
 recursively

---
 src/NarWorkingCycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index f5624ee..33e69fd 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1983,7 +1983,8 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // lock only once, a second read() would deadlock when a writer is waiting
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1993,7 +1994,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), sharedGuard.cycleCounter.load(Ordering::Relaxed))));
         }
     }
 
-- 
2.43.0


From 11de699cbb1848dcac3d10c0be8720d290543aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 05/20] fix: parser must reject malformed truth values and
 non-ASCII text instead of panicking

---
 src/NarseseParser.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..b135438 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,23 +22,17 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
+  if narsese.ends_with('}') {
+    if let Some(idx) = narsese.rfind('{') { // scan for '{'
+      let tvStr = &narsese[idx+1..narsese.len()-1];
+      let splitted:Vec<&str> = tvStr.split(" ").collect();
       
-      if narsese.chars().nth(idx).unwrap() == '{' {
-        let tvStr = &narsese[idx+1..narsese.len()-1];
-        let splitted:Vec<&str> = tvStr.split(" ").collect();
-        
-        if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
+      if splitted.len() == 2 { // must have two values
+        // text which isn't a TV is not cut away, so parsing of the whole narsese fails
+        if let (Ok(f), Ok(c)) = (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
           *narsese = narsese[..idx].to_string(); // cut away
           *tv = Tv{f:f,c:c};
-          return;
         }
-        return;
       }
     }
   }
@@ -73,8 +67,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let mut narseseInner = narsese2.clone();
+  let punctationChar = narseseInner.pop().unwrap();
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From dfea950b1e18aa829e56ac60df75c2f10c239b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 06/20] fix: parser must reject truth values out of range

---
 src/NarseseParser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index b135438..7e0cb29 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -30,8 +30,10 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
       if splitted.len() == 2 { // must have two values
         // text which isn't a TV is not cut away, so parsing of the whole narsese fails
         if let (Ok(f), Ok(c)) = (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
-          *narsese = narsese[..idx].to_string(); // cut away
-          *tv = Tv{f:f,c:c};
+          if f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0 { // must be a valid TV
+            *narsese = narsese[..idx].to_string(); // cut away
+            *tv = Tv{f:f,c:c};
+          }
         }
       }
     }
-- 
2.43.0


From 4a45005ee0d094377f60c84516528293c0f3df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 07/20] fix: facade must not panic on malformed commands, and
 !spA/!spB must be reachable

---
 src/NarInputFacade.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..3d380cd 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,17 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -39,17 +45,16 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            match input[2..].parse::<i64>() {
+                Ok(n) => { nCycles = n; },
+                Err(_) => {
+                    println!("ERR - couldn't parse!");
+                    return retInfo;
+                }
+            }
         }
         for _i in 0..nCycles {
             cycle(nar);
@@ -58,7 +63,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +100,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From 4100ea314c331ff3b8b48c71bee875b1651e6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:18 +0000
Subject: [PATCH 08/20] fix: index every goal by term so that the same goal is
 not stored again

---
 src/NarGoalSystem.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..00a1481 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -266,6 +266,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        let mut foundGroup = false;
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -273,34 +274,24 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
-                    return;
+                    foundGroup = true;
+                    break;
                 }
             }
         }
     
-        { // case to add it as a new group
+        if !foundGroup { // case to add it as a new group
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
                 }
             );
+        }
 
+        { // every entry has to be indexed by term, else addEntry() doesn't recognize the same goal
             match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
                 Some(arr) => {
-                    
-                    let mut exists = false;
-                    for iItem in arr.read().iter() {
-                        let borrowedItem = iItem.read();
-                        if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
-                            exists = true;
-                            break; // OPT
-                        }
-                    }
-                    
-                    if !exists {
-                        arr.write().push(Arc::clone(&e));
-                    }
+                    arr.write().push(Arc::clone(&e));
                     return;
                 },
                 None => {} // by term doesn't exist - fall through
-- 
2.43.0


From a934e7f74ad20ab488275831948f234ad11bd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:43 +0000
Subject: [PATCH 09/20] fix: limiting goals must not count active operations
 twice

---
 src/NarGoalSystem.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 00a1481..3631f16 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -428,11 +428,7 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 /// called when it has to stay under AIKR
 /// /param t is the procedural reasoner NAR time
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
-    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
-    
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
+    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries, includes active set
 
     dbg(&format!("nEntries={}", arr.len()));
 
-- 
2.43.0


From 9e8605cabb5e070c5251836ab6331c2fd8bc926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 10/20] fix: storage worker must not panic on predictions which
 were told without an interval

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..50b845c 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.unwrap_or(0) >= evidenceSentence.expDt.unwrap_or(0) && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From 95560c994de61d6064c27b7a5021b7264f1347e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 11/20] fix: predictive implication without sequence must be
 reported as not supported instead of panicking

---
 src/Nar.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..f03015b 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -94,12 +94,18 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         _ => {false}
     };
 
+    // compute if the term is a implication sequence, only these can be stored as temporal knowledge
+    let isImplSeq = match term {
+        Term::Stmt(Copula::PREDIMPL, subj, _) => {NarProc::is_seq(subj)},
+        _ => {false}
+    };
+
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
             // quesion was already added
             //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else if punct == EnumPunctation::JUGEMENT && isImplSeq {
             // add to temporal knowledge
             sentence.evi = Some(Evidence::CNT{pos:10,cnt:10}); // we need to transcribe TV
                                                             // TODO< transcribe TV in a better way, we need to approximate freq and conf! >
-- 
2.43.0


From c724ec6b23313c26f9ce5376014345d47bb2b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 12/20] fix: random variable name must not index past the end
 of the alphabet

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..cc7d768 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 9e1030a4fdcaab58b306b11cef1a918896968f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 13/20] fix: decision making must not panic on sequences which
 do not end with an operation

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 50b845c..a86cfa0 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -825,7 +825,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
 
         match bestEntry2 {
             Some(bestEntry3) => {
-                if bestEntry3.exp > nar.cfgDescnThreshold {
+                if bestEntry3.exp > nar.cfgDescnThreshold && is_seqAndLastOp(&bestEntry3.unifiedSeq) { // only a sequence which ends with a op can be executed
                     match bestEntry3.evidence {
                         Some(evidence) => {
                             
-- 
2.43.0


From 59a21bfa6cecb33d1e76681634ee68f8ea2f8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:22 +0000
Subject: [PATCH 14/20] fix: variable introduction must see the relation of
 images

---
 src/NarInfProcedural.rs | 2 +-
 src/Term.rs             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index cc7d768..1e8eb36 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -180,7 +180,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
                 for i in elements {
                     arr.push(Box::new(helper(i, repl, with)));
                 }
-                Term::Img(Box::new((**rel).clone()),*idx,arr)
+                Term::Img(Box::new(helper(rel, repl, with)),*idx,arr)
             },
             Term::IntInt(elements) => {
                 let mut arr = vec![];
diff --git a/src/Term.rs b/src/Term.rs
index 61b0cf1..69e1f51 100644
--- a/src/Term.rs
+++ b/src/Term.rs
@@ -600,8 +600,8 @@ pub fn count_occurence_subterms(t: &Term, searched: &Term) -> i64 {
             }
             n
         },
-        Term::Img(rela,idxa,elementsa) => {
-            let mut n = 0;
+        Term::Img(rela,_idxa,elementsa) => {
+            let mut n = count_occurence_subterms(rela, searched);
             for idx in 0..elementsa.len() {
                 n += count_occurence_subterms(&elementsa[idx], searched);
             }
-- 
2.43.0


From 849548b9cbc67723d7e241300739d581f935d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:34 +0000
Subject: [PATCH 15/20] fix: relation operation must not panic on or truncate
 products of other than two components

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..545349e 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => {
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From 48e570355316828bca6ed45dd2d9d8878fedd336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 16/20] fix: derivative of a quotient is (a'b - ab')/b^2

---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0


From 4915f66a871e1ec1470ddfeea1020fa13db1f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 17/20] fix: circle fills the cells within its radius

---
 src/Map2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index aba5fcb..00b03fb 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -53,7 +53,7 @@ pub fn map2dDrawBox<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,w:i32,h:i32,v:T) {
 pub fn map2dDrawCircle<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,r:i32,v:T) {
     for iy in -(r+1)..r+1 {
         for ix in -(r+1)..r+1 {
-            if ix*ix+iy*iy <= r {
+            if ix*ix+iy*iy <= r*r {
                 writeAt(m,cy+iy,cx+ix, v);
             }
         }
-- 
2.43.0


From db7fc0575ee4df9e9394b01c4d424c5ffcb82a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 18/20] fix: line projects cells onto the normalised direction

---
 src/Map2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index 00b03fb..5ae9d40 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -90,8 +90,8 @@ pub fn drawLine<T:Copy>(m:&mut Map2d<T>, ax:i32,ay:i32,bx:i32,by:i32,v:T) {
             }
 
             // projected
-            let px = (ax as f64) + dotRes*fdiffx;
-            let py = (ay as f64) + dotRes*fdiffy;
+            let px = (ax as f64) + dotRes*nfdiffx;
+            let py = (ay as f64) + dotRes*nfdiffy;
 
             let diff2x = (ix as f64) - px;
             let diff2y = (iy as f64) - py;
-- 
2.43.0


From c7214bf629c9420d75ca3bde64121b0f15c39f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 19/20] fix: encoding of sequences which are longer than the
 network input

---
 src/ModNlpA.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index a6c89d1..f547958 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -897,7 +897,7 @@ pub fn conv_seq_to_nninput(seq:&Seq) -> Vec<(f64,f64)> {
 
         let seq2_len = seq.seq.len();
 
-        for seq2_idx in 0..seq2_len { // iterate from end of sequence to beginning
+        for seq2_idx in seq2_len.saturating_sub(len_codes)..seq2_len { // iterate over the part of the sequence which fits
             // TODO< don't iterate over maximal capacity of encoding!
             
             
-- 
2.43.0


From 97e8c836d709537b228f20aa09bf09c0ed49d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:16 +0000
Subject: [PATCH 20/20] fix: names may contain letters of any alphabet

the length limited nom parser mixes byte and character positions, so that
names with non-ASCII letters swallowed the text which follows them
---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 7e0cb29..7388687 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -1,7 +1,7 @@
 
 use nom::{
   IResult,
-  bytes::complete::{tag, take_while_m_n},
+  bytes::complete::{tag, take_while1},
   combinator::map_res,
   //Err,
 //  sequence::tuple,
@@ -486,7 +486,7 @@ fn isValidSign(c: char) -> bool {
 
 fn alpha2(input: &str) -> IResult<&str, &str> {
   map_res(
-    take_while_m_n(1, 512, isValidSign),
+    take_while1(isValidSign),
     ok1
   )(input)
 }
-- 
2.43.0

