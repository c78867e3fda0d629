From 115d7502f59f6774526b666f8abb74f933f76ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 01/39] fix: keep the pair pass of LinkedList complete when an
 element is deleted during it

---
 src/iterator.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/iterator.rs b/src/iterator.rs
index 88c25e9..a4f25a4 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -120,12 +120,6 @@ impl<T> LinkedList<T>{
         self.links[idx].alive = false;
         let node = self.links[idx];
 
-        for c in &mut self.current{
-            if *c == Some(idx){
-                *c = node.next;
-            }
-        }
-
         match node.prev{
             Some(prev) => {self.links[prev].next = node.next;},
             None => {self.head = node.next;},
@@ -136,6 +130,22 @@ impl<T> LinkedList<T>{
             None => {self.tail = node.prev;},
         }
 
+        if self.current[0] == Some(idx){
+            self.current[0] = node.next;
+            if self.current[1].is_some(){
+                // In pair iteration, every pair of this row is gone. Go on to the next row.
+                self.current[1] = node.next.map_or(None, |x| self.links[x].next);
+            }
+        }
+        else if self.current[1] == Some(idx){
+            self.current[1] = node.next;
+            if node.next.is_none(){
+                // The deleted element was the last one of this row. Go on to the next row.
+                self.current[0] = self.current[0].map_or(None, |x| self.links[x].next);
+                self.current[1] = self.current[0].map_or(None, |x| self.links[x].next);
+            }
+        }
+
         Ok(())
     }
 
@@ -181,6 +191,7 @@ impl<T> LinkedList<T>{
     #[allow(dead_code)]
     pub fn into_iter(&mut self){
         self.current[0] = self.head;
+        self.current[1] = None;
     }
 
     pub fn into_double_iter(&mut self){
-- 
2.43.0


From 775035392931d66d7f0d94ad662fd49b2838853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 02/39] fix: ContCylindricalSystem::random_pos_to_vec draws
 inside the cylinder

---
 src/system_mod/cont_cyl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index ab01119..b9271fc 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -228,11 +228,11 @@ impl SystemCore<f64> for ContCylindricalSystem{
 
             let mut r : f64 = 0f64;
             for i in 0..d{
-                vec[i] *= 2f64 * sys_radius;
+                vec[i] *= sys_radius;
                 r += vec[i] * vec[i];
             }
             for i in d..dim{
-                vec[i] *= 2f64 * sys_length;
+                vec[i] *= sys_length;
             }
 
             r = r.sqrt();
-- 
2.43.0


From 3005f91037d6b9a42045ed618e85d138cfe4cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 03/39] fix: ContCylindricalSystem::position_out_of_system is
 outside also without a rectangular part

---
 src/system_mod/cont_cyl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index b9271fc..258826e 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -248,9 +248,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // system 밖의 점을 하나 출력해주는 함수
         // searcher를 새로 정의할 때, 맨 처음 위치를 시스템 밖에 두면 편리해서 생긴 기능
 
-        let sys_length : f64 = self.sys_length;
+        let size : f64 = self.sys_radius.max(self.sys_length);
         let dim : usize = self.dim;
-        return Position::new(vec![2f64 * sys_length; dim]);   // circular domain에선 아니더라도 rectangular domain에서 밖으로 나감
+        return Position::new(vec![2f64 * size; dim]);   // circular domain, rectangular domain 모두에서 밖으로 나감
     }
 
     fn position_out_of_system_to_vec(&self, vec: &mut Position<f64>) -> Result<(), Error>{
@@ -260,9 +260,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
 
-        let sys_length : f64 = self.sys_length;
+        let size : f64 = self.sys_radius.max(self.sys_length);
         for x in vec.iter_mut(){
-            *x = 2f64 * sys_length;
+            *x = 2f64 * size;
         }
         Ok(())
     }
-- 
2.43.0


From 4f9fe397661e3d7320036ccbf762216251cb906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 04/39] fix: ContCylindricalSystem::convert_from refuses a zero
 radius

---
 src/system_mod/cont_cyl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 258826e..a96bb13 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -53,7 +53,7 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius < 0f64 ||
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
                 argument.sys_length <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From 2e990163dda87fa963f45ceab73878c2c7491089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 05/39] fix: LinkedList::merge refuses dead, equal and missing
 elements instead of losing mass

---
 src/iterator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iterator.rs b/src/iterator.rs
index a4f25a4..64c4c27 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -325,6 +325,11 @@ impl<T> LinkedList<T>{
 impl<M : Merge> LinkedList<M>{
     #[allow(dead_code)]
     pub fn merge(&mut self, idx1 : usize, idx2 : usize) -> Result<(), Error>{
+        if idx1 == idx2 || idx1 >= self.links.len() || idx2 >= self.links.len()
+            || !self.links[idx1].alive || !self.links[idx2].alive{
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
+
         let size : usize = self.contents[idx2].size();
         self.contents[idx1].add_size(size)?;
         self.del(idx2)?;
-- 
2.43.0


From 436a4cc9635f881bb393dd8e437b0c62e90fe318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/39] fix: ContPassiveMergeAgent keeps its configured
 diffusion coefficient through merge and renewal

---
 src/agent_mod/cont_passive_merge.rs | 44 ++++++++++-------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 74157e0..ead8fb9 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -89,18 +89,24 @@ impl ContPassiveMergeAgent{
             }
         }
 
-        self.size = 1;
+        self.set_size(1)
+    }
+}
+
+impl ContPassiveMergeAgent{
+    // cluster의 크기를 바꾸고, 그에 맞춰 diffusion coefficient도 바꾸는 함수. D(n) = D(1) n^{-alpha}
+    fn set_size(&mut self, size : usize) -> Result<(), Error>{
         match self.mtype{
-            MoveType::Brownian(_c) =>{
-                let coeff = (self.size as f64).powf(-self.alpha);
-                self.mtype = MoveType::Brownian(coeff);
+            MoveType::Brownian(coeff_diff) =>{
+                let coeff = coeff_diff * (self.size as f64).powf(self.alpha);   // size 1일 때의 diffusion coefficient
+                self.mtype = MoveType::Brownian(coeff * (size as f64).powf(-self.alpha));
+                self.size = size;
+                Ok(())
             },
             _ => {
-                return Err(Error::make_error_syntax(ErrorCode::FeatureNotProvided));
+                Err(Error::make_error_syntax(ErrorCode::FeatureNotProvided))
             }
         }
-
-        Ok(())
     }
 }
 
@@ -225,17 +231,7 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
-        self.size = self.size + other.size;
-        match self.mtype{
-            MoveType::Brownian(_c) =>{
-                let coeff = (self.size as f64).powf(-self.alpha);
-                self.mtype = MoveType::Brownian(coeff);
-                Ok(())
-            },
-            _ => {
-                Err(Error::make_error_syntax(ErrorCode::FeatureNotProvided))
-            }
-        }
+        self.set_size(self.size + other.size)
     }
 
     fn size(&self) -> usize{
@@ -243,17 +239,7 @@ impl Merge for ContPassiveMergeAgent{
     }
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
-        self.size = self.size + size;
-        match self.mtype{
-            MoveType::Brownian(_c) =>{
-                let coeff = (self.size as f64).powf(-self.alpha);
-                self.mtype = MoveType::Brownian(coeff);
-                Ok(())
-            },
-            _ => {
-                Err(Error::make_error_syntax(ErrorCode::FeatureNotProvided))
-            }
-        }
+        self.set_size(self.size + size)
     }
 }
 
-- 
2.43.0


From 10653f7c91738c7534b0fa9cc6d93816cbb172aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 07/39] fix: ExponentialStep increases its step size also for
 groups of one or two steps

---
 src/time_mod/mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ef4d950..51fa4c2 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -213,8 +213,8 @@ impl ExponentialStep{
         }
 
         let inc : f64;
-        if length == 1{
-            inc = 1.2f64;
+        if length <= 2{
+            inc = 1.2f64;           // length / 2 would not increase the step size
         }
         else if length < 10{
             inc = (length as f64) / 2f64;
@@ -240,12 +240,8 @@ impl ExponentialStep{
         }
         match self.titype{
             TimeType::Exponential(_min, _max, length) =>{
-                if inc * 2f64 > length as f64{
-                    self.inc = (length as f64) / 2f64;
-                }
-                else{
-                    self.inc = inc;
-                }
+                let max_inc : f64 = if length <= 2 { 1.2f64 } else { (length as f64) / 2f64 };
+                self.inc = inc.min(max_inc);
             }
             _ => {
                 return Err(Error::make_error_syntax(ErrorCode::InvalidType));
-- 
2.43.0


From c42aac40906683b3b0509a0e944481f48456da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 08/39] fix: time iterators built from arguments refuse a zero
 step size

---
 src/time_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 51fa4c2..4805a13 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -173,7 +173,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 0f64{
+        if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-10{
@@ -342,7 +342,7 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 0f64
+        if tmax < 0f64 || dt_min < 1e-15
             || dt_min > dt_max || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From 34b8cbc316488da5aa0c8b11205cf091b4a21eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 09/39] fix: ConstStep honours a time limit below 1e-10

---
 src/time_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 4805a13..2cefae0 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -132,7 +132,7 @@ impl TimeIterator for ConstStep{
         if tmax < 0f64{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
-        else if tmax < 1e-10{
+        else if tmax < 1e-15{
             self.tmax = std::f64::MAX;
         }
         else{
@@ -176,7 +176,7 @@ impl ConstStep{
         if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-        else if argument.tmax < 1e-10{
+        else if argument.tmax < 1e-15{
             tmax = std::f64::MAX;
         }
         else{
-- 
2.43.0


From e2f6d169f4defc21f06cf57a9ab9eab7582d6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 10/39] fix: values that contain a colon are read back from a
 result file header

---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index b35d5d4..a495a8a 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -144,7 +144,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 Some(x) => x.map_err(Error::make_error_io)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
-                            let split : Vec<String> = list.split(":")
+                            let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
                             if split.len() != 2{
-- 
2.43.0


From de3945ed51dc9dff2805d96f79b090d9a6309df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 11/39] fix: malformed or truncated text is a parse error
 instead of a panic

---
 src/agent_mod/types.rs | 15 ++++++++-------
 src/analysis.rs        |  4 ++--
 src/argument.rs        |  4 ++--
 src/system_mod/mod.rs  | 10 +++++-----
 src/time_mod/mod.rs    | 11 ++++++-----
 5 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3213635..5438a7b 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -171,8 +171,9 @@ impl FromStr for MoveType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Brownian" => Ok(MoveType::Brownian(split[4].parse::<f64>().expect("Failed to parse"))),
+        match split.get(0).copied().unwrap_or(""){
+            "Brownian" => split.get(4).copied().unwrap_or("").parse::<f64>().map(|c| MoveType::Brownian(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Levy" => Ok(MoveType::Levy),
             _ => {
                 if split.len() == 1{
@@ -232,8 +233,8 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
             }
         }
         else{
-            match split[1]{
-                "all" => Ok(InitType::<T>::SpecificPosition(split[4].parse::<Position<T>>().expect("Failed to parse"))),
+            match split.get(1).copied().unwrap_or(""){
+                "all" => split.get(4).copied().unwrap_or("").parse::<Position<T>>().map(|pos| InitType::<T>::SpecificPosition(pos)),
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             }
@@ -300,7 +301,7 @@ impl FromStr for InteractType{
             let name = split[0];
             match name{
                 "Exponential" => {
-                    let args : Vec<&str> = split[1].split(',').collect();
+                    let args : Vec<&str> = split.get(1).copied().unwrap_or("").split(',').collect();
                     if args.len() != 2{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
                     }
@@ -315,7 +316,7 @@ impl FromStr for InteractType{
                     return Ok(InteractType::Coulomb3D);
                 },
                 "LennardJones" => {
-                    let ptl_size : f64 = split[1].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                    let ptl_size : f64 = split.get(1).copied().unwrap_or("").parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                     return Ok(InteractType::LennardJones(ptl_size));
                 }
                 _ => {
@@ -323,7 +324,7 @@ impl FromStr for InteractType{
                 }
             }
         } else {
-            match split[0]{
+            match split.get(0).copied().unwrap_or(""){
                 "Exponential" => {
                     if split.len() != 10{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
diff --git a/src/analysis.rs b/src/analysis.rs
index b23c025..05df015 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -993,8 +993,8 @@ impl<T> FromStr for Pair<T>
     fn from_str(s : &str) -> Result<Self, Self::Err>{
         let mut trim = s.to_string();
         trim.retain(|c| c != '(' && c != ')');
-        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)).unwrap())
-                           .collect();
+        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                           .collect::<Result<Vec<T>, Error>>()?;
         if splitted.len() != 2{
             return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments));
         }
diff --git a/src/argument.rs b/src/argument.rs
index a495a8a..337e5cf 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -111,7 +111,7 @@ macro_rules! impl_fn_read_args_from_vec{
                     )*
                 $($var : {
                         let word : &str = iter.next().unwrap().trim();
-                        word.parse().expect("Failed to parse\n")
+                        word.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?
                     },
                     )*
             })
@@ -151,7 +151,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-                            val_string.parse().expect("Failed to parse\n")},
+                            val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?},
                     )*
             })
         }
diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index c0bac70..50b3cfc 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -70,13 +70,13 @@ impl FromStr for SystemType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Continuous" => {
-                match split[1]{
+                match split.get(1).copied().unwrap_or(""){
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = split.get(3).and_then(|s| s.strip_prefix("0..")).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -136,11 +136,11 @@ impl FromStr for BoundaryCond{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = split.get(3).and_then(|s| s.strip_prefix("0..")).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 2cefae0..1ceca2d 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -62,12 +62,13 @@ impl FromStr for TimeType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Constant" => Ok(TimeType::Constant(split[5].parse::<f64>().expect("Failed to parse"))),
+        match split.get(0).copied().unwrap_or(""){
+            "Constant" => split.get(5).copied().unwrap_or("").parse::<f64>().map(|c| TimeType::Constant(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Exponential" => {
-                let dt_min = split[5].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let dt_max = split[7].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let length = split[13].parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_min = split.get(5).copied().unwrap_or("").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_max = split.get(7).copied().unwrap_or("").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let length = split.get(13).copied().unwrap_or("").parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(TimeType::Exponential(dt_min, dt_max, length))
             },
             _ => {
-- 
2.43.0


From c784a863059efac68c4b58428374bd8e0ecaba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 12/39] fix: a malformed coordinate is a parse error instead of
 a silent zero

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 85b01e0..9e8bf5e 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -123,8 +123,8 @@ impl<T : FromStr + Default + Clone> FromStr for Position<T>{
                                  .split(|c| c == ',' || c == ':')
                                  .collect();
         let coords: Vec<T> = coords.iter()
-                                     .map(|x| x.parse::<T>().map_or(Default::default(), |v| v))
-                                     .collect();
+                                     .map(|x| x.trim().parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                                     .collect::<Result<Vec<T>, Error>>()?;
         return Ok(Position::<T>::new(coords));
     }
 }
-- 
2.43.0


From f741ce4e806a0d998ff32e51ff3961ff02009f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 13/39] fix: distance of integer positions does not overflow

---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 9e8bf5e..a2d6832 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -185,7 +185,8 @@ impl Position<i32>{
 
         let mut r : f64 = 0.0f64;
         for (&x, &y) in self.iter().zip(other.iter()){
-            r += ((x - y) *  (x - y)) as f64;
+            let d : f64 = x as f64 - y as f64;
+            r += d * d;
         }
         return Ok(r.sqrt());
     }
-- 
2.43.0


From 191be0315de2913478d9f7c84cd291b372d17e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 14/39] fix: in-place addition and subtraction refuse vectors
 of another dimension

---
 src/position.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index a2d6832..5a09232 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -325,6 +325,10 @@ impl<T> Numerics<T> for Position<T>
     }
 
     fn mut_add(&mut self, other: &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for idx in 0..self.dim(){
             let x = &mut self.coordinate[idx];
             let y = other.coordinate[idx];
@@ -333,6 +337,10 @@ impl<T> Numerics<T> for Position<T>
     }
 
     fn mut_sub(&mut self, other: &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for idx in 0..self.dim(){
             let x = &mut self.coordinate[idx];
             let y = other.coordinate[idx];
-- 
2.43.0


From b13625bf34bf5d75d2f0c644e07c1cec84921d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 15/39] fix: check_bc refuses a position or displacement of
 another dimension before moving

---
 src/system_mod/cont_circ.rs  | 12 ++++++++++++
 src/system_mod/cont_cubic.rs |  4 ++++
 src/system_mod/cont_cyl.rs   |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 8b3f5ef..76cb523 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -80,6 +80,10 @@ impl SystemCore<f64> for ContCircSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if self.dim != pos.dim() || self.dim != dp.dim(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
@@ -175,6 +179,10 @@ pub fn check_bc_exact(sys: ContCircSystem, pos: &mut Position<f64>, dp: &mut Pos
     // pos : initial position of ptl
     // dp : displacement of ptl
 
+    if sys.dim != pos.dim() || sys.dim != dp.dim(){
+        return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+    }
+
     pos.mut_add(dp);
     if sys.check_inclusion(pos)?{
         return Ok(());
@@ -203,6 +211,10 @@ pub fn check_bc_first_order(sys: ContCircSystem, pos: &mut Position<f64>, dp: &m
     // 위의 정확한 계산에서 dp가 작고, pos이 경계에 가깝단 조건에서 first order만 남긴 결과
     // 비례로 줄여들어오는 것보다 오히려 더 안좋다.
 
+    if sys.dim != pos.dim() || sys.dim != dp.dim(){
+        return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+    }
+
     pos.mut_add(dp);
     if sys.check_inclusion(pos)?{
         return Ok(());
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 1ae66dd..6cb410e 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -91,6 +91,10 @@ impl SystemCore<f64> for ContCubicSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if self.dim != pos.dim() || self.dim != dp.dim(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index a96bb13..2c294e9 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -112,6 +112,10 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if self.dim != pos.dim() || self.dim != dp.dim(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
-- 
2.43.0


From ef36a74de8e9820950d149f8f90afe11bf06124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 16/39] fix: data sets with different parameters are not
 identified by a truncated hash

---
 src/macros.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9f05ce1..0ed4cfb 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -136,14 +136,8 @@ macro_rules! derive_hash{
         impl Hash for $name{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
-                    let mut c = self.$var as f64 * 1e10;
-                    let mut b : f64 = 0.0;
-
-                    if c < 0.0 {
-                        c = - c;
-                        b = 1.0;
-                    }
-                    ((c + b) as usize).hash(state);
+                    // + 0.0 identifies -0.0 with 0.0
+                    (self.$var as f64 + 0.0).to_bits().hash(state);
                     )*
             }
         }
-- 
2.43.0


From b2678c466251369f64c7d6a15f06f5afe4680018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 17/39] fix: the maximal value belongs to the last bin instead
 of a bin past the end

---
 src/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 05df015..a4d2c73 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -226,7 +226,7 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt - self.min_time) / self.bin_size).floor() as usize);
+                return Some((((fpt - self.min_time) / self.bin_size).floor() as usize).min(self.num_bin - 1));
             }
         }
 
@@ -236,7 +236,7 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize);
+                return Some((((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize).min(self.num_lbin - 1));
             }
         }
     }
-- 
2.43.0


From bf25eac670f7027ff166c40ca40e3a0c535857b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 18/39] fix: binnings without width are refused

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index a4d2c73..b7ddeed 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -153,7 +153,7 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || bin_size < 0f64 || lbin_size < 0f64{
+            if min_time < 0f64 || max_time <= min_time.max(1e-15) || bin_size <= 0f64 || lbin_size <= 1f64{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -179,7 +179,7 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn update_from_num_bin(&mut self, min_time : f64, max_time : f64, num_bin : usize) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if min_time < 0f64 || max_time <= min_time.max(1e-15) || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -203,7 +203,7 @@ macro_rules! construct_trait_bin {
         }
 
         fn convert_num_bin_to_bin_size(min_time : f64, max_time : f64, num_bin : usize) -> Result<(f64, f64), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if min_time < 0f64 || max_time <= min_time.max(1e-15) || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
-- 
2.43.0


From ee712fb5dd6918449fc0ab15606c0612b4fb20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 19/39] fix: the standard deviation of equal samples is 0
 instead of NaN

---
 src/analysis.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index b7ddeed..b20774e 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -403,7 +403,7 @@ impl Var1 for TimeAnalysis{
         let en : f64= self.ensemble as f64;
 
         self.mean = self.mean / en;
-        self.stddev = ((self.stddev / en) - self.mean.powi(2)).sqrt();
+        self.stddev = ((self.stddev / en) - self.mean.powi(2)).max(0f64).sqrt();
 
         let d_bin : f64 = en * (self.bin_size as f64);
         let lbin : f64 = self.lbin_size;
@@ -726,7 +726,7 @@ impl VarN for TimeVecAnalysis{
 
         for idx in 0..self.num_var{
             self.means[idx] = self.means[idx] / en;
-            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).sqrt();
+            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).max(0f64).sqrt();
 
             let mut d_lbin : f64 = self.min_time * en * (lbin - 1f64);
 
@@ -1124,14 +1124,14 @@ impl VarTime for ProcessAnalysis{
         let en = self.tot_point as f64;
 
         self.long_term_mean = self.long_term_mean / en;
-        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).sqrt();
+        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).max(0f64).sqrt();
 
         let count = &self.count;
         let mean = &mut self.mean;
         let stddev = &mut self.stddev;
         for (i, &x) in count.iter().enumerate(){
             mean[i] = mean[i] / (x as f64);
-            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).sqrt();
+            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).max(0f64).sqrt();
         }
 
         let lcount = &self.lcount;
@@ -1139,7 +1139,7 @@ impl VarTime for ProcessAnalysis{
         let log_stddev = &mut self.log_stddev;
         for (i, &x) in lcount.iter().enumerate(){
             log_mean[i] = log_mean[i] / (x as f64);
-            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).sqrt();
+            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).max(0f64).sqrt();
         }
     }
 }
-- 
2.43.0


From 837d439a948c1dc12ef962f549260e4e553f86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 20/39] fix: ProcessAnalysis::clear also forgets the number of
 points

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index b20774e..fa61d5b 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1151,6 +1151,7 @@ impl Analysis for ProcessAnalysis{
     fn clear(&mut self){
         self.long_term_mean = 0f64;
         self.long_term_stddev = 0f64;
+        self.tot_point = 0;
         self.ensemble = 0;
 
         self.mean = vec![0f64; self.num_bin];
-- 
2.43.0


From 51c2eea8d943ff13b3aaae547c10d4b6ff6472fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 21/39] fix: exported distributions list every bin that holds
 data, also small or negative values

---
 src/analysis.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index fa61d5b..f136969 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -454,10 +454,10 @@ impl Analysis for TimeAnalysis{
         let mut time = self.min_time - bin_size / 2f64;
         for (i, &x) in self.hist.iter().enumerate(){
             time += bin_size;
-            if x.abs() < 1e-15{
+            let n = self.count[i];
+            if n == 0{
                 continue;
             }
-            let n = self.count[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -470,10 +470,10 @@ impl Analysis for TimeAnalysis{
 
         for (i, &x) in self.lhist.iter().enumerate(){
             time *= r;
-            if x.abs() < 1e-15{
+            let n = self.lcount[i];
+            if n == 0{
                 continue;
             }
-            let n = self.lcount[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -794,7 +794,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.count[idx][i];
                 let x = self.hist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -825,7 +825,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.lcount[idx][i];
                 let x = self.lhist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -1192,7 +1192,7 @@ impl Analysis for ProcessAnalysis{
             let x = self.mean[i];
             let dx = self.stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
@@ -1213,7 +1213,7 @@ impl Analysis for ProcessAnalysis{
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
-- 
2.43.0


From 14c4eac5a4b1fd488a62b9a2845bf51a3d19c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 22/39] fix: exported distributions include the last bin

---
 src/analysis.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index f136969..1fded77 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -783,9 +783,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
             let mut string = String::new();
             let mut check = false;
 
@@ -804,7 +803,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time += bin_size;
-            i += 1;
 
         }
         Ok(())
@@ -814,9 +812,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let mut string = String::new();
             let mut check = false;
 
@@ -835,7 +832,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1184,9 +1180,8 @@ impl Analysis for ProcessAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
 
             let n = self.count[i];
             let x = self.mean[i];
@@ -1197,7 +1192,6 @@ impl Analysis for ProcessAnalysis{
             }
 
             time += bin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1206,9 +1200,8 @@ impl Analysis for ProcessAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let n = self.lcount[i];
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
@@ -1218,7 +1211,6 @@ impl Analysis for ProcessAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
-- 
2.43.0


From 077838248180302b2b596e23302cbb87f50d5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 23/39] fix: summary columns are in the order that the summary
 header announces

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 1fded77..3811ae2 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -445,7 +445,7 @@ impl Analysis for TimeAnalysis{
 
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
-        Ok(format!("{}", format_args!("{1:<0$e}\t{2:<0$e}\t{3:<0$}", prec, self.mean, self.stddev, self.ensemble)))
+        Ok(format!("{}", format_args!("{1:<0$}\t{2:<0$e}\t{3:<0$e}", prec, self.ensemble, self.mean, self.stddev)))
     }
 
     #[allow(dead_code)]
@@ -1171,8 +1171,8 @@ impl Analysis for ProcessAnalysis{
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
         let mut string = String::new();
-        string.push_str(format!("{}", format_args!("{1:<0$e}\t{2:<0$e}\t {3:<0$}\t",
-                        prec, self.long_term_mean, self.long_term_stddev, self.ensemble)).as_str());
+        string.push_str(format!("{}", format_args!("{1:<0$}\t{2:<0$e}\t{3:<0$e}\t",
+                        prec, self.ensemble, self.long_term_mean, self.long_term_stddev)).as_str());
         Ok(string)
     }
 
-- 
2.43.0


From a2fe58b6397dda6e8bded2cd148df20771f89367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 24/39] fix: export writes the whole summary row also on short
 writes

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 3811ae2..d2e5477 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -481,7 +481,7 @@ impl Analysis for TimeAnalysis{
 
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
         // Export datas
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -839,7 +839,7 @@ impl Analysis for TimeVecAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -1218,7 +1218,7 @@ impl Analysis for ProcessAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
-- 
2.43.0


From b798a4c98407cbccc4634463a57a8f4fa87c0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 25/39] fix: analyze reports an error when the summary cannot
 be written

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index d2e5477..9850ea3 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -606,6 +606,7 @@ impl Analysis for TimeAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -971,6 +972,7 @@ impl Analysis for TimeVecAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -1351,6 +1353,7 @@ impl Analysis for ProcessAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
-- 
2.43.0


From d62ffb071f4d64c37ce4dda0bc20548e4afb16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 26/39] fix: TimeAnalysis::analyze skips data sets without
 samples instead of exporting NaN

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 9850ea3..9725878 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -599,6 +599,9 @@ impl Analysis for TimeAnalysis{
         }
 
         for (dataset, analysis) in hashmap.iter_mut(){
+            if analysis.ensemble == 0{
+                continue;
+            }
             analysis.draw();
 
             let hist_filename = dataset.export_file_removed_idx(prefix);
-- 
2.43.0


From b24f9d0ed79407c68c0ed26ff68817717b71e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 27/39] fix: malformed analysis arguments and data lines are
 errors instead of panics

---
 src/analysis.rs | 55 +++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 9725878..15eaa17 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -511,9 +511,9 @@ impl Analysis for TimeAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -522,10 +522,10 @@ impl Analysis for TimeAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
@@ -591,7 +591,7 @@ impl Analysis for TimeAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let time : f64 = line.trim().parse().unwrap();
+                let time : f64 = line.trim().parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat))?;
                 analysis.add_ensemble(time);
             }
 
@@ -875,10 +875,10 @@ impl Analysis for TimeVecAnalysis{
         match args.len(){
             5 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -887,11 +887,11 @@ impl Analysis for TimeVecAnalysis{
             },
             6 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
@@ -957,7 +957,12 @@ impl Analysis for TimeVecAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let values = line.trim().split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect();
+                let values = line.trim().split_whitespace()
+                                 .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat)))
+                                 .collect::<Result<Vec<f64>, Error>>()?;
+                if analysis.num_var != 0 && analysis.num_var != values.len(){
+                    return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
+                }
                 analysis.add_ensemble(values);
             }
 
@@ -1254,9 +1259,9 @@ impl Analysis for ProcessAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -1265,10 +1270,10 @@ impl Analysis for ProcessAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
-- 
2.43.0


From ab5bf1fa15579982b8ef2562c1107654ef2e6839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 28/39] fix: TimeVecAnalysis announces the number of arguments
 that its analysis needs

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 15eaa17..3af1e71 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -751,7 +751,7 @@ impl VarN for TimeVecAnalysis{
 }
 
 impl Analysis for TimeVecAnalysis{
-    const NUM_ARGS : usize = 4;
+    const NUM_ARGS : usize = 5;
 
     // Clear data
     fn clear(&mut self){
-- 
2.43.0


From 6e5cccafe5f82697d7eeb87bb7b4a2e7104ebb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 29/39] fix: setup_simulation_fixed skips the leading arguments
 for an analysis as well

---
 src/setup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setup.rs b/src/setup.rs
index a451711..1f3e928 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -103,7 +103,7 @@ macro_rules! setup_simulation_fixed{
         define_total_num_args!($($struct_type),*);
 
         if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
-                return <$analysis>::analyze::<$dataset>(&$args, WIDTH, $prefix);
+                return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
         else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
-- 
2.43.0


From f31efb8797a529879bb24bffd68d3ef10bd88461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 30/39] fix: simulation! compiles for ContCylindricalSystem and
 ContPassiveMergeAgent

---
 moledyn_proc/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moledyn_proc/src/lib.rs b/moledyn_proc/src/lib.rs
index 1ec717d..d02d7e6 100644
--- a/moledyn_proc/src/lib.rs
+++ b/moledyn_proc/src/lib.rs
@@ -75,7 +75,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContCylindricalSystem" => {
             let tokens = proc_quote::quote!{
-                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [radius, f64, length, f64, dim, usize]
+                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]
             };
             tokens.into()
         },
@@ -103,7 +103,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContPassiveMergeAgent" => {
             let tokens = proc_quote::quote!{
-                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [radius, f64, alpha, f64, num_agent, usize]
+                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]
             };
             tokens.into()
         },
-- 
2.43.0


From 73bb452db11a8a4a6543477b9b00188c735b5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 31/39] fix: a header of another kind of component is not read
 as this one's parameters

---
 src/argument.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/argument.rs b/src/argument.rs
index 337e5cf..04dced2 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -147,7 +147,7 @@ macro_rules! impl_fn_read_args_from_lines{
                             let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
-                            if split.len() != 2{
+                            if split.len() != 2 || split[0].trim() != stringify!($var){
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
@@ -155,6 +155,21 @@ macro_rules! impl_fn_read_args_from_lines{
                     )*
             })
         }
+    };
+    // With the values of the fields that the kind of structure determines :
+    // a header with other values belongs to another kind of structure.
+    ($name:ident $(, $type_name:ident, $type_default:expr)* ; $($var:ident), *) => {
+        fn read_args_from_lines(reader : &mut Lines<BufReader<File>>) -> Result<$name, Error>{
+            impl_fn_read_args_from_lines!($name $(, $type_name)* $(, $var)*);
+
+            let args = read_args_from_lines(reader)?;
+            $(
+                if args.$type_name != $type_default{
+                    return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
+                }
+            )*
+            Ok(args)
+        }
     }
 }
 
@@ -181,7 +196,7 @@ macro_rules! impl_argument_trait{
 
             impl_fn_read_args_from_vec!($arg_name $(,$type_name, $type_default)*; $($var), *);
 
-            impl_fn_read_args_from_lines!($arg_name $(, $type_name)* $(,$var)*);
+            impl_fn_read_args_from_lines!($arg_name $(,$type_name, $type_default)* ; $($var), *);
         }
 
         // impl Display for $struct_name{
-- 
2.43.0


From 06a8670c69ee757b68d2fbf1698cabed0c8769d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 32/39] fix: two analyses at the same time do not write into
 the same directory

---
 src/analysis.rs | 78 +++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 3af1e71..5f405a1 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -534,27 +534,23 @@ impl Analysis for TimeAnalysis{
         }
 
         let mut hashmap : HashMap<H, Self> = HashMap::new();
-        let mut summary_dir : String = format!("{}", format_args!("{}/analysis_{}",
+        let base_dir : String = format!("{}", format_args!("{}/analysis_{}",
                                     data_dir, Utc::today().format("%Y%m%d").to_string()));
-
-        if Path::new(&summary_dir).exists(){
-            let mut i : usize = 2;
-            let mut new : String;
-            loop{
-                new = format!("{}", format_args!("{}_{}", summary_dir, i));
-                if Path::new(&new).exists(){
-                    i += 1;
-                }
-                else{
-                    break;
-                }
+        let mut summary_dir : String = base_dir.clone();
+        let mut i : usize = 2;
+
+        // Directory is created exclusively, so that it is not shared with another analysis
+        fs::create_dir_all(&data_dir).map_err(Error::make_error_io)?;
+        while let Err(err) = fs::create_dir(&summary_dir){
+            if err.kind() != io::ErrorKind::AlreadyExists{
+                return Err(Error::make_error_io(err));
             }
-            summary_dir = new.clone();
+            summary_dir = format!("{}", format_args!("{}_{}", base_dir, i));
+            i += 1;
         }
 
         let summary_file : String = format!("{}/brief_result.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
@@ -900,27 +896,23 @@ impl Analysis for TimeVecAnalysis{
         }
 
         let mut hashmap : HashMap<H, Self> = HashMap::new();
-        let mut summary_dir : String = format!("{}", format_args!("{}/analysis_{}",
+        let base_dir : String = format!("{}", format_args!("{}/analysis_{}",
                                     data_dir, Utc::today().format("%Y%m%d").to_string()));
-
-        if Path::new(&summary_dir).exists(){
-            let mut i : usize = 2;
-            let mut new : String;
-            loop{
-                new = format!("{}", format_args!("{}_{}", summary_dir, i));
-                if Path::new(&new).exists(){
-                    i += 1;
-                }
-                else{
-                    break;
-                }
+        let mut summary_dir : String = base_dir.clone();
+        let mut i : usize = 2;
+
+        // Directory is created exclusively, so that it is not shared with another analysis
+        fs::create_dir_all(&data_dir).map_err(Error::make_error_io)?;
+        while let Err(err) = fs::create_dir(&summary_dir){
+            if err.kind() != io::ErrorKind::AlreadyExists{
+                return Err(Error::make_error_io(err));
             }
-            summary_dir = new.clone();
+            summary_dir = format!("{}", format_args!("{}_{}", base_dir, i));
+            i += 1;
         }
 
         let summary_file : String = format!("{}/brief_result.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
@@ -1282,27 +1274,23 @@ impl Analysis for ProcessAnalysis{
         }
 
         let mut hashmap : HashMap<H, Self> = HashMap::new();
-        let mut summary_dir : String = format!("{}", format_args!("{}/analysis_{}",
+        let base_dir : String = format!("{}", format_args!("{}/analysis_{}",
                                     data_dir, Utc::today().format("%Y%m%d").to_string()));
-
-        if Path::new(&summary_dir).exists(){
-            let mut i : usize = 2;
-            let mut new : String;
-            loop{
-                new = format!("{}", format_args!("{}_{}", summary_dir, i));
-                if Path::new(&new).exists(){
-                    i += 1;
-                }
-                else{
-                    break;
-                }
+        let mut summary_dir : String = base_dir.clone();
+        let mut i : usize = 2;
+
+        // Directory is created exclusively, so that it is not shared with another analysis
+        fs::create_dir_all(&data_dir).map_err(Error::make_error_io)?;
+        while let Err(err) = fs::create_dir(&summary_dir){
+            if err.kind() != io::ErrorKind::AlreadyExists{
+                return Err(Error::make_error_io(err));
             }
-            summary_dir = new.clone();
+            summary_dir = format!("{}", format_args!("{}_{}", base_dir, i));
+            i += 1;
         }
 
         let summary_file : String = format!("{}/brief_data.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
-- 
2.43.0


From a4d10d07a8d3094d4f490abaedf09cfa92ae5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 33/39] fix: an analysis reports result files that cannot be
 read instead of leaving them out

---
 src/analysis.rs | 14 +++++++++++++-
 src/argument.rs |  2 +-
 src/error.rs    |  7 +++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 5f405a1..6e26585 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -58,7 +58,13 @@ macro_rules! construct_dataset {
                 let f = File::open(path).map_err(Error::make_error_io)?;
                 let f = BufReader::new(f);
                 let mut lines = f.lines();
-                lines.next();
+                // content of the first line is not used
+                if let Some(Err(err)) = lines.next(){
+                    let err = Error::make_error_read(err);
+                    if err.is_io(){
+                        return Err(err);
+                    }
+                }
 
                 $(
                     let $arg_name = <$struct_type>::read_args_from_lines(&mut lines)?;
@@ -570,6 +576,8 @@ impl Analysis for TimeAnalysis{
 
             let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                 Ok(ds) => ds,
+                // a file that cannot be read is not the same as a file of another program
+                Err(err) if err.is_io() => {return Err(err);},
                 Err(_err) => {continue;},
             };
 
@@ -932,6 +940,8 @@ impl Analysis for TimeVecAnalysis{
 
             let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                 Ok(ds) => ds,
+                // a file that cannot be read is not the same as a file of another program
+                Err(err) if err.is_io() => {return Err(err);},
                 Err(_err) => {continue;},
             };
 
@@ -1310,6 +1320,8 @@ impl Analysis for ProcessAnalysis{
 
             let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                 Ok(ds) => ds,
+                // a file that cannot be read is not the same as a file of another program
+                Err(err) if err.is_io() => {return Err(err);},
                 Err(_err) => {continue;},
             };
 
diff --git a/src/argument.rs b/src/argument.rs
index 04dced2..5861119 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -141,7 +141,7 @@ macro_rules! impl_fn_read_args_from_lines{
             Ok($name{
                 $($var : {
                             let list : String = match reader.next(){
-                                Some(x) => x.map_err(Error::make_error_io)?,
+                                Some(x) => x.map_err(Error::make_error_read)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
                             let split : Vec<String> = list.splitn(2, ":")
diff --git a/src/error.rs b/src/error.rs
index a94afc4..c9faeb5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -28,6 +28,13 @@ impl Error{
         }
     }
 
+    pub fn make_error_read(error: io::Error) -> Self{                   // 파일의 header를 읽을 때의 error. text가 아닌 파일은 format error
+        match error.kind(){
+            io::ErrorKind::InvalidData => Error::make_error_syntax(ErrorCode::InvalidFormat),
+            _ => Error::make_error_io(error),
+        }
+    }
+
     pub fn make_error_syntax(code : ErrorCode) -> Self{                 // 직접 정의한 error들. syntax error 중심
         Error {
             err: Box::new(code),
-- 
2.43.0


From 384118c23dde85a71d663ab31f275581f5a70c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:46 +0000
Subject: [PATCH 34/39] fix: values that are no number are counted in no bin,
 binnings without finite borders are refused

---
 src/analysis.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 6e26585..4bec046 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -159,6 +159,9 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
+            if ![min_time, max_time, bin_size, lbin_size].iter().all(|x| x.is_finite()){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
             if min_time < 0f64 || max_time <= min_time.max(1e-15) || bin_size <= 0f64 || lbin_size <= 1f64{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
@@ -185,6 +188,9 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn update_from_num_bin(&mut self, min_time : f64, max_time : f64, num_bin : usize) -> Result<(), Error>{
+            if !min_time.is_finite() || !max_time.is_finite(){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
             if min_time < 0f64 || max_time <= min_time.max(1e-15) || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
@@ -209,6 +215,9 @@ macro_rules! construct_trait_bin {
         }
 
         fn convert_num_bin_to_bin_size(min_time : f64, max_time : f64, num_bin : usize) -> Result<(f64, f64), Error>{
+            if !min_time.is_finite() || !max_time.is_finite(){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
             if min_time < 0f64 || max_time <= min_time.max(1e-15) || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
@@ -228,6 +237,9 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn bin_pos(&self, fpt : f64) -> Option<usize>{
+            if fpt.is_nan(){
+                return None;
+            }
             if fpt < self.min_time || self.max_time < fpt{
                 return None;
             }
@@ -238,6 +250,9 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn lbin_pos(&self, fpt : f64) -> Option<usize>{
+            if fpt.is_nan(){
+                return None;
+            }
             if fpt < self.min_time || self.max_time < fpt{
                 return None;
             }
-- 
2.43.0


From 696a4487fa7b193f39a81dc93eecb2794d041115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:46 +0000
Subject: [PATCH 35/39] fix: clocks whose step size, limit or factor is no
 number are refused

---
 src/time_mod/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 1ceca2d..debde46 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -104,6 +104,9 @@ pub struct ConstStep{
 impl ConstStep{
     #[allow(dead_code)]
     pub fn new(dt : f64) -> Result<Self, Error>{
+        if !dt.is_finite(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         if dt < 1e-15{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
@@ -130,6 +133,9 @@ impl TimeIterator for ConstStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
+        if tmax.is_nan(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         if tmax < 0f64{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
@@ -174,6 +180,9 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
+        if argument.tmax.is_nan() || !argument.dt.is_finite(){
+            panic!("{}", ErrorCode::InvalidArgumentInput);
+        }
         if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
@@ -209,6 +218,9 @@ pub struct ExponentialStep{
 impl ExponentialStep{
     #[allow(dead_code)]
     pub fn new(dt_min : f64, dt_max : f64, length : usize) -> Result<Self, Error>{
+        if !dt_min.is_finite() || dt_max.is_nan(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         if dt_min < 1e-15 || dt_min > dt_max || length == 0{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
@@ -236,6 +248,9 @@ impl ExponentialStep{
 
     #[allow(dead_code)]
     pub fn set_inc(&mut self, inc : f64) -> Result<(), Error>{
+        if inc.is_nan(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         if inc <= 1f64{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
@@ -278,6 +293,9 @@ impl TimeIterator for ExponentialStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
+        if tmax.is_nan(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         if tmax < 0f64{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
@@ -343,6 +361,9 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
+        if tmax.is_nan() || !dt_min.is_finite() || dt_max.is_nan(){
+            panic!("{}", ErrorCode::InvalidArgumentInput);
+        }
         if tmax < 0f64 || dt_min < 1e-15
             || dt_min > dt_max || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
-- 
2.43.0


From 2c6cd71f18d957dcb937e2c2698447e7a16bda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:46 +0000
Subject: [PATCH 36/39] fix: systems whose size is no number are refused

---
 src/system_mod/cont_circ.rs  | 6 ++++++
 src/system_mod/cont_cubic.rs | 6 ++++++
 src/system_mod/cont_cyl.rs   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 76cb523..32ac33c 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -16,6 +16,9 @@ impl ContCircSystem{
         // r : radius of system
         // dim : dimension of system
 
+        if r.is_nan(){
+            panic!("{:?}", ErrorCode::InvalidArgumentInput);
+        }
         if r <= 0f64 || dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
@@ -39,6 +42,9 @@ impl ContCircSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCircSystemArguments) -> Self{
 
+        if argument.sys_size.is_nan(){
+            panic!("{:?}", ErrorCode::InvalidArgumentInput);
+        }
         if argument.sys_size <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 6cb410e..2aaa860 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -16,6 +16,9 @@ impl ContCubicSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
+        if length.is_nan(){
+            panic!("{:?}", ErrorCode::InvalidArgumentInput);
+        }
         if length <= 0f64 || dim ==0 {
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
@@ -45,6 +48,9 @@ impl ContCubicSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCubicSystemArguments) -> Self{
 
+        if argument.sys_size.is_nan(){
+            panic!("{:?}", ErrorCode::InvalidArgumentInput);
+        }
         if argument.sys_size <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 2c294e9..7c0b5ea 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -17,6 +17,9 @@ impl ContCylindricalSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
+        if sys_radius.is_nan() || sys_length.is_nan(){
+            panic!("{}", ErrorCode::InvalidArgumentInput);
+        }
         if cyl_dim > dim || sys_radius <= 0f64 || sys_length <= 0f64 || dim == 0{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
@@ -53,6 +56,9 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
+        if argument.sys_radius.is_nan() || argument.sys_length.is_nan(){
+            panic!("{:?}", ErrorCode::InvalidArgumentInput);
+        }
         if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
                 argument.sys_length <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
-- 
2.43.0


From eabaf6dffdad46ba68c49133feaaff8fc79fc500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:21 +0000
Subject: [PATCH 37/39] fix: a first line without numbers counts for the number
 of components

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 4bec046..fc735b0 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -977,7 +977,7 @@ impl Analysis for TimeVecAnalysis{
                 let values = line.trim().split_whitespace()
                                  .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat)))
                                  .collect::<Result<Vec<f64>, Error>>()?;
-                if analysis.num_var != 0 && analysis.num_var != values.len(){
+                if (analysis.num_var != 0 || analysis.ensemble != 0) && analysis.num_var != values.len(){
                     return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                 }
                 analysis.add_ensemble(values);
-- 
2.43.0


From 542f41a7599ccff16d6ea7b38fdd75759bc120ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:21 +0000
Subject: [PATCH 38/39] fix: a set of processes without a point has no
 distribution

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index fc735b0..d1992c6 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1366,7 +1366,7 @@ impl Analysis for ProcessAnalysis{
         }
 
         for (dataset, analysis) in hashmap.iter_mut(){
-            if analysis.ensemble == 0{
+            if analysis.tot_point == 0{
                 continue;
             }
             analysis.draw();
-- 
2.43.0


From fb52c5d724bb1ef7d9e036e2e87114479ff25675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:21 +0000
Subject: [PATCH 39/39] fix: a list shorter than the skipped arguments is an
 error

---
 src/setup.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/setup.rs b/src/setup.rs
index 1f3e928..c8aba8a 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -6,7 +6,7 @@ use crate::prelude::*;
 // #[allow(unused_macros)]
 macro_rules! export_simulation_item{
     ($name_args:ident, $analysis:ty $(,$var:ty)*) =>{
-        eprint!("{} arguments given.\nGiven Arguments : ", $name_args.len() - NUM_SKIP);
+        eprint!("{} arguments given.\nGiven Arguments : ", $name_args.len().saturating_sub(NUM_SKIP));
         for x in $name_args.iter().skip(NUM_SKIP){
             eprint!("{}  ", x);
         }
@@ -80,10 +80,10 @@ macro_rules! setup_simulation{
         const NUM_SKIP : usize = $skip;
 
         define_total_num_args!($($struct_type),*);
-        if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
+        if $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS || $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS + 1{
                 return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
-        else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
+        else if $args.len().saturating_sub(NUM_SKIP) != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
         }
 
@@ -102,10 +102,10 @@ macro_rules! setup_simulation_fixed{
 
         define_total_num_args!($($struct_type),*);
 
-        if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
+        if $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS || $args.len().saturating_sub(NUM_SKIP) == <$analysis>::NUM_ARGS + 1{
                 return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
-        else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
+        else if $args.len().saturating_sub(NUM_SKIP) != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
         }
 
-- 
2.43.0

