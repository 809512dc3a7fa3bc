From 0bb18baa97363d2bdb5df64d61e373521cd79651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 01/42] fix: let SeekSlice seek to the end of its window

An empty window (for example an empty cached response body) could not be rewound,
and SeekFrom::End(0) always failed.
---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From e5e00f6f182e95abf33256228e5016b799f7cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 02/42] fix: make VERSION_ZERO the smallest PEP 440 version

.devN of a final release sorts before its aN.devN, so 0.dev0 was below VERSION_ZERO
and satisfied neither "<= 1" nor "!= 1".
---
 src/vocab/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..d6dccf9 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
-- 
2.43.0


From 8ce48d479f0e1f23e717dcbb845eed06f0e88767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 03/42] fix: Version::next of a post release is .post(N+1).dev0

"== 1.0.post1" also matched 1.0.post2.dev0.
---
 src/vocab/version.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index d6dccf9..15ce525 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -57,6 +57,8 @@ impl Version {
             *dev += 1;
         } else if let Some(post) = &mut new.0.post {
             *post += 1;
+            // .post(N+1).dev0 comes before .post(N+1)
+            new.0.dev = Some(0);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
-- 
2.43.0


From 3c7cd0e53c90e8046261027d1616c21191686755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 04/42] fix: Version::next of a version with a local label
 stays within that label

"== 1.0+foo" also matched 1.0+zzz and 1.0+foo.1.
---
 src/vocab/version.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 15ce525..ff89ec5 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -39,6 +39,14 @@ impl Version {
     /// Returns the smallest PEP 440 version that is larger than self.
     pub fn next(&self) -> Version {
         let mut new = self.clone();
+        // A version with a local label is followed directly by the same label with the
+        // smallest possible extra segment.
+        if !new.0.local.is_empty() {
+            new.0
+                .local
+                .push(pep440::LocalVersion::StringComponent(String::new()));
+            return new;
+        }
         // The rules are here:
         //
         //   https://www.python.org/dev/peps/pep-0440/#summary-of-permitted-suffixes-and-relative-ordering
-- 
2.43.0


From fba55887c7a0032d39970e30c32afa7acd9d91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 05/42] fix: "> X.postN" admits X.post(N+1).devM

---
 src/vocab/specifier.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..710e9f6 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -191,6 +191,7 @@ impl CompareOp {
                         low.0.dev = Some(dev + 1);
                     } else if let Some(post) = &version.0.post {
                         low.0.post = Some(post + 1);
+                        low.0.dev = Some(0);
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
-- 
2.43.0


From 550258ab3e3aaceeb95dbb3bfa18115866dd5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 06/42] fix: "< X.postN" admits X itself

Only pre-releases of X.postN are excluded, not everything from X.dev0 on.
---
 src/vocab/specifier.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 710e9f6..d184717 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -210,7 +210,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
                         new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
-- 
2.43.0


From dd9d57cfbec320186ce07d19bbd516540d6a380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 07/42] fix: unpack archives that list a directory after its
 contents or twice

Writing a file already creates its parents, so a later entry for the
directory itself failed with EEXIST; so did an entry for the root.
---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..e647f4f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -230,7 +230,7 @@ impl WriteTreeFS {
 impl WriteTree for WriteTreeFS {
     fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
         context!("Creating {path}/");
-        Ok(fs::create_dir(self.full_path(path)?)?)
+        Ok(fs::create_dir_all(self.full_path(path)?)?)
     }
 
     fn write_file(
-- 
2.43.0


From bc04b500b9b2849297a64093115e69b6e057e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 08/42] fix: unpack sparse files instead of silently skipping
 them

---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index e647f4f..2cdfd31 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -334,7 +334,7 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From 45a66ab53c096407f8c759eacfe9524bb2d46a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 09/42] fix: reject entry points that come before any section

The check was there, but the section name started out as Some("").
---
 src/vocab/entry_points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..61f9dce 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -43,7 +43,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
+    let mut current_section_name: Option<String> = None;
     let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
-- 
2.43.0


From 6c1d8d633b4bf07322e9eaeda883c700440240fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 10/42] fix: accept one-letter modules and objects in entry
 points

---
 src/vocab/entry_points.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 61f9dce..0144722 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -21,9 +21,9 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
           ^
           (?P<name> .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
-- 
2.43.0


From 47c87b988cc2395290c49d2aa7367b098e8c2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 11/42] fix: entry point names have no surrounding blanks and
 are not empty

---
 src/vocab/entry_points.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 0144722..7c7389c 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -19,7 +19,8 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
     Regex::new(
         r"(?x)
           ^
-          (?P<name> .*?)
+          \s*
+          (?P<name> [^\s=] .*?)
           \s* = \s*
           (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-- 
2.43.0


From 5fb1dd3c52ee63b793b9d2a3c9f7897e79aafc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 12/42] fix: keep all entries of a section that appears twice

---
 src/vocab/entry_points.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 7c7389c..c8562ca 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -54,7 +54,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         } else if let Some(captures) = HEADER_LINE.captures(line.as_ref()) {
             let section_name = captures.name("name").unwrap().as_str();
             if !current_entries.is_empty() {
-                result.insert(current_section_name.unwrap(), current_entries);
+                result
+                    .entry(current_section_name.unwrap())
+                    .or_default()
+                    .extend(current_entries);
             }
             current_section_name = Some(section_name.into());
             current_entries = Vec::new();
@@ -75,7 +78,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         }
     }
     if !current_entries.is_empty() {
-        result.insert(current_section_name.unwrap(), current_entries);
+        result
+            .entry(current_section_name.unwrap())
+            .or_default()
+            .extend(current_entries);
     }
     Ok(result)
 }
-- 
2.43.0


From 4496539704c4bf4f0c90fe73711b4135c7478333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 13/42] fix: an entry point name like ../purelib/x may not
 leave the scripts directory

---
 src/vocab/artifact_formats.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..6886097 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -483,10 +483,10 @@ impl Wheel {
                 if let Some(script_entrypoints) = entry_points.get(name) {
                     for entrypoint in script_entrypoints {
                         let body = script_for_entrypoint(entrypoint, script_type);
-                        let name =
-                            format!("{}/scripts/{}", vitals.data, entrypoint.name);
+                        let scripts: NicePathBuf =
+                            format!("{}/scripts", vitals.data).try_into()?;
                         transformer.write_file(
-                            &name.try_into()?,
+                            &scripts.join(&entrypoint.name.as_str().try_into()?),
                             &mut &body[..],
                             true,
                         )?;
-- 
2.43.0


From 17586f674718f448a17154e9eac2f939f5754025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 14/42] fix: recognize wheel scripts also when the reader
 returns few bytes at a time

A single fill_buf() may see only part of '#!pythonw'.
---
 src/vocab/artifact_formats.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 6886097..4ada30d 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -569,8 +569,12 @@ where
                 // contain large compiled binaries as "scripts", so it's nicer not to
                 // load the whole thing into memory until we know what we're dealing
                 // with.
-                let mut bufread = BufReader::new(&mut data);
-                let script_start = bufread.fill_buf()?;
+                let mut script_start = Vec::new();
+                (&mut data)
+                    .take(b"#!pythonw".len() as u64)
+                    .read_to_end(&mut script_start)?;
+                let mut bufread =
+                    BufReader::new(script_start.as_slice().chain(&mut data));
                 if script_start.starts_with(b"#!python") {
                     // it's some kind of script, but which kind?
                     let script_type = if script_start.starts_with(b"#!pythonw") {
-- 
2.43.0


From 8b867f27b11068e186fef50de6c46d05db37b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 15/42] fix: end the unix launcher's preamble with a newline

---
 src/trampolines/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..c4a2480 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -87,6 +87,8 @@ impl TrampolineMaker {
     }
 }
 
+// The empty line at the end is needed: indoc! drops the last newline, and the script has to
+// start on a line of its own.
 const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     #!/bin/sh
     ''':'
@@ -96,6 +98,7 @@ const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     fi
     exec "${POSY_PYTHON}" "$0" "$@"
     ' '''
+
 "#};
 
 const WINDOWS_CONSOLE: &[u8] =
-- 
2.43.0


From 933eebc930fffbf7d3e01b3968bccc8c79178ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 16/42] fix: normalize runs of separators in package names to
 one dash

---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From 3038e1f2fb257c8d35514eb04963a7fc83412170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 17/42] fix: leave the given spelling out of the total order of
 package names too

---
 src/vocab/package_name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..f114a57 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,12 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(
+        Hash = "ignore",
+        PartialEq = "ignore",
+        PartialOrd = "ignore",
+        Ord = "ignore"
+    )]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From ea1e0769a8e94c05dc09e6575ee0544db46965b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 18/42] fix: refuse build numbers that don't fit instead of
 dropping them

---
 src/vocab/artifact_name.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..c2d067e 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -154,7 +154,10 @@ fn generic_parse(
         }
         // unwrap safe because: the regex cannot fail
         let captures = BUILD_TAG_SPLIT.captures(build_tag).unwrap();
-        build_number = captures.get(1).and_then(|m| m.as_str().parse().ok());
+        build_number = match captures.get(1).unwrap().as_str() {
+            "" => None,
+            digits => Some(digits.parse().wrap_err("unsupported build number")?),
+        };
         // unwrap safe because: this group will always match something, even
         // if only the empty string
         build_name = captures.get(2).unwrap().as_str().into();
-- 
2.43.0


From c7d50da2c1f95ac4c8e945abd1cc2dbf338eb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 19/42] fix: refuse versions with numbers that would be dropped

---
 src/vocab/version.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index ff89ec5..01c8d4b 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -79,6 +79,15 @@ impl TryFrom<&str> for Version {
     type Error = eyre::Report;
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
+        // The pep440 crate silently drops pre/post/dev numbers that don't fit in a u32,
+        // so e.g. 1.0.dev20230101120000 would become 1.0
+        let (public, _local) = value.split_once('+').unwrap_or((value, ""));
+        if public
+            .split(|c: char| !c.is_ascii_digit())
+            .any(|digits| !digits.is_empty() && digits.parse::<u32>().is_err())
+        {
+            bail!("Number too large in version {}", value);
+        }
         pep440::Version::parse(value)
             .map(Version)
             .ok_or_else(|| eyre!("Failed to parse PEP 440 version {}", value))
-- 
2.43.0


From b088ec316c596297e0d9aa75d89eb2539b0eb205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 20/42] fix: match the whole of a legacy manylinux tag

---
 src/platform_tags/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_tags/expand.rs b/src/platform_tags/expand.rs
index bbcba6d..2e28216 100644
--- a/src/platform_tags/expand.rs
+++ b/src/platform_tags/expand.rs
@@ -7,7 +7,7 @@ static LINUX_RE: Lazy<Regex> = Lazy::new(|| {
 });
 
 static LEGACY_MANYLINUX_RE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)").unwrap());
+    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap());
 
 static MACOSX_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap());
-- 
2.43.0


From c846da86a84b750f50da3a7e43c065b083aed827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 21/42] fix: a response that may not be stored is no error when
 nothing was cached before

---
 src/kvstore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..092da60 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -262,8 +262,11 @@ impl KVFileLock {
     // file we got matches the one on disk before returning? might be necessary for any
     // kind of GC anyway)
     pub fn remove(self) -> Result<()> {
-        fs::remove_file(self.path)?;
-        Ok(())
+        match fs::remove_file(self.path) {
+            // there was no entry to begin with
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            res => Ok(res?),
+        }
     }
 }
 
-- 
2.43.0


From 259f4e755c3a681ecc8be63c347945481d36b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 22/42] fix: intersect the constraints of all requirements on a
 package instead of keeping the last

---
 src/resolve.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..710ce81 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -742,13 +742,26 @@ impl<'a> PubgrubState<'a> {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
                 trace!("adding dependency: {} {}", pkg, range);
-                dc.insert(pkg, range);
+                add_constraint(dc, pkg, range);
             }
         }
         Ok(())
     }
 }
 
+// The same package can be constrained several times, and all the constraints apply.
+fn add_constraint(
+    dc: &mut DependencyConstraints<ResPkg, Version>,
+    pkg: ResPkg,
+    range: Range<Version>,
+) {
+    let range = match dc.get(&pkg) {
+        Some(previous) => previous.intersection(&range),
+        None => range,
+    };
+    dc.insert(pkg, range);
+}
+
 fn specifiers_to_pubgrub(specs: &Specifiers) -> Result<Range<Version>> {
     let mut final_range = Range::any();
     for spec in &specs.0 {
@@ -863,7 +876,8 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
+                    add_constraint(
+                        &mut dc,
                         ResPkg::Package(name.clone(), None),
                         Range::exact(version.clone()),
                     );
-- 
2.43.0


From 250eae94d764208f4e089d2a2a9be004b8fb6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 23/42] fix: a package with an extra pins the plain package to
 exactly its own version

---
 src/vocab/version.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 01c8d4b..3acaccf 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -108,6 +108,12 @@ impl pubgrub::version::Version for Version {
     }
 
     fn bump(&self) -> Self {
-        self.next()
+        // Unlike next(), this doesn't skip the local variants of self, so that
+        // Range::exact(1.0) doesn't contain 1.0+local
+        let mut new = self.clone();
+        new.0
+            .local
+            .push(pep440::LocalVersion::StringComponent(String::new()));
+        new
     }
 }
-- 
2.43.0


From db30ccf52b946ed9acf56e1c77be906354c7c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 24/42] fix: install the best-scoring pinned artifact, not the
 worst

---
 src/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..2613526 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,7 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        scored_candidates.sort_unstable_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From 1ef0a1e8285defb8c62a0742208b65166c1263f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 25/42] fix: hand out a buffered response body from its start,
 not its end

---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..2d2a468 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From e950a7d884e17d6d463bcdd7be04055dba1ee2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 26/42] fix: check the expected hash also when nothing is to be
 stored

---
 src/package_db/http/http.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 2d2a468..caee162 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -357,7 +357,15 @@ impl HttpInner {
             (Some(hash), CacheMode::OnlyIfCached) => {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
-            (_, CacheMode::NoStore) | (None, _) => Ok(self
+            (Some(hash), CacheMode::NoStore) => {
+                let mut body = self.request(request, cache_mode)?.into_body();
+                let mut checker = hash.checker(tempfile::tempfile()?)?;
+                std::io::copy(&mut body, &mut checker)?;
+                let mut file = checker.finish()?;
+                file.rewind()?;
+                Ok(Box::new(file))
+            }
+            (None, _) => Ok(self
                 .request(request, cache_mode)?
                 .into_body()
                 .force_seek()?),
-- 
2.43.0


From 4d62c5b7e12ee286c826d08134b77537707b2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 27/42] fix: refuse hashes with an unsupported algorithm or a
 wrong length

---
 src/vocab/artifact_hash.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..2b9bc39 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -6,19 +6,27 @@ pub struct ArtifactHash {
     pub raw_data: Vec<u8>,
 }
 
+fn digest_algorithm(mode: &str) -> Result<&'static ring::digest::Algorithm> {
+    match mode {
+        "sha256" => Ok(&ring::digest::SHA256),
+        _ => bail!("unknown hash algorithm {}", mode),
+    }
+}
+
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        if raw_data.len() != digest_algorithm(mode)?.output_len {
+            bail!("wrong length for a {} hash: {:?}", mode, hex);
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
     pub fn checker<T: Write>(&self, inner: T) -> Result<HashChecker<T>> {
-        let algorithm = match self.mode.as_str() {
-            "sha256" => &ring::digest::SHA256,
-            _ => bail!("unknown hash algorithm {}", self.mode),
-        };
+        let algorithm = digest_algorithm(&self.mode)?;
         let state = ring::digest::Context::new(algorithm);
         Ok(HashChecker {
             inner,
-- 
2.43.0


From 8214d07f39510a8911fa2dde152db4905294a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 28/42] fix: refuse metadata versions like 3a1 and 3.dev0 too

---
 src/vocab/core_metadata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vocab/core_metadata.rs b/src/vocab/core_metadata.rs
index 53f2204..0ca91b0 100644
--- a/src/vocab/core_metadata.rs
+++ b/src/vocab/core_metadata.rs
@@ -38,7 +38,8 @@ fn parse_common(input: &[u8]) -> Result<(PackageName, Version, RFC822ish)> {
     let mut parsed = RFC822ish::parse(&input)?;
 
     static NEXT_MAJOR_METADATA_VERSION: Lazy<Version> =
-        Lazy::new(|| "3".try_into().unwrap());
+        // the smallest version whose major version is 3
+        Lazy::new(|| "3.dev0".try_into().unwrap());
 
     // Quoth https://packaging.python.org/specifications/core-metadata:
     // "Automated tools consuming metadata SHOULD warn if metadata_version
-- 
2.43.0


From 65f7775f58dd2110e797fc6908b33b6e69221f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 29/42] fix: decode percent-encoded file names in index pages

---
 src/package_db/simple_api/html.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 2c9bf42..d06c9c5 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -76,6 +76,22 @@ fn parse_hash(s: &str) -> Option<ArtifactHash> {
     }
 }
 
+// Filenames in URLs may be percent-encoded, e.g. torch-1.0%2Bcpu-...
+fn percent_decode(s: &str) -> Option<String> {
+    let mut decoded = Vec::with_capacity(s.len());
+    let mut bytes = s.bytes();
+    while let Some(byte) = bytes.next() {
+        if byte == b'%' {
+            let high = char::from(bytes.next()?).to_digit(16)?;
+            let low = char::from(bytes.next()?).to_digit(16)?;
+            decoded.push((high * 16 + low) as u8);
+        } else {
+            decoded.push(byte);
+        }
+    }
+    String::from_utf8(decoded).ok()
+}
+
 impl Sink {
     fn try_parse_link(
         &self,
@@ -83,7 +99,8 @@ impl Sink {
         attrs: &Vec<Attribute>,
     ) -> Option<Vec<ArtifactInfo>> {
         let url = self.base.join(url_str).ok()?;
-        let name: ArtifactName = url.path_segments()?.next_back()?.try_into().ok()?;
+        let filename = percent_decode(url.path_segments()?.next_back()?)?;
+        let name: ArtifactName = filename.as_str().try_into().ok()?;
         let names = name.split_multiplatform_pybis();
         // We found a valid link
         let hash = url.fragment().and_then(parse_hash);
-- 
2.43.0


From 7b7166c94a2c4dc6eb05894c206b7bb4026ee71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 30/42] fix: an error page is not the content of a file without
 a hash

---
 src/package_db/http/http.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index caee162..57951a8 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -365,10 +365,13 @@ impl HttpInner {
                 file.rewind()?;
                 Ok(Box::new(file))
             }
-            (None, _) => Ok(self
-                .request(request, cache_mode)?
-                .into_body()
-                .force_seek()?),
+            (None, _) => {
+                let response = self.request(request, cache_mode)?;
+                if !response.status().is_success() {
+                    bail!("error fetching {url}: {}", response.status());
+                }
+                Ok(response.into_body().force_seek()?)
+            }
         }
     }
 }
-- 
2.43.0


From fd6b79676d1b30109cf978afac37cde6924e7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 31/42] fix: install from a source archive only if the lock
 lists its hash

---
 src/env.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 2613526..543bca6 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -183,7 +183,12 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| match &ai.hash {
+                                Some(hash) => {
+                                    ai.is::<Sdist>() && pin.hashes.contains(hash)
+                                }
+                                None => false,
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From b8c30697d69e23fd9ee4480ecbd1ce6b1bc3fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 32/42] fix: only a <base> with an address sets the base
 address

---
 src/package_db/simple_api/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index d06c9c5..f4ec475 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -173,10 +173,10 @@ impl TreeSink for Sink {
         }
 
         if name.expanded() == BASE_TAG {
-            // HTML spec says that only the first <base> is respected
+            // HTML spec says that only the first <base> with an href is respected
             if !self.changed_base {
-                self.changed_base = true;
                 if let Some(new_base_str) = get_attr(&HREF_ATTR, &attrs) {
+                    self.changed_base = true;
                     if let Ok(new_base) = self.base.join(new_base_str) {
                         self.base = new_base;
                     }
-- 
2.43.0


From a12d5a19fbfdd7245cbb52f5d4742a0c4a03eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 33/42] fix: an interrupted copy of a built wheel is not taken
 for a finished one

When the build directory is on another file system than the wheel cache, the
wheel was copied straight to its final name. Copy it next to the cache first.
---
 src/package_db/build_wheel.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..22788cf 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -381,7 +381,13 @@ impl<'a> WheelBuilder<'a> {
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
+                    // The build directory is on another file system. Copy the wheel
+                    // next to the cache first, so that an interrupted copy is never
+                    // taken for a finished wheel.
+                    let tempdir = wheel_cache_handle.tempdir()?;
+                    let temp_path = tempdir.path().join(&name);
+                    fs::copy(&wheel_path, &temp_path)?;
+                    fs::rename(&temp_path, &target_path)?;
                 }
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
-- 
2.43.0


From 03b365f19b23c151bc6cb27cd4aa4dc73ab67db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 34/42] fix: builds for a prerelease Python may use that
 prerelease in every step

The python was found with prereleases allowed, but then resolved again without,
which fails whenever only prereleases match.
---
 src/package_db/build_wheel.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 22788cf..0600fe5 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -202,6 +202,13 @@ impl<'a> WheelBuilder<'a> {
         like: Option<&Blueprint>,
         new_build_stack: &[&PackageName],
     ) -> Result<(Blueprint, Env)> {
+        // a prerelease python may be used to build for that same python
+        let allow_pre = if self.target_python_version.is_prerelease() {
+            AllowPre::Some([self.target_python.clone()].into())
+        } else {
+            Default::default()
+        };
+
         // if we've already resolved a version of this environment, then we can skip
         // over the tricky stuff and just re-use the pybi + any matching wheels
         if like.is_some() {
@@ -214,7 +221,7 @@ impl<'a> WheelBuilder<'a> {
                 })
                 .unwrap(),
                 requirements: reqs.into(),
-                allow_pre: Default::default(),
+                allow_pre,
             }
             .resolve(
                 self.db,
@@ -280,15 +287,10 @@ impl<'a> WheelBuilder<'a> {
         let mut found_python = None;
 
         for candidate in candidate_pyreqs {
-            let allow_pre = if self.target_python_version.is_prerelease() {
-                AllowPre::Some([self.target_python.clone()].into())
-            } else {
-                Default::default()
-            };
             let brief = Brief {
                 python: candidate,
                 requirements: Vec::new(),
-                allow_pre,
+                allow_pre: allow_pre.clone(),
             };
             let result =
                 brief.resolve(self.db, &self.build_platforms, None, new_build_stack);
@@ -313,7 +315,7 @@ impl<'a> WheelBuilder<'a> {
         let brief = Brief {
             python: pyreq,
             requirements: reqs.into(),
-            allow_pre: Default::default(),
+            allow_pre,
         };
         let blueprint = brief.resolve(
             self.db,
-- 
2.43.0


From 80b5abde6f10f16a8698a19c0acdd177b6fe576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 35/42] fix: what is built from a source archive must be of
 that release

A backend returning metadata or a wheel of another package or version had it
taken for the release that the archive was listed as.
---
 src/package_db/build_wheel.rs | 36 ++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 0600fe5..ed73110 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -67,6 +67,23 @@ enum Pep517Succeeded {
     },
 }
 
+/// A source archive of one release must not pass for another release.
+fn check_built_from(
+    sdist_ai: &ArtifactInfo,
+    name: &PackageName,
+    version: &Version,
+) -> Result<()> {
+    if name != sdist_ai.name.distribution() || version != sdist_ai.name.version() {
+        bail!(
+            "building {} gave {} {}",
+            sdist_ai.name,
+            name.as_given(),
+            version
+        );
+    }
+    Ok(())
+}
+
 impl<'a> WheelBuilder<'a> {
     pub fn new(
         db: &'a PackageDB,
@@ -145,6 +162,7 @@ impl<'a> WheelBuilder<'a> {
         }
 
         if let Some((_, os_name, name)) = best {
+            check_built_from(sdist_ai, &name.distribution, &name.version)?;
             let path = handle.join(os_name);
             return Wheel::new(name, Box::new(fs::File::open(path)?));
         }
@@ -158,6 +176,11 @@ impl<'a> WheelBuilder<'a> {
             &new_build_stack,
         )? {
             Pep517Succeeded::Wheel { wheel } => {
+                check_built_from(
+                    sdist_ai,
+                    &wheel.name().distribution,
+                    &wheel.name().version,
+                )?;
                 if wheel_platform
                     .max_compatibility(wheel.name().all_tags())
                     .is_some()
@@ -178,7 +201,7 @@ impl<'a> WheelBuilder<'a> {
         trace!("Getting metadata from source for {} {}", sdist_ai.name.distribution().as_given(), sdist_ai.name.version());
         let new_build_stack = self.new_build_stack(sdist_ai.name.distribution())?;
 
-        match self.pep517(
+        let (metadata_buf, metadata) = match self.pep517(
             sdist_ai,
             Pep517Goal::WheelMetadata,
             None,
@@ -189,11 +212,14 @@ impl<'a> WheelBuilder<'a> {
                 dist_info,
             } => {
                 let metadata_buf = fs::read(dist_info.join("METADATA"))?;
-                let metadata = metadata_buf.as_slice().try_into()?;
-                Ok((metadata_buf, metadata))
+                let metadata: WheelCoreMetadata =
+                    metadata_buf.as_slice().try_into()?;
+                (metadata_buf, metadata)
             }
-            Pep517Succeeded::Wheel { wheel } => Ok(wheel.metadata()?),
-        }
+            Pep517Succeeded::Wheel { wheel } => wheel.metadata()?,
+        };
+        check_built_from(sdist_ai, &metadata.name, &metadata.version)?;
+        Ok((metadata_buf, metadata))
     }
 
     fn get_env_for_build(
-- 
2.43.0


From 6af94c597799d48014b9b3449fcf5fbc23a535b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 36/42] fix: pass the .dist-info directory to build_wheel, as
 PEP 517 says

It was given the directory that prepare_metadata_for_build_wheel put it in.
---
 src/package_db/data-files/build-frontend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..1fa3a88 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -71,9 +71,15 @@ if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_whee
 
 wheel_dir = work_dir / "build_wheel"
 wheel_dir.mkdir()
+# This is the .dist-info directory that prepare_metadata_for_build_wheel made, not the
+# directory it was made in.
+metadata_directory = None
+if metadata_dir.exists():
+    dist_info = (work_dir / "prepare_metadata_for_build_wheel.out").read_text("utf-8")
+    metadata_directory = str(metadata_dir / dist_info)
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    metadata_directory=metadata_directory,
 )
 
 (work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-- 
2.43.0


From ea9e14d5a0ce49847181ccfce14c986ca77522c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 37/42] fix: build on Pythons without distutils

Python 3.12 dropped it; the workaround for it made every build fail there.
---
 src/package_db/data-files/build-frontend.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index 1fa3a88..937d904 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -12,17 +12,21 @@ from json import loads, dumps
 #   https://github.com/pypa/setuptools/issues/3786
 ################################################################
 import sysconfig
-import distutils.sysconfig
 
+try:
+    import distutils.sysconfig
+except ImportError:
+    # Python 3.12 and later don't come with distutils
+    pass
+else:
 
-def get_python_inc(plat_specific=0, prefix=None):
-    if plat_specific:
-        return sysconfig.get_path("platinclude")
-    else:
-        return sysconfig.get_path("include")
-
+    def get_python_inc(plat_specific=0, prefix=None):
+        if plat_specific:
+            return sysconfig.get_path("platinclude")
+        else:
+            return sysconfig.get_path("include")
 
-distutils.sysconfig.get_python_inc = get_python_inc
+    distutils.sysconfig.get_python_inc = get_python_inc
 ################################################################
 # End janky workaround
 ################################################################
-- 
2.43.0


From ac9ca1f09171d5993590342b93083f060198159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 38/42] fix: a build loop through an installed wheel is
 reported, not waited for

When a wheel had to be built to be installed, the lock on its installation was
held during the build. If the build in turn needed that same wheel, posy waited
for itself forever. Release the lock for the build.
---
 src/env.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index 543bca6..79a09f1 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -222,6 +222,12 @@ impl EnvForest {
                                 // build one and install it
                                 // unwrap is ok b/c we know we're passing an sdist
                                 // ai here
+                                //
+                                // Building it might turn out to need this very same
+                                // wheel. Don't hold our lock meanwhile, so that it's
+                                // reported as a loop, instead of us waiting for
+                                // ourselves.
+                                drop(handle);
                                 let local_wheel = db
                                     .get_locally_built_binary::<Wheel>(
                                         sdist_ai,
@@ -229,15 +235,19 @@ impl EnvForest {
                                         &wheel_platform,
                                     )
                                     .unwrap()?;
-                                let tmp = handle.tempdir()?;
-                                local_wheel.unpack(
-                                    &paths,
-                                    &trampoline_maker,
-                                    WriteTreeFS::new(&tmp),
-                                )?;
+                                let handle = self.store.lock(&sdist_hash)?;
                                 let wheel_root =
                                     handle.join(local_wheel.name().to_string());
-                                fs::rename(tmp.into_path(), &wheel_root)?;
+                                // someone else might have installed it by now
+                                if !wheel_root.exists() {
+                                    let tmp = handle.tempdir()?;
+                                    local_wheel.unpack(
+                                        &paths,
+                                        &trampoline_maker,
+                                        WriteTreeFS::new(&tmp),
+                                    )?;
+                                    fs::rename(tmp.into_path(), &wheel_root)?;
+                                }
                                 (sdist_ai, wheel_root)
                             }
                         } else {
-- 
2.43.0


From 6933e75378d00203a71d11e50849b68614c11f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 39/42] fix: reading a nested marker takes time exponential in
 its depth

---
 src/vocab/reqparse.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..734fc30 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -130,15 +130,32 @@ peg::parser! {
                   }
               }
 
+        // Parse the left side just once, whether or not there's an operator after it:
+        // peg doesn't remember results, so otherwise each level of parentheses would
+        // multiply the work.
         rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra) _ "and" _ rhs:marker_and(parse_extra)
-                 { marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)) }
-              / marker_expr(parse_extra)
+            = lhs:marker_expr(parse_extra)
+              rhs:(_ "and" _ rhs:marker_and(parse_extra) { rhs })?
+                 {
+                     match rhs {
+                         Some(rhs) => {
+                             marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs))
+                         }
+                         None => lhs,
+                     }
+                 }
 
         rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra) _ "or" _ rhs:marker_or(parse_extra)
-                 { marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)) }
-              / marker_and(parse_extra)
+            = lhs:marker_and(parse_extra)
+              rhs:(_ "or" _ rhs:marker_or(parse_extra) { rhs })?
+                 {
+                     match rhs {
+                         Some(rhs) => {
+                             marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs))
+                         }
+                         None => lhs,
+                     }
+                 }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = marker_or(parse_extra)
-- 
2.43.0


From 4e4f7593ccd3a0989fa917b22e770a1f55e90528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 40/42] fix: an empty list of version specifiers can't be read
 back

So a blueprint with a package that has no Requires-Python couldn't be, either.
---
 src/vocab/specifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index d184717..f890145 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -57,6 +57,10 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // No specifiers at all is what we print for an empty list
+        if input.trim().is_empty() {
+            return Ok(Specifiers(Vec::new()));
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From de0e02df7d217e307275cdb20ac4fa9bea26771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 41/42] fix: a brief that allows no pre-releases can't be read
 back

---
 src/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 710ce81..0c4f07d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -82,7 +82,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From b6ac8b19a294391b90e404e1dc7eea52ed329154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 42/42] fix: a brief that allows all pre-releases can only be
 read from text in memory

---
 src/resolve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 0c4f07d..e931d0d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -5,7 +5,7 @@ use pubgrub::range::Range;
 use pubgrub::report::DerivationTree;
 use pubgrub::report::Reporter;
 use pubgrub::solver::{Dependencies, DependencyConstraints};
-use std::borrow::Borrow;
+use std::borrow::{Borrow, Cow};
 use std::cell::RefCell;
 
 use crate::package_db::{ArtifactInfo, PackageDB};
@@ -36,7 +36,7 @@ impl Default for AllowPre {
 #[serde(untagged)]
 enum AllowPreSerdeHelper<'a> {
     Some(HashSet<PackageName>),
-    Other(&'a str),
+    Other(Cow<'a, str>),
 }
 
 impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
@@ -60,7 +60,7 @@ impl<'a> From<AllowPre> for AllowPreSerdeHelper<'a> {
     fn from(value: AllowPre) -> Self {
         match value {
             AllowPre::Some(pkgs) => AllowPreSerdeHelper::Some(pkgs),
-            AllowPre::All => AllowPreSerdeHelper::Other(":all:"),
+            AllowPre::All => AllowPreSerdeHelper::Other(":all:".into()),
         }
     }
 }
-- 
2.43.0

