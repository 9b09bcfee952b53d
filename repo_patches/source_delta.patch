From 438d538524434a127afc360f2be114d9b8d9651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 01/13] fix: pad from a source which is not open is an error on
 the pad

An unopened source account caused a panic when the pad was applied, and a
closed or currency-restricted one was posted to silently.
---
 rust/src/api/booking/accumulator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..fed7e10 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -440,7 +440,7 @@ impl<'a, 't> Accumulator<'a, 't> {
                 margin: Some(margin),
             }));
         }
-        let (booked_pad_idx, _) = pad.unwrap();
+        let (booked_pad_idx, pad_element) = pad.unwrap();
 
         adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
 
@@ -468,7 +468,9 @@ impl<'a, 't> Accumulator<'a, 't> {
 
         txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);
 
-        let pad_account = self.accounts.get_mut(pad_source).unwrap();
+        // the pad posts to its source, so that has to be usable too
+        let pad_account = self.get_mut_valid_account(pad_source, pad_element)?;
+        pad_account.validate_currency(balance.cur, pad_element)?;
         adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);
 
         Ok(booked::DirectiveVariant::Balance(booked::Balance {
-- 
2.43.0


From 910903be9a276090365d4df699b54dda2841877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 02/13] fix: failed reopening of a closed account leaves it
 closed

---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index fed7e10..15bc94f 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -578,12 +578,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From 190d797a25eaf02d9ee783b843fdb83a99eb71ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 03/13] fix: report booking errors in directive order

Unused pads were reported last, in the arbitrary order of a hash map.
---
 rust/src/api/booking/accumulator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 15bc94f..37566dc 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -65,6 +65,9 @@ impl<'a, 't> Accumulator<'a, 't> {
             }
         }
 
+        // accounts are in no particular order, but errors are reported in directive order
+        errors.sort_by_key(|error| error.idx.directive);
+
         if errors.is_empty() {
             Ok(BookingSuccess {
                 directives,
-- 
2.43.0


From 864d6c20f90ed19e6c342284b7cb4c34fa4565ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 04/13] fix: a second pad replaces the first

The first is an error as before, but the second was dropped too, so that the
balance it was meant for failed as well.
---
 rust/src/api/booking/accumulator.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 37566dc..5087f80 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -25,6 +25,7 @@ pub(crate) struct Accumulator<'a, 't> {
     default_booking: Booking,
     tolerance: &'t LimaTolerance<'a>,
     warnings: Vec<IndexedReport>,
+    superseded_pads: Vec<IndexedReport>,
 }
 
 pub(crate) struct BookingSuccess<'a> {
@@ -45,6 +46,7 @@ impl<'a, 't> Accumulator<'a, 't> {
             default_booking,
             tolerance,
             warnings: Vec::default(),
+            superseded_pads: Vec::default(),
         }
     }
 
@@ -55,9 +57,14 @@ impl<'a, 't> Accumulator<'a, 't> {
         mut errors: Vec<IndexedReport>,
     ) -> Result<BookingSuccess<'a>, BookingFailure> {
         let Self {
-            accounts, warnings, ..
+            accounts,
+            warnings,
+            superseded_pads,
+            ..
         } = self;
 
+        errors.extend(superseded_pads);
+
         // check for unused pad directives
         for account in accounts.values() {
             if let Some((_, pad)) = &account.pad {
@@ -668,18 +675,19 @@ impl<'a, 't> Accumulator<'a, 't> {
     > {
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
-        let unused_pad = account.pad.take();
+        // the new pad is the one to serve the next balance
+        let unused_pad = account.pad.replace((idx, element));
 
         // unused pad directives are errors
         // https://beancount.github.io/docs/beancount_language_syntax.html#unused-pad-directives
         if let Some((_, unused_pad)) = unused_pad {
-            return Err(unused_pad
-                .report("unused, second pad encountered")
-                .related_to(element));
+            self.superseded_pads.push(
+                unused_pad
+                    .report("unused, second pad encountered")
+                    .related_to(element),
+            );
         }
 
-        account.pad = Some((idx, element));
-
         Ok((
             booked::DirectiveVariant::Pad(pad.clone()),
             Some(booked::DirectiveVariant::Transaction(booked::Transaction {
-- 
2.43.0


From d0672b5df8a845aeb640a875f0f8e2700066c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 05/13] fix: answer parser requests for an invalid beanfile
 with the request id

---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From fbd96a8c1cb7bc5659c8494015a4edf461fb06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 06/13] fix: echo request ids which are escaped strings or
 exceed 32 bits

The former were answered as unreadable requests, the latter with the id as
floating point.
---
 rust/src/api/json_rpc.rs | 6 +++---
 rust/src/api/server.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..76732c2 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,11 +145,11 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i32),
+    String(Cow<'a, str>),
+    Int(i64),
     Float(f64),
 }
 
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..e48644c 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -416,7 +416,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From 6b46a12af6c24ecd4f70f2640b1a2b6a6c1d2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 07/13] fix: answer a request line which is not valid UTF-8

The server exited with status 1 instead, leaving the request unanswered.
---
 rust/src/api/server.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index e48644c..aa8064b 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -83,7 +83,7 @@ impl<'a> Server<'a> {
         R: Read,
         W: Write,
     {
-        let mut buf = String::new();
+        let mut buf = Vec::new();
         let mut reader = BufReader::new(r);
 
         tracing::debug!("starting");
@@ -91,12 +91,23 @@ impl<'a> Server<'a> {
         loop {
             buf.clear();
 
-            match reader.read_line(&mut buf) {
+            match reader.read_until(b'\n', &mut buf) {
                 Ok(n) => {
                     if n > 0 {
-                        let json = buf.trim();
-                        tracing::debug!("<- {}", json);
-                        self.dispatch(json, w);
+                        match std::str::from_utf8(&buf) {
+                            Ok(line) => {
+                                let json = line.trim();
+                                tracing::debug!("<- {}", json);
+                                self.dispatch(json, w);
+                            }
+                            Err(e) => write_other_error(
+                                None,
+                                ERROR_PARSE,
+                                Cow::Owned(e.to_string()),
+                                w,
+                            )
+                            .unwrap(),
+                        }
                     } else {
                         // that's all folks
                         tracing::debug!("<- EOF");
-- 
2.43.0


From 9d84df153daf403d090ca7d31d6440a3d8dc6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 08/13] fix: closing a closed account refers to where it was
 closed

---
 rust/src/api/booking/accumulator.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 5087f80..af1c579 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -639,20 +639,16 @@ impl<'a, 't> Accumulator<'a, 't> {
         use hashbrown::hash_map::Entry::*;
         match self.open_accounts.entry(close.acc) {
             Occupied(open_entry) => {
-                match self.closed_accounts.entry(close.acc) {
-                    Occupied(closed_entry) => {
-                        // cannot reclose a closed account
-                        return Err(element
-                            .report("account was already closed")
-                            .related_to(*closed_entry.get()));
-                    }
-                    Vacant(closed_entry) => {
-                        open_entry.remove_entry();
-                        closed_entry.insert(element);
-                    }
-                }
+                open_entry.remove_entry();
+                self.closed_accounts.insert(close.acc, element);
             }
             Vacant(_) => {
+                // cannot reclose a closed account
+                if let Some(closed) = self.closed_accounts.get(close.acc) {
+                    return Err(element
+                        .report("account was already closed")
+                        .related_to(*closed));
+                }
                 return Err(element.report("account not open"));
             }
         }
-- 
2.43.0


From 2d223fc10b3ffdd226301ad4d440bb4a3885d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 09/13] fix: name the currencies of an ambiguous missing amount
 in a fixed order

---
 rust/src/api/booking/accumulator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index af1c579..be045ea 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -307,8 +307,15 @@ impl<'a, 't> Accumulator<'a, 't> {
             }
             Err(e) => {
                 use limabean_booking::BookingError::*;
+                use limabean_booking::TransactionBookingError::AutoPostMultipleBuckets;
 
                 match &e {
+                    Transaction(AutoPostMultipleBuckets(currencies)) => {
+                        // currencies are in no particular order
+                        let mut currencies = currencies.clone();
+                        currencies.sort();
+                        Err(element.report(AutoPostMultipleBuckets(currencies).to_string()))
+                    }
                     Transaction(e) => Err(element.report(e.to_string())),
                     Posting(idx, e) => {
                         // TODO attach posting error to actual posting
-- 
2.43.0


From 513f0d2cec302a71b5ade96eedce287a2785dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 10/13] fix: quote the local root given to Clojure

---
 rust/src/bin/limabean/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 1b5eea9..f16a82b 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -41,7 +41,7 @@ impl Runtime {
         if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
             Runtime::clojure(format!(
                 r###"{{:local/root "{}"}}{}"###,
-                &local_root,
+                local_root.replace('\\', r"\\").replace('"', r#"\""#),
                 extra_deps.unwrap_or("".to_string())
             ))
         } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-- 
2.43.0


From fc18856c0d5ffc871683bfa132c6c4ce20662c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:48 +0000
Subject: [PATCH 11/13] fix: pass on arguments which are not UTF-8

---
 rust/src/bin/limabean/main.rs |  4 ++--
 rust/src/bin/limabean/run.rs  | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/rust/src/bin/limabean/main.rs b/rust/src/bin/limabean/main.rs
index 121fbd8..0643744 100644
--- a/rust/src/bin/limabean/main.rs
+++ b/rust/src/bin/limabean/main.rs
@@ -7,9 +7,9 @@ fn main() {
     tracing::subscriber::set_global_default(subscriber).unwrap();
 
     let runtime = Runtime::from_env();
-    let args = std::env::args().collect::<Vec<_>>();
+    let args = std::env::args_os().collect::<Vec<_>>();
 
-    if let Some("health") = args.get(1).map(String::as_str) {
+    if let Some("health") = args.get(1).and_then(|arg| arg.to_str()) {
         health::check(&runtime, true);
     } else {
         run::run(&runtime, &args[1..]);
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index f16a82b..11c5e18 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -1,4 +1,7 @@
-use std::{ffi::OsStr, process::Command};
+use std::{
+    ffi::{OsStr, OsString},
+    process::Command,
+};
 
 pub(crate) enum Runtime {
     Java(String),
@@ -65,7 +68,7 @@ impl Runtime {
 
     fn command<S>(&self, args: &[S]) -> Command
     where
-        S: AsRef<str>,
+        S: AsRef<OsStr>,
     {
         use Runtime::*;
 
@@ -88,11 +91,7 @@ impl Runtime {
             }
         };
 
-        cmd.args(
-            args.iter()
-                .map(|s| OsStr::new(s.as_ref()))
-                .collect::<Vec<_>>(),
-        );
+        cmd.args(args);
 
         cmd
     }
@@ -112,7 +111,7 @@ fn run_or_fail(mut cmd: Command) {
     std::process::exit(1);
 }
 
-pub(crate) fn run(runtime: &Runtime, args: &[String]) {
+pub(crate) fn run(runtime: &Runtime, args: &[OsString]) {
     let verbose = args.iter().any(|arg| arg == "-v" || arg == "--verbose");
     let version = args.iter().any(|arg| arg == "--version");
 
-- 
2.43.0


From 2c6f054ab58bfe0e00f64b3f2ab2e1ec7a3b78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 12/13] fix: a failed balance accumulates its own currency only

---
 rust/src/api/booking/accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index be045ea..f82baaf 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -531,7 +531,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
-- 
2.43.0


From 3271863ac7330ad45e2cb283d94fe6a6f4683911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 13/13] fix: health reports a clojure which fails as failing,
 as it does for java

---
 rust/src/bin/limabean/health.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index a8fc172..e994606 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -36,12 +36,20 @@ fn check_clojure(verbose: bool) {
 }
 
 fn clojure_health() -> Health {
-    match Command::new("clojure")
-        .arg("--version")
-        .output()
-        .map(|op| String::from_utf8_lossy(op.stdout.as_slice()).replace("\n", "; "))
-    {
-        Ok(description) => Health::Good(format!("clojure: {}", description)),
+    match Command::new("clojure").arg("--version").output() {
+        Ok(output) => {
+            if output.status.success() {
+                Health::Good(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stdout.as_slice()).replace("\n", "; ")
+                ))
+            } else {
+                Health::Bad(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stderr.as_slice()).replace("\n", "; ")
+                ))
+            }
+        }
         Err(e) => Health::Bad(format!("can't find clojure: {}", &e)),
     }
 }
-- 
2.43.0

