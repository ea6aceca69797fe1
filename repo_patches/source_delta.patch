From ee27c583568b6526e29261d5894c443b96d66034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:31 +0000
Subject: [PATCH 01/25] fix: ref_count/replay connect without holding their
 lock, reconnect after the last subscriber left, and do not own themselves

---
 src/operators/ref_count.rs     | 52 +++++++++++++++++++-------------
 src/operators/replay.rs        | 54 +++++++++++++++++++++-------------
 src/subjects/replay_subject.rs | 19 ++++++++++++
 src/subjects/subject.rs        | 10 +++++++
 4 files changed, 95 insertions(+), 40 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..aa3645d 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,8 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  // number of subscribers, and what is connected to the source for them
+  connection: Arc<RwLock<(i32, Option<Observer<'a, Item>>)>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,7 +21,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new((0, None))),
     };
     _self.set_ref_count();
     _self
@@ -31,34 +32,42 @@ where
   }
 
   fn set_ref_count(&self) {
+    // the hooks must not own what owns them
+    let subject = self.subject.without_hooks();
     {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+      let connection = Arc::clone(&self.connection);
+      self.subject.set_on_unsubscribe(move |_| {
+        let connected = {
+          let mut connection = connection.write().unwrap();
+          connection.0 -= 1;
+          if connection.0 == 0 {
+            connection.1.take()
+          } else {
+            None
           }
+        };
+        if let Some(connected) = connected {
+          connected.unsubscribe();
         }
       });
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let connection = Arc::clone(&self.connection);
+
+    self.subject.set_on_subscribe(move |_| {
+      let observer = {
+        let mut connection = connection.write().unwrap();
+        connection.0 += 1;
+        if connection.0 != 1 || connection.1.is_some() {
+          return;
+        }
 
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
         // connect
         let sbj_next = subject.clone();
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -68,8 +77,11 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
-      }
+        );
+        connection.1 = Some(observer.clone());
+        observer
+      };
+      source.inner_subscribe(observer);
     });
   }
 }
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..bbf07c5 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,8 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  // number of subscribers, and what is connected to the source for them
+  connection: Arc<RwLock<(i32, Option<Observer<'a, Item>>)>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,7 +20,7 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new((0, None))),
     };
     _self.set_ref_count();
     _self
@@ -30,34 +31,44 @@ where
   }
 
   fn set_ref_count(&self) {
+    // the hooks must not own what owns them
+    let subject = self.subject.without_hooks();
     {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+      let subject = subject.clone();
+      let connection = Arc::clone(&self.connection);
+      self.subject.set_on_unsubscribe(move |_| {
+        let connected = {
+          let mut connection = connection.write().unwrap();
+          connection.0 -= 1;
+          if connection.0 == 0 {
+            connection.1.take()
+          } else {
+            None
           }
+        };
+        if let Some(connected) = connected {
+          connected.unsubscribe();
+          subject.disconnected();
         }
       });
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let connection = Arc::clone(&self.connection);
+
+    self.subject.set_on_subscribe(move |_| {
+      let observer = {
+        let mut connection = connection.write().unwrap();
+        connection.0 += 1;
+        if connection.0 != 1 || connection.1.is_some() {
+          return;
+        }
 
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
         // connect
         let sbj_next = subject.clone();
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -67,8 +78,11 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
-      }
+        );
+        connection.1 = Some(observer.clone());
+        observer
+      };
+      source.inner_subscribe(observer);
     });
   }
 }
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..26541f8 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -93,6 +93,25 @@ where
     })
   }
 
+  // the same subject to emit into, which owns neither of the hooks
+  pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
+    ReplaySubject {
+      subject: Arc::new(self.subject.without_hooks()),
+      items: Arc::clone(&self.items),
+      was_error: Arc::clone(&self.was_error),
+      was_completed: Arc::clone(&self.was_completed),
+    }
+  }
+
+  // the source will be subscribed from its beginning for the next subscriber
+  pub(crate) fn disconnected(&self) {
+    if self.was_error.read().unwrap().is_none()
+      && !*self.was_completed.read().unwrap()
+    {
+      self.items.write().unwrap().clear();
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..ce00fa4 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -89,6 +89,16 @@ where
     })
   }
 
+  // the same subject to emit into, which owns neither of the hooks
+  pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
+    Subject {
+      observers: Arc::clone(&self.observers),
+      serial: Arc::clone(&self.serial),
+      on_subscribe: Arc::new(RwLock::new(None)),
+      on_unsubscribe: Arc::new(RwLock::new(None)),
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 98de70aeddb816d815d6f0df661c600ef48dde59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 02/25] fix: an observer accepts one terminal only, then
 releases its callbacks and runs its teardown

---
 src/internals/function_wrapper.rs |  3 ++-
 src/observer.rs                   | 44 +++++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..6402539 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -36,7 +36,8 @@ where
     }
   }
   pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+    // the function is dropped outside of the lock
+    let _f = self.inner.write().unwrap().take();
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..8d59b8b 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -1,6 +1,9 @@
 use crate::internals::function_wrapper::*;
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::sync::{
+  atomic::{AtomicBool, Ordering},
+  Arc, RwLock,
+};
 
 #[derive(Clone)]
 pub struct Observer<'a, T>
@@ -11,6 +14,8 @@ where
   fn_error: FunctionWrapper<'a, RxError, ()>,
   fn_complete: FunctionWrapper<'a, (), ()>,
   fn_on_unsubscribe: Arc<RwLock<Option<FunctionWrapper<'a, (), ()>>>>,
+  // set by the first terminal or by unsubscribe
+  closed: Arc<AtomicBool>,
 }
 
 impl<'a, T> Observer<'a, T>
@@ -32,35 +37,58 @@ where
       fn_error: FunctionWrapper::new(error),
       fn_complete: FunctionWrapper::new(move |_| complete()),
       fn_on_unsubscribe: Arc::new(RwLock::new(None)),
+      closed: Arc::new(AtomicBool::new(false)),
     }
   }
   pub fn next(&self, x: T) {
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    if !self.closed.swap(true, Ordering::SeqCst) {
+      self.fn_next.clear();
+      self.fn_complete.clear();
+      self.fn_error.call_and_clear_if_available(x);
+      self.unsubscribe();
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if !self.closed.swap(true, Ordering::SeqCst) {
+      self.fn_next.clear();
+      self.fn_error.clear();
+      self.fn_complete.call_and_clear_if_available(());
+      self.unsubscribe();
+    }
   }
   pub fn unsubscribe(&self) {
+    self.closed.store(true, Ordering::SeqCst);
     self.fn_next.clear();
     self.fn_error.clear();
     self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
       f.call(());
     }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
   }
   pub fn is_subscribed(&self) -> bool {
-    self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
+    !self.closed.load(Ordering::SeqCst)
+      && self.fn_next.exists()
+      && self.fn_error.exists()
+      && self.fn_complete.exists()
   }
   pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
   where
     F: Fn() -> () + Send + Sync + 'a,
   {
-    *self.fn_on_unsubscribe.write().unwrap() =
-      Some(FunctionWrapper::new(move |_| f()));
+    let f = FunctionWrapper::new(move |_| f());
+    {
+      let mut on_unsubscribe = self.fn_on_unsubscribe.write().unwrap();
+      if !self.closed.load(Ordering::SeqCst) {
+        *on_unsubscribe = Some(f);
+        return;
+      }
+    }
+    // already unsubscribed
+    f.call(());
   }
 }
 
-- 
2.43.0


From 8204c64313d0328f5b0f3c087e3d873727bdb9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 03/25] fix: Subject takes its observers for a terminal
 atomically and keeps none that ended while subscribing

---
 src/subjects/subject.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index ce00fa4..3332d68 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -41,14 +41,12 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(move |x| x.error(err.clone()));
+    let obs = std::mem::take(&mut *self.observers.write().unwrap());
+    obs.into_values().for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(|x| x.complete());
+    let obs = std::mem::take(&mut *self.observers.write().unwrap());
+    obs.into_values().for_each(|x| x.complete());
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
@@ -64,6 +62,11 @@ where
         *serial += 1;
         *serial
       };
+      let len = {
+        let mut observers = observers.write().unwrap();
+        observers.insert(serial, s.clone());
+        observers.len()
+      };
       {
         let observers = Arc::clone(&observers);
         let on_unsubscribe = Arc::clone(&on_unsubscribe);
@@ -78,11 +81,6 @@ where
           }
         });
       }
-      let len = {
-        let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
-        observers.len()
-      };
       if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
         on_subscribe.call(len);
       }
-- 
2.43.0


From 6a48146e35bc4488502589f48502ba73f3217cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 04/25] fix: StreamController unsubscribes every upstream it
 drops, calls out without holding its locks, and adds none once finalized

---
 src/internals/stream_controller.rs | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..fb8ac9e 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,9 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +76,13 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
+    self.unscribers.write().unwrap().insert(
       serial.clone(),
       FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
     );
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
     observer
   }
 
@@ -100,11 +105,14 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        let o = observers.remove(serial);
+        (o, observers.len() == 0)
       };
+      if let Some(o) = o {
+        o.call(());
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
@@ -122,25 +130,24 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
-      x.1.call(());
-    });
-    self.unscribers.write().unwrap().clear();
+    // first, so that no observer is added afterwards
     if self.subscriber.is_subscribed() {
       self.subscriber.unsubscribe();
     }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let observers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    observers.iter().for_each(|x| {
+      x.1.call(());
+    });
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
-- 
2.43.0


From d2f662247e81260827bc7b4de9d20a1b2a29d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 05/25] fix: a source is not subscribed on behalf of an
 observer that has already ended

---
 src/observable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 62f0014..f53e9bd 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -26,7 +26,9 @@ where
   ) -> Subscription<'a> {
     let unsub_observer = observer.clone();
     let issub_observer = observer.clone();
-    self.source.call(observer.clone());
+    if observer.is_subscribed() {
+      self.source.call(observer.clone());
+    }
     Subscription::new(
       move || {
         unsub_observer.unsubscribe();
-- 
2.43.0


From cfff3c6f9cc9b6bd9c9141240899520e921cd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 06/25] fix: skip_while skips while its predicate holds

---
 src/operators/skip_while.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,9 +38,9 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
-              sctl_next.sink_next(x);
+            if !f.call(x.clone()) {
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From 8a412b0fe05a0d5c359090a5825001a9ce551060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 07/25] fix: take(0) completes without waiting for an item

---
 src/operators/take.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/take.rs b/src/operators/take.rs
index 099e236..1c1fef6 100644
--- a/src/operators/take.rs
+++ b/src/operators/take.rs
@@ -28,6 +28,10 @@ where
       let n = Arc::new(RwLock::new(0));
 
       let sctl = StreamController::new(s);
+      if count == 0 {
+        sctl.sink_complete_force();
+        return;
+      }
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
-- 
2.43.0


From e3a3b52803acd1c3f4513ae6022961aa72a108c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 08/25] fix: window_with_count closes windows of one item and
 emits without holding its locks

---
 src/operators/window_with_count.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..8881ee0 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,19 +44,24 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
+          let (sbj, opens, closes) = {
+            let mut n = n.write().unwrap();
+            let sbj = sbj_next.read().unwrap().clone();
+            let opens = *n == 0;
             *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
+            let closes = *n == count;
+            if closes {
               *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
               *n = 0;
             }
+            (sbj, opens, closes)
+          };
+          if opens {
+            sctl_next.sink_next(sbj.observable());
+          }
+          sbj.next(x);
+          if closes {
+            sbj.complete();
           }
         },
         move |_, e| {
-- 
2.43.0


From f3c97276b9b7210594f4db54db93e10313f0a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 09/25] fix: scan emits without holding its lock

---
 src/operators/scan.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..f812e13 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,17 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
+            let x = if let Some(xx) = &*r {
+              f.call((xx.clone(), x))
             } else {
-              *r = Some(x);
-            }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
-          }
+              x
+            };
+            *r = Some(x.clone());
+            x
+          };
+          sctl_next.sink_next(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
-- 
2.43.0


From c8fecc238ac5fca9d12090cc317cc70c9c306c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 10/25] fix: group_by emits a new group without holding its
 lock

---
 src/operators/group_by.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..448ef3b 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,17 +50,19 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, opens) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if opens {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-- 
2.43.0


From 4ce019331cf40f1b5d4f1b92fc75bc1092444d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 11/25] fix: time_interval emits without holding its lock

---
 src/operators/time_interval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..afdfe67 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,10 +37,11 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          let start_time =
+            start_time_next.write().unwrap().replace(Instant::now());
+          if let Some(start_time) = start_time {
             sctl_next.sink_next(start_time.elapsed());
           }
-          *start_time_next.write().unwrap() = Some(Instant::now());
         },
         move |_, e| {
           sctl_error.sink_error(e);
-- 
2.43.0


From 357aa93fe67429d386cadeda1102725f7488e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 12/25] fix: contains forwards the source's error

---
 src/operators/contains.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/operators/contains.rs b/src/operators/contains.rs
index 43ecdb9..de51419 100644
--- a/src/operators/contains.rs
+++ b/src/operators/contains.rs
@@ -32,9 +32,8 @@ where
             sctl_next.sink_complete(&serial);
           }
         },
-        move |serial, _| {
-          sctl_error.sink_next(false);
-          sctl_error.sink_complete(&serial);
+        move |_, e| {
+          sctl_error.sink_error(e);
         },
         move |serial| {
           sctl_complete.sink_next(false);
-- 
2.43.0


From 8d31323040e33ebbe80e8307c2fc1c71b706ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 13/25] fix: default_if_empty keeps its state per subscription

---
 src/operators/default_if_empty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..127dfd6 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,9 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
-- 
2.43.0


From 59580d3ee129e0ede3281c89a78cad886c29152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 14/25] fix: concat keeps its queue per subscription

---
 src/operators/concat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..4cf14ab 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,11 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let observables = self.observables.clone();
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        observables.clone().into_iter(),
+      )));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
-- 
2.43.0


From 2a1cf4c87d791d9a7d10c3631c3ad5641f450220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 15/25] fix: tap acts for every subscription

---
 src/operators/tap.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..b19211c 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  next_f: FunctionWrapper<'a, Item, ()>,
+  error_f: FunctionWrapper<'a, RxError, ()>,
+  complete_f: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      next_f: FunctionWrapper::new(next),
+      error_f: FunctionWrapper::new(error),
+      complete_f: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let next_f = self.next_f.clone();
+    let error_f = self.error_f.clone();
+    let complete_f = self.complete_f.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let next_f = next_f.clone();
+      let error_f = error_f.clone();
+      let complete_f = complete_f.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          next_f.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          error_f.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          complete_f.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 3addca3b389a90c8973841487f57def431eb6f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 16/25] fix: element_at emits nothing when the source has fewer
 items

---
 src/operators/element_at.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..9a94697 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip_op: operators::Skip<Item>,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip_op: operators::Skip::<Item>::new(count.saturating_sub(1)),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip_op = self.skip_op.clone();
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -29,9 +32,8 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      take_op
-        .execute(source)
-        .last()
+      skip_op
+        .execute(take_op.execute(source))
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From 867251c804c994e340172503c3d499e17bf8de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 17/25] fix: BehaviorSubject and ReplaySubject hand over
 history and later events in one order, replay() connects for its present
 subscribers

---
 src/internals.rs                 |   1 +
 src/internals/broadcast.rs       | 200 +++++++++++++++++++++++++++++++
 src/operators/replay.rs          |  88 +++++++-------
 src/subjects/behavior_subject.rs |  61 ++--------
 src/subjects/replay_subject.rs   | 111 +++++------------
 5 files changed, 278 insertions(+), 183 deletions(-)
 create mode 100644 src/internals/broadcast.rs

diff --git a/src/internals.rs b/src/internals.rs
index a362391..dd48293 100644
--- a/src/internals.rs
+++ b/src/internals.rs
@@ -1,2 +1,3 @@
+pub mod broadcast;
 pub mod function_wrapper;
 pub mod stream_controller;
diff --git a/src/internals/broadcast.rs b/src/internals/broadcast.rs
new file mode 100644
index 0000000..3d1b354
--- /dev/null
+++ b/src/internals/broadcast.rs
@@ -0,0 +1,200 @@
+use crate::prelude::*;
+use std::{
+  collections::{HashMap, VecDeque},
+  sync::{Arc, RwLock},
+};
+
+// which past items a new subscriber is handed
+#[derive(Clone, PartialEq)]
+pub enum Keep {
+  Latest,
+  All,
+  // all since the first of the present subscribers came
+  WhileObserved,
+}
+
+// hands every subscriber the history and then every later event, in one order
+// and one at a time, no matter which threads the events come from
+#[derive(Clone)]
+pub struct Broadcast<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  state: Arc<RwLock<State<'a, Item>>>,
+}
+
+struct State<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  keep: Keep,
+  history: Vec<Item>,
+  terminal: Option<Material<Item>>,
+  outlets: HashMap<usize, Outlet<'a, Item>>,
+  serial: usize,
+  // how often the history has been dropped with the last subscriber
+  generation: usize,
+}
+
+#[derive(Clone)]
+struct Outlet<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  observer: Observer<'a, Item>,
+  // what is left to deliver, and whether somebody is delivering
+  queue: Arc<RwLock<(VecDeque<Material<Item>>, bool)>>,
+}
+
+impl<'a, Item> Outlet<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  fn deliver(&self) {
+    {
+      let mut queue = self.queue.write().unwrap();
+      if queue.1 {
+        return;
+      }
+      queue.1 = true;
+    }
+    loop {
+      let event = {
+        let mut queue = self.queue.write().unwrap();
+        let event = queue.0.pop_front();
+        queue.1 = event.is_some();
+        event
+      };
+      match event {
+        Some(Material::Next(x)) => self.observer.next(x),
+        Some(Material::Error(e)) => self.observer.error(e),
+        Some(Material::Complete) => self.observer.complete(),
+        None => return,
+      }
+    }
+  }
+}
+
+impl<'a, Item> Broadcast<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  pub fn new(keep: Keep, history: Vec<Item>) -> Broadcast<'a, Item> {
+    Broadcast {
+      state: Arc::new(RwLock::new(State {
+        keep,
+        history,
+        terminal: None,
+        outlets: HashMap::new(),
+        serial: 0,
+        generation: 0,
+      })),
+    }
+  }
+
+  pub fn set_keep(&self, keep: Keep) {
+    self.state.write().unwrap().keep = keep;
+  }
+
+  pub fn emit(&self, event: Material<Item>) {
+    self.emit_if(event, |_| true);
+  }
+
+  pub fn emit_within(&self, generation: usize, event: Material<Item>) {
+    self.emit_if(event, |x| x == generation);
+  }
+
+  fn emit_if<F>(&self, event: Material<Item>, cond: F)
+  where
+    F: Fn(usize) -> bool,
+  {
+    let outlets = {
+      let state = &mut *self.state.write().unwrap();
+      if state.terminal.is_some() || !cond(state.generation) {
+        return;
+      }
+      if state.keep == Keep::Latest {
+        state.history.clear();
+      }
+      let outlets = if let Material::Next(x) = &event {
+        state.history.push(x.clone());
+        state.outlets.clone()
+      } else {
+        state.terminal = Some(event.clone());
+        std::mem::take(&mut state.outlets)
+      };
+      outlets.values().for_each(|x| {
+        x.queue.write().unwrap().0.push_back(event.clone());
+      });
+      outlets
+    };
+    outlets.values().for_each(|x| x.deliver());
+  }
+
+  // on_subscribe, and later on_unsubscribe, is told the number of subscribers
+  pub fn subscribe<S, U>(
+    &self,
+    observer: Observer<'a, Item>,
+    on_subscribe: S,
+    on_unsubscribe: U,
+  ) where
+    S: Fn(usize),
+    U: Fn(usize) + Send + Sync + 'a,
+  {
+    let (serial, outlet, len) = {
+      let state = &mut *self.state.write().unwrap();
+      let history = state.history.iter().cloned().map(Material::Next);
+      let terminal = state.terminal.iter().cloned();
+      let outlet = Outlet {
+        observer: observer.clone(),
+        queue: Arc::new(RwLock::new((
+          history.chain(terminal).collect(),
+          false,
+        ))),
+      };
+      let serial = state.serial;
+      state.serial += 1;
+      if state.terminal.is_none() {
+        state.outlets.insert(serial, outlet.clone());
+      }
+      (serial, outlet, state.outlets.len())
+    };
+    {
+      let _self = self.clone();
+      observer.set_on_unsubscribe(move || {
+        on_unsubscribe(_self.remove(serial));
+      });
+    }
+    on_subscribe(len);
+    outlet.deliver();
+  }
+
+  fn remove(&self, serial: usize) -> usize {
+    // what is removed is dropped outside of the lock
+    let (_outlet, _history, len) = {
+      let state = &mut *self.state.write().unwrap();
+      let outlet = state.outlets.remove(&serial);
+      let mut history = Vec::new();
+      if state.keep == Keep::WhileObserved
+        && state.terminal.is_none()
+        && state.outlets.is_empty()
+        && outlet.is_some()
+      {
+        std::mem::swap(&mut state.history, &mut history);
+        state.generation += 1;
+      }
+      (outlet, history, state.outlets.len())
+    };
+    len
+  }
+
+  // none when there is no subscriber
+  pub fn generation(&self) -> Option<usize> {
+    let state = self.state.read().unwrap();
+    if state.outlets.is_empty() {
+      None
+    } else {
+      Some(state.generation)
+    }
+  }
+}
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index bbf07c5..69cb89e 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -1,3 +1,4 @@
+use crate::internals::broadcast::{Broadcast, Keep};
 use crate::prelude::*;
 use std::sync::{Arc, RwLock};
 
@@ -8,8 +9,8 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  // number of subscribers, and what is connected to the source for them
-  connection: Arc<RwLock<(i32, Option<Observer<'a, Item>>)>>,
+  // what is connected to the source, and for which generation of subscribers
+  connection: Arc<RwLock<Option<(usize, Observer<'a, Item>)>>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -20,8 +21,9 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      connection: Arc::new(RwLock::new((0, None))),
+      connection: Arc::new(RwLock::new(None)),
     };
+    _self.subject.broadcast.set_keep(Keep::WhileObserved);
     _self.set_ref_count();
     _self
   }
@@ -32,58 +34,50 @@ where
 
   fn set_ref_count(&self) {
     // the hooks must not own what owns them
-    let subject = self.subject.without_hooks();
-    {
-      let subject = subject.clone();
+    for is_subscribe in [true, false] {
+      let source = self.source.clone();
+      let broadcast = self.subject.broadcast.clone();
       let connection = Arc::clone(&self.connection);
-      self.subject.set_on_unsubscribe(move |_| {
-        let connected = {
-          let mut connection = connection.write().unwrap();
-          connection.0 -= 1;
-          if connection.0 == 0 {
-            connection.1.take()
-          } else {
-            None
-          }
-        };
-        if let Some(connected) = connected {
-          connected.unsubscribe();
-          subject.disconnected();
-        }
-      });
+      let f = move |_| Self::connect(&source, &broadcast, &connection);
+      if is_subscribe {
+        self.subject.set_on_subscribe(f);
+      } else {
+        self.subject.set_on_unsubscribe(f);
+      }
     }
+  }
 
-    let source = self.source.clone();
-    let connection = Arc::clone(&self.connection);
-
-    self.subject.set_on_subscribe(move |_| {
-      let observer = {
-        let mut connection = connection.write().unwrap();
-        connection.0 += 1;
-        if connection.0 != 1 || connection.1.is_some() {
+  // connected while there is a subscriber, not otherwise
+  fn connect(
+    source: &Observable<'a, Item>,
+    broadcast: &Broadcast<'a, Item>,
+    connection: &Arc<RwLock<Option<(usize, Observer<'a, Item>)>>>,
+  ) {
+    let observer = {
+      let mut connection = connection.write().unwrap();
+      let generation = broadcast.generation();
+      if let Some((connected, observer)) = &*connection {
+        if generation == Some(*connected) && observer.is_subscribed() {
           return;
         }
-
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
+        observer.unsubscribe();
+      }
+      *connection = generation.map(|generation| {
+        let next = broadcast.clone();
+        let error = broadcast.clone();
+        let complete = broadcast.clone();
         let observer = Observer::new(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
+          move |x| next.emit_within(generation, Material::Next(x)),
+          move |e| error.emit_within(generation, Material::Error(e)),
+          move || complete.emit_within(generation, Material::Complete),
         );
-        connection.1 = Some(observer.clone());
-        observer
-      };
+        (generation, observer)
+      });
+      connection.as_ref().map(|x| x.1.clone())
+    };
+    if let Some(observer) = observer {
       source.inner_subscribe(observer);
-    });
+    }
   }
 }
 
diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..d633348 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,14 +1,12 @@
+use crate::internals::broadcast::{Broadcast, Keep};
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct BehaviorSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
-  last_error: Arc<RwLock<Option<RxError>>>,
+  broadcast: Broadcast<'a, Item>,
 }
 
 impl<'a, Item> BehaviorSubject<'a, Item>
@@ -17,66 +15,23 @@ where
 {
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
-      subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
-      last_error: Arc::new(RwLock::new(None)),
+      broadcast: Broadcast::new(Keep::Latest, vec![initial]),
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    self.broadcast.emit(Material::Next(item));
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    self.broadcast.emit(Material::Error(err));
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
-    self.subject.complete();
+    self.broadcast.emit(Material::Complete);
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let last_item = Arc::clone(&self.last_item);
-    let last_error = Arc::clone(&self.last_error);
-    let subject = Arc::clone(&self.subject);
-
+    let broadcast = self.broadcast.clone();
     Observable::create(move |s| {
-      {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
-
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
-        }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
-        }
-      }
-
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
+      broadcast.subscribe(s, |_| {}, |_| {});
     })
   }
 }
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 26541f8..7b94a4f 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -1,3 +1,5 @@
+use crate::internals::broadcast::{Broadcast, Keep};
+use crate::internals::function_wrapper::FunctionWrapper;
 use crate::prelude::*;
 use std::sync::{Arc, RwLock};
 
@@ -6,10 +8,9 @@ pub struct ReplaySubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  items: Arc<RwLock<Vec<Item>>>,
-  was_error: Arc<RwLock<Option<RxError>>>,
-  was_completed: Arc<RwLock<bool>>,
+  pub(crate) broadcast: Broadcast<'a, Item>,
+  on_subscribe: Arc<RwLock<Option<FunctionWrapper<'a, usize, ()>>>>,
+  on_unsubscribe: Arc<RwLock<Option<FunctionWrapper<'a, usize, ()>>>>,
 }
 
 impl<'a, Item> ReplaySubject<'a, Item>
@@ -18,112 +19,56 @@ where
 {
   pub fn new() -> ReplaySubject<'a, Item> {
     ReplaySubject {
-      subject: Arc::new(subjects::Subject::new()),
-      items: Arc::new(RwLock::new(Vec::new())),
-      was_error: Arc::new(RwLock::new(None)),
-      was_completed: Arc::new(RwLock::new(false)),
+      broadcast: Broadcast::new(Keep::All, Vec::new()),
+      on_subscribe: Arc::new(RwLock::new(None)),
+      on_unsubscribe: Arc::new(RwLock::new(None)),
     }
   }
 
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
-    self.subject.next(item);
+    self.broadcast.emit(Material::Next(item));
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    self.broadcast.emit(Material::Error(err));
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
-    self.subject.complete();
+    self.broadcast.emit(Material::Complete);
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let items = Arc::clone(&self.items);
-    let was_error = Arc::clone(&self.was_error);
-    let was_completed = Arc::clone(&self.was_completed);
-    let subject = Arc::clone(&self.subject);
+    let broadcast = self.broadcast.clone();
+    let on_subscribe = Arc::clone(&self.on_subscribe);
+    let on_unsubscribe = Arc::clone(&self.on_unsubscribe);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
+      let on_unsubscribe = Arc::clone(&on_unsubscribe);
+      broadcast.subscribe(
+        s,
+        |len| {
+          if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+            on_subscribe.call(len);
           }
-        });
-      }
-
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
-              return;
-            }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
+        },
+        move |len| {
+          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
+            on_unsubscribe.call(len);
+          }
+        },
       );
     })
   }
 
-  // the same subject to emit into, which owns neither of the hooks
-  pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
-    ReplaySubject {
-      subject: Arc::new(self.subject.without_hooks()),
-      items: Arc::clone(&self.items),
-      was_error: Arc::clone(&self.was_error),
-      was_completed: Arc::clone(&self.was_completed),
-    }
-  }
-
-  // the source will be subscribed from its beginning for the next subscriber
-  pub(crate) fn disconnected(&self) {
-    if self.was_error.read().unwrap().is_none()
-      && !*self.was_completed.read().unwrap()
-    {
-      self.items.write().unwrap().clear();
-    }
-  }
-
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
   {
-    self.subject.set_on_subscribe(f);
+    *self.on_subscribe.write().unwrap() = Some(FunctionWrapper::new(f));
   }
 
   pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
   {
-    self.subject.set_on_unsubscribe(f);
+    *self.on_unsubscribe.write().unwrap() = Some(FunctionWrapper::new(f));
   }
 }
 
-- 
2.43.0


From 079fac8d099f18983ef5c8311cff4014f8840578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 18/25] fix: ref_count connects for its present subscribers

---
 src/operators/ref_count.rs | 71 +++++++++++++++++++-------------------
 src/subjects/subject.rs    |  4 +++
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index aa3645d..b2459e0 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,8 +9,8 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  // number of subscribers, and what is connected to the source for them
-  connection: Arc<RwLock<(i32, Option<Observer<'a, Item>>)>>,
+  // what is connected to the source
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -21,7 +21,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      connection: Arc::new(RwLock::new((0, None))),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -32,42 +32,40 @@ where
   }
 
   fn set_ref_count(&self) {
-    // the hooks must not own what owns them
-    let subject = self.subject.without_hooks();
-    {
+    for is_subscribe in [true, false] {
+      let source = self.source.clone();
+      // the hooks must not own what owns them
+      let subject = self.subject.without_hooks();
       let connection = Arc::clone(&self.connection);
-      self.subject.set_on_unsubscribe(move |_| {
-        let connected = {
-          let mut connection = connection.write().unwrap();
-          connection.0 -= 1;
-          if connection.0 == 0 {
-            connection.1.take()
-          } else {
-            None
-          }
-        };
-        if let Some(connected) = connected {
-          connected.unsubscribe();
-        }
-      });
+      let f = move |_| Self::connect(&source, &subject, &connection);
+      if is_subscribe {
+        self.subject.set_on_subscribe(f);
+      } else {
+        self.subject.set_on_unsubscribe(f);
+      }
     }
+  }
 
-    let source = self.source.clone();
-    let connection = Arc::clone(&self.connection);
-
-    self.subject.set_on_subscribe(move |_| {
-      let observer = {
-        let mut connection = connection.write().unwrap();
-        connection.0 += 1;
-        if connection.0 != 1 || connection.1.is_some() {
+  // connected while there is a subscriber, not otherwise
+  fn connect(
+    source: &Observable<'a, Item>,
+    subject: &Subject<'a, Item>,
+    connection: &Arc<RwLock<Option<Observer<'a, Item>>>>,
+  ) {
+    let observer = {
+      let mut connection = connection.write().unwrap();
+      let observed = subject.is_observed();
+      if let Some(observer) = &*connection {
+        if observed && observer.is_subscribed() {
           return;
         }
-
-        // connect
+        observer.unsubscribe();
+      }
+      *connection = if observed {
         let sbj_next = subject.clone();
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
-        let observer = Observer::new(
+        Some(Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -77,12 +75,15 @@ where
           move || {
             sbj_complete.complete();
           },
-        );
-        connection.1 = Some(observer.clone());
-        observer
+        ))
+      } else {
+        None
       };
+      connection.clone()
+    };
+    if let Some(observer) = observer {
       source.inner_subscribe(observer);
-    });
+    }
   }
 }
 
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 3332d68..4767bdd 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -97,6 +97,10 @@ where
     }
   }
 
+  pub(crate) fn is_observed(&self) -> bool {
+    !self.observers.read().unwrap().is_empty()
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From fab1cf79ca7abd8b17a474c5d0bef62a19b22510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 19/25] fix: amb completes with its winner

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From 324ca8f1fafb252a71b5f3018179f315ce76c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:07 +0000
Subject: [PATCH 20/25] fix: sequence_equal compares where the sources end

---
 src/operators/sequence_equal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..c5266da 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -6,7 +6,8 @@ pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  // every item, and None for the end
+  zip_op: operators::Zip<'a, Option<Item>>,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,13 +15,17 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    let observables = Vec::from_iter(observables.iter().map(Self::with_end));
+    SequenceEqual { zip_op: operators::Zip::new(&observables) }
+  }
+  fn with_end(source: &Observable<'a, Item>) -> Observable<'a, Option<Item>> {
+    source.map(Some).concat(&[observables::just(None)])
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
     let zip_op = self.zip_op.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
+      let source = Self::with_end(&source);
 
       let sctl = StreamController::new(s);
 
@@ -29,7 +34,7 @@ where
       let sctl_complete = sctl.clone();
 
       zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
+        move |serial, x: Vec<Option<Item>>| {
           let check = x.get(0).unwrap();
           if !x.iter().all(|i| i == check) {
             sctl_next.upstream_abort_observe(&serial);
-- 
2.43.0


From b34b89553457d7fd612aae24b9502911ea846c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 21/25] fix: switch_on_next registers both inputs before
 subscribing to either

---
 src/operators/switch_on_next.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/operators/switch_on_next.rs b/src/operators/switch_on_next.rs
index d999a14..baa8ea2 100644
--- a/src/operators/switch_on_next.rs
+++ b/src/operators/switch_on_next.rs
@@ -23,13 +23,13 @@ where
       let sctl = StreamController::new(s);
       let emitted = Arc::new(RwLock::new(false));
 
-      {
+      // prepare subscribers
+      let source_observer = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
-
-        source.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |serial, x| {
             if *emitted.read().unwrap() {
               sctl_next.upstream_abort_observe(&serial);
@@ -41,15 +41,14 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| sctl_complete.sink_complete(&serial),
-        ));
+        )
       };
-
-      {
+      let target_observer = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
-        target.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |_, x| {
             *emitted.write().unwrap() = true;
             sctl_next.sink_next(x);
@@ -58,8 +57,11 @@ where
             sctl_error.sink_error(e);
           },
           move |_| sctl_complete.sink_complete_force(),
-        ));
-      }
+        )
+      };
+
+      source.inner_subscribe(source_observer);
+      target.inner_subscribe(target_observer);
     })
   }
 }
-- 
2.43.0


From 985990f3a9f7f58903ef92c50c2924d19295dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 22/25] fix: combine_latest combines the latest items

---
 src/operators/combine_latest.rs | 64 ++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..b32cb8b 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,53 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
-
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
+      let latest =
+        Arc::new(RwLock::new(vec![None::<Item>; observables.len() + 1]));
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        let combine_f = combine_f.clone();
+        VecDeque::from_iter((0..(observables.len() + 1)).map(move |id| {
+          let latest = Arc::clone(&latest);
+          let combine_f = combine_f.clone();
+          let sctl_next = sctl.clone();
+          let sctl_error = sctl.clone();
+          let sctl_complete = sctl.clone();
+          sctl.new_observer(
+            move |_, x| {
+              let items: Option<Vec<Item>> = {
+                let mut latest = latest.write().unwrap();
+                latest[id] = Some(x);
+                latest.iter().cloned().collect()
+              };
+              if let Some(items) = items {
+                sctl_next.sink_next(combine_f.call(items));
+              }
+            },
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |serial| {
+              sctl_complete.sink_complete(&serial);
+            },
+          )
+        }))
+      };
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From 9f15be46972843c9f816318d39d47e6f974f7cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 23/25] fix: to_vec does not hold its lock while waking the
 task

---
 src/operators/to_vec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..5572d9a 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,17 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        // it may poll at once: not while the lock is held
+        let w = waker_error.read().unwrap().clone();
+        if let Some(w) = w {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        // it may poll at once: not while the lock is held
+        let w = waker_complete.read().unwrap().clone();
+        if let Some(w) = w {
           w.wake();
         }
       },
-- 
2.43.0


From f62f4325e3999bd1d9faa0e1d6363e6466ad1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 24/25] fix: timeout stops its timer when the subscription ends

The timer of the last item went on for up to two periods after the
subscription had ended, and an item that ended it downstream even started
another one.
---
 src/operators/timeout.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..fc46c82 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,22 +43,28 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      let stop_timer = move |timer: &RwLock<Option<Subscription<'a>>>| {
+        let timer = timer.write().unwrap().take();
+        if let Some(timer) = timer {
+          timer.unsubscribe();
+        }
+      };
+
+      {
+        let timer = Arc::clone(&timer);
+        sctl.set_on_finalize(move || stop_timer(&timer));
+      }
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
-          }
+          stop_timer(&timer);
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
             *timer.write().unwrap() = Some(
@@ -74,6 +80,10 @@ where
                   junk_complete!(),
                 ),
             );
+            // it may have ended meanwhile
+            if !sctl_next.is_subscribed() {
+              stop_timer(&timer);
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From 4067f360e5ed972731665a4fac4bf88236434db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 25/25] fix: ref_count and replay keep a terminal that is under
 way

---
 src/operators/ref_count.rs | 8 +++++---
 src/operators/replay.rs    | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index b2459e0..c869c47 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -56,10 +56,12 @@ where
       let mut connection = connection.write().unwrap();
       let observed = subject.is_observed();
       if let Some(observer) = &*connection {
-        if observed && observer.is_subscribed() {
-          return;
+        if observer.is_subscribed() {
+          if observed {
+            return;
+          }
+          observer.unsubscribe();
         }
-        observer.unsubscribe();
       }
       *connection = if observed {
         let sbj_next = subject.clone();
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index 69cb89e..9795c8e 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -57,7 +57,7 @@ where
       let mut connection = connection.write().unwrap();
       let generation = broadcast.generation();
       if let Some((connected, observer)) = &*connection {
-        if generation == Some(*connected) && observer.is_subscribed() {
+        if generation == Some(*connected) {
           return;
         }
         observer.unsubscribe();
-- 
2.43.0

