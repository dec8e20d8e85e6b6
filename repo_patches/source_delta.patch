From ce0595af81564df3b8290b355968efc89a36577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/50] fix: compute DOM insertion points from siblings that
 are already in place

A child that was inserted, moved or replaced used the first DOM node of the
next sibling in the new tree as its reference, even when that sibling was not
mounted yet, was about to be moved, or lay outside the enclosing fragment.
Nested lists were appended after unrelated siblings, replaced items landed in
the wrong place when their siblings moved, and mounting directly into a
container threw NotFoundError. Existing children are now brought into order
first, and the reference of every child is the first DOM node of the siblings
that follow it, including those that follow the fragment itself.
---
 src/base.ts    |   2 -
 src/commit.ts  | 102 +++++++++++++++++++++++++++++--------------------
 src/runtime.ts |   5 ---
 3 files changed, 61 insertions(+), 48 deletions(-)

diff --git a/src/base.ts b/src/base.ts
index 7803f46..d49d64e 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -77,7 +77,6 @@ export type Mutation =
   | {
       type: MutationType.INSERT;
       node: RenderNode;
-      afterNode: RenderNode | undefined;
     }
   | {
       type: MutationType.UPDATE;
@@ -89,7 +88,6 @@ export type Mutation =
       type: MutationType.UPDATE_AND_MOVE;
       oldNode: RenderNode;
       newNode: RenderNode;
-      afterNode: RenderNode | undefined;
       index: number;
     }
   | {
diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..ca00688 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,5 +1,6 @@
 import {
   Bind,
+  type Mutation,
   MutationType,
   type RenderNode,
   type RenderRoot,
@@ -15,7 +16,13 @@ export function unmount(node: RenderNode): void {
 }
 
 export function patch(oldNode: RenderNode, newNode: RenderNode) {
-  applyPatch(oldNode, newNode, newNode.index, newNode.parent);
+  applyPatch(
+    oldNode,
+    newNode,
+    newNode.index,
+    newNode.parent,
+    getSiblingDOMNode(newNode),
+  );
   afterCommit(newNode);
 }
 
@@ -36,6 +43,7 @@ function applyPatch(
   newNode: RenderNode,
   index: number,
   parent: RenderNode | RenderRoot | null,
+  afterNode: ChildNode | null,
 ): void {
   if (oldNode === newNode && isCommitted(oldNode)) {
     reparentChild(oldNode, index, parent);
@@ -43,7 +51,7 @@ function applyPatch(
   }
   if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
     unmountChild(oldNode);
-    mountChild(newNode, getSiblingDOMNode(newNode));
+    mountChild(newNode, afterNode);
   } else if (newNode.type === Bind) {
     newNode.part.commitUpdate(
       (oldNode as RenderNode.BindNode).props.value,
@@ -53,47 +61,59 @@ function applyPatch(
     const oldChildren = newNode.right;
     const newChildren = newNode.left;
     for (let i = 0, l = newChildren.length; i < l; i++) {
-      applyPatch(oldChildren[i]!, newChildren[i]!, i, newNode);
+      applyPatch(oldChildren[i]!, newChildren[i]!, i, newNode, null);
     }
   } else if (typeof newNode.type === 'function') {
-    applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
+    applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode, afterNode);
   } else {
-    for (const mutation of newNode.state.mutations.splice(0)) {
-      switch (mutation.type) {
-        case MutationType.INSERT:
-          mountChild(
-            mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.UPDATE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          break;
-        case MutationType.UPDATE_AND_MOVE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          moveChild(
-            mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.REMOVE:
-          unmountChild(mutation.node);
-          break;
+    applyMutations(newNode, afterNode);
+  }
+}
+
+function applyMutations(
+  node: RenderNode.FragmentNode,
+  afterNode: ChildNode | null,
+): void {
+  const mutations: Exclude<Mutation, { type: MutationType.REMOVE }>[] =
+    new Array(node.left.length);
+
+  for (const mutation of node.state.mutations.splice(0)) {
+    switch (mutation.type) {
+      case MutationType.INSERT:
+        mutations[mutation.node.index] = mutation;
+        break;
+      case MutationType.UPDATE:
+      case MutationType.UPDATE_AND_MOVE:
+        mutations[mutation.index] = mutation;
+        break;
+      case MutationType.REMOVE:
+        unmountChild(mutation.node);
+        break;
+    }
+  }
+
+  // Bring the remaining nodes into the new order, from the last to the first,
+  // before anything is inserted or replaced. Then the first DOM node of the
+  // siblings that follow is a valid reference for every child.
+  const afterNodes: (ChildNode | null)[] = new Array(mutations.length);
+
+  for (let i = mutations.length - 1; i >= 0; i--) {
+    const mutation = mutations[i]!;
+    afterNodes[i] = afterNode;
+    if (mutation.type !== MutationType.INSERT) {
+      if (mutation.type === MutationType.UPDATE_AND_MOVE) {
+        moveChild(mutation.oldNode, afterNode);
       }
+      afterNode = getChildDOMNode(mutation.oldNode) ?? afterNode;
+    }
+  }
+
+  for (let i = 0, l = mutations.length; i < l; i++) {
+    const mutation = mutations[i]!;
+    if (mutation.type === MutationType.INSERT) {
+      mountChild(mutation.node, afterNodes[i]!);
+    } else {
+      applyPatch(mutation.oldNode, mutation.newNode, i, node, afterNodes[i]!);
     }
   }
 }
@@ -108,14 +128,14 @@ function getChildDOMNode(node: RenderNode): ChildNode | null {
       return domNode;
     }
   }
-  return getSiblingDOMNode(node);
+  return null;
 }
 
 function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
+    const children = node.parent!.left;
     for (let i = node.index + 1, l = children.length; i < l; i++) {
       const child = children[i]!;
       if (child.part !== part) {
diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..33d3ff3 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -358,7 +358,6 @@ export class Runtime implements Renderer, Dispatcher {
           newMutations.push({
             type: MutationType.INSERT,
             node: newChild,
-            afterNode: newChildren[newTail + 1],
           });
           newChildren[newHead] = newChild;
           newHead++;
@@ -427,14 +426,12 @@ export class Runtime implements Renderer, Dispatcher {
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldTail]!,
           newNode: tailChild,
-          afterNode: oldChildren[oldHead],
           index: newHead,
         });
         newMutations.push({
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldHead]!,
           newNode: headChild,
-          afterNode: newChildren[newTail + 1],
           index: newTail,
         });
         newChildren[newHead] = tailChild;
@@ -481,7 +478,6 @@ export class Runtime implements Renderer, Dispatcher {
               type: MutationType.UPDATE_AND_MOVE,
               oldNode: oldChildren[oldIndex]!,
               newNode: newChild,
-              afterNode: newChildren[newTail + 1],
               index: newTail,
             });
             newChildren[newTail] = newChild;
@@ -497,7 +493,6 @@ export class Runtime implements Renderer, Dispatcher {
             newMutations.push({
               type: MutationType.INSERT,
               node: newChild,
-              afterNode: newChildren[newTail + 1],
             });
             newChildren[newTail] = newChild;
           }
-- 
2.43.0


From 736db9886301b9a17e97372ea3cc35dd7ffd2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 02/50] fix: compare keys the same way while rendering and
 while committing

Rendering matches keys with Object.is, but committing compared them with
!==. An item whose key is NaN was unmounted although its node had been reused
and vanished, and replacing an item with key 0 by one with key -0 crashed.
---
 src/commit.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index ca00688..347c0dc 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -5,6 +5,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -49,7 +50,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, afterNode);
   } else if (newNode.type === Bind) {
-- 
2.43.0


From d79497fae032c20f6746a2bc3b43024d97b38e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 03/50] fix: do not leave an aborted render's tree in a
 component node

UpdateComponent.prepare() stored the newly diffed child in node.left at
prepare time. When the batch was abandoned (another update of the batch
threw, or the commit failed), the next render compared against a tree that
had never been committed. Keep the child in the commit closure instead.
---
 src/component.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..7256aca 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -509,9 +509,16 @@ class UpdateComponent implements Transaction {
     }
     const subScope = node.state.scope.enter(node.type);
     const newElement = node.state.instance.render(node.props, subScope, lanes);
-    node.left = [renderer.diff(node.right[0]!, newElement, subScope, 0, node)];
+    const newChild = renderer.diff(
+      node.right[0]!,
+      newElement,
+      subScope,
+      0,
+      node,
+    );
     return () => {
       if (node.parent !== null) {
+        node.left = [newChild];
         patch(node.right[0]!, node.left[0]!);
         node.state.instance.connect(node);
         node.right = node.left;
-- 
2.43.0


From d79f2045ce40aa1373c83f4af3fc7c007a83c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 04/50] fix: do not let an unstaged update block staged updates
 behind it

_flush() stopped at the first update in the queue whose lanes were not
staged yet. Lower-priority updates behind it whose host callback had already
run were never flushed once _stagedLanes was reset: their handle never
settled and their state never appeared.
---
 src/runtime.ts | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 33d3ff3..92fc8b2 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -507,25 +507,34 @@ export class Runtime implements Renderer, Dispatcher {
 
   private async _flush(): Promise<void> {
     while (true) {
-      // Only updates of equal priority are batched. The queue is lane-ordered,
-      // so a UserHandlerLane update is followed only by equal/lower-priority
-      // updates; stopping there commits it as its own batch.
+      // The queue is lane-ordered, so a UserHandlerLane update is followed only
+      // by equal/lower-priority updates; stopping there commits it as its own
+      // batch.
+      const deferredUpdates: Update[] = [];
       do {
-        const update = this._updateQueue.peek();
+        const update = this._updateQueue.dequeue();
+        if (update === undefined) {
+          break;
+        }
         if (
-          update === undefined ||
-          ((update.lanes & this._stagedLanes) !== update.lanes &&
-            getHighestPriorityLane(this._flushLanes) <
-              getHighestPriorityLane(update.lanes))
+          (update.lanes & this._stagedLanes) === NoLanes &&
+          getHighestPriorityLane(this._flushLanes) <
+            getHighestPriorityLane(update.lanes)
         ) {
           // The update is not staged yet and lower-priority than the batch;
-          // defer it so it commits as its own batch.
-          break;
+          // defer it so it commits as its own batch. It must not hold back the
+          // staged updates behind it, whose host callback has already run.
+          deferredUpdates.push(update);
+          continue;
         }
         this._flushLanes |= update.lanes;
-        this._updateBatch.push(this._updateQueue.dequeue()!);
+        this._updateBatch.push(update);
       } while (!(this._flushLanes & UserHandlerLane));
 
+      for (const update of deferredUpdates) {
+        this._updateQueue.enqueue(update);
+      }
+
       if (this._flushLanes === NoLanes) {
         break;
       }
-- 
2.43.0


From 21acfb9ce77d4aa5b47a163f49f9abf7f5876742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 05/50] fix: do not apply eagerly computed state over skipped
 actions

useReducer() computed the next state at dispatch time from the displayed
state even when earlier actions had been skipped because of their lanes.
Those actions were lost when the eager result was applied (or when the
dispatch bailed out because the displayed state was equal).
---
 src/component.ts | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 7256aca..53d3744 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -61,7 +61,7 @@ export interface StateOptions {
 
 interface Action<TState, TAction> {
   payload: TAction;
-  eagerState: TState | undefined;
+  eagerState: { value: TState } | null;
   lanes: Lanes;
   revertLanes: Lanes;
 }
@@ -74,6 +74,7 @@ interface ActionDispatcher<TState, TAction> {
   reducer: (state: TState, payload: TAction) => TState;
   currentState: TState;
   pendingActions: Action<TState, TAction>[];
+  skipLanes: Lanes;
 }
 
 type EffectCleanup = () => void;
@@ -352,7 +353,10 @@ export class RenderContext {
       for (const action of memoizedActions) {
         const { payload, lanes, revertLanes } = action;
         if ((lanes & renderLanes) === lanes) {
-          nextState = action.eagerState ?? reducer(nextState, payload);
+          nextState =
+            action.eagerState !== null
+              ? action.eagerState.value
+              : reducer(nextState, payload);
           action.lanes = revertLanes;
         } else if ((revertLanes & renderLanes) === revertLanes) {
           action.revertLanes = NoLanes;
@@ -368,17 +372,21 @@ export class RenderContext {
       dispatcher.reducer = reducer;
       dispatcher.currentState = nextState;
       dispatcher.pendingActions = [];
+      dispatcher.skipLanes = skipLanes;
     } else {
       const dispatcher: ActionDispatcher<TState, TAction> = {
         dispatch: (payload, options = {}) => {
-          const { pendingActions, currentState, reducer } = dispatcher;
-          let eagerState: TState | undefined;
+          const { pendingActions, currentState, reducer, skipLanes } =
+            dispatcher;
+          let eagerState: { value: TState } | null = null;
 
-          if (pendingActions.length === 0) {
+          // The next state can be known in advance only if every preceding
+          // action has been applied to the current state.
+          if (pendingActions.length === 0 && skipLanes === NoLanes) {
             const areStatesEqual = options.areStatesEqual ?? is;
-            eagerState = reducer(currentState, payload);
+            eagerState = { value: reducer(currentState, payload) };
 
-            if (areStatesEqual(eagerState, currentState)) {
+            if (areStatesEqual(eagerState.value, currentState)) {
               return {
                 id: -1,
                 lanes: NoLanes,
@@ -399,6 +407,7 @@ export class RenderContext {
         reducer,
         currentState: getInitialState(initialState),
         pendingActions: [],
+        skipLanes: NoLanes,
       };
       currentHook = {
         type: HookType.REDUCER,
-- 
2.43.0


From e06f109644a560786f1ca2f39b8bff416297087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 06/50] fix: render anew when the root has been unmounted
 earlier in the same batch

DOMRoot.render() diffed against the mounted tree even when an unmount() of
the same batch was going to remove it first, so the result was lost or was
mounted with disconnected components.
---
 src/dom/root.ts | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/dom/root.ts b/src/dom/root.ts
index 177f47c..594c5f0 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -33,17 +33,29 @@ export class DOMRoot {
         pendingLanes: AllLanes,
         prepare: (_lanes, renderer) => {
           const element = wrap(value);
-          this._root.left =
-            this._root.right !== null
-              ? renderer.diff(this._root.right, element, scope, 0, this._root)
-              : renderer.render(
-                  element,
-                  scope,
-                  0,
-                  this._root,
-                  new ContainerPart(this._container),
-                );
+          const renderNode = () =>
+            renderer.render(
+              element,
+              scope,
+              0,
+              this._root,
+              new ContainerPart(this._container),
+            );
+          const oldNode = this._root.right;
+          const newNode =
+            oldNode !== null
+              ? renderer.diff(oldNode, element, scope, 0, this._root)
+              : renderNode();
+          this._root.left = newNode;
           return () => {
+            if (this._root.left !== newNode) {
+              // Superseded by a later render of the same batch.
+              return;
+            }
+            if (this._root.right !== oldNode) {
+              // The tree has been unmounted earlier in the same batch.
+              this._root.left = renderNode();
+            }
             if (this._root.right !== null) {
               patch(this._root.right, this._root.left!);
             } else {
-- 
2.43.0


From 0ca3b8d2e752ec844b996b649c09222a37d1ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 07/50] fix: keep the scheduling order of updates of equal
 priority

The update queue is a binary heap, which is not stable: several renders of a
root scheduled together could commit in another order, ending on an older
one.
---
 src/runtime.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 92fc8b2..c7130f2 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -615,7 +615,11 @@ function compareUpdates(update1: Update, update2: Update): number {
   }
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
-  return level1 - level2;
+  if (level1 !== level2) {
+    return level1 - level2;
+  }
+  // The heap is not stable; keep the updates in the order of scheduling.
+  return update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From aad0686ec1f24fec6eda2c72bd61a58ee57438d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 08/50] fix: render ancestors before descendants within a batch

A batch can merge staged updates of several lanes. It was processed in lane
order, so an update of a child could be prepared before the update of its
parent; the child was then rendered and committed twice against the same old
tree (duplicated nodes, or a TypeError from the already applied mutations).
---
 src/runtime.ts | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index c7130f2..91aa7d9 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -511,6 +511,7 @@ export class Runtime implements Renderer, Dispatcher {
       // by equal/lower-priority updates; stopping there commits it as its own
       // batch.
       const deferredUpdates: Update[] = [];
+      let lastUpdate: Update | undefined;
       do {
         const update = this._updateQueue.dequeue();
         if (update === undefined) {
@@ -529,6 +530,7 @@ export class Runtime implements Renderer, Dispatcher {
         }
         this._flushLanes |= update.lanes;
         this._updateBatch.push(update);
+        lastUpdate = update;
       } while (!(this._flushLanes & UserHandlerLane));
 
       for (const update of deferredUpdates) {
@@ -539,6 +541,10 @@ export class Runtime implements Renderer, Dispatcher {
         break;
       }
 
+      // Render ancestors first whatever their lanes, so that a descendant in the
+      // same batch is not rendered (and committed) twice.
+      this._updateBatch.sort(compareLevels);
+
       try {
         const commitBatch: Commit[] = [];
 
@@ -562,8 +568,7 @@ export class Runtime implements Renderer, Dispatcher {
           } else if (this._flushLanes & UserHandlerLane) {
             // The loop stops at the last UserHandlerLane update, which carries
             // the handler.
-            const { handler } = this._updateBatch.at(-1)!;
-            await handler!(callback);
+            await lastUpdate!.handler!(callback);
           } else {
             await this._adapter.requestCommit(callback);
           }
@@ -607,19 +612,21 @@ function buildKeyToIndexMap<T>(
   return keyToIndexMap;
 }
 
+function compareLevels(update1: Update, update2: Update): number {
+  return update1.transaction.scope.level - update2.transaction.scope.level;
+}
+
 function compareUpdates(update1: Update, update2: Update): number {
   const highestLane1 = getHighestPriorityLane(update1.lanes);
   const highestLane2 = getHighestPriorityLane(update2.lanes);
   if (highestLane1 !== highestLane2) {
     return highestLane1 - highestLane2;
   }
-  const level1 = update1.transaction.scope.level;
-  const level2 = update2.transaction.scope.level;
-  if (level1 !== level2) {
-    return level1 - level2;
-  }
-  // The heap is not stable; keep the updates in the order of scheduling.
-  return update1.id - update2.id;
+  return (
+    compareLevels(update1, update2) ||
+    // The heap is not stable; keep the updates in the order of scheduling.
+    update1.id - update2.id
+  );
 }
 
 function runPipeline(
-- 
2.43.0


From 14c1e0a8fd6635f83ab8f839fd09a623f44af816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 09/50] fix: compare effect dependencies with those of the
 running effect

---
 src/component.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 53d3744..62c71e1 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -97,6 +97,7 @@ namespace Hook {
     type: HookType.EFFECT;
     setup: EffectSetup;
     deps: readonly unknown[] | null | undefined;
+    committedDeps: readonly unknown[] | null | undefined;
     cleanup: EffectCleanup | void;
     dirty: boolean;
   }
@@ -176,8 +177,12 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   connect(node: RenderNode.ComponentNode<TProps>): void {
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.dirty) {
-        hook.cleanup?.();
-        hook.cleanup = hook.setup();
+        const { cleanup, deps, setup } = hook;
+        hook.cleanup = undefined;
+        hook.committedDeps = undefined;
+        cleanup?.();
+        hook.cleanup = setup();
+        hook.committedDeps = deps;
         hook.dirty = false;
       }
     }
@@ -270,7 +275,12 @@ export class RenderContext {
 
     if (currentHook !== undefined) {
       ensureHookType(HookType.EFFECT, currentHook);
-      currentHook.dirty ||= areDependenciesChanged(currentHook.deps, deps);
+      // Compare with the dependencies of the running effect rather than with
+      // those of the last render, which might have been aborted.
+      currentHook.dirty = areDependenciesChanged(
+        currentHook.committedDeps,
+        deps,
+      );
       currentHook.setup = setup;
       currentHook.deps = deps;
     } else {
@@ -278,6 +288,7 @@ export class RenderContext {
         type: HookType.EFFECT,
         setup,
         deps,
+        committedDeps: undefined,
         cleanup: undefined,
         dirty: true,
       };
-- 
2.43.0


From 909e757fd4aeeec0735eada88a98bff9e9260265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 10/50] fix: complete the commit even if an effect throws

---
 src/commit.ts    | 115 ++++++++++++++++++++++++++++++++++++++---------
 src/component.ts |  51 ++++++++++++++-------
 src/dom/root.ts  |   6 +--
 src/runtime.ts   |  12 ++++-
 4 files changed, 142 insertions(+), 42 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 347c0dc..d19cb78 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -13,30 +13,57 @@ export function mount(node: RenderNode): void {
 }
 
 export function unmount(node: RenderNode): void {
-  unmountChild(node);
+  const errors: unknown[] = [];
+  unmountChild(node, errors);
+  throwFirst(errors);
 }
 
-export function patch(oldNode: RenderNode, newNode: RenderNode) {
+export function patch(oldNode: RenderNode, newNode: RenderNode): void {
+  const errors: unknown[] = [];
   applyPatch(
     oldNode,
     newNode,
     newNode.index,
     newNode.parent,
     getSiblingDOMNode(newNode),
+    errors,
   );
-  afterCommit(newNode);
+  afterCommit(newNode, errors);
 }
 
-function afterCommit(node: RenderNode): void {
-  for (const child of node.left) {
-    if (!isCommitted(child)) {
-      afterCommit(child);
-    }
+export function update(
+  node: RenderNode.ComponentNode,
+  newChild: RenderNode,
+): void {
+  const errors: unknown[] = [];
+  node.left = [newChild];
+  applyPatch(
+    node.right[0]!,
+    newChild,
+    0,
+    node,
+    getSiblingDOMNode(newChild),
+    errors,
+  );
+  afterCommit(node, errors);
+}
+
+// Complete the tree before running any effects, so that an effect that throws
+// does not leave a part of it uncommitted.
+function afterCommit(node: RenderNode, errors: unknown[] = []): void {
+  const components: RenderNode.ComponentNode[] = [];
+  completeNode(node, components);
+  if (node.parent?.type === null) {
+    node.parent.right = node;
   }
-  if (typeof node.type === 'function') {
-    node.state.instance.connect(node);
+  for (const component of components) {
+    try {
+      component.state.instance.connect(component);
+    } catch (error) {
+      errors.push(error);
+    }
   }
-  node.right = node.left;
+  throwFirst(errors);
 }
 
 function applyPatch(
@@ -45,13 +72,14 @@ function applyPatch(
   index: number,
   parent: RenderNode | RenderRoot | null,
   afterNode: ChildNode | null,
+  errors: unknown[],
 ): void {
   if (oldNode === newNode && isCommitted(oldNode)) {
     reparentChild(oldNode, index, parent);
     return;
   }
   if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
-    unmountChild(oldNode);
+    unmountChild(oldNode, errors);
     mountChild(newNode, afterNode);
   } else if (newNode.type === Bind) {
     newNode.part.commitUpdate(
@@ -62,18 +90,26 @@ function applyPatch(
     const oldChildren = newNode.right;
     const newChildren = newNode.left;
     for (let i = 0, l = newChildren.length; i < l; i++) {
-      applyPatch(oldChildren[i]!, newChildren[i]!, i, newNode, null);
+      applyPatch(oldChildren[i]!, newChildren[i]!, i, newNode, null, errors);
     }
   } else if (typeof newNode.type === 'function') {
-    applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode, afterNode);
+    applyPatch(
+      newNode.right[0]!,
+      newNode.left[0]!,
+      0,
+      newNode,
+      afterNode,
+      errors,
+    );
   } else {
-    applyMutations(newNode, afterNode);
+    applyMutations(newNode, afterNode, errors);
   }
 }
 
 function applyMutations(
   node: RenderNode.FragmentNode,
   afterNode: ChildNode | null,
+  errors: unknown[],
 ): void {
   const mutations: Exclude<Mutation, { type: MutationType.REMOVE }>[] =
     new Array(node.left.length);
@@ -88,7 +124,7 @@ function applyMutations(
         mutations[mutation.index] = mutation;
         break;
       case MutationType.REMOVE:
-        unmountChild(mutation.node);
+        unmountChild(mutation.node, errors);
         break;
     }
   }
@@ -114,11 +150,34 @@ function applyMutations(
     if (mutation.type === MutationType.INSERT) {
       mountChild(mutation.node, afterNodes[i]!);
     } else {
-      applyPatch(mutation.oldNode, mutation.newNode, i, node, afterNodes[i]!);
+      applyPatch(
+        mutation.oldNode,
+        mutation.newNode,
+        i,
+        node,
+        afterNodes[i]!,
+        errors,
+      );
     }
   }
 }
 
+function completeNode(
+  node: RenderNode,
+  components: RenderNode.ComponentNode[],
+): void {
+  if (isCommitted(node)) {
+    return;
+  }
+  for (const child of node.left) {
+    completeNode(child, components);
+  }
+  if (typeof node.type === 'function') {
+    components.push(node as RenderNode.ComponentNode);
+  }
+  node.right = node.left;
+}
+
 function getChildDOMNode(node: RenderNode): ChildNode | null {
   if (typeof node.type === 'object') {
     return node.state.block.staticNodes[0]!;
@@ -190,20 +249,34 @@ function reparentChild(
   child.parent = parent;
 }
 
-function unmountChild(child: RenderNode, cascade: boolean = false): void {
+function throwFirst(errors: unknown[]): void {
+  if (errors.length > 0) {
+    throw errors[0];
+  }
+}
+
+function unmountChild(
+  child: RenderNode,
+  errors: unknown[],
+  cascade: boolean = false,
+): void {
   if (child.type === Bind) {
     child.part.commitUnmount(child.props.value, cascade);
   } else if (typeof child.type === 'object') {
     child.part.unmountBlock(child.state.block, cascade);
     for (const grandchild of child.right) {
-      unmountChild(grandchild, true);
+      unmountChild(grandchild, errors, true);
     }
   } else {
     if (typeof child.type === 'function') {
-      child.state.instance.disconnect();
+      try {
+        child.state.instance.disconnect();
+      } catch (error) {
+        errors.push(error);
+      }
     }
     for (const grandchild of child.right) {
-      unmountChild(grandchild, cascade);
+      unmountChild(grandchild, errors, cascade);
     }
   }
   child.parent = null;
diff --git a/src/component.ts b/src/component.ts
index 62c71e1..c5c4ff1 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -17,7 +17,7 @@ import {
   type VElement,
   VNode,
 } from './base.js';
-import { patch } from './commit.js';
+import { update } from './commit.js';
 import { areDependenciesChanged, is } from './compare.js';
 import { RenderError } from './error.js';
 import { NoLanes } from './lane.js';
@@ -175,28 +175,37 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   connect(node: RenderNode.ComponentNode<TProps>): void {
+    const errors: unknown[] = [];
+    this._connectedNode = node;
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.dirty) {
-        const { cleanup, deps, setup } = hook;
-        hook.cleanup = undefined;
-        hook.committedDeps = undefined;
-        cleanup?.();
-        hook.cleanup = setup();
-        hook.committedDeps = deps;
-        hook.dirty = false;
+        const { deps, setup } = hook;
+        cleanupEffect(hook, errors);
+        try {
+          hook.cleanup = setup();
+          hook.committedDeps = deps;
+          hook.dirty = false;
+        } catch (error) {
+          errors.push(error);
+        }
       }
     }
-    this._connectedNode = node;
+    if (errors.length > 0) {
+      throw errors[0];
+    }
   }
 
   disconnect(): void {
+    const errors: unknown[] = [];
+    this._connectedNode = null;
     for (const hook of this._context!._hooks) {
-      if (hook.type === HookType.EFFECT && hook.cleanup !== undefined) {
-        hook.cleanup();
-        hook.cleanup = undefined;
+      if (hook.type === HookType.EFFECT) {
+        cleanupEffect(hook, errors);
       }
     }
-    this._connectedNode = null;
+    if (errors.length > 0) {
+      throw errors[0];
+    }
   }
 }
 
@@ -538,15 +547,23 @@ class UpdateComponent implements Transaction {
     );
     return () => {
       if (node.parent !== null) {
-        node.left = [newChild];
-        patch(node.right[0]!, node.left[0]!);
-        node.state.instance.connect(node);
-        node.right = node.left;
+        update(node, newChild);
       }
     };
   }
 }
 
+function cleanupEffect(hook: Hook.EffectHook, errors: unknown[]): void {
+  const { cleanup } = hook;
+  hook.cleanup = undefined;
+  hook.committedDeps = undefined;
+  try {
+    cleanup?.();
+  } catch (error) {
+    errors.push(error);
+  }
+}
+
 function ensureHookType<TExpectedType extends Hook['type']>(
   expectedType: TExpectedType,
   hook: Hook,
diff --git a/src/dom/root.ts b/src/dom/root.ts
index 594c5f0..0167e72 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -61,7 +61,6 @@ export class DOMRoot {
             } else {
               mount(this._root.left!);
             }
-            this._root.right = this._root.left;
           };
         },
       },
@@ -77,9 +76,10 @@ export class DOMRoot {
         pendingLanes: AllLanes,
         prepare: () => {
           return () => {
-            if (this._root.right !== null) {
-              unmount(this._root.right);
+            const node = this._root.right;
+            if (node !== null) {
               this._root.right = null;
+              unmount(node);
             }
           };
         },
diff --git a/src/runtime.ts b/src/runtime.ts
index 91aa7d9..d50d61b 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -559,8 +559,18 @@ export class Runtime implements Renderer, Dispatcher {
 
         if (commitBatch.length > 0) {
           const callback = () => {
+            // The updates of the batch have all been rendered, so a failing
+            // effect of one must not prevent the others from being committed.
+            const errors: unknown[] = [];
             for (const commit of commitBatch) {
-              commit();
+              try {
+                commit();
+              } catch (error) {
+                errors.push(error);
+              }
+            }
+            if (errors.length > 0) {
+              throw errors[0];
             }
           };
           if (this._flushLanes & SyncLane) {
-- 
2.43.0


From eb611fed9a9e1a2098d613fa53362f9cffdb2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 11/50] fix: do not leak the scope of an aborted render into
 committed nodes

---
 src/runtime.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index d50d61b..374d800 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -88,7 +88,7 @@ export class Runtime implements Renderer, Dispatcher {
         part: oldNode.part,
         left: new Array(newElement.children.length),
         right: oldNode.right,
-        state: (oldNode as RenderNode.FragmentNode).state,
+        state: { mutations: [] },
       };
       newNode.state.mutations = this._diffChildren(
         newNode,
@@ -117,7 +117,10 @@ export class Runtime implements Renderer, Dispatcher {
         part: oldNode.part,
         left: oldNode.right.slice(),
         right: oldNode.right,
-        state: (oldNode as RenderNode.ComponentNode).state,
+        state: {
+          instance: (oldNode as RenderNode.ComponentNode).state.instance,
+          scope,
+        },
       };
       const subScope = scope.enter(newElement.type);
       newNode.left[0] = this.diff(
@@ -131,7 +134,6 @@ export class Runtime implements Renderer, Dispatcher {
         0,
         newNode,
       );
-      newNode.state.scope = scope;
       return newNode;
     } else {
       const newNode: RenderNode.BlockNode = {
-- 
2.43.0


From c0a583055b8210d46c75ee69e2dfb25312936f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 12/50] fix: show the state of an aborted update with the next
 one

---
 src/base.ts      |  2 ++
 src/component.ts | 14 +++++++++++++-
 src/runtime.ts   | 17 +++++------------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/base.ts b/src/base.ts
index d49d64e..49314f5 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -34,6 +34,8 @@ export interface Component<TProps> {
 }
 
 export interface ComponentInstance<TProps> {
+  // Whether pending updates have been rendered but not committed (yet).
+  readonly isDirty: boolean;
   readonly pendingLanes: Lanes;
   render(props: TProps, scope: Scope, lanes: Lanes): VElement;
   connect(node: RenderNode.ComponentNode<TProps>): void;
diff --git a/src/component.ts b/src/component.ts
index c5c4ff1..a90d9d5 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -131,6 +131,8 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   /** @internal */
   readonly _dispatcher: Dispatcher;
   /** @internal */
+  _isDirty: boolean = false;
+  /** @internal */
   _pendingLanes: Lanes = NoLanes;
   /** @internal */
   _context: RenderContext | null = null;
@@ -145,11 +147,16 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
     this._dispatcher = dispatcher;
   }
 
+  get isDirty(): boolean {
+    return this._isDirty;
+  }
+
   get pendingLanes(): Lanes {
     return this._pendingLanes;
   }
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
+    this._isDirty ||= (this._pendingLanes & lanes) !== NoLanes;
     this._pendingLanes &= ~lanes;
     if (this._context !== null) {
       this._context._scope = scope;
@@ -177,6 +184,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   connect(node: RenderNode.ComponentNode<TProps>): void {
     const errors: unknown[] = [];
     this._connectedNode = node;
+    this._isDirty = false;
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.dirty) {
         const { deps, setup } = hook;
@@ -406,7 +414,11 @@ export class RenderContext {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = { value: reducer(currentState, payload) };
 
-            if (areStatesEqual(eagerState.value, currentState)) {
+            // The current state may not be shown if its render was aborted.
+            if (
+              !this._instance._isDirty &&
+              areStatesEqual(eagerState.value, currentState)
+            ) {
               return {
                 id: -1,
                 lanes: NoLanes,
diff --git a/src/runtime.ts b/src/runtime.ts
index 374d800..0b40f23 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -97,10 +97,10 @@ export class Runtime implements Renderer, Dispatcher {
       );
       return newNode;
     } else if (typeof newElement.type === 'function') {
+      const { instance } = (oldNode as RenderNode.ComponentNode).state;
       if (
-        ((oldNode as RenderNode.ComponentNode).state.instance.pendingLanes &
-          this._flushLanes) ===
-          NoLanes &&
+        (instance.pendingLanes & this._flushLanes) === NoLanes &&
+        !instance.isDirty &&
         (oldNode as RenderNode.ComponentNode).type.arePropsEqual(
           oldNode.props,
           newElement.props,
@@ -117,19 +117,12 @@ export class Runtime implements Renderer, Dispatcher {
         part: oldNode.part,
         left: oldNode.right.slice(),
         right: oldNode.right,
-        state: {
-          instance: (oldNode as RenderNode.ComponentNode).state.instance,
-          scope,
-        },
+        state: { instance, scope },
       };
       const subScope = scope.enter(newElement.type);
       newNode.left[0] = this.diff(
         newNode.right[0]!,
-        newNode.state.instance.render(
-          newElement.props,
-          subScope,
-          this._flushLanes,
-        ),
+        instance.render(newElement.props, subScope, this._flushLanes),
         subScope,
         0,
         newNode,
-- 
2.43.0


From 40fece229b1cfb05e48f825839abc478a4d669a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 13/50] fix: do not call subscribers unsubscribed during a
 notification

---
 src/addons/signal/linked-list.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..1aee01d 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -20,7 +20,11 @@ export class LinkedList<T> implements Iterable<T> {
 
   *[Symbol.iterator](): Generator<T> {
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      // A deleted node still links to the following nodes, which may have been
+      // deleted in the meantime.
+      if (node.owner === this) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From 7058833f03c429bba2e72bf0b730c019e0d71d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 14/50] fix: do not create a property by reading it in a draft

---
 src/addons/signal/derivable.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..84b932e 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -366,7 +366,9 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        // It does not exist until a value is assigned.
+        FLAG_DELETED_PROPERTY,
     );
   }
 
-- 
2.43.0


From 90d469f53be5e064400a4ed7bb91536da4b1ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 15/50] fix: keep drafts and readers consistent when a property
 is replaced or deleted

---
 src/addons/signal/derivable.ts | 87 +++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 84b932e..ae60e31 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -30,6 +30,10 @@ type NonPrimitive<T> = Exclude<T, Primitive>;
 
 type NormalizedKey = string | symbol;
 
+// Drafts refer to their receiver through this, so that they keep referring to
+// the object they were created for, even if it is replaced or deleted.
+type Reference = { receiver: Derivable<any> };
+
 type Primitive = bigint | string | number | symbol | null | undefined;
 
 export class Derivable<T> extends Signal<T> {
@@ -43,6 +47,8 @@ export class Derivable<T> extends Signal<T> {
   _flags: number;
   /** @internal */
   _properties: Map<NormalizedKey, Derivable<unknown>> | null = null;
+  /** @internal */
+  _reference: Reference | null = null;
 
   static from<T>(value: T): Derivable<T> {
     return new Derivable(new Atom(value), null, null, NO_FLAGS);
@@ -160,8 +166,22 @@ function commitValue<T>(receiver: Derivable<T>): T {
 }
 
 function deleteProperty<T>(prop: Derivable<T>): void {
+  if (prop._owner === null || prop._flags & FLAG_DELETED_PROPERTY) {
+    return;
+  }
+  const source = prop._source;
+  if (source instanceof Atom) {
+    detachValue(prop, commitValue(prop));
+    source.write(undefined);
+  }
+  prop._flags |= FLAG_DELETED_PROPERTY;
+  markOwnersDirty(prop);
+  if (source instanceof Atom) {
+    source.invalidate({ type: 'delete', source, path: [] });
+  }
   for (
-    let owner = prop._owner, reversePath = [prop._key!];
+    let owner: Derivable<unknown> | null = prop._owner,
+      reversePath = [prop._key!];
     owner !== null;
     owner = owner._owner
   ) {
@@ -169,16 +189,33 @@ function deleteProperty<T>(prop: Derivable<T>): void {
       const level = reversePath.length;
       owner._source.invalidate({
         type: 'delete',
-        source: prop._source,
+        source,
         get path() {
           return reversePath.slice(0, level).reverse();
         },
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY;
+}
+
+function detachValue(receiver: Derivable<any>, value: unknown): void {
+  if (receiver._properties === null && receiver._reference === null) {
+    return;
+  }
+  const detached = Derivable.from(value);
+  if (receiver._properties !== null) {
+    for (const prop of receiver._properties.values()) {
+      prop._owner = detached;
+    }
+    detached._properties = receiver._properties;
+    receiver._properties = null;
+  }
+  if (receiver._reference !== null) {
+    receiver._reference.receiver = detached;
+    detached._reference = receiver._reference;
+    receiver._reference = null;
+  }
 }
 
 function draftTarget<T>(
@@ -186,9 +223,11 @@ function draftTarget<T>(
   target: T & object,
   trackProperty: typeof getProperty = getProperty,
 ): { proxy: T; revoke: () => void } {
+  receiver._reference ??= { receiver };
+  const reference = receiver._reference;
   const { proxy, revoke } = Proxy.revocable(target, {
     deleteProperty(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(reference.receiver, target, key);
       const success = !!(prop._flags & FLAG_CONFIGURABLE_PROPERTY);
       if (success) {
         deleteProperty(prop);
@@ -197,9 +236,9 @@ function draftTarget<T>(
     },
     get(target, key, _proxyReceiver) {
       if (key === UNWRAP_TAG) {
-        return commitValue(receiver);
+        return commitValue(reference.receiver);
       }
-      const prop = trackProperty(receiver, target, key);
+      const prop = trackProperty(reference.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -214,7 +253,7 @@ function draftTarget<T>(
       return commitValue(prop);
     },
     getOwnPropertyDescriptor(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(reference.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -229,7 +268,7 @@ function draftTarget<T>(
       return Reflect.getOwnPropertyDescriptor(target, key);
     },
     set(target, key, value, _proxyReceiver) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(reference.receiver, target, key);
       const success = !!(prop._flags & FLAG_WRITABLE_PROPERTY);
       if (success) {
         setPendingValue(prop, finalizeValue(value));
@@ -240,17 +279,18 @@ function draftTarget<T>(
       if (key === UNWRAP_TAG) {
         return true;
       }
-      const prop = receiver._properties?.get(key);
+      const prop = reference.receiver._properties?.get(key);
       return prop !== undefined
         ? !(prop._flags & FLAG_DELETED_PROPERTY)
         : Reflect.has(target, key);
     },
     ownKeys(target) {
       const baseKeys = Reflect.ownKeys(target);
-      if (receiver._properties !== null) {
+      const properties = reference.receiver._properties;
+      if (properties !== null) {
         const deletedKeys: NormalizedKey[] = [];
         const dynamicKeys: NormalizedKey[] = [];
-        for (const [key, prop] of receiver._properties.entries()) {
+        for (const [key, prop] of properties.entries()) {
           if (prop._flags & FLAG_DELETED_PROPERTY) {
             deletedKeys.push(key);
           } else if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
@@ -341,6 +381,12 @@ function getPropertyFlags(descriptor: PropertyDescriptor): number {
   return flags;
 }
 
+function markOwnersDirty(receiver: Derivable<any>): void {
+  for (let owner = receiver._owner; owner !== null; owner = owner._owner) {
+    owner._flags |= FLAG_DIRTY_VALUE;
+  }
+}
+
 function isNonPrimitive(value: unknown): value is object {
   return (
     value !== null && (typeof value === 'object' || typeof value === 'function')
@@ -445,7 +491,13 @@ function resolveProperty<T>(
 }
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
-  const oldValue = receiver._source.value;
+  const oldValue = commitValue(receiver);
+  if (receiver._source instanceof Atom) {
+    detachValue(receiver, oldValue);
+    receiver._flags |= FLAG_PENDING_VALUE;
+    receiver._flags &= ~FLAG_DELETED_PROPERTY;
+    markOwnersDirty(receiver);
+  }
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
   (receiver._source as WritableSignal<T>).value = newValue;
   for (
@@ -465,17 +517,8 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
         newValue,
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
-    }
-    receiver._properties.clear();
-  }
-  receiver._flags |= FLAG_PENDING_VALUE;
-  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
 
 function shallowClone<T>(target: T): T {
-- 
2.43.0


From 315954e6784b3ca562b7c575372a6742af0a7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 16/50] fix: keep the length and the elements of an array
 property consistent

---
 src/addons/signal/derivable.ts | 61 +++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index ae60e31..354a2cf 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -170,15 +170,8 @@ function deleteProperty<T>(prop: Derivable<T>): void {
     return;
   }
   const source = prop._source;
-  if (source instanceof Atom) {
-    detachValue(prop, commitValue(prop));
-    source.write(undefined);
-  }
-  prop._flags |= FLAG_DELETED_PROPERTY;
   markOwnersDirty(prop);
-  if (source instanceof Atom) {
-    source.invalidate({ type: 'delete', source, path: [] });
-  }
+  dropValue(prop);
   for (
     let owner: Derivable<unknown> | null = prop._owner,
       reversePath = [prop._key!];
@@ -322,6 +315,18 @@ function draftTarget<T>(
   };
 }
 
+function dropValue(prop: Derivable<any>): void {
+  const source = prop._source;
+  if (source instanceof Atom) {
+    detachValue(prop, commitValue(prop));
+    source.write(undefined);
+  }
+  prop._flags |= FLAG_DELETED_PROPERTY;
+  if (source instanceof Atom) {
+    source.invalidate({ type: 'delete', source, path: [] });
+  }
+}
+
 function finalizeValue<T>(target: T): T {
   if (isNonPrimitive(target)) {
     if (UNWRAP_TAG in target) {
@@ -387,6 +392,10 @@ function markOwnersDirty(receiver: Derivable<any>): void {
   }
 }
 
+function isArrayIndex(key: NormalizedKey): key is string {
+  return typeof key === 'string' && /^(?:0|[1-9]\d*)$/.test(key);
+}
+
 function isNonPrimitive(value: unknown): value is object {
   return (
     value !== null && (typeof value === 'object' || typeof value === 'function')
@@ -500,6 +509,12 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   }
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
   (receiver._source as WritableSignal<T>).value = newValue;
+  if (receiver._owner !== null) {
+    const owner = receiver._owner._source.value;
+    if (Array.isArray(owner)) {
+      synchronizeArray(receiver._owner, owner, receiver._key!, newValue);
+    }
+  }
   for (
     let owner = receiver._owner, reversePath = [receiver._key!];
     owner !== null;
@@ -521,6 +536,36 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   }
 }
 
+// Changes the length of the array along with its elements and vice versa.
+function synchronizeArray(
+  receiver: Derivable<any>,
+  target: unknown[],
+  key: NormalizedKey,
+  newValue: unknown,
+): void {
+  if (key === 'length') {
+    for (const index of Object.keys(target)) {
+      if (isArrayIndex(index)) {
+        getProperty(receiver, target, index);
+      }
+    }
+    for (const [index, prop] of receiver._properties!) {
+      if (
+        isArrayIndex(index) &&
+        Number(index) >= (newValue as number) &&
+        !(prop._flags & FLAG_DELETED_PROPERTY)
+      ) {
+        dropValue(prop);
+      }
+    }
+  } else if (isArrayIndex(key)) {
+    const length = getProperty(receiver, target, 'length') as Derivable<number>;
+    if (Number(key) >= length._source.value) {
+      (length._source as Atom<number>).value = Number(key) + 1;
+    }
+  }
+}
+
 function shallowClone<T>(target: T): T {
   return Array.isArray(target)
     ? (target.slice() as T)
-- 
2.43.0


From 09c8f8058ca936cb97155bc6dc58c5488f40f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 17/50] fix: evaluate getters anew whenever their owner changes

---
 src/addons/signal/derivable.ts | 50 +++++++++-------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 354a2cf..5de06e6 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -214,7 +214,6 @@ function detachValue(receiver: Derivable<any>, value: unknown): void {
 function draftTarget<T>(
   receiver: Derivable<T>,
   target: T & object,
-  trackProperty: typeof getProperty = getProperty,
 ): { proxy: T; revoke: () => void } {
   receiver._reference ??= { receiver };
   const reference = receiver._reference;
@@ -231,7 +230,7 @@ function draftTarget<T>(
       if (key === UNWRAP_TAG) {
         return commitValue(reference.receiver);
       }
-      const prop = trackProperty(reference.receiver, target, key);
+      const prop = getProperty(reference.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -457,43 +456,20 @@ function resolveProperty<T>(
   }
 
   if (get !== undefined) {
-    const dependencies: Signal<any>[] = [];
-    const { proxy, revoke } = draftTarget(
+    const prop: Derivable<unknown> = new Derivable(
+      new Computed(() => {
+        const { proxy, revoke } = draftTarget(prop._owner!, target);
+        try {
+          return finalizeValue(get.call(proxy));
+        } finally {
+          revoke();
+        }
+      }, [receiver._source]),
       receiver,
-      target,
-      (receiver, target, key) => {
-        const prop = getProperty(receiver, target, key);
-        dependencies.push(prop._source);
-        return prop;
-      },
+      key,
+      flags,
     );
-    try {
-      const initialResult = finalizeValue(get.call(proxy));
-      const initialVersion = dependencies.reduce(
-        (version, dependency) => version + dependency.version,
-        0,
-      );
-      return new Derivable(
-        new Computed(
-          () => {
-            const { proxy, revoke } = draftTarget(receiver, target);
-            try {
-              return finalizeValue(get.call(proxy));
-            } finally {
-              revoke();
-            }
-          },
-          dependencies,
-          initialResult,
-          initialVersion,
-        ),
-        receiver,
-        key,
-        flags,
-      );
-    } finally {
-      revoke();
-    }
+    return prop;
   }
 
   return new Derivable(new Atom(value), receiver, key, flags);
-- 
2.43.0


From 8381160f13672e2bb239df5538b9e92b19497214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 18/50] fix: keep the length of an array whose last elements
 are deleted

---
 src/addons/signal/derivable.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 5de06e6..afa76d2 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -537,6 +537,7 @@ function synchronizeArray(
   } else if (isArrayIndex(key)) {
     const length = getProperty(receiver, target, 'length') as Derivable<number>;
     if (Number(key) >= length._source.value) {
+      length._flags |= FLAG_PENDING_VALUE;
       (length._source as Atom<number>).value = Number(key) + 1;
     }
   }
-- 
2.43.0


From 0c23aafe3db1d6de61b12cceb97d01f860fb8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 19/50] fix: make accessors writable in drafts and derive
 properties of the object they return now

---
 src/addons/signal/derivable.ts | 67 ++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index afa76d2..2eebdea 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -49,6 +49,8 @@ export class Derivable<T> extends Signal<T> {
   _properties: Map<NormalizedKey, Derivable<unknown>> | null = null;
   /** @internal */
   _reference: Reference | null = null;
+  /** @internal */
+  _target: T | undefined = undefined;
 
   static from<T>(value: T): Derivable<T> {
     return new Derivable(new Atom(value), null, null, NO_FLAGS);
@@ -92,14 +94,14 @@ export class Derivable<T> extends Signal<T> {
   ): T extends object ? Derivable<Get<NonPrimitive<T>, K>> : undefined;
   get(key: PropertyKey): T extends object ? Derivable<never> : undefined;
   get(key: PropertyKey): Derivable<any> | Derivable<never> | undefined {
-    const target = this._source.value;
+    const target = getTarget(this);
     return isNonPrimitive(target)
       ? getProperty(this, target, normalizeKey(key))
       : undefined;
   }
 
   scope<TReturn>(callback: (draft: T) => TReturn): TReturn {
-    const target = this._source.value;
+    const target = getTarget(this);
     if (isNonPrimitive(target)) {
       const { proxy, revoke } = draftTarget(this, target);
       try {
@@ -147,21 +149,30 @@ export function unwrap<T>(value: T): T {
 }
 
 function commitValue<T>(receiver: Derivable<T>): T {
-  let pendingValue = receiver._source.value;
-  if (receiver._flags & FLAG_NEEDS_COMMIT) {
-    pendingValue = shallowClone(pendingValue);
-    for (const [key, prop] of receiver._properties!.entries()) {
-      if (prop._flags & FLAG_DELETED_PROPERTY) {
-        delete (pendingValue as any)[key];
-      } else if (prop._flags & FLAG_PENDING_VALUE) {
-        (pendingValue as any)[key] = prop.value;
-        prop._flags &= ~FLAG_PENDING_VALUE;
-      }
+  if (!(receiver._flags & FLAG_NEEDS_COMMIT)) {
+    return receiver._source.value;
+  }
+  // Commit values of accessors first since they are stored in other properties.
+  for (const prop of receiver._properties!.values()) {
+    if (prop._source instanceof Accessor) {
+      commitValue(prop);
     }
-    // SAFETY: The signal is always WritableSignal if FLAG_NEEDS_COMMIT is set.
-    (receiver._source as WritableSignal<T>).write(pendingValue);
-    receiver._flags &= ~FLAG_NEEDS_COMMIT;
   }
+  const pendingValue = shallowClone(receiver._source.value);
+  for (const [key, prop] of receiver._properties!.entries()) {
+    if (prop._flags & FLAG_DELETED_PROPERTY) {
+      delete (pendingValue as any)[key];
+    } else if (
+      prop._flags & FLAG_PENDING_VALUE &&
+      !(prop._source instanceof Accessor)
+    ) {
+      (pendingValue as any)[key] = prop.value;
+      prop._flags &= ~FLAG_PENDING_VALUE;
+    }
+  }
+  // SAFETY: The signal is always WritableSignal if FLAG_NEEDS_COMMIT is set.
+  (receiver._source as WritableSignal<T>).write(pendingValue);
+  receiver._flags &= ~FLAG_NEEDS_COMMIT;
   return pendingValue;
 }
 
@@ -235,7 +246,7 @@ function draftTarget<T>(
         return undefined;
       }
       if (prop._flags & FLAG_ENUMERABLE_PROPERTY) {
-        const target = prop._source.value;
+        const target = getTarget(prop);
         if (isNonPrimitive(target)) {
           const { proxy, revoke } = draftTarget(prop, target);
           revokeBatch.push(revoke);
@@ -379,7 +390,7 @@ function getPropertyFlags(descriptor: PropertyDescriptor): number {
   if (descriptor.enumerable) {
     flags |= FLAG_ENUMERABLE_PROPERTY;
   }
-  if (descriptor.writable) {
+  if (descriptor.writable || descriptor.set !== undefined) {
     flags |= FLAG_WRITABLE_PROPERTY;
   }
   return flags;
@@ -391,6 +402,21 @@ function markOwnersDirty(receiver: Derivable<any>): void {
   }
 }
 
+// Returns the object whose properties are derived.
+function getTarget<T>(receiver: Derivable<T>): T {
+  const target = receiver._source.value;
+  if (
+    receiver._target !== target &&
+    !(receiver._source instanceof Atom) &&
+    !(receiver._flags & FLAG_NEEDS_COMMIT)
+  ) {
+    // The accessor has returned another object than before.
+    detachValue(receiver, receiver._target);
+    receiver._target = target;
+  }
+  return target;
+}
+
 function isArrayIndex(key: NormalizedKey): key is string {
   return typeof key === 'string' && /^(?:0|[1-9]\d*)$/.test(key);
 }
@@ -430,10 +456,10 @@ function resolveProperty<T>(
   const flags = getPropertyFlags(descriptor);
 
   if (get !== undefined && set !== undefined) {
-    return new Derivable(
+    const prop: Derivable<unknown> = new Derivable(
       new Accessor(
         () => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftTarget(prop._owner!, target);
           try {
             return finalizeValue(get.call(proxy));
           } finally {
@@ -441,7 +467,7 @@ function resolveProperty<T>(
           }
         },
         (newValue) => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftTarget(prop._owner!, target);
           try {
             set.call(proxy, finalizeValue(newValue));
           } finally {
@@ -453,6 +479,7 @@ function resolveProperty<T>(
       key,
       flags,
     );
+    return prop;
   }
 
   if (get !== undefined) {
-- 
2.43.0


From 6e4172b30040d92a698f2dbdaf2bbdbba5a60ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 20/50] fix: list properties of a draft that were deleted and
 assigned again

---
 src/addons/signal/derivable.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 2eebdea..8ef1d32 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -262,13 +262,16 @@ function draftTarget<T>(
       }
       if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
         return {
-          value: prop._source.value,
+          value: commitValue(prop),
           writable: true,
           enumerable: true,
           configurable: true,
         };
       }
-      return Reflect.getOwnPropertyDescriptor(target, key);
+      const descriptor = Reflect.getOwnPropertyDescriptor(target, key);
+      return descriptor !== undefined && 'value' in descriptor
+        ? { ...descriptor, value: commitValue(prop) }
+        : descriptor;
     },
     set(target, key, value, _proxyReceiver) {
       const prop = getProperty(reference.receiver, target, key);
@@ -331,7 +334,8 @@ function dropValue(prop: Derivable<any>): void {
     detachValue(prop, commitValue(prop));
     source.write(undefined);
   }
-  prop._flags |= FLAG_DELETED_PROPERTY;
+  // The target does not have the property any more once this is committed.
+  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
   if (source instanceof Atom) {
     source.invalidate({ type: 'delete', source, path: [] });
   }
-- 
2.43.0


From bec97729448f79d3190e9b9b6b3a6223d4f84a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 21/50] fix: do not pass captures of abandoned routes to the
 resolver

---
 src/addons/router/router.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..0621d0c 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -57,11 +57,12 @@ export class Router<TResult> {
       );
 
       if (captures !== null) {
-        collectedCaptures.push(...captures);
         if (components.length === componentIndex + patterns.length) {
+          collectedCaptures.push(...captures);
           return resolver?.(collectedCaptures, url);
         }
         if (childRoutes.length > 0) {
+          collectedCaptures.push(...captures);
           routes = childRoutes;
           routeIndex = 0;
           componentIndex += patterns.length;
-- 
2.43.0


From 9c7103f88f6de7dae25c858be741a79e5a578d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 22/50] fix: reject components that are not integers or not
 decodable

---
 src/addons/router/matchers.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..efbfa0d 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -17,8 +17,13 @@ export function choice<const TMatchers extends Matcher<unknown>[]>(
   };
 }
 
-export function decoded(component: string): string {
-  return decodeURIComponent(component);
+export function decoded(component: string): string | undefined {
+  try {
+    return decodeURIComponent(component);
+  } catch {
+    // The component is malformed.
+    return undefined;
+  }
 }
 
 export function encoded(component: string): string {
@@ -27,7 +32,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return Number.isInteger(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From 3901ad9f0572d897b98f300faf6d87e91855ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 23/50] fix: keep a navigation listener registered twice until
 both are removed

---
 src/addons/router/adapter.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/addons/router/adapter.ts b/src/addons/router/adapter.ts
index 003b20a..69ccff5 100644
--- a/src/addons/router/adapter.ts
+++ b/src/addons/router/adapter.ts
@@ -148,9 +148,13 @@ export class InMemoryAdapter implements NavigationAdapter {
   }
 
   listen(listener: NavigationSceneListener): () => void {
-    this._listeners.add(listener);
+    // The same listener may be registered several times.
+    const handleNavigate: NavigationSceneListener = (scene, interceptor) => {
+      listener(scene, interceptor);
+    };
+    this._listeners.add(handleNavigate);
     return () => {
-      this._listeners.delete(listener);
+      this._listeners.delete(handleNavigate);
     };
   }
 
-- 
2.43.0


From db9ac4461b35aa4985ce2eb321878f05fee0d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 24/50] fix: accept expressions for mixed-case attributes of
 SVG and MathML elements

---
 src/dom/template.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 9d37626..07cb66b 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -213,7 +213,8 @@ function collectAttributeHoles(
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
-        if (caseSensitiveName?.toLowerCase() !== name) {
+        // Names of SVG and MathML attributes are not necessarily lowercase.
+        if (caseSensitiveName?.toLowerCase() !== name.toLowerCase()) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             `The attribute name must be "${name}", but got "${caseSensitiveName}". There are unclosed tags or duplicate attributes.`,
@@ -247,7 +248,7 @@ function collectAttributeHoles(
           hole = {
             type: HoleType.ATTRIBUTE,
             path: path.slice(),
-            name: caseSensitiveName,
+            name,
           };
           break;
       }
-- 
2.43.0


From dc4531d936c4fe4df9a37879a7aaad19c370f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 25/50] fix: do not confuse composed templates whose fragments
 are split differently

---
 src/velement.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..91c8d90 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -19,6 +19,7 @@ const INTERPOLATION_CACHE = new WeakMap<readonly string[], Interpolation[]>();
 interface Interpolation {
   interpolatedStrings: readonly string[];
   literalStrings: readonly string[];
+  literalLengths: readonly number[];
   literalPositions: readonly number[];
 }
 
@@ -46,6 +47,7 @@ export class Partial {
     ...values: readonly unknown[]
   ): Partial {
     const literalStrings: string[] = [];
+    const literalLengths: number[] = [];
     const literalPositions: number[] = [];
     const flattenedValues: unknown[] = [];
 
@@ -53,6 +55,7 @@ export class Partial {
       const value = values[i]!;
       if (value instanceof Partial) {
         literalStrings.push(...value.strings);
+        literalLengths.push(value.strings.length);
         literalPositions.push(i);
         flattenedValues.push(...value.values);
       } else {
@@ -70,6 +73,7 @@ export class Partial {
       for (const interpolation of interpolations) {
         if (
           sequentialEqual(interpolation.literalStrings, literalStrings) &&
+          sequentialEqual(interpolation.literalLengths, literalLengths) &&
           sequentialEqual(interpolation.literalPositions, literalPositions)
         ) {
           return new Partial(
@@ -88,6 +92,7 @@ export class Partial {
     interpolations.push({
       interpolatedStrings,
       literalStrings,
+      literalLengths,
       literalPositions,
     });
 
-- 
2.43.0


From 1b3459e129193d0aa542a5ba086601bf09a25254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 26/50] fix: complete the commit even if a value is rejected

---
 src/commit.ts | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index d19cb78..5c26336 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -8,8 +8,9 @@ import {
 import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
-  mountChild(node, null);
-  afterCommit(node);
+  const errors: unknown[] = [];
+  mountChild(node, null, errors);
+  afterCommit(node, errors);
 }
 
 export function unmount(node: RenderNode): void {
@@ -50,7 +51,7 @@ export function update(
 
 // Complete the tree before running any effects, so that an effect that throws
 // does not leave a part of it uncommitted.
-function afterCommit(node: RenderNode, errors: unknown[] = []): void {
+function afterCommit(node: RenderNode, errors: unknown[]): void {
   const components: RenderNode.ComponentNode[] = [];
   completeNode(node, components);
   if (node.parent?.type === null) {
@@ -80,12 +81,16 @@ function applyPatch(
   }
   if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode, errors);
-    mountChild(newNode, afterNode);
+    mountChild(newNode, afterNode, errors);
   } else if (newNode.type === Bind) {
-    newNode.part.commitUpdate(
-      (oldNode as RenderNode.BindNode).props.value,
-      newNode.props.value,
-    );
+    try {
+      newNode.part.commitUpdate(
+        (oldNode as RenderNode.BindNode).props.value,
+        newNode.props.value,
+      );
+    } catch (error) {
+      errors.push(error);
+    }
   } else if (typeof newNode.type === 'object') {
     const oldChildren = newNode.right;
     const newChildren = newNode.left;
@@ -148,7 +153,7 @@ function applyMutations(
   for (let i = 0, l = mutations.length; i < l; i++) {
     const mutation = mutations[i]!;
     if (mutation.type === MutationType.INSERT) {
-      mountChild(mutation.node, afterNodes[i]!);
+      mountChild(mutation.node, afterNodes[i]!, errors);
     } else {
       applyPatch(
         mutation.oldNode,
@@ -215,17 +220,25 @@ function isCommitted(node: RenderNode): boolean {
   return node.left === node.right;
 }
 
-function mountChild(child: RenderNode, afterNode: ChildNode | null): void {
+function mountChild(
+  child: RenderNode,
+  afterNode: ChildNode | null,
+  errors: unknown[],
+): void {
   if (child.type === Bind) {
-    child.part.commitMount(child.props.value);
+    try {
+      child.part.commitMount(child.props.value);
+    } catch (error) {
+      errors.push(error);
+    }
   } else if (typeof child.type === 'object') {
     for (const grandchild of child.left) {
-      mountChild(grandchild, null);
+      mountChild(grandchild, null, errors);
     }
     child.part.mountBlock(child.state.block, afterNode);
   } else {
     for (const grandchild of child.left) {
-      mountChild(grandchild, afterNode);
+      mountChild(grandchild, afterNode, errors);
     }
   }
 }
@@ -261,7 +274,11 @@ function unmountChild(
   cascade: boolean = false,
 ): void {
   if (child.type === Bind) {
-    child.part.commitUnmount(child.props.value, cascade);
+    try {
+      child.part.commitUnmount(child.props.value, cascade);
+    } catch (error) {
+      errors.push(error);
+    }
   } else if (typeof child.type === 'object') {
     child.part.unmountBlock(child.state.block, cascade);
     for (const grandchild of child.right) {
-- 
2.43.0


From 585b8baa9757796dba0d56068d39b311e8214125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 27/50] fix: keep a reference that is bound anew before its
 previous binding is cleaned up

---
 src/component.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/component.ts b/src/component.ts
index a90d9d5..23bc172 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -23,6 +23,8 @@ import { RenderError } from './error.js';
 import { NoLanes } from './lane.js';
 import { createBind, wrap } from './velement.js';
 
+const REF_BINDINGS = new WeakMap<Ref<any>, Set<{ instance: unknown }>>();
+
 const enum HookType {
   FINALIZER = 0,
   EFFECT = 1,
@@ -493,10 +495,19 @@ export class Ref<T> implements Bindable {
 
   [toElement](): VElement {
     return createBind((instance: T) => {
+      const bindings = REF_BINDINGS.getOrInsertComputed(this, () => new Set());
+      const binding = { instance };
+      bindings.add(binding);
       this.current = instance;
       return () => {
+        bindings.delete(binding);
+        // The reference may be bound anew, even to the same instance, before
+        // the previous binding is cleaned up.
         if (this.current === instance) {
           this.current = null as T;
+          for (const binding of bindings) {
+            this.current = binding.instance as T;
+          }
         }
       };
     });
-- 
2.43.0


From 722e88d1377d310e0e6709cb8182d6091a37a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 28/50] fix: bind the new reference even if the cleanup of the
 previous one throws

---
 src/dom/part.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..240b704 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -257,15 +257,18 @@ export class ElementPart extends DOMPart {
 
   override commitUpdate(oldValue: unknown, newValue: unknown): void {
     if (oldValue !== newValue) {
-      this._cleanup?.();
-      this._cleanup = undefined;
-      this.commitMount(newValue);
+      try {
+        this.commitUnmount(oldValue, false);
+      } finally {
+        this.commitMount(newValue);
+      }
     }
   }
 
   override commitUnmount(_value: unknown, _cascade: boolean): void {
-    this._cleanup?.();
+    const cleanup = this._cleanup;
     this._cleanup = undefined;
+    cleanup?.();
   }
 }
 
-- 
2.43.0


From fa90688c0b2873062ae832bfd79c70f4c8bed24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 29/50] fix: empty an attribute that becomes true

---
 src/dom/part.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 240b704..49ede31 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -55,12 +55,13 @@ export class AttributePart extends DOMPart {
   }
 
   override commitMount(value: unknown): void {
-    if (value == null) {
+    if (value == null || value === false) {
       this._node.removeAttribute(this._name);
-    } else if (typeof value === 'boolean') {
-      this._node.toggleAttribute(this._name, value);
     } else {
-      this._node.setAttribute(this._name, toStringOrEmpty(value));
+      this._node.setAttribute(
+        this._name,
+        value === true ? '' : toStringOrEmpty(value),
+      );
     }
   }
 
-- 
2.43.0


From 969b346e209cbc50bdcc51e93ba3bf54c7cdc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 30/50] fix: do not toggle class tokens whose value is
 undefined

---
 src/dom/part.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 49ede31..c2b26cd 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -9,7 +9,7 @@ const CSS_UPPERCASE_LETTER_PATTERN = /[A-Z]/g;
 const CSS_VENDOR_PREFIX_PATTERN = /^(webkit|moz|ms|o)(?=[A-Z])/;
 
 interface ClassMap {
-  [key: string]: boolean;
+  [key: string]: boolean | null | undefined;
 }
 
 interface StyleMap {
@@ -393,7 +393,8 @@ function updateClass(
   }
 
   for (const component of Object.keys(newTokens)) {
-    toggleClass(classList, component, newTokens[component]!);
+    // DOMTokenList.toggle() ignores the argument if it is undefined.
+    toggleClass(classList, component, !!newTokens[component]);
   }
 }
 
-- 
2.43.0


From 51e96448915cf23fd339ffbdc1582040eeb8eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 31/50] fix: keep the case of custom properties in style
 bindings

---
 src/dom/part.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index c2b26cd..30c29c8 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -349,6 +349,10 @@ function normalizeStyle(value: unknown): StyleMap {
  * toCSSProperty('padding-block'); // => 'padding-block'
  */
 function toCSSPropertyName(key: string): string {
+  // Names of custom properties are case-sensitive.
+  if (key.startsWith('--')) {
+    return key;
+  }
   return key
     .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
     .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
-- 
2.43.0


From a493f181d7769b7006f3d00891e1ce4c6dcef9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 32/50] fix: keep the importance of declarations in style
 bindings

---
 src/dom/part.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 30c29c8..1702328 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -5,6 +5,7 @@ import { DOMAdapterError } from './error.js';
 
 const CLASS_TOKEN_SEPARATOR_PATTERN = /\s+/;
 
+const CSS_IMPORTANT_PATTERN = /\s*!important\s*$/i;
 const CSS_UPPERCASE_LETTER_PATTERN = /[A-Z]/g;
 const CSS_VENDOR_PREFIX_PATTERN = /^(webkit|moz|ms|o)(?=[A-Z])/;
 
@@ -368,7 +369,9 @@ function parseCSSText(cssText: string): StyleMap {
   const styleMap: StyleMap = {};
   style.cssText = cssText;
   for (const property of style) {
-    styleMap[property] = style.getPropertyValue(property);
+    const priority = style.getPropertyPriority(property);
+    styleMap[property] =
+      style.getPropertyValue(property) + (priority !== '' ? '!important' : '');
   }
   return styleMap;
 }
@@ -421,7 +424,13 @@ function updateStyle(
     const value = newProps[key];
     if (value != null) {
       const name = toCSSPropertyName(key);
-      style.setProperty(name, value);
+      const declaration = toStringOrEmpty(value);
+      const declaredValue = declaration.replace(CSS_IMPORTANT_PATTERN, '');
+      style.setProperty(
+        name,
+        declaredValue,
+        declaredValue !== declaration ? 'important' : '',
+      );
     }
   }
 }
-- 
2.43.0


From f2be788775bbfadfe3428875b6f0d2c9dbbf0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 33/50] fix: remove a style declaration that changes to an
 invalid value

---
 src/dom/part.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 1702328..3e8db72 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -411,9 +411,11 @@ function updateStyle(
   newProps: StyleMap,
 ): void {
   for (const key of Object.keys(oldProps)) {
+    // A declaration that changes is removed too, since a new value is ignored
+    // if it is invalid.
     if (
       oldProps[key] != null &&
-      (!Object.hasOwn(newProps, key) || newProps[key] == null)
+      (!Object.hasOwn(newProps, key) || !is(oldProps[key], newProps[key]))
     ) {
       const name = toCSSPropertyName(key);
       style.removeProperty(name);
-- 
2.43.0


From b523aa06ff25f50a9357d9119aac0fc130a49a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 34/50] fix: keep a transition pending until every overlapping
 one has ended

---
 src/addons/hooks.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..878be0d 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -105,14 +105,14 @@ export function Transition(): HookFunction<
   ]
 > {
   return (context) => {
-    const [isPending, setIsPending] = context.useState(false);
+    const [pendingCount, setPendingCount] = context.useState(0);
 
     const startTransition = <T>(action: (transition: number) => T): T => {
       return context.startTransition((transition) => {
         const endTransition = () => {
-          setIsPending(false, { transition });
+          setPendingCount((count) => count - 1, { transition });
         };
-        setIsPending(true, { flushSync: true });
+        setPendingCount((count) => count + 1, { flushSync: true });
         const result = action(transition);
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
@@ -123,6 +123,6 @@ export function Transition(): HookFunction<
       });
     };
 
-    return [isPending, startTransition];
+    return [pendingCount > 0, startTransition];
   };
 }
-- 
2.43.0


From 8750a7acb5b7f38881f0f2910fce8f75351228e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 35/50] fix: end a transition whose action throws synchronously

---
 src/addons/hooks.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index 878be0d..d5fc3db 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -113,7 +113,13 @@ export function Transition(): HookFunction<
           setPendingCount((count) => count - 1, { transition });
         };
         setPendingCount((count) => count + 1, { flushSync: true });
-        const result = action(transition);
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
-- 
2.43.0


From 9d0e7a57e03cc8439e4b60ed3c71ca022c9e2279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 36/50] fix: an imperative handle taken over by another
 component is not cleared

---
 src/addons/hooks.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d5fc3db..cc5116d 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -58,9 +58,12 @@ export function ImperativeHandle<T>(
       if (typeof ref === 'function') {
         return ref(createHandle());
       } else if (ref != null) {
-        ref.current = createHandle();
+        const handle = createHandle();
+        ref.current = handle;
         return () => {
-          ref.current = null;
+          if (is(ref.current, handle)) {
+            ref.current = null;
+          }
         };
       }
     }, dependencies?.concat(ref));
-- 
2.43.0


From 705894d3dc3c1a5c8456b08d9d39d2e6730be0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 37/50] fix: complete the marks of an update that fails

---
 src/addons/update-profiler.ts | 47 ++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/addons/update-profiler.ts b/src/addons/update-profiler.ts
index a126e30..aa3f36e 100644
--- a/src/addons/update-profiler.ts
+++ b/src/addons/update-profiler.ts
@@ -15,8 +15,12 @@ export class UpdateProfiler implements Middleware {
     const renderEndMark = `barebind:render-end:${update.id}`;
 
     this._userTiming.mark(renderStartMark);
-    const commit = render(update);
-    this._userTiming.mark(renderEndMark);
+    let commit: Commit;
+    try {
+      commit = render(update);
+    } finally {
+      this._userTiming.mark(renderEndMark);
+    }
 
     return () => {
       const commitStartMark = `barebind:commit-start:${update.id}`;
@@ -24,24 +28,27 @@ export class UpdateProfiler implements Middleware {
       const name = nameOf(update.transaction.scope.owner);
 
       this._userTiming.mark(commitStartMark);
-      commit();
-      this._userTiming.mark(commitEndMark);
-
-      this._userTiming.measure(
-        `Update ${name}`,
-        renderStartMark,
-        commitEndMark,
-      );
-      this._userTiming.measure(
-        `Render ${name}`,
-        renderStartMark,
-        renderEndMark,
-      );
-      this._userTiming.measure(
-        `Commit ${name}`,
-        commitStartMark,
-        commitEndMark,
-      );
+      try {
+        commit();
+      } finally {
+        this._userTiming.mark(commitEndMark);
+
+        this._userTiming.measure(
+          `Update ${name}`,
+          renderStartMark,
+          commitEndMark,
+        );
+        this._userTiming.measure(
+          `Render ${name}`,
+          renderStartMark,
+          renderEndMark,
+        );
+        this._userTiming.measure(
+          `Commit ${name}`,
+          commitStartMark,
+          commitEndMark,
+        );
+      }
     };
   }
 }
-- 
2.43.0


From b49601d90d5795c7005f3b8c7408fb4b74a9d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 38/50] fix: log an update whose commit fails as failed

---
 src/addons/update-logger.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/addons/update-logger.ts b/src/addons/update-logger.ts
index 5934456..a63e8aa 100644
--- a/src/addons/update-logger.ts
+++ b/src/addons/update-logger.ts
@@ -26,8 +26,10 @@ export class UpdateLogger implements Middleware {
       const renderDuration = performance.now() - renderStart;
       return () => {
         const commitStart: number = performance.now();
+        let status = 'FAILED';
         try {
           commit();
+          status = 'COMPLETED';
         } finally {
           const commitEnd = performance.now();
           const commitDuration = commitEnd - commitStart;
@@ -35,6 +37,7 @@ export class UpdateLogger implements Middleware {
           emitLog(
             this._logger,
             update,
+            status,
             renderDuration,
             commitDuration,
             totalDuration,
@@ -44,7 +47,7 @@ export class UpdateLogger implements Middleware {
       };
     } catch (error) {
       const totalDuration = performance.now() - renderStart;
-      emitLog(this._logger, update, -1, -1, totalDuration, 0);
+      emitLog(this._logger, update, 'FAILED', -1, -1, totalDuration, 0);
       throw error;
     } finally {
       this._transactionIndex = 0;
@@ -55,13 +58,13 @@ export class UpdateLogger implements Middleware {
 function emitLog(
   logger: LoggerAPI,
   update: Update,
+  status: string,
   renderDuration: number,
   commitDuration: number,
   totalDuration: number,
   transactionIndex: number,
 ): void {
-  const status = renderDuration >= 0 ? 'COMPLETED' : 'FAILED';
-  const statusStyle = renderDuration >= 0 ? BLUE_STYLE : RED_STYLE;
+  const statusStyle = status === 'COMPLETED' ? BLUE_STYLE : RED_STYLE;
   const priority = getPriorityFromLanes(update.lanes);
   const mode = getCommitMode(update.lanes);
   const scope = update.transaction.scope;
-- 
2.43.0


From a2ffa9b33909638fb0bbc3b0ec13480098124576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 39/50] fix: honor the delay of a callback without a
 prioritised scheduler

---
 src/dom/adapter.ts | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index b383209..ccd69ad 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -57,23 +57,30 @@ export class DOMAdapter implements HostAdapter {
       return scheduler.postTask(callback, options);
     } else {
       return new Promise((resolve) => {
-        switch (options?.priority) {
-          case 'user-blocking': {
-            const channel = new MessageChannel();
-            channel.port1.onmessage = resolve;
-            channel.port2.postMessage(null);
-            break;
-          }
-          case 'background': {
-            if (typeof requestIdleCallback === 'function') {
-              requestIdleCallback(resolve);
-            } else {
-              setTimeout(resolve, 1);
+        const request = () => {
+          switch (options?.priority) {
+            case 'user-blocking': {
+              const channel = new MessageChannel();
+              channel.port1.onmessage = resolve;
+              channel.port2.postMessage(null);
+              break;
+            }
+            case 'background': {
+              if (typeof requestIdleCallback === 'function') {
+                requestIdleCallback(resolve);
+              } else {
+                setTimeout(resolve, 1);
+              }
+              break;
             }
-            break;
+            default:
+              setTimeout(resolve);
           }
-          default:
-            setTimeout(resolve);
+        };
+        if (options?.delay) {
+          setTimeout(request, options.delay);
+        } else {
+          request();
         }
       }).then(callback);
     }
-- 
2.43.0


From 489e62f24d1c3131c3169ef225afe05cf8791a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 40/50] fix: a delayed callback no longer holds back updates
 without a delay

---
 src/runtime.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 0b40f23..be9da9d 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -23,6 +23,7 @@ import {
 } from './base.js';
 import { is } from './compare.js';
 import {
+  DelayLanes,
   getHighestPriorityLane,
   getLaneFromPriority,
   getPriorityFromLanes,
@@ -280,10 +281,13 @@ export class Runtime implements Renderer, Dispatcher {
           this._flush();
         }
       };
-      this._pendingLanes |= lanes;
       if (lanes & SyncLane) {
+        this._pendingLanes |= lanes;
         queueMicrotask(callback);
       } else {
+        // A delayed callback must not hold back the updates without a delay
+        // that share another lane with it.
+        this._pendingLanes |= lanes & DelayLanes || lanes;
         const priority = options.priority ?? getPriorityFromLanes(lanes);
         this._adapter.requestCallback(callback, { ...options, priority });
       }
-- 
2.43.0


From ec05c4a8aa016fa0e17b2f19f5a73bcbefa055f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 41/50] fix: keep no-break spaces next to line breaks in
 templates

---
 src/dom/template.ts | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 07cb66b..5df226f 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -16,8 +16,9 @@ import {
 
 const TOKEN_PATTERN = /^[0-9a-z_-]+$/;
 
-const LEADING_NEWLINE_PATTERN = /^\s*\n/;
-const TRAILING_NEWLINE_PATTERN = /\n\s*$/;
+// Only ASCII whitespace is insignificant; e.g. no-break spaces are content.
+const LEADING_NEWLINE_PATTERN = /^[\t\f\r ]*\n[\t\n\f\r ]*/;
+const TRAILING_NEWLINE_PATTERN = /[\t\f\r ]*\n[\t\n\f\r ]*$/;
 
 // https://html.spec.whatwg.org/multipage/syntax.html#attributes-2
 const ATTRIBUTE_NAME_CLASS = String.raw`[^ "'>/=\p{Control}\p{Noncharacter_Code_Point}]`;
@@ -501,11 +502,7 @@ function stripTrailingSlash(s: string): string {
 }
 
 function stripWhitespaces(s: string): string {
-  if (LEADING_NEWLINE_PATTERN.test(s)) {
-    s = s.trimStart();
-  }
-  if (TRAILING_NEWLINE_PATTERN.test(s)) {
-    s = s.trimEnd();
-  }
-  return s;
+  return s
+    .replace(LEADING_NEWLINE_PATTERN, '')
+    .replace(TRAILING_NEWLINE_PATTERN, '');
 }
-- 
2.43.0


From f4f4cd53989cfb6128627215b560be49b0ba7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 42/50] fix: minify templates in place instead of printing the
 whole module

---
 .../src/transform.ts                          | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/tools/esbuild-plugin-minify-templates/src/transform.ts b/tools/esbuild-plugin-minify-templates/src/transform.ts
index ef43e62..6450203 100644
--- a/tools/esbuild-plugin-minify-templates/src/transform.ts
+++ b/tools/esbuild-plugin-minify-templates/src/transform.ts
@@ -9,7 +9,10 @@ export async function transformTemplates(
   loader: esbuild.Loader,
   tagNames: string[],
 ): Promise<string> {
-  const module = await swc.parse(input, {
+  // swc reports positions as byte offsets relative to the first token, so put
+  // an empty statement at the very beginning.
+  const source = ';' + input.replace(/^#!/, '//');
+  const module = await swc.parse(source, {
     syntax: loader.startsWith('ts') ? 'typescript' : 'ecmascript',
     jsx: loader === 'jsx',
     tsx: loader === 'tsx',
@@ -24,17 +27,31 @@ export async function transformTemplates(
     return input;
   }
 
-  for (const expression of expressions) {
-    for (const quasi of expression.template.quasis) {
-      quasi.raw = quasi.raw
+  // Replace the templates in place instead of printing the module, which would
+  // lose comments and types that are significant for the build.
+  const quasis = expressions
+    .flatMap((expression) => expression.template.quasis)
+    .sort((a, b) => a.span.start - b.span.start);
+  const bytes = Buffer.from(source);
+  const base = module.span.start;
+  const chunks: string[] = [];
+  let offset = 0;
+
+  for (const quasi of quasis) {
+    const start = quasi.span.start - base;
+    const end = quasi.span.end - base;
+    chunks.push(
+      bytes.toString('utf8', offset, start),
+      quasi.raw
         .replace(VOID_WHITESPACE_PATTERN, '')
-        .replace(WHITESPACE_PATTERN, ' ');
-    }
+        .replace(WHITESPACE_PATTERN, ' '),
+    );
+    offset = end;
   }
 
-  const output = await swc.print(module);
+  chunks.push(bytes.toString('utf8', offset));
 
-  return output.code;
+  return input.slice(0, 2) + chunks.join('').slice(3);
 }
 
 function collectTaggedTemplateExpressions(
-- 
2.43.0


From 78dacebb0c2cd4fbea5d1fb7470f9a5d0e28adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 43/50] fix: leave significant whitespace in minified templates
 alone

---
 .../src/transform.ts                          | 62 ++++++++++++++++---
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/tools/esbuild-plugin-minify-templates/src/transform.ts b/tools/esbuild-plugin-minify-templates/src/transform.ts
index 6450203..b365326 100644
--- a/tools/esbuild-plugin-minify-templates/src/transform.ts
+++ b/tools/esbuild-plugin-minify-templates/src/transform.ts
@@ -1,6 +1,13 @@
 import * as swc from '@swc/core';
 import type * as esbuild from 'esbuild';
 
+const UNSUPPORTED_ESCAPE_PATTERN = /^(?:[^\\]|\\[`$\\])*\\(?![`$\\])|\0/;
+const MARKUP_PATTERN =
+  /<!--(?:-?>|[^]*?(?:--!?>|$))|<(iframe|noembed|noframes|pre|script|style|textarea|title|xmp)(?=[\s/>])(?:[^]*<\/\1\s*>|[^]*)|(<\/?[a-z\0](?:=\s*"[^"]*"|=\s*'[^']*'|[^>])*>)|<[!?/][^>]*>|((?:[^<]|<(?![a-z\0!?/]))+)/gi;
+const TAG_WHITESPACE_PATTERN = /(=\s*(?:"[^"]*"|'[^']*'))|\r?\n\s*(>)?/g;
+const TEXT_EDGE_PATTERN =
+  /^[\t\f\r ]*\n[\t\n\f\r ]*|[\t\f\r ]*\n[\t\n\f\r ]*$/g;
+const TEXT_WHITESPACE_PATTERN = /\r?\n[\t\n\f\r ]*/g;
 const VOID_WHITESPACE_PATTERN = /(?<=[<>])\r?\n\s*|\r?\n\s*(?=[<>])/g;
 const WHITESPACE_PATTERN = /\r?\n\s*/g;
 
@@ -30,7 +37,12 @@ export async function transformTemplates(
   // Replace the templates in place instead of printing the module, which would
   // lose comments and types that are significant for the build.
   const quasis = expressions
-    .flatMap((expression) => expression.template.quasis)
+    .flatMap(({ tag, template }) => {
+      const minify =
+        getIdentifierName(tag) === 'css' ? minifyStyles : minifyMarkup;
+      const raws = minify(template.quasis.map((quasi) => quasi.raw));
+      return template.quasis.map(({ span }, i) => ({ span, raw: raws[i]! }));
+    })
     .sort((a, b) => a.span.start - b.span.start);
   const bytes = Buffer.from(source);
   const base = module.span.start;
@@ -40,12 +52,7 @@ export async function transformTemplates(
   for (const quasi of quasis) {
     const start = quasi.span.start - base;
     const end = quasi.span.end - base;
-    chunks.push(
-      bytes.toString('utf8', offset, start),
-      quasi.raw
-        .replace(VOID_WHITESPACE_PATTERN, '')
-        .replace(WHITESPACE_PATTERN, ' '),
-    );
+    chunks.push(bytes.toString('utf8', offset, start), quasi.raw);
     offset = end;
   }
 
@@ -112,6 +119,47 @@ function isTaggedTemplateExpression(
   );
 }
 
+function minifyMarkup(raws: string[]): string[] {
+  if (raws.some((raw) => UNSUPPORTED_ESCAPE_PATTERN.test(raw))) {
+    return raws;
+  }
+
+  // A tag may span the holes of the template, so minify it as a whole.
+  return raws
+    .join('\0')
+    .replace(MARKUP_PATTERN, (source, _name, tag, text) => {
+      if (tag !== undefined) {
+        return tag.replace(
+          TAG_WHITESPACE_PATTERN,
+          (_source: string, attribute?: string, end?: string) =>
+            attribute ?? end ?? ' ',
+        );
+      }
+      if (text !== undefined) {
+        return text.split('\0').map(minifyText).join('\0');
+      }
+      return source;
+    })
+    .split('\0');
+}
+
+function minifyStyles(raws: string[]): string[] {
+  return raws.map((raw) =>
+    raw.replace(VOID_WHITESPACE_PATTERN, '').replace(WHITESPACE_PATTERN, ' '),
+  );
+}
+
+function minifyText(text: string): string {
+  if (/<\s*$/.test(text)) {
+    // Removing the whitespace would turn the following hole into a tag.
+    return text;
+  }
+
+  return text
+    .replace(TEXT_EDGE_PATTERN, '')
+    .replace(TEXT_WHITESPACE_PATTERN, ' ');
+}
+
 function shouldIgnoreProperty(key: string): boolean {
   switch (key) {
     case 'span':
-- 
2.43.0


From 3211a66bb7a10a01d53aea10db5cbf108d61bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 44/50] fix: the lint rule reports components made of anonymous
 functions once

---
 biome/use-named-component.grit | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biome/use-named-component.grit b/biome/use-named-component.grit
index c82c0d3..da4f719 100644
--- a/biome/use-named-component.grit
+++ b/biome/use-named-component.grit
@@ -4,7 +4,7 @@ language js
 or {
   JsVariableDeclarator(id=$const_name, initializer=JsInitializerClause(expression=$const_expr)) where {
     $const_expr <: JsCallExpression(callee="createComponent", arguments=JsCallArguments(args=$args)),
-    $args[0] <: JsFunctionExpression(id=$fn_name),
+    $args[0] <: JsFunctionExpression(id=JsIdentifierBinding() as $fn_name),
     not $fn_name <: $const_name,
     $fn_name => $const_name,
     register_diagnostic(span=$fn_name, message="Component function name must match the assigned const variable name.", severity="warn")
-- 
2.43.0


From 8f85b4475d518fba8f7afa3783cbe38dd43eeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 45/50] fix: move children of document fragments and shadow
 roots with their own method

---
 src/dom/block.ts | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/dom/block.ts b/src/dom/block.ts
index 8682abe..f831155 100644
--- a/src/dom/block.ts
+++ b/src/dom/block.ts
@@ -4,6 +4,9 @@ import type { DOMPart } from './part.js';
 
 const insertBefore = Element.prototype.insertBefore;
 const moveBefore = Element.prototype.moveBefore ?? insertBefore;
+// Methods of elements and of fragments are not interchangeable.
+const moveBeforeInFragment =
+  DocumentFragment.prototype.moveBefore ?? insertBefore;
 
 export class DOMBlock implements Block {
   private readonly _fragment: DocumentFragment;
@@ -41,13 +44,13 @@ export class DOMBlock implements Block {
 
   moveBefore(afterNode: ChildNode): void {
     for (const node of collectChildNodes(this._staticNodes)) {
-      moveBefore.call(afterNode.parentNode, node, afterNode);
+      moveNode(afterNode.parentNode!, node, afterNode);
     }
   }
 
   moveInto(container: Container, afterNode: ChildNode | null): void {
     for (const node of collectChildNodes(this._staticNodes)) {
-      moveBefore.call(container, node, afterNode);
+      moveNode(container, node, afterNode);
     }
   }
 
@@ -58,6 +61,18 @@ export class DOMBlock implements Block {
   }
 }
 
+function moveNode(
+  container: Node,
+  node: ChildNode,
+  afterNode: ChildNode | null,
+): void {
+  if (container.nodeType === Node.DOCUMENT_FRAGMENT_NODE) {
+    moveBeforeInFragment.call(container as DocumentFragment, node, afterNode);
+  } else {
+    moveBefore.call(container as Element, node, afterNode);
+  }
+}
+
 function collectChildNodes(staticNodes: ChildNode[]): ChildNode[] {
   const firstNode = staticNodes[0] ?? null;
   const lastNode = staticNodes.at(-1) ?? null;
-- 
2.43.0


From 04e06e678c7ced9caac08a3b3cf2020e1b38b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 46/50] fix: mount and unmount forms whose controls are named
 like methods

---
 src/dom/block.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dom/block.ts b/src/dom/block.ts
index f831155..085177e 100644
--- a/src/dom/block.ts
+++ b/src/dom/block.ts
@@ -2,7 +2,9 @@ import type { Block, Container } from '../base.js';
 import { DOMAdapterError } from './error.js';
 import type { DOMPart } from './part.js';
 
-const insertBefore = Element.prototype.insertBefore;
+// Methods are not taken from the nodes themselves, because controls of a form
+// may have the same names.
+const { insertBefore, removeChild } = Node.prototype;
 const moveBefore = Element.prototype.moveBefore ?? insertBefore;
 // Methods of elements and of fragments are not interchangeable.
 const moveBeforeInFragment =
@@ -35,7 +37,9 @@ export class DOMBlock implements Block {
   }
 
   mountBefore(afterNode: ChildNode): void {
-    afterNode.before(this._fragment);
+    if (afterNode.parentNode !== null) {
+      insertBefore.call(afterNode.parentNode, this._fragment, afterNode);
+    }
   }
 
   mountInto(container: Container, afterNode: ChildNode | null): void {
@@ -56,7 +60,9 @@ export class DOMBlock implements Block {
 
   unmount(): void {
     for (const node of collectChildNodes(this._staticNodes)) {
-      node.remove();
+      if (node.parentNode !== null) {
+        removeChild.call(node.parentNode, node);
+      }
     }
   }
 }
-- 
2.43.0


From 65d3b8aa0d0034f4ec19cb2e44784294f5480063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:54 +0000
Subject: [PATCH 47/50] fix: pass changes of an object returned by an accessor
 to its setter at once

---
 src/addons/signal/derivable.ts | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8ef1d32..367e045 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -148,16 +148,20 @@ export function unwrap<T>(value: T): T {
   return (value as any)?.[UNWRAP_TAG] ?? value;
 }
 
+// Passes changes of objects returned by accessors to their setters, since the
+// objects are stored elsewhere.
+function commitAccessors(prop: Derivable<any>): void {
+  for (let owner = prop._owner; owner !== null; owner = owner._owner) {
+    if (owner._source instanceof Accessor) {
+      commitValue(owner);
+    }
+  }
+}
+
 function commitValue<T>(receiver: Derivable<T>): T {
   if (!(receiver._flags & FLAG_NEEDS_COMMIT)) {
     return receiver._source.value;
   }
-  // Commit values of accessors first since they are stored in other properties.
-  for (const prop of receiver._properties!.values()) {
-    if (prop._source instanceof Accessor) {
-      commitValue(prop);
-    }
-  }
   const pendingValue = shallowClone(receiver._source.value);
   for (const [key, prop] of receiver._properties!.entries()) {
     if (prop._flags & FLAG_DELETED_PROPERTY) {
@@ -170,9 +174,12 @@ function commitValue<T>(receiver: Derivable<T>): T {
       prop._flags &= ~FLAG_PENDING_VALUE;
     }
   }
+  receiver._flags &= ~FLAG_NEEDS_COMMIT;
+  if (!(receiver._source instanceof Atom)) {
+    receiver._target = pendingValue;
+  }
   // SAFETY: The signal is always WritableSignal if FLAG_NEEDS_COMMIT is set.
   (receiver._source as WritableSignal<T>).write(pendingValue);
-  receiver._flags &= ~FLAG_NEEDS_COMMIT;
   return pendingValue;
 }
 
@@ -183,6 +190,7 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   const source = prop._source;
   markOwnersDirty(prop);
   dropValue(prop);
+  commitAccessors(prop);
   for (
     let owner: Derivable<unknown> | null = prop._owner,
       reversePath = [prop._key!];
@@ -522,6 +530,7 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
       synchronizeArray(receiver._owner, owner, receiver._key!, newValue);
     }
   }
+  commitAccessors(receiver);
   for (
     let owner = receiver._owner, reversePath = [receiver._key!];
     owner !== null;
-- 
2.43.0


From 520d7a7ba76abfa31202c2ac0e6275ab16a4e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 48/50] fix: reject changes of an object returned by a
 read-only accessor

---
 src/addons/signal/derivable.ts | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 367e045..03b2ddb 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -187,6 +187,7 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   if (prop._owner === null || prop._flags & FLAG_DELETED_PROPERTY) {
     return;
   }
+  ensureOwnersWritable(prop);
   const source = prop._source;
   markOwnersDirty(prop);
   dropValue(prop);
@@ -349,6 +350,18 @@ function dropValue(prop: Derivable<any>): void {
   }
 }
 
+// An object returned by an accessor without a setter cannot be replaced by the
+// changed one.
+function ensureOwnersWritable(prop: Derivable<any>): void {
+  for (let owner = prop._owner; owner !== null; owner = owner._owner) {
+    if (!(owner._source instanceof WritableSignal)) {
+      throw new TypeError(
+        `Cannot change "${String(prop._key)}" of an object returned by the read-only property "${String(owner._key)}".`,
+      );
+    }
+  }
+}
+
 function finalizeValue<T>(target: T): T {
   if (isNonPrimitive(target)) {
     if (UNWRAP_TAG in target) {
@@ -515,6 +528,7 @@ function resolveProperty<T>(
 }
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
+  ensureOwnersWritable(receiver);
   const oldValue = commitValue(receiver);
   if (receiver._source instanceof Atom) {
     detachValue(receiver, oldValue);
-- 
2.43.0


From 829b42e18a0ca30bbd5cc4f37b8e8b2e32869068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:30 +0000
Subject: [PATCH 49/50] fix: treat the same strings in another mode as another
 template

---
 src/commit.ts      |  7 ++++++-
 src/dom/adapter.ts | 29 +++++++++++++++--------------
 src/runtime.ts     |  8 ++++++++
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/commit.ts b/src/commit.ts
index 5c26336..cc03086 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -79,7 +79,12 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
+  if (
+    oldNode.type !== newNode.type ||
+    !is(oldNode.key, newNode.key) ||
+    // Templates of different modes may share their type.
+    (typeof newNode.type === 'object' && oldNode.state !== newNode.state)
+  ) {
     unmountChild(oldNode, errors);
     mountChild(newNode, afterNode, errors);
   } else if (newNode.type === Bind) {
diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index ccd69ad..7d94012 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -1,4 +1,4 @@
-import type { HostAdapter, VPortal, VTemplate } from '../base.js';
+import type { HostAdapter, TemplateMode, VPortal, VTemplate } from '../base.js';
 import { DOMBlock } from './block.js';
 import { ContainerPart } from './part.js';
 import { DOMTemplate } from './template.js';
@@ -6,8 +6,10 @@ import { DOMTemplate } from './template.js';
 export class DOMAdapter implements HostAdapter {
   private readonly _document: Document;
   private readonly _identifier = generateUniqueIdentifier(8);
-  private readonly _templateCache: WeakMap<readonly string[], DOMTemplate> =
-    new WeakMap();
+  private readonly _templateCache: WeakMap<
+    readonly string[],
+    Partial<Record<TemplateMode, DOMTemplate>>
+  > = new WeakMap();
 
   constructor(document: Document = window.document) {
     this._document = document;
@@ -36,17 +38,16 @@ export class DOMAdapter implements HostAdapter {
   }
 
   renderTemplate(element: VTemplate): DOMBlock {
-    return this._templateCache
-      .getOrInsertComputed(element.type, () =>
-        DOMTemplate.parse(
-          element.type,
-          element.children,
-          element.props.mode,
-          this._identifier,
-          this._document,
-        ),
-      )
-      .render();
+    const { type, props, children } = element;
+    const templates = this._templateCache.getOrInsertComputed(type, () => ({}));
+    const template = (templates[props.mode] ??= DOMTemplate.parse(
+      type,
+      children,
+      props.mode,
+      this._identifier,
+      this._document,
+    ));
+    return template.render();
   }
 
   requestCallback(
diff --git a/src/runtime.ts b/src/runtime.ts
index be9da9d..ee03632 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -130,6 +130,14 @@ export class Runtime implements Renderer, Dispatcher {
       );
       return newNode;
     } else {
+      if (
+        Array.isArray(newElement.type) &&
+        (oldNode.props as VTemplate['props']).mode !==
+          (newElement as VTemplate).props.mode
+      ) {
+        // The same strings are another template in another mode.
+        return this.render(newElement, scope, index, parent, oldNode.part);
+      }
       const newNode: RenderNode.BlockNode = {
         type: newElement.type,
         props: newElement.props,
-- 
2.43.0


From 51f6f1abd1e37c7bad23fedcb3f858e26ca4b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 50/50] fix: give unique identifiers to runtimes that share an
 adapter

---
 src/runtime.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index ee03632..7ce29f4 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -34,6 +34,9 @@ import {
 } from './lane.js';
 import { PriorityQueue } from './queue.js';
 
+// Runtimes may share an adapter, whose identifier is their common prefix.
+const IDENTIFIER_COUNTS = new WeakMap<HostAdapter, number>();
+
 export class Runtime implements Renderer, Dispatcher {
   /** @internal */
   readonly _updateQueue: PriorityQueue<Update> = new PriorityQueue(
@@ -46,7 +49,6 @@ export class Runtime implements Renderer, Dispatcher {
   private _pendingLanes: number = NoLanes;
   private _stagedLanes: number = NoLanes;
   private _flushLanes: number = NoLanes;
-  private _identifierCount: number = 0;
   private _transitionCount: number = 0;
   private _updateCount: number = 0;
 
@@ -163,7 +165,9 @@ export class Runtime implements Renderer, Dispatcher {
   }
 
   nextIdentifier(): string {
-    return this._adapter.getIdentifier() + '-' + this._identifierCount++;
+    const count = IDENTIFIER_COUNTS.get(this._adapter) ?? 0;
+    IDENTIFIER_COUNTS.set(this._adapter, count + 1);
+    return this._adapter.getIdentifier() + '-' + count;
   }
 
   nextTransition(): number {
-- 
2.43.0

