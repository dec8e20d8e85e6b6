#!/usr/bin/env python3
"""Writes properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })

prop('C01', 'Updating in place equals rendering from scratch',
     'Whatever sequence of values a root has been rendered with, once the updates have been committed its container (and every portal container) holds exactly the nodes a first render of the last value into an empty container would produce, apart from placeholder comments. This holds for every nesting of templates in every mode, keyed and unkeyed lists, components, portals, null values and text, for every change between two of them, and after unmounting the containers hold nothing.',
     ['inputs', 'histories'],
     'every pair (and bounded chains) of rendered trees built from templates with holes first/last/adjacent/nested, lists, keyed items, components and portals, and every position of such a tree in its surroundings',
     'The tests render a handful of hand-picked before/after pairs; an insertion point depends on which of the preceding and following siblings are empty, nested or moved, which only shows on particular combinations of shapes.',
     ['src/runtime.ts', 'src/commit.ts', 'src/dom/block.ts', 'src/dom/part.ts', 'src/dom/root.ts'],
     [('diff / render', 'src/runtime.ts'), ('patch and insertion points', 'src/commit.ts'), ('block insertion and removal', 'src/dom/block.ts')],
     ['DOM of the container and portal containers'])
prop('C02', 'Keyed children follow their keys and never lose or mix up identity',
     'For every change of a list of children with distinct keys (any value, compared as Object.is), the document shows the new children in the new order, every child whose key and type are kept keeps its DOM nodes, its component state and its running effects, every removed child is unmounted exactly once with its effects cleaned up, and every added child is a fresh one. A child that keeps its key but changes its type is replaced. Children without keys are matched by position.',
     ['inputs', 'histories'],
     'every pair of lists of bounded length over a key alphabet (all insertions, removals, permutations, replacements), chains of such changes, keys of every primitive kind',
     'The number of list transitions grows factorially; the tests cover a dozen and compare mostly text, not identity, state and effects together.',
     ['src/runtime.ts', 'src/commit.ts', 'src/component.ts', 'src/dom/block.ts'],
     [('child reconciliation', 'Runtime._diffChildren in src/runtime.ts'), ('mutations', 'applyMutations in src/commit.ts')],
     ['DOM node identity', 'component state and effect log'])
prop('C03', 'Component state is the fold of all dispatched actions in dispatch order',
     'When all updates have settled, the state of a mounted component equals its reducer (or functional state updater) applied to every dispatched action, once, in the order of dispatch, whatever scheduling option each dispatch used and in whatever order the host ran its callbacks. On the way, the displayed state is always the fold of a subset of the actions in dispatch order, and an action that has been displayed stays displayed. Only a transient action counts in the renders of its own lanes alone, and a passthrough state starts from the initial value again in every render without new actions.',
     ['schedules', 'histories'],
     'every sequence of up to four dispatches over the scheduling options (default, sync, three priorities, transitions, delays, handlers and mixtures) on one or several state hooks, and every interleaving with the pending host callbacks',
     'Lost or reordered actions need an urgent update to overtake a skipped one at a particular moment; a test pins one order of host callbacks.',
     ['src/component.ts', 'src/runtime.ts', 'src/lane.ts', 'src/queue.ts'],
     [('action queue with lanes and rebasing', 'RenderContext.useReducer in src/component.ts'), ('lane batching', 'Runtime._flush in src/runtime.ts')],
     ['displayed state after every host callback'])
prop('C04', 'Every scheduled update settles, once, when and how its options say',
     'Every update handle settles once the host is idle, and it resolves only after the effect of the update is in the document; step() reports that nothing is pending exactly when every update has settled. A synchronous update is in the document as soon as the microtasks have run and no earlier flush is waiting for the host; any other update leaves the document untouched until the host has run the requested callback and then the requested frame, or a caller-supplied commit handler has invoked the commit, unless it is committed together with a synchronous update. This also holds for updates scheduled from within effects, event listeners, renders, commit handlers and the resolution of other updates, with a host that has a prioritised scheduler or only timers, message channels, idle callbacks and frames.',
     ['schedules', 'configurations'],
     'every interleaving of up to four (nested) updates with the pending host callbacks in every host configuration',
     'The tests await each update before issuing the next; a stuck or early update needs a particular overlap of a running flush, an unstaged update and a later callback.',
     ['src/runtime.ts', 'src/dom/adapter.ts', 'src/lane.ts', 'src/queue.ts'],
     [('schedule / _flush', 'src/runtime.ts'), ('requestCallback / requestCommit', 'src/dom/adapter.ts'), ('update queue', 'src/queue.ts')],
     ['settlement of handles', 'DOM snapshots between host callbacks'])
prop('C05', 'Overlapping updates of a tree commit as one consistent whole',
     'Whatever updates of parents, children and the root overlap, with any scheduling options and host callback order, the document is at every moment the rendering of one version of the root and one state per mounted component: nothing is duplicated, lost, torn or left behind, effects are active for exactly the mounted components, and a removed component is not rendered again. When the host is idle, the document shows the last rendered version of the root (or nothing after unmounting) and every mounted component shows all its updates.',
     ['schedules', 'histories'],
     'every sequence of up to three or four operations (parent and child state updates that restructure their output, root renders and unmounts) over scheduling options, and every interleaving with the host callbacks',
     'It takes two updates of related components in one batch, prepared in the wrong order or against a tree that another update replaces; tests issue one update at a time.',
     ['src/runtime.ts', 'src/component.ts', 'src/commit.ts', 'src/dom/root.ts'],
     [('batching', 'Runtime._flush in src/runtime.ts'), ('component update transaction', 'src/component.ts'), ('root transactions', 'src/dom/root.ts')],
     ['DOM after every host callback', 'effect balance'])
prop('C06', 'Effects run exactly when their dependencies say, and are always cleaned up',
     'An effect is set up after the commit that first renders it and again after exactly those commits whose render gave it changed (or no) dependencies; before each new setup and on unmounting, its previous cleanup runs exactly once, and setups always find the committed document. Renders that are never committed and renders that leave the dependencies unchanged run neither, effects of children run before those of their parents, effects of one component run in order, and no effect is active in an unmounted tree.',
     ['histories', 'schedules'],
     'every sequence of renders with changing dependencies, mounts, moves and removals for components with several effects, parents and children, and overlapping updates',
     'Tests check single components; skipped, duplicated or misordered cleanups depend on a combination of bail-out, move, replacement and overlapping updates.',
     ['src/component.ts', 'src/commit.ts', 'src/runtime.ts', 'src/compare.ts'],
     [('useEffect and connect/disconnect', 'src/component.ts'), ('afterCommit', 'src/commit.ts')],
     ['effect log'])
prop('C07', 'A failing render rejects its update and leaves the document as it was',
     'When a component throws while rendering, every update of that batch is rejected with an error that carries the original as its cause and names the component, and the document, its nodes and the running effects stay as they were before. Later updates work as if the failed one had not been attempted, except that state actions dispatched before it are kept and shown once their component renders again. No error thrown while rendering, by an effect or while writing a binding leaves an update unsettled or resolved, stops or corrupts later updates, or keeps other effects and bindings of the same commit from being run and written.',
     ['fault_sequences', 'histories', 'schedules'],
     'a throw injected at every render of every component of a tree (first render, update, child of an updated parent, list insertion), followed by every later operation',
     'The atomicity of an aborted render shows only in what later updates do; the tests stop at the rejected handle.',
     ['src/runtime.ts', 'src/component.ts', 'src/error.ts', 'src/commit.ts', 'src/dom/root.ts'],
     [('batch try/catch', 'Runtime._flush in src/runtime.ts'), ('RenderError.withScope', 'src/error.ts')],
     ['DOM, effects and handles after the failure and after every later operation'])
prop('C08', 'Signals are glitch-free and every reader ends on the current value',
     'A writable signal always reads its last written value; a computed signal always reads its computation applied to the current values of its dependencies (through any graph of computed signals) and recomputes only if one of them has changed; subscribers of a writable signal are notified exactly once for each write that changes its value, and subscribers of a computed one for each change of something it depends on, from subscription to unsubscription. When the host is idle, every mounted component or hole reading a signal shows its current value, however writes interleave with rendering, committing, mounting, unmounting and switching signals, and an unmounted reader holds no subscription.',
     ['schedules', 'histories'],
     'every sequence of writes, reads, subscriptions and unsubscriptions over small graphs, and every interleaving of writes with the rendering and committing of readers',
     'A missed update needs a write between the render of a reader and its subscription; a stale computed needs a particular order of writes and reads in a diamond.',
     ['src/addons/signal/signal.ts', 'src/addons/signal/hooks.ts', 'src/addons/signal/linked-list.ts'],
     [('versions and memoization', 'Computed in src/addons/signal/signal.ts'), ('subscription from effects', 'Signal.onUse'), ('subscriber list', 'src/addons/signal/linked-list.ts')],
     ['signal reads', 'subscriber calls', 'DOM'])
prop('C09', 'Derivable signals behave as an immutable value with lenses',
     'For plain objects, class instances and arrays without cycles: after any sequence of property writes, deletions and drafts through any level of a derivable signal, its value equals the plain object that the same operations would produce on an ordinary copy, reads through properties and drafts agree with it, objects previously read are never modified, and unchanged sub-objects keep their identity; changes of an object returned by an accessor go to its setter, or are rejected if it has none. Subscribers of a property, and of every ancestor of it, are notified of every change made through that path (shallow ones only of changes of the property itself), are told the path to it with the old and new value, and read the new value then.',
     ['histories', 'inputs'],
     'every sequence of bounded length of get, set, delete and draft operations over nested plain objects with plain, nested, missing and accessor properties',
     'The lazily committed pending values, deleted and dynamic properties interact only in particular orders of reads and writes at different levels.',
     ['src/addons/signal/derivable.ts', 'src/addons/signal/signal.ts'],
     [('pending commits', 'commitValue / setPendingValue in src/addons/signal/derivable.ts'), ('draft proxy', 'draftTarget')],
     ['values read back', 'notifications'])
prop('C10', 'Routing resolves the first matching route with exactly its captures',
     'A router resolves a URL to the result of the first route, in declaration order and descending into a nested route as soon as its prefix matches, whose patterns match the whole path, passing the captures of that route and its ancestors in order and nothing else, and to undefined if there is none or it has no resolver. The supplied matchers accept exactly the components they describe: keywords themselves, integers their canonical decimal form, decoded components their percent-decoding, regular expressions their matches, choices the first accepting alternative and selections the selected value.',
     ['inputs', 'programs'],
     'every route tree of bounded depth and width over literal, capturing and rejecting patterns and every URL over a small component alphabet',
     'Captures left over from routes that matched a prefix and were abandoned need a particular combination of siblings and URL.',
     ['src/addons/router/router.ts', 'src/addons/router/matchers.ts'],
     [('match', 'Router.match in src/addons/router/router.ts'), ('matchers', 'src/addons/router/matchers.ts')],
     ['return value and resolver arguments'])
prop('C11', 'Navigation state follows the adapter and settles after the scene is shown',
     'A component using synchronized navigation shows the URL, state and kind of the latest navigation its adapter reported, provides it to all descendants, and a navigation finishes only after its scene is in the document, or the handler of the application\'s own interception, whose options are passed on, has settled. Browser navigations are intercepted exactly if they are same-document, interceptable, not downloads and not mere fragment changes (for hash routing: exactly the fragment changes); the in-memory adapter reports the URL and state of the last navigation that finished, and listeners hear every navigation from registration to removal.',
     ['schedules', 'configurations', 'histories'],
     'every combination of navigation event attributes, and every interleaving of overlapping navigations, listener changes, mounts and unmounts with host callbacks',
     'Tests drive one navigation at a time with one set of flags.',
     ['src/addons/router/adapter.ts', 'src/addons/router/hook.ts'],
     [('navigate interception', 'src/addons/router/adapter.ts'), ('SyncNavigation', 'src/addons/router/hook.ts')],
     ['DOM', 'adapter url/state', 'intercept calls'])
prop('C12', 'Templates bind every value at its place and never as markup',
     'Every well-formed template renders the markup it was written with, each value bound to the element, attribute, property, event, text or child position where it was written and to nothing else, whatever surrounds it and in whatever order and number holes occur. A value is never parsed as markup, rendering the same template again yields fresh nodes with the same structure, and a template whose expressions are not at such a position is rejected with an error instead of binding values elsewhere.',
     ['inputs', 'programs'],
     'every template of bounded size over an alphabet of markup fragments and hole kinds (HTML, SVG, MathML and text modes, raw text elements, comments, whitespace, several roots), and values containing markup',
     'The position of a hole is found by walking a parsed tree that the walk itself modifies; the tests cover some thirty templates.',
     ['src/dom/template.ts', 'src/dom/block.ts', 'src/dom/adapter.ts', 'src/velement.ts'],
     [('hole collection', 'parseTemplate in src/dom/template.ts'), ('path navigation', 'navigateNode in src/dom/template.ts')],
     ['rendered DOM and bound values'])
prop('C13', 'Composed template fragments equal the template written out by hand',
     'A template composed of literal and parsed fragments, nested to any depth, in any position and number, has exactly the strings and values of the same template written out in one piece, whatever compositions the same template site has been used with before. Composing the same fragments at the same site again yields the same template identity, so that its nodes are updated and not replaced.',
     ['inputs', 'histories', 'programs'],
     'every sequence of up to three compositions of fragments of bounded size at the same site',
     'A wrong cache hit needs two different compositions whose flattened pieces coincide.',
     ['src/velement.ts'],
     [('fragment interpolation and its cache', 'Partial.parse in src/velement.ts')],
     ['strings, values and DOM'])
prop('C14', 'Provided values reach exactly the descendants that ask for them',
     'Requesting a class resolves to the instance of it (or of a subclass) provided by the nearest component up the hierarchy, the requesting component included, as of the update in which the requesting component was last reached from above, and to the latest one if that component provided several; otherwise to the default if the class has one, otherwise to an error naming the class. Siblings, other roots and ancestors never see it, for descendants rendered with, after and independently of their provider.',
     ['programs', 'histories'],
     'every component chain of bounded depth with every placement of providers and requests, and every sequence of re-renders of parents and children',
     'A descendant that re-renders on its own looks up the scope captured earlier; the tests only render top-down.',
     ['src/component.ts', 'src/base.ts', 'src/runtime.ts'],
     [('Scope', 'src/base.ts'), ('inject / provide', 'src/component.ts')],
     ['resolved instances'])
prop('C15', 'An event reaches exactly the listener bound by the last commit',
     'At every moment, dispatching an event to an element invokes exactly the listener last committed for it (function or object form, at most once, with its capture, once, passive and signal options), and none after it was replaced by null or its template was unmounted. Changing the listener never changes its place among other listeners unless the options change, and a value that is not a listener is rejected.',
     ['histories', 'inputs'],
     'every sequence of bounded length of listener values (functions, objects, option combinations, null, undefined, invalid) at one or several holes, with dispatches in between, including lists of listeners and dispatches during updates',
     'Stale or doubled listeners need a particular order of option changes.',
     ['src/dom/part.ts', 'src/commit.ts'],
     [('EventPart', 'src/dom/part.ts')],
     ['listener invocations'])
prop('C16', 'Element references follow the element they are bound to',
     'A reference callback is called with its element once when it is bound, its cleanup once when it is replaced or its element is unmounted, and again only when a different callback is bound; a reference object holds the element exactly while it is bound and null (never an element that is gone) otherwise, even if references are swapped, shared, conditional or bound several at a time. References are set before the effects of the same commit run.',
     ['histories', 'inputs'],
     'every sequence of bounded length of reference values at one or two holes (callbacks, objects, lists, null), with moves, replacements and unmounts',
     'Order of detaching and attaching when references are swapped between elements.',
     ['src/dom/part.ts', 'src/component.ts', 'src/commit.ts'],
     [('ElementPart', 'src/dom/part.ts'), ('Ref', 'src/component.ts')],
     ['callback log and ref contents'])
prop('C17', 'Attribute, class, style, property and live bindings show the last value',
     'After any sequence of values, an attribute is absent for null, undefined and false, present and empty for true and otherwise the value as a string; class and style bindings leave exactly the tokens and declarations of the last value, removing all earlier ones and keeping those set from outside; a property holds the last value, being written only if it changed; a live property equals the last value after every commit of its template even if the user changed it meanwhile. Text holes show the string of the last value, with null and undefined shown as empty.',
     ['histories', 'inputs'],
     'every sequence of bounded length over an alphabet of values of every kind (strings, numbers, booleans, null, undefined, objects, maps with overlapping and differently spelled names) for each kind of binding',
     'Removal of old tokens and declarations depends on pairs of differently shaped values.',
     ['src/dom/part.ts', 'src/dom/template.ts'],
     [('AttributePart, ClassPart, StylePart, PropertyPart, LivePart, CharacterDataPart', 'src/dom/part.ts')],
     ['attributes, properties and text after every commit'])
prop('C18', 'Memos, refs, callbacks and identifiers are stable exactly as declared',
     'A memoized value is recomputed exactly when one of its dependencies has changed since the previous render (compared as Object.is, by count and position), memoized callbacks and reference objects keep their identity accordingly, state setters never change identity, and identifiers are stable per component instance and unique across instances and roots. Calling hooks of different kinds (state, memo, effect, identifier), or a different number of them, from one render to the next is rejected with an error instead of mixing up their data.',
     ['histories', 'programs'],
     'every sequence of bounded length of dependency lists over a value alphabet, every pair of hook lists',
     'Dependency comparison and hook-order violations only show on specific pairs of renders.',
     ['src/component.ts', 'src/compare.ts'],
     [('useMemo, useId, useRef, ensureHookType, finalizeContext', 'src/component.ts'), ('sequentialEqual', 'src/compare.ts')],
     ['hook results'])
prop('C19', 'Hook add-ons keep external state, deferral and transitions in step',
     'When no commit is waiting for the host, a component subscribed to an external store shows its current snapshot whatever the timing of store changes, re-subscriptions and unmounts, and an unmounted one is not subscribed; a deferred value shows the latest value and before that only earlier ones; a transition reports pending from its start until the work it wraps has settled and been shown, even if several overlap or fail; an effect event always calls the latest committed callback; and an imperative handle is set exactly while its component is mounted, and renewed when its dependencies change.',
     ['schedules', 'histories'],
     'every interleaving of store changes, value changes, overlapping transitions (resolving or rejecting), re-renders and unmounts with host callbacks',
     'Missed store changes and stuck pending flags need a change between render and subscription or a particular order of overlapping transitions.',
     ['src/addons/hooks.ts'],
     [('SyncExternalStore, DeferredValue, Transition, EffectEvent, ImperativeHandle', 'src/addons/hooks.ts')],
     ['DOM', 'subscriptions', 'handle refs'])
prop('C20', 'Middleware sees every rendered update once and never changes it',
     'Every middleware in use handles each update that is rendered exactly once, in order of registration around the actual rendering, from registration to removal, and the commit it returns is the one performed. Logging and profiling middleware report each update with its identity, owner, outcome and times in balanced groups and marks, whether rendering or committing succeeds or fails, and with them in use the document, the order of effects and the settlement of handles are the same as without.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every schedule of updates (succeeding and failing) with every combination of middlewares',
     'Interaction of failures with the report and with batching is not covered.',
     ['src/runtime.ts', 'src/addons/update-logger.ts', 'src/addons/update-profiler.ts'],
     [('runPipeline', 'src/runtime.ts'), ('UpdateLogger', 'src/addons/update-logger.ts'), ('UpdateProfiler', 'src/addons/update-profiler.ts')],
     ['log and marks', 'DOM'])
prop('C21', 'The host adapter runs each requested callback exactly once and ranks events',
     'In every host environment (with or without a prioritised scheduler, idle callbacks, visible frames), each callback and commit requested from the host adapter runs exactly once, asynchronously, in a task of the requested priority and not before the requested delay, and its promise settles after it with its outcome. Updates scheduled without options are urgent inside discrete events and while the document is loading, less urgent inside continuous events, and background work otherwise.',
     ['configurations', 'schedules', 'inputs'],
     'every host configuration, priority, delay, number of concurrent requests and order of host events (frame first, timer first), every event type',
     'The tests run in one environment at a time with mocked globals and one request.',
     ['src/dom/adapter.ts'],
     [('requestCallback, requestCommit, getTaskPriority', 'src/dom/adapter.ts')],
     ['callback runs', 'host requests'])
prop('C22', 'Minified templates render the same document',
     'Building a module with the template-minifying plugin changes nothing but insignificant whitespace and comments inside tagged templates: the built module binds every value at the same place and renders the same document as the original, whatever templates, tags, nesting, escapes and surrounding code it contains. Code outside such templates, and templates with other tags, are left as they are.',
     ['inputs', 'programs'],
     'every template of bounded size over an alphabet of markup, whitespace, quotes, comments, escapes and holes in every tag mode, in every kind of surrounding code',
     'Minification decides by looking at neighbouring characters; a handful of samples does not cover the combinations.',
     ['tools/esbuild-plugin-minify-templates/src'],
     [('template minification', 'tools/esbuild-plugin-minify-templates/src')],
     ['rendered DOM of original and built module'])
prop('C23', 'Unaffected components are not rendered and unaffected nodes not touched',
     'A component is rendered by a batch of updates only if it is being updated itself (by a state change or by force) or it is reached with props its comparison tells apart, and then once; a child reached with equal props, or with the very same element, is skipped with its whole subtree, except for descendants with updates of their own. A commit writes nothing for a binding that gets the same value as before (a live binding: the value the node has), removes or moves none of the list items that stay in their order, removes a template as a whole, and touches nothing outside what is updated.',
     ['histories', 'inputs'],
     'every sequence of updates over trees of components with every comparison outcome, and every pair of values and lists, observing all mutations of the document',
     'The tests compare final content; a superfluous write (losing focus, selection or scroll position) leaves the content the same.',
     ['src/runtime.ts', 'src/commit.ts', 'src/dom/part.ts', 'src/component.ts'],
     [('bail-outs in diff', 'src/runtime.ts'), ('applyPatch', 'src/commit.ts')],
     ['render counts', 'mutation records'])

prop('C24', 'The lint rule reports exactly the components not named like their variable',
     'In every declaration of a variable, the lint rule reports a component created from a function expression whose name is not exactly the name of the variable, and wherever it is created, a component created from an anonymous function or an arrow function. Each is reported once, with the message for its case and at its place, whatever the form of the function, the type arguments, further arguments, comments or surrounding code; nothing else is reported.',
     ['inputs'],
     'every combination of declaration, place, call and function form with matching and nearly matching names, linted by the real linter with the rule',
     'The tests lint a dozen snippets; a rule is a pattern over all programs, and a superfluous or missing report shows only for particular combinations.',
     ['biome/use-named-component.grit'],
     [('the rule', 'biome/use-named-component.grit')],
     ['reported diagnostics'])

prop('C25', 'Errors and warnings show the place they are about',
     'In development, an error about a rejected value or a misplaced expression, and the warning about a template bound where none can be mounted, shows the markup around the node concerned, with one line of carets under exactly the attribute, the tag, the text or the comment it is about. An error thrown by a component is reported with the path of components from the root to that component, in every form of nesting and whether it was mounting or updating, and marks the last of them. In production the message is the plain first line, and nothing is logged.',
     ['inputs', 'histories'],
     'every place of every kind of faulty expression in all trees of markup up to a bound; a fault in every component of every path of nesting forms',
     'The tests format a dozen nodes and one owner stack; whether the marks meet the place depends on the markup around it.',
     ['src/dom/debug.ts', 'src/dom/error.ts', 'src/dom/template.ts', 'src/dom/part.ts', 'src/error.ts', 'src/debug.ts'],
     [('generateNodeFrame', 'src/dom/debug.ts'), ('formatOwnerStack', 'src/error.ts')],
     ['messages of errors and warnings'])

prop('C26', 'Rendering is the same in every build, container, document and host',
     'The same history of renders, updates, failures and unmounts gives the same content, keeps the same nodes, and runs the same effects, event listeners and references in the development and the production build, with or without the optional features of the host (moveBefore, a prioritised scheduler, idle callbacks), in elements, document fragments and shadow roots, attached or not, in the main and in other documents. Content that a container already has stays in place, and the names of the controls in a form make no difference.',
     ['configurations', 'histories'],
     'every history of trees, keyed lists and updates of the bounded spaces in every environment, compared step by step with the base environment',
     'The tests run in one environment: the development build in elements of the main document.',
     ['src/dom/block.ts', 'src/dom/adapter.ts', 'src/dom/part.ts', 'src/dom/template.ts', 'src/dom/root.ts', 'src/component.ts', 'src/velement.ts'],
     [('moves and removals', 'src/dom/block.ts'), ('DEBUG blocks', 'src/component.ts')],
     ['DOM, node identity, effects, events in every environment'])

prop('C27', 'A value renders alike however it is written, wherever and how often it is used',
     'A list renders alike whether it is an array, a fragment or any other iterable (iterated once, to its end), and an element, a list or a value that is wrapped in a bindable object or function renders as what it converts itself to, even if it is iterable too. Changing only the form keeps the nodes and runs no effects. The same element object can be used at several places, in several roots and again later, each use with nodes, state and effects of its own.',
     ['inputs', 'histories'],
     'every history of up to three values in every pair of forms at every place, and every history of two roots sharing elements',
     'The tests use arrays and fresh elements nearly everywhere.',
     ['src/velement.ts', 'src/base.ts', 'src/runtime.ts', 'src/component.ts'],
     [('wrap', 'src/velement.ts'), ('diff', 'src/runtime.ts')],
     ['DOM, node identity, effects, events'])

prop('C28', 'Repeating operations keeps no more memory than what is displayed needs',
     'However often the same operations are repeated, the library keeps no growing number of objects alive: replaced props, states, actions, effects, listeners and nodes, updates that were skipped, superseded, batched, failed or abandoned, removed subtrees, ended subscriptions of signals and stores, derived signals that are no longer used and removed middlewares can all be collected once what is displayed no longer depends on them. This holds for renders, updates of every priority, keyed changes, transitions, failures, unmounts and navigation, alone and combined. Updates asked of a component after it was unmounted, through a function that the application keeps, and compositions of ever new template fragments are excepted.',
     ['histories'],
     'every word of operations up to a bound, repeated as a cycle, with every object handed over or created tracked through full garbage collections',
     'The tests never look at what is retained; a leak needs repetition and a collector to show.',
     ['src/runtime.ts', 'src/component.ts', 'src/signal.ts', 'src/derivable.ts', 'src/velement.ts', 'src/dom/adapter.ts', 'src/dom/part.ts', 'src/addons'],
     [('unsubscriptions, mutation queues and pending actions', 'src/component.ts'), ('runtime queues', 'src/runtime.ts')],
     ['liveness of objects after garbage collection'])

prop('C29', 'Roots do not affect each other',
     'What happens in one root (renders, updates of every priority, events, failures of renders and effects, unmounts) never changes what another root shows, which nodes, effects, references and listeners it has, or how its updates end, whether the two share an adapter, a runtime or nothing, follow or overlap each other, or one is mounted within the other. Identifiers differ between all of them. Only updates of roots with one runtime that are rendered in the same batch fail together.',
     ['histories', 'schedules'],
     'two roots driven through every merge of their operations and every interleaving with host callbacks, compared with each of them alone',
     'The tests render one root at a time; interference needs two histories that interleave.',
     ['src/runtime.ts', 'src/component.ts', 'src/dom/root.ts', 'src/dom/adapter.ts', 'src/commit.ts'],
     [('nextIdentifier, batches', 'src/runtime.ts'), ('template cache', 'src/dom/adapter.ts')],
     ['DOM, node identity, effects, outcomes of updates'])

prop('C30', 'What is handed over is never modified',
     'Values given to the library (lists, class and style maps, listener objects, properties, props, dependencies, states, actions, options, initial values of signals, routes, navigation states, template strings) are only read, never written, extended, sorted, frozen or sealed, and may be frozen without any difference; only a draft stored within another value is replaced by what it stands for. The same values can therefore be handed over again, with the same results.',
     ['histories', 'inputs'],
     'every history of values per kind of place, rendered with plain values, with deeply frozen ones, and with stand-ins that record every attempt to modify them',
     'The tests compare results; a modified argument shows only when it is used again or frozen.',
     ['src/velement.ts', 'src/component.ts', 'src/runtime.ts', 'src/dom/part.ts', 'src/addons'],
     [('wrap, createFragment', 'src/velement.ts'), ('updateClass, updateStyle', 'src/dom/part.ts')],
     ['attempts to modify, DOM, effects, outcomes'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = p['statement'].replace('...', '').count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
