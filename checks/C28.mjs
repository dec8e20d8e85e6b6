// C28 Memory is bounded by what is displayed: cycles of operations repeated
// more often keep no more objects alive.
import * as v8 from 'node:v8';
import * as vm from 'node:vm';
import { words } from '../lib/explore.mjs';

export default {
  id: 'C28',
  rule: 'an item is a word of operations that is repeated; every object handed to the library or made by it in the document (props, states, actions, effects, elements, listeners, nodes, errors, handles) is tracked by a weak reference; after a full garbage collection no more may be alive after many repetitions than after few; distinct outcomes are numbers of live objects',
  assumptions: ['a full garbage collection of V8 clears every weak reference to an unreachable object'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const T = ctx.thorough;
    v8.setFlagsFromString('--expose-gc');
    const gc = vm.runInNewContext('gc');
    const { html, createComponent, createFragment, createPortal, DOMAdapter, DOMRoot, Runtime, Atom, Computed, Derivable } = B;

    let refs = [];
    const seen = new WeakSet();
    const track = (o) => {
      if (!seen.has(o)) {
        seen.add(o);
        refs.push(new WeakRef(o));
      }
      return o;
    };
    const live = async () => {
      for (const kept of [dom.unhandled, dom.warnings, dom.reported]) kept.length = 0;
      await drain();
      await new Promise((r) => dom.real.setTimeout(r, 0));
      gc();
      await drain();
      gc();
      refs = refs.filter((r) => r.deref() !== undefined);
      const n = refs.length;
      await drain();
      return n;
    };

    let api; // what the components of the running scene expose
    class Shared {
      constructor(v) {
        this.v = v;
      }
    }
    const Leaf = createComponent(function Leaf({ data }) {
      const [s, set] = this.useState(data);
      const memo = this.useMemo(() => track({ s }), [s]);
      this.useEffect(
        track(() => {
          api.leaf = set;
          void memo;
          return track(() => void s);
        }),
        [s],
      );
      return html`<i @click=${track(() => void s)} ${track((e) => track(() => void e))}>${data.n}</i>`;
    });
    const Reader = createComponent(function Reader({ data }) {
      const v = this.use(api.atom);
      const c = this.use(api.computed);
      const stored = this.use(B.SyncExternalStore(api.subscribe, api.snapshot));
      const deferred = this.use(B.DeferredValue(v));
      const event = this.use(B.EffectEvent(track(() => void data)));
      const ref = this.useRef(null);
      this.use(B.ImperativeHandle(ref, track(() => track({ v })), [v]));
      const shared = this.inject(Shared);
      const local = this.use(B.LocalAtom(data));
      const doubled = this.use(this.use(B.LocalComputed(track((a, b) => track({ n: a.n + b.n })), [local, api.atom])));
      const { scene } = this.use(B.SyncNavigation(api.router));
      this.useEffect(track(() => void event()));
      return html`<b>${v.n} ${c.n} ${stored.n} ${deferred.n} ${shared.v.n} ${doubled.n} ${scene.url} ${this.useId().length}</b>`;
    });
    const Item = createComponent(
      function Item({ data }) {
        this.useEffect(track(() => track(() => void data)), []);
        return html`<li class=${track({ a: true, n: data.n })} style=${track({ width: '1px' })} .custom=${track({ data })}>${data.n}</li>`;
      },
      { arePropsEqual: (a, b) => a.data === b.data },
    );
    const App = createComponent(function App({ data }) {
      const [n, dispatch] = this.useReducer((n, action) => track({ n: n.n + action.by }), { n: 0 });
      const [keys, setKeys] = this.useState([1, 2]);
      const [shown, setShown] = this.useState(true);
      const [fail, setFail] = this.useState(null);
      const [pending, startTransition] = this.use(B.Transition());
      const context = this;
      this.useEffect(
        track(() => {
          Object.assign(api, { dispatch, setKeys, setShown, setFail, startTransition, force: (o) => context.forceUpdate(o), keys, shown });
        }),
      );
      this.provide(track(new Shared(n)));
      if (fail !== null) throw fail;
      const items = keys.map((k) => Item({ data: track({ n: k }) }).withKey(k));
      return html`<p>${n.n} ${String(pending)} ${data.n}</p><ul><${items}></ul><${shown ? createFragment([Reader({ data }), Leaf({ data })]) : null}><${createPortal(shown ? html`<s>${data.n}</s>` : null, api.portal)}>`;
    });

    const settle = async (h) => {
      h?.finished?.catch(() => {});
      await drain();
      await host.settle();
    };
    const sync = { flushSync: true };
    let serial = 0;
    const fresh = () => track({ n: ++serial });
    const OPS = {
      state: () => settle(track(api.dispatch(track({ by: 1 }), sync))),
      async: () => settle(track(api.dispatch(track({ by: 1 }), {}))),
      skipped: () => {
        api.dispatch(track({ by: 1 }), { priority: 'background' });
        api.dispatch(track({ by: 1 }), sync);
        return settle(api.dispatch(track({ by: 1 }), { priority: 'user-blocking' }));
      },
      batch: () => {
        for (let i = 0; i < 3; i++) api.dispatch(track({ by: i }), {});
        return settle(api.setKeys(track([1, 2]), {}));
      },
      unchanged: () => settle(api.setKeys(track((keys) => keys), sync)),
      keys: () => {
        const k = ++serial;
        return settle(api.setKeys(track([k, 1, -k]), sync));
      },
      reorder: () => settle(api.setKeys(track((keys) => track([...keys].reverse())), {})),
      toggle: () => settle(api.setShown(track((x) => !x), sync)),
      leaf: () => settle(api.leaf?.(fresh(), sync)),
      abandoned: async () => {
        const h = [api.leaf?.(fresh(), { priority: 'background' }), api.setShown(false, sync)];
        await settle(h[1]);
        return settle(api.setShown(true, sync));
      },
      force: () => settle(api.force({})),
      fail: async () => {
        await settle(api.setFail(track(new Error('fault')), sync));
        return settle(api.setFail(null, sync));
      },
      failAsync: async () => {
        api.dispatch(track({ by: 1 }), { priority: 'background' });
        await settle(api.setFail(track(new Error('fault')), {}));
        return settle(api.setFail(null, {}));
      },
      render: () => settle(api.root.render(App(track({ data: fresh() })), sync)),
      renderAsync: () => {
        api.root.render(App(track({ data: fresh() })));
        return settle(api.root.render(App(track({ data: fresh() })), { priority: 'background' }));
      },
      other: async () => {
        await settle(api.root.render(track(html`<p>${track({})}</p>`), sync));
        return settle(api.root.render(App(track({ data: fresh() })), sync));
      },
      unmount: async () => {
        await settle(api.root.unmount(sync));
        return settle(api.root.render(App(track({ data: fresh() })), sync));
      },
      unmountBatch: () => {
        api.root.render(App(track({ data: fresh() })));
        api.root.unmount();
        return settle(api.root.render(App(track({ data: fresh() }))));
      },
      write: () => {
        api.atom.value = fresh();
        return settle();
      },
      store: () => {
        api.stored = fresh();
        for (const s of [...api.subscribers]) s();
        return settle();
      },
      subscribe: () => {
        const u = api.computed.subscribe(track(() => {}));
        const v = api.derived.get('a').subscribe(track(() => {}));
        api.derived.get('a').value = fresh();
        u();
        v();
        return settle();
      },
      derive: () => {
        api.derived.value = track({ a: fresh(), b: 1 });
        void api.derived.get('a').value;
        return settle();
      },
      transition: () => {
        api.startTransition(track((transition) => api.dispatch(track({ by: 1 }), { transition })));
        return settle();
      },
      middleware: async () => {
        const stop = api.runtime.use(track({ handle: (update, render) => render(update) }));
        await settle(api.force(sync));
        stop();
      },
      navigate: async () => {
        const done = api.router.navigate(`/${++serial % 5}`, { state: track({}) });
        await settle();
        await done;
      },
      derived: () => {
        const c = track(new Computed(track((a) => track({ n: a.n })), [api.atom, api.computed]));
        void c.value;
        const d = track(new Computed(track((a) => a), [c]));
        const u = d.subscribe(track(() => {}));
        api.atom.value = fresh();
        void d.value;
        u();
        return settle();
      },
      scope: () => {
        api.derived.scope(track((draft) => {
          draft.a = fresh();
          draft.b++;
        }));
        void api.derived.value;
        return settle();
      },
      properties: () => {
        const p = api.derived.get(`p${++serial % 3}`);
        const u = p.subscribe(track(() => {}));
        p.value = fresh();
        void api.derived.value;
        p.delete();
        u();
        return settle();
      },
      text: () => settle(api.root.render(App(track({ data: fresh(), children: track([html`<b></b>`, html`<i>${fresh()}</i>`]) })), {})),
      stale: async () => {
        // An update of a component that is no longer there (whose dispatch
        // function is dropped, too).
        await settle(api.setShown(false, sync));
        await settle(api.leaf(fresh(), {}));
        return settle(api.setShown(true, sync));
      },
    };
    const NAMES = Object.keys(OPS);

    async function start() {
      host.reset();
      refs = [];
      const container = document.createElement('div');
      const atom = new Atom({ n: 0 });
      const runtime = new Runtime(new DOMAdapter(document));
      const subscribers = new Set();
      api = {
        container, atom, runtime, subscribers, portal: document.createElement('section'), stored: { n: 0 }, text: null,
        computed: new Computed((a) => track({ n: a.n }), [atom]),
        derived: Derivable.from({ a: { n: 0 }, b: 1 }),
        subscribe: (s) => (subscribers.add(track(s)), () => subscribers.delete(s)),
        snapshot: () => api.stored,
        root: new DOMRoot(container, runtime),
        router: new B.InMemoryAdapter('/', null),
      };
      await settle(api.root.render(App({ data: { n: 0 } }), sync));
    }
    function trackNodes() {
      const walk = (n) => {
        for (let m = n.firstChild; m !== null; m = m.nextSibling) {
          track(m);
          walk(m);
        }
      };
      walk(api.container);
      walk(api.portal);
    }

    await ctx.space(
      'cycles',
      (function* () {
        for (let n = 1; n <= (T ? 3 : 2); n++) for (const w of words(NAMES.length, n)) yield w.map((i) => NAMES[i]);
      })(),
      async (word) => {
        await start();
        const repeat = async (n) => {
          for (let i = 0; i < n; i++) {
            for (const op of word) {
              await OPS[op]();
              ctx.count('transitions');
            }
            trackNodes();
          }
        };
        const counts = [];
        await repeat(3);
        counts.push(await live());
        await repeat(4);
        counts.push(await live());
        if (counts[1] > counts[0]) {
          // grows again?
          await repeat(8);
          counts.push(await live());
        }
        if (counts.length === 3 && counts[2] > counts[1]) {
          // A cache of some size would be full by now.
          await repeat(30);
          counts.push(await live());
        }
        ctx.outcome(counts);
        if (counts.length === 4 && counts[3] > counts[2]) return `repeating ${word} 3, 7, 15 and 45 times keeps ${counts} objects alive`;
      },
    );
    ctx.count('states', ctx.distinctSet.size);
    ctx.sample([NAMES]);
  },
};
